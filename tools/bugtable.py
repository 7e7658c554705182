#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (run by hand)."""
import json, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
missed = dict(l.rstrip('\n').split('\t') for l in open('tools/missed.tsv') if '\t' in l)
rows = ['| planted bug | caught by | needs | missed at first, strengthened by |', '|---|---|---|---|']
for d in sorted(glob.glob('seeded/*')):
    m = json.load(open(d + '/meta.json')); b = os.path.basename(d)
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {missed.get(b, '')} |")
s = open('DESIGN.md').read()
h = '## Planted bugs'
s = s[:s.index(h)].rstrip() + '\n'
s += '\n' + h + '\n`seeded/`: independent changes that compile, pass the stable tests and break a property; unless noted, each is caught by the\nquick check of its property.  Rejected because a stable test fails: c01-opposite-quotient, c01-cancel, c07-skip-inner,\nc17-unflattened, c13-unit-fractions, c19-denominator-fold.\n\n' + '\n'.join(rows) + '\n'
open('DESIGN.md', 'w').write(s)
