#!/usr/bin/env python3
import json
TECH = {
 "C01": "runtime monitoring: random operator workload, value oracle over GF(p) and f64 intervals, edge-coverage feedback",
 "C02": "runtime monitoring: random powers, exact / GF(p) / interval value oracle",
 "C03": "runtime monitoring: logarithms around perfect powers, exact integer oracle and interval oracle",
 "C04": "runtime monitoring: value of every expression before and after expand()",
 "C05": "runtime monitoring: expand() against an independent uncollected cross-product model",
 "C06": "runtime monitoring: value of every expression before and after simplify()",
 "C07": "runtime monitoring: simplify() against independent sparse polynomial arithmetic, metamorphic respellings",
 "C08": "runtime monitoring: seven comparison predicates against exact polynomial subtraction",
 "C09": "runtime monitoring: predicate verdicts against values at random assignments, consistency monitor",
 "C10": "runtime monitoring: metamorphic permutation / regrouping of operands",
 "C11": "runtime monitoring: law checker for ==, cmp, hash over pairs and triples, ordered and hashed collections as observers",
 "C12": "runtime monitoring: Symbol operators against BigInt / f64 reference",
 "C13": "runtime monitoring: containers and selectors against independently filtered operand lists",
 "C14": "runtime monitoring: rendering parsed back by an independent parser",
 "C15": "sanitizers: AddressSanitizer, overflow and debug checks, panic / edge-budget / heap-budget monitors under hostile workloads",
 "C16": "runtime monitoring: repeated, threaded, twin-process and permuted executions compared",
 "C17": "runtime monitoring: shape invariant inspected on every node of every result",
 "C18": "runtime monitoring: each rewrite rule's input and output value compared",
 "C19": "runtime monitoring: Rational API and rational simplification against exact BigRational",
 "C20": "runtime monitoring: metamorphic renaming / replacement of variables by opaque expressions, results compared structurally",
 "C21": "runtime monitoring: metamorphic cancelling and collecting of arbitrary sub-formulas, simplified spellings compared",
 "C22": "runtime monitoring: metamorphic relations between a transformation of a whole and of its parts, and between verdicts on related pairs",
}
NOTE = ("Explores generated executions only: a violation is a real execution of the real code; silence means none of the "
        "executions observed (counts, distinct cases, edges in the evidence) violated it. Trusts the num crate, the harness' "
        "own evaluator / parser / polynomial arithmetic, and the domain stated in properties.jsonl and DESIGN.md.")
checks = []
for i, t in TECH.items():
    checks.append(dict(property=i, quick_cmd=f"/verif/check.sh {i} quick", thorough_cmd=f"/verif/check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=NOTE))
json.dump(dict(version=1, setup_cmd="/verif/setup.sh", checks=checks, not_applicable=[],
    notes="No hooks in /repo: everything observed is public API; edge coverage is put into the ncas crate by /verif/harness/rustc-wrapper.sh at compile time."),
    open("/verif/MANIFEST.json", "w"), indent=1)
