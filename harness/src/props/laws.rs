//! C10 C11 C13 C14: laws of the data structure itself.
use super::*;
use crate::term::Term::*;
use ncas::base::associative_operation::AssociativeOperation;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::operation::Operation;
use ncas::base::symbol::Symbol;
use num::bigint::BigInt;
use num::{Signed, Zero};
use std::cmp::Ordering;
use std::collections::{hash_map::DefaultHasher, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

pub fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
/// a second, byte-wise hasher: equality of hashes must not depend on the hasher
#[derive(Default)]
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
fn h2<T: Hash>(x: &T) -> u64 {
    let mut s = Fnv(0xcbf29ce484222325);
    x.hash(&mut s);
    s.finish()
}

// ------------------------------------------------------------------ C10

/// random parenthesisation of a list of operands
fn group(mut es: Vec<Expression>, is_sum: bool, t: &mut Tape, depth: usize) -> Expression {
    if es.len() <= 2 || depth == 0 || t.chance(60) {
        return term::combine(es, t.byte(), is_sum);
    }
    let mut parts = vec![];
    while !es.is_empty() {
        let n = 1 + t.below(es.len().min(3));
        let tail = es.split_off(es.len() - n);
        parts.push(if n == 1 && t.chance(200) { tail.into_iter().next().unwrap() } else { group(tail, is_sum, t, depth - 1) });
    }
    term::combine(parts, t.byte(), is_sum)
}

pub fn c10(t: &mut Tape, obs: &mut Obs) -> Res {
    let is_sum = t.chance(128);
    let with_real = t.chance(70);
    let n = match t.below(10) {
        0..=2 => 2,
        3..=5 => 3,
        6..=7 => 4,
        8 => 6,
        _ if t.chance(60) => gen::wide_len(t),
        _ => t.range(1, 9) as usize,
    };
    let d = if n > 10 { t.below(2) } else { 2 };
    let k = if with_real || t.chance(128) { Kind::Exact } else { Kind::LogInt };
    let mut ops = gen_many(t, k, n, d)?;
    if k == Kind::LogInt {
        ops.retain(|x| !x.has_real());
    }
    // kinds of operand the exact formulas do not have
    if !with_real && t.chance(50) && n < 10 {
        let v = |t: &mut Tape| Box::new(term::var(t.pick(&gen::BASE_VARS)));
        let x = match t.below(3) {
            0 => Log(v(t), v(t), 0),
            1 => Sin(v(t)),
            _ => Cos(v(t)),
        };
        ops.push(x);
    }
    // operands an identity might bring together
    if !with_real && n < 10 && t.chance(60) {
        let v = |t: &mut Tape| Box::new(if t.chance(40) { term::int(t.range(2, 9)) } else { term::var(t.pick(&gen::BASE_VARS)) });
        let (a, b, c) = (v(t), v(t), v(t));
        let m = Box::new(if t.chance(100) { term::int(t.range(2, 5)) } else { term::var(t.pick(&gen::EXP_VARS)) });
        let more = match t.below(9) {
            0 => vec![Log(a, b.clone(), 0), Log(b, c, 0)],
            1 => vec![Log(a.clone(), b.clone(), 0), Log(b, a, 0)],
            2 => vec![Log(a, c.clone(), 0), Log(b, c, 0)],
            3 => vec![Sub(a.clone(), b.clone(), 0), Sub(b, a, 0)],
            4 => vec![Pow(Box::new(Sin(a.clone())), Box::new(term::int(2)), 0), Pow(Box::new(Cos(a)), Box::new(term::int(2)), 0)],
            5 => vec![Pow(a.clone(), m.clone(), 0), Pow(a.clone(), Box::new(term::neg(*m)), 0), *a],
            6 => vec![Pow(a.clone(), m.clone(), 0), Pow(b.clone(), m, 0)],
            7 => vec![Div(a.clone(), b.clone(), 0), Div(b, a, 0)],
            _ => vec![Div(Box::new(Sin(a.clone())), Box::new(Cos(a.clone())), 0), Cos(a)],
        };
        if t.chance(150) {
            ops.clear();
        }
        ops.extend(more);
        t.shuffle(&mut ops);
        obs.inc("related_operands");
    }
    if with_real {
        // numbers stay small and dyadic so that every order of folding is exact
        ops = ops.into_iter().filter(|x| !x.any(&|y| matches!(y, Int(n) if n.abs() > BigInt::from(12)))).collect();
        for _ in 0..1 + t.below(3) {
            ops.push(Real(gen::gen_dyadic(t, false)));
        }
    }
    // repetitions
    if t.chance(80) && !ops.is_empty() {
        let x = t.pick(&ops).clone();
        ops.push(x);
    }
    // operands that are themselves sums / products of the same kind
    let mut es = vec![];
    for o in &ops {
        es.push(build(o)?);
    }
    let ctx = || format!("{} of [{}]", if is_sum { "sum" } else { "product" }, ops.iter().map(short).collect::<Vec<_>>().join(", "));
    let list = |v: Vec<Expression>| if is_sum { Expression::addition(v) } else { Expression::multiplication(v) };
    let r0 = sut("constructing", &ctx, || list(es.clone()))?;
    let (k0, t0) = (term::key(&term::reflect(&r0)), r0.to_string());
    let judge = |r: &Expression, how: &str| -> Res {
        let same_key = term::key(&term::reflect(r)) == k0;
        if !same_key || r != &r0 || &r0 != r || h(r) != h(&r0) || h2(r) != h2(&r0) || r.to_string() != t0 || r.cmp(&r0) != Ordering::Equal {
            return Err(Fail::Viol(format!("{} differs by {}: {} vs {} (==: {}, hash: {}, text: {})", ctx(), how, r0, r, r == &r0, h(r) == h(&r0), r.to_string() == t0)));
        }
        Ok(())
    };
    let mut moved = false;
    for _ in 0..3 {
        let mut p = es.clone();
        t.shuffle(&mut p);
        moved |= p != es;
        let r = sut("constructing", &ctx, || list(p))?;
        judge(&r, "operand order")?;
        obs.inc("permutations");
    }
    if !with_real {
        for _ in 0..3 {
            let mut p = es.clone();
            if t.chance(170) {
                t.shuffle(&mut p);
            }
            let r = {
                let tt = &mut *t;
                sut("constructing", &ctx, move || group(p, is_sum, tt, 3))?
            };
            judge(&r, "grouping")?;
            obs.inc("groupings");
        }
    }
    if moved || es.len() >= 3 {
        obs.case(&format!("{}{}", is_sum, k0), format!("{} = {}", ctx(), r0));
    }
    Ok(())
}

// ------------------------------------------------------------------ raw structures

pub fn any_f64(t: &mut Tape) -> f64 {
    match t.below(12) {
        0 => f64::INFINITY,
        1 => f64::NEG_INFINITY,
        2 => f64::NAN,
        3 => 0.0,
        4 => -0.0,
        5 => *t.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON, 1.0, -1.0]),
        6 => f64::from_bits(t.u64()),
        7 => {
            let x = gen::gen_real(t, false);
            f64::from_bits(x.to_bits() ^ 1)
        }
        _ => gen::gen_real(t, false),
    }
}
/// names of many letters, often sharing long beginnings and ends
fn long_name(t: &mut Tape) -> Term {
    let stem: &str = t.pick(&["coefficient_of_the_", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "x1", "temperature_difference_between_the_left_and_the_right_boundary_", "m"]);
    let mut s = stem.to_string();
    for _ in 0..t.range(0, 40) {
        s.push(*t.pick(&['a', 'b', 'z', 'A', '_', '0', '9']));
    }
    Var(s)
}
/// names that read like numbers, formulas, or one another
fn odd_name(t: &mut Tape) -> Term {
    let pool = ["1", "01", "1.0", "+1", "1e0", "-1", "2", "02", "0", "-0", "00", "10", "nan", "NaN", "inf", "-inf", "infinity", "e", "pi", "i", "a ", " a", "A", "á", "a\u{301}", "x_1", "x_01", "x_10", "", " ", "(a + b)", "pow(a, b)", "sin(a)"];
    Var(t.pick(&pool).to_string())
}
fn raw_leaf(t: &mut Tape, special: bool) -> Term {
    match t.below(10) {
        0 if t.chance(60) => long_name(t),
        0 if special && t.chance(70) => odd_name(t),
        0..=3 => gen::gen_var(t, &Cfg::exact()),
        4..=6 => Int(gen::gen_int(t, true)),
        7 => Real(gen::gen_real(t, false)),
        _ => {
            let x = if special { any_f64(t) } else { gen::gen_dyadic(t, false) };
            Real(x)
        }
    }
}
pub fn raw(t: &mut Tape, depth: usize, special: bool) -> Term {
    if depth == 0 || t.chance(50) {
        return raw_leaf(t, special);
    }
    let many = |t: &mut Tape| -> Vec<Term> {
        let n = [2usize, 2, 2, 3, 3, 4, 5][t.below(7)];
        let n = if t.chance(4) { gen::wide_len(t) } else { n };
        let depth = if n > 6 { 1 } else { depth };
        let mut v: Vec<Term> = (0..n).map(|_| raw(t, depth - 1, special)).collect();
        if t.chance(50) {
            let x = v[0].clone();
            v.push(x);
        }
        v
    };
    match t.below(12) {
        0..=3 => Sum(many(t), 0),
        4..=7 => Prod(many(t), 0),
        8..=9 => term::pow(raw(t, depth - 1, special), raw(t, depth - 1, special)),
        10 => term::log(raw(t, depth - 1, special), raw(t, depth - 1, special)),
        _ => {
            let x = Box::new(raw(t, depth - 1, special));
            if t.chance(128) { Sin(x) } else { Cos(x) }
        }
    }
}
/// the structure as written, through the public node constructors (no normalisation)
pub fn build_raw(x: &Term) -> Expression {
    match x {
        Int(n) => (Symbol::<BigInt> { data: n.clone() }).expr(),
        Real(r) => Symbol::real(*r).expr(),
        Var(s) => Symbol::variable(s).expr(),
        Sum(v, _) => Expression::Addition(CommutativeAssociation::new(v.iter().map(build_raw).collect())),
        Prod(v, _) => Expression::Multiplication(CommutativeAssociation::new(v.iter().map(build_raw).collect())),
        Pow(a, b, _) => Expression::Power(AssociativeOperation::new(build_raw(a), build_raw(b))),
        Log(a, b, _) => Expression::Logarithm(AssociativeOperation::new(build_raw(a), build_raw(b))),
        Sin(a) => Expression::Sine(Operation::new(build_raw(a))),
        Cos(a) => Expression::Cossine(Operation::new(build_raw(a))),
        _ => term::build(x),
    }
}
fn permuted(x: &Term, t: &mut Tape) -> Term {
    super::compare::shuffled(x, t)
}
/// a structure differing in one place
fn near_miss(x: &Term, t: &mut Tape, odd: bool) -> Term {
    let kids = x.children().len();
    if kids > 0 && t.chance(190) {
        let i = t.below(kids);
        let sub = |v: &Vec<Term>, t: &mut Tape| {
            let mut w = v.clone();
            w[i] = near_miss(&v[i], t, odd);
            w
        };
        return match x {
            Sum(v, s) => Sum(sub(v, t), *s),
            Prod(v, s) => Prod(sub(v, t), *s),
            Pow(a, b, s) => if i == 0 { Pow(Box::new(near_miss(a, t, odd)), b.clone(), *s) } else { Pow(a.clone(), Box::new(near_miss(b, t, odd)), *s) },
            Log(a, b, s) => if i == 0 { Log(Box::new(near_miss(a, t, odd)), b.clone(), *s) } else { Log(a.clone(), Box::new(near_miss(b, t, odd)), *s) },
            Sin(a) => Sin(Box::new(near_miss(a, t, odd))),
            Cos(a) => Cos(Box::new(near_miss(a, t, odd))),
            _ => x.clone(),
        };
    }
    match x {
        Int(n) => match t.below(4) {
            0 => Int(n + 1),
            1 => Int(-n),
            2 => num::ToPrimitive::to_f64(n).map_or(Int(n - 1), Real),
            _ => Int(n + (BigInt::from(1) << 64)),
        },
        Real(r) => match t.below(4) {
            0 => Real(f64::from_bits(r.to_bits().wrapping_add(1))),
            1 => Real(-r),
            2 if r.is_finite() && r.fract() == 0.0 && r.abs() < 1e15 => Int(BigInt::from(*r as i64)),
            _ => Real(any_f64(t)),
        },
        // one letter somewhere, two letters exchanged, another case
        Var(s) if s.len() > 1 && s.is_ascii() && t.chance(128) => {
            let mut b = s.clone().into_bytes();
            let i = t.below(b.len());
            match t.below(4) {
                0 => b[i] = if b[i] == b'q' { b'r' } else { b'q' },
                1 => {
                    let j = (i + 1) % b.len();
                    b.swap(i, j);
                }
                2 if i > 0 => b[i] = b[i] ^ if b[i].is_ascii_alphabetic() { 0x20 } else { 1 },
                _ => b.insert(i, b'a'),
            }
            match String::from_utf8(b) {
                Ok(n) if n.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !n.as_bytes()[0].is_ascii_digit() => Var(n),
                _ => Var(format!("{}a", s)),
            }
        }
        // the same number, another name
        Var(s) if s.parse::<f64>().is_ok() && t.chance(128) => {
            let r = match t.below(4) {
                0 => format!("0{}", s),
                1 => format!("+{}", s.trim_start_matches('+')),
                2 => format!("{}.0", s),
                _ => format!("{}e0", s),
            };
            Var(r)
        }
        Var(_) if odd && t.chance(60) => odd_name(t),
        Var(s) => match t.below(3) {
            0 => Var(format!("{}a", s)),
            1 if s.len() > 1 && s.is_ascii() => Var(s[..s.len() - 1].to_string()),
            _ => Var(if s == "a" { "b".into() } else { "a".into() }),
        },
        Sum(v, s) => match t.below(5) {
            0 => Prod(v.clone(), *s),
            1 if v.len() > 2 => Sum(v[1..].to_vec(), *s),
            2 => {
                let mut w = v.clone();
                w.push(t.pick(v).clone());
                Sum(w, *s)
            }
            3 => {
                // swap multiplicities
                let mut w = v.clone();
                w[0] = v[v.len() - 1].clone();
                Sum(w, *s)
            }
            _ => v[0].clone(),
        },
        Prod(v, s) => match t.below(5) {
            0 => Sum(v.clone(), *s),
            1 if v.len() > 2 => Prod(v[1..].to_vec(), *s),
            2 => {
                let mut w = v.clone();
                w.push(t.pick(v).clone());
                Prod(w, *s)
            }
            3 => {
                let mut w = v.clone();
                w[0] = v[v.len() - 1].clone();
                Prod(w, *s)
            }
            _ => v[0].clone(),
        },
        Pow(a, b, s) => match t.below(3) {
            0 => Log(a.clone(), b.clone(), *s),
            1 => Pow(b.clone(), a.clone(), *s),
            _ => (**a).clone(),
        },
        Log(a, b, s) => match t.below(2) {
            0 => Pow(a.clone(), b.clone(), *s),
            _ => Log(b.clone(), a.clone(), *s),
        },
        Sin(a) => if t.chance(128) { Cos(a.clone()) } else { (**a).clone() },
        Cos(a) => if t.chance(128) { Sin(a.clone()) } else { (**a).clone() },
        _ => x.clone(),
    }
}

// ------------------------------------------------------------------ C11

struct Seen {
    what: &'static str,
    eq: bool,
    ne: bool,
    cmp: Ordering,
    rcmp: Ordering,
    partial: Option<Ordering>,
    ops: [bool; 4],
    hash_same: bool,
}
fn see<T: Ord + Hash>(what: &'static str, a: &T, b: &T) -> Seen {
    Seen {
        what,
        eq: a == b,
        ne: a != b,
        cmp: a.cmp(b),
        rcmp: b.cmp(a),
        partial: a.partial_cmp(b),
        ops: [a < b, a <= b, a > b, a >= b],
        hash_same: h(a) == h(b) && h2(a) == h2(b),
    }
}
fn judge(s: &Seen, same: bool, ctx: &str, obs: &mut Obs) -> Res {
    let bad = |m: &str| Err(Fail::Viol(format!("{}: {} for {}", s.what, m, ctx)));
    if s.eq != same {
        return bad(if same { "== is false for the same structure" } else { "== is true for different structures" });
    }
    if s.ne == s.eq {
        return bad("!= is not the negation of ==");
    }
    if (s.cmp == Ordering::Equal) != same {
        return bad(&format!("cmp is {:?} but same structure is {}", s.cmp, same));
    }
    if s.rcmp != s.cmp.reverse() {
        return bad(&format!("cmp is not antisymmetric: {:?} and {:?}", s.cmp, s.rcmp));
    }
    if s.partial != Some(s.cmp) {
        return bad(&format!("partial_cmp {:?} disagrees with cmp {:?}", s.partial, s.cmp));
    }
    let want = [s.cmp == Ordering::Less, s.cmp != Ordering::Greater, s.cmp == Ordering::Greater, s.cmp != Ordering::Less];
    if s.ops != want {
        return bad(&format!("operators < <= > >= {:?} disagree with cmp {:?}", s.ops, s.cmp));
    }
    if same && !s.hash_same {
        return bad("equal values hash differently");
    }
    if !same && s.hash_same {
        obs.inc("hash_collisions_of_unequal_values");
    }
    obs.inc("pair_laws_checked");
    Ok(())
}

fn pair(x: &Term, y: &Term, a: &Expression, b: &Expression, obs: &mut Obs) -> Result<Ordering, Fail> {
    let same = term::key(x) == term::key(y);
    let ctx = || format!("{} and {}", short(x), short(y));
    let seen = sut("comparing", &ctx, || {
        let mut v = vec![see("Expression", a, b)];
        match (a, b) {
            (Expression::Integer(p), Expression::Integer(q)) => v.push(see("integer symbol", p, q)),
            (Expression::Real(p), Expression::Real(q)) => v.push(see("real symbol", p, q)),
            (Expression::Variable(p), Expression::Variable(q)) => v.push(see("variable symbol", p, q)),
            (Expression::Addition(p), Expression::Addition(q)) | (Expression::Multiplication(p), Expression::Multiplication(q)) => v.push(see("operand collection", p, q)),
            (Expression::Power(p), Expression::Power(q)) | (Expression::Logarithm(p), Expression::Logarithm(q)) => v.push(see("binary operation", p, q)),
            (Expression::Sine(p), Expression::Sine(q)) | (Expression::Cossine(p), Expression::Cossine(q)) => v.push(see("unary operation", p, q)),
            _ => {}
        }
        v
    })?;
    for s in &seen {
        judge(s, same, &ctx(), obs)?;
    }
    Ok(seen[0].cmp)
}

pub fn c11(t: &mut Tape, obs: &mut Obs) -> Res {
    let mode = t.below(8);
    // a small population with coincidences and near misses
    let mut pop: Vec<Term> = vec![];
    let n = 3 + t.below(6);
    if mode == 0 {
        // number symbols
        for _ in 0..n {
            let x = if t.chance(140) { Real(any_f64(t)) } else if t.chance(90) { odd_name(t) } else { Int(gen::gen_int(t, true)) };
            pop.push(x);
        }
    } else if mode == 1 {
        for _ in 0..n {
            let x = gen_term(t, Kind::Signed)?;
            pop.push(term::reflect(&build(&x)?));
        }
    } else {
        let d = 1 + t.below(3);
        pop.push(raw(t, d, true));
        while pop.len() < n {
            let x = t.pick(&pop).clone();
            pop.push(match t.below(4) {
                0 => permuted(&x, t),
                1 | 2 => near_miss(&x, t, true),
                _ => {
                    let d = 1 + t.below(2);
                    raw(t, d, true)
                }
            });
        }
    }
    if t.chance(128) {
        let x = permuted(&t.pick(&pop).clone(), t);
        pop.push(x);
    }
    if pop.iter().any(|x| x.size() > 150) {
        return Err(Fail::Discard);
    }
    let es: Vec<Expression> = pop.iter().map(build_raw).collect();
    let n = es.len();
    let mut m = vec![vec![Ordering::Equal; n]; n];
    for i in 0..n {
        for j in 0..n {
            m[i][j] = pair(&pop[i], &pop[j], &es[i], &es[j], obs)?;
        }
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                if m[i][j] != Ordering::Greater && m[j][k] != Ordering::Greater && m[i][k] == Ordering::Greater {
                    return Err(Fail::Viol(format!("cmp is not transitive: {} <= {} <= {} but the first is greater than the last", short(&pop[i]), short(&pop[j]), short(&pop[k]))));
                }
            }
        }
    }
    obs.add("triples_checked", (n * n * n) as u64);
    // collections: nothing lost, duplicated, misplaced
    let mut keys: Vec<String> = pop.iter().map(term::key).collect();
    keys.sort();
    keys.dedup();
    let ctx = || format!("[{}]", pop.iter().map(short).collect::<Vec<_>>().join(", "));
    let (hs, bs, sorted_ok, found, hm) = sut("collecting", &ctx, || {
        let hs: HashSet<Expression> = es.iter().cloned().collect();
        let bs: BTreeSet<Expression> = es.iter().cloned().collect();
        let mut v = es.clone();
        v.sort();
        let sorted_ok = v.windows(2).all(|w| w[0].cmp(&w[1]) != Ordering::Greater);
        let found = es.iter().all(|e| hs.contains(e) && bs.contains(e) && v.binary_search(e).is_ok());
        let mut hm: HashMap<&Expression, usize> = HashMap::new();
        for e in &es {
            *hm.entry(e).or_insert(0) += 1;
        }
        (hs.len(), bs.len(), sorted_ok, found, hm.values().sum::<usize>() == es.len() && hm.len() == keys.len())
    })?;
    if hs != keys.len() || bs != keys.len() || !sorted_ok || !found || !hm {
        return Err(Fail::Viol(format!("collections misbehave on {}: {} distinct, HashSet {}, BTreeSet {}, sorted {}, all found {}, map counts right {}", ctx(), keys.len(), hs, bs, sorted_ok, found, hm)));
    }
    obs.inc("collections_checked");
    if keys.len() >= 2 {
        keys.sort();
        obs.case(&keys.join("|"), ctx());
    }
    Ok(())
}

// ------------------------------------------------------------------ C13

fn is_rational_leaf(x: &Term) -> bool {
    matches!(x, Int(_)) || matches!(x, Pow(a, b, _) if matches!((&**a, &**b), (Int(_), Int(_))))
}
fn keys_of(v: &[Expression]) -> Vec<String> {
    let mut k: Vec<String> = v.iter().map(|e| term::key(&term::reflect(e))).collect();
    k.sort();
    k
}
fn keys_of_terms<'a>(v: impl Iterator<Item = &'a Term>) -> Vec<String> {
    let mut k: Vec<String> = v.map(term::key).collect();
    k.sort();
    k
}

pub fn c13(t: &mut Tape, obs: &mut Obs) -> Res {
    let structural = t.chance(90);
    let n = match t.below(8) {
        0 => t.range(0, 2) as usize,
        1..=4 => t.range(2, 6) as usize,
        5..=6 => t.range(5, 14) as usize,
        _ if t.chance(128) => gen::wide_len(t),
        _ => t.range(10, 60) as usize,
    };
    let mut ops: Vec<Term> = vec![];
    while ops.len() < n {
        let x = if !ops.is_empty() && t.chance(60) {
            t.pick(&ops).clone()
        } else if structural {
            let d = t.below(3);
            raw(t, d, false)
        } else {
            let x = match t.below(8) {
                0 => Int(gen::gen_int(t, true)),
                1 => Real(gen::gen_real(t, false)),
                2 => gen::gen_var(t, &Cfg::exact()),
                3 | 4 => {
                    let (a, b) = (gen::gen_int(t, true), gen::gen_int(t, true));
                    if b.is_zero() {
                        continue_int(a)
                    } else {
                        term::div(Int(a), Int(b))
                    }
                }
                5 => {
                    let b = gen::gen_int(t, false);
                    let q = term::div(Int(gen::gen_int(t, false)), if b.is_zero() { term::int(5) } else { Int(b) });
                    Prod(vec![q, gen::gen_var(t, &Cfg::exact())], 0)
                }
                6 => {
                    let (a, b) = (t.range(2, 40), t.range(2, 40));
                    Prod(vec![term::div(term::int(t.range(-9, 9)), term::int(a)), term::div(term::int(t.range(-9, 9)), term::int(b))], 0)
                }
                _ => Gen::new(t, Cfg { depth: 2, ..Kind::Signed.cfg() }).top(),
            };
            if !gen::within(&x, &Cfg::exact()) || !wellformed(&x) {
                return Err(Fail::Discard);
            }
            term::reflect(&build(&x)?)
        };
        ops.push(x);
    }
    let mut es: Vec<Expression> = ops.iter().map(build_raw).collect();
    t.shuffle(&mut es);
    let ctx = || format!("[{}]", ops.iter().map(short).collect::<Vec<_>>().join(", "));
    let coll = sut("collecting", &ctx, || CommutativeAssociation::new(es.clone()))?;
    let items = sut("items()", &ctx, || coll.items())?;
    let all = keys_of_terms(ops.iter());
    let bad = |m: String| Err(Fail::Viol(format!("operand collection {}: {}", ctx(), m)));
    if keys_of(&items) != all {
        return bad(format!("items() is not the multiset of operands: {:?}", items.iter().map(|e| e.to_string()).collect::<Vec<_>>()));
    }
    if !items.windows(2).all(|w| w[0].cmp(&w[1]) != Ordering::Greater) {
        return bad("items() is not sorted".into());
    }
    // clones and repeated reads
    let again = sut("items()", &ctx, || coll.clone().items())?;
    if again != items || again.iter().map(|e| e.to_string()).collect::<Vec<_>>() != items.iter().map(|e| e.to_string()).collect::<Vec<_>>() {
        return bad("items() of a clone differs".into());
    }
    // insertion order must not matter
    let mut es2 = es.clone();
    t.shuffle(&mut es2);
    let items2 = sut("items()", &ctx, || CommutativeAssociation::new(es2).items())?;
    if items2 != items || items2.iter().map(|e| term::key(&term::reflect(e))).collect::<Vec<_>>() != items.iter().map(|e| term::key(&term::reflect(e))).collect::<Vec<_>>() {
        return bad("items() depends on the insertion order".into());
    }
    obs.inc("collections_conserved");
    // generic selectors
    let probe = t.below(4);
    let pred = move |e: &Expression| match probe {
        0 => matches!(e, Expression::Variable(_)),
        1 => matches!(e, Expression::Integer(n) if !n.data.is_negative()),
        2 => matches!(e, Expression::Power(_) | Expression::Addition(_)),
        _ => true,
    };
    let tpred = |x: &Term| match probe {
        0 => matches!(x, Var(_)),
        1 => matches!(x, Int(n) if !n.is_negative()),
        2 => matches!(x, Pow(..) | Sum(..)),
        _ => true,
    };
    let want = keys_of_terms(ops.iter().filter(|x| tpred(x)));
    let got = sut("get()", &ctx, || coll.get(&pred))?;
    if keys_of(&got) != want {
        return bad(format!("get() with predicate {} returned {:?}", probe, keys_of(&got)));
    }
    let one = sut("get_one()", &ctx, || coll.get_one(&pred))?;
    match &one {
        None if !want.is_empty() => return bad("get_one() found nothing".into()),
        Some(e) if !want.contains(&term::key(&term::reflect(e))) => return bad(format!("get_one() returned {}", e)),
        _ => {}
    }
    let mapped = sut("map()", &ctx, || coll.map(&|e| Expression::Sine(Operation::new(e.clone()))))?;
    let want_mapped = keys_of_terms(ops.iter().map(|x| Sin(Box::new(x.clone()))).collect::<Vec<_>>().iter());
    if keys_of(&mapped) != want_mapped {
        return bad("map() did not visit every operand exactly once".into());
    }
    if !mapped.iter().zip(&items).all(|(m, x)| matches!(m, Expression::Sine(o) if term::key(&term::reflect(&o.argument())) == term::key(&term::reflect(x)))) {
        return bad("map() did not keep the order of items()".into());
    }
    let reals = sut("get_reals()", &ctx, || coll.get_reals())?;
    if keys_of(&reals) != keys_of_terms(ops.iter().filter(|x| matches!(x, Real(_)))) {
        return bad(format!("get_reals() returned {:?}", keys_of(&reals)));
    }
    let nums = sut("get_rational_numerators()", &ctx, || coll.get_rational_numerators())?;
    if keys_of(&nums) != keys_of_terms(ops.iter().filter(|x| matches!(x, Int(_)))) {
        return bad(format!("get_rational_numerators() returned {:?}", keys_of(&nums)));
    }
    obs.add("selector_results_checked", 5);
    // whatever the operands are, none is lost or counted twice
    let (rats, non) = sut("get_rationals()", &ctx, || (coll.get_rationals(), coll.get_non_rationals()))?;
    let mut both = keys_of(&rats);
    both.extend(keys_of(&non));
    both.sort();
    if both != all {
        return bad(format!("get_rationals() {:?} and get_non_rationals() {:?} are not a partition", keys_of(&rats), keys_of(&non)));
    }
    obs.inc("partitions_checked");
    // symbolic operands of any structure; numbers in unusual spellings are left open
    if structural {
        let sym = sut("get_symbolics()", &ctx, || coll.get_symbolics())?;
        let has_var = |x: &Term| x.any(&|y| matches!(y, Var(_)));
        let got: Vec<Term> = sym.iter().map(term::reflect).filter(|x| has_var(x) || matches!(x, Int(_) | Real(_))).collect();
        if keys_of_terms(got.iter()) != keys_of_terms(ops.iter().filter(|x| has_var(x))) {
            return bad(format!("get_symbolics() returned {:?}", keys_of(&sym)));
        }
        obs.inc("symbolics_of_any_structure_checked");
    }
    // selectors about rationals: operands as the operators produce them
    if !structural {
        let dens = sut("get_rational_denominators()", &ctx, || coll.get_rational_denominators())?;
        let want: Vec<Term> = ops.iter().filter_map(|x| match x { Pow(a, b, _) if matches!((&**a, &**b), (Int(_), Int(_))) => Some((**a).clone()), _ => None }).collect();
        if keys_of(&dens) != keys_of_terms(want.iter()) {
            return bad(format!("get_rational_denominators() returned {:?}", keys_of(&dens)));
        }
        let rational = |x: &Term| is_rational_leaf(x) || matches!(x, Prod(v, _) if v.iter().all(is_rational_leaf));
        let rats = sut("get_rationals()", &ctx, || coll.get_rationals())?;
        if keys_of(&rats) != keys_of_terms(ops.iter().filter(|x| rational(x))) {
            return bad(format!("get_rationals() returned {:?}", keys_of(&rats)));
        }
        let non = sut("get_non_rationals()", &ctx, || coll.get_non_rationals())?;
        if keys_of(&non) != keys_of_terms(ops.iter().filter(|x| !rational(x))) {
            return bad(format!("get_non_rationals() returned {:?}", keys_of(&non)));
        }
        let sym = sut("get_symbolics()", &ctx, || coll.get_symbolics())?;
        // products of numbers only are left open
        let numeric_prod = |x: &Term| matches!(x, Prod(v, _) if v.iter().all(|y| is_rational_leaf(y) || matches!(y, Real(_))));
        let got: Vec<Term> = sym.iter().map(term::reflect).filter(|x| !numeric_prod(x)).collect();
        if keys_of_terms(got.iter()) != keys_of_terms(ops.iter().filter(|x| !numeric_prod(x) && !is_rational_leaf(x) && !matches!(x, Real(_)))) {
            return bad(format!("get_symbolics() returned {:?}", keys_of(&sym)));
        }
        obs.add("selector_results_checked", 4);
        obs.add("rational_operands_seen", rats.len() as u64);
    }
    obs.add("operands_seen", ops.len() as u64);
    if ops.len() >= 2 {
        obs.case(&all.join("|"), ctx());
    }
    Ok(())
}
fn continue_int(a: BigInt) -> Term {
    Int(a)
}

// ------------------------------------------------------------------ C14

#[derive(Debug)]
enum Node {
    Leaf(String),
    Many(char, Vec<Node>),
    Call(String, Vec<Node>),
}
struct Parser<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> Parser<'a> {
    fn eat(&mut self, lit: &str) -> bool {
        if self.s[self.i..].starts_with(lit.as_bytes()) {
            self.i += lit.len();
            true
        } else {
            false
        }
    }
    fn node(&mut self) -> Option<Node> {
        if self.eat("(") {
            let mut v = vec![self.node()?];
            let mut op = None;
            loop {
                if self.eat(")") {
                    return Some(Node::Many(op?, v));
                }
                let c = if self.eat(" + ") { '+' } else if self.eat(" * ") { '*' } else { return None };
                if *op.get_or_insert(c) != c {
                    return None;
                }
                v.push(self.node()?);
            }
        }
        let st = self.i;
        while self.i < self.s.len() && !b"() ,".contains(&self.s[self.i]) {
            self.i += 1;
        }
        let w = std::str::from_utf8(&self.s[st..self.i]).ok()?.to_string();
        if w.is_empty() {
            return None;
        }
        if self.eat("(") {
            let mut v = vec![self.node()?];
            while self.eat(", ") {
                v.push(self.node()?);
            }
            if !self.eat(")") {
                return None;
            }
            return Some(Node::Call(w, v));
        }
        Some(Node::Leaf(w))
    }
}
fn matches_term(n: &Node, x: &Term) -> bool {
    match (n, x) {
        (Node::Leaf(s), Int(k)) => s.parse::<BigInt>().map_or(false, |v| &v == k),
        (Node::Leaf(s), Real(r)) => s.parse::<f64>().map_or(false, |v| v == *r) && s.chars().all(|c| c.is_ascii_digit() || c == '.' || c == '-' || c == 'e' || c == '+'),
        (Node::Leaf(s), Var(v)) => s == v,
        (Node::Many('+', c), Sum(v, _)) | (Node::Many('*', c), Prod(v, _)) => {
            if c.len() != v.len() {
                return false;
            }
            // any assignment of parsed operands to written operands (equal operands are interchangeable)
            let mut used = vec![false; v.len()];
            c.iter().all(|n| match (0..v.len()).find(|&i| !used[i] && matches_term(n, &v[i])) {
                Some(i) => {
                    used[i] = true;
                    true
                }
                None => false,
            })
        }
        (Node::Call(f, a), Pow(x, y, _)) if f == "pow" && a.len() == 2 => matches_term(&a[0], x) && matches_term(&a[1], y),
        (Node::Call(f, a), Log(x, y, _)) if f == "log" && a.len() == 2 => matches_term(&a[0], x) && matches_term(&a[1], y),
        (Node::Call(f, a), Sin(x)) if f == "sin" && a.len() == 1 => matches_term(&a[0], x),
        (Node::Call(f, a), Cos(x)) if f == "cos" && a.len() == 1 => matches_term(&a[0], x),
        _ => false,
    }
}

pub fn c14(t: &mut Tape, obs: &mut Obs) -> Res {
    let x = if t.chance(80) {
        let x = gen_term(t, Kind::Signed)?;
        term::reflect(&build(&x)?)
    } else {
        let d = t.below(5);
        raw(t, d, true)
    };
    let ok = |x: &Term| match x {
        Real(r) => r.is_finite() && *r != 0.0,
        Var(s) => !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !s.starts_with(|c: char| c.is_ascii_digit()) && s != "inf" && s != "NaN",
        _ => true,
    };
    if x.any(&|y| !ok(y)) || x.size() > 400 {
        return Err(Fail::Discard);
    }
    let e = build_raw(&x);
    let ctx = || short(&x);
    let s = sut("rendering", &ctx, || e.to_string())?;
    let mut p = Parser { s: s.as_bytes(), i: 0 };
    match p.node() {
        Some(n) if p.i == s.len() => {
            if !matches_term(&n, &x) {
                return Err(Fail::Viol(format!("text {:?} does not read back as {}", s, short(&x))));
            }
        }
        _ => return Err(Fail::Viol(format!("text {:?} of {} cannot be read back", s, short(&x)))),
    }
    obs.inc("texts_read_back");
    // rendering through other spellings of the same call
    let s2 = sut("rendering", &ctx, || format!("{}", e))?;
    let y = permuted(&x, t);
    let e2 = build_raw(&y);
    let s3 = sut("rendering", &ctx, || e2.to_string())?;
    if s2 != s || s3 != s {
        return Err(Fail::Viol(format!("equal expressions render differently: {:?} and {:?}", s, s3)));
    }
    obs.inc("permuted_texts_compared");
    // a different structure has a different text (unless it only differs in the kind of a number)
    let z = near_miss(&x, t, false);
    if !z.any(&|y| !ok(y)) && term::key(&z) != term::key(&x) {
        let s4 = build_raw(&z).to_string();
        if s4 == s {
            let mut p = Parser { s: s.as_bytes(), i: 0 };
            if !p.node().map_or(false, |n| matches_term(&n, &z)) {
                return Err(Fail::Viol(format!("different expressions {} and {} render as {:?}", short(&x), short(&z), s)));
            }
        } else {
            obs.inc("near_misses_render_differently");
        }
    }
    if x.size() > 1 {
        obs.case(&term::key(&x), s);
    }
    Ok(())
}
