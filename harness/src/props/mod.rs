//! The monitors: one `run` function per property.  Each draws a case from the tape, drives the real crate through its
//! public API, and lets an independent oracle judge what it observed.
pub mod compare;
pub mod cancel;
pub mod compose;
pub mod laws;
pub mod nums;
pub mod rename;
pub mod shape;
pub mod total;
pub mod value;

use crate::gen::{self, Cfg, Gen};
use crate::sem::{self, Stop};
use crate::tape::Tape;
use crate::term::{self, Term};
use ncas::base::expression::Expression;
use std::collections::BTreeMap;

#[derive(Debug)]
pub enum Fail {
    /// the case is outside the domain of the property
    Discard,
    Viol(String),
}
pub type Res = Result<(), Fail>;

/// What the monitors saw in one case.
#[derive(Default)]
pub struct Obs {
    pub index: u64,
    pub counts: BTreeMap<String, u64>,
    pub digest: u64,
    pub nontrivial: bool,
    pub key: u64,
    pub sample: String,
}
impl Obs {
    pub fn inc(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn case(&mut self, key: &str, sample: String) {
        self.nontrivial = true;
        self.key = term::hash64(key);
        self.sample = sample;
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Tape, &mut Obs) -> Res,
    /// violations may need several tries to reproduce (hash seeds, threads)
    pub nondet: bool,
    /// compare per-case digests of twin processes
    pub twin: bool,
    /// also run under AddressSanitizer
    pub asan: bool,
    pub rule: &'static str,
    pub assume: &'static [&'static str],
}

macro_rules! p {
    ($id:expr, $f:expr, $rule:expr, $assume:expr) => {
        Prop { id: $id, run: $f, nondet: false, twin: false, asan: false, rule: $rule, assume: $assume }
    };
}

const DOM: &str = "domain of definition: no division by zero, 0^0 and 0^negative undefined, non-integer-typed exponents only over bases all of whose factors are positive";
const IV: &str = "real and logarithmic expressions are compared by f64 interval arithmetic (leaf tolerance 1e-11): an error below the interval width is not seen";
const GF: &str = "real-free expressions are compared exactly modulo a 61-bit prime at random assignments (chance of missing a difference per assignment about degree/2^60)";

pub static PROPS: &[Prop] = &[
    p!("C01", value::c01, "random operands (integers of any size, reals, variables, nested sums/products/powers/quotients), one arithmetic operator in every public spelling; non-trivial when at least one assignment decided the comparison of the result with the written formula", &[DOM, IV, GF]),
    p!("C02", value::c02, "random base and exponent, pow() in both spellings; non-trivial when at least one assignment decided", &[DOM, IV, GF]),
    p!("C03", value::c03, "integer pairs around perfect powers, real pairs, symbolic log/power inversions; non-trivial when the exact oracle or an assignment decided", &[DOM, IV, "integer bases >= 2 and arguments >= 1 (elsewhere the logarithm is undefined)"]),
    p!("C04", value::c04, "random formulas; value before and after expand(); non-trivial when decided and expand() changed the expression", &[DOM, IV, GF]),
    p!("C05", shape::c05, "random polynomial formulas (+ - * and positive integer powers); result compared with the uncollected cross-product model; non-trivial when the formula contains a product or power of sums", &["at most 3000 addends after expansion"]),
    p!("C06", value::c06, "random formulas; value before and after simplify(); non-trivial when decided and simplify() changed the expression", &[DOM, IV, GF]),
    p!("C07", shape::c07, "random polynomial formulas and random respellings of the same polynomial, plus perturbed ones; simplify() compared with independent sparse polynomial arithmetic; non-trivial when the two spellings are different expressions", &["at most 600 addends after expansion"]),
    p!("C08", compare::c08, "pairs of polynomial formulas with a known difference (integer, rational, real constant or non-constant); non-trivial when the pair is not structurally equal", &["real offsets are dyadic so that the written difference is exact; numbers that are neighbours (an exact rational and the nearest doubles) are compared exactly"]),
    p!("C09", compare::c09, "pairs of arbitrary expressions (random, respelled, offset, self); all seven predicates read; non-trivial when a predicate answered true", &[DOM, IV, GF]),
    p!("C10", laws::c10, "operand lists in random permutations, groupings and operator spellings; non-trivial when the list has at least three operands or a permutation changed the order", &["real operands are small dyadic numbers and are permuted flat only"]),
    p!("C11", laws::c11, "pairs and triples of structures (normalised and raw), near-misses differing in one leaf, all f64 classes; laws of ==, cmp, partial_cmp, operators, hash and the std collections; non-trivial when two distinct structures were compared", &["cells of the comparison are harness-computed structural keys"]),
    p!("C12", nums::c12, "random integer and f64 operands; every operator spelling and helper against BigInt / f64; non-trivial always", &["BigInt arithmetic of the num crate (a dependency, not the code under test) is trusted"]),
    p!("C13", laws::c13, "random operand multisets with repetitions in random insertion order; items() and every selector against independently filtered lists; non-trivial when the list has at least two operands", &["selectors are judged on operands the public operators can produce"]),
    p!("C14", laws::c14, "random structures rendered and parsed back by an independent parser; non-trivial when the structure is not a leaf", &["identifier-like variable names, sums and products of at least two operands, finite non-zero reals"]),
    Prop { id: "C15", run: total::c15, nondet: false, twin: false, asan: true, rule: "hostile workload: huge integers, wide lists, deep nesting, extreme exponents, odd names, every public operation on each; non-trivial when at least one transforming operation (expand, simplify, comparison) ran on a compound expression", assume: &["'unbounded' is decided by 2*10^9 executed control-flow edges or 1.5 GB live heap in one call, never by wall time", "well-formed: no division by (generic) zero, expansion of at most 400 addends, integers of at most 6000 bits after folding"] },
    Prop { id: "C16", run: total::c16, nondet: true, twin: true, asan: false, rule: "same input evaluated repeatedly (fresh hash seeds), in concurrent threads on shared expressions, in twin processes, with permuted construction; non-trivial when a sum or product was simplified", assume: &["expressions with reals are compared by value only"] },
    p!("C17", shape::c17, "random operator programs; every node of every intermediate and transformed result inspected; non-trivial when the result has a sum or product node", &[]),
    p!("C18", value::c18, "each of the nine rules applied to random expressions biased to their pattern; non-trivial when the rule changed the expression and the values were decided", &[DOM, IV, GF]),
    p!("C19", nums::c19, "random rationals (any size and sign) through the Rational API and random sums/products of integer quotients through simplify(); exact BigRational oracle; non-trivial when a denominator other than 1 takes part", &["num::BigRational (a dependency, not the code under test) is trusted"]),
    p!("C20", rename::c20, "pairs of real-free formulas and the same pair with its variables renamed one-to-one or replaced by opaque expressions (sine, cosine, logarithm of new variables); every result of one must be the other's with the same replacement made; non-trivial when expand() or simplify() changed the expression", &["real-free formulas: with reals the order of the operands, which follows the names, decides how the sums are rounded"]),
    p!("C21", cancel::c21, "random formulas A, B and a law that must hold of them (A-A' = 0, mA+nA' = (m+n)A, ...), both sides simplified and compared; non-trivial when the two sides are different expressions", &["integer coefficients: cases whose expansion leaves a number in a denominator or under a symbolic exponent are discarded", "logarithms to a base that occurs nowhere else"]),
    p!("C22", compose::c22, "random real-free formulas; a transformation of the whole against the same transformation of its parts, verdicts on a pair against those on the swapped, negated and shifted pair; non-trivial when an operand is compound or a pair was compared", &[]),
];

pub fn find(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

/// monitored call into the crate: a panic is a violation
pub fn sut<T>(what: &str, ctx: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Result<T, Fail> {
    if crate::worker::TRACE.load(std::sync::atomic::Ordering::Relaxed) {
        eprintln!("call: {} of {}", what, ctx().chars().take(3000).collect::<String>());
    }
    crate::worker::monitored(f).map_err(|m| Fail::Viol(format!("{} of {} {}", what, ctx(), m)))
}

pub fn build(t: &Term) -> Result<Expression, Fail> {
    sut("building", &|| t.to_string(), || term::build(t))
}

// ------------------------------------------------------------------ domains

fn generic_field() -> sem::FieldEnv {
    let mut v = std::collections::HashMap::new();
    let mut q = std::collections::HashMap::new();
    for (i, n) in gen::EXP_VARS.iter().enumerate() {
        let x = [3i64, 5, 11][i];
        q.insert(n.to_string(), gen::q(x));
        v.insert(n.to_string(), x as u64);
    }
    sem::FieldEnv { v, q }
}

/// No (generic) division by zero anywhere in the formula.
pub fn wellformed(t: &Term) -> bool {
    let mut names = vec![];
    t.vars(&mut names);
    let mut env = generic_field();
    let mut iv = sem::IvEnv { v: Default::default(), leaf_eps: 1e-11 };
    for n in &names {
        let h = term::hash64(n);
        if !env.v.contains_key(n) {
            env.v.insert(n.clone(), crate::tape::Rng::new(h).next() % sem::P);
            iv.v.insert(n.clone(), 0.5 + (h % 1000) as f64 / 700.0);
        } else {
            iv.v.insert(n.clone(), env.v[n] as f64);
        }
    }
    fn nonzero(d: &Term, env: &sem::FieldEnv, iv: &sem::IvEnv) -> bool {
        match sem::eval_f(d, env, false) {
            Ok(x) => x != 0,
            Err(Stop::Undef) => false,
            Err(Stop::Unknown) => match sem::eval_i(d, iv, false) {
                Ok(x) => !x.has_zero(),
                Err(_) => false,
            },
        }
    }
    fn go(t: &Term, env: &sem::FieldEnv, iv: &sem::IvEnv) -> bool {
        let here = match t {
            Term::Div(_, d, _) => nonzero(d, env, iv),
            Term::Pow(b, e, _) => e.lit_int().map_or(false, |n| num::Signed::is_positive(n)) || nonzero(b, env, iv),
            Term::Log(a, b, _) => nonzero(a, env, iv) && nonzero(b, env, iv) && !matches!(sem::eval_f(b, env, false), Ok(1)),
            _ => true,
        };
        here && t.children().iter().all(|c| go(c, env, iv))
    }
    go(t, &env, &iv)
}

/// The kinds of expressions the value monitors draw from.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Exact,
    Poly,
    /// reals, logarithms, fractional powers over positive leaves
    Positive,
    /// reals of either sign, integer exponents
    Signed,
    /// integers and logarithms over positive leaves
    LogInt,
}
impl Kind {
    pub fn cfg(self) -> Cfg {
        match self {
            Kind::Exact => Cfg::exact(),
            Kind::Poly => Cfg::poly(),
            Kind::Positive => Cfg { big: false, ..Cfg::realmix() },
            Kind::Signed => Cfg { real: true, big: false, ..Cfg::exact() },
            Kind::LogInt => Cfg { real: false, big: true, ..Cfg::realmix() },
        }
    }
    pub fn positive(self) -> bool {
        matches!(self, Kind::Positive | Kind::LogInt)
    }
    pub fn pick(t: &mut Tape) -> Kind {
        match t.below(16) {
            0..=8 => Kind::Exact,
            9 => Kind::Poly,
            10..=11 => Kind::Positive,
            12..=14 => Kind::Signed,
            _ => Kind::LogInt,
        }
    }
}

/// most formulas are cheap to transform, some are not
pub fn work_limit(t: &mut Tape) -> f64 {
    match t.below(16) {
        0..=9 => 60.0,
        10..=13 => 400.0,
        14 => 1500.0,
        _ => 8000.0,
    }
}
pub fn gen_term(t: &mut Tape, k: Kind) -> Result<Term, Fail> {
    let limit = work_limit(t);
    gen_limited(t, k, limit)
}
pub fn gen_limited(t: &mut Tape, k: Kind, limit: f64) -> Result<Term, Fail> {
    let c = k.cfg();
    for _ in 0..5 {
        let x = Gen::new(t, c.clone()).top();
        if gen::within(&x, &c) && gen::work(&x) <= limit && wellformed(&x) {
            return Ok(x);
        }
    }
    Err(Fail::Discard)
}
/// formulas for monitors that transform them many times over
pub fn gen_cheap(t: &mut Tape, k: Kind) -> Result<Term, Fail> {
    let limit = match t.below(24) {
        0..=19 => 50.0,
        20..=22 => 250.0,
        _ => 1500.0,
    };
    gen_limited(t, k, limit)
}
pub fn gen_many(t: &mut Tape, k: Kind, n: usize, depth: usize) -> Result<Vec<Term>, Fail> {
    let mut c = k.cfg();
    c.depth = depth;
    let mut g = Gen::new(t, c.clone());
    let mut r = vec![];
    for _ in 0..n {
        g.budget = 12;
        let x = g.term(depth);
        r.push(x);
    }
    if r.iter().all(|x| gen::within(x, &c) && wellformed(x)) { Ok(r) } else { Err(Fail::Discard) }
}

// ------------------------------------------------------------------ value comparison

pub fn short(t: &Term) -> String {
    let s = t.to_string();
    if s.len() > 1500 { format!("{}... ({} chars)", s.chars().take(1500).collect::<String>(), s.len()) } else { s }
}

/// Same value wherever `before` is defined?  Ok(true) if at least one assignment decided.
pub fn same_value(before: &Term, after: &Term, t: &mut Tape, obs: &mut Obs, positive: bool, what: &str) -> Result<bool, Fail> {
    let mut names = vec![];
    before.vars(&mut names);
    let mut names2 = vec![];
    after.vars(&mut names2);
    if let Some(n) = names2.iter().find(|n| !names.contains(n)) {
        return Err(Fail::Viol(format!("{}: new variable {} in the result: {} -> {}", what, n, short(before), short(after))));
    }
    let real = before.has_real();
    if !real && after.has_real() {
        return Err(Fail::Viol(format!("{}: a real number appeared: {} -> {}", what, short(before), short(after))));
    }
    let mut decided = false;
    let exact = !real && !before.has_log();
    let seed = t.u64();
    if exact {
        for i in 0..2u64 {
            let env = gen::field_env(t, seed.wrapping_add(i * 7919), &names);
            match sem::eval_f(before, &env, true) {
                Ok(x) => match sem::eval_f(after, &env, false) {
                    Ok(y) => {
                        if x != y {
                            return Err(Fail::Viol(format!("{}: value changed: {} -> {} (mod p: {} vs {} at {})", what, short(before), short(after), x, y, envs(&names, &env.v))));
                        }
                        decided = true;
                        obs.inc("assignments_compared_exactly");
                    }
                    Err(Stop::Undef) => {
                        return Err(Fail::Viol(format!("{}: result undefined where the input is defined: {} -> {} at {}", what, short(before), short(after), envs(&names, &env.v))));
                    }
                    Err(Stop::Unknown) => obs.inc("assignments_inconclusive"),
                },
                Err(Stop::Undef) => obs.inc("assignments_outside_domain"),
                Err(Stop::Unknown) => obs.inc("assignments_inconclusive"),
            }
        }
        if decided {
            return Ok(true);
        }
    }
    for i in 0..3u64 {
        let env = gen::iv_env(t, seed.wrapping_add(i * 104729), &names, positive, 1e-11);
        match sem::eval_i(before, &env, true) {
            Ok(x) => match sem::eval_i(after, &env, false) {
                Ok(y) => {
                    if x.disjoint(y) {
                        return Err(Fail::Viol(format!("{}: value changed: {} -> {} ({:?} vs {:?} at {:?})", what, short(before), short(after), x, y, sorted(&env.v))));
                    }
                    if x.width().max(y.width()) < 1e-4 * (x.mag() + 1e-9) {
                        decided = true;
                        obs.inc("assignments_compared_by_interval");
                    } else {
                        obs.inc("assignments_interval_too_wide");
                    }
                }
                Err(Stop::Undef) => {
                    return Err(Fail::Viol(format!("{}: result undefined where the input is defined: {} -> {} at {:?}", what, short(before), short(after), sorted(&env.v))));
                }
                Err(Stop::Unknown) => obs.inc("assignments_inconclusive"),
            },
            Err(Stop::Undef) => obs.inc("assignments_outside_domain"),
            Err(Stop::Unknown) => obs.inc("assignments_inconclusive"),
        }
    }
    Ok(decided)
}
fn envs(names: &[String], v: &std::collections::HashMap<String, u64>) -> String {
    names.iter().map(|n| format!("{}={}", n, v[n])).collect::<Vec<_>>().join(",")
}
pub fn sorted<V: Clone + std::fmt::Debug>(v: &std::collections::HashMap<String, V>) -> BTreeMap<String, V> {
    v.iter().map(|(k, x)| (k.clone(), x.clone())).collect()
}
