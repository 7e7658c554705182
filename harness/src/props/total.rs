//! C15 (no panic, crash, memory error, runaway) and C16 (reproducibility).
use super::compare::{shuffled, verdicts};
use super::laws::h;
use super::*;
use crate::term::{var, Term::*};
use num::bigint::BigInt;
use num::{One, Signed, Zero};
use std::cmp::Ordering;

fn name(t: &mut Tape) -> String {
    match t.below(10) {
        0 => String::new(),
        1 => "a".repeat(1 + t.below(2000)),
        2 => "变量".into(),
        3 => "\u{1F600}e\u{301}".into(),
        4 => "a b\n\"(".into(),
        5 => "1".into(),
        6 => "pow(a, b)".into(),
        7 => "\0".into(),
        8 => (0..t.range(1, 6)).map(|_| char::from_u32(32 + t.u16() as u32 % 5000).unwrap_or('?')).collect(),
        _ => "x".into(),
    }
}
fn huge(t: &mut Tape) -> BigInt {
    let mut x: BigInt = BigInt::from(t.u64()) + 1;
    for _ in 0..t.range(0, 60) {
        x = (x << 64) + t.u64();
    }
    if t.chance(128) { -x } else { x }
}
fn any_real(t: &mut Tape) -> f64 {
    match t.below(4) {
        0 => *t.pick(&[1e300, -1e300, 1e-300, -1e-300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e16, -4e15]),
        1 => {
            let x = f64::from_bits(t.u64());
            if x.is_finite() && x != 0.0 { x } else { 1.0 }
        }
        _ => gen::gen_real(t, false),
    }
}
pub fn rename(x: &Term, from: &str, to: &str) -> Term {
    let b = |y: &Term| Box::new(rename(y, from, to));
    let v = |v: &[Term]| v.iter().map(|y| rename(y, from, to)).collect::<Vec<_>>();
    match x {
        Var(s) if s == from => Var(to.into()),
        Sum(w, s) => Sum(v(w), *s),
        Prod(w, s) => Prod(v(w), *s),
        Neg(a, s) => Neg(b(a), *s),
        Sub(p, q, s) => Sub(b(p), b(q), *s),
        Div(p, q, s) => Div(b(p), b(q), *s),
        Pow(p, q, s) => Pow(b(p), b(q), *s),
        Log(p, q, s) => Log(b(p), b(q), *s),
        Sin(a) => Sin(b(a)),
        Cos(a) => Cos(b(a)),
        _ => x.clone(),
    }
}

const HOSTILE: [&str; 8] = ["any", "wide", "deep", "huge_integers", "odd_names", "huge_coefficients", "extreme_exponents", "extreme_reals"];

fn hostile(t: &mut Tape, cat: usize) -> Result<(Term, Term), Fail> {
    let small = Cfg { depth: 2, ..Kind::Exact.cfg() };
    Ok(match cat {
        1 => {
            let n = 20 + t.below(180);
            let is_sum = t.chance(170);
            // all operands alike
            if t.chance(80) {
                let kind = t.below(9);
                let n = 2 + if t.chance(128) { t.below(8) } else { t.below(60) };
                let base = |i: usize| if kind == 8 { term::int(i as i64 + 2) } else { var(&format!("w{}", i)) };
                let v: Vec<Term> = (0..n)
                    .map(|i| match kind {
                        0 => term::pow(base(i), term::int(-1 - t.below(3) as i64)),
                        1 | 8 => term::div(term::int(1), base(i)),
                        2 => term::neg(base(i)),
                        3 => Sin(Box::new(base(i))),
                        4 => term::log(base(i), var("q")),
                        5 => term::pow(base(i), var("n")),
                        6 => term::pow(base(i), term::prod(vec![term::int(-1), var("n")])),
                        _ => Prod(vec![Int(gen::gen_int(t, true)), base(i)], 0),
                    })
                    .collect();
                let st = t.byte();
                let w = if is_sum { Sum(v, st) } else { Prod(v, st) };
                return Ok((w.clone(), shuffled(&w, t)));
            }
            let mut g = Gen::new(t, Cfg { nvars: 4, ..Kind::Signed.cfg() });
            let mut v = vec![];
            for i in 0..n {
                g.budget = 3;
                let x = match g.t.below(8) {
                    0..=3 => g.leaf(),
                    4 => Prod(vec![g.leaf(), g.leaf()], 0),
                    5 => var(&format!("w{}", i)),
                    6 => g.term(1),
                    _ => {
                        let l = g.leaf();
                        term::pow(l, term::int(g.t.range(1, 5)))
                    }
                };
                v.push(x);
            }
            let st = t.byte();
            let w = if is_sum { Sum(v, st) } else { Prod(v, st) };
            let y = gen::gen_var(t, &small);
            (w.clone(), Sum(vec![y, w], 0))
        }
        2 => {
            let n = 8 + t.below(56);
            // chains of one kind of node go deepest, the sums in between keep them from merging
            let kind = t.below(40);
            let mut g = Gen::new(t, small.clone());
            let logs = (12..=21).contains(&kind);
            let mut x = if logs { var("a") } else { g.leaf() };
            for _ in 0..n {
                let l = if logs { gen::gen_var(g.t, &small) } else { g.leaf() };
                let s = g.style();
                // logarithms of sums of variables only: never a logarithm of zero
                let k = if g.t.chance(220) { kind } else if logs { 3 * g.t.below(2) } else { g.t.below(12) };
                x = match k {
                    12..=15 => Log(Box::new(x), Box::new(term::int(2 + g.t.range(0, 9))), s),
                    16..=18 => Log(Box::new(l), Box::new(x), s),
                    19..=21 => Log(Box::new(Sum(vec![x, l], s)), Box::new(var("q")), s),
                    22..=24 => Pow(Box::new(Sum(vec![x, l], s)), Box::new(var(g.t.pick(&gen::EXP_VARS))), s),
                    25..=27 => Pow(Box::new(var("q")), Box::new(Sum(vec![x, l], s)), s),
                    28..=30 => Sin(Box::new(Prod(vec![x, l], s))),
                    31..=32 => Cos(Box::new(x)),
                    33..=35 => Div(Box::new(term::int(1)), Box::new(Sum(vec![x, l], s)), s),
                    36..=39 => Prod(vec![l, Sum(vec![x, var("p")], s)], s),
                    0..=2 => Sum(vec![x, l], s),
                    3..=5 => Prod(vec![x, l], s),
                    6 => Neg(Box::new(x), s),
                    7 => Sub(Box::new(l), Box::new(x), s),
                    8 => Div(Box::new(l), Box::new(x), s),
                    9 => Sin(Box::new(x)),
                    10 => Pow(Box::new(l), Box::new(x), s),
                    _ => Pow(Box::new(x), Box::new(var(g.t.pick(&gen::EXP_VARS))), s),
                };
            }
            let y = shuffled(&x, t);
            (x, y)
        }
        3 => {
            let mut v = vec![Int(huge(t))];
            let n = 1 + t.below(3);
            for _ in 0..n {
                let x = match t.below(7) {
                    0 => Real(gen::gen_real(t, false)),
                    1 => Int(huge(t)),
                    2 => term::div(Int(huge(t)), Int(huge(t))),
                    3 => term::log(Int(huge(t).abs()), term::int(t.range(2, 12))),
                    4 => term::pow(Int(huge(t)), term::int(t.range(-2, 2))),
                    5 => term::pow(Real(gen::gen_real(t, true)), Int(huge(t))),
                    _ => gen::gen_var(t, &small),
                };
                v.push(x);
            }
            let st = t.byte();
            let last = v[v.len() - 1].clone();
            let x = match t.below(7) {
                0 | 1 => Sum(v, st),
                2 | 3 => Prod(v, st),
                4 => term::div(v[0].clone(), last),
                5 => term::pow(v[0].clone().clone(), term::int(t.range(-3, 3))),
                _ => term::log(Int(huge(t).abs()), Int(huge(t).abs() + 1)),
            };
            let y = Sum(vec![x.clone(), Int(huge(t))], 0);
            (x, y)
        }
        4 => {
            let k = Kind::pick(t);
            let x = gen_term(t, k)?;
            let y = gen_term(t, k)?;
            let (m, n) = (name(t), name(t));
            let f = |x: &Term| rename(&rename(x, "a", &m), "b", &n);
            (f(&x), f(&y))
        }
        5 => {
            let (mut v, mut w) = (vec![], vec![]);
            let a = gen::gen_var(t, &small);
            for _ in 0..1 + t.below(4) {
                let c = if t.chance(128) { huge(t) } else { gen::gen_int(t, true) };
                v.push(Prod(vec![Int(c.clone()), a.clone()], 0));
                w.push(Prod(vec![Int(c + t.range(-1, 1)), a.clone()], 0));
            }
            let s = t.byte();
            (Sum(v, s), Sum(w, s))
        }
        6 => {
            let b = match t.below(4) {
                0 => gen::gen_var(t, &small),
                1 => Prod(vec![gen::gen_var(t, &small), var("b")], 0),
                2 => term::int(*t.pick(&[1, -1, 2, 3])),
                _ => term::div(term::int(1), gen::gen_var(t, &small)),
            };
            let e = match t.below(5) {
                0 => Int(huge(t)),
                1 => term::int(i64::MIN),
                2 => Real(any_real(t)),
                3 => Prod(vec![Int(huge(t)), var("n")], 0),
                _ => Int(gen::gen_int(t, true)),
            };
            // a folded power must stay small enough to write down
            let folds = matches!(&b, Int(n) if n.abs() > BigInt::one()) && !matches!(&e, Real(_)) && gen::content(&e) > 4000.0;
            if folds {
                return Err(Fail::Discard);
            }
            let x = term::pow(b, e);
            let y = match t.below(3) {
                0 => Prod(vec![x.clone(), var("a")], 0),
                1 => Sum(vec![x.clone(), Int(gen::gen_int(t, true))], 0),
                _ => term::pow(x.clone(), term::int(t.range(-2, 3))),
            };
            (x, y)
        }
        7 => {
            let mut v = vec![];
            for _ in 0..2 + t.below(3) {
                let r = Real(any_real(t));
                v.push(match t.below(6) {
                    0 => Prod(vec![r, Int(gen::gen_int(t, true))], 0),
                    1 => Sum(vec![r, Int(huge(t))], 0),
                    2 => term::pow(Real(any_real(t).abs()), r),
                    3 => term::log(Real(any_real(t).abs()), Real(any_real(t).abs() + 1.5)),
                    _ if t.chance(20) => Real(*t.pick(&[0.0, -0.0])),
                    4 => Prod(vec![r, gen::gen_var(t, &small)], 0),
                    _ => r,
                });
            }
            let s = t.byte();
            let x = match t.below(16) {
                0 => v.pop().unwrap(),
                1 => Sin(Box::new(v.pop().unwrap())),
                2..=8 => Sum(v, s),
                _ => Prod(v, s),
            };
            let y = Sum(vec![x.clone(), Real(any_real(t))], 0);
            (x, y)
        }
        _ => {
            let k = Kind::pick(t);
            let x = gen_term(t, k)?;
            let y = if t.chance(128) { shuffled(&x, t) } else { gen_term(t, k)? };
            (x, y)
        }
    })
}

/// logarithms, sums and products of variables, integers only as bases
fn plain_logs(x: &Term) -> bool {
    match x {
        Var(_) => true,
        Sum(v, _) | Prod(v, _) => v.iter().all(plain_logs),
        Log(a, b, _) => plain_logs(a) && (plain_logs(b) || matches!(&**b, Int(n) if *n > BigInt::one())),
        _ => false,
    }
}

pub fn c15(t: &mut Tape, obs: &mut Obs) -> Res {
    let cat = t.below(10).saturating_sub(2);
    let (x, y) = hostile(t, cat)?;
    let cap = |x: &Term| if cat == 6 || cat == 7 { 20_000.0 } else { let _ = x; 8000.0 };
    if gen::work(&x) + gen::work(&y) > 6000.0 || gen::cost(&x) > 600.0 || gen::cost(&y) > 600.0 || (cat != 6 && cat != 7 && (gen::bits(&x) > cap(&x) || gen::bits(&y) > cap(&y))) || !(plain_logs(&x) || wellformed(&x)) || !(plain_logs(&y) || wellformed(&y)) {
        return Err(Fail::Discard);
    }
    let ctx = || format!("{} (and {})", short(&x), short(&y));
    let a = build(&x)?;
    let b = build(&y)?;
    // reflected operand counts: powers fold exponents together, keep the written-out size bounded
    let (ra, rb) = (term::reflect(&a), term::reflect(&b));
    let fold_free = |r: &Term| !r.any(&|z| matches!(z, Pow(b, e, _) if matches!((&**b, &**e), (Int(b), Int(e)) if b.abs() > BigInt::one() && e.bits() > 13)));
    if !fold_free(&ra) || !fold_free(&rb) {
        return Err(Fail::Discard);
    }
    let text = sut("rendering", &ctx, || (a.to_string(), format!("{:?}", a), b.to_string()))?;
    sut("cloning and comparing structure", &ctx, || {
        let c = a.clone();
        let d = (c == a, c.cmp(&a), a.cmp(&b), b.cmp(&a), a.partial_cmp(&b), a < b, h(&c) == h(&a), h(&b));
        drop(c);
        if !d.0 || d.1 != Ordering::Equal || !d.6 {
            panic!("a clone differs from its original");
        }
    })?;
    let mut transformed = 0;
    // an expansion that cannot be written down is outside the claim
    if gen::cost(&ra) <= 800.0 && gen::cost(&rb) <= 800.0 {
        let ex = sut("expand", &ctx, || a.clone().expand())?;
        let si = sut("simplify", &ctx, || a.clone().simplify())?;
        sut("rendering results", &ctx, || (ex.to_string(), si.to_string(), h(&ex), h(&si)))?;
        for i in 0..9 {
            let r = sut("a rule", &ctx, || super::value::rule(i, &a))?;
            obs.add("rule_applications", 1);
            drop(r);
        }
        transformed += 2;
        sut("comparing", &ctx, || verdicts(&a, &b))?;
        obs.inc("comparisons");
        if t.chance(60) {
            let ss = sut("simplify", &ctx, || (si.clone().simplify(), ex.clone().simplify(), si.clone().expand()))?;
            drop(ss);
            transformed += 3;
        }
        if let Expression::Addition(c) | Expression::Multiplication(c) = &a {
            sut("selectors", &ctx, || {
                (c.items().len(), c.get_reals().len(), c.get_rational_numerators().len(), c.get_rational_denominators().len(), c.get_rationals().len(), c.get_non_rationals().len(), c.get_symbolics().len())
            })?;
            obs.inc("selector_calls");
        }
    } else {
        obs.inc("expansion_too_large_to_write_down");
    }
    obs.add("transformations", transformed);
    obs.inc(&format!("workload_{}", HOSTILE[cat]));
    sut("dropping", &ctx, move || {
        drop(a);
        drop(b);
    })?;
    if transformed > 0 && x.size() > 1 {
        obs.case(&format!("{}|{}", term::key(&ra), term::key(&rb)), text.0);
    }
    Ok(())
}

// ------------------------------------------------------------------ C16

#[derive(Clone, PartialEq, Debug)]
struct Outcome {
    built: String,
    text: [String; 3],
    hash: [u64; 3],
    v: [bool; 3],
    vals: [Expression; 2],
}
fn pipeline(a: &Expression, b: &Expression) -> Outcome {
    let e = a.clone().expand();
    let s = a.clone().simplify();
    Outcome {
        built: a.to_string(),
        text: [b.to_string(), e.to_string(), s.to_string()],
        hash: [h(a), h(&e), h(&s)],
        v: [a.comparable(b), a.equal(b), a.greater_equal(b)],
        vals: [e, s],
    }
}

/// set in one of two twin processes: other work before every case
pub static NOISE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// formulas that look like x: integers as reals of the same value, names swapped, parts of x
fn lookalikes(x: &Term) -> Vec<Term> {
    fn realised(x: &Term) -> Term {
        let b = |y: &Term| Box::new(realised(y));
        let v = |v: &[Term]| v.iter().map(realised).collect::<Vec<_>>();
        match x {
            Int(n) if n.bits() < 50 => Real(num::ToPrimitive::to_f64(n).unwrap()),
            Sum(w, s) => Sum(v(w), *s),
            Prod(w, s) => Prod(v(w), *s),
            Neg(a, s) => Neg(b(a), *s),
            Sub(p, q, s) => Sub(b(p), b(q), *s),
            Div(p, q, s) => Div(b(p), b(q), *s),
            // exponents stay
            Pow(p, q, s) => Pow(b(p), q.clone(), *s),
            Log(p, q, s) => Log(b(p), b(q), *s),
            Sin(a) => Sin(b(a)),
            Cos(a) => Cos(b(a)),
            _ => x.clone(),
        }
    }
    let mut v = vec![realised(x), rename(&rename(&rename(x, "a", "~"), "b", "a"), "~", "b")];
    v.extend(x.children().into_iter().take(3).map(realised));
    v.extend(x.children().into_iter().take(3).cloned());
    v.retain(|y| gen::within(y, &Cfg::exact()) && wellformed(y));
    v
}
fn noise(ls: &[Term]) {
    for y in ls {
        // judged nowhere: only its traces matter
        let _ = std::panic::catch_unwind(|| {
            let e = term::build(y);
            let _ = (pipeline(&e, &e), e.to_string());
        });
    }
}

/// The first results a process computes (before or after a warm-up), one per line.
pub fn early(seed: u64) -> Vec<String> {
    let mut r = crate::tape::Rng::new(seed);
    let mut lines = vec![];
    for i in 0..700 {
        let mut t = Tape::random(vec![], r.next());
        let c = Cfg { depth: 2 + i % 2, ..[Kind::Exact, Kind::LogInt, Kind::Poly][i % 3].cfg() };
        let x = {
            let mut g = Gen::new(&mut t, c.clone());
            g.budget = 8;
            let x = g.top();
            match i % 7 {
                1 => term::log(Sum(vec![x.clone(), x], 0), var("b")),
                2 => Pow(Box::new(x), Box::new(var("n")), 0),
                3 => Prod(vec![x, var("a"), var("b")], 0),
                4 => term::neg(x),
                _ => x,
            }
        };
        if x.has_real() || gen::work(&x) > 60.0 || !gen::within(&x, &c) || !wellformed(&x) {
            continue;
        }
        let out = std::panic::catch_unwind(|| {
            let a = term::build(&x);
            let (s, e) = (a.clone().simplify(), a.clone().expand());
            if term::reflect(&s).has_real() || term::reflect(&e).has_real() {
                return "-".to_string();
            }
            format!("{} => {} | {} | {:016x} {:016x}", a, s, e, h(&s), h(&e))
        });
        lines.push(out.unwrap_or("-".into()).replace('\n', " "));
    }
    lines
}

/// Thousands of unrelated calls before the first case of one of two twin processes: nothing of it may be remembered.
pub fn warm_up() {
    use ncas::base::symbol::Symbol;
    let v = |i: usize| Symbol::variable(&format!("w{}", i)).expr();
    let n = |i: usize| Symbol::integer(i as isize).expr();
    let mut seen = 0usize;
    for i in 0..30_000usize {
        let _ = std::panic::catch_unwind(|| {
            let (a, b) = (v(i % 911), v(i / 7 % 13));
            let e = match i % 6 {
                0 => &a + &b,
                1 => &a * &n(i) + &b,
                2 => a.clone().log(b.clone()),
                3 => (&a + &n(i % 5)) * &b,
                4 => &a / &n(i % 97 + 2),
                _ => a.clone().pow(n(i % 4)) * &b,
            };
            let x = e.clone().expand();
            let s = e.clone().simplify();
            let _ = (v(i).simplify(), v(i + 1).expand(), x == s, x.cmp(&e), e.to_string().len(), Expression::division(n(i + 1), n(i % 19 + 1)));
            if i % 8 == 0 {
                let _ = (e.equal(&a), e.greater(&b), e.comparable(&s));
            }
        });
        seen += 1;
    }
    std::hint::black_box(seen);
}

pub fn c16(t: &mut Tape, obs: &mut Obs) -> Res {
    let k = if t.chance(140) { Kind::Exact } else { Kind::pick(t) };
    let x = gen_cheap(t, k)?;
    let y = match t.below(4) {
        0 => shuffled(&x, t),
        1 => Sum(vec![shuffled(&x, t), Int(gen::gen_int(t, false))], 0),
        _ => gen_cheap(t, k)?,
    };
    let x2 = shuffled(&x, t);
    let x3 = shuffled(&x, t);
    let ctx = || format!("{} (and {})", short(&x), short(&y));
    let ls = lookalikes(&x);
    if NOISE.load(std::sync::atomic::Ordering::Relaxed) {
        noise(&ls);
    }
    let (a, b) = (build(&x)?, build(&y)?);
    let key_before = (term::key(&term::reflect(&a)), term::key(&term::reflect(&b)));
    let o = sut("computing", &ctx, || pipeline(&a, &b))?;
    let real = x.has_real() || y.has_real() || x.has_log() && (term::reflect(&o.vals[0]).has_real() || term::reflect(&o.vals[1]).has_real());
    let judge = |p: &Outcome, how: &str, t: &mut Tape| -> Res {
        if !real {
            if p != &o {
                let d = if p.built != o.built {
                    format!("built {} vs {}", o.built, p.built)
                } else if p.text != o.text {
                    format!("texts {:?} vs {:?}", o.text, p.text)
                } else if p.hash != o.hash {
                    "hashes".to_string()
                } else if p.v != o.v {
                    format!("verdicts {:?} vs {:?}", o.v, p.v)
                } else {
                    "structure".to_string()
                };
                return Err(Fail::Viol(format!("not reproducible ({}) for {}: {}", how, ctx(), d)));
            }
            return Ok(());
        }
        // reals: up to rounding
        let mut names = vec![];
        x.vars(&mut names);
        let env = gen::iv_env(t, 5, &names, k.positive(), 1e-11);
        for i in 0..2 {
            let (p, q) = (term::reflect(&p.vals[i]), term::reflect(&o.vals[i]));
            if let (Ok(u), Ok(v)) = (sem::eval_i(&p, &env, true), sem::eval_i(&q, &env, true)) {
                if u.disjoint(v) {
                    return Err(Fail::Viol(format!("not reproducible ({}) for {}: {} vs {}", how, ctx(), q, p)));
                }
            }
        }
        Ok(())
    };
    // again: every hash map of the crate draws a fresh seed
    for _ in 0..2 {
        let p = sut("computing", &ctx, || pipeline(&a, &b))?;
        judge(&p, "repeated", t)?;
        obs.inc("repetitions");
    }
    // rebuilt from scratch, operands listed in another order
    for z in [&x2, &x3] {
        let a2 = build(z)?;
        let p = sut("computing", &ctx, || pipeline(&a2, &b))?;
        judge(&p, "operands reordered", t)?;
        obs.inc("reordered_constructions");
    }
    // after other work
    if obs.index % 3 == 1 {
        noise(&ls);
        let a2 = build(&x)?;
        let p = sut("computing", &ctx, || pipeline(&a2, &b))?;
        judge(&p, "after other work", t)?;
        obs.inc("repeated_after_other_work");
    }
    // concurrently, sharing the expressions
    if obs.index % 4 == 0 {
        // now and then a crowd
        let n = if obs.index % 32 == 0 { 16 } else { 3 };
        let ps = sut("computing in threads", &ctx, || {
            let bar = std::sync::Barrier::new(n);
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..n)
                    .map(|i| {
                        let (bar, a, b, ls) = (&bar, &a, &b, &ls);
                        std::thread::Builder::new()
                            .stack_size(32 << 20)
                            .spawn_scoped(s, move || {
                                if i == 2 {
                                    noise(ls);
                                }
                                bar.wait();
                                (pipeline(a, b), i)
                            })
                            .unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| panic!("a thread panicked: {}", crate::worker::last_panic())).0).collect::<Vec<_>>()
            })
        })?;
        for p in &ps {
            judge(p, "in concurrent threads", t)?;
        }
        obs.add("threads", n as u64);
    }
    // by-reference operators leave their operands alone
    sut("operators by reference", &ctx, || {
        let _ = (&a + &b, &a - &b, &a * &b, -&a, &b + &a, &a * &a);
    })?;
    if (term::key(&term::reflect(&a)), term::key(&term::reflect(&b))) != key_before {
        return Err(Fail::Viol(format!("an operation changed its operands {}: now {} and {}", ctx(), a, b)));
    }
    obs.inc("operands_checked_unchanged");
    if !real {
        obs.inc("real_free");
        let s = format!("{}|{:?}|{:?}", o.built, o.text, o.v);
        obs.digest = term::hash64(&s);
        for z in &o.hash {
            obs.digest = obs.digest.rotate_left(7) ^ z;
        }
        if term::reflect(&a).children().len() > 1 && o.text[2] != o.built {
            obs.case(&term::key(&term::reflect(&a)), format!("{} => {}", o.built, o.text[2]));
        }
    }
    let _ = BigInt::zero();
    Ok(())
}
