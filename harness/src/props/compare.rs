//! C08 C09: the seven comparison predicates.
use super::shape::{gen_poly_term, perturb};
use super::*;
use crate::poly::{self};
use crate::term::Term::*;
use num::bigint::BigInt;
use num::rational::BigRational;
use num::{Signed, Zero};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Verdicts {
    pub comparable: bool,
    pub equal: bool,
    pub not_equal: bool,
    pub greater: bool,
    pub lesser: bool,
    pub greater_equal: bool,
    pub lesser_equal: bool,
}
pub fn verdicts(a: &Expression, b: &Expression) -> Verdicts {
    Verdicts {
        comparable: a.comparable(b),
        equal: a.equal(b),
        not_equal: a.not_equal(b),
        greater: a.greater(b),
        lesser: a.lesser(b),
        greater_equal: a.greater_equal(b),
        lesser_equal: a.lesser_equal(b),
    }
}

/// constant offset: exact value and a formula for it
fn offset(t: &mut Tape) -> (BigRational, Term) {
    match t.below(10) {
        0..=2 => (BigRational::zero(), term::int(0)),
        3..=5 => {
            let n = gen::gen_int(t, true);
            (BigRational::from_integer(n.clone()), Int(n))
        }
        6..=7 => {
            let n = gen::gen_int(t, true);
            let d = gen::gen_int(t, true);
            let d = if d.is_zero() { BigInt::from(3) } else { d };
            (BigRational::new(n.clone(), d.clone()), term::div(Int(n), Int(d)))
        }
        8 => {
            let r = gen::gen_dyadic(t, false);
            (BigRational::from_float(r).unwrap(), Real(r))
        }
        _ => {
            let n = BigInt::from(t.range(-20, 20));
            let d = BigInt::from(t.range(1, 12));
            (BigRational::new(n.clone(), d.clone()), term::div(Int(n), Int(d)))
        }
    }
}

/// real constants of any scale: the written difference is exact because nothing else is added to them
fn c08_scaled(t: &mut Tape, obs: &mut Obs) -> Res {
    let e = t.range(-300, 300) as i32;
    let r = |t: &mut Tape| (t.range(-40, 40) as f64) * 2f64.powi(e);
    let (r1, r2) = (r(t), if t.chance(80) { 0.0 } else { r(t) });
    let mut monos: Vec<Term> = vec![];
    for _ in 0..t.below(4) {
        let v = term::var(t.pick(&gen::BASE_VARS));
        monos.push(match t.below(3) {
            0 => v,
            1 => Prod(vec![term::int(t.range(2, 9)), v], 0),
            _ => Prod(vec![v, term::var(t.pick(&gen::BASE_VARS))], 0),
        });
    }
    let mk = |r: f64, t: &mut Tape| {
        let mut v = monos.clone();
        if r != 0.0 || v.is_empty() {
            v.push(Real(r));
        }
        t.shuffle(&mut v);
        if v.len() == 1 { v.pop().unwrap() } else { Sum(v, t.byte()) }
    };
    let (x, y) = (mk(r1, t), mk(r2, t));
    let (a, b) = (build(&x)?, build(&y)?);
    let ctx = || format!("{} with {}", short(&x), short(&y));
    let v = sut("comparing", &ctx, || verdicts(&a, &b))?;
    let (e, g, l) = (r1 == r2, r1 > r2, r1 < r2);
    let want = Verdicts { comparable: true, equal: e, not_equal: !e, greater: g, lesser: l, greater_equal: g || e, lesser_equal: l || e };
    obs.inc("pairs_of_scaled_reals");
    obs.add("verdicts_read", 7);
    if v != want {
        return Err(Fail::Viol(format!("comparison of {}: expected {:?}, got {:?}", ctx(), want, v)));
    }
    if a != b {
        obs.case(&format!("{}|{}", term::key(&x), term::key(&y)), format!("{} vs {}: {:?}", x, y, v));
    }
    Ok(())
}

pub fn c08(t: &mut Tape, obs: &mut Obs) -> Res {
    if t.chance(16) {
        return c08_scaled(t, obs);
    }
    let (x, p) = gen_poly_term(t, 250.0)?;
    let same = t.chance(170);
    let (y, q) = if same {
        (poly::spell(&p, t), p.clone())
    } else if t.chance(128) {
        let q = perturb(&p, t);
        (poly::spell(&q, t), q)
    } else {
        gen_poly_term(t, 250.0)?
    };
    if gen::cost(&y) > 1500.0 {
        return Err(Fail::Discard);
    }
    let (c1, t1) = offset(t);
    let ((c1, t1), (c2, t2)) = match t.below(6) {
        0 => ((c1.clone(), t1.clone()), (c1, t1)),
        // an exact number against a real next to it: no other real takes part, so nothing may be rounded
        1 => {
            let (n, d) = (t.range(-60, 60), t.range(1, 60));
            let f = n as f64 / d as f64;
            let f = if n == 0 { 1e-20 * d as f64 } else { f64::from_bits((f.to_bits() as i64 + t.range(-1, 1)) as u64) };
            let exact = (BigRational::new(n.into(), d.into()), if d == 1 { term::int(n) } else { term::div(term::int(n), term::int(d)) });
            let near = (BigRational::from_float(f).unwrap(), Real(f));
            obs.inc("pairs_of_neighbouring_numbers");
            if t.chance(128) { (exact, near) } else { (near, exact) }
        }
        _ => ((c1, t1), offset(t)),
    };
    let attach = |x: Term, c: &Term, t: &mut Tape| -> Term {
        if matches!(c, Int(n) if n.is_zero()) {
            return x;
        }
        match t.below(3) {
            0 => Sum(vec![c.clone(), x], t.byte()),
            1 => Sub(Box::new(x), Box::new(Neg(Box::new(c.clone()), 0)), t.byte()),
            _ => Sum(vec![x, c.clone()], t.byte()),
        }
    };
    let (x, y) = (attach(x, &t1, t), attach(y, &t2, t));
    let (a, b) = (build(&x)?, build(&y)?);
    let ctx = || format!("{} with {}", short(&x), short(&y));
    let v = sut("comparing", &ctx, || verdicts(&a, &b))?;
    let diff = p.add(&q.neg());
    let want = match diff.as_const() {
        Some(c) => {
            let d = BigRational::from_integer(c) + c1 - c2;
            let (e, g, l) = (d.is_zero(), d.is_positive(), d.is_negative());
            obs.inc(if e { "pairs_equal" } else if g { "pairs_greater" } else { "pairs_lesser" });
            Verdicts { comparable: true, equal: e, not_equal: !e, greater: g, lesser: l, greater_equal: g || e, lesser_equal: l || e }
        }
        None => {
            obs.inc("pairs_incomparable");
            Verdicts { comparable: false, equal: false, not_equal: false, greater: false, lesser: false, greater_equal: false, lesser_equal: false }
        }
    };
    if matches!(t1, Real(_)) || matches!(t2, Real(_)) {
        obs.inc("pairs_with_real_offset");
    } else if matches!(t1, Div(..)) || matches!(t2, Div(..)) {
        obs.inc("pairs_with_rational_offset");
    }
    obs.add("verdicts_read", 7);
    if v != want {
        return Err(Fail::Viol(format!("comparison of {}: expected {:?}, got {:?}", ctx(), want, v)));
    }
    if a != b {
        obs.case(&format!("{}|{}", term::key(&x), term::key(&y)), format!("{} vs {}: {:?}", x, y, v));
    }
    Ok(())
}

fn shuffle_deep(x: &Term, t: &mut Tape) -> Term {
    match x {
        Sum(v, _) => {
            let mut w: Vec<Term> = v.iter().map(|y| shuffle_deep(y, t)).collect();
            t.shuffle(&mut w);
            Sum(w, t.byte())
        }
        Prod(v, _) => {
            let mut w: Vec<Term> = v.iter().map(|y| shuffle_deep(y, t)).collect();
            t.shuffle(&mut w);
            Prod(w, t.byte())
        }
        Neg(a, _) => Neg(Box::new(shuffle_deep(a, t)), t.byte()),
        Sub(a, b, _) => Sub(Box::new(shuffle_deep(a, t)), Box::new(shuffle_deep(b, t)), t.byte()),
        Div(a, b, _) => Div(Box::new(shuffle_deep(a, t)), Box::new(shuffle_deep(b, t)), t.byte()),
        Pow(a, b, _) => Pow(Box::new(shuffle_deep(a, t)), Box::new(shuffle_deep(b, t)), t.byte()),
        Log(a, b, _) => Log(Box::new(shuffle_deep(a, t)), Box::new(shuffle_deep(b, t)), t.byte()),
        Sin(a) => Sin(Box::new(shuffle_deep(a, t))),
        Cos(a) => Cos(Box::new(shuffle_deep(a, t))),
        _ => x.clone(),
    }
}
pub fn shuffled(x: &Term, t: &mut Tape) -> Term {
    shuffle_deep(x, t)
}
/// the same formula written another way: small powers multiplied out, small coefficients added up
pub fn respelled(x: &Term, t: &mut Tape) -> Term {
    let small = |n: &BigInt| (2..=7).find(|k| *n == BigInt::from(*k)).map(|k: i64| k as usize);
    match x {
        Pow(a, b, s) => {
            let a = respelled(a, t);
            match &**b {
                Int(n) if !t.chance(60) => match small(n) {
                    // all of it, a part of it, or in two steps
                    Some(k) => {
                        let whole = t.below(3);
                        let single = if whole == 0 { k } else { 1 + t.below(k - 1) };
                        let mut v = vec![a.clone(); single];
                        if single < k {
                            v.push(Pow(Box::new(a), Box::new(term::int((k - single) as i64)), *s));
                        }
                        t.shuffle(&mut v);
                        Prod(v, t.byte())
                    }
                    None => Pow(Box::new(a), b.clone(), *s),
                },
                _ => Pow(Box::new(a), Box::new(respelled(b, t)), *s),
            }
        }
        Prod(v, s) => {
            let mut w: Vec<Term> = v.iter().map(|y| respelled(y, t)).collect();
            let n = w.iter().position(|y| matches!(y, Int(n) if small(n).is_some()));
            match n {
                Some(at) if t.chance(60) => {
                    let k = if let Int(n) = w.remove(at) { small(&n).unwrap() } else { 1 };
                    let p = if w.len() == 1 { w.pop().unwrap() } else { Prod(w, *s) };
                    if matches!(p, Prod(ref w, _) if w.is_empty()) { term::int(k as i64) } else { Sum(vec![p; k], t.byte()) }
                }
                _ => {
                    t.shuffle(&mut w);
                    Prod(w, t.byte())
                }
            }
        }
        Sum(v, _) => {
            let mut w: Vec<Term> = v.iter().map(|y| respelled(y, t)).collect();
            t.shuffle(&mut w);
            Sum(w, t.byte())
        }
        Neg(a, s) => Neg(Box::new(respelled(a, t)), *s),
        Sub(a, b, s) => Sub(Box::new(respelled(a, t)), Box::new(respelled(b, t)), *s),
        Div(a, b, s) => Div(Box::new(respelled(a, t)), Box::new(respelled(b, t)), *s),
        _ => x.clone(),
    }
}

/// a number and a formula that never passes, or only just touches it
fn bounded(t: &mut Tape) -> (Term, Term) {
    let v = |t: &mut Tape| Box::new(term::var(t.pick(&gen::BASE_VARS)));
    let a = v(t);
    let m = |t: &mut Tape| Box::new(term::int(*t.pick(&[2, 2, 2, 4, 6, 3])));
    let one = match t.below(6) {
        0 => Sin(a),
        1 => Cos(a),
        2 => Pow(Box::new(Sin(a)), m(t), 0),
        3 => Pow(Box::new(Cos(a)), m(t), 0),
        4 => Pow(Box::new(Sub(a, v(t), 0)), m(t), 0),
        _ => Pow(a, m(t), 0),
    };
    let f = match t.below(6) {
        0 => Sum(vec![one.clone(), Pow(v(t), m(t), 0)], t.byte()),
        1 => Prod(vec![term::int(t.range(-3, 3)), one], t.byte()),
        2 => Prod(vec![one.clone(), one], t.byte()),
        3 => Sum(vec![one, term::int(t.range(-2, 2))], t.byte()),
        _ => one,
    };
    let n = if t.chance(50) { term::div(term::int(t.range(-9, 9)), term::int(t.range(1, 9))) } else { term::int(t.range(-3, 3)) };
    if t.chance(128) { (n, f) } else { (f, n) }
}

pub fn c09(t: &mut Tape, obs: &mut Obs) -> Res {
    let k = Kind::pick(t);
    let x = gen_cheap(t, k)?;
    let mode = t.below(11);
    let y = match mode {
        10 => respelled(&x, t),
        0 => x.clone(),
        1 => shuffle_deep(&x, t),
        2 => Sum(vec![shuffle_deep(&x, t), Int(gen::gen_int(t, k.cfg().big))], t.byte()),
        3 => {
            let (d, n) = if t.chance(160) {
                (BigInt::from(t.range(1, 9)), BigInt::from(t.range(-9, 9)))
            } else {
                // far below what a real can tell
                let n = if t.chance(128) { BigInt::from(t.range(-9, 9)) } else { gen::gen_int(t, true) };
                (gen::gen_int(t, true).abs().pow(t.range(1, 9) as u32) + 1, n)
            };
            Sum(vec![x.clone(), term::div(Int(n), Int(d))], t.byte())
        }
        4 if k.cfg().real => Sum(vec![x.clone(), Real(gen::gen_real(t, false))], t.byte()),
        5 => {
            // factor out / scale
            let n = term::int(t.range(2, 5));
            term::div(Prod(vec![n.clone(), x.clone()], t.byte()), n)
        }
        6 => {
            let y = gen_cheap(t, k)?;
            term::sub(Sum(vec![x.clone(), y.clone()], t.byte()), y)
        }
        7 => {
            let y = gen_cheap(t, k)?;
            term::div(Prod(vec![x.clone(), y.clone()], t.byte()), y)
        }
        8 => {
            // multiplied out by hand: x*(y+1) against x*y + x
            let y = gen_cheap(t, k)?;
            Sum(vec![Prod(vec![x.clone(), y.clone()], t.byte()), x.clone()], t.byte())
        }
        _ => gen_cheap(t, k)?,
    };
    let x = if mode == 8 {
        if let Sum(v, _) = &y {
            if let Prod(w, _) = &v[0] { Prod(vec![x, Sum(vec![w[1].clone(), term::int(1)], t.byte())], t.byte()) } else { x }
        } else {
            x
        }
    } else {
        x
    };
    // the same symbols beside both
    let (x, y) = if t.chance(14) {
        let n = gen::wide_len(t).min(40);
        let mut pad: Vec<Term> = (0..n).map(|i| term::var(&format!("w{}", i))).collect();
        let mut long = |x: Term, t: &mut Tape| {
            t.shuffle(&mut pad);
            let mut v = pad.clone();
            let at = t.below(n + 1);
            v.insert(at, x);
            Sum(v, t.byte())
        };
        obs.inc("long_sums_compared");
        (long(x, t), long(y, t))
    } else {
        (x, y)
    };
    // a number against something bounded
    let (x, y) = if mode != 0 && t.chance(16) {
        obs.inc("bounded_formulas_compared");
        bounded(t)
    } else {
        (x, y)
    };
    let c = k.cfg();
    // combining two formulas multiplies their sizes
    if gen::work(&x) + gen::work(&y) > 300.0 && !t.chance(25) {
        return Err(Fail::Discard);
    }
    if gen::cost(&x) > c.max_cost || gen::cost(&y) > c.max_cost || gen::bits(&y) > 8000.0 || gen::work(&x) + gen::work(&y) > 8000.0 || !gen::in_range(&y) || !wellformed(&x) || !wellformed(&y) {
        return Err(Fail::Discard);
    }
    let (a, b) = (build(&x)?, build(&y)?);
    let ctx = || format!("{} with {}", short(&x), short(&y));
    let v = sut("comparing", &ctx, || verdicts(&a, &b))?;
    let bad = |m: &str| Err(Fail::Viol(format!("comparison of {}: {}: {:?}", ctx(), m, v)));
    if v.equal as u8 + v.greater as u8 + v.lesser as u8 > 1 {
        return bad("more than one of equal/greater/lesser");
    }
    if v.comparable != (v.equal || v.not_equal) {
        return bad("comparable is not equal-or-not_equal");
    }
    if v.equal && v.not_equal {
        return bad("equal and not_equal");
    }
    if v.not_equal != (v.greater || v.lesser) {
        return bad("not_equal is not greater-or-lesser");
    }
    if v.greater_equal != (v.greater || v.equal) {
        return bad("greater_equal is not greater-or-equal");
    }
    if v.lesser_equal != (v.lesser || v.equal) {
        return bad("lesser_equal is not lesser-or-equal");
    }
    obs.inc("coherence_checked");
    let (rx, ry) = (term::reflect(&a), term::reflect(&b));
    if mode == 0 {
        let mut names = vec![];
        rx.vars(&mut names);
        let fe = gen::field_env(t, 11, &names);
        let ie = gen::iv_env(t, 12, &names, k.positive(), 1e-11);
        if sem::eval_f(&rx, &fe, true).is_ok() || sem::eval_i(&rx, &ie, true).is_ok() {
            obs.inc("self_comparisons");
            if !v.equal {
                return bad("an expression is not equal to itself");
            }
        }
    }
    if v.comparable {
        let both = Sum(vec![rx.clone(), ry.clone()], 0);
        let mut names = vec![];
        both.vars(&mut names);
        let seed = t.u64();
        let mut decided = false;
        if !both.has_real() && !both.has_log() {
            for i in 0..2u64 {
                let env = gen::field_env(t, seed.wrapping_add(i), &names);
                if let (Ok(p), Ok(q)) = (sem::eval_f(&rx, &env, true), sem::eval_f(&ry, &env, true)) {
                    if v.equal != (p == q) {
                        return bad("verdict does not match the exact values (mod p)");
                    }
                    decided = true;
                    obs.inc("verdicts_checked_exactly");
                }
            }
            // pure numbers: exact order
            if let (Ok(p), Ok(q)) = (sem::eval_q(&rx, &Default::default()), sem::eval_q(&ry, &Default::default())) {
                if v.greater != (p > q) || v.lesser != (p < q) || v.equal != (p == q) {
                    return bad("verdict does not match the exact numbers");
                }
                decided = true;
                obs.inc("verdicts_checked_exactly");
            }
        }
        for i in 0..3u64 {
            let env = gen::iv_env(t, seed.wrapping_add(i), &names, k.positive(), 1e-11);
            if let (Ok(p), Ok(q)) = (sem::eval_i(&rx, &env, true), sem::eval_i(&ry, &env, true)) {
                if v.equal && p.disjoint(q) || v.greater && p.hi < q.lo || v.lesser && p.lo > q.hi {
                    return Err(Fail::Viol(format!("comparison of {}: verdict {:?} is wrong at {:?}: {:?} vs {:?}", ctx(), v, sorted(&env.v), p, q)));
                }
                decided |= p.disjoint(q) || (v.equal && p.width() < 1e-4 * (1e-9 + p.mag()));
                obs.inc("verdicts_checked_by_interval");
            }
        }
        obs.inc(if v.equal { "verdict_equal" } else if v.greater { "verdict_greater" } else { "verdict_lesser" });
        if decided {
            obs.case(&format!("{}|{}", term::key(&rx), term::key(&ry)), format!("{} vs {}: {:?}", rx, ry, v));
        }
    } else {
        obs.inc("verdict_incomparable");
    }
    Ok(())
}
