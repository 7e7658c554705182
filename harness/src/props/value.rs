//! C01 C02 C03 C04 C06 C18: the value of the result equals the value of the written formula.
use super::*;
use crate::term::Term::*;
use num::bigint::BigInt;
use num::{One, Signed, ToPrimitive, Zero};

pub fn c01(t: &mut Tape, obs: &mut Obs) -> Res {
    let k = Kind::pick(t);
    let op = t.below(12);
    let st = t.byte();
    let n = match op {
        0..=5 => match t.below(12) {
            0..=5 => 2,
            6..=8 => 3,
            9 => 4,
            10 => t.range(0, 1) as usize,
            _ if t.chance(60) => gen::wide_len(t),
            _ => t.range(1, 9) as usize,
        },
        _ => 2,
    };
    let d = if n > 10 { t.below(2) } else { 1 + t.below(3) };
    let mut ops = gen_many(t, k, n.max(1), d)?;
    // opposites (inverses) of operands among the others
    if op <= 5 && t.chance(50) {
        for _ in 0..1 + t.below(3) {
            let x = if k.cfg().real && t.chance(128) { Real(gen::gen_real(t, k.positive())) } else { ops[t.below(ops.len())].clone() };
            let y = match (&x, op) {
                (_, 3..=5) => term::div(term::int(1), x.clone()),
                (Real(r), _) => Real(-r),
                _ => term::neg(x.clone()),
            };
            if !k.positive() && wellformed(&y) {
                let at = t.below(ops.len() + 1);
                ops.insert(at, y);
                let at = t.below(ops.len() + 1);
                ops.insert(at, x);
            }
        }
    }
    let n = if op <= 5 { ops.len() - (n == 0) as usize } else { n };
    let mut es = vec![];
    for o in &ops {
        es.push(build(o)?);
    }
    let rs: Vec<Term> = es.iter().map(term::reflect).collect();
    let bx = |i: usize| Box::new(rs[i].clone());
    let formula = match op {
        0..=2 => Sum(rs[..n].to_vec(), st),
        3..=5 => Prod(rs[..n].to_vec(), st),
        6 => Neg(bx(0), st),
        7..=8 => Sub(bx(0), bx(1), st),
        _ => Div(bx(0), bx(1), st),
    };
    if !wellformed(&formula) {
        return Err(Fail::Discard);
    }
    let ctx = || short(&formula);
    let r = sut("constructing", &ctx, || apply(&formula, es.clone()))?;
    // by-reference forms must leave the operands alone; the operands were cloned, so compare with the originals
    let rr = term::reflect(&r);
    let decided = same_value(&formula, &rr, t, obs, k.positive(), "operator")?;
    obs.inc(["op_sum", "op_sum", "op_sum", "op_product", "op_product", "op_product", "op_negation", "op_difference", "op_difference", "op_quotient", "op_quotient", "op_quotient"][op]);
    if decided {
        obs.case(&format!("{}{}{}", op, st % 15, term::key(&rr)), format!("{} => {}", formula, r));
    }
    Ok(())
}

/// top operator of `f` applied to ready-made operands
fn apply(f: &Term, mut es: Vec<Expression>) -> Expression {
    match f {
        Sum(v, st) => {
            es.truncate(v.len());
            term::combine(es, *st, true)
        }
        Prod(v, st) => {
            es.truncate(v.len());
            term::combine(es, *st, false)
        }
        Neg(_, st) => {
            let a = es.swap_remove(0);
            if st % 2 == 0 { -a } else { -&a }
        }
        Sub(_, _, st) => {
            let b = es.swap_remove(1);
            let a = es.swap_remove(0);
            match st % 5 {
                0 => a - b,
                1 => a - &b,
                2 => &a - b,
                3 => &a - &b,
                _ => Expression::subtraction(a, b),
            }
        }
        Div(_, _, st) => {
            let b = es.swap_remove(1);
            let a = es.swap_remove(0);
            match st % 5 {
                0 => a / b,
                1 => a / &b,
                2 => &a / b,
                3 => &a / &b,
                _ => Expression::division(a, b),
            }
        }
        Pow(_, _, st) => {
            let b = es.swap_remove(1);
            let a = es.swap_remove(0);
            term::guard_power(&a, &b);
            if st % 2 == 0 { a.pow(b) } else { Expression::power(a, b) }
        }
        Log(_, _, st) => {
            let b = es.swap_remove(1);
            let a = es.swap_remove(0);
            if st % 2 == 0 { a.log(b) } else { Expression::logarithm(a, b) }
        }
        _ => unreachable!(),
    }
}

/// exponents nobody could multiply out: the result is known all the same
fn c02_extreme(t: &mut Tape, obs: &mut Obs) -> Res {
    let st = t.byte();
    let big = |t: &mut Tape| -> BigInt {
        let n = match t.below(3) {
            0 => gen::gen_int(t, true).abs() + 2,
            1 => num::pow(BigInt::from(2), t.range(7, 130) as usize) + t.range(-2, 2),
            _ => BigInt::from(t.u64() >> t.below(60)) + 2,
        };
        if t.chance(100) { -n } else { n }
    };
    let n = big(t);
    match t.below(7) {
        // a real whose power is close to the end of the real range
        6 => {
            let b = 10f64.powf(t.range(-120, 120) as f64 / 10.0) * (1.0 + t.range(0, 900) as f64 / 1000.0);
            let b = if t.chance(60) { -b } else { b };
            let d = b.abs().log10();
            let target = t.range(2700, 3065) as f64 / 10.0 * if t.chance(128) { -1.0 } else { 1.0 };
            let n = (target / d).trunc();
            if !n.is_finite() || n.abs() > 2000.0 || n.abs() < 2.0 {
                return Err(Fail::Discard);
            }
            let exact = match num::BigRational::from_float(b) {
                Some(q) => num::pow::Pow::pow(q, n.abs() as u32),
                None => return Err(Fail::Discard),
            };
            let bits = |x: &BigInt| -> f64 {
                // logarithm to the base 2, from the leading 64 bits
                let k = x.bits().saturating_sub(64);
                (x.abs() >> k).to_f64().unwrap().log2() + k as f64
            };
            let log2 = (bits(exact.numer()) - bits(exact.denom())) * n.signum();
            if log2.abs() > 1019.0 {
                return Err(Fail::Discard);
            }
            let negative = exact.numer().is_negative();
            let e = if t.chance(60) { Real(n) } else { Int(BigInt::from(n as i64)) };
            let f = Pow(Box::new(Real(b)), Box::new(e), st);
            let ctx = || short(&f);
            let r = sut("constructing", &ctx, || term::build(&f))?;
            if let Some(g) = numeric(&term::reflect(&r)) {
                if !((g.abs().log2() - log2).abs() <= 1e-6) || (g < 0.0) != negative {
                    return Err(Fail::Viol(format!("power: {} gave {} instead of {}2^{}", f, r, if negative { "-" } else { "" }, log2)));
                }
                obs.inc("powers_near_the_end_of_the_real_range");
                obs.case(&term::key(&f), format!("{} => {}", f, r));
            }
        }
        // 1, -1, 0
        0 | 1 => {
            let b = t.range(-1, 1);
            let odd = n.bit(0);
            // the real -1.0
            if b == -1 && t.chance(80) {
                let f = Pow(Box::new(Real(-1.0)), Box::new(Int(n.clone())), st);
                let ctx = || short(&f);
                let r = sut("constructing", &ctx, || term::build(&f))?;
                return match numeric(&term::reflect(&r)) {
                    Some(g) if g != if odd { -1.0 } else { 1.0 } => Err(Fail::Viol(format!("power: {} gave {}", f, r))),
                    Some(_) => {
                        obs.inc("real_unit_bases_with_huge_exponents");
                        obs.case(&term::key(&f), format!("{} => {}", f, r));
                        Ok(())
                    }
                    None => Ok(()),
                };
            }
            if b == 0 && n.is_negative() {
                return Err(Fail::Discard);
            }
            let want = if b == -1 && !odd { 1 } else { b };
            let f = Pow(Box::new(term::int(b)), Box::new(Int(n.clone())), st);
            let ctx = || short(&f);
            let r = sut("constructing", &ctx, || term::build(&f))?;
            let rr = term::reflect(&r);
            if n.is_negative() {
                // may stay a power; its value is known
                if sem::eval_f(&rr, &sem::FieldEnv { v: Default::default(), q: Default::default() }, false) != Ok(sem::modp(&BigInt::from(want), sem::P)) {
                    return Err(Fail::Viol(format!("power: {} gave {}", f, r)));
                }
            } else if term::key(&rr) != term::key(&term::int(want)) {
                return Err(Fail::Viol(format!("power: {} gave {} instead of {}", f, r, want)));
            }
            obs.inc("unit_bases_with_huge_exponents");
            obs.case(&term::key(&f), format!("{} => {}", f, r));
        }
        // a real near 1, a moderate result
        2 | 3 => {
            let nf = n.to_f64().unwrap_or(f64::INFINITY);
            if !nf.is_finite() {
                return Err(Fail::Discard);
            }
            let y = t.range(-2000, 2000) as f64 / 100.0;
            let b = (y / nf).exp();
            // what ncas is really given
            let y = nf * (b - 1.0).ln_1p();
            if y.abs() < 1e-2 || y.abs() > 25.0 {
                return Err(Fail::Discard);
            }
            // the sign of an integer power is its parity, however large the exponent
            let neg = t.chance(80);
            let base = if neg { -b } else { b };
            let e = if nf.abs() < 9e15 && !(neg && nf.fract() != 0.0) && t.chance(60) { Real(nf) } else { Int(n.clone()) };
            let f = Pow(Box::new(Real(base)), Box::new(e), st);
            let ctx = || short(&f);
            let r = sut("constructing", &ctx, || term::build(&f))?;
            let rr = term::reflect(&r);
            // an exponent or base kept as it is says nothing
            let want = y.exp() * if neg && n.bit(0) { -1.0 } else { 1.0 };
            let got = numeric(&rr);
            match got {
                Some(g) => {
                    if !((g - want).abs() <= 1e-6 * want.abs()) {
                        return Err(Fail::Viol(format!("power: {} gave {} instead of {:e}", f, r, want)));
                    }
                    obs.inc("reals_with_huge_exponents");
                    obs.case(&term::key(&f), format!("{} => {}", f, r));
                }
                None => obs.inc("real_powers_kept_symbolic"),
            }
        }
        // symbols
        _ => {
            let v = |t: &mut Tape| term::var(t.pick(&gen::BASE_VARS));
            let base = match t.below(7) {
                0 | 1 => v(t),
                2 => term::neg(v(t)),
                3 => Prod(vec![v(t), v(t)], 0),
                4 => term::pow(v(t), Int(big(t))),
                5 => term::neg(term::pow(v(t), term::var(t.pick(&gen::EXP_VARS)))),
                _ => Sum(vec![v(t), Int(gen::gen_int(t, true))], 0),
            };
            let e = if t.chance(60) { Prod(vec![Int(n), term::var(t.pick(&gen::EXP_VARS))], 0) } else { Int(n) };
            let es = vec![build(&base)?, build(&e)?];
            let formula = Pow(Box::new(term::reflect(&es[0])), Box::new(term::reflect(&es[1])), st);
            // (a + a)^huge would have to be written out
            if gen::bits(&es.first().map(term::reflect).unwrap()) > 0.0 && !matches!(term::reflect(&es[0]), Sum(..)) {
                return Err(Fail::Discard);
            }
            if !wellformed(&formula) {
                return Err(Fail::Discard);
            }
            let ctx = || short(&formula);
            let r = sut("constructing", &ctx, || apply(&formula, es.clone()))?;
            let rr = term::reflect(&r);
            if same_value(&formula, &rr, t, obs, false, "power")? {
                obs.inc("symbols_with_huge_exponents");
                obs.case(&term::key(&formula), format!("{} => {}", formula, r));
            }
        }
    }
    Ok(())
}
/// plain f64 value of a number (products of numbers included)
fn numeric(x: &Term) -> Option<f64> {
    match x {
        Int(n) => n.to_f64(),
        Real(r) => Some(*r),
        Prod(v, _) => v.iter().map(numeric).product::<Option<f64>>(),
        _ => None,
    }
}

pub fn c02(t: &mut Tape, obs: &mut Obs) -> Res {
    if t.chance(50) {
        return c02_extreme(t, obs);
    }
    let k = match t.below(16) {
        0..=8 => Kind::Exact,
        9..=11 => Kind::Positive,
        12..=14 => Kind::Signed,
        _ => Kind::LogInt,
    };
    let mut c = k.cfg();
    c.depth = 3;
    let (base, exp) = {
        let mut g = Gen::new(t, c.clone());
        g.budget = 14;
        let db = g.t.below(4);
        let base = match g.t.below(8) {
            // numbers, numeric multiples, powers of numbers
            0 => Int(gen::gen_int(g.t, true)),
            1 => {
                let x = g.leaf();
                let n = g.small_int();
                Prod(vec![Int(n), x], 0)
            }
            2 => {
                let x = g.term(1);
                let e = if c.real && g.t.chance(80) { Real(gen::gen_real(g.t, true)) } else { g.exponent(1) };
                term::pow(x, e)
            }
            3 if c.real => Real(gen::gen_real(g.t, c.positive)),
            _ => g.term(db),
        };
        let base = if c.positive && base.any(&|x| matches!(x, Int(n) if !n.is_positive())) { term::int(3) } else { base };
        g.budget = 14;
        let exp = match g.t.below(12) {
            // almost the inverse of the exponent below
            _ if matches!(&base, Pow(_, e, _) if matches!(&**e, Real(_))) && g.t.chance(128) => {
                let p = match &base {
                    Pow(_, e, _) => match &**e {
                        Real(p) => *p,
                        _ => 1.0,
                    },
                    _ => 1.0,
                };
                let q = *g.t.pick(&[1.0, 1.0, 2.0, -1.0, 0.5]) / p * (1.0 + 10f64.powi(-(2 + g.t.below(8) as i32)) * g.t.range(-1, 1) as f64);
                if q.is_finite() && q != 0.0 { Real(q) } else { Real(2.0) }
            }
            0 => Int(BigInt::from(g.t.range(-40, 120))),
            1 if c.positive => term::log(g.term(1), base.clone()),
            2 => term::neg(g.exponent(2)),
            3 if c.real => Real(gen::gen_real(g.t, false).round()),
            4 if c.real => Prod(vec![Real(gen::gen_real(g.t, false).round()), term::var(g.t.pick(&gen::EXP_VARS))], 0),
            _ => g.exponent(2),
        };
        (base, exp)
    };
    let st = t.byte();
    let written = Pow(Box::new(base.clone()), Box::new(exp.clone()), st);
    if gen::bits(&written) > 20000.0 || !gen::in_range(&written) || gen::bits(&base) > 6000.0 || !wellformed(&written) {
        return Err(Fail::Discard);
    }
    let es = vec![build(&base)?, build(&exp)?];
    let formula = Pow(Box::new(term::reflect(&es[0])), Box::new(term::reflect(&es[1])), st);
    if gen::bits(&formula) > 20000.0 || !gen::in_range(&formula) {
        return Err(Fail::Discard);
    }
    let ctx = || short(&formula);
    let r = sut("constructing", &ctx, || apply(&formula, es.clone()))?;
    let rr = term::reflect(&r);
    // integer powers of integers are exact: no power node is left, the number itself comes out
    if let (Expression::Integer(b), Expression::Integer(e)) = (&es[0], &es[1]) {
        if !e.data.is_negative() && !(b.data.is_zero() && e.data.is_zero()) {
            let want = num::pow(b.data.clone(), e.data.to_usize().unwrap_or(0));
            if e.data.to_usize().is_some() && term::key(&rr) != term::key(&Int(want.clone())) {
                return Err(Fail::Viol(format!("power: {} ^ {} gave {} instead of {}", b.data, e.data, r, want)));
            }
            obs.inc("integer_powers_checked_exactly");
        }
    }
    let decided = same_value(&formula, &rr, t, obs, k.positive(), "power")?;
    if decided {
        obs.case(&format!("{}{}", term::key(&formula), term::key(&rr)), format!("{} => {}", formula, r));
    }
    Ok(())
}

fn perfect(t: &mut Tape) -> (BigInt, u32) {
    let b: BigInt = match t.below(6) {
        0..=2 => BigInt::from(t.range(2, 12)),
        3 => BigInt::from(t.range(2, 1000)),
        4 => gen::gen_int(t, true).abs() + 2,
        _ => BigInt::from(10),
    };
    let e = match t.below(4) {
        0 => t.range(0, 4),
        1 => t.range(0, 20),
        2 => t.range(0, 64),
        _ => t.range(0, 200),
    } as u32;
    let e = if (b.bits() * e as u64) > 8000 { (8000 / b.bits()) as u32 } else { e };
    (b, e)
}

pub fn c03(t: &mut Tape, obs: &mut Obs) -> Res {
    match t.below(8) {
        // integers: only exact folds; perfect powers fold
        0..=2 => {
            let (b, e) = perfect(t);
            let off = BigInt::from(*t.pick(&[0i64, 0, 0, 1, -1, 2, -2, 7]));
            let arg = num::pow(b.clone(), e as usize) + off;
            let arg = match t.below(8) {
                0 => arg * BigInt::from(t.range(1, 5)),
                1 => gen::gen_int(t, true).abs(),
                // power of a power: base is itself a perfect power
                _ => arg,
            };
            let b = if t.chance(30) { &b * &b } else { b };
            if !arg.is_positive() {
                return Err(Fail::Discard);
            }
            let f = Log(Box::new(Int(arg.clone())), Box::new(Int(b.clone())), t.byte());
            let ctx = || short(&f);
            let r = sut("constructing", &ctx, || term::build(&f))?;
            // exact oracle
            let mut k = 0u64;
            let mut p = BigInt::one();
            while p < arg {
                p *= &b;
                k += 1;
            }
            let truth = if p == arg { Some(k) } else { None };
            match (&r, truth) {
                (Expression::Integer(n), Some(k)) if n.data == BigInt::from(k) => obs.inc("exact_folds"),
                (Expression::Logarithm(_), None) => {
                    obs.inc("kept_symbolic");
                    let kept = term::key(&term::reflect(&r));
                    if kept != term::key(&f) {
                        return Err(Fail::Viol(format!("logarithm: {} became {}", f, r)));
                    }
                }
                (_, Some(k)) => return Err(Fail::Viol(format!("logarithm: {} is {} but {} was returned", short(&f), k, r))),
                (_, None) => return Err(Fail::Viol(format!("logarithm: {} is not an integer but {} was returned", short(&f), r))),
            }
            obs.case(&term::key(&f), format!("{} => {}", f, r));
        }
        // reals
        3 => {
            let a = gen::gen_real(t, true);
            let b = gen::gen_real(t, true);
            if (b - 1.0).abs() < 1e-3 {
                return Err(Fail::Discard);
            }
            let f = Log(Box::new(Real(a)), Box::new(Real(b)), t.byte());
            let ctx = || short(&f);
            let r = sut("constructing", &ctx, || term::build(&f))?;
            let decided = same_value(&f, &term::reflect(&r), t, obs, true, "logarithm")?;
            if decided {
                obs.case(&term::key(&f), format!("{} => {}", f, r));
            }
        }
        // log(b^x, b) and b^log(x, b)
        4..=6 => {
            let k = if t.chance(128) { Kind::LogInt } else { Kind::Positive };
            let ops = gen_many(t, k, 2, 2)?;
            let (b, x) = (&ops[0], &ops[1]);
            let inner_pow = t.chance(128);
            let f = if inner_pow {
                Log(Box::new(term::pow(b.clone(), x.clone())), Box::new(b.clone()), t.byte())
            } else {
                term::pow(b.clone(), Log(Box::new(x.clone()), Box::new(b.clone()), t.byte()))
            };
            if gen::bits(&f) > 20000.0 || !gen::in_range(&f) || !wellformed(&f) {
                return Err(Fail::Discard);
            }
            let be = build(b)?;
            let xe = build(x)?;
            let (br, xr) = (term::reflect(&be), term::reflect(&xe));
            let folded = term::pow(br.clone(), xr.clone());
            if gen::bits(&folded) > 20000.0 || !gen::in_range(&folded) {
                return Err(Fail::Discard);
            }
            let ctx = || short(&f);
            let r = sut("constructing", &ctx, || {
                if inner_pow {
                    be.clone().pow(xe.clone()).log(be.clone())
                } else {
                    be.clone().pow(xe.clone().log(be.clone()))
                }
            })?;
            // bases 0 and 1 have no logarithm
            if matches!(&br, Int(n) if n < &BigInt::from(2)) || matches!(&br, Real(v) if (*v - 1.0).abs() < 1e-3 || *v <= 0.0) {
                return Err(Fail::Discard);
            }
            let rr = term::reflect(&r);
            // atoms and sums as base: the inversion is visible in the structure
            let atomic = matches!(br, Var(_) | Sum(..)) || (matches!(br, Int(_)) && matches!(xr, Int(_)));
            let positive_int = !matches!(&xr, Int(n) if !n.is_positive());
            // b^1 is b: log(b, b) stays as it is
            let collapsed = inner_pow && matches!(&xr, Int(n) if n.is_one()) && !matches!(br, Int(_));
            if atomic && positive_int && !collapsed && !xr.has_real() && !br.has_real() {
                obs.inc("inversions_checked_structurally");
                if r != xe || term::key(&rr) != term::key(&xr) {
                    return Err(Fail::Viol(format!("logarithm: {} should be {} but is {}", short(&f), short(&xr), short(&rr))));
                }
            }
            let target = xr.clone();
            let g = if inner_pow {
                Log(Box::new(term::pow(br.clone(), xr.clone())), Box::new(br.clone()), 0)
            } else {
                term::pow(br.clone(), term::log(xr.clone(), br.clone()))
            };
            let mut decided = same_value(&g, &rr, t, obs, true, "logarithm")?;
            // value of x itself; only meaningful where b^x and log are defined
            let mut names = vec![];
            g.vars(&mut names);
            for i in 0..2 {
                let env = gen::iv_env(t, 77 + i, &names, true, 1e-11);
                if let (Ok(_), Ok(want), Ok(got)) = (sem::eval_i(&g, &env, true), sem::eval_i(&target, &env, true), sem::eval_i(&rr, &env, false)) {
                    if want.disjoint(got) {
                        return Err(Fail::Viol(format!("logarithm: {} should equal {} but is {}", short(&f), short(&xr), short(&rr))));
                    }
                    decided |= got.width() < 1e-4 * (got.mag() + 1e-9);
                    obs.inc("inversions_checked_by_value");
                }
            }
            if decided {
                obs.case(&format!("{}{}", inner_pow, term::key(&g)), format!("{} => {}", f, r));
            }
        }
        // integers to an unknown: rational multiples only for powers of one integer
        7 if t.chance(100) => {
            let (b, e) = perfect(t);
            let off = BigInt::from(*t.pick(&[0i64, 1, -1, 2]));
            let n: BigInt = num::pow(b.clone(), e as usize) + off;
            let b = if t.chance(30) { &b * &b } else { b };
            if n < BigInt::from(2) || n == b {
                return Err(Fail::Discard);
            }
            let x = term::var(t.pick(&gen::EXP_VARS));
            let f = Log(Box::new(term::pow(Int(n.clone()), x)), Box::new(Int(b.clone())), t.byte());
            let ctx = || short(&f);
            let r = sut("constructing", &ctx, || term::build(&f))?;
            let rr = term::reflect(&r);
            if !rr.any(&|y| matches!(y, Log(..))) {
                // n^p = b^q for some p, q: Euclid on the exponents
                let (mut u, mut w) = (n.clone(), b.clone());
                while !u.is_one() && !w.is_one() {
                    if u < w {
                        std::mem::swap(&mut u, &mut w);
                    }
                    if !(&u % &w).is_zero() {
                        return Err(Fail::Viol(format!("logarithm: {} is no rational multiple of its exponent but became {}", short(&f), short(&rr))));
                    }
                    u = u / &w;
                }
            }
            obs.inc("logarithms_of_integers_to_an_unknown");
            if same_value(&f, &rr, t, obs, true, "logarithm")? {
                obs.case(&term::key(&f), format!("{} => {}", f, r));
            }
        }
        // any argument and base
        _ => {
            let k = if t.chance(128) { Kind::LogInt } else { Kind::Positive };
            let ops = gen_many(t, k, 2, 2)?;
            let f = Log(Box::new(ops[0].clone()), Box::new(ops[1].clone()), t.byte());
            if gen::bits(&f) > 20000.0 || !gen::in_range(&f) || !wellformed(&f) {
                return Err(Fail::Discard);
            }
            let es = vec![build(&ops[0])?, build(&ops[1])?];
            let g = Log(Box::new(term::reflect(&es[0])), Box::new(term::reflect(&es[1])), 0);
            let ctx = || short(&f);
            let r = sut("constructing", &ctx, || apply(&f, es.clone()))?;
            if same_value(&g, &term::reflect(&r), t, obs, true, "logarithm")? {
                obs.case(&term::key(&g), format!("{} => {}", f, r));
            }
        }
    }
    Ok(())
}

fn transform(t: &mut Tape, obs: &mut Obs, what: &str, f: fn(Expression) -> Expression) -> Res {
    let k = Kind::pick(t);
    let x = gen_term(t, k)?;
    let e = build(&x)?;
    let before = term::reflect(&e);
    let ctx = || short(&before);
    let r = sut(what, &ctx, || f(e.clone()))?;
    let after = term::reflect(&r);
    let decided = same_value(&before, &after, t, obs, k.positive(), what)?;
    if decided {
        obs.inc("values_decided");
    }
    if decided && term::key(&before) != term::key(&after) {
        obs.inc("results_changed_by_the_transformation");
        obs.case(&term::key(&before), format!("{} => {}", before, after));
    }
    Ok(())
}
pub fn c04(t: &mut Tape, obs: &mut Obs) -> Res {
    transform(t, obs, "expand", |e| e.expand())
}
pub fn c06(t: &mut Tape, obs: &mut Obs) -> Res {
    transform(t, obs, "simplify", |e| e.simplify())
}

// ------------------------------------------------------------------ single rules

const RULES: [&str; 9] = [
    "MultiplicativeDistributive",
    "PowerDistributiveAddition",
    "PowerDistributiveMultiplication",
    "AdditiveCommonAddend",
    "MultiplicativeCommonFactor",
    "SingleAlgebraicDenominator",
    "InversePowerLog",
    "RationalsAddition",
    "RationalsMultiplication",
];
pub fn rule(i: usize, e: &Expression) -> Expression {
    use ncas::manipulation::expansion_rules::{self as x, rule::Rule as XRule};
    use ncas::manipulation::simplification_rules::{self as s, rule::Rule as SRule};
    match i {
        0 => <x::multiplicative_distributive::MultiplicativeDistributive as XRule>::apply(e),
        1 => <x::power_distributive_addition::PowerDistributiveAddition as XRule>::apply(e),
        2 => <x::power_distributive_multiplication::PowerDistributiveMultiplication as XRule>::apply(e),
        3 => <s::factoring::additive_common_addend::AdditiveCommonAddend as SRule>::apply(e),
        4 => <s::factoring::multiplicative_common_factor::MultiplicativeCommonFactor as SRule>::apply(e),
        5 => <s::factoring::single_algebraic_denominator::SingleAlgebraicDenominator as SRule>::apply(e),
        6 => <s::identities::inverse_power_log::InversePowerLog as SRule>::apply(e),
        7 => <s::rational::rationals_addition::RationalsAddition as SRule>::apply(e),
        _ => <s::rational::rationals_multiplication::RationalsMultiplication as SRule>::apply(e),
    }
}
fn of_kind(i: usize, e: &Expression) -> bool {
    match (i, e) {
        (0 | 4 | 5 | 8, Expression::Multiplication(_)) => true,
        (3 | 7, Expression::Addition(_)) => true,
        (1, Expression::Power(p)) => matches!(p.argument(), Expression::Addition(_)),
        (2, Expression::Power(p)) => matches!(p.argument(), Expression::Multiplication(_)),
        (6, Expression::Power(_) | Expression::Logarithm(_)) => true,
        _ => false,
    }
}

/// -1 * r becomes the real -r, at random
fn unseparated(x: Term, t: &mut Tape) -> Term {
    let mut go = |v: Vec<Term>| -> Vec<Term> { v.into_iter().map(|y| unseparated(y, t)).collect() };
    match x {
        Sum(v, s) => Sum(go(v), s),
        Prod(v, s) => {
            let mut v = go(v);
            let minus = v.iter().position(|y| matches!(y, Int(n) if *n == BigInt::from(-1)));
            let real = v.iter().position(|y| matches!(y, Real(_)));
            if let (Some(i), Some(j)) = (minus, real) {
                if t.chance(170) {
                    if let Real(r) = v[j] {
                        v[j] = Real(-r);
                    }
                    v.remove(i);
                }
            } else if let (Some(j), None) = (real, minus) {
                // (at most one integer stays)
                if t.chance(40) && !v.iter().any(|y| matches!(y, Int(_))) {
                    if let Real(r) = v[j] {
                        v[j] = Real(-r);
                        v.push(term::int(-1));
                    }
                }
            }
            if v.len() == 1 { v.pop().unwrap() } else { Prod(v, s) }
        }
        Pow(a, b, s) => Pow(Box::new(unseparated(*a, t)), Box::new(unseparated(*b, t)), s),
        Log(a, b, s) => Log(Box::new(unseparated(*a, t)), Box::new(unseparated(*b, t)), s),
        x => x,
    }
}

pub fn c18(t: &mut Tape, obs: &mut Obs) -> Res {
    let i = t.below(9);
    let k = if i == 6 { if t.chance(128) { Kind::LogInt } else { Kind::Positive } } else { Kind::pick(t) };
    let c = k.cfg();
    let x = {
        let mut g = Gen::new(t, c.clone());
        g.budget = 16;
        let n = 2 + g.t.below(4);
        let sub = |g: &mut Gen| {
            let d = g.t.below(3);
            g.term(d)
        };
        match (i, g.t.below(8)) {
            (_, 0) => g.top(),
            (0, _) => {
                let mut fs = vec![];
                for _ in 0..n {
                    g.budget = 10;
                    let x = if g.t.chance(150) { Sum((0..2 + g.t.below(2)).map(|_| sub(&mut g)).collect(), 0) } else { sub(&mut g) };
                    fs.push(x);
                }
                Prod(fs, 0)
            }
            (1, _) => {
                let b = Sum((0..n.min(3)).map(|_| sub(&mut g)).collect(), 0);
                g.budget = 6;
                term::pow(b, g.exponent(2))
            }
            (2, 1) | (4, 2) | (5, 3) => g.motif(),
            (2, _) => {
                let b = Prod((0..n).map(|_| sub(&mut g)).collect(), 0);
                g.budget = 6;
                term::pow(b, g.exponent(2))
            }
            (3, _) => {
                // like addends with all kinds of coefficients
                let mut parts = vec![];
                let base: Vec<Term> = (0..1 + g.t.below(3)).map(|_| sub(&mut g)).collect();
                for _ in 0..n + g.t.below(3) {
                    let x = g.t.pick(&base).clone();
                    let y = g.t.pick(&base).clone();
                    let n = gen::gen_int(g.t, c.big);
                    let n = if c.positive { n.abs() + 1 } else { n };
                    parts.push(match g.t.below(5) {
                        0 => x,
                        1 if !c.positive => term::neg(x),
                        2 => Prod(vec![x, y], 0),
                        3 => Prod(vec![Int(n), x, y], 0),
                        _ => Prod(vec![Int(n), x], 0),
                    });
                }
                Sum(parts, 0)
            }
            // denominators only, or powers only
            (4, 1) | (5, 1) | (5, 2) if c.div => {
                let inverse = g.t.chance(150);
                let mut parts = vec![];
                for _ in 0..n + g.t.below(5) {
                    let v = gen::gen_var(g.t, &c);
                    g.budget = 4;
                    let e = if inverse { term::int(-1 - g.t.below(3) as i64) } else { g.exponent(1) };
                    parts.push(if inverse && g.t.chance(128) { term::div(term::int(1), v) } else { term::pow(v, e) });
                }
                Prod(parts, 0)
            }
            (4, _) | (5, _) => {
                let mut parts = vec![];
                let base: Vec<Term> = (0..1 + g.t.below(3)).map(|_| sub(&mut g)).collect();
                for _ in 0..n + g.t.below(3) {
                    let x = g.t.pick(&base).clone();
                    g.budget = 5;
                    let e = g.exponent(1);
                    parts.push(match g.t.below(5) {
                        0 => x,
                        1 if c.div => term::div(term::int(1), x),
                        2 if c.negpow => term::pow(x, term::neg(e)),
                        _ => term::pow(x, e),
                    });
                }
                Prod(parts, 0)
            }
            (6, _) => {
                let b = sub(&mut g);
                // two bases that are powers of the same thing
                let alike = g.t.chance(50);
                let power = |g: &mut Gen, b: &Term| {
                    let n = term::var(g.t.pick(&gen::EXP_VARS));
                    let k = term::int(2 + g.t.below(3) as i64);
                    let e = match g.t.below(6) {
                        0 | 1 => n,
                        2 => k,
                        3 => Prod(vec![k, n], 0),
                        4 => term::pow(n, if g.t.chance(128) { k } else { term::int(-1) }),
                        _ => term::div(term::int(1), k),
                    };
                    term::pow(b.clone(), e)
                };
                if alike {
                    let x = sub(&mut g);
                    let (p, q) = (power(&mut g, &b), if g.t.chance(60) { b.clone() } else { power(&mut g, &b) });
                    return c18_on(if g.t.chance(128) { term::pow(p, term::log(x, q)) } else { term::log(term::pow(p, x), q) }, i, k, t, obs);
                }
                let x = sub(&mut g);
                let b2 = if g.t.chance(60) { sub(&mut g) } else { b.clone() };
                let l = term::log(x.clone(), b2.clone());
                match g.t.below(12) {
                    0..=3 => term::pow(b, l),
                    4..=6 => term::log(term::pow(b, x), b2),
                    // the inverse pair beside other factors and addends
                    7 => {
                        let y = sub(&mut g);
                        term::pow(b, Prod(vec![l, y], 0))
                    }
                    8 => {
                        let y = sub(&mut g);
                        term::pow(b.clone(), Prod(vec![l, term::log(y, b)], 0))
                    }
                    9 => {
                        let y = sub(&mut g);
                        term::pow(b.clone(), Sum(vec![l, if g.t.chance(128) { y } else { term::log(y, b) }], 0))
                    }
                    10 => {
                        let y = sub(&mut g);
                        term::log(Prod(vec![term::pow(b, x), y], 0), b2)
                    }
                    _ => {
                        let y = sub(&mut g);
                        term::log(Prod(vec![b.clone(), b, x, y], 0), b2)
                    }
                }
            }
            _ => {
                let mut parts = vec![];
                for _ in 0..n + g.t.below(3) {
                    let n = gen::gen_int(g.t, c.big);
                    let d = gen::gen_int(g.t, c.big);
                    let d = if d.is_zero() { BigInt::from(7) } else { d };
                    let (n, d) = if c.positive { (n.abs() + 1, d.abs()) } else { (n, d) };
                    let q = term::div(Int(n.clone()), Int(d));
                    parts.push(match g.t.below(7) {
                        0 => sub(&mut g),
                        // several small denominators, some of them alike
                        6 => {
                            let mut v = vec![Int(n)];
                            for _ in 0..1 + g.t.below(4) {
                                v.push(term::div(term::int(1), term::int(g.t.range(2, 6))));
                            }
                            Prod(v, 0)
                        }
                        1 => Int(n),
                        2 => Prod(vec![q, sub(&mut g)], 0),
                        _ => q,
                    });
                }
                if i == 7 { Sum(parts, 0) } else { Prod(parts, 0) }
            }
        }
    };
    c18_on(x, i, k, t, obs)
}
fn c18_on(x: Term, i: usize, k: Kind, t: &mut Tape, obs: &mut Obs) -> Res {
    let c = k.cfg();
    if !gen::within(&x, &c) || !wellformed(&x) {
        return Err(Fail::Discard);
    }
    let mut e = build(&x)?;
    // the rules take any expression: numbers as the operators would not leave them
    if c.real && t.chance(100) {
        e = super::laws::build_raw(&unseparated(term::reflect(&e), t));
        obs.inc("applied_to_signed_reals");
    }
    // powers and logarithms as the constructors would not leave them: parts in normal form, joined as they are
    if matches!(i, 1 | 2 | 6) && t.chance(60) {
        use ncas::base::associative_operation::AssociativeOperation;
        let joined = match &x {
            Pow(b, n, _) => Some(Expression::Power(AssociativeOperation::new(build(b)?, build(n)?))),
            Log(a, b, _) => Some(Expression::Logarithm(AssociativeOperation::new(build(a)?, build(b)?))),
            _ => None,
        };
        if let Some(j) = joined {
            e = j;
            obs.inc("applied_to_unfolded_powers_and_logarithms");
        }
    }
    let before = term::reflect(&e);
    let ctx = || format!("{}", short(&before));
    let r = sut(RULES[i], &ctx, || rule(i, &e))?;
    let after = term::reflect(&r);
    let unchanged = term::key(&before) == term::key(&after);
    if !of_kind(i, &e) {
        obs.inc("applied_to_other_kind");
        if !unchanged {
            return Err(Fail::Viol(format!("{} changed an expression it does not rewrite: {} -> {}", RULES[i], short(&before), short(&after))));
        }
        return Ok(());
    }
    let decided = same_value(&before, &after, t, obs, k.positive(), RULES[i])?;
    obs.inc(&format!("applied_{}", RULES[i]));
    if decided && !unchanged {
        obs.inc(&format!("rewrote_{}", RULES[i]));
        obs.case(&format!("{}{}", i, term::key(&before)), format!("{}: {} => {}", RULES[i], before, after));
    }
    Ok(())
}
