//! C12 C19: numbers.
use super::*;
use crate::term::Term::*;
use ncas::base::symbol::Symbol;
use ncas::manipulation::simplification_rules::rational::rationals::Rational;
use num::bigint::BigInt;
use num::rational::BigRational;
use num::{One, Signed, ToPrimitive, Zero};

type I = Symbol<BigInt>;
type F = Symbol<f64>;

fn int_pair(t: &mut Tape) -> (BigInt, BigInt) {
    let a = gen::gen_int(t, true);
    let b = match t.below(6) {
        // common factors, multiples, near-multiples, equal magnitude
        0 => &a * gen::gen_int(t, false),
        1 => &a * gen::gen_int(t, false) + t.range(-2, 2),
        2 => -a.clone(),
        3 => a.clone(),
        _ => gen::gen_int(t, true),
    };
    (a, b)
}

fn gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}

macro_rules! four {
    ($a:expr, $b:expr, $op:tt) => {
        [$a.clone() $op $b.clone(), $a.clone() $op &$b, &$a $op &$b, &$a $op $b.clone()]
    };
}

fn same_f(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// the order of two symbols, by every operator that tells it
fn orders<T: Ord>(a: &T, b: &T) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::*;
    let o = a.cmp(b);
    let agree = a.partial_cmp(b) == Some(o)
        && b.cmp(a) == o.reverse()
        && (a < b) == (o == Less)
        && (a > b) == (o == Greater)
        && (a <= b) == (o != Greater)
        && (a >= b) == (o != Less)
        && (a == b) == (o == Equal)
        && (a != b) == (o != Equal);
    // nothing when the operators disagree
    agree.then_some(o)
}

pub fn c12(t: &mut Tape, obs: &mut Obs) -> Res {
    if t.chance(150) {
        let (x, y) = int_pair(t);
        let (a, b): (I, I) = (Symbol { data: x.clone() }, Symbol { data: y.clone() });
        let ctx = || format!("integers {} and {}", x, y);
        let chk = |name: &str, got: &[I], want: &BigInt, obs: &mut Obs| -> Res {
            for (i, g) in got.iter().enumerate() {
                if &g.data != want {
                    return Err(Fail::Viol(format!("{} {} {} (form {}) gave {} instead of {}", x, name, y, i, g.data, want)));
                }
            }
            obs.add("operator_results_checked", got.len() as u64);
            Ok(())
        };
        let r = sut("+", &ctx, || four!(a, b, +))?;
        chk("+", &r, &(&x + &y), obs)?;
        let r = sut("-", &ctx, || four!(a, b, -))?;
        chk("-", &r, &(&x - &y), obs)?;
        let r = sut("*", &ctx, || four!(a, b, *))?;
        chk("*", &r, &(&x * &y), obs)?;
        if !y.is_zero() {
            // truncating division, checked by its defining equations
            let q = sut("/", &ctx, || four!(a, b, /))?;
            let m = sut("%", &ctx, || four!(a, b, %))?;
            for (q, m) in q.iter().zip(&m) {
                let (q, m) = (&q.data, &m.data);
                if q * &y + m != x || m.abs() >= y.abs() || (!m.is_zero() && m.is_negative() != x.is_negative()) {
                    return Err(Fail::Viol(format!("{} / {} gave {} remainder {}", x, y, q, m)));
                }
            }
            obs.add("operator_results_checked", 8);
        }
        // any pair, and one apart by a single bit of any size
        let near = &x + (BigInt::one() << t.below(140) as usize) * t.range(-1, 1);
        for w in [&y, &near] {
            let o = sut("cmp", &ctx, || orders(&a, &Symbol { data: w.clone() }))?;
            if o != Some(x.cmp(w)) {
                return Err(Fail::Viol(format!("{} is ordered {:?} against {}", x, o, w)));
            }
        }
        obs.add("orders_checked", 2);
        let opp = sut("opposite", &ctx, || a.opposite())?;
        if opp.data != -x.clone() {
            return Err(Fail::Viol(format!("opposite of {} is {}", x, opp.data)));
        }
        let neg = sut("is_negative", &ctx, || a.is_negative())?;
        if neg != x.is_negative() {
            return Err(Fail::Viol(format!("is_negative of {} is {}", x, neg)));
        }
        let g = sut("gcd", &ctx, || Symbol::gcd(&a, &b))?;
        if g.data != gcd(&x, &y) {
            return Err(Fail::Viol(format!("gcd of {} and {} is {}", x, y, g.data)));
        }
        if !x.is_zero() || !y.is_zero() {
            let l = sut("lcm", &ctx, || Symbol::lcm(&a, &b))?;
            if l.data != (&x * &y).abs() / gcd(&x, &y) {
                return Err(Fail::Viol(format!("lcm of {} and {} is {}", x, y, l.data)));
            }
        }
        let e = BigInt::from(match t.below(6) {
            0..=3 => t.range(0, 12),
            4 => t.range(0, 80),
            _ => t.range(-4, 3),
        });
        let ee: I = Symbol { data: e.clone() };
        // units have powers of any size
        if t.chance(40) {
            let u = BigInt::from(t.range(-1, 1));
            let n = gen::gen_int(t, true).abs();
            let want = if n.is_zero() { BigInt::one() } else if u.is_negative() && !n.bit(0) { BigInt::one() } else { u.clone() };
            let c2 = || format!("{} to the {}", u, n);
            let p = sut("pow", &c2, || (Symbol { data: u.clone() } as I).pow(&Symbol { data: n.clone() }))?;
            match p {
                Some(p) if p.data == want => obs.inc("unit_powers_checked"),
                p => return Err(Fail::Viol(format!("{} to the {} is {:?}", u, n, p.map(|p| p.data)))),
            }
        }
        let p = sut("pow", &ctx, || a.pow(&ee))?;
        match (p, e.to_usize()) {
            (Some(p), Some(k)) => {
                let mut w = BigInt::one();
                for _ in 0..k {
                    w *= &x;
                }
                if p.data != w {
                    return Err(Fail::Viol(format!("{} to the {} is {}", x, e, p.data)));
                }
            }
            (None, None) => {}
            (p, _) => return Err(Fail::Viol(format!("{} to the {} is {:?}", x, e, p.map(|p| p.data)))),
        }
        let v = sut("value", &ctx, || a.value())?;
        let fits = x >= BigInt::from(isize::MIN) && x <= BigInt::from(isize::MAX);
        if v.map(BigInt::from) != if fits { Some(x.clone()) } else { None } {
            return Err(Fail::Viol(format!("value of {} is {:?}", x, v)));
        }
        if let Some(v) = v {
            let back = sut("integer", &ctx, || Symbol::integer(v))?;
            if back.data != x {
                return Err(Fail::Viol(format!("Symbol::integer({}) holds {}", v, back.data)));
            }
        }
        let l = sut("label", &ctx, || a.label())?;
        let digits_ok = l == "0" || l.strip_prefix('-').unwrap_or(&l).starts_with(|c: char| c.is_ascii_digit() && c != '0');
        if l.parse::<BigInt>().ok() != Some(x.clone()) || !digits_ok {
            return Err(Fail::Viol(format!("label of {} is {:?}", x, l)));
        }
        match sut("expr", &ctx, || a.clone().expr())? {
            Expression::Integer(n) if n.data == x => {}
            o => return Err(Fail::Viol(format!("expr of {} is {}", x, o))),
        }
        obs.add("helper_results_checked", 8);
        obs.inc(if fits { "machine_size_integers" } else { "big_integers" });
        obs.case(&format!("{},{},{}", x, y, e), format!("integers {} and {}", x, y));
    } else {
        let (x, y) = (super::laws::any_f64(t), super::laws::any_f64(t));
        let (a, b): (F, F) = (Symbol::real(x), Symbol::real(y));
        let ctx = || format!("reals {:?} and {:?}", x, y);
        let chk = |name: &str, got: &[F], want: f64, obs: &mut Obs| -> Res {
            for (i, g) in got.iter().enumerate() {
                if !same_f(g.data, want) {
                    return Err(Fail::Viol(format!("{:?} {} {:?} (form {}) gave {:?} instead of {:?}", x, name, y, i, g.data, want)));
                }
            }
            obs.add("operator_results_checked", got.len() as u64);
            Ok(())
        };
        let r = sut("+", &ctx, || four!(a, b, +))?;
        chk("+", &r, x + y, obs)?;
        let r = sut("-", &ctx, || four!(a, b, -))?;
        chk("-", &r, x - y, obs)?;
        let r = sut("*", &ctx, || four!(a, b, *))?;
        chk("*", &r, x * y, obs)?;
        let r = sut("/", &ctx, || four!(a, b, /))?;
        chk("/", &r, x / y, obs)?;
        let next = f64::from_bits(x.to_bits() ^ (1 << t.below(64)));
        for w in [y, next] {
            if let Some(want) = x.partial_cmp(&w) {
                let o = sut("cmp", &ctx, || orders(&a, &Symbol::real(w)))?;
                if o != Some(want) {
                    return Err(Fail::Viol(format!("{:?} is ordered {:?} against {:?}", x, o, w)));
                }
                obs.inc("orders_checked");
            }
        }
        let v = sut("value", &ctx, || a.value())?;
        if !v.map_or(false, |v| same_f(v, x)) {
            return Err(Fail::Viol(format!("value of {:?} is {:?}", x, v)));
        }
        if x.is_finite() {
            let l = sut("label", &ctx, || a.label())?;
            let digits = |s: &str| {
                let s: String = s.chars().filter(|c| c.is_ascii_digit()).collect();
                s.trim_start_matches('0').trim_end_matches('0').len()
            };
            let mantissa = format!("{:e}", x);
            let mantissa = mantissa.split('e').next().unwrap().to_string();
            if l.parse::<f64>().map_or(true, |v| v != x) || digits(&l) > digits(&mantissa) {
                return Err(Fail::Viol(format!("label of {:?} is {:?}", x, l)));
            }
            obs.inc("labels_checked");
        }
        match sut("expr", &ctx, || a.clone().expr())? {
            Expression::Real(n) if same_f(n.data, x) => {}
            o => return Err(Fail::Viol(format!("expr of {:?} is {}", x, o))),
        }
        obs.case(&format!("{:x},{:x}", x.to_bits(), y.to_bits()), format!("reals {:?} and {:?}", x, y));
    }
    // variables
    if t.chance(30) {
        let name: String = (0..t.range(1, 6)).map(|_| *t.pick(&['a', 'b', 'Z', '0', '_', 'é', 'x'])).collect();
        let s = Symbol::variable(&name);
        if s.label() != name || s.data != name || s.value().is_some() || !matches!(s.clone().expr(), Expression::Variable(v) if v.data == name) {
            return Err(Fail::Viol(format!("variable symbol {:?} mangled", name)));
        }
        obs.inc("variable_symbols_checked");
    }
    Ok(())
}

// ------------------------------------------------------------------ C19

fn canonical(q: &BigRational) -> Term {
    let (n, d) = (q.numer().clone(), q.denom().clone());
    if d.is_one() {
        return Int(n);
    }
    let inv = term::pow(Int(d), term::int(-1));
    if n.is_one() { inv } else { Prod(vec![Int(n), inv], 0) }
}
fn rational_of(r: &Rational) -> Option<BigRational> {
    let s = format!("{}", r);
    let (n, d) = s.split_once(" / ")?;
    let (n, d): (BigInt, BigInt) = (n.parse().ok()?, d.parse().ok()?);
    if !d.is_positive() || !gcd(&n, &d).is_one() {
        return None;
    }
    Some(BigRational::new(n, d))
}
fn rat(n: &BigInt, d: &BigInt) -> Rational {
    Rational::from(Symbol { data: n.clone() }, Symbol { data: d.clone() })
}

/// formula of integers and integer quotients with its exact value
fn number(t: &mut Tape, depth: usize) -> Term {
    if depth == 0 || t.chance(70) {
        let (n, d) = int_pair(t);
        let n = if t.chance(20) { BigInt::from(t.range(-3, 3)) } else { n };
        return if d.is_zero() || t.chance(60) { Int(n) } else { term::div(Int(n), Int(d)) };
    }
    let st = t.byte();
    match t.below(9) {
        0..=3 => Sum((0..2 + t.below(3)).map(|_| number(t, depth - 1)).collect(), st),
        4..=6 => Prod((0..2 + t.below(3)).map(|_| number(t, depth - 1)).collect(), st),
        7 => Sub(Box::new(number(t, depth - 1)), Box::new(number(t, depth - 1)), st),
        _ => {
            let d = gen::gen_int(t, true);
            Div(Box::new(number(t, depth - 1)), Box::new(Int(if d.is_zero() { BigInt::from(6) } else { d })), st)
        }
    }
}

pub fn c19(t: &mut Tape, obs: &mut Obs) -> Res {
    if t.chance(110) {
        // the Rational type itself
        let nz = |x: BigInt| if x.is_zero() { BigInt::from(12) } else { x };
        let (n1, d1) = int_pair(t);
        let d1 = nz(d1);
        let (n2, d2) = if t.chance(60) {
            let k = nz(gen::gen_int(t, false));
            (&n1 * &k, &d1 * &k)
        } else {
            let (n, d) = int_pair(t);
            (n, nz(d))
        };
        let ctx = || format!("{}/{} and {}/{}", n1, d1, n2, d2);
        let (p, q) = (BigRational::new(n1.clone(), d1.clone()), BigRational::new(n2.clone(), d2.clone()));
        let (a, b) = sut("Rational::from", &ctx, || (rat(&n1, &d1), rat(&n2, &d2)))?;
        let chk = |name: &str, got: &Rational, want: &BigRational, obs: &mut Obs| -> Res {
            obs.inc("rational_results_checked");
            match rational_of(got) {
                Some(g) if &g == want => Ok(()),
                _ => Err(Fail::Viol(format!("rational {} of {} gave {} instead of {} in lowest terms", name, ctx(), got, want))),
            }
        };
        chk("from", &a, &p, obs)?;
        chk("from", &b, &q, obs)?;
        let r = sut("+", &ctx, || a.clone() + b.clone())?;
        chk("+", &r, &(&p + &q), obs)?;
        let r = sut("-", &ctx, || a.clone() - b.clone())?;
        chk("-", &r, &(&p - &q), obs)?;
        let r = sut("*", &ctx, || a.clone() * b.clone())?;
        chk("*", &r, &(&p * &q), obs)?;
        if !q.is_zero() {
            let r = sut("/", &ctx, || a.clone() / b.clone())?;
            chk("/", &r, &(&p / &q), obs)?;
        }
        let eq = sut("==", &ctx, || (a == b, b == a, a != b))?;
        if eq != (p == q, p == q, p != q) {
            return Err(Fail::Viol(format!("rational equality of {} is {:?}", ctx(), eq)));
        }
        // to an expression and back
        for (r, w) in [(&a, &p), (&b, &q)] {
            let e = sut("Rational::expr", &ctx, || r.clone().expr())?;
            let v = sem::eval_q(&term::reflect(&e), &Default::default());
            if v != Ok(w.clone()) {
                return Err(Fail::Viol(format!("{} as an expression is {}", r, e)));
            }
            let back = sut("Rational::from_expression", &ctx, || Rational::from_expression(e.clone()))?;
            match &back {
                Some(x) if rational_of(x).as_ref() == Some(w) && x == r => obs.inc("round_trips"),
                _ => return Err(Fail::Viol(format!("{} back from the expression {} is {:?}", r, e, back.map(|x| x.to_string())))),
            }
        }
        if !p.denom().is_one() || !q.denom().is_one() {
            obs.case(&format!("R{}|{}", p, q), ctx());
        }
        return Ok(());
    }
    let d = 1 + t.below(3);
    let x = number(t, d);
    let want = match sem::eval_q(&x, &Default::default()) {
        Ok(w) => w,
        Err(_) => return Err(Fail::Discard),
    };
    if gen::bits(&x) > 8000.0 || gen::cost(&x) > 200.0 {
        return Err(Fail::Discard);
    }
    let e = build(&x)?;
    let ctx = || short(&x);
    let r = sut("simplify", &ctx, || e.clone().simplify())?;
    let rr = term::reflect(&r);
    let form = canonical(&want);
    if term::key(&rr) != term::key(&form) {
        return Err(Fail::Viol(format!("simplify: {} is {} but {} was returned", short(&x), want, short(&rr))));
    }
    // an equal number written as one quotient
    let k = BigInt::from(*t.pick(&[1i64, -1, 2, 3, -6, 35]));
    let y = term::div(Int(want.numer() * &k), Int(want.denom() * &k));
    let e2 = build(&y)?;
    let r2 = sut("simplify", &ctx, || e2.clone().simplify())?;
    if r2 != r || r2.to_string() != r.to_string() {
        return Err(Fail::Viol(format!("simplify: equal rationals differ: {} -> {} but {} -> {}", short(&x), r, short(&y), r2)));
    }
    obs.inc("numeric_formulas_simplified");
    obs.inc(if want.denom().is_one() { "integer_results" } else { "fraction_results" });
    if x.any(&|y| matches!(y, Div(..))) {
        obs.case(&term::key(&x), format!("{} => {}", x, r));
    }
    Ok(())
}
