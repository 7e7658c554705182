//! C21: like terms are collected whatever they are made of.
use super::compare::shuffled;
use super::*;
use crate::term::Term::*;

/// logarithms to a base that occurs nowhere else: no rule turns them into anything else
fn opaque_logs(x: &Term) -> Term {
    let b = |y: &Term| Box::new(opaque_logs(y));
    let v = |v: &[Term]| v.iter().map(opaque_logs).collect::<Vec<_>>();
    match x {
        Sum(w, s) => Sum(v(w), *s),
        Prod(w, s) => Prod(v(w), *s),
        Neg(a, s) => Neg(b(a), *s),
        Sub(p, q, s) => Sub(b(p), b(q), *s),
        Div(p, q, s) => Div(b(p), b(q), *s),
        Pow(p, q, s) => Pow(b(p), b(q), *s),
        Log(p, _, s) => Log(b(p), Box::new(term::var("logbase")), *s),
        Sin(a) => Sin(b(a)),
        Cos(a) => Cos(b(a)),
        _ => x.clone(),
    }
}
/// a number in a denominator or under a symbolic exponent
fn number_powers(x: &Term) -> bool {
    x.any(&|n| matches!(n, Pow(b, _, _) if matches!(&**b, Int(_))))
}

/// a sum of products of everything a term can be made of
pub fn monomials(t: &mut Tape) -> Term {
    let n = 1 + t.below(3);
    let mut v: Vec<Term> = vec![];
    let mut exponent = |t: &mut Tape| {
        let e = term::var(t.pick(&gen::EXP_VARS));
        match t.below(6) {
            0 => e,
            1 => term::prod(vec![term::int(t.range(-4, 4)), e]),
            2 => term::sum(vec![e, term::int(t.range(-3, 3))]),
            3 => term::prod(vec![e, term::var(t.pick(&gen::EXP_VARS))]),
            4 => term::log(e, term::var("logbase")),
            _ => term::sum(vec![e, term::var(t.pick(&gen::EXP_VARS))]),
        }
    };
    for _ in 0..n {
        let mut f: Vec<Term> = vec![];
        if t.chance(128) {
            f.push(Int(gen::gen_int(t, false)));
        }
        for _ in 0..1 + t.below(5) {
            let x = term::var(t.pick(&gen::BASE_VARS));
            f.push(match t.below(9) {
                0 | 1 => x,
                2 => term::pow(x, term::int(t.range(-4, 5))),
                3 | 4 => {
                    let e = exponent(t);
                    term::pow(x, e)
                }
                5 => Sin(Box::new(x)),
                6 => Cos(Box::new(x)),
                7 => term::log(x, term::var("logbase")),
                _ => term::pow(term::sum(vec![x, term::var(t.pick(&gen::BASE_VARS)), term::int(1)]), if t.chance(128) { term::int(-1) } else { exponent(t) }),
            });
        }
        v.push(if f.len() == 1 { f.pop().unwrap() } else { Prod(f, t.byte()) });
    }
    if v.len() == 1 { v.pop().unwrap() } else { Sum(v, t.byte()) }
}

pub fn c21(t: &mut Tape, obs: &mut Obs) -> Res {
    let k = match t.below(8) {
        0..=4 => Kind::Exact,
        5 => Kind::Poly,
        _ => Kind::LogInt,
    };
    let a = if t.chance(100) { monomials(t) } else { opaque_logs(&gen_cheap(t, k)?) };
    let b = if t.chance(100) { monomials(t) } else { opaque_logs(&gen_cheap(t, k)?) };
    let coef = |t: &mut Tape| if t.chance(40) { gen::gen_int(t, true) } else { t.range(-9, 9).into() };
    let (m, n) = (coef(t), coef(t));
    let (st, st2) = (t.byte(), t.byte());
    let c = match t.below(4) {
        0 => Sin(Box::new(term::var("theta"))),
        1 => term::pow(term::var("theta"), term::var("phi")),
        2 => term::pow(term::var("theta"), term::int(-1 - t.range(0, 3))),
        _ => term::var("theta"),
    };
    let a2 = shuffled(&a, t);
    let b2 = shuffled(&b, t);
    let mode = t.below(8);
    let (name, x, y) = match mode {
        0 => ("difference_of_equals", term::sub(a.clone(), a2), term::int(0)),
        1 => ("added_and_taken_away", Sub(Box::new(Sum(vec![a, b.clone()], st)), Box::new(a2), st2), b),
        2 => (
            "multiples",
            Sum(vec![term::prod(vec![Int(m.clone()), a.clone()]), b.clone(), Prod(vec![a2, Int(n.clone())], st2)], st),
            Sum(vec![b2, term::prod(vec![Int(m + n), a])], st2),
        ),
        3 => ("doubled", Sum(vec![a.clone(), a2], st), term::prod(vec![term::int(2), a])),
        4 => ("exchanged_factors", term::sub(Prod(vec![a, b], st), Prod(vec![b2, a2], st2)), term::int(0)),
        5 => ("taken_from_itself", term::sub(b, Sum(vec![a.clone(), b2], st)), term::neg(a)),
        6 => (
            "distributed",
            Prod(vec![c.clone(), Sum(vec![a, b], st)], st2),
            Sum(vec![term::prod(vec![a2, c.clone()]), Prod(vec![c, b2], st2)], st),
        ),
        _ => (
            "factor_and_inverse",
            term::prod(vec![term::var("theta"), Sum(vec![term::div(a, term::var("theta")), b.clone()], st)]),
            Sum(vec![a2, Prod(vec![b2, term::var("theta")], st2)], st),
        ),
    };
    // the same law inside a logarithm or an exponent
    let (x, y) = match t.below(6) {
        0 => {
            obs.inc("inside_a_logarithm");
            let f = |x: Term| Sum(vec![term::log(Sum(vec![x, term::var("omega")], st), term::var("logbase")), term::int(1)], st2);
            (f(x), f(y))
        }
        1 => {
            obs.inc("inside_an_exponent");
            let f = |x: Term| term::prod(vec![term::pow(term::var("omega"), x), term::var("theta")]);
            (f(x), f(y))
        }
        2 => {
            obs.inc("inside_a_base");
            let f = |x: Term| term::pow(Sum(vec![x, term::var("omega")], st), term::var("phi"));
            (f(x), f(y))
        }
        _ => (x, y),
    };
    let limit = work_limit(t);
    if x.has_real() || gen::work(&x) + gen::work(&y) > limit || !gen::in_range(&x) || gen::bits(&x) + gen::bits(&y) > 8000.0 || !wellformed(&x) || !wellformed(&y) {
        return Err(Fail::Discard);
    }
    let (p, q) = (build(&x)?, build(&y)?);
    let (cx, cy) = (|| short(&x), || short(&y));
    let (ep, eq) = (sut("expand", &cx, || p.clone().expand())?, sut("expand", &cy, || q.clone().expand())?);
    let (sp, sq) = (sut("simplify", &cx, || p.clone().simplify())?, sut("simplify", &cy, || q.clone().simplify())?);
    // integer coefficients only
    if [&ep, &eq, &sp, &sq].iter().any(|e| number_powers(&term::reflect(e))) {
        return Err(Fail::Discard);
    }
    obs.inc(name);
    if sp != sq {
        return Err(Fail::Viol(format!("{}: {} simplifies to {}, but {} to {}", name, cx(), sp, cy(), sq)));
    }
    if p != q {
        obs.case(&format!("{}|{}", term::key(&x), name), format!("{}: {} and {}", name, short(&x), short(&y)));
    }
    Ok(())
}
