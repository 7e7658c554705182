//! C05 C07 C17: the shape of results.
use super::*;
use crate::poly::{self, Mono, Poly};
use crate::term::Term::*;
use num::bigint::BigInt;
use num::{One, Signed, Zero};

fn has_sum_factor(t: &Term) -> bool {
    t.any(&|x| match x {
        Prod(v, _) => v.iter().any(|f| matches!(f, Sum(..)) || matches!(f, Pow(b, _, _) if matches!(**b, Sum(..)))),
        Pow(b, _, _) => matches!(**b, Sum(..)),
        _ => false,
    })
}

pub fn c05(t: &mut Tape, obs: &mut Obs) -> Res {
    let mut c = Cfg { max_cost: 1500.0, ..Cfg::poly() };
    if t.chance(60) {
        c.nvars = 4;
    }
    let x = if t.chance(12) {
        // one large power: any number of addends, any exponent the bounds leave room for
        let n = 2 + t.below(10) as i64;
        let most = (1500f64.powf(1.0 / n as f64) + 1e-9) as usize;
        let k = 2 + t.below(most.min(14).max(2) - 1);
        let mut names: Vec<Term> = ["a", "b", "c", "d", "x", "y", "z", "u", "v", "w", "p", "q", "r", "s"].iter().map(|s| term::var(s)).collect();
        t.shuffle(&mut names);
        names.truncate(k);
        if t.chance(128) {
            names[0] = Int(gen::gen_int(t, true));
        }
        if t.chance(90) {
            let i = t.below(k);
            names[i] = Prod(vec![Int(gen::gen_int(t, false)), names[i].clone()], 0);
        }
        term::pow(Sum(names, t.byte()), term::int(n))
    } else if t.chance(150) {
        // products and powers of sums on top
        let n = 1 + t.below(4);
        let mut fs = vec![];
        for _ in 0..n {
            let mut g = Gen::new(t, c.clone());
            g.budget = 9;
            let k = 2 + g.t.below(3);
            let mut s = vec![];
            for _ in 0..k {
                let d = g.t.below(3);
                s.push(g.term(d));
            }
            let s = Sum(s, g.t.byte());
            let e = *g.t.pick(&[1i64, 1, 1, 2, 2, 3, 4]);
            fs.push(if e == 1 { s } else { term::pow(s, term::int(e)) });
        }
        if t.chance(100) {
            let mut g = Gen::new(t, c.clone());
            let x = g.leaf();
            fs.push(x);
        }
        let p = Prod(fs, t.byte());
        match t.below(5) {
            0 => term::pow(p, term::int(t.range(1, 3))),
            1 => {
                let y = Gen::new(t, c.clone()).term(2);
                Sum(vec![p, y], t.byte())
            }
            2 => term::neg(p),
            _ => p,
        }
    } else {
        Gen::new(t, c.clone()).top()
    };
    // positive exponents only
    if x.any(&|y| matches!(y, Pow(_, e, _) if !matches!(&**e, Int(n) if n.is_positive()))) || !gen::within(&x, &c) {
        return Err(Fail::Discard);
    }
    let e = build(&x)?;
    let before = term::reflect(&e);
    let model = match poly::expansion(&before, 3000) {
        Some(m) => m,
        None => return Err(Fail::Discard),
    };
    let ctx = || short(&before);
    let r = sut("expand", &ctx, || e.clone().expand())?;
    let after = term::reflect(&r);
    let addends: Vec<&Term> = if let Sum(v, _) = &after { v.iter().collect() } else { vec![&after] };
    let mut got: Vec<(Mono, BigInt)> = vec![];
    for a in addends {
        match poly::read_mono(a, false) {
            Ok((c, m)) => got.push((m, c)),
            Err(m) => return Err(Fail::Viol(format!("expand: not fully multiplied out: {} -> {} ({})", short(&before), short(&after), m))),
        }
    }
    if got.len() == 1 && got[0].1.is_zero() {
        got.clear();
    }
    let mut want: Vec<(Mono, BigInt)> = model.into_iter().map(|(c, m)| (m, c)).collect();
    want.sort();
    got.sort();
    if want != got {
        return Err(Fail::Viol(format!("expand: wrong addends: {} -> {}: {} addends expected, {} found; first difference {:?}", short(&before), short(&after), want.len(), got.len(),
            want.iter().zip(&got).find(|(a, b)| a != b))));
    }
    obs.add("addends_matched_with_the_cross_product", got.len() as u64);
    let ctx2 = || short(&after);
    let again = sut("expand", &ctx2, || r.clone().expand())?;
    if again != r || term::key(&term::reflect(&again)) != term::key(&after) {
        return Err(Fail::Viol(format!("expand: expanding again changes the result: {} -> {} -> {}", short(&before), short(&after), again)));
    }
    obs.inc("idempotence_checked");
    if has_sum_factor(&before) {
        obs.inc("with_products_of_sums");
        obs.case(&term::key(&before), format!("{} => {}", before, after));
    }
    Ok(())
}

/// the same formula over names that resemble each other
fn other_names(t: &mut Tape, x: &Term) -> Term {
    let names = *t.pick(&[
        ["x", "y", "z", "w"],
        ["ab", "ba", "aba", "bab"],
        ["x1", "x2", "x12", "x21"],
        ["p", "P", "pp", "PP"],
        ["q_", "_q", "_", "q"],
        ["alpha", "alphas", "alph", "beta"],
        ["é", "e", "è", "β"],
        ["e", "pi", "i", "inf"],
    ]);
    let turn = t.below(4);
    (0..4).fold(x.clone(), |x, i| super::total::rename(&x, gen::BASE_VARS[i], names[(i + turn) % 4]))
}

pub fn gen_poly_term(t: &mut Tape, max_cost: f64) -> Result<(Term, Poly), Fail> {
    let c = Cfg { max_cost, depth: 3, ..Cfg::poly() };
    let limit = work_limit(t);
    for _ in 0..5 {
        let x = Gen::new(t, c.clone()).top();
        if !gen::within(&x, &c) || gen::work(&x) > limit || !wellformed(&x) {
            continue;
        }
        let x = if t.chance(40) { other_names(t, &x) } else { x };
        // x^0 only for bases that are not identically zero (poly() says None otherwise)
        if let Some(p) = poly::poly(&x) {
            if x.any(&|y| matches!(y, Pow(b, e, _) if matches!(&**e, Int(n) if n.is_zero()) && poly::poly(b).map_or(true, |p| p.0.is_empty()))) {
                continue;
            }
            return Ok((x, p));
        }
    }
    Err(Fail::Discard)
}

pub fn perturb(p: &Poly, t: &mut Tape) -> Poly {
    let mut q = p.clone();
    let keys: Vec<Mono> = q.0.keys().cloned().collect();
    match t.below(5) {
        0 if !keys.is_empty() => {
            let k = t.pick(&keys).clone();
            let c = q.0[&k].clone() + *t.pick(&[1i64, -1, 2, 64, -128]);
            q.0.insert(k, c);
        }
        1 if !keys.is_empty() => {
            let k = t.pick(&keys).clone();
            let c = -q.0[&k].clone();
            q.0.insert(k, c);
        }
        2 if !keys.is_empty() => {
            // move a coefficient to a neighbouring monomial
            let k = t.pick(&keys).clone();
            let c = q.0.remove(&k).unwrap();
            let k2 = poly::mono_mul(&k, &[(gen::BASE_VARS[t.below(3)].to_string(), 1)].into_iter().collect());
            q = q.add(&Poly([(k2, c)].into_iter().collect()));
        }
        3 if !keys.is_empty() => {
            let k = t.pick(&keys).clone();
            q.0.remove(&k);
        }
        _ => {
            let d = gen::gen_int(t, true);
            q = q.add(&Poly::konst(if d.is_zero() { BigInt::one() } else { d }));
        }
    }
    q.0.retain(|_, c| !c.is_zero());
    q
}

/// dozens of factors, most of them alike
fn long_product(t: &mut Tape) -> Result<(Term, Poly), Fail> {
    let names = 1 + t.below(3);
    let n = gen::wide_len(t);
    let only_variables = t.chance(128);
    let mut v: Vec<Term> = (0..n)
        .map(|_| {
            let x = term::var(gen::BASE_VARS[t.below(names)]);
            if !only_variables && t.chance(30) { term::pow(x, term::int(t.range(2, 4))) } else { x }
        })
        .collect();
    if !only_variables {
        v.push(Int(gen::gen_int(t, false)));
    }
    let x = Prod(v, t.byte());
    let x = if t.chance(128) { x } else { Sum(vec![x, term::var(gen::BASE_VARS[t.below(3)]), Int(gen::gen_int(t, false))], t.byte()) };
    let p = poly::poly(&x).ok_or(Fail::Discard)?;
    Ok((x, p))
}

pub fn c07(t: &mut Tape, obs: &mut Obs) -> Res {
    let (x, p) = if t.chance(10) { long_product(t)? } else { gen_poly_term(t, 500.0)? };
    let e = build(&x)?;
    let ctx = || short(&x);
    let r = sut("simplify", &ctx, || e.clone().simplify())?;
    let rr = term::reflect(&r);
    match poly::read_collected(&rr) {
        Err(m) => return Err(Fail::Viol(format!("simplify: not the collected form: {} -> {} ({})", short(&x), short(&rr), m))),
        Ok(q) => {
            if q != p {
                return Err(Fail::Viol(format!("simplify: wrong polynomial: {} -> {}", short(&x), short(&rr))));
            }
        }
    }
    obs.inc("collected_forms_checked");
    let ctx2 = || short(&rr);
    let again = sut("simplify", &ctx2, || r.clone().simplify())?;
    if again != r || again.to_string() != r.to_string() {
        return Err(Fail::Viol(format!("simplify: simplifying again changes the result: {} -> {} -> {}", short(&x), r, again)));
    }
    obs.inc("idempotence_checked");
    // another spelling of the same polynomial
    let y = poly::spell(&p, t);
    if gen::cost(&y) < 3000.0 {
        let e2 = build(&y)?;
        let ctx3 = || short(&y);
        let r2 = sut("simplify", &ctx3, || e2.clone().simplify())?;
        if r2 != r || r2.to_string() != r.to_string() {
            return Err(Fail::Viol(format!("simplify: two spellings of one polynomial differ: {} -> {} but {} -> {}", short(&x), r, short(&y), r2)));
        }
        obs.inc("respellings_met");
        if e2 != e {
            obs.case(&format!("{}{}", term::key(&x), term::key(&y)), format!("{} and {} => {}", x, y, r));
        }
    }
    // a different polynomial must not meet
    let q = perturb(&p, t);
    if q != p {
        let z = poly::spell(&q, t);
        if gen::cost(&z) < 3000.0 {
            let e3 = build(&z)?;
            let ctx4 = || short(&z);
            let r3 = sut("simplify", &ctx4, || e3.clone().simplify())?;
            if r3 == r || r3.to_string() == r.to_string() {
                return Err(Fail::Viol(format!("simplify: different polynomials meet: {} and {} -> {}", short(&x), short(&z), r)));
            }
            obs.inc("different_polynomials_kept_apart");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C17

/// every sum / product node of the expression is in normal form
pub fn normal_form(t: &Term, n: &mut u64) -> Result<(), String> {
    match t {
        Sum(v, _) => {
            *n += 1;
            if v.len() < 2 {
                return Err(format!("sum of {} operands", v.len()));
            }
            for x in v {
                match x {
                    Sum(..) => return Err(format!("sum directly inside a sum: {}", short(t))),
                    Int(k) if k.is_zero() => return Err(format!("additive zero in {}", short(t))),
                    Real(r) if *r == 0.0 => return Err(format!("additive zero in {}", short(t))),
                    _ => {}
                }
            }
            if v.iter().filter(|x| matches!(x, Int(_))).count() > 1 {
                return Err(format!("two integers in the sum {}", short(t)));
            }
        }
        Prod(v, _) => {
            *n += 1;
            if v.len() < 2 {
                return Err(format!("product of {} operands", v.len()));
            }
            for x in v {
                match x {
                    Prod(..) => return Err(format!("product directly inside a product: {}", short(t))),
                    Int(k) if k.is_zero() || k.is_one() => return Err(format!("factor {} in {}", k, short(t))),
                    Real(r) if *r == 0.0 => return Err(format!("factor zero in {}", short(t))),
                    _ => {}
                }
            }
            if v.iter().filter(|x| matches!(x, Int(_))).count() > 1 {
                return Err(format!("two integers in the product {}", short(t)));
            }
            if v.iter().filter(|x| matches!(x, Real(_))).count() > 1 {
                return Err(format!("two reals in the product {}", short(t)));
            }
        }
        _ => {}
    }
    for c in t.children() {
        normal_form(c, n)?;
    }
    Ok(())
}

pub fn c17(t: &mut Tape, obs: &mut Obs) -> Res {
    let k = Kind::pick(t);
    let x = gen_term(t, k)?;
    let e = build(&x)?;
    let ctx = || short(&x);
    let mut nodes = 0;
    let tr = term::reflect(&e);
    let check = |r: &Term, how: &str, nodes: &mut u64| -> Res {
        normal_form(r, nodes).map_err(|m| Fail::Viol(format!("normal form broken after {} of {}: {}", how, short(&x), m)))
    };
    check(&tr, "construction", &mut nodes)?;
    obs.inc("constructions");
    // identities on x
    let zero = || term::integer_expr(&BigInt::zero());
    let one = || term::integer_expr(&BigInt::one());
    let rzero = || ncas::base::symbol::Symbol::real(0.0).expr();
    let st = t.byte();
    let real_free = !tr.has_real();
    // a zero base has no 0th power
    let ids: Vec<(&str, Box<dyn Fn() -> Expression + '_>, Expression)> = vec![
        ("x+0", Box::new(|| term::add2(e.clone(), zero(), st)), e.clone()),
        ("0+x", Box::new(|| term::add2(zero(), e.clone(), st)), e.clone()),
        ("x+0.0", Box::new(|| term::add2(e.clone(), rzero(), st)), e.clone()),
        ("x-0", Box::new(|| e.clone() - zero()), e.clone()),
        ("x-0.0", Box::new(|| e.clone() - rzero()), e.clone()),
        ("x*1", Box::new(|| term::mul2(e.clone(), one(), st)), e.clone()),
        ("1*x", Box::new(|| term::mul2(one(), e.clone(), st)), e.clone()),
        ("x/1", Box::new(|| e.clone() / one()), e.clone()),
        ("x^1", Box::new(|| e.clone().pow(one())), e.clone()),
        ("x*0", Box::new(|| term::mul2(e.clone(), zero(), st)), zero()),
        ("0*x", Box::new(|| term::mul2(zero(), e.clone(), st)), zero()),
        ("x*0.0", Box::new(|| term::mul2(e.clone(), rzero(), st)), zero()),
    ];
    for (name, f, want) in &ids {
        let r = sut(name, &ctx, || f())?;
        // a real numeral may come back with its sign apart, 0.0 and 1.0 as 0 and 1
        let same_number = match (want, &r) {
            (Expression::Real(v), r) => sem::eval_q(&term::reflect(r), &Default::default()).ok() == num::BigRational::from_float(v.data),
            _ => false,
        };
        if !same_number && (&r != want || r.to_string() != want.to_string()) {
            return Err(Fail::Viol(format!("identity {} gives {} instead of {} for x = {}", name, r, want, short(&tr))));
        }
        obs.inc("identities_checked");
    }
    let is_zero = matches!(&tr, Int(n) if n.is_zero()) || matches!(&tr, Real(r) if *r == 0.0);
    if !is_zero {
        // x^0: bases 0 and 1 are returned as they are (1^0 = 1)
        let r = sut("x^0", &ctx, || e.clone().pow(zero()))?;
        let is_one = |r: &Expression| matches!(r, Expression::Integer(n) if n.data.is_one()) || matches!(r, Expression::Real(v) if v.data == 1.0);
        if !is_one(&r) {
            return Err(Fail::Viol(format!("identity x^0 gives {} for x = {}", r, short(&tr))));
        }
        obs.inc("identities_checked");
    }
    if real_free {
        let r = sut("-(-x)", &ctx, || if st % 2 == 0 { -(-e.clone()) } else { -&(-&e) })?;
        if r != e {
            return Err(Fail::Viol(format!("identity -(-x) gives {} for x = {}", r, short(&tr))));
        }
        obs.inc("identities_checked");
        // inverting b^(-log(y, b)) folds it to y
        let folds = match &tr {
            Pow(b, p, _) => match &**p {
                Prod(v, _) => v.iter().any(|f| matches!(f, Log(_, c, _) if term::key(c) == term::key(b))),
                _ => false,
            },
            _ => false,
        };
        if folds {
            obs.inc("inverses_that_fold");
        } else if !is_zero && !matches!(tr, Prod(..)) {
            let r = sut("1/(1/x)", &ctx, || one() / (one() / e.clone()))?;
            if r != e {
                return Err(Fail::Viol(format!("identity 1/(1/x) gives {} for x = {}", r, short(&tr))));
            }
            obs.inc("identities_checked");
        }
    }
    // transformed results
    match t.below(9) {
        // reals that leave the range of f64 together
        8 => {
            let mut r = e.clone();
            let mut text = short(&x);
            for _ in 0..1 + t.below(3) {
                let m = (t.range(1, 40) as f64) * *t.pick(&[1.0, -1.0]);
                let d = t.range(100, 300) as i32;
                let (f, big) = if t.chance(170) { (m * 10f64.powi(-d), false) } else { (m * 10f64.powi(d), true) };
                text = format!("({}) {} {:e}", text, if big { '/' } else { '*' }, f);
                let s = t.byte();
                r = sut("an operator", &|| text.clone(), || {
                    let y = ncas::base::symbol::Symbol::real(f).expr();
                    if big { r.clone() / y } else { term::mul2(r.clone(), y, s) }
                })?;
                normal_form(&term::reflect(&r), &mut nodes).map_err(|m| Fail::Viol(format!("normal form broken by {}: {}", text, m)))?;
            }
            obs.inc("operators_with_vanishing_reals");
        }
        0 | 1 => {
            let r = sut("expand", &ctx, || e.clone().expand())?;
            check(&term::reflect(&r), "expand", &mut nodes)?;
            obs.inc("expansions");
        }
        2..=4 => {
            let r = sut("simplify", &ctx, || e.clone().simplify())?;
            check(&term::reflect(&r), "simplify", &mut nodes)?;
            obs.inc("simplifications");
        }
        _ => {
            // a further operator on top
            let y = gen_term(t, k)?;
            let e2 = build(&y)?;
            let op = t.below(5);
            let w = match op {
                0 => Sum(vec![x.clone(), y.clone()], st),
                1 => Prod(vec![x.clone(), y.clone()], st),
                2 => term::sub(x.clone(), y.clone()),
                3 => term::div(x.clone(), y.clone()),
                _ => term::pow(x.clone(), term::int(t.range(-3, 4))),
            };
            if !wellformed(&w) || gen::bits(&w) > 20000.0 || !gen::in_range(&w) {
                return Ok(());
            }
            let ctx2 = || short(&w);
            let r = sut("operator", &ctx2, || match (op, &w) {
                (0, _) => term::add2(e.clone(), e2.clone(), st),
                (1, _) => term::mul2(e.clone(), e2.clone(), st),
                (2, _) => e.clone() - e2.clone(),
                (3, _) => e.clone() / e2.clone(),
                (_, Pow(_, n, _)) => e.clone().pow(term::build(n)),
                _ => unreachable!(),
            })?;
            check(&term::reflect(&r), "an operator", &mut nodes)?;
            obs.inc("operators_on_built_operands");
        }
    }
    obs.add("nodes_inspected", nodes);
    if nodes > 0 {
        obs.case(&term::key(&tr), format!("{} ({} nodes)", tr, nodes));
    }
    Ok(())
}
