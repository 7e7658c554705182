//! C20: results depend on the formula, not on what its unknowns are called or on which opaque expression stands in
//! for them.
use super::*;
use crate::term::Term::*;

/// the formula with every variable replaced as given
pub fn substitute(x: &Term, f: &dyn Fn(&str) -> Option<Term>) -> Term {
    let b = |y: &Term| Box::new(substitute(y, f));
    let v = |v: &[Term]| v.iter().map(|y| substitute(y, f)).collect::<Vec<_>>();
    match x {
        Var(s) => f(s).unwrap_or_else(|| x.clone()),
        Sum(w, s) => Sum(v(w), *s),
        Prod(w, s) => Prod(v(w), *s),
        Neg(a, s) => Neg(b(a), *s),
        Sub(p, q, s) => Sub(b(p), b(q), *s),
        Div(p, q, s) => Div(b(p), b(q), *s),
        Pow(p, q, s) => Pow(b(p), b(q), *s),
        Log(p, q, s) => Log(b(p), b(q), *s),
        Sin(a) => Sin(b(a)),
        Cos(a) => Cos(b(a)),
        _ => x.clone(),
    }
}

/// a name nothing else uses
fn fresh(t: &mut Tape, used: &mut Vec<String>) -> String {
    for _ in 0..8 {
        let s = match t.below(14) {
            // almost the name of another one
            11 | 12 => {
                let s = t.pick(used).clone();
                let tail = ["_1", "1", "_", "'", "0", " ", "a", "s"][t.below(8)];
                match t.below(4) {
                    0 => format!("{}{}", tail, s),
                    1 => s.chars().rev().collect(),
                    _ => format!("{}{}", s, tail),
                }
            }
            13 => {
                let mut s = t.pick(used).clone();
                if !gen::dict().strings.is_empty() {
                    s.push_str(&t.pick(&gen::dict().strings).replace("{}", ""));
                }
                s
            }
            10 if !gen::dict().strings.is_empty() => t.pick(&gen::dict().strings).clone(),
            0..=2 => ((b'a' + t.below(26) as u8) as char).to_string(),
            3 => ((b'A' + t.below(26) as u8) as char).to_string(),
            4 => format!("x{}", t.below(30)),
            5 => format!("x_{}{}", "0".repeat(t.below(4)), t.below(4)),
            6 => "z".repeat(1 + t.below(40)),
            7 => format!("{}{}", "q".repeat(30), t.below(9)),
            8 => ["α", "β", "é", "变", "😀", "ß"][t.below(6)].into(),
            _ => ["pow", "log", "sin", "cos", "e", "pi", "i", "1", "10", "x y", "(a + b)", "-a", "0"][t.below(13)].into(),
        };
        if !used.contains(&s) {
            used.push(s.clone());
            return s;
        }
    }
    let s = (0..).map(|i| format!("v{}", i)).find(|s| !used.contains(s)).unwrap();
    used.push(s.clone());
    s
}

pub fn c20(t: &mut Tape, obs: &mut Obs) -> Res {
    let k = match t.below(8) {
        0..=3 => Kind::Exact,
        4..=5 => Kind::Poly,
        _ => Kind::LogInt,
    };
    let x = gen_cheap(t, k)?;
    let y = match t.below(3) {
        0 => gen_cheap(t, k)?,
        1 => Sum(vec![super::compare::shuffled(&x, t), Int(gen::gen_int(t, false))], t.byte()),
        _ => super::compare::shuffled(&x, t),
    };
    let mut names = vec![];
    x.vars(&mut names);
    y.vars(&mut names);
    if names.is_empty() || x.has_real() || y.has_real() {
        return Err(Fail::Discard);
    }
    // one-to-one: either the same names dealt out again, or new ones
    let mut used: Vec<String> = names.clone();
    let mut images: Vec<Term> = vec![];
    let mode = t.below(3);
    if mode == 0 {
        let mut w = names.clone();
        t.shuffle(&mut w);
        images = w.into_iter().map(Var).collect();
        obs.inc("permuted_names");
    } else {
        // all variables by the same kind of expression, or each by its own
        let all = t.below(8);
        // now and then one family of names
        let stem = if mode == 1 && t.chance(70) { Some(fresh(t, &mut used)) } else { None };
        if let Some(s) = &stem {
            used = names.clone();
            used.push(s.clone());
        }
        for _ in &names {
            let s = match &stem {
                Some(s) if images.is_empty() => s.clone(),
                Some(s) => {
                    let tail = ["_1", "1", "_", "'", "0", " ", "a", "_2", "2"][t.below(9)];
                    let near = if t.chance(220) { format!("{}{}", s, tail) } else { format!("{}{}", tail, s) };
                    if used.contains(&near) {
                        fresh(t, &mut used)
                    } else {
                        used.push(near.clone());
                        near
                    }
                }
                None => fresh(t, &mut used),
            };
            let s = term::var(&s);
            images.push(if mode == 1 || all > 3 && t.chance(128) {
                s
            } else {
                match if all > 3 { t.below(4) } else { all } {
                    0 => Sin(Box::new(s)),
                    1 => Cos(Box::new(s)),
                    2 => term::log(s, term::var(&fresh(t, &mut used))),
                    _ => Sin(Box::new(Cos(Box::new(s)))),
                }
            });
        }
        obs.inc(if mode == 1 { "new_names" } else { "opaque_expressions" });
    }
    let f = |s: &str| names.iter().position(|n| n == s).map(|i| images[i].clone());
    let (x2, y2) = (substitute(&x, &f), substitute(&y, &f));
    let (a, b, a2, b2) = (build(&x)?, build(&y)?, build(&x2)?, build(&y2)?);
    let map = || names.iter().zip(&images).map(|(n, i)| format!("{} := {}", n, short(i))).collect::<Vec<_>>().join(", ");
    let mut changed = false;
    let mut check = |what: &str, p: &Expression, q: &Expression| -> Res {
        let want = substitute(&term::reflect(p), &f);
        let got = term::reflect(q);
        obs.inc("results_compared");
        if term::key(&want) != term::key(&got) {
            return Err(Fail::Viol(format!("{} of {}: the result {} does not carry over when {}: {}", what, short(&x), short(&term::reflect(p)), map(), short(&got))));
        }
        Ok(())
    };
    check("building", &a, &a2)?;
    let ctx = || short(&x);
    let ctx2 = || short(&x2);
    let (e, e2) = (sut("expand", &ctx, || a.clone().expand())?, sut("expand", &ctx2, || a2.clone().expand())?);
    check("expand", &e, &e2)?;
    changed |= e != a;
    let (s, s2) = (sut("simplify", &ctx, || a.clone().simplify())?, sut("simplify", &ctx2, || a2.clone().simplify())?);
    check("simplify", &s, &s2)?;
    changed |= s != a;
    for i in 0..9usize {
        let (r, r2) = (sut("rule", &ctx, || super::value::rule(i, &a))?, sut("rule", &ctx2, || super::value::rule(i, &a2))?);
        check(&format!("rule {}", i), &r, &r2)?;
    }
    let both = || format!("{} with {}", short(&x), short(&y));
    // all seven predicates of cheap pairs, some of the others
    let few = gen::work(&x) + gen::work(&y) > 20.0;
    let picked: Vec<usize> = if few { vec![t.below(7), t.below(7)] } else { (0..7).collect() };
    let ask = |p: &Expression, q: &Expression| -> Vec<bool> {
        let f: [fn(&Expression, &Expression) -> bool; 7] = [Expression::comparable, Expression::equal, Expression::not_equal, Expression::greater, Expression::lesser, Expression::greater_equal, Expression::lesser_equal];
        picked.iter().map(|i| f[*i](p, q)).collect()
    };
    let (v, v2) = (sut("comparing", &both, || ask(&a, &b))?, sut("comparing", &both, || ask(&a2, &b2))?);
    obs.add("verdicts_compared", picked.len() as u64);
    if v != v2 {
        return Err(Fail::Viol(format!("comparison of {} ({:?} of comparable, equal, not_equal, greater, lesser, greater_equal, lesser_equal): {:?}, but {:?} when {}", both(), picked, v, v2, map())));
    }
    obs.inc(if v.contains(&true) { "pairs_with_a_positive_verdict" } else { "pairs_without_a_positive_verdict" });
    if (a == b) != (a2 == b2) {
        return Err(Fail::Viol(format!("== of {}: {}, but {} when {}", both(), a == b, a2 == b2, map())));
    }
    if changed {
        obs.case(&format!("{}|{}", term::key(&x), map()), format!("{} where {}", x, map()));
    }
    Ok(())
}
