//! C22: transformations act part by part, comparisons mirror and shift with their operands.
use super::cancel::monomials;
use super::compare::{respelled, shuffled, verdicts, Verdicts};
use super::*;
use crate::term::Term::*;

fn mirrored(v: Verdicts) -> Verdicts {
    Verdicts { greater: v.lesser, lesser: v.greater, greater_equal: v.lesser_equal, lesser_equal: v.greater_equal, ..v }
}

pub fn c22(t: &mut Tape, obs: &mut Obs) -> Res {
    let k = match t.below(8) {
        0..=4 => Kind::Exact,
        5 => Kind::Poly,
        _ => Kind::LogInt,
    };
    let a = gen_cheap(t, k)?;
    if a.has_real() {
        return Err(Fail::Discard);
    }
    let law = t.below(9);
    match law {
        0..=5 => {
            let mut parts = vec![a];
            for _ in 0..1 + if t.chance(40) { t.below(12) } else { t.below(3) } {
                let again = t.chance(60);
                let x = if again { shuffled(&parts[t.below(parts.len())].clone(), t) } else { gen_cheap(t, k)? };
                if !x.has_real() {
                    parts.push(x);
                }
            }
            if parts.iter().map(gen::work).sum::<f64>() > 1500.0 {
                return Err(Fail::Discard);
            }
            let es = parts.iter().map(build).collect::<Result<Vec<_>, _>>()?;
            let ctx = || parts.iter().map(short).collect::<Vec<_>>().join(" ; ");
            let expanded = |e: &Expression| sut("expand", &ctx, || e.clone().expand());
            let (name, l, r) = match law {
                0 | 1 => {
                    let whole = sut("building the sum", &ctx, || Expression::addition(es.clone()))?;
                    let xs = es.iter().map(&expanded).collect::<Result<Vec<_>, _>>()?;
                    let sum = sut("building the sum of the expansions", &ctx, || Expression::addition(xs))?;
                    ("expansion_of_a_sum", expanded(&whole)?, sum)
                }
                2 if t.chance(100) => {
                    let a = build(&term::var("logarg"))?;
                    let whole = sut("building the logarithm", &ctx, || a.clone().log(es[0].clone()))?;
                    let x = expanded(&es[0])?;
                    let log = sut("building the logarithm to the expanded base", &ctx, || a.log(x))?;
                    ("expansion_of_a_base", expanded(&whole)?, log)
                }
                2 => {
                    let b = build(&term::var("logbase"))?;
                    let whole = sut("building the logarithm", &ctx, || es[0].clone().log(b.clone()))?;
                    let x = expanded(&es[0])?;
                    let log = sut("building the logarithm of the expansion", &ctx, || x.log(b))?;
                    ("expansion_of_a_logarithm", expanded(&whole)?, log)
                }
                _ => {
                    let sum = t.chance(128);
                    let whole = if sum { sut("building the sum", &ctx, || Expression::addition(es.clone()))? } else { es[0].clone() };
                    let x = expanded(&whole)?;
                    let l = sut("simplify", &ctx, || whole.clone().simplify())?;
                    ("simplification_after_expansion", l, sut("simplify the expansion", &ctx, || x.simplify())?)
                }
            };
            obs.inc(name);
            if l != r {
                return Err(Fail::Viol(format!("{}: {}: {} but part by part {}", name, ctx(), short(&term::reflect(&l)), short(&term::reflect(&r)))));
            }
            if es.iter().any(|e| matches!(e, Expression::Multiplication(_) | Expression::Power(_) | Expression::Addition(_))) {
                obs.case(&format!("{}|{}", name, ctx()), format!("{} of {}", name, ctx()));
            }
        }
        _ => {
            let a = if t.chance(100) { monomials(t) } else { a };
            // powers of a number are collected with the number itself on one side only
            let a = if t.chance(60) {
                let n = t.range(-3, 5);
                let p = term::pow(term::int(n), term::var(t.pick(&gen::EXP_VARS)));
                let v = vec![term::int(if t.chance(128) { n } else { t.range(-9, 9) }), p, a];
                if t.chance(128) { Prod(v, t.byte()) } else { Sum(vec![Prod(v[..2].to_vec(), 0), v[2].clone()], t.byte()) }
            } else {
                a
            };
            let b = match t.below(6) {
                0 => gen_cheap(t, k)?,
                4 => respelled(&a, t),
                5 => Sum(vec![respelled(&a, t), Int(gen::gen_int(t, true))], t.byte()),
                1 => shuffled(&a, t),
                _ => Sum(vec![shuffled(&a, t), Int(gen::gen_int(t, true))], t.byte()),
            };
            if b.has_real() || gen::work(&a) + gen::work(&b) > if t.chance(25) { 400.0 } else { 80.0 } {
                return Err(Fail::Discard);
            }
            let (p, q) = (build(&a)?, build(&b)?);
            let ctx = || format!("{} with {}", short(&a), short(&b));
            let ask = |p: &Expression, q: &Expression| sut("comparing", &ctx, || verdicts(p, q));
            let v = ask(&p, &q)?;
            let (name, w) = match law {
                6 => ("compared_the_other_way_round", mirrored(ask(&q, &p)?)),
                7 => {
                    let (np, nq) = sut("negating", &ctx, || (-&p, -&q))?;
                    ("compared_after_negation", mirrored(ask(&np, &nq)?))
                }
                _ => {
                    let n = build(&Int(gen::gen_int(t, true)))?;
                    let (sp, sq) = sut("adding", &ctx, || (&p + &n, &n + &q))?;
                    ("compared_after_adding_an_integer", ask(&sp, &sq)?)
                }
            };
            obs.inc(name);
            obs.inc(if v.comparable { "comparable" } else { "incomparable" });
            if v != w {
                return Err(Fail::Viol(format!("{}: {}: {:?} but {:?}", name, ctx(), v, w)));
            }
            obs.case(&format!("{}|{}", name, ctx()), format!("{}: {}", name, ctx()));
        }
    }
    Ok(())
}
