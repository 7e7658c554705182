//! Independent models of integer-coefficient polynomials.
//!  * `Poly`: collected sparse form (exact ring arithmetic)
//!  * `expansion`: the list of addends left after multiplying everything out *without* collecting
use crate::tape::Tape;
use crate::term::{Term::{self, *}, *};
use num::bigint::BigInt;
use num::{One, Signed, ToPrimitive, Zero};
use std::collections::BTreeMap;

pub type Mono = BTreeMap<String, u64>;
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Poly(pub BTreeMap<Mono, BigInt>);

impl Poly {
    pub fn konst(n: BigInt) -> Poly {
        let mut m = BTreeMap::new();
        if !n.is_zero() {
            m.insert(Mono::new(), n);
        }
        Poly(m)
    }
    pub fn var(s: &str) -> Poly {
        let mut k = Mono::new();
        k.insert(s.to_string(), 1);
        let mut m = BTreeMap::new();
        m.insert(k, BigInt::one());
        Poly(m)
    }
    pub fn add(mut self, o: &Poly) -> Poly {
        for (k, c) in &o.0 {
            let e = self.0.entry(k.clone()).or_insert_with(BigInt::zero);
            *e += c;
            if e.is_zero() {
                self.0.remove(k);
            }
        }
        self
    }
    pub fn neg(mut self) -> Poly {
        for c in self.0.values_mut() {
            *c = -c.clone();
        }
        self
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r = Poly::default();
        for (k1, c1) in &self.0 {
            for (k2, c2) in &o.0 {
                let k = mono_mul(k1, k2);
                let e = r.0.entry(k).or_insert_with(BigInt::zero);
                *e += c1 * c2;
            }
        }
        r.0.retain(|_, c| !c.is_zero());
        r
    }
    /// the constant, if the polynomial is one
    pub fn as_const(&self) -> Option<BigInt> {
        match self.0.len() {
            0 => Some(BigInt::zero()),
            1 => self.0.get(&Mono::new()).cloned(),
            _ => None,
        }
    }
}
pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = a.clone();
    for (v, e) in b {
        *r.entry(v.clone()).or_insert(0) += e;
    }
    r
}

fn small(e: &Term) -> Option<u64> {
    e.lit_int().filter(|n| !n.is_negative() && n < &&BigInt::from(100_000)).and_then(|n| n.to_u64())
}

/// Exact polynomial of a formula built with + - * and non-negative integer powers.
pub fn poly(t: &Term) -> Option<Poly> {
    Some(match t {
        Int(n) => Poly::konst(n.clone()),
        Var(s) => Poly::var(s),
        Sum(v, _) => {
            let mut r = Poly::default();
            for x in v {
                r = r.add(&poly(x)?);
            }
            r
        }
        Prod(v, _) => {
            let mut r = Poly::konst(BigInt::one());
            for x in v {
                r = r.mul(&poly(x)?);
            }
            r
        }
        Neg(a, _) => poly(a)?.neg(),
        Sub(a, b, _) => poly(a)?.add(&poly(b)?.neg()),
        Pow(a, b, _) => {
            let p = poly(a)?;
            let e = small(b)?;
            if p.0.len() == 1 {
                let (m, c) = p.0.iter().next().unwrap();
                if c.bits() > 1 && c.bits().saturating_mul(e) > 100_000 {
                    return None;
                }
                let mut r = Poly::default();
                r.0.insert(m.iter().filter(|_| e > 0).map(|(v, k)| (v.clone(), k * e)).collect(), num::pow(c.clone(), e as usize));
                return Some(r);
            }
            if p.0.is_empty() {
                return if e == 0 { None } else { Some(p) };
            }
            if e > 64 {
                return None;
            }
            let mut r = Poly::konst(BigInt::one());
            for _ in 0..e {
                r = r.mul(&p);
            }
            r
        }
        _ => return None,
    })
}

/// Reads a reflected result as a *collected* polynomial; Err says which requirement of the collected form is broken.
pub fn read_collected(t: &Term) -> Result<Poly, String> {
    let mut r = Poly::default();
    let addends: Vec<&Term> = if let Sum(v, _) = t { v.iter().collect() } else { vec![t] };
    for a in addends {
        let (c, m) = read_mono(a, true)?;
        if c.is_zero() && !matches!(t, Int(_)) {
            return Err(format!("zero addend in {}", t));
        }
        if r.0.insert(m, c).is_some() {
            return Err(format!("two addends with the same monomial in {}", t));
        }
    }
    r.0.retain(|_, c| !c.is_zero());
    Ok(r)
}
/// monomial with coefficient; `once`: every variable at most once
pub fn read_mono(t: &Term, once: bool) -> Result<(BigInt, Mono), String> {
    let fs: Vec<&Term> = if let Prod(v, _) = t { v.iter().collect() } else { vec![t] };
    let mut c = BigInt::one();
    let mut ints = 0;
    let mut m = Mono::new();
    for f in fs {
        let (v, e): (&String, u64) = match f {
            Int(n) => {
                c *= n;
                ints += 1;
                continue;
            }
            Var(v) => (v, 1),
            Pow(b, e, _) => match (&**b, small(e)) {
                (Var(v), Some(k)) => {
                    if once && k < 2 {
                        return Err(format!("trivial exponent in {}", t));
                    }
                    (v, k)
                }
                // a power of a product without sums
                (Prod(..), Some(k)) if !once => {
                    let (c2, m2) = read_mono(b, false)?;
                    c *= num::pow(c2, k as usize);
                    for (v, e) in m2 {
                        *m.entry(v).or_insert(0) += e * k;
                    }
                    continue;
                }
                _ => return Err(format!("{} is not a variable power in {}", f, t)),
            },
            Prod(..) if !once => {
                let (c2, m2) = read_mono(f, false)?;
                c *= c2;
                m = mono_mul(&m, &m2);
                continue;
            }
            _ => return Err(format!("{} is not a monomial factor in {}", f, t)),
        };
        if once && m.contains_key(v) {
            return Err(format!("variable {} occurs twice in {}", v, t));
        }
        *m.entry(v.clone()).or_insert(0) += e;
    }
    if once && ints > 1 {
        return Err(format!("two integer factors in {}", t));
    }
    Ok((c, m))
}

pub type Addends = Vec<(BigInt, Mono)>;

/// Addends of a formula after multiplying out, uncollected; numbers are merged.
pub fn expansion(t: &Term, cap: usize) -> Option<Addends> {
    fn merge(v: Addends) -> Addends {
        let mut c = BigInt::zero();
        let mut r: Addends = vec![];
        for (k, m) in v {
            if m.is_empty() {
                c += k;
            } else if !k.is_zero() {
                r.push((k, m));
            }
        }
        if !c.is_zero() {
            r.push((c, Mono::new()));
        }
        r
    }
    fn cross(a: &Addends, b: &Addends, cap: usize) -> Option<Addends> {
        if a.len() * b.len() > cap {
            return None;
        }
        let mut r = vec![];
        for (c1, m1) in a {
            for (c2, m2) in b {
                r.push((c1 * c2, mono_mul(m1, m2)));
            }
        }
        Some(merge(r))
    }
    Some(match t {
        Int(n) => merge(vec![(n.clone(), Mono::new())]),
        Var(s) => vec![(BigInt::one(), [(s.clone(), 1)].into_iter().collect())],
        Sum(v, _) => {
            let mut r = vec![];
            for x in v {
                r.extend(expansion(x, cap)?);
            }
            merge(r)
        }
        Prod(v, _) => {
            let mut r = vec![(BigInt::one(), Mono::new())];
            for x in v {
                r = cross(&r, &expansion(x, cap)?, cap)?;
            }
            r
        }
        Pow(a, b, _) => {
            let e = small(b)?;
            let p = expansion(a, cap)?;
            if p.len() == 1 {
                if p[0].0.bits() > 1 && p[0].0.bits().saturating_mul(e) > 100_000 {
                    return None;
                }
                return Some(vec![(num::pow(p[0].0.clone(), e as usize), p[0].1.iter().filter(|_| e > 0).map(|(v, k)| (v.clone(), k * e)).collect())]);
            }
            if e > 64 {
                return None;
            }
            let mut r = vec![(BigInt::one(), Mono::new())];
            for _ in 0..e {
                r = cross(&r, &p, cap)?;
            }
            r
        }
        _ => return None,
    })
}

/// Writes a polynomial down in a random way.
pub fn spell(p: &Poly, t: &mut Tape) -> Term {
    let mut parts: Vec<Term> = vec![];
    for (m, c) in &p.0 {
        // sometimes split a coefficient
        let cs: Vec<BigInt> = if t.chance(50) {
            let d = BigInt::from(t.range(-5, 5));
            vec![c - &d, d]
        } else {
            vec![c.clone()]
        };
        for c in cs {
            parts.push(spell_mono(&c, m, t));
        }
    }
    // noise that cancels
    if t.chance(60) {
        let v = var(crate::gen::BASE_VARS[t.below(3)]);
        let x = match t.below(4) {
            0 => v,
            1 => Pow(Box::new(v), Box::new(int(2)), 0),
            2 => Prod(vec![int(t.range(-3, 5)), v], t.byte()),
            _ => Prod(vec![v, var(crate::gen::BASE_VARS[t.below(3)])], t.byte()),
        };
        parts.push(x.clone());
        parts.push(Neg(Box::new(x), t.byte()));
    }
    t.shuffle(&mut parts);
    group(parts, t)
}
fn group(mut parts: Vec<Term>, t: &mut Tape) -> Term {
    if parts.is_empty() {
        return int(0);
    }
    while parts.len() > 1 {
        if t.chance(60) || parts.len() == 2 {
            return if parts.len() == 2 && t.chance(60) {
                let b = parts.pop().unwrap();
                let a = parts.pop().unwrap();
                // a + b as a - (-b)
                Sub(Box::new(a), Box::new(Neg(Box::new(b), t.byte())), t.byte())
            } else {
                Sum(parts, t.byte())
            };
        }
        let n = t.range(2, parts.len() as i64 - 1) as usize;
        let tail = parts.split_off(parts.len() - n);
        let g = Sum(tail, t.byte());
        let g = if t.chance(50) { Neg(Box::new(Neg(Box::new(g), t.byte())), t.byte()) } else { g };
        let at = t.below(parts.len() + 1);
        parts.insert(at, g);
    }
    parts.pop().unwrap()
}
fn spell_mono(c: &BigInt, m: &Mono, t: &mut Tape) -> Term {
    let mut fs: Vec<Term> = vec![];
    for (v, e) in m {
        let mut left = *e;
        while left > 0 {
            let k = if left > 6 { left } else { t.range(1, left as i64) as u64 };
            left -= k;
            fs.push(match t.below(4) {
                0 if k > 1 && k < 7 => Prod((0..k).map(|_| var(v)).collect(), t.byte()),
                1 if k > 1 && k % 2 == 0 => pow(pow(var(v), int(2)), int((k / 2) as i64)),
                _ if k == 1 => var(v),
                _ => pow(var(v), int(k as i64)),
            });
        }
    }
    // (x*y)^k
    if m.len() >= 2 && m.values().all(|e| e == m.values().next().unwrap()) && t.chance(100) {
        let e = *m.values().next().unwrap();
        fs = vec![pow(Prod(m.keys().map(|v| var(v)).collect(), t.byte()), int(e as i64))];
    }
    let mut c = c.clone();
    if c.is_negative() && t.chance(100) {
        c = -c;
        fs.push(int(-1));
    }
    if !c.is_one() || fs.is_empty() || t.chance(20) {
        fs.push(Int(c));
    }
    t.shuffle(&mut fs);
    if fs.len() == 1 { fs.pop().unwrap() } else { Prod(fs, t.byte()) }
}
