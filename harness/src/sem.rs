//! Meaning of formulas, written independently of ncas.
//!  * `Field`: exact evaluation in GF(p), p a 61-bit prime without structure, (integers, + - * /, integer-valued powers, uninterpreted sin/cos)
//!  * `Iv`: interval evaluation in f64 with outward widening (reals, logarithms, fractional powers)
//! Both are three-valued: a value, certainly undefined, or unknown (resource / precision limits).
//! In `strict` mode a power is only accepted as defined where the rewriting laws of powers are valid
//! (see DESIGN.md "domain"): integer-typed exponent, or all factors of the base positive.
use crate::term::Term::{self, *};
use num::bigint::BigInt;
use num::rational::BigRational;
use num::{One, Signed, ToPrimitive, Zero};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    Undef,
    Unknown,
}
pub type R<T> = Result<T, Stop>;

/// not near a power of two or ten: the workload is full of those
pub const P: u64 = 1_735_673_665_876_579_111;
pub fn mulp(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
pub fn addp(a: u64, b: u64) -> u64 {
    let s = a + b;
    if s >= P { s - P } else { s }
}
pub fn negp(a: u64) -> u64 {
    if a == 0 { 0 } else { P - a }
}
pub fn powp(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mulp(r, b);
        }
        b = mulp(b, b);
        e >>= 1;
    }
    r
}
pub fn invp(a: u64) -> u64 {
    powp(a, P - 2)
}
pub fn modp(n: &BigInt, m: u64) -> u64 {
    let m = BigInt::from(m);
    let r = n % &m;
    let r = if r.is_negative() { r + m } else { r };
    r.to_u64().unwrap()
}

/// Is the exponent built from integers, integer-valued variables, + - * and non-negative integer powers only
/// (integral reals allowed)?
pub fn integer_typed(t: &Term, int_var: &dyn Fn(&str) -> bool) -> bool {
    match t {
        Int(_) => true,
        Var(s) => int_var(s),
        Real(r) => r.fract() == 0.0,
        Sum(v, _) | Prod(v, _) => v.iter().all(|x| integer_typed(x, int_var)),
        Neg(a, _) => integer_typed(a, int_var),
        Sub(a, b, _) => integer_typed(a, int_var) && integer_typed(b, int_var),
        Pow(a, b, _) => integer_typed(a, int_var) && b.lit_int().map_or(false, |n| !n.is_negative()),
        _ => false,
    }
}

// ---------------------------------------------------------------- exact rationals (exponents, numeric folding)

/// Exact rational value; only variables listed in `env` have values.
pub fn eval_q(t: &Term, env: &HashMap<String, BigRational>) -> R<BigRational> {
    match t {
        Int(n) => Ok(BigRational::from_integer(n.clone())),
        Real(r) => BigRational::from_float(*r).ok_or(Stop::Undef),
        Var(s) => env.get(s).cloned().ok_or(Stop::Unknown),
        Sum(v, _) => {
            let mut a = BigRational::zero();
            for x in v {
                a = a + eval_q(x, env)?;
            }
            Ok(a)
        }
        Prod(v, _) => {
            let mut a = BigRational::one();
            for x in v {
                a = a * eval_q(x, env)?;
            }
            Ok(a)
        }
        Neg(a, _) => Ok(-eval_q(a, env)?),
        Sub(a, b, _) => Ok(eval_q(a, env)? - eval_q(b, env)?),
        Div(a, b, _) => {
            let (x, y) = (eval_q(a, env)?, eval_q(b, env)?);
            if y.is_zero() { Err(Stop::Undef) } else { Ok(x / y) }
        }
        Pow(a, b, _) => {
            let e = eval_q(b, env)?;
            let x = eval_q(a, env)?;
            if x.is_zero() {
                return if e.is_positive() { Ok(x) } else { Err(Stop::Undef) };
            }
            if !e.is_integer() {
                return Err(Stop::Unknown);
            }
            let e = e.to_integer().to_i64().ok_or(Stop::Unknown)?;
            let bits = x.numer().bits().max(x.denom().bits());
            if (e.unsigned_abs()).saturating_mul(bits) > 200_000 {
                return Err(Stop::Unknown);
            }
            let y = if e < 0 { x.recip() } else { x };
            Ok(BigRational::new(
                num::pow(y.numer().clone(), e.unsigned_abs() as usize),
                num::pow(y.denom().clone(), e.unsigned_abs() as usize),
            ))
        }
        _ => Err(Stop::Unknown),
    }
}

// ---------------------------------------------------------------- GF(p)

#[derive(Clone)]
pub struct FieldEnv {
    /// residues of all variables
    pub v: HashMap<String, u64>,
    /// exact values of the variables that may occur in exponents
    pub q: HashMap<String, BigRational>,
}

pub fn uninterpreted(tag: u64, x: u64) -> u64 {
    let mut r = crate::tape::Rng::new(x ^ (tag << 56));
    r.next() % P
}

pub fn eval_f(t: &Term, env: &FieldEnv, strict: bool) -> R<u64> {
    match t {
        Int(n) => Ok(modp(n, P)),
        Real(_) | Log(..) => Err(Stop::Unknown),
        Var(s) => env.v.get(s).copied().ok_or(Stop::Unknown),
        Sum(v, _) => {
            let mut a = 0;
            for x in v {
                a = addp(a, eval_f(x, env, strict)?);
            }
            Ok(a)
        }
        Prod(v, _) => {
            let mut a = 1;
            for x in v {
                a = mulp(a, eval_f(x, env, strict)?);
            }
            Ok(a)
        }
        Neg(a, _) => Ok(negp(eval_f(a, env, strict)?)),
        Sub(a, b, _) => Ok(addp(eval_f(a, env, strict)?, negp(eval_f(b, env, strict)?))),
        Div(a, b, _) => {
            let (x, y) = (eval_f(a, env, strict)?, eval_f(b, env, strict)?);
            if y == 0 { Err(Stop::Undef) } else { Ok(mulp(x, invp(y))) }
        }
        Pow(a, b, _) => {
            if strict && !integer_typed(b, &|v| env.q.get(v).map_or(false, |q| q.is_integer())) {
                return Err(Stop::Undef);
            }
            let e = eval_q(b, &env.q)?;
            if !e.is_integer() {
                return Err(Stop::Undef);
            }
            let e = e.to_integer();
            let x = eval_f(a, env, strict)?;
            if x == 0 {
                // a^(-m) == 1/a^m needs a nonzero base
                if strict && b.lit_int().is_none() {
                    return Err(Stop::Undef);
                }
                return if e.is_positive() { Ok(0) } else { Err(Stop::Undef) };
            }
            Ok(powp(x, modp(&e, P - 1)))
        }
        Sin(a) => Ok(uninterpreted(1, eval_f(a, env, strict)?)),
        Cos(a) => Ok(uninterpreted(2, eval_f(a, env, strict)?)),
    }
}

// ---------------------------------------------------------------- intervals

#[derive(Clone, Copy, Debug)]
pub struct Iv {
    pub lo: f64,
    pub hi: f64,
}
const EPS: f64 = 1e-13;
impl Iv {
    pub fn pt(x: f64) -> Iv {
        Iv { lo: x, hi: x }
    }
    fn widen(lo: f64, hi: f64) -> R<Iv> {
        if !lo.is_finite() || !hi.is_finite() || lo.abs() > 1e120 || hi.abs() > 1e120 {
            return Err(Stop::Unknown);
        }
        let d = EPS * lo.abs().max(hi.abs()) + 1e-140;
        Ok(Iv { lo: lo - d, hi: hi + d })
    }
    pub fn leaf(x: f64, eps: f64) -> R<Iv> {
        if !x.is_finite() {
            return Err(Stop::Undef);
        }
        if x.abs() > 1e120 {
            return Err(Stop::Unknown);
        }
        Ok(Iv { lo: x - eps * x.abs(), hi: x + eps * x.abs() })
    }
    pub fn add(self, o: Iv) -> R<Iv> {
        Iv::widen(self.lo + o.lo, self.hi + o.hi)
    }
    pub fn neg(self) -> Iv {
        Iv { lo: -self.hi, hi: -self.lo }
    }
    pub fn mul(self, o: Iv) -> R<Iv> {
        // underflow
        if self.mag() * o.mag() < 1e-120 && !self.has_zero() && !o.has_zero() {
            return Err(Stop::Unknown);
        }
        let c = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi];
        Iv::widen(c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
    }
    pub fn has_zero(self) -> bool {
        self.lo <= 0.0 && self.hi >= 0.0
    }
    pub fn width(self) -> f64 {
        self.hi - self.lo
    }
    pub fn mag(self) -> f64 {
        self.lo.abs().max(self.hi.abs())
    }
    pub fn inv(self) -> R<Iv> {
        if self.has_zero() {
            return Err(Stop::Unknown);
        }
        Iv::widen(1.0 / self.hi, 1.0 / self.lo)
    }
    pub fn ln(self) -> R<Iv> {
        if self.hi <= 0.0 {
            return Err(Stop::Undef);
        }
        if self.lo <= 0.0 {
            return Err(Stop::Unknown);
        }
        Iv::widen(self.lo.ln() - EPS, self.hi.ln() + EPS)
    }
    pub fn exp(self) -> R<Iv> {
        if self.mag() > 250.0 {
            return Err(Stop::Unknown);
        }
        Iv::widen(self.lo.exp(), self.hi.exp())
    }
    pub fn powi(self, n: i64) -> R<Iv> {
        if n == 0 {
            return if self.has_zero() { Err(Stop::Unknown) } else { Ok(Iv::pt(1.0)) };
        }
        let b = if n < 0 { self.inv()? } else { self };
        let mut r = Iv::pt(1.0);
        let mut e = n.unsigned_abs();
        if e > 4096 {
            return Err(Stop::Unknown);
        }
        let mut sq = b;
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(sq)?;
            }
            e >>= 1;
            if e > 0 {
                sq = sq.mul(sq)?;
            }
        }
        Ok(r)
    }
    pub fn disjoint(self, o: Iv) -> bool {
        self.hi < o.lo || o.hi < self.lo
    }
}

pub struct IvEnv {
    pub v: HashMap<String, f64>,
    pub leaf_eps: f64,
}

/// all factors of the base (through products, quotients and powers) certainly positive
fn all_positive(t: &Term, env: &IvEnv) -> R<bool> {
    match t {
        Prod(v, _) => {
            for x in v {
                if !all_positive(x, env)? {
                    return Ok(false);
                }
            }
            Ok(true)
        }
        Div(a, b, _) => Ok(all_positive(a, env)? && all_positive(b, env)?),
        Pow(a, _, _) => all_positive(a, env),
        Neg(..) => Ok(false),
        _ => Ok(eval_i(t, env, true)?.lo > 0.0),
    }
}

pub fn eval_i(t: &Term, env: &IvEnv, strict: bool) -> R<Iv> {
    match t {
        Int(n) => {
            let x = n.to_f64().ok_or(Stop::Unknown)?;
            if n.bits() <= 53 { Ok(Iv::pt(x)) } else { Iv::leaf(x, 1e-15).map_err(|_| Stop::Unknown) }
        }
        Real(r) => Iv::leaf(*r, env.leaf_eps),
        Var(s) => env.v.get(s).map(|x| Iv::pt(*x)).ok_or(Stop::Unknown),
        Sum(v, _) => {
            let mut a = Iv::pt(0.0);
            for x in v {
                a = a.add(eval_i(x, env, strict)?)?;
            }
            Ok(a)
        }
        Prod(v, _) => {
            let mut a = Iv::pt(1.0);
            for x in v {
                a = a.mul(eval_i(x, env, strict)?)?;
            }
            Ok(a)
        }
        Neg(a, _) => Ok(eval_i(a, env, strict)?.neg()),
        Sub(a, b, _) => eval_i(a, env, strict)?.add(eval_i(b, env, strict)?.neg()),
        Div(a, b, _) => {
            let (x, y) = (eval_i(a, env, strict)?, eval_i(b, env, strict)?);
            if y.lo == 0.0 && y.hi == 0.0 {
                return Err(Stop::Undef);
            }
            x.mul(y.inv()?)
        }
        Pow(a, b, _) => {
            let typed = integer_typed(b, &|v| env.v.get(v).map_or(false, |x| x.fract() == 0.0));
            let x = eval_i(a, env, strict)?;
            let e = eval_i(b, env, strict)?;
            if x.lo == 0.0 && x.hi == 0.0 {
                if strict && b.lit_int().is_none() {
                    return Err(Stop::Undef);
                }
                return if e.lo > 0.0 { Ok(x) } else { Err(Stop::Undef) };
            }
            if strict && !typed && !all_positive(a, env)? {
                return Err(Stop::Undef);
            }
            // integer exponent (after rounding noise)
            let near = ((e.lo + e.hi) / 2.0).round();
            let is_int = (e.lo == e.hi && e.lo.fract() == 0.0) || (typed && e.lo <= near && near <= e.hi && e.width() < 1e-6);
            if is_int {
                if near.abs() > 4096.0 {
                    return if x.lo > 0.0 { x.ln()?.mul(e)?.exp() } else { Err(Stop::Unknown) };
                }
                return x.powi(near as i64);
            }
            if x.hi < 0.0 {
                // a non-integer power of a negative number
                return if e.lo == e.hi || e.lo.floor() == e.hi.floor() && e.lo.fract().abs() > 1e-9 {
                    Err(Stop::Undef)
                } else {
                    Err(Stop::Unknown)
                };
            }
            if x.lo <= 0.0 {
                return Err(Stop::Unknown);
            }
            x.ln()?.mul(e)?.exp()
        }
        Log(a, b, _) => {
            let (x, y) = (eval_i(a, env, strict)?, eval_i(b, env, strict)?);
            let (lx, ly) = (x.ln()?, y.ln()?);
            if ly.lo.abs() < 1e-3 || ly.has_zero() {
                return Err(Stop::Unknown);
            }
            lx.mul(ly.inv()?)
        }
        Sin(a) => {
            let x = eval_i(a, env, strict)?;
            let m = (x.lo + x.hi) / 2.0;
            let w = x.width() / 2.0 + EPS * (1.0 + m.abs());
            Ok(Iv { lo: m.sin() - w, hi: m.sin() + w })
        }
        Cos(a) => {
            let x = eval_i(a, env, strict)?;
            let m = (x.lo + x.hi) / 2.0;
            let w = x.width() / 2.0 + EPS * (1.0 + m.abs());
            Ok(Iv { lo: m.cos() - w, hi: m.cos() + w })
        }
    }
}
