//! The harness' own formula language.  A `Term` is what the user writes; `build` performs it with the public API of
//! ncas; `reflect` turns an ncas expression back into a Term so that all oracles run on harness-owned data.
use ncas::base::{expression::Expression, symbol::Symbol};
use num::bigint::BigInt;

#[derive(Clone, Debug)]
pub enum Term {
    Int(BigInt),
    Real(f64),
    Var(String),
    /// operands, style (which API spelling builds it)
    Sum(Vec<Term>, u8),
    Prod(Vec<Term>, u8),
    Neg(Box<Term>, u8),
    Sub(Box<Term>, Box<Term>, u8),
    Div(Box<Term>, Box<Term>, u8),
    Pow(Box<Term>, Box<Term>, u8),
    Log(Box<Term>, Box<Term>, u8),
    Sin(Box<Term>),
    Cos(Box<Term>),
}
use Term::*;

pub fn int(n: i64) -> Term {
    Int(BigInt::from(n))
}
pub fn var(s: &str) -> Term {
    Var(s.to_string())
}
pub fn sum(v: Vec<Term>) -> Term {
    Sum(v, 0)
}
pub fn prod(v: Vec<Term>) -> Term {
    Prod(v, 0)
}
pub fn neg(a: Term) -> Term {
    Neg(Box::new(a), 0)
}
pub fn sub(a: Term, b: Term) -> Term {
    Sub(Box::new(a), Box::new(b), 0)
}
pub fn div(a: Term, b: Term) -> Term {
    Div(Box::new(a), Box::new(b), 0)
}
pub fn pow(a: Term, b: Term) -> Term {
    Pow(Box::new(a), Box::new(b), 0)
}
pub fn log(a: Term, b: Term) -> Term {
    Log(Box::new(a), Box::new(b), 0)
}

impl std::fmt::Display for Term {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        fn list(f: &mut std::fmt::Formatter, v: &[Term], op: &str) -> std::fmt::Result {
            write!(f, "(")?;
            for (i, t) in v.iter().enumerate() {
                if i > 0 {
                    write!(f, " {} ", op)?;
                }
                write!(f, "{}", t)?;
            }
            write!(f, ")")
        }
        match self {
            Int(n) => write!(f, "{}", n),
            Real(r) => write!(f, "{:?}", r),
            Var(s) => write!(f, "{}", s),
            Sum(v, _) => list(f, v, "+"),
            Prod(v, _) => list(f, v, "*"),
            Neg(a, _) => write!(f, "-({})", a),
            Sub(a, b, _) => write!(f, "({} - {})", a, b),
            Div(a, b, _) => write!(f, "({} / {})", a, b),
            Pow(a, b, _) => write!(f, "({} ^ {})", a, b),
            Log(a, b, _) => write!(f, "log({}, {})", a, b),
            Sin(a) => write!(f, "sin({})", a),
            Cos(a) => write!(f, "cos({})", a),
        }
    }
}

impl Term {
    pub fn children(&self) -> Vec<&Term> {
        match self {
            Int(_) | Real(_) | Var(_) => vec![],
            Sum(v, _) | Prod(v, _) => v.iter().collect(),
            Neg(a, _) | Sin(a) | Cos(a) => vec![a],
            Sub(a, b, _) | Div(a, b, _) | Pow(a, b, _) | Log(a, b, _) => vec![a, b],
        }
    }
    pub fn any(&self, f: &dyn Fn(&Term) -> bool) -> bool {
        f(self) || self.children().iter().any(|c| c.any(f))
    }
    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|c| c.size()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.children().iter().map(|c| c.depth()).max().unwrap_or(0)
    }
    pub fn has_real(&self) -> bool {
        self.any(&|t| matches!(t, Real(_)))
    }
    pub fn has_log(&self) -> bool {
        self.any(&|t| matches!(t, Log(..)))
    }
    pub fn vars(&self, out: &mut Vec<String>) {
        if let Var(s) = self {
            if !out.contains(s) {
                out.push(s.clone());
            }
        }
        for c in self.children() {
            c.vars(out);
        }
    }
    /// integer exponent, if the exponent is an integer literal
    pub fn lit_int(&self) -> Option<&BigInt> {
        match self {
            Int(n) => Some(n),
            _ => None,
        }
    }
}

pub fn integer_expr(n: &BigInt) -> Expression {
    use num::ToPrimitive;
    match n.to_isize() {
        Some(v) => Symbol::integer(v).expr(),
        // Symbol::data is public: the way for a user to write an integer beyond machine size
        None => (Symbol::<BigInt> { data: n.clone() }).expr(),
    }
}

/// Perform the formula with the public API.
/// Unwinds a case whose operands, as ncas folded them, ask for an integer too large to write down: outside every domain.
pub struct Oversize;
pub fn guard_power(base: &Expression, exponent: &Expression) {
    fn bits(e: &Expression) -> f64 {
        match e {
            Expression::Integer(n) => (n.data.bits() as f64 - 1.0).max(0.0),
            Expression::Multiplication(m) => m.items().iter().map(bits).sum(),
            Expression::Power(p) => bits(&p.argument()) * content(&p.modifier()),
            _ => 0.0,
        }
    }
    fn content(e: &Expression) -> f64 {
        match e {
            Expression::Integer(n) => num::ToPrimitive::to_f64(&n.data).map_or(f64::INFINITY, f64::abs).max(1.0),
            Expression::Multiplication(m) => m.items().iter().map(content).product(),
            _ => 1.0,
        }
    }
    let c = content(exponent);
    // (the limits of the domains are far below)
    if c > 1e5 && bits(base) * c > 4e6 {
        std::panic::panic_any(Oversize);
    }
}

pub fn build(t: &Term) -> Expression {
    match t {
        Int(n) => integer_expr(n),
        Real(r) => Symbol::real(*r).expr(),
        Var(s) => Symbol::variable(s).expr(),
        Sum(v, st) => {
            let es: Vec<Expression> = v.iter().map(build).collect();
            combine(es, *st, true)
        }
        Prod(v, st) => {
            let es: Vec<Expression> = v.iter().map(build).collect();
            combine(es, *st, false)
        }
        Neg(a, st) => {
            let a = build(a);
            if st % 2 == 0 { -a } else { -&a }
        }
        Sub(a, b, st) => {
            let (a, b) = (build(a), build(b));
            match st % 5 {
                0 => a - b,
                1 => a - &b,
                2 => &a - b,
                3 => &a - &b,
                _ => Expression::subtraction(a, b),
            }
        }
        Div(a, b, st) => {
            let (a, b) = (build(a), build(b));
            match st % 5 {
                0 => a / b,
                1 => a / &b,
                2 => &a / b,
                3 => &a / &b,
                _ => Expression::division(a, b),
            }
        }
        Pow(a, b, st) => {
            let (a, b) = (build(a), build(b));
            guard_power(&a, &b);
            if st % 2 == 0 { a.pow(b) } else { Expression::power(a, b) }
        }
        Log(a, b, st) => {
            let (a, b) = (build(a), build(b));
            if st % 2 == 0 { a.log(b) } else { Expression::logarithm(a, b) }
        }
        Sin(a) => Expression::Sine(ncas::base::operation::Operation::new(build(a))),
        Cos(a) => Expression::Cossine(ncas::base::operation::Operation::new(build(a))),
    }
}

pub fn add2(a: Expression, b: Expression, st: u8) -> Expression {
    match st % 4 {
        0 => a + b,
        1 => a + &b,
        2 => &a + b,
        _ => &a + &b,
    }
}
pub fn mul2(a: Expression, b: Expression, st: u8) -> Expression {
    match st % 4 {
        0 => a * b,
        1 => a * &b,
        2 => &a * b,
        _ => &a * &b,
    }
}

/// Combine operands: list constructor, left fold or right fold with one of the operator spellings.
pub fn combine(mut es: Vec<Expression>, st: u8, is_sum: bool) -> Expression {
    let list = |v| if is_sum { Expression::addition(v) } else { Expression::multiplication(v) };
    let two = |a, b, s| if is_sum { add2(a, b, s) } else { mul2(a, b, s) };
    if es.is_empty() || st % 3 == 0 {
        return list(es);
    }
    let s = st / 3;
    if st % 3 == 1 {
        let mut it = es.into_iter();
        let first = it.next().unwrap();
        it.fold(first, |a, b| two(a, b, s))
    } else {
        let last = es.pop().unwrap();
        es.into_iter().rev().fold(last, |acc, x| two(x, acc, s))
    }
}

/// Harness-owned copy of an ncas expression.
pub fn reflect(e: &Expression) -> Term {
    match e {
        Expression::Integer(n) => Int(n.data.clone()),
        Expression::Real(r) => Real(r.data),
        Expression::Variable(v) => Var(v.data.clone()),
        Expression::Addition(a) => Sum(a.items().iter().map(reflect).collect(), 0),
        Expression::Multiplication(m) => Prod(m.items().iter().map(reflect).collect(), 0),
        Expression::Power(p) => Pow(Box::new(reflect(&p.argument())), Box::new(reflect(&p.modifier())), 0),
        Expression::Logarithm(p) => Log(Box::new(reflect(&p.argument())), Box::new(reflect(&p.modifier())), 0),
        Expression::Sine(o) => Sin(Box::new(reflect(&o.argument()))),
        Expression::Cossine(o) => Cos(Box::new(reflect(&o.argument()))),
    }
}

/// Order-insensitive structural key of a reflected expression: two expressions have the same key iff they are the same
/// tree up to the order of sum and product operands (NaNs are one value, zeros are one value).
pub fn key(t: &Term) -> String {
    let mut s = String::new();
    key_into(t, &mut s);
    s
}
fn key_into(t: &Term, out: &mut String) {
    use std::fmt::Write;
    let many = |tag: &str, v: &[Term], out: &mut String| {
        let mut ks: Vec<String> = v.iter().map(key).collect();
        ks.sort();
        out.push_str(tag);
        out.push('[');
        for k in ks {
            out.push_str(&k);
            out.push(';');
        }
        out.push(']');
    };
    match t {
        Int(n) => write!(out, "i{}", n).unwrap(),
        Real(r) => {
            if r.is_nan() {
                out.push_str("rNaN")
            } else if *r == 0.0 {
                out.push_str("r0")
            } else {
                write!(out, "r{:x}", r.to_bits()).unwrap()
            }
        }
        Var(s) => write!(out, "v{}:{}", s.len(), s).unwrap(),
        Sum(v, _) => many("S", v, out),
        Prod(v, _) => many("P", v, out),
        Pow(a, b, _) => write!(out, "^({},{})", key(a), key(b)).unwrap(),
        Log(a, b, _) => write!(out, "L({},{})", key(a), key(b)).unwrap(),
        Sin(a) => write!(out, "s({})", key(a)).unwrap(),
        Cos(a) => write!(out, "c({})", key(a)).unwrap(),
        Neg(a, _) => write!(out, "n({})", key(a)).unwrap(),
        Sub(a, b, _) => write!(out, "-({},{})", key(a), key(b)).unwrap(),
        Div(a, b, _) => write!(out, "/({},{})", key(a), key(b)).unwrap(),
    }
}

pub fn hash64(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
