//! Workload generation: formulas drawn from a choice tape.
use crate::tape::Tape;
use crate::term::{Term::{self, *}, *};
use num::bigint::BigInt;
use num::{One, Signed, ToPrimitive, Zero};
use std::collections::HashMap;
use std::sync::OnceLock;

/// Numbers and strings that occur in the sources of the crate under test: a bug that needs a particular constant to
/// show almost always names it.
pub struct Dict {
    pub ints: Vec<BigInt>,
    pub floats: Vec<f64>,
    pub strings: Vec<String>,
}
static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut d = Dict { ints: vec![], floats: vec![], strings: vec![] };
        fn walk(p: &std::path::Path, d: &mut Dict) {
            let Ok(rd) = std::fs::read_dir(p) else { return };
            let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            es.sort();
            for e in es {
                if e.is_dir() {
                    walk(&e, d);
                } else if e.extension().map_or(false, |x| x == "rs") && !e.to_string_lossy().ends_with("_test.rs") {
                    if let Ok(s) = std::fs::read_to_string(&e) {
                        // inline test modules follow the code
                        let s = s.split("#[cfg(test)]").next().unwrap_or("").to_string();
                        scan(&s, d);
                    }
                }
            }
        }
        walk(std::path::Path::new("/repo/src"), &mut d);
        d.ints.sort();
        d.ints.dedup();
        d.floats.sort_by(|a, b| a.total_cmp(b));
        d.floats.dedup();
        d.strings.sort();
        d.strings.dedup();
        d
    })
}
fn scan(src: &str, d: &mut Dict) {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let mut j = i;
            let mut s = String::new();
            while j < c.len() && (c[j].is_ascii_alphanumeric() || c[j] == '_' || (c[j] == '.' && j + 1 < c.len() && c[j + 1].is_ascii_digit())) {
                if c[j] != '_' {
                    s.push(c[j]);
                }
                j += 1;
            }
            let t = s.trim_end_matches(|x: char| x.is_ascii_alphabetic()).to_string();
            if let Some(h) = s.strip_prefix("0x") {
                if let Some(n) = BigInt::parse_bytes(h.as_bytes(), 16) {
                    d.ints.push(n);
                }
            } else if let Some(n) = BigInt::parse_bytes(t.as_bytes(), 10) {
                d.ints.push(n);
            } else if let Ok(f) = s.parse::<f64>() {
                if f.is_finite() && f != 0.0 {
                    d.floats.push(f.abs());
                }
            }
            // suffixed like 10usize, 2f64
            i = j;
        } else if c[i] == '"' {
            let mut j = i + 1;
            let mut s = String::new();
            while j < c.len() && c[j] != '"' {
                if c[j] == '\\' {
                    j += 1;
                }
                if j < c.len() {
                    s.push(c[j]);
                }
                j += 1;
            }
            if !s.is_empty() && s.len() < 40 && s.chars().all(|x| x.is_alphanumeric() || x == '_') {
                d.strings.push(s);
            }
            i = j + 1;
        } else {
            i += 1;
        }
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub real: bool,
    pub log: bool,
    pub div: bool,
    /// negative literal exponents
    pub negpow: bool,
    /// symbolic exponents
    pub sympow: bool,
    /// rational / real exponents (positive bases)
    pub fracpow: bool,
    pub trig: bool,
    /// only positive leaves
    pub positive: bool,
    pub big: bool,
    pub depth: usize,
    pub nvars: usize,
    pub max_cost: f64,
}
impl Cfg {
    pub fn exact() -> Cfg {
        Cfg { real: false, log: false, div: true, negpow: true, sympow: true, fracpow: false, trig: true, positive: false, big: true, depth: 4, nvars: 3, max_cost: 400.0 }
    }
    pub fn poly() -> Cfg {
        Cfg { div: false, negpow: false, sympow: false, trig: false, ..Cfg::exact() }
    }
    pub fn realmix() -> Cfg {
        Cfg { real: true, log: true, fracpow: true, positive: true, ..Cfg::exact() }
    }
}

pub const BASE_VARS: [&str; 4] = ["a", "b", "c", "d"];
pub const EXP_VARS: [&str; 3] = ["m", "n", "k"];

pub fn gen_int(t: &mut Tape, big: bool) -> BigInt {
    let k = t.byte();
    let n: BigInt = match k {
        0..=119 => BigInt::from(t.range(0, 4)),
        120..=159 => BigInt::from(t.range(0, 12)),
        160..=184 => BigInt::from(t.range(0, 120)),
        185..=209 => {
            let d = &dict().ints;
            if d.is_empty() {
                BigInt::one()
            } else {
                let x = t.pick(d).clone();
                x + t.range(-1, 1)
            }
        }
        210..=221 => BigInt::from(t.u16()),
        _ if !big => BigInt::from(t.range(0, 1000)),
        222..=229 => BigInt::from(t.u64() as i64),
        230..=239 => {
            // powers of two and ten and their neighbours
            // (some beyond the range of f64)
            let e = if t.chance(20) { t.range(1015, 1080) } else { t.range(1, 130) } as usize;
            num::pow(BigInt::from(2), e) + t.range(-1, 1)
        }
        240..=245 => {
            let e = if t.chance(20) { t.range(300, 325) } else { t.range(1, 45) } as usize;
            num::pow(BigInt::from(10), e) + t.range(-1, 1)
        }
        246..=250 => {
            let b: &i64 = t.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1 << 53, (1 << 53) + 1]);
            BigInt::from(*b) + t.range(-1, 1)
        }
        _ => {
            let mut x = BigInt::from(t.u64());
            for _ in 0..t.range(0, 3) {
                x = x * BigInt::from(u64::MAX) + t.u64();
            }
            x
        }
    };
    if t.chance(90) { -n } else { n }
}

pub fn gen_real(t: &mut Tape, positive: bool) -> f64 {
    let k = t.byte();
    let x = match k {
        0..=79 => (t.range(0, 16) as f64) * 0.25 + 0.25,
        80..=119 => t.range(1, 9) as f64,
        120..=149 => {
            let d = &dict().floats;
            if d.is_empty() { 0.5 } else { *t.pick(d) }
        }
        150..=189 => (t.range(1, 999) as f64) / 100.0,
        190..=215 => *t.pick(&[0.1, 0.2, 0.3, 1.5, 2.5, 1e3, 1e-3, 0.999, 1.001, 3.0000001]),
        // other scales
        216..=223 => {
            let m = t.range(1, 40) as f64;
            m * 10f64.powi(t.range(-40, 40) as i32)
        }
        _ => 0.01 + (t.u16() as f64) / 701.0,
    };
    if !positive && t.chance(90) { -x } else { x }
}

/// reals whose sums and products in small numbers are exact in f64
pub fn gen_dyadic(t: &mut Tape, positive: bool) -> f64 {
    let x = (t.range(1, 24) as f64) * *t.pick(&[0.25, 0.5, 1.0, 2.0]);
    if !positive && t.chance(90) { -x } else { x }
}

pub fn gen_var(t: &mut Tape, c: &Cfg) -> Term {
    let k = t.below(100);
    if c.sympow && k >= 88 {
        return var(t.pick(&EXP_VARS));
    }
    if k == 80 && !dict().strings.is_empty() {
        return var(&t.pick(&dict().strings).clone());
    }
    if k == 81 {
        return var(t.pick(&["aa", "B", "x1", "ab", "alpha", "z_9", "A", "e", "pi", "i"]));
    }
    var(BASE_VARS[t.below(c.nvars.min(4))])
}

pub struct Gen<'a> {
    pub t: &'a mut Tape,
    pub c: Cfg,
    pub pool: Vec<Term>,
    pub budget: i32,
}

impl<'a> Gen<'a> {
    pub fn new(t: &'a mut Tape, c: Cfg) -> Self {
        let budget = 8 + t.below(40) as i32;
        Gen { t, c, pool: vec![], budget }
    }
    pub fn leaf(&mut self) -> Term {
        let k = self.t.below(100);
        if k < 55 {
            gen_var(self.t, &self.c)
        } else if self.c.real && k >= 80 {
            Real(gen_real(self.t, self.c.positive))
        } else {
            let n = gen_int(self.t, self.c.big);
            if self.c.positive {
                let n = n.abs();
                Int(if n.is_zero() { BigInt::one() } else { n })
            } else {
                Int(n)
            }
        }
    }
    pub fn style(&mut self) -> u8 {
        self.t.byte()
    }
    /// a sub-formula seen before, possibly negated / inverted / scaled / raised: like terms need coincidences
    fn reuse(&mut self, depth: usize) -> Term {
        let x = self.t.pick(&self.pool).clone();
        let s = self.style();
        match self.t.below(10) {
            0..=3 => x,
            4 if !self.c.positive => Neg(Box::new(x), s),
            5 => {
                let n = self.small_int();
                Prod(vec![Int(n), x], s)
            }
            6 if self.c.div => Div(Box::new(int(1)), Box::new(x), s),
            7 if depth > 0 => {
                let e = self.exponent(depth - 1);
                Pow(Box::new(x), Box::new(e), s)
            }
            8 => {
                let y = self.leaf();
                Prod(vec![x, y], s)
            }
            9 => {
                let y = self.leaf();
                Sum(vec![x, y], s)
            }
            _ => x,
        }
    }
    pub fn small_int(&mut self) -> BigInt {
        let n = self.t.range(0, 6) + if self.c.positive { 1 } else { 0 };
        BigInt::from(if !self.c.positive && self.t.chance(90) { -n } else { n })
    }
    /// exponents: mostly small integers; integer-typed symbolic; fractions in positive mode
    pub fn exponent(&mut self, depth: usize) -> Term {
        let k = self.t.below(100);
        if k < 55 || !(self.c.sympow || self.c.fracpow) {
            let n = match self.t.below(16) {
                0..=7 => 2,
                8..=10 => 3,
                11 => 1,
                12 => 0,
                13 => self.t.range(4, 7),
                _ => self.t.range(2, 5),
            };
            let n = if self.c.negpow && self.t.chance(80) { -n } else { n };
            return int(n);
        }
        if k < 85 && self.c.sympow {
            return self.exp_poly(depth);
        }
        if self.c.fracpow {
            return match self.t.below(5) {
                0 => Div(Box::new(int(self.t.range(1, 5))), Box::new(int(self.t.range(1, 5))), 0),
                1 => Real(gen_real(self.t, false)),
                2 => Prod(vec![Real(gen_real(self.t, false)), var(self.t.pick(&EXP_VARS))], self.style()),
                3 => Div(Box::new(var(self.t.pick(&EXP_VARS))), Box::new(int(self.t.range(1, 4))), 0),
                _ => self.term(depth),
            };
        }
        self.exp_poly(depth)
    }
    /// an integer-typed exponent: polynomial with small coefficients in the exponent variables
    pub fn exp_poly(&mut self, depth: usize) -> Term {
        let s = self.style();
        let v = var(self.t.pick(&EXP_VARS));
        match self.t.below(10) {
            0 | 1 => v,
            2 => Neg(Box::new(v), s),
            3 | 4 => Prod(vec![Int(BigInt::from(self.t.range(-3, 4))), v], s),
            5 => Sum(vec![v, int(self.t.range(-3, 3))], s),
            6 => Sub(Box::new(v), Box::new(int(self.t.range(-3, 3))), s),
            7 => Prod(vec![v, var(self.t.pick(&EXP_VARS)), int(self.t.range(-3, 3))], s),
            8 if depth > 0 => {
                let a = self.exp_poly(depth - 1);
                let b = self.exp_poly(depth - 1);
                Sum(vec![a, b], s)
            }
            9 if depth > 0 => {
                let a = self.exp_poly(depth - 1);
                let b = self.exp_poly(depth - 1);
                Prod(vec![a, b], s)
            }
            _ => v,
        }
    }
    pub fn term(&mut self, depth: usize) -> Term {
        self.budget -= 1;
        if depth == 0 || self.budget <= 0 {
            if !self.pool.is_empty() && self.t.chance(40) {
                return self.t.pick(&self.pool).clone();
            }
            return self.leaf();
        }
        let k = self.t.below(100);
        let s = self.style();
        let r = match k {
            0..=11 => return self.leaf(),
            12..=22 if !self.pool.is_empty() => return self.reuse(depth),
            12..=40 => {
                let n = self.arity();
                Sum((0..n).map(|_| self.term(depth - 1)).collect(), s)
            }
            41..=64 => {
                let n = self.arity();
                Prod((0..n).map(|_| self.term(depth - 1)).collect(), s)
            }
            65..=71 if !self.c.positive => Sub(Box::new(self.term(depth - 1)), Box::new(self.term(depth - 1)), s),
            72..=74 if !self.c.positive => Neg(Box::new(self.term(depth - 1)), s),
            75..=83 if self.c.div => Div(Box::new(self.term(depth - 1)), Box::new(self.term(depth - 1)), s),
            // huge exponents: nothing folds over a variable
            84 if self.t.chance(60) => {
                let b = var(BASE_VARS[self.t.below(self.c.nvars.min(4))]);
                let e = if self.c.sympow { gen_int(self.t, self.c.big) } else { BigInt::from(self.t.range(2, 70)) };
                let e = if self.c.negpow { e } else { e.abs() + 1 };
                Pow(Box::new(b), Box::new(Int(e)), s)
            }
            84..=94 => {
                let b = self.term(depth - 1);
                let e = self.exponent(depth - 1);
                Pow(Box::new(b), Box::new(e), s)
            }
            95..=97 if self.c.log => {
                let b = self.term(depth - 1);
                let a = match self.t.below(8) {
                    0 | 1 => Pow(Box::new(b.clone()), Box::new(self.exponent(depth - 1)), s),
                    2 => {
                        let x = self.term(depth - 1);
                        let e = self.exponent(0);
                        Prod(vec![x, b.clone(), if s % 2 == 0 { b.clone() } else { Pow(Box::new(b.clone()), Box::new(e), s) }], s)
                    }
                    _ => self.term(depth - 1),
                };
                let l = Log(Box::new(a), Box::new(b.clone()), s);
                if self.t.chance(80) {
                    let e = match self.t.below(8) {
                        0 => {
                            let y = self.term(depth - 1);
                            Prod(vec![l, y], s)
                        }
                        1 => {
                            let y = self.term(depth - 1);
                            Prod(vec![l, Log(Box::new(y), Box::new(b.clone()), s)], s)
                        }
                        2 => {
                            let y = self.term(depth - 1);
                            Sum(vec![l, y], s)
                        }
                        _ => l,
                    };
                    Pow(Box::new(b), Box::new(e), s)
                } else {
                    l
                }
            }
            98 if self.c.trig => {
                let x = self.term(depth - 1);
                if s % 2 == 0 { Sin(Box::new(x)) } else { Cos(Box::new(x)) }
            }
            _ => {
                let n = self.arity();
                Sum((0..n).map(|_| self.term(depth - 1)).collect(), s)
            }
        };
        if self.pool.len() < 40 {
            self.pool.push(r.clone());
        }
        r
    }
    fn arity(&mut self) -> usize {
        match self.t.below(24) {
            0..=11 => 2,
            12..=17 => 3,
            18..=20 => 4,
            21 => 5,
            22 => 6,
            _ => self.t.range(1, 12) as usize,
        }
    }
    pub fn top(&mut self) -> Term {
        match self.t.below(64) {
            0..=1 => self.wide(),
            2..=3 => self.deep(),
            4..=12 => self.motif(),
            _ => {
                let d = 1 + self.t.below(self.c.depth);
                self.term(d)
            }
        }
    }
    /// products, sums, powers and logarithms made of a few bases and a few exponents over and over
    pub fn motif(&mut self) -> Term {
        let c = self.c.clone();
        let n = 1 + self.t.below(4);
        let mut bases: Vec<Term> = (0..n)
            .map(|_| match self.t.below(12) {
                7 | 8 if c.log => Log(Box::new(gen_var(self.t, &c)), Box::new(gen_var(self.t, &c)), 0),
                9 if c.trig => Sin(Box::new(gen_var(self.t, &c))),
                10 => Sum(vec![gen_var(self.t, &c), gen_var(self.t, &c)], 0),
                11 => Int(self.small_int().abs() + 1),
                _ => gen_var(self.t, &c),
            })
            .collect();
        // sums and products that are opposite to each other
        if !c.positive && self.t.chance(24) {
            let (u, v) = (bases[0].clone(), gen_var(self.t, &c));
            bases.push(Sub(Box::new(u.clone()), Box::new(v.clone()), 0));
            bases.push(if self.t.chance(200) { Sub(Box::new(v), Box::new(u), 0) } else { Neg(Box::new(Sum(vec![u, v], 0)), 0) });
        }
        let n = 1 + self.t.below(3);
        let exps: Vec<Term> = (0..n)
            .map(|_| {
                if !c.sympow {
                    return self.exponent(0);
                }
                let (v, w) = (var(self.t.pick(&EXP_VARS)), var(self.t.pick(&EXP_VARS)));
                match self.t.below(8) {
                    0 | 1 => v,
                    2 => Prod(vec![v, w], 0),
                    3 => Prod(vec![int(2 + self.t.below(3) as i64), v, w], 0),
                    4 => Prod(vec![int(self.t.range(-2, 4)), v], 0),
                    5 => Sum(vec![v, int(1)], 0),
                    6 => Sum(vec![v, w], 0),
                    _ => self.exponent(0),
                }
            })
            .collect();
        let n = 2 + self.t.below(5);
        let fs: Vec<Term> = (0..n).map(|_| self.motif_atom(&bases, &exps)).collect();
        let s = self.style();
        match self.t.below(10) {
            0..=3 => Prod(fs, s),
            4 => Sum(fs, s),
            5 | 6 => {
                let m = 2 + self.t.below(4);
                let parts = (0..m)
                    .map(|i| {
                        let k = self.t.below(fs.len());
                        let mut f = fs[k..].to_vec();
                        if self.t.chance(90) {
                            f.push(Int(self.small_int() + 1));
                        }
                        if i == 0 && f.len() > 1 || f.len() > 1 && self.t.chance(200) { Prod(f, s) } else { f.pop().unwrap() }
                    })
                    .collect();
                Sum(parts, s)
            }
            7 if c.log => {
                let b = self.motif_atom(&bases, &exps);
                Log(Box::new(if fs.len() > 3 { fs[0].clone() } else { Prod(fs, s) }), Box::new(b), s)
            }
            8 => {
                let e = self.t.pick(&exps).clone();
                Pow(Box::new(Prod(fs, s)), Box::new(e), s)
            }
            9 if c.div => {
                let (a, b) = fs.split_at(1);
                Div(Box::new(a[0].clone()), Box::new(if b.len() == 1 { b[0].clone() } else { Prod(b.to_vec(), s) }), s)
            }
            _ => Prod(fs, s),
        }
    }
    fn motif_atom(&mut self, bases: &[Term], exps: &[Term]) -> Term {
        let (b, e) = (self.t.pick(bases).clone(), self.t.pick(exps).clone());
        let raised = |b: Term, e: &Term| Box::new(Pow(Box::new(b), Box::new(e.clone()), 0));
        match self.t.below(10) {
            0..=2 => b,
            7 if self.c.log => {
                let b2 = self.t.pick(bases).clone();
                Log(raised(b, &e), raised(b2, &e), 0)
            }
            8 => {
                let b2 = self.t.pick(bases).clone();
                *raised(Prod(vec![b, b2], 0), &e)
            }
            9 if self.c.div => Div(Box::new(int(1)), raised(b, &e), 0),
            _ => *raised(b, &e),
        }
    }
    /// many operands
    fn wide(&mut self) -> Term {
        let n = wide_len(self.t);
        let is_sum = self.t.chance(150);
        let fresh = self.t.chance(100);
        let mut v = vec![];
        for i in 0..n {
            self.budget = 2;
            v.push(match self.t.below(12) {
                0..=1 if fresh => var(&format!("w{}", i)),
                0..=6 => self.leaf(),
                7 | 8 => Prod(vec![self.leaf(), self.leaf()], 0),
                9 => {
                    let n = BigInt::from(self.t.range(1, 5));
                    Prod(vec![Int(n), self.leaf()], 0)
                }
                10 => {
                    let b = gen_var(self.t, &self.c);
                    let e = BigInt::from(self.t.range(1, 9));
                    Pow(Box::new(b), Box::new(Int(e)), 0)
                }
                _ => self.term(1),
            });
        }
        let s = self.style();
        let w = if is_sum { Sum(v, s) } else { Prod(v, s) };
        match self.t.below(4) {
            0 => {
                self.budget = 6;
                let x = self.term(1);
                if self.t.chance(128) { Sum(vec![w, x], s) } else { Prod(vec![w, x], s) }
            }
            _ => w,
        }
    }
    /// a long chain of operators
    fn deep(&mut self) -> Term {
        let n = self.t.range(6, 34);
        let kinds = 1 + self.t.below(10);
        let mut x = self.leaf();
        for _ in 0..n {
            let s = self.style();
            self.budget = 2;
            let l = self.leaf();
            let p = self.c.positive;
            x = match self.t.below(10) % kinds {
                0 => Sum(vec![x, l], s),
                1 => Prod(vec![l, x], s),
                2 if !p => Neg(Box::new(x), s),
                3 if !p => Sub(Box::new(l), Box::new(x), s),
                4 if self.c.div => Div(Box::new(l), Box::new(x), s),
                5 if self.c.trig => Sin(Box::new(x)),
                6 if self.c.sympow => Pow(Box::new(x), Box::new(var(self.t.pick(&EXP_VARS))), s),
                7 if self.c.log => Log(Box::new(x), Box::new(l), s),
                8 if self.c.trig => Cos(Box::new(x)),
                9 if self.c.log => Pow(Box::new(l), Box::new(x), s),
                _ => Sum(vec![l, x], s),
            };
        }
        x
    }
}

/// operand counts: around the constants of the sources, otherwise up to about 70
pub fn wide_len(t: &mut Tape) -> usize {
    let small: Vec<i64> = dict().ints.iter().filter_map(|n| n.to_i64()).filter(|n| (6..=128).contains(n)).collect();
    if !small.is_empty() && t.chance(128) {
        (*t.pick(&small) + t.range(-1, 1)) as usize
    } else {
        t.range(7, 72) as usize
    }
}

// ---------------------------------------------------------------- size estimates (what "small enough to write down" means)

/// bound on the integer multiplier an exponent contributes after folding
pub fn content(e: &Term) -> f64 {
    match e {
        Int(n) => n.abs().to_f64().unwrap_or(f64::INFINITY).max(1.0),
        Real(r) => r.abs().max(1.0 / r.abs().max(1e-300)),
        Var(_) => 1.0,
        Sum(v, _) => v.iter().map(content).sum::<f64>().max(1.0),
        Prod(v, _) => v.iter().map(content).product::<f64>().max(1.0),
        Neg(a, _) => content(a),
        Sub(a, b, _) => content(a) + content(b),
        // 1/(1/n) is n
        Div(a, b, _) => content(a) * content(b),
        // b^log(n, b) is n, log(b^n, b) is n
        Pow(a, b, _) => {
            let n = content(b);
            content(a).powf(n).max(n)
        }
        // log(b*b*b, b) is 3
        Log(a, b, _) => content(a).max(content(b)).max(degree(a)),
        Sin(_) | Cos(_) => 1.0,
    }
}
/// bound on the power of one factor in the product a formula folds to
fn degree(e: &Term) -> f64 {
    match e {
        Prod(v, _) => v.iter().map(degree).sum::<f64>().max(1.0),
        Sum(v, _) => v.iter().map(degree).fold(1.0, f64::max),
        Neg(a, _) => degree(a),
        Sub(a, b, _) | Log(a, b, _) => degree(a).max(degree(b)),
        Div(a, b, _) => degree(a) + degree(b),
        Pow(a, b, _) => degree(a).max(degree(b)) * content(b),
        _ => 1.0,
    }
}
/// bound on the number of addends after expansion
pub fn terms(t: &Term) -> f64 {
    match t {
        Int(_) | Real(_) | Var(_) => 1.0,
        Sum(v, _) => v.iter().map(terms).sum(),
        Prod(v, _) => v.iter().map(terms).product(),
        Neg(a, _) => terms(a),
        Sub(a, b, _) => terms(a) + terms(b),
        Div(a, b, _) => terms(a) * terms(b),
        Pow(a, b, _) => {
            // b^log(x, b) is x
            // (no less than terms(x))
            let x = terms(b);
            terms(a).powf(content(b)).max(x)
        }
        Log(a, b, _) => terms(a).max(terms(b)).max(content(a)),
        Sin(a) | Cos(a) => terms(a),
    }
}
pub fn cost(t: &Term) -> f64 {
    terms(t) + t.children().iter().map(|c| cost(c)).sum::<f64>()
}
/// bound on the bit size of integers after folding
pub fn bits(t: &Term) -> f64 {
    match t {
        Int(n) if n.abs() <= BigInt::one() => 0.0,
        Int(n) => n.bits() as f64 + 1.0,
        Real(r) => r.abs().log2().abs().min(2000.0) + 1.0,
        Var(_) => 0.0,
        Sum(v, _) => v.iter().map(bits).fold(0.0, f64::max) + v.len() as f64,
        Prod(v, _) => v.iter().map(bits).sum(),
        Neg(a, _) | Sin(a) | Cos(a) => bits(a),
        Sub(a, b, _) => bits(a).max(bits(b)) + 1.0,
        Div(a, b, _) => bits(a) + bits(b),
        Pow(a, b, _) => {
            let x = bits(a);
            bits(b) + if x == 0.0 { 0.0 } else { x * content(b) }
        }
        Log(a, b, _) => bits(a) + bits(b) + content(a).max(degree(a)).log2().max(0.0),
    }
}
/// written-out length of a term of the expansion
fn factors(t: &Term) -> f64 {
    match t {
        Prod(v, _) => v.iter().map(factors).sum(),
        Sum(v, _) => v.iter().map(factors).fold(1.0, f64::max),
        Sub(a, b, _) | Log(a, b, _) => factors(a).max(factors(b)),
        Div(a, b, _) => factors(a) + factors(b),
        Neg(a, _) => factors(a) + 1.0,
        Pow(a, b, _) => factors(a) * if terms(a) > 1.0 { content(b) } else { 1.0 } + factors(b),
        _ => 1.0,
    }
}
/// bound on the size of all intermediate results of an expansion
pub fn work(t: &Term) -> f64 {
    let here = match t {
        Sum(..) => 0.0,
        _ => terms(t) * factors(t),
    };
    here + t.children().iter().map(|c| work(c)).sum::<f64>()
}
/// f64 arithmetic on the way to the result stays far from overflow and underflow
pub fn in_range(t: &Term) -> bool {
    !t.has_real() || bits(t) <= 350.0
}
pub fn within(t: &Term, c: &Cfg) -> bool {
    in_range(t) && work(t) <= 8000.0 && bits(t) <= 6000.0 && cost(t) <= c.max_cost
}

// ---------------------------------------------------------------- assignments

pub fn q(n: i64) -> num::BigRational {
    num::BigRational::from_integer(BigInt::from(n))
}

pub fn field_env(t: &mut Tape, seed: u64, names: &[String]) -> crate::sem::FieldEnv {
    let mut r = crate::tape::Rng::new(seed);
    let mut v = HashMap::new();
    let mut qm = HashMap::new();
    for n in names {
        if EXP_VARS.contains(&n.as_str()) {
            let x = t.range(-4, 6);
            let x = if x == 0 { 3 } else { x };
            qm.insert(n.clone(), q(x));
            v.insert(n.clone(), if x < 0 { crate::sem::P - (-x) as u64 } else { x as u64 });
        } else {
            v.insert(n.clone(), r.next() % crate::sem::P);
        }
    }
    crate::sem::FieldEnv { v, q: qm }
}
pub fn iv_env(t: &mut Tape, seed: u64, names: &[String], positive: bool, leaf_eps: f64) -> crate::sem::IvEnv {
    let mut r = crate::tape::Rng::new(seed ^ 0x5555);
    let mut v = HashMap::new();
    for n in names {
        let x = if EXP_VARS.contains(&n.as_str()) {
            let x = t.range(-3, 4);
            (if x == 0 { 2 } else { x }) as f64
        } else {
            0.3 + (r.next() % 100_000) as f64 / 40_000.0
        };
        let x = if positive { x.abs() } else if !EXP_VARS.contains(&n.as_str()) && r.next() % 3 == 0 { -x } else { x };
        v.insert(n.clone(), x);
    }
    crate::sem::IvEnv { v, leaf_eps }
}
