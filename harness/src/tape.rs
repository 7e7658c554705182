//! Choice tape: every random decision of a generator is a byte read from a tape.  A case is fully determined by its
//! tape, so it can be replayed, mutated (coverage guidance) and shrunk (delete / zero bytes).

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
}

pub struct Tape {
    pub data: Vec<u8>,
    pub pos: usize,
    rng: Option<Rng>,
    limit: usize,
}

impl Tape {
    /// bytes beyond `data` come from the rng (and are recorded)
    pub fn random(data: Vec<u8>, seed: u64) -> Self {
        Tape { data, pos: 0, rng: Some(Rng::new(seed)), limit: 6000 }
    }
    /// bytes beyond `data` are zero
    pub fn replay(data: Vec<u8>) -> Self {
        Tape { data, pos: 0, rng: None, limit: 6000 }
    }
    pub fn byte(&mut self) -> u8 {
        if self.pos >= self.limit {
            return 0;
        }
        let b = if self.pos < self.data.len() {
            self.data[self.pos]
        } else if let Some(r) = self.rng.as_mut() {
            let b = r.next() as u8;
            self.data.push(b);
            b
        } else {
            0
        };
        self.pos += 1;
        b
    }
    pub fn used(&self) -> &[u8] {
        &self.data[..self.pos.min(self.data.len())]
    }
    pub fn u16(&mut self) -> u16 {
        (self.byte() as u16) << 8 | self.byte() as u16
    }
    pub fn u64(&mut self) -> u64 {
        let mut v = 0;
        for _ in 0..8 {
            v = v << 8 | self.byte() as u64;
        }
        v
    }
    /// uniform in 0..n (n <= 65536)
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else if n <= 256 {
            (self.byte() as usize) * n / 256
        } else {
            (self.u16() as usize) * n / 65536
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    /// true with probability num/256; an exhausted tape answers false
    pub fn chance(&mut self, num: u16) -> bool {
        (255 - self.byte() as u16) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // a zero byte leaves the element in place
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
