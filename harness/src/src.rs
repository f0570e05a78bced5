//! The choice sequence behind every generated case. All randomness of a case is drawn here, so a
//! case is replayed from its recorded choices, and shrunk by shrinking them (0 is the simplest
//! choice everywhere).
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { state: seed, replay: None, pos: 0, rec: Vec::new() }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { state: 0, replay: Some(choices), pos: 0, rec: Vec::new() }
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.state)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0).min(n - 1);
                self.pos += 1;
                v
            }
            None => {
                let r = self.raw();
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.rec.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        hi << 32 | lo
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi, lo simplest
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo) as u64 + 1) as usize
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    pub fn pickc<T: Copy>(&mut self, xs: &[T]) -> T {
        *self.pick(xs)
    }
    /// index chosen by weight; earlier entries are simpler
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        w.len() - 1
    }
    /// lo..=hi on a fine grid; lo simplest
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        let v = self.below(1 << 24) as f64 / ((1u64 << 24) - 1) as f64;
        lo + (hi - lo) * v
    }
    /// log uniform in lo..=hi (both > 0)
    pub fn flog(&mut self, lo: f64, hi: f64) -> f64 {
        self.f(lo.ln(), hi.ln()).exp().clamp(lo, hi)
    }
    /// A signal sample: simple values often, else uniform in -1..=1.
    pub fn sample(&mut self) -> f64 {
        match self.below(8) {
            0 => 0.0,
            1 => 1.0,
            2 => -1.0,
            3 => 0.5,
            _ => self.f(-1.0, 1.0),
        }
    }
}
