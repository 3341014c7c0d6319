//! Small deterministic PRNG for generating programs.

#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0xA5A5_1234_5678_9ABC))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    /// True with probability `p` percent.
    pub fn pct(&mut self, p: u32) -> bool {
        self.below(100) < p as u64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Index by weights.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let sum: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut k = self.below(sum.max(1));
        for (i, w) in ws.iter().enumerate() {
            if k < *w as u64 {
                return i;
            }
            k -= *w as u64;
        }
        0
    }
}
