//! The single source of randomness: every choice of a run is a function of one 64-bit seed.

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5EED))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut x = self.0;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^ (x >> 31)
    }
    /// Uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((u128::from(self.next()) * n as u128) >> 64) as usize
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        lo + ((u128::from(self.next()) * (u128::from(hi - lo) + 1)) >> 64) as u64
    }
    pub fn chance(&mut self, percent: u32) -> bool {
        self.below(100) < percent as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// How a clock moves after each of its readings during one call
    pub fn ticks(&mut self) -> Vec<i64> {
        let n = self.below(5);
        (0..n)
            .map(|_| match self.below(12) {
                0..=4 => self.range(0, 2_000) as i64,
                5 => self.range(0, 2_000_000) as i64,
                6 => self.range(0, 1_000_000_000) as i64,
                7 => self.range(0, 3_000_000_000) as i64,
                8 => self.range(10_000_000_000, 90_000_000_000) as i64,
                9 => -(self.range(1, 2_000_000_000) as i64),
                10 => -(self.range(1, 4_000_000_000_000) as i64),
                _ => self.range(1, 8_000_000_000_000) as i64,
            })
            .collect()
    }
}
