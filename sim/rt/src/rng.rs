//! The one PRNG everything is derived from (splitmix64).
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

pub const fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub const fn new(seed: u64) -> Self {
        Rng(seed)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// Geometric-ish gap with the given mean, at least 1.
    pub fn gap(&mut self, mean: u64) -> u64 {
        // Exponential by inverse transform in fixed point: exact and portable.
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        1 + (-(1.0 - u).ln() * mean as f64) as u64
    }
}
