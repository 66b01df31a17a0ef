//! Small deterministic generator (SplitMix64 / xorshift), seeded from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = mix(seed ^ (b.len() as u64));
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        let v = u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
        h = mix(h ^ v);
    }
    let mut last = 0u64;
    for &x in it.remainder() {
        last = (last << 8) | x as u64;
    }
    mix(h ^ last)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (((self.next() as u128) * (n as u128)) >> 64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 32) as u8
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// log-uniform in lo..=hi (lo >= 1)
    pub fn log_range(&mut self, lo: usize, hi: usize) -> usize {
        let l = (lo.max(1) as f64).ln();
        let h = ((hi + 1) as f64).ln();
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        (((l + (h - l) * u).exp()) as usize).clamp(lo, hi)
    }
}
