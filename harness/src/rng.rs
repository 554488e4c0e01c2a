//! Deterministic PRNG: every case is a pure function of (seed, property, workload, index).

#[derive(Clone)]
pub struct Rng { s: u64 }

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for &x in b { h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01B3); }
    mix(h ^ b.len() as u64)
}

pub fn hash_str(s: &str) -> u64 { hash_bytes(0xcbf2_9ce4_8422_2325, s.as_bytes()) }

impl Rng {
    pub fn new(seed: u64) -> Rng { Rng { s: mix(seed) } }
    pub fn u64(&mut self) -> u64 { self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15); mix(self.s) }
    pub fn u32(&mut self) -> u32 { (self.u64() >> 32) as u32 }
    pub fn u8(&mut self) -> u8 { (self.u64() >> 56) as u8 }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { return 0; }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
}
