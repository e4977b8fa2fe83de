//! Small deterministic PRNG (splitmix64); every random choice of the harness comes from here.
#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(x));
    }
    h
}
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed, 0x1234_5678_9abc_def1)) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize { if n <= 1 { 0 } else { (self.next() % n as u64) as usize } }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn coin(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
    }
    pub fn fork(&mut self) -> Rng { Rng(self.next()) }
}
