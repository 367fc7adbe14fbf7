//! The one source of choice: SplitMix64 from a seed.
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &c in b { h = (h ^ c as u64).wrapping_mul(0x100000001b3); }
    mix(h)
}
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed ^ 0x5157)) }
    pub fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); mix(self.0) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    /// Small numbers often, large ones sometimes.
    pub fn skewed(&mut self, n: usize) -> usize {
        if n <= 1 { return 0; }
        match self.below(4) {
            0 => self.below(n.min(4)),
            1 => self.below(n.min(24)),
            2 => n - 1 - self.below(n.min(6)),
            _ => self.below(n),
        }
    }
}
