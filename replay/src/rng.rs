//! Deterministic random source (splitmix64).
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &'a [&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
    pub fn opt<T>(&mut self, n: usize, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
        if self.one_in(n) { Some(f(self)) } else { None }
    }
    pub fn many<T>(&mut self, max: usize, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
        let n = self.below(max + 1);
        (0..n).map(|_| f(self)).collect()
    }
}
