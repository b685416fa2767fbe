//! SplitMix64: small, seedable, reproducible.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// uniform in 0..n, and now and then much more
    pub fn few(&mut self, n: usize) -> usize {
        if self.p(1, 250) {
            return self.log(n.max(2), 400);
        }
        self.below(n)
    }
    /// in lo..=hi, small ones as often as big ones
    pub fn log(&mut self, lo: usize, hi: usize) -> usize {
        let x = lo.max(1);
        let doublings = (hi / x).max(1).ilog2() as usize;
        let base = x << self.below(doublings + 1);
        (base + self.below(base)).min(hi)
    }
    /// true with probability num/den
    pub fn p(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ b.rotate_left(17));
    r.next() ^ r.next().rotate_left(23)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (h >> 29)
}
