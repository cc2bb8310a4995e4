//! Deterministic random numbers (splitmix64), so that every run is reproducible from VERIF_SEED.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ stream.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x1234_5678_9ABC_DEF1);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    /// true with probability p percent
    pub fn pct(&mut self, p: usize) -> bool { self.below(100) < p }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let sum: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut x = self.next() % sum.max(1);
        for (i, w) in ws.iter().enumerate() { if x < *w as u64 { return i; } x -= *w as u64; }
        0
    }
}
