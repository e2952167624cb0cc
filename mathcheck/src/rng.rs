#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn u128(&mut self) -> u128 { (self.next() as u128) << 64 | self.next() as u128 }
    /// magnitude-uniform value in [1, 2^bits)
    pub fn log(&mut self, bits: u32) -> num_bigint::BigInt {
        let k = self.below(bits as u64 + 1) as u32;
        let mut v = num_bigint::BigInt::from(0);
        let mut left = k;
        while left > 0 { let c = left.min(64); v = (v << c) + (self.next() >> (64 - c)); left -= c }
        v.max(num_bigint::BigInt::from(1))
    }
    /// index by weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let s: u32 = w.iter().sum();
        let mut k = self.below(s as u64) as u32;
        for (i, x) in w.iter().enumerate() { if k < *x { return i } k -= x }
        w.len() - 1
    }
}
