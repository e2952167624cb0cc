//! Exact integers, conversions from the code's types, operand generators.
pub use num_bigint::BigInt as N;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use crate::rng::Rng;
use decimal::*;

pub fn n<T: Into<N>>(v: T) -> N { v.into() }
pub fn p10(k: u32) -> N { N::from(10u8).pow(k) }
pub fn p2(k: u32) -> N { N::one() << k as usize }
pub fn fits(v: &N, bits: u32) -> bool { !v.is_negative() && v.bits() <= bits as u64 }
pub fn dn(a: &N, b: &N) -> N { a.div_floor(b) }
pub fn up(a: &N, b: &N) -> N { a.div_ceil(b) }
/// magnitude class used in signatures
pub fn mag(v: &N) -> u16 { (v.bits() / 8) as u16 }

/// An unsigned integer type of the code under test.
pub trait B: Copy { const BITS: u32; fn big(&self) -> N; fn of(v: &N) -> Self; }
macro_rules! wide { ($($t:ident $k:expr),*) => { $( impl B for $t {
    const BITS: u32 = $k * 64;
    fn big(&self) -> N { let mut r = N::zero(); for l in self.0.iter().rev() { r = (r << 64) + *l } r }
    fn of(v: &N) -> Self { assert!(fits(v, Self::BITS)); let d = v.iter_u64_digits(); let mut a = [0u64; $k]; for (i, x) in d.enumerate() { a[i] = x } $t(a) }
} )* } }
wide!(U128 2, U192 3, U256 4, U320 5, U384 6, U448 7, U512 8);
macro_rules! prim { ($($t:ty),*) => { $( impl B for $t {
    const BITS: u32 = <$t>::BITS;
    fn big(&self) -> N { N::from(*self) }
    fn of(v: &N) -> Self { <$t>::try_from(v.clone()).unwrap() }
} )* } }
prim!(u8, u16, u32, u64, u128);

/// Values below 2^bits: all magnitudes, limb borders, powers of ten, the ends of the range.
pub fn operand(r: &mut Rng, bits: u32) -> N {
    let max: N = p2(bits) - 1;
    let near = |r: &mut Rng, v: N| v + r.range(-2, 2);
    let v = match r.below(16) {
        0 => n(r.below(4)),
        1 => { let b = r.below(bits as u64) as u32; near(r, p2(b)) }
        2 => { let b = 64 * r.below(bits as u64 / 64 + 1) as u32; near(r, p2(b)) }
        3 | 4 => { let k = r.below(bits as u64 * 3 / 10 + 1) as u32; near(r, p10(k)) }
        5 => { let k = r.below(bits as u64 * 3 / 10 + 1) as u32; let m = r.log(20); near(r, p10(k) * m) }
        6 => &max - r.log(10),
        7 => max.clone(),
        8 => { let k = r.below(bits as u64 / 64 + 1); let mut v = N::zero(); for i in 0..(bits as u64 / 64).max(1) { v = (v << 64) + if i == k { r.next() } else if r.chance(1, 2) { u64::MAX } else { 0 } } v }
        _ => r.log(bits) - 1,
    };
    if v.is_negative() { N::zero() } else if v > max { max } else { v }
}
/// A second operand: independent, or aimed at a product of `cap` bits, or at exact divisibility.
pub fn partner(r: &mut Rng, a: &N, bits: u32, cap: u32, one: &N) -> N {
    let max: N = p2(bits) - 1;
    let v = match r.below(8) {
        0 | 1 => if a.is_zero() { operand(r, bits) } else { p2(cap) / a + r.range(-2, 2) },
        2 => if a.is_zero() { operand(r, bits) } else { p2(cap.saturating_sub(r.below(128) as u32)) * one / a + r.range(-2, 2) },
        3 => { let k = n(1 + r.below(1000)); a / k + r.range(-1, 1) }
        4 => if a.is_zero() { operand(r, bits) } else { let m = r.log(64); a * m + r.range(-1, 1) },
        5 => if a.is_zero() { one.clone() } else { let m = r.log(bits); one * m / a + r.range(-1, 1) },
        _ => operand(r, bits),
    };
    if v.is_negative() { N::zero() } else if v > max { operand(r, bits) } else { v }
}
