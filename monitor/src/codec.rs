//! Minimal SCALE codec: the wire format is the only thing shared with the contract.
use num_bigint::{BigInt, Sign};
pub type N = BigInt;
pub type Addr = [u8; 32];

#[derive(Default, Clone)]
pub struct E(pub Vec<u8>);
impl E {
    pub fn new() -> Self { E(Vec::new()) }
    pub fn call(method: &str) -> Self { let mut e = E::new(); e.str("Service"); e.str(method); e }
    pub fn raw(mut self, b: &[u8]) -> Self { self.0.extend_from_slice(b); self }
    pub fn compact(&mut self, n: usize) {
        if n < 64 { self.0.push((n as u8) << 2) }
        else if n < 1 << 14 { self.0.extend_from_slice(&(((n as u16) << 2) | 1).to_le_bytes()) }
        else { self.0.extend_from_slice(&(((n as u32) << 2) | 2).to_le_bytes()) }
    }
    pub fn str(&mut self, s: &str) { self.compact(s.len()); self.0.extend_from_slice(s.as_bytes()) }
    pub fn u8(mut self, v: u8) -> Self { self.0.push(v); self }
    pub fn bool(self, v: bool) -> Self { self.u8(v as u8) }
    pub fn u16(mut self, v: u16) -> Self { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn u32(mut self, v: u32) -> Self { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn i32(mut self, v: i32) -> Self { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn u64(mut self, v: u64) -> Self { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn u128(mut self, v: u128) -> Self { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn addr(mut self, a: &Addr) -> Self { self.0.extend_from_slice(a); self }
    pub fn u256(mut self, v: &N) -> Self {
        let (s, mut b) = v.to_bytes_le();
        assert!(s != Sign::Minus && b.len() <= 32, "u256 out of range {v}");
        b.resize(32, 0);
        self.0.extend_from_slice(&b);
        self
    }
    pub fn opt_u256(self, v: &Option<N>) -> Self { match v { None => self.u8(0), Some(x) => self.u8(1).u256(x) } }
    pub fn vec<T>(mut self, v: &[T], f: impl Fn(E, &T) -> E) -> Self { self.compact(v.len()); for x in v { self = f(self, x) } self }
}

pub struct D<'a>(pub &'a [u8]);
#[derive(Debug)]
pub struct Bad;
pub type R<T> = Result<T, Bad>;
impl<'a> D<'a> {
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.0.len() < n { return Err(Bad) }
        let (a, b) = self.0.split_at(n); self.0 = b; Ok(a)
    }
    pub fn compact(&mut self) -> R<usize> {
        let b = *self.0.first().ok_or(Bad)?;
        Ok(match b & 3 {
            0 => { self.take(1)?; (b >> 2) as usize }
            1 => u16::from_le_bytes(self.take(2)?.try_into().unwrap()) as usize >> 2,
            2 => u32::from_le_bytes(self.take(4)?.try_into().unwrap()) as usize >> 2,
            _ => return Err(Bad),
        })
    }
    pub fn str(&mut self) -> R<String> { let n = self.compact()?; String::from_utf8(self.take(n)?.to_vec()).map_err(|_| Bad) }
    pub fn u8(&mut self) -> R<u8> { Ok(self.take(1)?[0]) }
    pub fn bool(&mut self) -> R<bool> { match self.u8()? { 0 => Ok(false), 1 => Ok(true), _ => Err(Bad) } }
    pub fn u16(&mut self) -> R<u16> { Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap())) }
    pub fn u32(&mut self) -> R<u32> { Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap())) }
    pub fn i32(&mut self) -> R<i32> { Ok(i32::from_le_bytes(self.take(4)?.try_into().unwrap())) }
    pub fn u64(&mut self) -> R<u64> { Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap())) }
    pub fn u128(&mut self) -> R<u128> { Ok(u128::from_le_bytes(self.take(16)?.try_into().unwrap())) }
    pub fn addr(&mut self) -> R<Addr> { Ok(self.take(32)?.try_into().unwrap()) }
    pub fn u256(&mut self) -> R<N> { Ok(N::from_bytes_le(Sign::Plus, self.take(32)?)) }
    pub fn vec<T>(&mut self, f: impl Fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.compact()?; let mut v = Vec::with_capacity(n.min(4096)); for _ in 0..n { v.push(f(self)?) } Ok(v)
    }
    pub fn res<T>(&mut self, f: impl Fn(&mut Self) -> R<T>) -> R<Result<T, u8>> {
        match self.u8()? { 0 => Ok(Ok(f(self)?)), 1 => Ok(Err(self.u8()?)), _ => Err(Bad) }
    }
    pub fn end(&self) -> R<()> { if self.0.is_empty() { Ok(()) } else { Err(Bad) } }
}
