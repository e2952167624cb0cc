//! Exact amounts of the concentrated-liquidity curve (prices carry 24 decimals, liquidity 5).
use crate::api::*;
use crate::codec::N;
use num_integer::Integer;
use num_traits::Zero;
use std::collections::BTreeMap;

pub fn n<T: Into<N>>(v: T) -> N { v.into() }
pub fn p10(k: u32) -> N { N::from(10u8).pow(k) }
pub const MAX_TICK: i32 = 221_818;
pub const MAX_PRICE: u128 = 65535383934512647000000000000;
pub const MIN_PRICE: u128 = 15258932000000000000;

/// A non-negative rational.
#[derive(Clone, Debug)]
pub struct Q { pub a: N, pub b: N }
impl Q {
    pub fn zero() -> Q { Q { a: N::zero(), b: n(1) } }
    pub fn floor(&self) -> N { self.a.div_floor(&self.b) }
    pub fn ceil(&self) -> N { self.a.div_ceil(&self.b) }
    /// ceil(self - 1e-14): the contract's products keep 24 decimals, so quotients may be short by up to 4e-15
    pub fn ceil_eps(&self) -> N {
        let e = p10(14);
        let v = (&self.a * &e - &self.b).div_ceil(&(&self.b * &e));
        if v < N::zero() { N::zero() } else { v }
    }
    pub fn mul(&self, num: &N, den: &N) -> Q { Q { a: &self.a * num, b: &self.b * den } }
    pub fn add(&self, o: &Q) -> Q { if o.a.is_zero() { return self.clone() } if self.a.is_zero() { return o.clone() } Q { a: &self.a * &o.b + &o.a * &self.b, b: &self.b * &o.b } }
}
/// token x between two prices
pub fn x_between(l: &N, p: u128, q: u128) -> Q { let d = p.abs_diff(q); Q { a: l * d * p10(19), b: n(p) * q } }
/// token y between two prices
pub fn y_between(l: &N, p: u128, q: u128) -> Q { let d = p.abs_diff(q); Q { a: l * d, b: p10(29) } }
/// absolute slack for products of prices kept with 24 decimals, in whole tokens (rounded up)
pub fn x_slack(l: &N, p: u128, q: u128) -> N { let x = x_between(l, p, q); (x.a * p10(24)).div_ceil(&(x.b * n(p) * q)) }

/// the same for a walk in several steps: every step is short by its own share, largest at the lowest price
pub fn x_slack_path(l: &N, p: u128, q: u128) -> N { let x = x_between(l, p, q); let m = n(p.min(q)); (x.a * p10(24)).div_ceil(&(x.b * &m * &m)) }

pub fn net(t: &Tick) -> N { if t.sign { t.change.clone() } else { -t.change.clone() } }

#[derive(Clone, Debug)]
pub struct Seg { pub p: u128, pub q: u128, pub l: N, pub tick: Option<i32>, pub reference: i32 }
/// The pieces of constant liquidity between the pool's price and `target`, in walking order, using the
/// initialised ticks. `tick` is the initialised tick that ends the piece; `reference` lies inside it.
pub fn path(pool: &Pool, spacing: u16, ticks: &BTreeMap<i32, Tick>, target: u128, down: bool) -> Vec<Seg> {
    let mut v = vec![];
    let mut l = pool.liquidity.clone();
    let mut p = pool.price;
    let mut reference = pool.tick;
    if down {
        for (i, t) in ticks.range(..=pool.tick).rev() {
            if t.price < target { break }
            v.push(Seg { p, q: t.price, l: l.clone(), tick: Some(*i), reference });
            l -= net(t); p = t.price; reference = i - spacing as i32;
        }
    } else {
        for (i, t) in ticks.range(pool.tick + 1..) {
            if t.price > target { break }
            v.push(Seg { p, q: t.price, l: l.clone(), tick: Some(*i), reference });
            l += net(t); p = t.price; reference = *i;
        }
    }
    v.push(Seg { p, q: target, l, tick: None, reference });
    v
}
pub fn seg_in(s: &Seg, down: bool) -> Q { if down { x_between(&s.l, s.p, s.q) } else { y_between(&s.l, s.p, s.q) } }
pub fn seg_out(s: &Seg, down: bool) -> Q { if down { y_between(&s.l, s.p, s.q) } else { x_between(&s.l, s.p, s.q) } }

/// What the position's liquidity is worth at the pool's price (exact, token x and y).
pub fn principal(pool: &Pool, l: &N, lower: (i32, u128), upper: (i32, u128)) -> (Q, Q, bool) {
    if pool.tick < lower.0 { (x_between(l, lower.1, upper.1), Q::zero(), false) }
    else if pool.tick < upper.0 { (x_between(l, pool.price, upper.1), y_between(l, lower.1, pool.price), true) }
    else { (Q::zero(), y_between(l, lower.1, upper.1), false) }
}
pub fn principal_slack(pool: &Pool, l: &N, lower: (i32, u128), upper: (i32, u128)) -> N {
    if pool.tick < lower.0 { x_slack(l, lower.1, upper.1) } else if pool.tick < upper.0 { x_slack(l, pool.price, upper.1) } else { N::zero() }
}
/// ceil(v * rate) with a 12-decimal rate
pub fn pct_up(v: &N, rate: u128) -> N { (v * rate).div_ceil(&p10(12)) }
pub fn pct_down(v: &N, rate: u128) -> N { (v * rate).div_floor(&p10(12)) }
/// Input needed by the deployed rounding rules to walk exactly to the end of these segments.
pub fn cost_to(segs: &[Seg], down: bool, fee: u128) -> N {
    let mut s = N::zero();
    for g in segs { let i = seg_in(g, down).ceil(); s += &i + pct_up(&i, fee); }
    s
}
pub fn gain_to(segs: &[Seg], down: bool) -> N { segs.iter().map(|g| seg_out(g, down).floor()).sum() }
