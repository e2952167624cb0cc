//! C17: tick <-> price. The reference price is sqrt(1.0001)^tick computed with 60 decimals.
use crate::cover::*;
use crate::num::*;
use crate::rng::Rng;
use math::types::sqrt_price::*;
use math::{check_tick, check_ticks, get_tick_at_sqrt_price, MAX_SQRT_PRICE, MAX_TICK, MIN_SQRT_PRICE};
use num_traits::Signed;
use std::sync::OnceLock;

type R = Result<(), String>;
const CHUNK: i32 = 1024;
const TICK: i32 = 221_818;
pub const BATCHES: u64 = (2 * TICK as u64 + CHUNK as u64) / CHUNK as u64 + 66;
const D: u32 = 60;

fn price(t: i32) -> Option<u128> { attempt_res(|| calculate_sqrt_price(t)).map(|p| p.0) }
/// The contract's prices, kept only to know between which two ticks a price lies.
pub fn table() -> &'static Vec<u128> { static T: OnceLock<Vec<u128>> = OnceLock::new(); T.get_or_init(|| (-TICK..=TICK).map(|t| price(t).unwrap_or(0)).collect()) }
pub fn at(t: i32) -> u128 { table()[(t + TICK) as usize] }
/// largest tick whose price does not exceed p
pub fn tick_of(p: u128) -> Option<i32> { let k = table().partition_point(|x| *x <= p); if k == 0 { None } else { Some(k as i32 - 1 - TICK) } }

fn root() -> N { // sqrt(1.0001) with D decimals, floor
    let v = (p10(2 * D) / p10(4) * 10001u32).to_biguint().unwrap();
    N::from(v.sqrt())
}
/// 1.0001^(|t|/2) with D decimals (relative error far below 1e-50)
fn power(t: u32) -> N {
    let (mut r, mut b, mut e, one) = (p10(D), root(), t, p10(D));
    while e > 0 { if e & 1 == 1 { r = &r * &b / &one } b = &b * &b / &one; e >>= 1 }
    r
}
/// Precision of the format: the binary factors carry 12 decimals and were built by repeated squaring, which
/// loses 1/64 of a unit of 1e-12 (relative) per tick; up to 18 products are truncated, one unit each; the
/// inverse taken below zero loses one more unit of 1e-12 (absolute).
fn accurate(t: i32, p: u128, exact: &N) -> Result<N, String> {
    let one = p10(D);
    let rel = n(1563u64 * t.unsigned_abs() as u64 + 2_000_000);
    let (want, tol) = if t >= 0 { (exact.clone(), exact * &rel / p10(17)) } else { let inv = &one * &one / exact; let tol = &inv * &rel / p10(17) + p10(D - 12); (inv, tol) };
    let got = n(p) * p10(D - 24);
    let d = (got - &want).abs();
    if d > tol { Err(format!("price of tick {t} is {p}, but 1.0001^({t}/2) is {} (24 decimals)", want / p10(D - 24))) } else { Ok(d * p10(14) / want) }
}
fn look(c: &mut Cover, p: u128, s: u16, t: i32) -> R {
    let want = t.div_euclid(s as i32) * s as i32;
    if want < -(TICK / s as i32 * s as i32) { c.count("below the lowest spaced tick"); return Ok(()) }
    match attempt_res(|| get_tick_at_sqrt_price(SqrtPrice(p), s)) {
        Some(g) if g == want => Ok(()),
        g => Err(format!("the tick of price {p} with spacing {s} is {g:?}, expected {want} (price of {want}: {}, of {}: {:?})", at(want), want + s as i32, price(want + s as i32))),
    }
}
pub fn batch(j: &Job, i: u64, c: &mut Cover) -> R {
    let mut r = Rng::new(mix(j.seed, j.prop, i));
    let chunks = (2 * TICK as u64 + CHUNK as u64) / CHUNK as u64;
    if i < chunks {
        if MAX_TICK != TICK { return Err(format!("the tick range is +-{MAX_TICK}")) }
        let a = -TICK + i as i32 * CHUNK; let b = (a + CHUNK).min(TICK + 1);
        let (mut e, one, rt) = (power(a.unsigned_abs()), p10(D), root());
        let mut worst = n(0);
        for t in a..b {
            let p = price(t).ok_or_else(|| format!("tick {t} has no price"))?;
            let err = accurate(t, p, &e)?; if err > worst { worst = err }
            e = if t < 0 { &e * &one / &rt } else { &e * &rt / &one };
            if t == -1 { e = one.clone() }
            let q = if t < TICK { at(t + 1) } else { p + 1 };
            if q <= p { return Err(format!("the price of tick {} ({q}) is not above that of tick {t} ({p})", t + 1)) }
            let mid = p + r.u128() % (q - p);
            for s in 1..=100u16 {
                look(c, p, s, t)?; look(c, q - 1, s, t)?;
            }
            for _ in 0..8 { let s = r.range(1, 100) as u16; let m = p + r.u128() % (q - p); look(c, m, s, t)?; look(c, mid, s, t)?; }
            c.eval += 216; c.add("tick looked up from price", 216); c.count("price of tick");
            c.case(("tick", t)); 
            // borders of validity
            for _ in 0..4 {
                let s = r.range(1, 100) as u16;
                let ok = t % s as i32 == 0 && t.abs() <= TICK / s as i32 * s as i32;
                if attempt_res(|| check_tick(t, s)).is_some() != ok { return Err(format!("check_tick({t}, {s}) should be {ok}")) }
                let u = match r.below(3) { 0 => t + r.range(-3, 3) as i32 * s as i32, 1 => r.range(-222_000, 222_000) as i32, _ => r.range(-2218, 2218) as i32 * s as i32 };
                let ok2 = ok && u % s as i32 == 0 && u.abs() <= TICK / s as i32 * s as i32 && t <= u;
                if attempt_res(|| check_ticks(t, u, s)).is_some() != ok2 { return Err(format!("check_ticks({t}, {u}, {s}) should be {ok2}")) }
                c.count("check_tick/check_ticks");
            }
        }
        c.sample(|| format!("ticks {a}..{}: price error at most {worst} hundredths of 1e-12 relative; e.g. price({a}) = {:?}", b - 1, price(a)));
        return Ok(());
    }
    // outside of the range, extremes, and random prices
    for _ in 0..4000 {
        let t = match r.below(6) { 0 => i32::MIN.wrapping_add(r.below(3) as i32), 1 => i32::MAX - r.below(3) as i32, 2 => TICK + 1 + r.below(3) as i32, 3 => -TICK - 1 - r.below(3) as i32, 4 => { let k = 1i64 << r.range(18, 31); (k + r.range(-2, 2)).clamp(i32::MIN as i64, i32::MAX as i64) as i32 } _ => r.next() as i32 };
        if (t as i64).abs() > TICK as i64 {
            if let Some(p) = price(t) { return Err(format!("tick {t} is out of range but has price {p}")) }
            c.case(("outside", t >> 8)); c.count("tick out of range");
            let s = r.range(1, 100) as u16;
            if attempt_res(|| check_tick(t, s)).is_some() { return Err(format!("check_tick({t}, {s}) accepts")) }
        }
        let s = r.range(1, 100) as u16;
        let p = match r.below(6) { 0 => at(-TICK).wrapping_sub(1 + r.below(3) as u128), 1 => at(TICK) + 1 + r.below(3) as u128, 2 => r.u128() >> r.below(128), 3 => at(TICK) - r.below(3) as u128, 4 => { let a = at(-TICK); a + r.u128() % (at(TICK) - a) } _ => { let b = 64 + r.below(32); (1u128 << b) + (r.u128() & ((1 << b) - 1)) } };
        match tick_of(p) {
            Some(t) if p <= at(TICK) => { look(c, p, s, t)?; c.case(("price", t >> 4, s)); c.count("tick of random price") }
            _ => { if let Some(g) = attempt_res(|| get_tick_at_sqrt_price(SqrtPrice(p), s)) { return Err(format!("price {p} is out of range but has tick {g}")) } c.case(("price outside", p >> 100, s)); c.count("price out of range") }
        }
    }
    if at(TICK) != MAX_SQRT_PRICE || at(-TICK) != MIN_SQRT_PRICE { return Err("the price limits are not the prices of the outermost ticks".into()) }
    for s in 1..=100u16 {
        let m = TICK / s as i32 * s as i32;
        if get_max_tick(s) != m || get_min_tick(s) != -m { return Err(format!("outermost ticks for spacing {s}: {} {}", get_min_tick(s), get_max_tick(s))) }
        if get_max_sqrt_price(s).0 != at(m) || get_min_sqrt_price(s).0 != at(-m) { return Err(format!("outermost prices for spacing {s}")) }
        if SqrtPrice::from_tick(m).ok().map(|p| p.0) != Some(at(m)) { return Err(format!("from_tick({m})")) }
        c.count("outermost ticks");
    }
    Ok(())
}
