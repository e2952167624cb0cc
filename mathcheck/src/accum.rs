//! C31: fee and time accumulators are differences modulo their width: nothing a position earns depends on where
//! the counters started or on their wrapping around.
use crate::cover::*;
use crate::num::*;
use crate::price::at;
use crate::rng::Rng;
use contracts::{FeeTier, Pool, PoolKey, Position, Tick, Tickmap, UpdatePoolTick};
use decimal::*;
use math::clamm::compute_swap_step;
use math::types::{fee_growth::*, liquidity::Liquidity, percentage::Percentage, seconds_per_liquidity::*, sqrt_price::*, token_amount::*};
use num_traits::Zero;
use sails_rs::prelude::ActorId;
use std::collections::BTreeMap;

type R = Result<(), String>;
pub const BATCHES: u64 = 15000;
const TICK: i32 = 221_818;
fn token(v: &N) -> TokenAmount { TokenAmount::new(<U256 as B>::of(v)) }
fn liq(v: &N) -> Liquidity { Liquidity::new(<U256 as B>::of(v)) }

pub fn word(r: &mut Rng) -> u128 { match r.below(6) { 0 => r.below(4) as u128, 1 => u128::MAX - r.below(4) as u128, 2 => 1u128 << r.below(128), 3 => u128::MAX << r.below(128), 4 => r.u128() >> r.below(128), _ => r.u128() } }

fn formulas(r: &mut Rng, c: &mut Cover) -> R {
    // what was earned below, inside and above a range, in two tokens
    let v: Vec<u128> = (0..6).map(|_| word(r)).collect();
    let lo = match r.below(4) { 0 => i32::MIN, _ => r.range(-TICK as i64, TICK as i64) as i32 };
    let hi = match r.below(4) { 0 => lo, 1 => i32::MAX, _ => r.range(lo as i64, i32::MAX as i64) as i32 };
    let cur = match r.below(5) { 0 => lo, 1 => hi, 2 => lo.saturating_sub(1), 3 => hi.saturating_sub(1), _ => r.next() as i32 };
    let g = |k: usize| v[k].wrapping_add(v[k + 1]).wrapping_add(v[k + 2]);
    // a tick's outside value is what was earned on its side away from the current tick
    let outside = |k: usize| { let (below, inside, above) = (v[k], v[k + 1], v[k + 2]);
        (if cur >= lo { below } else { inside.wrapping_add(above) }, if cur < hi { above } else { below.wrapping_add(inside) }) };
    let (gx, gy) = (g(0), g(3)); let ((lx, hx), (ly, hy)) = (outside(0), outside(3));
    let f = FeeGrowth::new;
    let side = (cur >= lo, cur < hi);
    c.case(("inside", side, v[0] >> 120, v[1] >> 120, v[2] >> 120)); c.count("growth inside a range");
    let got = calculate_fee_growth_inside(lo, f(lx), f(ly), hi, f(hx), f(hy), cur, f(gx), f(gy));
    if (got.0.get(), got.1.get()) != (v[1], v[4]) { return Err(format!("growth inside [{lo}, {hi}] at tick {cur} with outside ({lx}, {hx}) ({ly}, {hy}) and global {gx} {gy} is {got:?}, should be {} {}", v[1], v[4])) }
    let s = SecondsPerLiquidity::new;
    let got = attempt_res(|| calculate_seconds_per_liquidity_inside(lo, hi, cur, s(lx), s(hx), s(gx))).map(|v| v.get());
    c.case(("seconds inside", side, v[0] >> 120, v[1] >> 120, v[2] >> 120)); c.count("seconds inside a range");
    if got != Some(v[1]) { return Err(format!("seconds per liquidity inside [{lo}, {hi}] at tick {cur} with outside {lx}, {hx} and global {gx} is {got:?}, should be {}", v[1])) }
    // sums and differences
    let (a, b) = (word(r), word(r));
    c.case(("wrapping", a >> 120, b >> 120)); c.count("sums and differences");
    if f(a).unchecked_add(f(b)).get() != a.wrapping_add(b) || s(a).unchecked_add(s(b)).get() != a.wrapping_add(b) { return Err(format!("{a} + {b} of counters is {:?}", f(a).unchecked_add(f(b)))) }
    if f(a).unchecked_sub(f(b)).get() != a.wrapping_sub(b) || s(a).unchecked_sub(s(b)).get() != a.wrapping_sub(b) { return Err(format!("{a} - {b} of counters is {:?}", f(a).unchecked_sub(f(b)))) }
    // fee to growth and back
    let l = operand(r, 256); let fee = if r.chance(1, 2) { operand(r, 256) } else { let v = &l * p2(128) / p10(33) + r.range(-2, 2); if v < N::zero() || v >= p2(256) { n(1u8) } else { v } };
    let got = attempt_res(|| FeeGrowth::from_fee(liq(&l), token(&fee))).map(|v| v.get());
    let num = &fee * p10(33);
    let want = if l.is_zero() { None } else { let q = dn(&num, &l); if fits(&q, 128) { Some(q) } else { None } };
    c.case(("from fee", mag(&l), mag(&fee), got.is_some())); c.count("fee to growth");
    if got.map(n) != want && !(got.is_none() && !fits(&num, 384)) { return Err(format!("fee {fee} over liquidity {l} grows by {got:?}, should be {want:?}")) }
    if let Some(g) = got { let back = attempt_res(|| FeeGrowth::new(g).to_fee(liq(&l))).map(|v| v.get().big()); match back { Some(v) if v <= fee => {} v => return Err(format!("fee {fee} over liquidity {l} grows by {g}, which pays {v:?}")) } }
    let l2 = operand(r, 256);
    let got = attempt_res(|| f(a).to_fee(liq(&l2))).map(|v| v.get().big());
    let q = dn(&(n(a) * &l2), &p10(33));
    c.case(("to fee", mag(&l2), a >> 120, got.is_some())); c.count("growth to fee");
    if got != if fits(&q, 256) { Some(q.clone()) } else { None } { return Err(format!("growth {a} of liquidity {l2} pays {got:?}, should be {q}")) }
    // seconds
    let (t0, t1) = (r.log(64), r.log(64)); let (t0, t1) = (u64::of(&(t0 - 1)), if r.chance(1, 2) { u64::of(&(t1 - 1)) } else { r.below(100_000_000) });
    let (t0, t1) = if r.chance(1, 2) { (t0, t0.saturating_add(t1)) } else { (t0, t1) };
    let got = attempt_res(|| SecondsPerLiquidity::calculate_seconds_per_liquidity_global(liq(&l), t1, t0)).map(|v| v.get());
    c.case(("seconds", t0 >> 50, t1 >> 50, mag(&l), got.is_some())); c.count("seconds per liquidity");
    let prod = if t1 > t0 { n(t1 - t0) * p10(30) } else { N::zero() };
    let want = if t1 <= t0 || l.is_zero() { None } else { let q = dn(&prod, &l); if fits(&q, 128) { Some(q) } else { None } };
    if got.map(n) != want && !(got.is_none() && !fits(&prod, 128)) { return Err(format!("{t0}..{t1} seconds over liquidity {l}: {got:?}, should be {want:?}")) }
    Ok(())
}

#[derive(Clone)]
struct World { pool: Pool, map: BTreeMap<i32, Tick>, bits: BTreeMap<i32, ()>, pos: Vec<Position>, now: u64 }
struct Fixed { key: PoolKey, protocol: Percentage }
type Grown = Vec<(usize, bool, u128)>;
impl World {
    fn ticks(&mut self, lo: i32, hi: i32) -> (Tick, Tick) { (self.map[&lo], self.map[&hi]) }
    fn open(&mut self, f: &Fixed, lo: i32, hi: i32, l: &N) -> Result<(N, N), String> {
        for t in [lo, hi] { if !self.map.contains_key(&t) { let k = Tick::create(t, &self.pool, self.now); self.map.insert(t, k); self.bits.insert(t, ()); } }
        let (mut a, mut b) = self.ticks(lo, hi);
        let (p, x, y) = Position::create(&mut self.pool, f.key, &mut a, &mut b, self.now, liq(l), SqrtPrice::new(0), SqrtPrice::new(u128::MAX), 1, f.key.fee_tier.tick_spacing).map_err(|e| format!("{e:?}"))?;
        self.map.insert(lo, a); self.map.insert(hi, b);
        self.pos.push(p);
        Ok((x.get().big(), y.get().big()))
    }
    fn claim(&mut self, i: usize) -> (N, N) {
        let mut p = self.pos[i]; let (lo, hi) = (p.lower_tick_index, p.upper_tick_index);
        let (mut a, mut b) = self.ticks(lo, hi);
        let (x, y) = p.claim_fee(&mut self.pool, &mut b, &mut a, self.now);
        self.pos[i] = p; self.map.insert(lo, a); self.map.insert(hi, b);
        (x.get().big(), y.get().big())
    }
    fn close(&mut self, f: &Fixed, i: usize) -> (N, N) {
        let mut p = self.pos[i]; let (lo, hi) = (p.lower_tick_index, p.upper_tick_index);
        let (mut a, mut b) = self.ticks(lo, hi);
        let (x, y, da, db) = p.remove(&mut self.pool, self.now, &mut a, &mut b, f.key.fee_tier.tick_spacing);
        self.pos.swap_remove(i); self.map.insert(lo, a); self.map.insert(hi, b);
        if da { self.map.remove(&lo); self.bits.remove(&lo); } if db { self.map.remove(&hi); self.bits.remove(&hi); }
        (x.get().big(), y.get().big())
    }
    /// the swap loop of the contract; also says which position was in range for each growth of the counters
    fn swap(&mut self, f: &Fixed, map: &Tickmap, down: bool, amount: &N, by_in: bool, limit: u128) -> Result<(N, N, Vec<i32>, Grown), String> {
        let mut rem = token(amount); let (mut tin, mut tout) = (N::zero(), N::zero()); let mut crossed = vec![]; let mut grown = vec![];
        let mut steps = 0;
        while !rem.is_zero() {
            steps += 1; if steps > 3000 { return Err("too many steps".into()) }
            let (to, lt) = map.get_closer_limit(SqrtPrice(limit), down, self.pool.current_tick_index, f.key.fee_tier.tick_spacing, f.key).map_err(|e| format!("{e:?}"))?;
            let res = compute_swap_step(self.pool.sqrt_price, to, self.pool.liquidity, rem, by_in, f.key.fee_tier.fee).map_err(|_| "step")?;
            rem -= if by_in { res.amount_in + res.fee_amount } else { res.amount_out };
            let before = (self.pool.fee_growth_global_x.get(), self.pool.fee_growth_global_y.get());
            self.pool.add_fee(res.fee_amount, down, f.protocol).map_err(|_| "fee")?;
            let tick = self.pool.current_tick_index;
            let note = |w: &World, b: (u128, u128), grown: &mut Grown| {
                let d = if down { w.pool.fee_growth_global_x.get().wrapping_sub(b.0) } else { w.pool.fee_growth_global_y.get().wrapping_sub(b.1) };
                if d != 0 { for (i, p) in w.pos.iter().enumerate() { if p.lower_tick_index <= tick && tick < p.upper_tick_index { grown.push((i, down, d)) } } }
            };
            note(self, before, &mut grown);
            self.pool.sqrt_price = res.next_sqrt_price;
            tin += res.amount_in.get().big() + res.fee_amount.get().big(); tout += res.amount_out.get().big();
            if self.pool.sqrt_price.0 == limit && !rem.is_zero() { return Err("limit".into()) }
            let mut u = match lt { Some((i, true)) => UpdatePoolTick::TickInitialized(self.map[&i]), Some((i, false)) => UpdatePoolTick::TickUninitialized(i), None => UpdatePoolTick::NoTick };
            let before = (self.pool.fee_growth_global_x.get(), self.pool.fee_growth_global_y.get());
            let was = self.pos.clone(); let _ = &was;
            let (extra, r2, cross) = self.pool.update_tick(res, to, &mut u, rem, by_in, down, self.now, f.protocol, f.key.fee_tier);
            note(self, before, &mut grown);
            rem = r2; tin += extra.get().big();
            if let (UpdatePoolTick::TickInitialized(t), true) = (u, cross) { crossed.push(t.index); self.map.insert(t.index, t); }
        }
        Ok((tin, tout, crossed, grown))
    }
}
/// growth a position earned since its last settlement, kept without the contract's counters
#[derive(Clone, Default)]
struct Earn { x: u128, y: u128 }

fn history(r: &mut Rng, c: &mut Cover) -> R {
    let s = *r.pick(&[1u16, 1, 2, 10, 100]);
    let key = PoolKey { token_x: ActorId::from([1; 32]), token_y: ActorId::from([2; 32]), fee_tier: FeeTier { fee: Percentage(*r.pick(&[0u128, 100_000_000, 6_000_000_000, 300_000_000_000, 900_000_000_000])), tick_spacing: s } };
    let f = Fixed { key, protocol: Percentage(*r.pick(&[0u128, 1, 10_000_000_000, 500_000_000_000, 1_000_000_000_000])) };
    let sp = s as i32; let top = TICK / sp - 2;
    let start = match r.below(4) { 0 => 0, 1 => r.range(-50, 50) as i32, 2 => r.range(-top as i64, top as i64) as i32, _ => r.range(-2000.max(-top as i64), 2000.min(top as i64)) as i32 } * sp;
    let scale = 20 + r.below(100) as u32; // bits of liquidity
    let t0 = r.below(1 << 40);
    let pool = Pool { sqrt_price: SqrtPrice(at(start)), current_tick_index: start, start_timestamp: t0, last_timestamp: t0, ..Default::default() };
    let blank = World { pool, map: BTreeMap::new(), bits: BTreeMap::new(), pos: vec![], now: t0 };
    let mut w = vec![blank.clone(), blank.clone(), blank];
    // one starts at zero, one wraps soon, one anywhere
    let soon = |r: &mut Rng| 0u128.wrapping_sub(u128::of(&(r.log(127))));
    w[1].pool.fee_growth_global_x = FeeGrowth::new(soon(r)); w[1].pool.fee_growth_global_y = FeeGrowth::new(soon(r));
    w[2].pool.fee_growth_global_x = FeeGrowth::new(r.u128()); w[2].pool.fee_growth_global_y = FeeGrowth::new(r.u128());
    let mut map = Tickmap::default();
    let mut earned: Vec<Earn> = vec![];
    let g0: Vec<(u128, u128)> = w.iter().map(|w| (w.pool.fee_growth_global_x.get(), w.pool.fee_growth_global_y.get())).collect();
    for _ in 0..r.range(10, 60) {
        let gap = r.below(5) * r.below(1000);
        for w in w.iter_mut() { w.now += gap }
        let here = w[0].pool.current_tick_index / sp;
        let before = w.clone();
        let pick = if w[0].pos.is_empty() { 0 } else { r.below(10) };
        let (mut what, mut res): (String, Vec<Option<String>>) = (String::new(), vec![]);
        match pick {
            0 | 1 => {
                let width = *r.pick(&[1i64, 2, 5, 30, 300]);
                let lo = (here as i64 + r.range(-width, width)).clamp(-top as i64, top as i64 - 1);
                let hi = (lo + r.range(1, 2 * width)).clamp(lo + 1, top as i64);
                let (lo, hi) = (lo as i32 * sp, hi as i32 * sp);
                // ticks already used, often
                let used: Vec<i32> = w[0].map.keys().copied().collect();
                let lo = if !used.is_empty() && r.chance(1, 3) { *r.pick(&used) } else { lo };
                let hi = if !used.is_empty() && r.chance(1, 3) { *r.pick(&used) } else { hi };
                if lo >= hi { continue }
                let l = r.log(scale);
                what = format!("open [{lo}, {hi}] {l}");
                for w in w.iter_mut() { res.push(attempt(|| w.open(&f, lo, hi, &l)).and_then(|v| v.ok()).map(|v| format!("{v:?}"))) }
                if res.iter().all(|v| v.is_some()) { earned.push(Earn::default()) }
            }
            2 => { let i = r.below(w[0].pos.len() as u64) as usize;
                what = format!("close {i}");
                let e = earned[i].clone(); let l = w[0].pos[i].liquidity.get().big();
                let mut claims = vec![];
                for w in w.iter_mut() { let mut k = w.clone(); let cl = attempt(|| k.claim(i)); claims.push(cl.clone()); let g = attempt(|| w.close(&f, i)); res.push(match (&cl, g) { (Some(a), Some(b)) => Some(format!("{a:?} {b:?}")), _ => None }) }
                if res[0].is_some() { earned.swap_remove(i); settle(&what, &claims[0].clone().unwrap(), &e, &l)?; c.count("fees settled"); } }
            3 | 4 => { let i = r.below(w[0].pos.len() as u64) as usize;
                what = format!("claim {i}");
                let e = earned[i].clone(); let l = w[0].pos[i].liquidity.get().big();
                let mut got = None;
                for w in w.iter_mut() { let g = attempt(|| w.claim(i)); if got.is_none() { got = g.clone() } res.push(g.map(|v| format!("{v:?}"))) }
                if let (Some(g), true) = (got, res[0].is_some()) { settle(&what, &g, &e, &l)?; earned[i] = Earn::default(); c.count("fees settled"); } }
            _ => {
                let down = r.chance(1, 2); let by_in = r.chance(2, 3);
                let cur = w[0].pool.sqrt_price.0;
                let t = (here as i64 + if down { -r.range(0, 400) } else { r.range(1, 400) }).clamp(-top as i64, top as i64) as i32 * sp;
                let limit = if r.chance(1, 4) { let k = cur.max(at(t)) - cur.min(at(t)); if k == 0 { at(t) } else { cur.min(at(t)) + r.u128() % k } } else { at(t) };
                if (down && limit >= cur) || (!down && limit <= cur) { continue }
                let l = w[0].pool.liquidity.get().big();
                let y = crate::step::dy(cur, limit, &l).1; let x = crate::step::dx(cur, limit, &l).hi;
                let whole = if down == by_in { x } else { y };
                let k = r.log(12); let a = match r.below(3) { 0 => r.log(scale), _ => whole * k / 3000 + r.below(3) };
                if a.is_zero() || a >= p2(256) { continue }
                what = format!("swap {a} down {down} in {by_in} limit {limit}");
                let mut grown = vec![]; let mut why = vec![];
                for w in w.iter_mut() { res.push(match attempt(|| w.swap(&f, &map, down, &a, by_in, limit)) { Some(Ok((a, b, cr, g))) => { grown = g; for _ in &cr { c.count("ticks crossed") } Some(format!("{a} {b} {cr:?}")) } Some(Err(e)) => { why.push(e); None } None => { why.push("panic".into()); None } }) }
                if res[0].is_some() { for (i, d, v) in grown { let e = &mut earned[i]; if d { e.x = e.x.wrapping_add(v) } else { e.y = e.y.wrapping_add(v) } } }
                if let Some(e) = why.first() { c.count(&format!("swap refused: {e}")) }
            }
        }
        let kind = what.split(' ').next().unwrap().to_string();
        c.count(&format!("{kind} {}", if res[0].is_some() { "done" } else { "refused" }));
        c.case((kind, res[0].is_some(), w[0].pos.len().min(6), w[0].map.len().min(12), scale / 8, s, res[0].as_ref().map(|v| v.len())));
        for k in 1..3 { if res[k] != res[0] { return Err(format!("{what}: with counters starting at {:?} the result is {:?}, with counters at zero it is {:?}", g0[k], res[k], res[0])) } }
        if res[0].is_none() { w = before; continue }
        // bitmap follows
        for t in before[0].bits.keys() { if !w[0].bits.contains_key(t) { map.flip(false, *t, s, key) } }
        for t in w[0].bits.keys() { if !before[0].bits.contains_key(t) { map.flip(true, *t, s, key) } }
        for k in 1..3 {
            let (a, b) = (&w[0].pool, &w[k].pool);
            if (a.liquidity, a.sqrt_price, a.current_tick_index, a.fee_protocol_token_x, a.fee_protocol_token_y) != (b.liquidity, b.sqrt_price, b.current_tick_index, b.fee_protocol_token_x, b.fee_protocol_token_y) { return Err(format!("{what}: the pools differ: {a:?} {b:?}")) }
            if b.fee_growth_global_x.get().wrapping_sub(a.fee_growth_global_x.get()) != g0[k].0 || b.fee_growth_global_y.get().wrapping_sub(a.fee_growth_global_y.get()) != g0[k].1 { return Err(format!("{what}: the counters grew differently: {a:?} {b:?}")) }
            if (b.fee_growth_global_x.get() < g0[k].0 || b.fee_growth_global_y.get() < g0[k].1) && (before[k].pool.fee_growth_global_x.get() >= g0[k].0 && before[k].pool.fee_growth_global_y.get() >= g0[k].1) { c.count("counter wrapped around") }
        }
        c.sample(|| format!("{what}: {:?}", res[0]));
    }
    Ok(())
}
fn settle(what: &str, got: &(N, N), e: &Earn, l: &N) -> R {
    let f = |g: u128| dn(&(n(g) * l), &p10(33));
    let want = (f(e.x), f(e.y));
    if *got != want { return Err(format!("{what}: pays {got:?}, but while in range the position with liquidity {l} earned {want:?}")) }
    Ok(())
}
pub fn batch(j: &Job, i: u64, c: &mut Cover) -> R {
    let mut r = Rng::new(mix(j.seed, j.prop, i));
    for _ in 0..100 { formulas(&mut r, c)? }
    for _ in 0..3 { history(&mut r, c)? }
    Ok(())
}
