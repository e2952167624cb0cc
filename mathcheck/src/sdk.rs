//! C33: every calculation the SDK offers, against the contract's own functions.
use crate::accum::word;
use crate::cover::*;
use crate::num::*;
use crate::price::{at, tick_of};
use crate::rng::Rng;
use decimal::*;
use crate::step::{amount, fee, liq, liquidity, near, price, token};
use contracts::{get_liquidity_by_x, get_liquidity_by_y, get_max_chunk, get_search_limit, position_to_tick, tick_to_position, FeeTier, PoolKey, Tickmap, LIQUIDITY_TICK_LIMIT, POSITION_TICK_LIMIT};
use math::clamm::*;
use math::types::{fee_growth::*, percentage::Percentage, seconds_per_liquidity::*, sqrt_price::*};
use math::{check_tick, check_ticks, get_tick_at_sqrt_price};
use sails_rs::prelude::ActorId;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

#[path = "../../sdkcheck/client.rs"]
mod client;
type R = Result<(), String>;
const TICK: i32 = 221_818;
pub const BATCHES: u64 = 12000;
pub static TARGET: OnceLock<String> = OnceLock::new();
thread_local! { static SDK: RefCell<Option<client::Sdk>> = RefCell::new(None); }

fn b(v: bool) -> u8 { v as u8 }
/// A call: the line for the SDK, what the contract's code answers, and whether a refusal by the contract binds the SDK.
struct Calls(Vec<(&'static str, String, Option<String>, bool)>);
impl Calls {
    fn add(&mut self, f: &'static str, args: String, native: Option<String>) { self.0.push((f, args, native, true)) }
    fn judge(&mut self, c: &mut Cover) -> R {
        let lines: Vec<String> = self.0.iter().map(|x| format!("{} {}", x.0, x.1)).collect();
        let ans = SDK.with(|s| { let mut s = s.borrow_mut(); if s.is_none() { *s = Some(client::Sdk::start(TARGET.get().unwrap())?) } s.as_mut().unwrap().ask(&lines) })?;
        for ((f, args, want, strict), got) in self.0.drain(..).zip(ans) {
            let got = got.strip_prefix("ok ").map(|s| s.trim_end().to_string()).or(if got == "ok" { Some(String::new()) } else { None });
            c.case((f, got.is_some(), args.len(), got.as_ref().map_or(0, |g| g.len()), args.as_bytes().first().copied()));
            c.count(&format!("{f}{}", if want.is_none() { " refused" } else { "" }));
            if got == want || (want.is_none() && !strict) { continue }
            return Err(format!("{f}({args}): the contract {}, the SDK {}", want.map_or("refuses".into(), |w| format!("computes {w}")), got.map_or("refuses".into(), |w| format!("computes {w}"))));
        }
        Ok(())
    }
}
fn any_tick(r: &mut Rng) -> i32 { match r.below(12) { 0 => TICK, 1 => -TICK, 2 => TICK + 1, 3 => -TICK - 1, 4 => i32::MIN, 5 => i32::MAX, 6 => (r.next() as i32) >> r.below(32), 7 => r.range(-300, 300) as i32, _ => r.range(-TICK as i64, TICK as i64) as i32 } }
fn any_spacing(r: &mut Rng) -> u16 { match r.below(8) { 0 => 1, 1 => 100, 2 => 10, _ => r.range(1, 100) as u16 } }
fn any_fee(r: &mut Rng) -> u128 { match r.below(5) { 0 => 1_000_000_000_000 - 2 + r.below(5) as u128, 1 => r.u128() >> r.below(128), _ => fee(r) } }
fn hex(a: &[u8; 32]) -> String { a.iter().fold(String::from("0x"), |s, x| s + &format!("{x:02x}")) }

pub fn batch(j: &Job, i: u64, c: &mut Cover) -> R {
    let mut rng = Rng::new(mix(j.seed, j.prop, i)); let r = &mut rng;
    let mut k = Calls(vec![]);
    for _ in 0..60 {
        let p = price(r); let t = near(r, p); let l = liquidity(r); let by_in = r.chance(1, 2); let f = fee(r); let a = amount(r, p, t, &l, by_in, f); let down = p >= t;
        let (sp, st) = (SqrtPrice(p), SqrtPrice(t));
        k.add("step", format!("{p} {t} {l} {a} {} {f}", b(by_in)), attempt_res(|| compute_swap_step(sp, st, liq(&l), token(&a), by_in, Percentage(f))).map(|g| format!("{} {} {} {}", g.next_sqrt_price.0, g.amount_in.get().big(), g.amount_out.get().big(), g.fee_amount.get().big())));
        for u in [false, true] {
            k.add("delta_x", format!("{p} {t} {l} {}", b(u)), attempt_res(|| get_delta_x(sp, st, liq(&l), u)).map(|v| v.get().big().to_string()));
            k.add("delta_y", format!("{p} {t} {l} {}", b(u)), attempt_res(|| get_delta_y(sp, st, liq(&l), u)).map(|v| v.get().big().to_string()));
        }
        // what no price can absorb is refused by the contract and ends at the price limit in the SDK
        let add = r.chance(1, 2);
        k.0.push(("next_x", format!("{p} {l} {a} {}", b(add)), attempt_res(|| get_next_sqrt_price_x_up(sp, liq(&l), token(&a), add)).map(|v| v.0.to_string()), false));
        k.0.push(("enough", format!("{a} {p} {l} {f} {} {}", b(by_in), b(down)), attempt_res(|| is_enough_amount_to_change_price(token(&a), sp, liq(&l), Percentage(f), by_in, down)).map(|v| b(v).to_string()), false));
        let (lo, w) = (any_tick(r), any_tick(r)); let hi = if r.chance(3, 4) { lo.saturating_add((w / 7).saturating_abs()) } else { w };
        let tk = if r.chance(1, 2) { tick_of(p).unwrap_or(0) } else { any_tick(r) };
        k.add("amounts", format!("{tk} {p} {l} {} {hi} {lo}", b(add)), attempt_res(|| calculate_amount_delta(tk, sp, liq(&l), add, hi, lo)).map(|(x, y, u)| format!("{} {} {}", x.get().big(), y.get().big(), b(u))));
        let s = any_spacing(r);
        let slip = any_fee(r);
        k.add("min_out", format!("{a} {slip}"), attempt(|| calculate_min_amount_out(token(&a), Percentage(slip))).map(|v| v.get().big().to_string()));
        k.add("price", lo.to_string(), attempt_res(|| calculate_sqrt_price(lo)).map(|v| v.0.to_string()));
        let q = match r.below(8) { 0 => r.u128() >> r.below(128), 1 => at(TICK) + 1, 2 => at(-TICK) - 1, _ => p };
        k.add("tick", format!("{q} {s}"), attempt_res(|| get_tick_at_sqrt_price(SqrtPrice(q), s)).map(|v| v.to_string()));
        let on = if r.chance(2, 3) { lo / s as i32 * s as i32 } else { lo };
        let up_to = if r.chance(2, 3) { hi / s as i32 * s as i32 } else { hi };
        k.add("check_tick", format!("{on} {s}"), attempt_res(|| check_tick(on, s)).map(|_| String::new()));
        k.add("check_ticks", format!("{on} {up_to} {s}"), attempt_res(|| check_ticks(on, up_to, s)).map(|_| String::new()));
        let vp = if (-TICK..=TICK).contains(&on) { let a = at(on); let b2 = at((on + s as i32).min(TICK)); match r.below(6) { 0 => a, 1 => b2, 2 => a - 1, 3 => b2 - 1, 4 if b2 > a => a + r.u128() % (b2 - a), _ => q } } else { q };
        let rel = attempt(|| check_tick_to_sqrt_price_relationship(on, s, SqrtPrice(vp)));
        k.add("valid_tick", format!("{on} {s} {vp}"), rel.and_then(|v| v.ok()).map(|v| b(v).to_string()));
        // positions in the tick map
        let pos = attempt(|| tick_to_position(on, s));
        k.add("position", format!("{on} {s}"), pos.map(|(c, x)| format!("{c} {x}")));
        k.add("js_position", format!("{on} {s}"), pos.map(|(c, x)| format!("{c} {x}")));
        let (ch, bt) = (match r.below(3) { 0 => get_max_chunk(s) as i64 + r.range(-1, 1), 1 => r.range(0, get_max_chunk(s) as i64), _ => r.below(8000) as i64 }.max(0) as u16, r.below(64) as u8);
        k.add("back", format!("{ch} {bt} {s}"), attempt(|| position_to_tick(ch, bt, s)).map(|v| v.to_string()));
        if let Some((c0, b0)) = pos { k.add("back", format!("{c0} {b0} {s}"), attempt(|| position_to_tick(c0, b0, s)).map(|v| v.to_string())); }
        let sl = on.clamp(-TICK, TICK) / s as i32 * s as i32; let upw = r.chance(1, 2);
        k.add("search_limit", format!("{sl} {s} {}", b(upw)), attempt(|| get_search_limit(sl, s, upw)).map(|v| v.to_string()));
        // accumulators
        let w: Vec<u128> = (0..10).map(|_| word(r)).collect();
        let fg = |i: usize| FeeGrowth(w[i]);
        let cur = match r.below(4) { 0 => lo, 1 => hi, _ => tk };
        k.add("growth_inside", format!("{lo} {} {} {hi} {} {} {cur} {} {}", w[0], w[1], w[2], w[3], w[4], w[5]), attempt(|| calculate_fee_growth_inside(lo, fg(0), fg(1), hi, fg(2), fg(3), cur, fg(4), fg(5))).map(|g| format!("{} {}", g.0 .0, g.1 .0)));
        k.add("growth_add", format!("{} {}", w[0], w[1]), attempt(|| fg(0).unchecked_add(fg(1))).map(|v| v.0.to_string()));
        k.add("growth_sub", format!("{} {}", w[0], w[1]), attempt(|| fg(0).unchecked_sub(fg(1))).map(|v| v.0.to_string()));
        k.add("from_fee", format!("{l} {a}"), attempt_res(|| FeeGrowth::from_fee(liq(&l), token(&a))).map(|v| v.0.to_string()));
        k.add("to_fee", format!("{} {l}", w[0]), attempt_res(|| fg(0).to_fee(liq(&l))).map(|v| v.get().big().to_string()));
        k.add("fee", format!("{lo} {} {} {hi} {} {} {cur} {} {} {} {} {l}", w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]), attempt(|| { let (x, y) = calculate_fee_growth_inside(lo, fg(0), fg(1), hi, fg(2), fg(3), cur, fg(4), fg(5)); Some((x.unchecked_sub(fg(6)).to_fee(liq(&l)).ok()?, y.unchecked_sub(fg(7)).to_fee(liq(&l)).ok()?)) }).flatten().map(|(x, y)| format!("{} {}", x.get().big(), y.get().big())));
        let spl = |i: usize| SecondsPerLiquidity(w[i]);
        k.add("seconds_add", format!("{} {}", w[8], w[9]), attempt(|| spl(8).unchecked_add(spl(9))).map(|v| v.0.to_string()));
        k.add("seconds_sub", format!("{} {}", w[8], w[9]), attempt(|| spl(8).unchecked_sub(spl(9))).map(|v| v.0.to_string()));
        let (t1, t0) = { let a = r.next() >> r.below(64); (a, match r.below(4) { 0 => a, 1 => a.saturating_add(1), 2 => r.next() >> r.below(64), _ => a.saturating_sub(r.below(1 << 20)) }) };
        k.add("seconds", format!("{l} {t1} {t0}"), attempt_res(|| SecondsPerLiquidity::calculate_seconds_per_liquidity_global(liq(&l), t1, t0)).map(|v| v.0.to_string()));
        k.add("seconds_inside", format!("{lo} {hi} {cur} {} {} {}", w[7], w[8], w[9]), attempt_res(|| calculate_seconds_per_liquidity_inside(lo, hi, cur, spl(7), spl(8), spl(9))).map(|v| v.0.to_string()));
        // liquidity from amounts
        let u = r.chance(1, 2);
        let (elo, ehi) = if r.chance(3, 4) { let e = r.range(-TICK as i64, TICK as i64 - 1) as i32; let w = 1i64 << r.below(18); (e, r.range(e as i64 + 1, (e as i64 + 1 + w).min(TICK as i64)) as i32) } else { (lo, hi) };
        let ep = match r.below(4) { 0 if elo >= -TICK && ehi <= TICK && elo < ehi => at(elo) + r.u128() % (at(ehi) - at(elo)), 1 if (-TICK..=TICK).contains(&elo) => at(elo), 2 if (-TICK..=TICK).contains(&ehi) => at(ehi), _ => p };
        k.add("by_x", format!("{a} {elo} {ehi} {ep} {}", b(u)), attempt_res(|| get_liquidity_by_x(token(&a), elo, ehi, SqrtPrice(ep), u)).map(|v| format!("{} {}", v.l.get().big(), v.amount.get().big())));
        k.add("by_y", format!("{a} {elo} {ehi} {ep} {}", b(u)), attempt_res(|| get_liquidity_by_y(token(&a), elo, ehi, SqrtPrice(ep), u)).map(|v| format!("{} {}", v.l.get().big(), v.amount.get().big())));
        // tiers and pool keys
        let (tf, ts) = (any_fee(r), match r.below(4) { 0 => 0, 1 => 101, 2 => r.next() as u16, _ => s });
        k.add("tier", format!("{tf} {ts}"), attempt_res(|| FeeTier::new(Percentage(tf), ts)).map(|t| format!("{} {}", t.fee.0, t.tick_spacing)));
        let mut id = [[0u8; 32]; 2];
        for v in id.iter_mut() { for x in v.iter_mut() { *x = r.next() as u8 } }
        if r.chance(1, 2) { id[1] = id[0]; if r.chance(2, 3) { id[1][r.below(32) as usize] ^= 1 << r.below(8) } }
        k.add("key", format!("{} {} {f} {s}", hex(&id[0]), hex(&id[1])), attempt_res(|| PoolKey::new(ActorId::from(id[0]), ActorId::from(id[1]), FeeTier { fee: Percentage(f), tick_spacing: s })).map(|t| format!("{} {} {} {}", hex(&t.token_x.into()), hex(&t.token_y.into()), t.fee_tier.fee.0, t.fee_tier.tick_spacing)));
    }
    // searching a map
    for _ in 0..6 {
        let s = any_spacing(r); let sp = s as i32; let top = TICK / sp;
        let key = PoolKey { token_x: ActorId::from([1; 32]), token_y: ActorId::from([2; 32]), fee_tier: FeeTier { fee: Percentage(0), tick_spacing: s } };
        let centre = match r.below(5) { 0 => -top + r.below(280) as i32, 1 => top - r.below(280) as i32, _ => r.range(-top as i64, top as i64) as i32 }.clamp(-top, top);
        let mut map = Tickmap::default(); let mut set = BTreeSet::new();
        for _ in 0..r.below(40) { let k = (centre + if r.chance(1, 3) { *r.pick(&[-257, -256, -255, -65, -64, -63, -1, 0, 1, 63, 64, 65, 255, 256, 257]) } else { r.range(-300, 300) as i32 }).clamp(-top, top); if set.insert(k) { map.flip(true, k * sp, s, key) } }
        let mut chunks: BTreeMap<u16, u64> = BTreeMap::new();
        for k in &set { let (c, x) = tick_to_position(k * sp, s); *chunks.entry(c).or_default() |= 1 << x }
        let m = if chunks.is_empty() { "-".to_string() } else { chunks.iter().map(|(c, x)| format!("{c}:{x}")).collect::<Vec<_>>().join(",") };
        for _ in 0..12 {
            let t = (centre + r.range(-280, 280) as i32).clamp(-top, top) * sp;
            k.add("next_init", format!("{m} {t} {s}"), attempt(|| map.next_initialized(t, s, key)).map(|v| format!("{v:?}")));
            k.add("prev_init", format!("{m} {t} {s}"), attempt(|| map.prev_initialized(t, s, key)).map(|v| format!("{v:?}")));
            let d = r.chance(1, 2);
            let limit = match r.below(4) { 0 => at(set.iter().nth(r.below(set.len().max(1) as u64) as usize).map_or(0, |k| k * sp)), 1 => if d { at(-TICK) } else { at(TICK) }, _ => near(r, at(t)) };
            k.add("closer", format!("{m} {limit} {} {t} {s}", b(d)), attempt_res(|| map.get_closer_limit(SqrtPrice(limit), d, t, s, key)).map(|(p, l)| format!("{} {l:?}", p.0)));
        }
    }
    if i == 0 {
        for s in 1..=100u16 {
            k.add("max_liquidity", s.to_string(), attempt(|| calculate_max_liquidity_per_tick(s)).map(|v| v.get().big().to_string()));
            k.add("max_tick", s.to_string(), attempt(|| get_max_tick(s)).map(|v| v.to_string()));
            k.add("min_tick", s.to_string(), attempt(|| get_min_tick(s)).map(|v| v.to_string()));
            k.add("max_chunk", s.to_string(), attempt(|| get_max_chunk(s)).map(|v| v.to_string()));
        }
        k.add("consts", String::new(), Some(format!("{} {} {} {} {} {} {LIQUIDITY_TICK_LIMIT} {POSITION_TICK_LIMIT}", math::MAX_TICK, math::MIN_TICK, math::MAX_SQRT_PRICE, math::MIN_SQRT_PRICE, contracts::TICK_SEARCH_RANGE, contracts::CHUNK_SIZE)));
    }
    if i < (2 * TICK as u64 + 1).div_ceil(1024) { // all prices
        for t in (-TICK + i as i32 * 1024)..=(-TICK + i as i32 * 1024 + 1023).min(TICK) { k.add("price", t.to_string(), Some(at(t).to_string())) }
    }
    c.sample(|| format!("{} calls such as {} {}", k.0.len(), k.0[0].0, k.0[0].1));
    k.judge(c)
}
