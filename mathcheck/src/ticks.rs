//! C19: the tick map against an ordered set.
use crate::cover::*;
use crate::price::at;
use crate::rng::Rng;
use contracts::{get_max_chunk, get_search_limit, position_to_tick, tick_to_position, FeeTier, InvariantError, PoolKey, Tickmap};
use math::types::{percentage::Percentage, sqrt_price::SqrtPrice};
use sails_rs::prelude::ActorId;
use std::collections::BTreeSet;

type R = Result<(), String>;
const TICK: i32 = 221_818;
const RANGE: i32 = 256;

pub fn batch(j: &Job, i: u64, c: &mut Cover) -> R {
    let mut r = Rng::new(mix(j.seed, j.prop, i));
    let s: u16 = if i < 100 { i as u16 + 1 } else { match r.below(4) { 0 => 1, 1 => 100, _ => r.range(1, 100) as u16 } };
    let sp = s as i32;
    let top = TICK / sp; // outermost indexes
    if i < 100 { positions(s, c)? }
    for _ in 0..40 {
        let key = |r: &mut Rng, a: u8| PoolKey { token_x: ActorId::from([a; 32]), token_y: ActorId::from([200; 32]), fee_tier: FeeTier { fee: Percentage(r.below(3) as u128), tick_spacing: s } };
        let (mine, other) = (key(&mut r, 1), key(&mut r, 2));
        let mut map = Tickmap::default();
        let mut set: BTreeSet<i32> = BTreeSet::new(); // indexes = tick / spacing
        // where the action is
        let centre = match r.below(6) { 0 => -top + r.range(0, 300) as i32, 1 => top - r.range(0, 300) as i32, 2 => r.range(-70, 70) as i32, _ => r.range(-top as i64, top as i64) as i32 }.clamp(-top, top);
        let shape = r.below(7);
        let put = |map: &mut Tickmap, set: &mut BTreeSet<i32>, k: i32| if (-top..=top).contains(&k) && set.insert(k) { map.flip(true, k * sp, s, mine) };
        match shape {
            0 => {}
            1 => { let k = centre + r.range(-600, 600) as i32; put(&mut map, &mut set, k) }
            2 => for _ in 0..r.range(2, 8) { let k = centre + r.range(-600, 600) as i32; put(&mut map, &mut set, k) },
            3 => for _ in 0..r.range(20, 200) { let k = centre + r.range(-300, 300) as i32; put(&mut map, &mut set, k) },
            4 => for d in [-513, -512, -258, -257, -256, -255, -128, -64, -1, 0, 1, 64, 128, 255, 256, 257, 258, 512] { if r.chance(1, 3) { put(&mut map, &mut set, centre + d) } },
            5 => { let first = (centre + top) / 64; for ch in first - 5..=first + 5 { for b in [0, 1, 62, 63] { if r.chance(1, 4) { put(&mut map, &mut set, ch * 64 + b - top) } } } }
            _ => { for k in [-top, -top + 1, top - 1, top] { if r.chance(1, 2) { put(&mut map, &mut set, k) } } for _ in 0..r.below(4) { let k = r.range(-top as i64, top as i64) as i32; put(&mut map, &mut set, k) } }
        }
        // another pool's ticks around must not matter
        for _ in 0..r.below(30) { let k = (centre + r.range(-300, 300) as i32).clamp(-top, top); if !map.get(k * sp, s, other) { map.flip(true, k * sp, s, other) } }
        // some are removed again
        let gone: Vec<i32> = set.iter().filter(|_| r.chance(1, 8)).cloned().collect();
        for k in gone { set.remove(&k); map.flip(false, k * sp, s, mine) }
        for k in set.iter().take(40) { if !map.get(k * sp, s, mine) { return Err(format!("tick {} spacing {s} was initialised but is not found", k * sp)) } }
        for _ in 0..20 {
            let k = (centre + r.range(-700, 700) as i32).clamp(-top, top);
            if map.get(k * sp, s, mine) != set.contains(&k) { return Err(format!("tick {} spacing {s}: get() says {}, flips say {}", k * sp, !set.contains(&k), set.contains(&k))) }
            if r.chance(1, 10) && attempt(|| map.flip(set.contains(&k), k * sp, s, mine)).is_some() { return Err(format!("flip({}) to the state it already has succeeds (spacing {s})", set.contains(&k))) }
        }
        let shown = || -> String { format!("ticks {:?}, spacing {s}", set.iter().map(|k| k * sp).collect::<Vec<_>>().iter().take(40).collect::<Vec<_>>()) };
        for _ in 0..30 {
            let from = match r.below(4) { 0 => centre, 1 => set.iter().nth(r.below(set.len().max(1) as u64) as usize).map_or(centre, |k| k + *r.pick(&[-257, -256, -255, -64, -1, 0, 0, 1, 64, 255, 256, 257])), _ => centre + r.range(-600, 600) as i32 }.clamp(-top, top);
            let t = from * sp;
            let (lo, hi) = ((from - RANGE).max(-top), (from + RANGE).min(top));
            let down = set.range(lo..=from).next_back().map(|k| k * sp);
            let upw = if from < top { set.range(from + 1..=hi).next().map(|k| k * sp) } else { None };
            let g = attempt(|| map.prev_initialized(t, s, mine));
            if g != Some(down) { return Err(format!("searching down from {t} finds {g:?}, expected {down:?}; {}", shown())) }
            let g = attempt(|| map.next_initialized(t, s, mine));
            if g != Some(upw) { return Err(format!("searching up from {t} finds {g:?}, expected {upw:?}; {}", shown())) }
            for x_to_y in [true, false] {
                let end = if x_to_y { lo } else { hi } * sp;
                if get_search_limit(t, s, !x_to_y) != end { return Err(format!("search limit from {t} (up {}) spacing {s} is {}, expected {end}", !x_to_y, get_search_limit(t, s, !x_to_y))) }
                let near = if x_to_y { down } else { upw };
                let goal = near.unwrap_or(end);
                let pg = at(goal);
                let limit = match r.below(6) { 0 => pg, 1 => pg + 1, 2 => pg - 1, 3 => at(-TICK) + r.u128() % (at(TICK) - at(-TICK)), _ => { let a = at((goal - 5 * sp).max(-TICK)); let b = at((goal + 5 * sp).min(TICK)); a + r.u128() % (b - a + 1) } };
                let g = attempt(|| map.get_closer_limit(SqrtPrice(limit), x_to_y, t, s, mine));
                let before = if x_to_y { pg > limit } else { pg < limit };
                let ok = match (&g, near) {
                    (Some(Err(e)), None) => t == end && *e == InvariantError::TickLimitReached,
                    (Some(Ok(_)), None) if t == end => false,
                    (Some(Ok((p, lt))), _) => {
                        let reach = (goal, near.is_some());
                        if before { p.0 == pg && *lt == Some(reach) }
                        else if pg == limit { p.0 == pg && if near.is_some() && !x_to_y { *lt == Some(reach) } else { lt.is_none() || *lt == Some(reach) } }
                        else { p.0 == limit && lt.is_none() }
                    }
                    _ => false,
                };
                if !ok { return Err(format!("step limit from tick {t} (x_to_y {x_to_y}) with price limit {limit} is {g:?}; nearest tick {near:?}, range end {end}, price there {pg}; {}", shown())) }
                c.case((s, x_to_y, shape, near.map(|k| (k - t) / sp), (goal - t) / sp, pg.cmp(&limit)));
                c.count(if near.is_some() { if before { "stops at an initialised tick" } else { "stops at the caller's limit before a tick" } } else if t == end { "no further tick" } else { "stops at the range end or limit" });
            }
        }
        c.sample(|| format!("{} around {}", shown(), centre * sp));
    }
    Ok(())
}
/// Every tick of this spacing has its own bit, in order; nothing else is accepted.
fn positions(s: u16, c: &mut Cover) -> R {
    let sp = s as i32; let top = TICK / sp;
    let mut last: Option<(i32, (u16, u8))> = None;
    for k in -top..=top {
        let (ch, b) = tick_to_position(k * sp, s);
        if b > 63 || position_to_tick(ch, b, s) != k * sp { return Err(format!("tick {} spacing {s} is at ({ch}, {b}), which is tick {}", k * sp, position_to_tick(ch, b, s))) }
        if let Some((_, (lc, lb))) = last { if ch as i64 * 64 + b as i64 != lc as i64 * 64 + lb as i64 + 1 { return Err(format!("tick {} spacing {s} is at ({ch}, {b}), after ({lc}, {lb})", k * sp)) } }
        else if (ch, b) != (0, 0) { return Err(format!("the lowest tick with spacing {s} is at ({ch}, {b})")) }
        last = Some((k, (ch, b)));
        c.eval += 1;
    }
    if get_max_chunk(s) != last.unwrap().1 .0 { return Err(format!("the last chunk for spacing {s} is {}, the last tick is in {}", get_max_chunk(s), last.unwrap().1 .0)) }
    c.add("tick placed in the bitmap", (2 * top + 1) as u64);
    for t in [-TICK - 1, TICK + 1, i32::MAX, i32::MIN + 1, sp + 1, 2 * sp - 1] { if t % sp != 0 || t.abs() > TICK { if let Some(p) = attempt(|| tick_to_position(t, s)) { return Err(format!("tick_to_position({t}, {s}) returns {p:?}")) } } }
    Ok(())
}
