//! Crowded states: as many pools as the listing can index (and more), an account with more positions than a
//! tick query may answer. Successful calls are committed in bulk; around the boundary every call is its own transaction.
use crate::api::*;
use crate::codec::*;
use crate::exact::*;
use crate::oracle::Cover;
use crate::rng::Rng;
use crate::rt::*;
use crate::sim::*;
use num_traits::Zero;
use std::collections::BTreeMap;

const T: [Tier; 3] = [Tier { fee: 0, spacing: 1 }, Tier { fee: 10_000_000_000, spacing: 10 }, Tier { fee: 1, spacing: 100 }];
fn world(p: &Program) -> Result<World, String> {
    let mut w = World::on(Machine::with_memory(p, LIMIT_PAGES)?)?;
    let mut e = E::new(); e.str("New");
    w.init(ADMIN, e.addr(&ADMIN).u128(0).0)?;
    for t in T { w.send(ADMIN, Op::AddTier(t).payload(), 0, GAS, None); }
    Ok(w)
}
fn good(op: &Op, x: &Exec) -> Result<Ret, String> {
    if x.exit != Exit::Done { return Err(format!("{:?}", x.exit)) }
    op.decode(&x.reply.as_ref().ok_or("no reply")?.0)
}
fn token(i: u32, tag: u8) -> Addr { let mut a = [tag; 32]; a[28..].copy_from_slice(&i.wrapping_mul(0x9E37_79B1).to_be_bytes()); a }

/// One pool after the other, until the listing is full, and a few more.
pub fn pools(p: &Program, rng: &mut Rng, cov: &mut Cover) -> Result<(), String> {
    let mut w = world(p)?;
    let mut keys: Vec<Key> = vec![]; let mut made: BTreeMap<Key, (u64, i32)> = BTreeMap::new();
    let mut refused = 0;
    let max = u16::MAX as usize;
    let mut n = 0u32;
    while keys.len() <= max + 2 && refused < 6 {
        n += 1;
        let tier = *rng.pick(&T);
        // now and then another tier of the previous pair, named in the other order
        let (a, b) = match keys.last() { Some(k) if rng.chance(1, 10) => (k.y, k.x), _ => (token(n, 0x51), token(n, 0xA7)) };
        let key = Key { x: a.min(b), y: a.max(b), tier };
        if made.contains_key(&key) { continue }
        let op = Op::CreatePool { a, b, tier, price: 1_000_000_000_000_000_000_000_000, tick: 0 };
        if rng.chance(1, 64) { w.c.block += 1; w.c.ts += 3000 }
        let near = keys.len() + 40 > max;
        let x = w.bulk(user((n % 5) as u8 + 1), op.payload());
        match good(&op, &x) {
            Ok(_) => { keys.push(key); made.insert(key, (w.c.ts, 0)); if near || keys.len() % 4096 == 0 { w.m.commit() } }
            Err(e) => {
                if keys.len() < max { return Err(format!("a pool is refused although there are only {}: {e}", keys.len())) }
                refused += 1; w.m.rollback();
            }
        }
        if near || keys.len() % 16384 == 0 {
            w.m.commit();
            let off = (keys.len() as u32 - rng.below(40.min(keys.len() as u64)) as u32).min(max as u32 - 7) as u16;
            let (page, total) = w.pool_keys(7, off)?;
            w.end_queries();
            let want: Vec<Key> = keys.iter().skip(off as usize).take(7).copied().collect();
            if total as usize != keys.len() { return Err(format!("{} pools were created, the listing reports {total}", keys.len())) }
            if page != want { return Err(format!("7 pools from {off} of {}: got {} keys, {} of them as created", keys.len(), page.len(), page.iter().zip(&want).filter(|(a, b)| a == b).count())) }
            cov.hit(format!("crowd|pools|{}|{}", if near { keys.len() } else { keys.len() / 4096 }, refused), || format!("{} pools, {refused} refused", keys.len()));
        }
    }
    w.m.commit();
    // the whole listing, page by page
    let (mut all, mut off): (Vec<Key>, u32) = (vec![], 0);
    loop {
        let size = (1 + rng.below(20_000) as u32).min(max as u32 - off);
        let (page, total) = w.pool_keys(size as u16, off as u16)?;
        if total as usize != keys.len() { return Err(format!("{} pools were created, the listing reports {total}", keys.len())) }
        all.extend(page);
        off += size;
        if off as usize >= max { break }
    }
    if all != keys { return Err(format!("walking the pages gives {} pools, {} were created; first difference at {:?}", all.len(), keys.len(), all.iter().zip(&keys).position(|(a, b)| a != b))) }
    for i in 0..300 {
        let k = keys[if i < 2 { [0, keys.len() - 1][i] } else { rng.below(keys.len() as u64) as usize }];
        let (ts, tick) = made[&k];
        let Ok(p) = w.pool_by(&k.y, &k.x, &k.tier)? else { return Err("a created pool is gone".into()) };
        if p.start != ts || p.last != ts || p.tick != tick || p.receiver != ADMIN || !p.liquidity.is_zero() { return Err(format!("a pool's record is not as created: {p:?}")) }
        if i % 60 == 0 {
            w.end_queries();
            let x = w.bulk(user(1), Op::CreatePool { a: k.y, b: k.x, tier: k.tier, price: 1_000_000_000_000_000_000_000_000, tick: 0 }.payload());
            w.m.rollback();
            if x.exit == Exit::Done { return Err("a pool is created twice".into()) }
        }
        cov.hit(format!("crowd|record|{}", i % 60 == 0), || format!("pool {:?}", k.tier));
    }
    w.end_queries();
    Ok(())
}

/// An account with more positions than one tick query may answer, then removals and transfers among them.
pub fn positions(p: &Program, rng: &mut Rng, cov: &mut Cover) -> Result<(), String> {
    const LIMIT: usize = 17_872;
    let mut w = world(p)?;
    let (a, b) = (token(1, 0x51), token(2, 0xA7));
    let mut keys = vec![];
    for (i, t) in T.iter().enumerate() {
        let op = Op::CreatePool { a, b, tier: *t, price: 1_000_000_000_000_000_000_000_000, tick: 0 };
        good(&op, &w.bulk(user(1), op.payload())).map_err(|e| format!("pool {i}: {e}"))?;
        keys.push(Key { x: a.min(b), y: a.max(b), tier: *t });
    }
    w.m.commit();
    // liquidity outside the price needs one token only; tiny amounts of VARA pay for nothing here, so deposits come from a token
    crate::crowd::fund(&mut w, user(1), a)?; crate::crowd::fund(&mut w, user(1), b)?;
    let n = LIMIT / 2 + 20 + rng.below(40) as usize;
    let mut model: Vec<Position> = vec![];
    for i in 0..n {
        let key = *rng.pick(&keys); let s = key.tier.spacing as i32;
        let lower = (rng.below(60) as i32 - 30) * s; let upper = lower + (1 + rng.below(30) as i32) * s;
        let op = Op::Create { key, lower, upper, liquidity: N::from(1000u32 + i as u32), min: 0, max: u128::MAX };
        let Ret::Position(q) = good(&op, &w.bulk(user(1), op.payload())).map_err(|e| format!("position {i}: {e}"))? else { return Err("no position".into()) };
        model.push(q);
        if i % 512 == 0 { w.m.commit(); w.c.block += 1; w.c.ts += 3000 }
    }
    w.m.commit();
    let mut other: Vec<Position> = vec![];
    for round in 0..60 {
        let n = model.len();
        if round > 0 {
            // removals and transfers at the ends, in the middle and at the limit
            let any = rng.below(n as u64) as usize;
            let i = *rng.pick(&[0, n - 1, LIMIT / 2, LIMIT / 2 - 1, n / 2, any]);
            let i = i.min(n - 1);
            let op = if rng.chance(1, 2) { Op::Remove(i as u32) } else { Op::Transfer { index: i as u32, to: user(2) } };
            let x = w.bulk(user(1), op.payload());
            good(&op, &x).map_err(|e| format!("{op:?} of {n} positions: {e}"))?;
            w.m.commit();
            let q = model.swap_remove(i);
            if let Op::Transfer { .. } = op { other.push(q) }
        }
        let n = model.len();
        if w.position_count(&user(1))? as usize != n { return Err(format!("{n} positions are open, the count reports another number")) }
        for k in 0..6 {
            let any = rng.below(n as u64) as usize;
            let off = *rng.pick(&[0, n - 1, n, n + 1, LIMIT / 2, LIMIT / 2 - 1, n.saturating_sub(LIMIT / 2), any]);
            if k < 2 || round == 0 {
                let got = w.pos_ticks(&user(1), off as u32)?;
                let mut want: Vec<i32> = model.iter().skip(off).flat_map(|p| [p.lower, p.upper]).collect(); want.truncate(LIMIT);
                if got.iter().map(|t| t.index).ne(want.iter().copied()) { return Err(format!("ticks of the positions from {off} of {n}: {} ticks, expected {}", got.len(), want.len())) }
                cov.hit(format!("crowd|posticks|{}|{}", want.len() == LIMIT, off.min(3)), || format!("{} ticks from {off} of {n}", want.len()));
            }
            let size = *rng.pick(&[1, 50, 1800, n]);
            let Ok((g, total)) = w.positions_page(&user(1), size as u32, off as u32)? else { return Err("a page of positions failed".into()) };
            let mut flat: Vec<(u32, Position)> = g.into_iter().flat_map(|x| x.1).map(|(p, i)| (i, p)).collect(); flat.sort_by_key(|x| x.0);
            let want: Vec<(u32, &Position)> = model.iter().enumerate().skip(off).take(size).map(|(i, p)| (i as u32, p)).collect();
            if total as usize != n || flat.iter().map(|x| (x.0, &x.1)).ne(want.iter().copied()) { return Err(format!("page {size}@{off} of {n} positions ({total} reported) differs from what is open")) }
            cov.hit(format!("crowd|pospage|{}|{size}", off.min(3)), || format!("page {size}@{off} of {n}"));
        }
        if w.positions(&user(2))? != other { return Err("the receiver of transferred positions does not hold them as transferred".into()) }
        if round % 20 == 0 && w.positions(&user(1))? != model { return Err("the full listing differs from what is open".into()) }
        w.end_queries();
    }
    Ok(())
}
/// A deposit that the token confirms.
pub fn fund(w: &mut World, who: Addr, token: Addr) -> Result<(), String> {
    w.send(who, Op::Deposit { token, amount: N::from(1u8) << 100 }.payload(), 0, GAS, None);
    let s = w.c.to_tokens.pop().ok_or("the token was not asked")?;
    let mut e = E::new(); e.str("Vft"); e.str("TransferFrom");
    w.deliver_reply(TokenReply { to: s.id, from: token, payload: e.bool(true).0, code: [0; 4], gas: GAS }, None);
    while !w.c.woken.is_empty() { w.step_woken(0, None, None); }
    w.c.events.clear(); w.c.done.clear();
    Ok(())
}

/// More initialised ticks than one query may ask for, swaps that cross thousands of them, removals among them.
pub fn ticks(p: &Program, rng: &mut Rng, cov: &mut Cover) -> Result<(), String> {
    const LIMIT: usize = 21_544;
    let mut w = world(p)?;
    let tier = Tier { fee: 1_000_000_000, spacing: 1 };
    w.send(ADMIN, Op::AddTier(tier).payload(), 0, GAS, None);
    let (a, b) = (token(1, 0x51), token(2, 0xA7));
    let key = Key { x: a.min(b), y: a.max(b), tier };
    good(&Op::CreatePool { a, b, tier, price: 1_000_000_000_000_000_000_000_000, tick: 0 }, &w.bulk(user(1), Op::CreatePool { a, b, tier, price: 1_000_000_000_000_000_000_000_000, tick: 0 }.payload()))?;
    w.m.commit();
    for u in 1..=5 { fund(&mut w, user(u), a)?; fund(&mut w, user(u), b)?; }
    // half of them close together around the price, the others anywhere
    let n = LIMIT / 2 + 300 + rng.below(300) as usize;
    let mut model: Vec<Vec<Position>> = vec![vec![]; 6];
    let m = max_tick(1);
    for i in 0..n {
        let (lower, upper) = if i % 2 == 0 { let l = rng.range(-12_000, 12_000) as i32; (l, l + 1 + rng.below(9_000) as i32) } else { let x = rng.range(-m as i64, m as i64) as i32; let y = rng.range(-m as i64, m as i64) as i32; (x.min(y), x.max(y)) };
        let upper = upper.min(m);
        if lower >= upper { continue }
        let who = 1 + (i % 5) as u8;
        let op = Op::Create { key, lower, upper, liquidity: N::from(1_000_000_000_000u64) + rng.log(44), min: 0, max: u128::MAX };
        let Ret::Position(q) = good(&op, &w.bulk(user(who), op.payload())).map_err(|e| format!("position {i} ({lower}..{upper}): {e}"))? else { return Err("no position".into()) };
        model[who as usize].push(q);
        if i % 512 == 0 { w.m.commit(); w.c.block += 1; w.c.ts += 3000 }
    }
    w.m.commit();
    let mut order = false;
    for round in 0..40 {
        if round > 0 {
            for _ in 0..if round % 5 == 0 { 150 } else { 4 } {
                let who = 1 + rng.below(5) as usize; if model[who].is_empty() { continue }
                let i = rng.below(model[who].len() as u64) as usize;
                good(&Op::Remove(i as u32), &w.bulk(user(who as u8), Op::Remove(i as u32).payload())).map_err(|e| format!("removing position {i}: {e}"))?;
                w.m.commit(); model[who].swap_remove(i);
            }
        }
        // the ticks as the open positions make them
        let mut t: BTreeMap<i32, (N, N)> = BTreeMap::new();
        for q in model.iter().flatten() { for (i, s) in [(q.lower, true), (q.upper, false)] { let e = t.entry(i).or_insert_with(|| (N::zero(), N::zero())); if s { e.0 += &q.liquidity } else { e.0 -= &q.liquidity } e.1 += &q.liquidity } }
        let idx: Vec<i32> = t.keys().copied().collect();
        if w.tick_count(&key)? as usize != idx.len() { return Err(format!("{} ticks bound positions, the count reports {}", idx.len(), w.tick_count(&key)?)) }
        let listed = crate::state::decode_map(&w.tickmap(&key)?, 1);
        if listed != idx { return Err(format!("the tick map lists {} ticks, positions are bound by {}; first difference at {:?}", listed.len(), idx.len(), listed.iter().zip(&idx).find(|(a, b)| a != b))) }
        // lists of ticks, up to the documented length and beyond
        let off = rng.below((idx.len() - LIMIT.min(idx.len()) + 1) as u64) as usize;
        let mut ask: Vec<i32> = idx[off..].iter().take(LIMIT).copied().collect();
        if round % 3 == 1 { ask.truncate(1 + rng.below(300) as usize); rng.shuffle(&mut ask) }
        let got = w.liq_ticks(&key, &ask)?.map_err(|e| format!("{} ticks are refused (error {e})", ask.len()))?;
        if got.len() != ask.len() { return Err(format!("{} ticks asked, {} answered", ask.len(), got.len())) }
        for (g, i) in got.iter().zip(&ask) {
            let (net, _) = &t[i];
            if g.index != *i || (if g.sign { g.change.clone() } else { -g.change.clone() }) != *net { return Err(format!("tick {i} has net liquidity {net}, the list answers {g:?}")) }
        }
        let mut more: Vec<i32> = idx.iter().cycle().take(LIMIT + 1).copied().collect(); rng.shuffle(&mut more);
        if w.liq_ticks(&key, &more)?.is_ok() { return Err("more ticks than the documented limit are answered".into()) }
        for _ in 0..60 {
            let i = *rng.pick(&idx); let r = w.tick(&key, i)?.map_err(|e| format!("tick {i} has no record ({e})"))?;
            if r.gross != t[&i].1 || net(&r) != t[&i].0 { return Err(format!("tick {i}: record {r:?}, positions sum to {:?}", t[&i])) }
            let j = i + rng.range(-3, 3) as i32;
            if w.tick_init(&key, j)? != t.contains_key(&j) { return Err(format!("tick {j} is reported initialised wrongly")) }
        }
        // a swap through many of them
        let Ok(p0) = w.pool(&key)? else { return Err("the pool is gone".into()) };
        let sum: N = model.iter().flatten().filter(|q| q.lower <= p0.tick && p0.tick < q.upper).map(|q| q.liquidity.clone()).sum();
        if p0.liquidity != sum { return Err(format!("at tick {} positions of liquidity {sum} are in range, the pool has {}", p0.tick, p0.liquidity)) }
        order = if rng.chance(1, 4) { order } else { !order };
        let limit = if order { MIN_PRICE } else { MAX_PRICE };
        let amount: N = rng.log(18) * (N::from(1u8) << (8 + rng.below(16) as u32));
        // a swap may be too long for one block
        if !matches!(w.quote(&key, order, &amount, true, limit), Ok(Ok(_))) { w.end_queries(); cov.hit(format!("crowd|ticks|refused|{order}"), || format!("{amount} in at tick {}", p0.tick)); continue }
        w.end_queries();
        let who = user(1 + rng.below(5) as u8);
        let op = Op::Swap { key, x_to_y: order, amount, by_in: true, limit };
        let x = w.bulk(who, op.payload());
        match good(&op, &x) {
            Ok(Ret::Swap(s)) => {
                w.m.commit();
                let Ok(p1) = w.pool(&key)? else { return Err("the pool is gone".into()) };
                w.end_queries();
                let sum: N = model.iter().flatten().filter(|q| q.lower <= p1.tick && p1.tick < q.upper).map(|q| q.liquidity.clone()).sum();
                if p1.liquidity != sum { return Err(format!("after a swap over {} ticks to {}: positions of liquidity {sum} are in range, the pool has {}", s.ticks.len(), p1.tick, p1.liquidity)) }
                let between = if order { idx.iter().filter(|i| **i > p1.tick && **i <= p0.tick).count() } else { idx.iter().filter(|i| **i > p0.tick && **i <= p1.tick).count() };
                if s.ticks.len() != between { return Err(format!("a swap from tick {} to {} reports {} crossings of {between} initialised ticks", p0.tick, p1.tick, s.ticks.len())) }
                cov.hit(format!("crowd|ticks|{order}|{}", (between as f64).log2() as u32), || format!("{between} ticks crossed from {} to {}", p0.tick, p1.tick));
            }
            Ok(_) => return Err("no swap".into()),
            Err(e) if e.contains("gas") => w.m.rollback(),
            Err(e) => { w.m.rollback(); return Err(format!("{op:?} from tick {} was quoted and is refused: {e}", p0.tick)) }
        }
    }
    Ok(())
}

/// Hundreds of fee tiers, added and removed in any order.
pub fn tiers(p: &Program, rng: &mut Rng, cov: &mut Cover) -> Result<(), String> {
    let mut w = world(p)?;
    let mut have: Vec<Tier> = w.tiers()?; w.end_queries();
    let (mut a, mut b) = (0u32, 0u32);
    for round in 0..900 {
        let known = !have.is_empty() && rng.chance(1, 12);
        let t = if known { *rng.pick(&have) } else { Tier { fee: rng.below(1_000_000_000_000) as u128, spacing: 1 + rng.below(100) as u16 } };
        let remove = round > 300 && rng.chance(2, 5);
        let t = if remove && !known { *rng.pick(&have) } else { t };
        let op = if remove { Op::RemoveTier(t) } else { Op::AddTier(t) };
        let x = w.bulk(ADMIN, op.payload());
        let listed = have.contains(&t);
        match good(&op, &x) {
            Ok(_) if listed == remove => { w.m.commit(); if remove { have.retain(|u| *u != t); a += 1 } else { have.push(t); b += 1 } }
            Ok(_) => return Err(format!("{op:?} succeeds although the tier is{} listed", if listed { "" } else { " not" })),
            Err(e) if listed == remove => return Err(format!("{op:?} among {} tiers is refused: {e}", have.len())),
            Err(_) => w.m.rollback(),
        }
        if round % 10 == 0 {
            let mut got = w.tiers()?; let mut want = have.clone();
            got.sort(); want.sort();
            if got != want { return Err(format!("{} tiers are listed, {} were added and not removed", got.len(), want.len())) }
            for _ in 0..5 { let t = if rng.chance(1, 2) { *rng.pick(&have) } else { Tier { fee: rng.below(1_000_000_000_000) as u128, spacing: 1 + rng.below(100) as u16 } }; if w.tier_exists(t)? != have.contains(&t) { return Err(format!("{t:?} is reported wrongly")) } }
            w.end_queries();
            // a pool of a listed tier can be created, one of another cannot
            let t = *rng.pick(&have); let (x, y) = (token(round, 0x51), token(round, 0xA7));
            let mk = |t: Tier| Op::CreatePool { a: x, b: y, tier: t, price: 1_000_000_000_000_000_000_000_000, tick: 0 };
            good(&mk(t), &w.bulk(user(1), mk(t).payload())).map_err(|e| format!("a pool of the listed {t:?} is refused: {e}"))?; w.m.commit();
            let u = Tier { fee: t.fee ^ 1, spacing: t.spacing };
            if !have.contains(&u) { let e = w.bulk(user(1), mk(u).payload()); w.m.rollback(); if e.exit == Exit::Done { return Err(format!("a pool of the unlisted {u:?} is created")) } }
            cov.hit(format!("crowd|tiers|{}", have.len() / 16), || format!("{} tiers, {b} added, {a} removed", have.len()));
        }
    }
    Ok(())
}

/// Many small positions on few ranges, swaps into them from either side, fees collected in small portions, then
/// everybody leaves: what the accounts and the fee receiver hold afterwards is at most what was paid in. Rounding that
/// favours an owner by a single unit adds up here.
pub fn dust(p: &Program, rng: &mut Rng, cov: &mut Cover) -> Result<(), String> {
    let mut w = World::on(Machine::new(p)?)?;
    let mut e = E::new(); e.str("New");
    w.init(ADMIN, e.addr(&ADMIN).u128(*rng.pick(&[0, 0, 1, 10_000_000_000, 500_000_000_000])).0)?;
    let tier = Tier { fee: *rng.pick(&[0, 0, 0, 1, 100_000_000, 10_000_000_000]), spacing: *rng.pick(&[1, 2, 10, 100]) };
    w.send(ADMIN, Op::AddTier(tier).payload(), 0, GAS, None);
    let s = tier.spacing as i32; let m = max_tick(tier.spacing) / s;
    let (a, b) = (token(1, 0x51), token(2, 0xA7)); let key = Key { x: a.min(b), y: a.max(b), tier };
    let at = (*rng.pick(&[0, 0, 60, -60, 3000, -3000, 90_000, -90_000]) / s).clamp(-m + 200, m - 200) * s;
    // the price of a tick: a little above its approximation is still in it
    let op = Op::CreatePool { a, b, tier, price: (approx_price(at) as f64 * 1.00002) as u128, tick: at };
    good(&op, &w.bulk(user(1), op.payload()))?; w.m.commit();
    for u in 1..=5 { fund(&mut w, user(u), a)?; fund(&mut w, user(u), b)?; }
    let paid = (N::from(1u8) << 100) * 5;
    let n = 15 + rng.below(60) as usize;
    let bits = *rng.pick(&[8u32, 20, 30, 40]); let same = rng.chance(1, 2);
    let l0 = N::from(100_000u32) + rng.log(bits);
    let side = rng.below(3); let mut ranges: Vec<(i32, i32)> = vec![];
    for _ in 0..1 + rng.below(3) {
        let d = (1 + rng.below(20) as i32) * s; let len = (1 + rng.below(60) as i32) * s;
        ranges.push(match side { 0 => (at + d, at + d + len), 1 => (at - d - len, at - d), _ => (at - d, at + len) });
    }
    let mut count = [0u32; 6];
    let mut log: Vec<String> = vec![];
    for i in 0..n {
        let (lower, upper) = ranges[i % ranges.len()];
        let liquidity = if same { l0.clone() } else { N::from(1u8) + rng.log(bits + 17) };
        let who = 1 + rng.below(5) as u8;
        let op = Op::Create { key, lower, upper, liquidity, min: 0, max: u128::MAX };
        let x = w.bulk(user(who), op.payload());
        good(&op, &x).map_err(|e| format!("{op:?}: {e}"))?; w.m.commit();
        count[who as usize] += 1; log.push(format!("{who} {op:?}"));
    }
    let mut swaps = 0;
    for round in 0..2 + rng.below(14) {
        let toward = match side { 0 => false, 1 => true, _ => rng.chance(1, 2) };
        let x_to_y = if round == 0 || rng.chance(1, 2) { toward } else { !toward };
        let mut amount: N = N::from(1u8) + rng.log(bits + 10);
        for _ in 0..24 {
            let op = Op::Swap { key, x_to_y, amount: amount.clone(), by_in: rng.chance(2, 3), limit: if x_to_y { MIN_PRICE } else { MAX_PRICE } };
            let who = 1 + rng.below(5) as u8;
            let x = w.bulk(user(who), op.payload());
            if x.exit == Exit::Done { w.m.commit(); swaps += 1; log.push(format!("{who} {op:?}")); break }
            w.m.rollback(); amount = amount / 3u8; if amount.is_zero() { break }
        }
        for _ in 0..rng.below(30) {
            let who = 1 + rng.below(5) as u8; if count[who as usize] == 0 { continue }
            let op = Op::Claim(rng.below(count[who as usize] as u64) as u32);
            good(&op, &w.bulk(user(who), op.payload())).map_err(|e| format!("{op:?}: {e}"))?; w.m.commit();
        }
        if rng.chance(1, 4) { w.bulk(ADMIN, Op::CollectProtocol(key).payload()); w.m.commit(); w.c.ts += 3000; w.c.block += 1 }
    }
    while count.iter().any(|c| *c > 0) {
        let who = 1 + rng.below(5) as usize; if count[who] == 0 { continue }
        let op = Op::Remove(rng.below(count[who] as u64) as u32);
        good(&op, &w.bulk(user(who as u8), op.payload())).map_err(|e| format!("an owner cannot leave: {op:?}: {e}"))?; w.m.commit(); count[who] -= 1;
    }
    let op = Op::CollectProtocol(key);
    good(&op, &w.bulk(ADMIN, op.payload())).map_err(|e| format!("{op:?}: {e}"))?; w.m.commit();
    for t in [a, b] {
        let mut sum = N::zero();
        for u in [ADMIN].into_iter().chain((1..=5).map(user)) { for (k, v) in w.balances(&u)? { if k == t { sum += v } } }
        w.end_queries();
        if sum > paid { return Err(format!("{n} positions on {ranges:?} at tick {at} of {tier:?}, {swaps} swaps; everybody left and holds {} units more of a token than were paid in: {}", &sum - &paid, log.iter().rev().take(30).rev().map(|s| shorten(s)).collect::<Vec<_>>().join("; "))) }
        let left: N = &paid - &sum;
        cov.hit(format!("crowd|dust|{side}|{same}|{}|{}|{}", tier.fee > 0, swaps.min(4), left.bits()), || format!("{n} positions, {swaps} swaps, {left} units of dust stay"));
    }
    Ok(())
}
