//! Monitors: relations that every step (state before, call, outcome, state after) must satisfy.
use crate::api::*;
use crate::codec::*;
use crate::exact::*;
use crate::rt::*;
use crate::sim::*;
use crate::state::*;
use num_integer::Integer;
use num_traits::{One, Zero};
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub type V = Result<(), String>;
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)) } } }

#[derive(Default)]
pub struct Cover { pub eval: u64, pub sigs: HashSet<String>, pub samples: Vec<String>, pub counts: BTreeMap<String, u64> }
impl Cover {
    pub fn hit(&mut self, sig: String, sample: impl FnOnce() -> String) {
        self.eval += 1;
        let tag = sig.split('|').next().unwrap_or("").to_string();
        *self.counts.entry(tag).or_insert(0) += 1;
        if self.sigs.insert(sig) && self.samples.len() < 12 && self.sigs.len() % 3 == 1 { let s = sample(); if !s.is_empty() { self.samples.push(s) } }
    }
    pub fn merge(&mut self, o: Cover) {
        self.eval += o.eval; self.sigs.extend(o.sigs);
        for (k, v) in o.counts { *self.counts.entry(k).or_insert(0) += v }
        for s in o.samples { if self.samples.len() < 12 { self.samples.push(s) } }
    }
}
fn mag(v: &N) -> u64 { v.bits() / 8 }

/// One executed swap of one pool.
pub struct Leg { pub key: Key, pub down: bool, pub by_in: bool, pub amount: Option<N>, pub limit: Option<u128>, pub a_in: N, pub a_out: N, pub fee: N, pub start: u128, pub target: u128 }
pub fn legs(s: &Step) -> Vec<Leg> {
    match (&s.op, &s.ok) {
        (Op::Swap { key, x_to_y, amount, by_in, limit }, Some(Ret::Swap(r))) => vec![Leg { key: *key, down: *x_to_y, by_in: *by_in, amount: Some(amount.clone()), limit: Some(*limit), a_in: r.amount_in.clone(), a_out: r.amount_out.clone(), fee: r.fee.clone(), start: r.start, target: r.target }],
        (Op::Route { hops, .. }, Some(_)) => {
            let set: BTreeSet<Key> = hops.iter().map(|h| h.0).collect();
            if set.len() != hops.len() { return vec![] }
            s.events.iter().filter_map(|e| match e { Event::Swap { key, amount_in, amount_out, fee, start, target, x_to_y, .. } => Some(Leg { key: *key, down: *x_to_y, by_in: true, amount: None, limit: None, a_in: amount_in.clone(), a_out: amount_out.clone(), fee: fee.clone(), start: *start, target: *target }), _ => None }).collect()
        }
        _ => vec![],
    }
}
/// Initialised ticks whose side changed, in crossing order.
pub fn crossed(b: &PoolDump, a: &PoolDump, down: bool) -> Vec<i32> {
    if down { b.ticks.keys().rev().filter(|t| a.pool.tick < **t && **t <= b.pool.tick).copied().collect() }
    else { b.ticks.keys().filter(|t| b.pool.tick < **t && **t <= a.pool.tick).copied().collect() }
}
/// Bounds of a swap's amounts from the exact curve.
pub struct Bounds { pub in_lo: N, pub in_hi: N, pub out_lo: N, pub out_hi: N, pub net_lo: N, pub slack: N, pub steps: i64, pub segs: usize }
pub fn bounds(l: &Leg, b: &PoolDump, a: &PoolDump) -> Bounds {
    let f = l.key.tier.fee; let sp = l.key.tier.spacing;
    let segs = path(&b.pool, sp, &b.ticks, l.target, l.down);
    let steps = segs.len() as i64 + ((a.pool.tick - b.pool.tick).abs() / (256 * sp as i32)) as i64 + 2;
    let (mut in_lo, mut net_lo, mut in_hi, mut out_hi, mut out_lo) = (N::zero(), N::zero(), N::zero(), N::zero(), N::zero());
    let p1 = l.target;
    let (far, near) = if l.down { (p1.saturating_sub(2).max(1), (p1 + 2).min(b.pool.price)) } else { (p1 + 2, p1.saturating_sub(2).max(b.pool.price)) };
    let lmax = segs.iter().rev().take(2).map(|s| s.l.clone()).max().unwrap().max(a.pool.liquidity.clone());
    let one = p10(12); let mut slack = N::zero();
    let last = segs.iter().rposition(|s| s.p != s.q).unwrap_or(segs.len() - 1);
    for (i, s) in segs.iter().enumerate() {
        let net = seg_in(s, l.down).ceil_eps();
        in_lo += &net + pct_up(&net, f); net_lo += &net;
        out_hi += seg_out(s, l.down).floor();
        if l.down { slack += x_slack_path(&s.l, s.p, s.q) }
        let up = seg_in(s, l.down).ceil() + 1 + x_slack_path(&s.l, s.p, s.q);
        if i < last || !l.by_in { in_hi += &up + pct_up(&up, f) + 1; }
        else {
            let extra = seg_in(&Seg { p: p1, q: far, l: lmax.clone(), ..s.clone() }, l.down).ceil() + 3 + x_slack_path(&lmax, p1, far);
            { let v: N = (&up + extra + 3) * &one; let d: N = &one - f; in_hi += v.div_ceil(&d) + 2; }
        }
        out_lo += seg_out(s, l.down).floor() - x_slack_path(&s.l, s.p, s.q);
    }
    in_hi += 2 * steps;
    out_lo -= seg_out(&Seg { p: near, q: p1, l: lmax.clone(), tick: None, reference: 0 }, l.down).ceil() + steps + 1;
    Bounds { in_lo, in_hi, out_lo, out_hi, net_lo, slack, steps, segs: segs.len() }
}

/// Fees of a position as its accumulators say (what a collection pays).
pub fn growth_inside(pool: &Pool, lo: &Tick, hi: &Tick) -> (u128, u128) {
    let side = |g: u128, lo_o: u128, hi_o: u128| -> u128 {
        let below = if pool.tick >= lo.index { lo_o } else { g.wrapping_sub(lo_o) };
        let above = if pool.tick < hi.index { hi_o } else { g.wrapping_sub(hi_o) };
        g.wrapping_sub(below).wrapping_sub(above)
    };
    (side(pool.gx, lo.gox, hi.gox), side(pool.gy, lo.goy, hi.goy))
}
pub fn fee_of(l: &N, g: u128) -> N { (l * g).div_floor(&p10(33)) }
pub fn claimable(pd: &PoolDump, p: &Position) -> Option<(N, N)> {
    let (lo, hi) = (pd.ticks.get(&p.lower)?, pd.ticks.get(&p.upper)?);
    let (gx, gy) = growth_inside(&pd.pool, lo, hi);
    Some((&p.owed_x + fee_of(&p.liquidity, gx.wrapping_sub(p.gix)), &p.owed_y + fee_of(&p.liquidity, gy.wrapping_sub(p.giy))))
}

#[derive(Clone, Debug)]
struct Track { pos: Position, gx: u128, gy: u128 }
pub struct Mon { pub prop: &'static str, pub cov: Cover, tracks: Vec<Track>, quote: Option<Q<Result<Quote, u8>>>, rquote: Option<Q<Result<N, u8>>>, pub twin: Option<crate::sdk::Twin> }

fn same_key_pos(a: &Position, b: &Position) -> bool { a.key == b.key && a.liquidity == b.liquidity && a.lower == b.lower && a.upper == b.upper && a.block == b.block }
fn class(s: &Step) -> String { if s.ok.is_some() { "ok".into() } else { err_of(&s.err).map(|e| e.to_string()).unwrap_or_else(|| s.err.chars().take(24).collect()) } }

/// Calls that must be refused, whatever the implementation does.
pub fn must_fail(b: &Dump, by: &Addr, op: &Op) -> Option<&'static str> {
    let known = |k: &Key| b.pools.contains_key(k);
    let cover = |t: &Addr, v: &N| b.bal(by, t) >= *v;
    let npos = b.users.get(by).map_or(0, |u| u.pos.len());
    match op {
        Op::SetProtocolFee(_) | Op::AddTier(_) | Op::RemoveTier(_) | Op::SetReceiver { .. } if *by != ADMIN => Some("caller is not the administrator"),
        Op::AddTier(t) if t.spacing == 0 || t.spacing > 100 => Some("tick spacing"),
        Op::AddTier(t) if t.fee >= 1_000_000_000_000 => Some("fee of 100% or more"),
        Op::AddTier(t) if b.tiers.contains(t) => Some("duplicate tier"),
        Op::RemoveTier(t) if !b.tiers.contains(t) => Some("unknown tier"),
        Op::SetReceiver { key, .. } | Op::CollectProtocol(key) if !known(key) => Some("unknown pool"),
        Op::CollectProtocol(k) if b.pools[k].pool.receiver != *by => Some("caller is not the fee receiver"),
        Op::CreatePool { a, b: c, .. } if a == c => Some("same tokens"),
        Op::CreatePool { tier, .. } if !b.tiers.contains(tier) => Some("unlisted tier"),
        Op::CreatePool { a, b: c, tier, .. } if known(&Key { x: *a.min(c), y: *a.max(c), tier: *tier }) => Some("pool exists"),
        Op::CreatePool { tier, tick, .. } if tick % tier.spacing as i32 != 0 || tick.unsigned_abs() as i64 > MAX_TICK as i64 => Some("invalid tick"),
        Op::Create { key, .. } if !known(key) => Some("unknown pool"),
        Op::Create { liquidity, .. } if liquidity.is_zero() => Some("zero liquidity"),
        Op::Create { lower, upper, .. } if lower >= upper => Some("empty range"),
        Op::Create { key, lower, upper, .. } if lower % key.tier.spacing as i32 != 0 || upper % key.tier.spacing as i32 != 0 || *lower < -MAX_TICK || *upper > MAX_TICK => Some("invalid tick"),
        Op::Create { key, min, max, .. } if { let p = b.pools[key].pool.price; p < *min || p > *max } => Some("price outside the limits"),
        Op::Create { key, liquidity, lower, upper, .. } if { let pd = &b.pools[key]; let max = u256_max() / ((2 * MAX_TICK + 1) / key.tier.spacing as i32) as u32;
            [lower, upper].iter().any(|t| pd.ticks.get(t).map_or_else(N::zero, |t| t.gross.clone()) + liquidity > max) } => Some("liquidity above the tick limit"),
        Op::Remove(i) | Op::Claim(i) | Op::Transfer { index: i, .. } if *i as usize >= npos => Some("no such position"),
        Op::Swap { amount, .. } if amount.is_zero() => Some("zero amount"),
        Op::Swap { key, .. } if !known(key) => Some("unknown pool"),
        Op::Swap { key, x_to_y, limit, .. } if { let p = b.pools[key].pool.price; if *x_to_y { *limit >= p || *limit > MAX_PRICE } else { *limit <= p || *limit < MIN_PRICE } } => Some("limit on the wrong side"),
        Op::Swap { key, x_to_y, amount, by_in: true, .. } if !cover(if *x_to_y { &key.x } else { &key.y }, amount) => Some("insufficient balance"),
        Op::Route { hops, .. } if hops.iter().any(|h| !known(&h.0)) => Some("unknown pool"),
        Op::Route { amount, hops, .. } if !hops.is_empty() && amount.is_zero() => Some("zero amount"),
        Op::Route { amount, hops, .. } if hops.first().map_or(false, |(k, d)| !cover(if *d { &k.x } else { &k.y }, amount) && hops.len() == 1) => Some("insufficient balance"),
        Op::WithdrawVara(Some(v)) if v.is_zero() => Some("zero amount"),
        Op::WithdrawVara(Some(v)) if !cover(&ZERO, v) => Some("insufficient balance"),
        Op::Withdraw { amount: Some(v), .. } if v.is_zero() => Some("zero amount"),
        Op::Withdraw { token, amount: Some(v) } if !cover(token, v) => Some("insufficient balance"),
        Op::Deposit { token, .. } if *token == ZERO => Some("native token"),
        Op::Deposit { amount, .. } if amount.is_zero() => Some("zero amount"),
        Op::Withdraw { token, amount } if *token == ZERO && amount.as_ref().map_or(!b.bal(by, &ZERO).is_zero(), |a| !a.is_zero()) => Some("native token"),
        Op::DepositPair { a, b: c } if a.0 == c.0 => Some("same tokens"),
        Op::WithdrawPair { a, b: c } if a.0 == c.0 => Some("same tokens"),
        Op::DepositPair { a, b: c } if (a.0 == ZERO && !a.1.is_zero()) || (c.0 == ZERO && !c.1.is_zero()) => Some("native token"),
        Op::WithdrawPair { a, b: c } if [a, c].iter().any(|(t, v)| match v { Some(v) => !cover(t, v) || (*t == ZERO && !v.is_zero()), None => *t == ZERO && !b.bal(by, &ZERO).is_zero() }) => Some("insufficient balance or native token"),
        Op::Raw(_) => Some("malformed payload"),
        _ => None,
    }
}

impl Mon {
    pub fn new(prop: &'static str) -> Mon { Mon { prop, cov: Cover::default(), tracks: vec![], quote: None, rquote: None, twin: None } }
    pub fn start(&mut self, h: &mut Hist) -> V {
        self.tracks.clear();
        if matches!(self.prop, "C10" | "C11") { ensure!(h.d.fee == h.cfg.fee, "deployed with a protocol fee of {}, it is {}", h.cfg.fee, h.d.fee) }
        if self.prop == "C09" { // fees earned during the set-up are unknown: collect them first
            for (u, i, _) in h.d.positions().map(|(u, i, p)| (*u, i as u32, p.clone())).collect::<Vec<_>>() { h.apply(u, Op::Claim(i)); }
            h.d = dump(h.w, &h.watched)?;
            self.tracks = h.d.positions().map(|(_, _, p)| Track { pos: p.clone(), gx: 0, gy: 0 }).collect();
        }
        Ok(())
    }
    pub fn before(&mut self, h: &mut Hist, by: Addr, op: &Op) -> V {
        match self.prop {
            "C03" => {
                self.quote = None; self.rquote = None;
                match op {
                    Op::Swap { key, x_to_y, amount, by_in, limit } => self.quote = Some(h.w.quote(key, *x_to_y, amount, *by_in, *limit)),
                    Op::Route { amount, hops, .. } => self.rquote = Some(h.w.quote_route(amount, hops)),
                    _ => {}
                }
                h.w.end_queries();
                if h.rng.chance(1, 6) { self.c03_queries(h, by, op)? }
            }
            "C20" => { let mut t = self.twin.take().unwrap(); let r = t.before(h, &mut self.cov, &by, op); self.twin = Some(t); r? }
            "C14" => if h.rng.chance(1, 5) && !matches!(op, Op::Raw(_)) && !op.is_token_call() { self.c14_gas(h, by, op)? },
            "C26" => if h.rng.chance(1, 3) { self.c26_queries(h)? },
            "C29" => if h.rng.chance(1, 14) { self.leave(h)? },
            "C23" => if h.rng.chance(1, 3) { self.c23(h)? },
            _ => {}
        }
        Ok(())
    }
    pub fn end(&mut self, h: &mut Hist) -> V {
        match self.prop {
            "C29" => self.leave(h),
            "C23" => self.c23(h),
            "C01" => self.close_out(h),
            "C09" => { // everybody collects; others' collections must not matter
                let mut all: Vec<(Addr, u32)> = h.d.positions().map(|(u, i, _)| (*u, i as u32)).collect();
                while !all.is_empty() {
                    let i = h.rng.below(all.len() as u64) as usize; let (u, idx) = all.swap_remove(i);
                    let b = h.d.clone();
                    let s = h.apply(u, Op::Claim(idx));
                    h.d = dump(h.w, &h.watched)?;
                    self.after(h, &b, &s)?;
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
    pub fn after(&mut self, h: &mut Hist, b: &Dump, s: &Step) -> V {
        let sig = format!("{}|{}", s.op.method(), class(s));
        match self.prop {
            "C01" => self.c01(h, s, sig),
            "C03" => self.c03(h, b, s, sig),
            "C04" => self.c04(h, b, s),
            "C05" => self.c05(h, b, s),
            "C06" => self.c06(h, s, sig),
            "C07" => self.c07(h, s, sig),
            "C08" => self.c08(h, b, s, sig),
            "C09" => self.c09(h, b, s),
            "C10" => self.c10(h, b, s),
            "C11" => self.c11(h, b, s, sig),
            "C12" => self.c12(h, b, s, sig),
            "C13" => self.c13(h, b, s, sig),
            "C14" => self.c14(h, b, s, sig),
            "C15" => self.c15(h, b, s),
            "C16" => self.c16(h, b, s),
            "C20" => { let mut t = self.twin.take().unwrap(); let r = t.after(h, &mut self.cov, b, s); self.twin = Some(t); r }
            "C22" => self.c22(h, b, s, sig),
            "C24" => self.c24(h, b, s, sig),
            "C25" => self.c25(h, b, s, sig),
            "C26" => self.c26(h, b, s, sig),
            "C27" => self.c27(h, b, s, sig),
            "C28" => self.c28(h, b, s, sig),
            "C32" => self.c32(h, b, s, sig),
            _ => { self.cov.hit(sig, || h.log.last().cloned().unwrap_or_default()); Ok(()) }
        }
    }

    // ---- C01
    pub fn liabilities(d: &Dump) -> BTreeMap<Addr, N> {
        let mut l: BTreeMap<Addr, N> = BTreeMap::new();
        for u in d.users.values() { for (t, v) in &u.bal { *l.entry(*t).or_insert_with(N::zero) += v } }
        for (k, p) in &d.pools { *l.entry(k.x).or_insert_with(N::zero) += &p.pool.px; *l.entry(k.y).or_insert_with(N::zero) += &p.pool.py; }
        for (_, _, p) in d.positions() {
            let Some((lo, hi)) = d.bounds(p) else { continue };
            let pd = &d.pools[&p.key];
            let (x, y, _) = principal(&pd.pool, &p.liquidity, lo, hi);
            let (fx, fy) = claimable(pd, p).unwrap();
            *l.entry(p.key.x).or_insert_with(N::zero) += x.floor() + fx;
            *l.entry(p.key.y).or_insert_with(N::zero) += y.floor() + fy;
        }
        l
    }
    fn c01(&mut self, h: &mut Hist, s: &Step, sig: String) -> V {
        let l = Self::liabilities(&h.d);
        for (t, v) in &l {
            let held = if *t == ZERO { n(s.native.1.get(&PROGRAM).copied().unwrap_or(0)) } else { h.ledger.get(t).cloned().unwrap_or_else(N::zero) };
            ensure!(*v <= held, "the exchange owes {v} of token {:02x} but holds {held}", t[31]);
        }
        for (t, from, to, amt, good) in &s.moved { ensure!(*good || !(*from == PROGRAM && *to == s.by), "token {:02x} could not pay out {amt}", t[31]); }
        let np = h.d.positions().count();
        self.cov.hit(format!("{sig}|{}", np.min(12)), || format!("{} positions, liabilities {:?}", np, l.iter().map(|(k, v)| (k[31], v.to_string())).collect::<Vec<_>>()));
        Ok(())
    }
    /// Everybody removes everything, fee receivers collect, everybody withdraws; in random order.
    fn close_out(&mut self, h: &mut Hist) -> V {
        while !h.pending.is_empty() { h.settle(0) }
        h.d = dump(h.w, &h.watched)?;
        loop {
            let pos: Vec<(Addr, u32)> = h.d.positions().filter(|(u, _, _)| **u != PROGRAM).map(|(u, i, _)| (*u, i as u32)).collect();
            let fees: Vec<(Key, Addr)> = h.d.pools.iter().filter(|(_, p)| !(p.pool.px.is_zero() && p.pool.py.is_zero())).map(|(k, p)| (*k, p.pool.receiver)).filter(|x| x.1 != PROGRAM).collect();
            let bal: Vec<(Addr, Addr)> = h.d.users.iter().filter(|(u, _)| **u != PROGRAM).flat_map(|(u, d)| d.bal.keys().map(move |t| (*u, *t))).collect();
            let total = pos.len() + fees.len() + bal.len();
            if total == 0 { break }
            let i = h.rng.below(total as u64) as usize;
            let (by, op) = if i < pos.len() { (pos[i].0, Op::Remove(pos[i].1)) } else if i < pos.len() + fees.len() { let f = fees[i - pos.len()]; (f.1, Op::CollectProtocol(f.0)) }
                else { let (u, t) = bal[i - pos.len() - fees.len()]; let some = if h.rng.chance(1, 2) { Some(h.d.bal(&u, &t)) } else { None }; (u, if t == ZERO { Op::WithdrawVara(some) } else { Op::Withdraw { token: t, amount: some } }) };
            let b = h.d.clone();
            let s = h.apply(by, op);
            ensure!(s.ok.is_some(), "closing out: {:?} of user {} failed: {}", s.op, by[0], s.err);
            h.d = dump(h.w, &h.watched)?;
            if let Op::Withdraw { token, .. } = &s.op { ensure!(h.d.bal(&by, token).is_zero() && s.ok == Some(Ret::Amount(b.bal(&by, token))), "closing out: withdrawal of {} paid {:?}", b.bal(&by, token), s.ok); }
            self.c01(h, &s, "closeout|".into())?;
        }
        Ok(())
    }
    // ---- C29
    fn leave(&mut self, h: &mut Hist) -> V {
        let r = h.branch(|h| -> Result<usize, String> {
            let mut k = 0;
            if h.rng.chance(1, 2) { h.pend(); h.d = dump(h.w, &h.watched)? }
            loop {
                let pos: Vec<(Addr, u32)> = h.d.positions().filter(|(u, _, _)| **u != PROGRAM).map(|(u, i, _)| (*u, i as u32)).collect();
                if pos.is_empty() { break }
                let (u, i) = *h.rng.pick(&pos);
                match h.rng.below(5) {
                    0 | 1 => { let s = h.apply(u, Op::Claim(i)); ensure!(s.ok.is_some(), "user {} cannot collect the fees of position {i}: {}", u[0], s.err); let s = h.apply(u, Op::Remove(i)); ensure!(s.ok.is_some(), "user {} cannot remove position {i} after collecting: {}", u[0], s.err); }
                    2 => { let to = *h.rng.clone().pick(&h.cfg.users); let s = h.apply(u, Op::Transfer { index: i, to }); ensure!(s.ok.is_some(), "user {} cannot transfer position {i}: {}", u[0], s.err); }
                    _ => { let s = h.apply(u, Op::Remove(i)); ensure!(s.ok.is_some(), "user {} cannot remove position {i}: {}", u[0], s.err); }
                }
                k += 1;
                h.d = dump(h.w, &h.watched)?;
            }
            for (u, ud) in h.d.users.clone() { for (t, v) in ud.bal {
                if u == PROGRAM { continue }
                if h.d.bal(&u, &t).is_zero() { continue } // went out with another token
                let all = |h: &mut Hist| if h.rng.chance(1, 2) { Some(v.clone()) } else { None };
                let op = if t == ZERO { Op::WithdrawVara(all(h)) } else { match h.rng.below(4) {
                    0 => { // together with another token, or one the account does not hold
                        let o = h.d.users[&u].bal.iter().filter(|b| *b.0 != t && *b.0 != ZERO).map(|b| (*b.0, Some(b.1.clone()))).last().unwrap_or(([0x66; 32], None));
                        let me = (t, all(h)); let (a, b) = if h.rng.chance(1, 2) { (me, o) } else { (o, me) };
                        Op::WithdrawPair { a, b }
                    }
                    1 if v > N::one() => { let s = h.apply(u, Op::Withdraw { token: t, amount: Some(N::one()) }); ensure!(s.ok.is_some(), "user {} cannot withdraw 1 of {v} of token {:02x}: {}", u[0], t[31], s.err); Op::Withdraw { token: t, amount: Some(&v - 1u32) } }
                    _ => Op::Withdraw { token: t, amount: all(h) },
                } };
                let s = h.apply(u, op);
                ensure!(s.ok.is_some(), "user {} cannot withdraw {v} of token {:02x} ({:?}): {}", u[0], t[31], s.op, s.err);
                h.d = dump(h.w, &h.watched)?;
                ensure!(h.d.bal(&u, &t).is_zero(), "user {} withdrew {v} of token {:02x}, {} are left", u[0], t[31], h.d.bal(&u, &t));
                k += 1;
            } }
            Ok(k)
        });
        match r { Err(e) => Err(e), Ok(k) => { let np = h.d.positions().count(); let ticks: usize = h.d.pools.values().map(|p| p.ticks.len()).sum(); self.cov.hit(format!("leave|{}|{}|{}", np, ticks, k), || format!("all {np} positions and every balance left in {k} calls")); Ok(()) } }
    }
    // ---- C03
    fn c03_queries(&mut self, h: &mut Hist, by: Addr, op: &Op) -> V {
        // queries sent as committed messages must not change anything: the state reads the same, and the operation that follows does the same
        let without = h.branch(|h| { let s = h.apply(by, op.clone()); dump(h.w, &h.watched).map(|d| (s.ok.is_some(), s.err, d)) })?;
        let u = h.any_user();
        let Some(k) = h.any_key() else { return Ok(()) };
        let mut b: Vec<Vec<u8>> = vec![E::call("GetProtocolFee").0, E::call("GetFeeTiers").0, e_tier(E::call("FeeTierExists"), &k.tier).0, e_tier(E::call("GetPool").addr(&k.x).addr(&k.y), &k.tier).0,
            E::call("GetPoolKeys").u16(9).u16(0).0, E::call("GetAllPoolsForPair").addr(&k.x).addr(&k.y).0, E::call("GetUserBalances").addr(&u).0, E::call("GetAllPositions").addr(&u).0,
            E::call("GetPosition").addr(&u).u32(0).0, E::call("GetPositions").addr(&u).u32(5).u32(0).0, E::call("GetPositionWithAssociates").addr(&u).u32(0).0, e_key(E::call("GetTickmap"), &k).0,
            e_key(E::call("GetLiquidityTicksAmount"), &k).0, E::call("GetPositionTicks").addr(&u).u32(0).0, E::call("GetUserPositionAmount").addr(&u).0];
        let t = h.d.pools[&k].ticks.keys().next().copied().unwrap_or(0);
        b.push(e_key(E::call("GetTick"), &k).i32(t).0); b.push(e_key(E::call("IsTickInitialized"), &k).i32(t).0);
        { // what does not exist
            let m = max_tick(k.tier.spacing) / k.tier.spacing as i32; let t = (h.rng.below(2 * m as u64 + 1) as i32 - m) * k.tier.spacing as i32; let mut no = k; no.tier.fee += 7;
            let z = [0xEE; 32]; let np = h.d.users[&u].pos.len() as u32;
            for k in [k, no] { for t in [t, h.weird_tick()] { b.push(e_key(E::call("GetTick"), &k).i32(t).0); b.push(e_key(E::call("IsTickInitialized"), &k).i32(t).0); b.push(e_key(E::call("GetLiquidityTicks"), &k).vec(&[t], |e, i| e.i32(*i)).0); } }
            b.push(e_key(E::call("GetTickmap"), &no).0); b.push(e_key(E::call("GetLiquidityTicksAmount"), &no).0); b.push(e_tier(E::call("GetPool").addr(&k.x).addr(&z), &k.tier).0); b.push(e_tier(E::call("FeeTierExists"), &no.tier).0);
            b.push(E::call("GetAllPoolsForPair").addr(&z).addr(&k.y).0); b.push(E::call("GetUserBalances").addr(&z).0); b.push(E::call("GetAllPositions").addr(&z).0); b.push(E::call("GetUserPositionAmount").addr(&z).0);
            for i in [np, np.wrapping_sub(1), u32::MAX] { b.push(E::call("GetPosition").addr(&u).u32(i).0); b.push(E::call("GetPositionWithAssociates").addr(&u).u32(i).0); b.push(E::call("GetPositionTicks").addr(&u).u32(i).0); b.push(E::call("GetPositions").addr(&u).u32(i).u32(i / 2).0); }
            b.push(E::call("GetPositions").addr(&z).u32(3).u32(0).0); b.push(E::call("GetPoolKeys").u16(u16::MAX).u16(h.rng.below(9) as u16).0);
        }
        b.push(e_key(E::call("GetLiquidityTicks"), &k).vec(&h.d.pools[&k].ticks.keys().copied().collect::<Vec<_>>(), |e, i| e.i32(*i)).0);
        for _ in 0..4 { if let Op::Swap { key, x_to_y, amount, by_in, limit } = h.gen_swap(k, &u) { b.push(e_key(E::call("Quote"), &key).bool(x_to_y).u256(&amount).bool(by_in).u128(limit).0) } }
        for _ in 0..2 { if let Op::Route { amount, hops, .. } = h.gen_route(&u) { b.push(E::call("QuoteRoute").u256(&amount).vec(&hops, |e, (k, d)| e_key(e, k).bool(*d)).0) } }
        let nq = b.len();
        h.w.c.events.clear();
        for q in b { h.w.send(u, q, 0, GAS, None); }
        h.w.c.signals.clear();
        ensure!(h.w.c.events.is_empty() && h.w.c.to_tokens.is_empty() && h.w.c.other.is_empty(), "a query sent messages");
        let d = dump(h.w, &h.watched)?;
        if let Some(x) = diff(&h.d, &d) { return Err(format!("a query changed the state: {x}")) }
        let with = h.branch(|h| { let s = h.apply(by, op.clone()); dump(h.w, &h.watched).map(|d| (s.ok.is_some(), s.err, d)) })?;
        ensure!(with.0 == without.0 && with.1 == without.1, "after queries the operation answers {:?}, without them {:?}", with.1, without.1);
        if let Some(x) = diff(&without.2, &with.2) { return Err(format!("the operation after queries has another effect than without them: {x}")) }
        self.cov.hit(format!("committed-queries|{nq}"), || format!("{nq} queries sent as messages left the state unchanged"));
        Ok(())
    }
    fn c03(&mut self, h: &mut Hist, b: &Dump, s: &Step, sig: String) -> V {
        let bal_err = |e: &str| matches!(err_of(e), Some("NoBalanceForTheToken" | "FailedToChangeTokenBalance"));
        match &s.op {
            Op::Swap { .. } => match (self.quote.take().unwrap(), &s.ok) {
                (Ok(Ok(q)), Some(Ret::Swap(r))) => {
                    ensure!(q.amount_in == r.amount_in && q.amount_out == r.amount_out && q.target == r.target && q.ticks == r.ticks && q.target == r.pool.price, "quote {q:?} but swap {r:?}");
                    self.cov.hit(format!("quoted|{}|{}|{}", q.ticks.len(), mag(&q.amount_in), mag(&q.amount_out)), || h.log.last().cloned().unwrap());
                }
                (Ok(Ok(q)), _) => { ensure!(bal_err(&s.err), "quote in {} out {} but the swap failed: {}", q.amount_in, q.amount_out, s.err); self.cov.hit(sig, String::new) }
                (Ok(Err(c)), None) => { ensure!(Some(ERRORS[c as usize]) == err_of(&s.err), "quote fails with {} but the swap with {}", ERRORS[c as usize], s.err); self.cov.hit(sig, || format!("quote and swap fail with {}", ERRORS[c as usize])) }
                (Err(_), None) => { ensure!(err_of(&s.err).map_or(true, |e| e == "TickNotFound"), "quote traps but the swap fails with {}", s.err); self.cov.hit(sig, String::new) }
                (q, r) => return Err(format!("quote {q:?} but swap {r:?}")),
            },
            Op::Route { hops, .. } => {
                let set: BTreeSet<Key> = hops.iter().map(|x| x.0).collect();
                if set.len() != hops.len() { return Ok(()) }
                match (self.rquote.take().unwrap(), &s.ok) {
                    (Ok(Ok(q)), Some(Ret::Amount(r))) => { ensure!(q == *r, "route quote {q} but route paid {r}"); self.cov.hit(format!("route|{}|{}", hops.len(), mag(&q)), || h.log.last().cloned().unwrap()) }
                    (Ok(Ok(q)), _) => ensure!(bal_err(&s.err) || err_of(&s.err) == Some("AmountUnderMinimumAmountOut") || err_of(&s.err).is_none(), "route quote {q} but the route failed: {}", s.err),
                    (Ok(Err(c)), None) => { // a balance problem of an earlier hop may come first
                        ensure!(Some(ERRORS[c as usize]) == err_of(&s.err) || bal_err(&s.err), "route quote fails with {} but the route with {}", ERRORS[c as usize], s.err); self.cov.hit(sig, String::new) }
                    (Err(_), None) => self.cov.hit(sig, String::new),
                    (q, r) => return Err(format!("route quote {q:?} but route {r:?}")),
                }
            }
            _ => {}
        }
        let _ = b;
        Ok(())
    }
    // ---- C04
    fn c04(&mut self, h: &mut Hist, b: &Dump, s: &Step) -> V {
        if let Op::Swap { .. } = &s.op { if let Some(r) = must_fail(b, &s.by, &s.op) { if r != "insufficient balance" { ensure!(s.ok.is_none(), "accepted although: {r}"); self.cov.hit(format!("refused|{r}"), String::new); } } }
        for l in legs(s) {
            let (pb, pa) = (&b.pools[&l.key].pool, &h.d.pools[&l.key].pool);
            ensure!(!l.a_out.is_zero(), "a swap paid nothing out");
            if l.down { ensure!(pa.price <= pb.price, "price rose from {} to {} while selling x", pb.price, pa.price) } else { ensure!(pa.price >= pb.price, "price fell from {} to {} while selling y", pb.price, pa.price) }
            ensure!(pa.price >= MIN_PRICE && pa.price <= MAX_PRICE && pa.tick.unsigned_abs() <= MAX_TICK as u32, "price {} outside the supported range", pa.price);
            if let Some(lim) = l.limit { ensure!(if l.down { pa.price >= lim } else { pa.price <= lim }, "price {} passed the limit {lim}", pa.price); }
            if let Some(am) = &l.amount {
                if l.by_in { ensure!(l.a_in == *am, "exact input {am} but {} was taken", l.a_in) }
                else {
                    ensure!(l.a_out <= *am, "asked for {am} but {} was paid", l.a_out);
                    if l.a_out < *am {
                        let t = h.d.pools[&l.key].ticks.values().any(|t| t.price == pa.price);
                        let lm = pa.liquidity.clone().max(pb.liquidity.clone());
                        let tol = if l.down { y_between(&lm, pa.price, pa.price - 2).ceil() } else { N::zero() };
                        ensure!(t && l.down && am - &l.a_out <= tol, "asked for {am} but only {} was paid", l.a_out);
                    }
                }
                // balances moved accordingly
                let (ti, to) = if l.down { (l.key.x, l.key.y) } else { (l.key.y, l.key.x) };
                ensure!(b.bal(&s.by, &ti) - h.d.bal(&s.by, &ti) == l.a_in && h.d.bal(&s.by, &to) - b.bal(&s.by, &to) == l.a_out, "balances do not match the reported amounts");
            }
            let c = crossed(&b.pools[&l.key], &h.d.pools[&l.key], l.down).len();
            self.cov.hit(format!("swap|{}|{}|{}|{}|{}", l.down, l.by_in, c, mag(&l.a_in), l.limit.map_or(0, |x| (x == pa.price) as u8)), || h.log.last().cloned().unwrap());
        }
        Ok(())
    }
    // ---- C05
    fn c05(&mut self, h: &mut Hist, b: &Dump, s: &Step) -> V {
        for l in legs(s) {
            let (pb, pa) = (&b.pools[&l.key], &h.d.pools[&l.key]);
            let e = bounds(&l, pb, pa);
            let d = format!("{} {} in {} out {} fee {} price {} -> {} L {} ", short(&l.key), if l.by_in { "exact-in" } else { "exact-out" }, l.a_in, l.a_out, l.fee, l.start, l.target, pb.pool.liquidity);
            ensure!(l.start == pb.pool.price && l.target == pa.pool.price, "{d}: prices differ from the pool's");
            ensure!(l.a_in >= e.in_lo, "{d}: the curve requires an input of at least {}", e.in_lo);
            ensure!(l.a_in <= e.in_hi, "{d}: the curve allows an input of at most {}", e.in_hi);
            ensure!(l.a_out <= e.out_hi, "{d}: the curve pays at most {}", e.out_hi);
            ensure!(l.a_out >= e.out_lo, "{d}: the curve pays at least {}", e.out_lo);
            ensure!(l.fee <= &l.a_in - &e.net_lo, "{d}: fee above the input left after the curve amount {}", e.net_lo);
            self.cov.hit(format!("swap|{}|{}|{}|{}|{}|{}", l.down, l.by_in, e.segs, mag(&l.a_in), mag(&l.a_out), mag(&pb.pool.liquidity)), || d.clone());
        }
        // reversing a swap never gains
        if let (Op::Swap { key, x_to_y, .. }, Some(Ret::Swap(r))) = (&s.op, &s.ok) {
            if h.rng.chance(1, 4) {
                let back = Op::Swap { key: *key, x_to_y: !*x_to_y, amount: r.amount_out.clone(), by_in: true, limit: if *x_to_y { MAX_PRICE } else { MIN_PRICE } };
                let by = s.by;
                let q = h.branch(|h| h.apply(by, back).ok);
                if let Some(Ret::Swap(q)) = q { ensure!(q.amount_out <= r.amount_in, "swapping {} for {} and back returned {}", r.amount_in, r.amount_out, q.amount_out); self.cov.hit(format!("reverse|{}|{}", x_to_y, mag(&r.amount_in)), String::new) }
            }
        }
        // splitting an exact-input swap never pays more than the few units of rounding
        if let (Op::Swap { key, x_to_y, amount, by_in: true, limit }, Some(Ret::Swap(_))) = (&s.op, &s.ok) { let _ = (key, x_to_y, amount, limit); }
        Ok(())
    }
    // ---- C06
    fn c06(&mut self, h: &mut Hist, s: &Step, sig: String) -> V {
        for (k, pd) in &h.d.pools {
            let sum: N = h.d.positions().filter(|(_, _, p)| p.key == *k && p.lower <= pd.pool.tick && pd.pool.tick < p.upper).map(|(_, _, p)| p.liquidity.clone()).sum();
            ensure!(sum == pd.pool.liquidity, "pool {} at tick {} has active liquidity {} but the positions in range hold {sum}", short(k), pd.pool.tick, pd.pool.liquidity);
        }
        let inr: usize = h.d.positions().filter(|(_, _, p)| { let t = h.d.pools[&p.key].pool.tick; p.lower <= t && t < p.upper }).count();
        let nc = if let Some(Ret::Swap(r)) = &s.ok { r.ticks.len() } else { 0 };
        self.cov.hit(format!("{sig}|{inr}|{}|{nc}", h.d.positions().count()), || h.log.last().cloned().unwrap());
        Ok(())
    }
    // ---- C07
    fn c07(&mut self, h: &mut Hist, s: &Step, sig: String) -> V {
        if let Op::Create { key, lower, upper, .. } = &s.op { h.touched.entry(*key).or_default().extend([*lower, *upper]); }
        for (k, pd) in h.d.pools.clone() {
            ensure!(pd.missing.is_empty(), "pool {}: the tick map lists {:?} which have no record", short(&k), pd.missing);
            let mut want: BTreeMap<i32, (N, N)> = BTreeMap::new();
            for (_, _, p) in h.d.positions().filter(|(_, _, p)| p.key == k) {
                let e = want.entry(p.lower).or_insert((N::zero(), N::zero())); e.0 += &p.liquidity; e.1 += &p.liquidity;
                let e = want.entry(p.upper).or_insert((N::zero(), N::zero())); e.0 -= &p.liquidity; e.1 += &p.liquidity;
            }
            for (i, (net_, gross)) in &want {
                let Some(t) = pd.ticks.get(i) else { return Err(format!("pool {}: tick {i} bounds an open position but is not in the tick map", short(&k))) };
                ensure!(t.index == *i && net(t) == *net_ && t.gross == *gross, "pool {} tick {i}: net {} gross {} but positions sum to {net_} / {gross}", short(&k), net(t), t.gross);
            }
            ensure!(pd.ticks.len() == want.len(), "pool {}: ticks {:?} initialised, positions bound {:?}", short(&k), pd.ticks.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>());
            ensure!(pd.count as usize == want.len(), "pool {}: {} initialised ticks counted, there are {}", short(&k), pd.count, want.len());
            let ts: BTreeSet<i32> = h.touched.get(&k).cloned().unwrap_or_default();
            let m = max_tick(k.tier.spacing);
            let extra: Vec<i32> = ts.iter().copied().chain([m, -m, pd.pool.tick]).filter(|t| t.unsigned_abs() as i32 <= m && *t != i32::MIN && t % k.tier.spacing as i32 == 0).collect();
            for t in extra {
                let init = h.w.tick_init(&k, t)?; let rec = h.w.tick(&k, t)?.is_ok();
                let w = want.contains_key(&t);
                ensure!(init == w && rec == w, "pool {} tick {t}: bounds a position {w}, reported initialised {init}, has a record {rec}", short(&k));
            }
        }
        h.w.end_queries();
        let nt: usize = h.d.pools.values().map(|p| p.ticks.len()).sum();
        let shared = h.d.pools.values().flat_map(|p| p.ticks.values()).filter(|t| t.gross != t.change).count();
        self.cov.hit(format!("{sig}|{nt}|{}", shared), || format!("{nt} ticks, {shared} shared between opposite ends, after {}", h.log.last().unwrap()));
        Ok(())
    }
    // ---- C08
    fn c08(&mut self, h: &mut Hist, b: &Dump, s: &Step, sig: String) -> V {
        for (k, pd) in h.d.pools.clone() {
            let sp = k.tier.spacing as i32; let p = &pd.pool;
            let down = match &s.op { Op::Swap { key, x_to_y: true, .. } if *key == k => true, Op::Route { hops, .. } => hops.iter().any(|x| x.0 == k && x.1), _ => false };
            if let Some(q) = b.pools.get(&k) {
                let by_swap = s.ok.is_some() && match &s.op { Op::Swap { key, .. } => *key == k, Op::Route { hops, .. } => hops.iter().any(|x| x.0 == k), _ => false };
                if !by_swap { ensure!(q.pool.price == p.price && q.pool.tick == p.tick, "pool {}: {:?} moved the price {}@{} -> {}@{}", short(&k), s.op.method(), q.pool.price, q.pool.tick, p.price, p.tick); continue }
            }
            ensure!(p.tick % sp == 0 && p.tick.unsigned_abs() <= MAX_TICK as u32, "pool {}: current tick {} is not a multiple of {sp}", short(&k), p.tick);
            let Some(lo) = h.price(p.tick) else { return Err(format!("no price for tick {}", p.tick)) };
            ensure!(p.price >= lo, "pool {}: price {} below the price {lo} of its tick {}", short(&k), p.price, p.tick);
            let mut edge = 0;
            if let Some(hi) = h.price(p.tick + sp) {
                let at_end = b.pools.get(&k).map_or(false, |_| down);
                ensure!(p.price < hi || (p.price == hi && at_end), "pool {}: price {} at tick {} but the next tick's price is {hi}", short(&k), p.price, p.tick);
                if p.price == hi { edge = 2 }
            }
            if p.price == lo { edge = 1 }
            self.cov.hit(format!("{sig}|{down}|{edge}|{}", p.tick.unsigned_abs().checked_ilog2().unwrap_or(0)), || format!("{} tick {} price {}", short(&k), p.tick, p.price));
        }
        Ok(())
    }
    // ---- C09
    fn c09(&mut self, h: &mut Hist, b: &Dump, s: &Step) -> V {
        if s.ok.is_none() { return Ok(()) }
        // a route is analysed per pool; pools visited twice are re-synchronised by skipping their positions
        let mut lost: BTreeSet<Key> = BTreeSet::new();
        let ls = legs(s);
        if let (Op::Route { hops, .. }, true) = (&s.op, ls.is_empty()) { lost.extend(hops.iter().map(|x| x.0)) }
        self.tracks.retain(|t| !lost.contains(&t.pos.key));
        let expl = |t: &Track| (fee_of(&t.pos.liquidity, t.gx), fee_of(&t.pos.liquidity, t.gy));
        for l in &ls {
            let (pb, pa) = (&b.pools[&l.key], &h.d.pools[&l.key]);
            let cr = crossed(pb, pa, l.down);
            let segs = path(&pb.pool, l.key.tier.spacing, &pb.ticks, l.target, l.down);
            let g = |p: &Pool| if l.down { p.gx } else { p.gy };
            let o = |t: &Tick| if l.down { t.gox } else { t.goy };
            let other = |p: &Pool| if l.down { p.gy } else { p.gx };
            ensure!(other(&pb.pool) == other(&pa.pool), "{}: the swap changed the fee growth of the output token", short(&l.key));
            let mut at = g(&pb.pool);
            let mut growths = vec![];
            for c in &cr { let now = o(&pa.ticks[c]).wrapping_add(o(&pb.ticks[c])); growths.push(now.wrapping_sub(at)); at = now; }
            growths.push(g(&pa.pool).wrapping_sub(at));
            // fee per segment: distributed by active liquidity
            let e = bounds(l, pb, pa);
            let proto = if l.down { &pa.pool.px - &pb.pool.px } else { &pa.pool.py - &pb.pool.py };
            let (mut dist, mut slack, mut small) = (N::zero(), N::zero(), true);
            for (i, gr) in growths.iter().enumerate() {
                let sg = &segs[i.min(segs.len() - 1)];
                ensure!(!sg.l.is_zero() || *gr == 0, "{}: fee growth {gr} without liquidity", short(&l.key));
                dist += (&sg.l * *gr).div_floor(&p10(33));
                slack += (sg.l.div_ceil(&p10(33)) + 1) * e.steps;
                if !sg.l.is_zero() && (&l.a_in * p10(33)).div_ceil(&sg.l) >= N::one() << 127 { small = false }
                for t in self.tracks.iter_mut().filter(|t| t.pos.key == l.key && t.pos.lower <= sg.reference && sg.reference < t.pos.upper) { if l.down { t.gx = t.gx.wrapping_add(*gr) } else { t.gy = t.gy.wrapping_add(*gr) } }
            }
            let hi = &l.a_in - &e.net_lo - &proto;
            ensure!(dist <= hi, "{}: {dist} distributed to positions, but only {hi} of fees were charged", short(&l.key));
            let active = segs.iter().take(growths.len()).any(|s| !s.l.is_zero());
            if small && active { ensure!(&dist + &slack >= &l.fee - &proto, "{}: fee {} minus protocol share {proto}, but only {dist} distributed (resolution {slack})", short(&l.key), l.fee); }
            self.cov.hit(format!("fees|{}|{}|{}|{}", cr.len(), l.down, mag(&l.fee), self.tracks.iter().filter(|t| t.pos.key == l.key).count()), || format!("{} crossed {cr:?} growth per segment {growths:?}", short(&l.key)));
        }
        // collections
        let (idx, who) = match &s.op { Op::Claim(i) | Op::Remove(i) => (*i as usize, s.by), _ => (usize::MAX, s.by) };
        let mut paid: Option<Position> = None;
        if idx != usize::MAX {
            let p = b.users[&who].pos[idx].clone();
            if let Some(t) = self.tracks.iter().find(|t| t.pos == p) {
                let (ex, ey) = expl(t);
                let (gx, gy) = (h.d.bal(&who, &p.key.x) - b.bal(&who, &p.key.x), h.d.bal(&who, &p.key.y) - b.bal(&who, &p.key.y));
                let (px, py) = if let Op::Remove(_) = &s.op { let (lo, hi) = b.bounds(&p).ok_or("position without ticks")?; let (x, y, _) = principal(&b.pools[&p.key].pool, &p.liquidity, lo, hi); (x.floor(), y.floor()) } else { (N::zero(), N::zero()) };
                let tol: N = if let Op::Remove(_) = &s.op { n(2) + principal_slack(&b.pools[&p.key].pool, &p.liquidity, b.bounds(&p).unwrap().0, b.bounds(&p).unwrap().1) } else { n(1) };
                for (got, pr, ex, w) in [(&gx, &px, &ex, "x"), (&gy, &py, &ey, "y")] {
                    let f = got - pr;
                    ensure!(f <= *ex && f >= ex - &tol, "position {}..{} L {} collected {f} of token {w}, but earned {ex} since its last collection", p.lower, p.upper, p.liquidity);
                }
                self.cov.hit(format!("collect|{}|{}|{}", s.op.method(), mag(&ex), mag(&ey)), || format!("position {}..{} L {} earned {ex}/{ey} and was paid that", p.lower, p.upper, p.liquidity));
            }
            paid = Some(p);
        }
        // re-associate by content; a position not known before starts at zero
        let mut old = std::mem::take(&mut self.tracks);
        if let Some(p) = &paid { if let Some(i) = old.iter().position(|t| t.pos == *p) { old.swap_remove(i); } }
        for (u, _, p) in h.d.positions() {
            if let Some(i) = old.iter().position(|t| t.pos == *p) { self.tracks.push(old.swap_remove(i)) }
            else if !lost.contains(&p.key) {
                // positions may be equal in every field: equal ones have earned the same, but each needs its own track
                let count = |d: &Dump| d.users.get(&s.by).map_or(0, |v| v.pos.iter().filter(|q| *q == p).count());
                let fresh = *u == s.by && match &s.op { Op::Create { .. } => count(&h.d) > count(b), Op::Claim(i) => paid.is_some() && h.d.users[u].pos.get(*i as usize) == Some(p), _ => false };
                if fresh { self.tracks.push(Track { pos: p.clone(), gx: 0, gy: 0 }) }
            }
        }
        Ok(())
    }
    // ---- C10
    fn c10(&mut self, h: &mut Hist, b: &Dump, s: &Step) -> V {
        let ls = legs(s);
        let swapped: Vec<Key> = match &s.op { Op::Swap { key, .. } => vec![*key], Op::Route { hops, .. } => hops.iter().map(|x| x.0).collect(), _ => vec![] };
        for (k, pb) in &b.pools {
            let Some(pa) = h.d.pools.get(k) else { return Err("a pool vanished".into()) };
            let (dx, dy) = (&pa.pool.px - &pb.pool.px, &pa.pool.py - &pb.pool.py);
            if s.ok.is_some() && swapped.contains(k) {
                let Some(l) = ls.iter().find(|l| l.key == *k) else { ensure!(dx >= N::zero() && dy >= N::zero(), "a swap lowered the protocol fee"); continue };
                let (din, dout) = if l.down { (dx, dy) } else { (dy, dx) };
                ensure!(dout.is_zero(), "{}: protocol fee of the output token changed by {dout}", short(k));
                if b.fee > 1_000_000_000_000 { continue }
                let e = bounds(l, pb, pa);
                let lo = pct_up(&l.fee, b.fee);
                // a step for an exact output may round to less than it was asked for and be followed by another one for
                // the rest; each of them gives up about one unit of what the price it reached would have paid
                let lost: N = &e.out_hi + e.segs as u64 - &l.a_out;
                let steps: N = if l.by_in || lost < N::from(2u8) { N::from(e.steps) } else { lost * 2u8 + e.steps + 2u8 };
                let hi = pct_up(&(&l.a_in - &e.net_lo), b.fee) + &steps;
                // without liquidity at the end there is nothing to charge
                ensure!(din >= lo && din <= hi, "{}: fee {} at protocol share {} added {din}, expected {lo}..{hi}", short(k), l.fee, b.fee);
                let tight = l.a_in.clone() - &e.net_lo;
                if l.fee == tight { ensure!(din <= pct_up(&l.fee, b.fee) + &steps, "{}: protocol share {din} of {}", short(k), l.fee); }
                self.cov.hit(format!("share|{}|{}|{}|{}", b.fee, e.segs, mag(&l.fee), l.down), || format!("{} fee {} share {} -> {din}", short(k), l.fee, b.fee));
            } else if s.ok.is_some() && s.op == Op::CollectProtocol(*k) {
                ensure!(s.by == pb.pool.receiver, "user {} collected protocol fees of {}", s.by[0], pb.pool.receiver[0]);
                ensure!(pa.pool.px.is_zero() && pa.pool.py.is_zero(), "protocol fees remain after collection");
                for (t, v) in [(k.x, &pb.pool.px), (k.y, &pb.pool.py)] { let got = h.d.bal(&s.by, &t) - b.bal(&s.by, &t); ensure!(got == *v, "receiver was credited {got} instead of {v}"); }
                self.cov.hit(format!("collect|{}|{}", mag(&pb.pool.px), mag(&pb.pool.py)), || format!("{} collected {}/{}", short(k), pb.pool.px, pb.pool.py));
            } else { ensure!(dx.is_zero() && dy.is_zero(), "{} changed the protocol fees of {} by {dx}/{dy}", s.op.method(), short(k)); }
            let rec = match &s.op { Op::SetReceiver { key, to } if key == k && s.ok.is_some() => *to, _ => pb.pool.receiver };
            ensure!(pa.pool.receiver == rec, "{}: fee receiver is {} instead of {}", short(k), pa.pool.receiver[0], rec[0]);
        }
        for (k, pa) in &h.d.pools { if !b.pools.contains_key(k) { ensure!(pa.pool.receiver == ADMIN && pa.pool.px.is_zero() && pa.pool.py.is_zero(), "new pool starts with receiver {} fees {}/{}", pa.pool.receiver[0], pa.pool.px, pa.pool.py) } }
        let want = match (&s.op, &s.ok) { (Op::SetProtocolFee(f), Some(r)) => { ensure!(*r == Ret::Fee(*f), "new rate reported as {r:?}"); *f } _ => b.fee };
        ensure!(h.d.fee == want, "protocol fee rate {} instead of {want}", h.d.fee);
        Ok(())
    }
    // ---- C11
    fn c11(&mut self, h: &mut Hist, b: &Dump, s: &Step, sig: String) -> V {
        if s.ok.is_some() {
            match &s.op {
                Op::SetProtocolFee(_) | Op::AddTier(_) | Op::RemoveTier(_) | Op::SetReceiver { .. } => ensure!(s.by == ADMIN, "{} by user {}", s.op.method(), s.by[0]),
                Op::CollectProtocol(k) => ensure!(b.pools.get(k).map_or(false, |p| p.pool.receiver == s.by), "protocol fees collected by user {}", s.by[0]),
                _ => {}
            }
        }
        if h.d.fee != b.fee || h.d.tiers != b.tiers || b.pools.iter().any(|(k, p)| h.d.pools[k].pool.receiver != p.pool.receiver) { ensure!(s.by == ADMIN && s.ok.is_some(), "user {} changed an administrative setting by {}", s.by[0], s.op.method()); }
        for (u, ub) in &b.users {
            if *u == s.by { continue }
            let ua = &h.d.users[u];
            for (t, v) in &ub.bal { ensure!(h.d.bal(u, t) >= *v, "{} by user {} lowered user {}'s balance from {v} to {}", s.op.method(), s.by[0], u[0], h.d.bal(u, t)); }
            let mut have = ua.pos.clone();
            for p in &ub.pos { match have.iter().position(|q| q == p) { Some(i) => { have.remove(i); } None => return Err(format!("{} by user {} took or changed a position of user {}", s.op.method(), s.by[0], u[0])) } }
        }
        self.cov.hit(format!("{sig}|{}", s.by == ADMIN), || h.log.last().cloned().unwrap());
        // every privileged call on a branch by everybody: only the entitled one succeeds
        if h.rng.chance(1, 12) {
            let Some(k) = h.any_key() else { return Ok(()) };
            let users: Vec<Addr> = h.cfg.users.iter().copied().chain([ADMIN, h.d.pools[&k].pool.receiver, PROGRAM, ZERO, k.x, user(0x77)]).collect();
            let u = *h.rng.pick(&users);
            let free = Tier { fee: 77_777, spacing: 77 };
            let rec = h.d.pools[&k].pool.receiver;
            let fee = h.d.fee;
            let ops = [(Op::SetProtocolFee(fee), ADMIN), (Op::AddTier(free), ADMIN), (Op::SetReceiver { key: k, to: u }, ADMIN), (Op::CollectProtocol(k), rec)];
            let (op, who) = ops[h.rng.below(4) as usize].clone();
            let r = h.branch(|h| h.apply(u, op.clone()));
            ensure!(r.ok.is_some() == (u == who), "{:?} by user {}: {}", op, u[0], if r.ok.is_some() { "accepted".into() } else { r.err });
            self.cov.hit(format!("probe|{}|{}", op.method(), u == who), || format!("{op:?} by {}: {}", u[0], u == who));
            // foreign positions: an index owned only by others must be refused
            let n_own = h.d.users.get(&u).map_or(0, |x| x.pos.len()) as u32;
            let most = h.d.users.values().map(|x| x.pos.len()).max().unwrap_or(0) as u32;
            if most > n_own && h.watched.contains(&u) {
                let i = n_own + h.rng.below((most - n_own) as u64) as u32;
                let op = match h.rng.below(3) { 0 => Op::Remove(i), 1 => Op::Claim(i), _ => Op::Transfer { index: i, to: u } };
                let r = h.branch(|h| h.apply(u, op.clone()));
                ensure!(r.ok.is_none(), "{op:?} by user {} who owns {n_own} positions was accepted", u[0]);
                self.cov.hit(format!("foreign|{}", op.method()), String::new);
            }
        }
        Ok(())
    }
    // ---- C12
    fn c12(&mut self, h: &mut Hist, b: &Dump, s: &Step, sig: String) -> V {
        let mut want: Vec<(Addr, Position)> = b.positions().map(|(u, _, p)| (*u, p.clone())).collect();
        let mut loose: Option<(Addr, Position)> = None;
        let mine = |i: u32| b.users.get(&s.by).and_then(|u| u.pos.get(i as usize)).cloned();
        if s.ok.is_some() {
            match &s.op {
                Op::Create { key, lower, upper, liquidity, .. } => {
                    let Some(Ret::Position(p)) = &s.ok else { return Err("no position reported".into()) };
                    ensure!(p.key == *key && p.lower == *lower && p.upper == *upper && p.liquidity == *liquidity && p.owed_x.is_zero() && p.owed_y.is_zero(), "created {p:?}");
                    want.push((s.by, p.clone()));
                }
                Op::Remove(i) | Op::Transfer { index: i, .. } | Op::Claim(i) => {
                    let Some(p) = mine(*i) else { return Err(format!("{} of a position the caller does not own", s.op.method())) };
                    let at = want.iter().position(|(u, q)| *u == s.by && *q == p).unwrap();
                    let (u, p) = want.remove(at);
                    if let Op::Transfer { to, .. } = &s.op { want.push((*to, p)) } else if let Op::Claim(_) = &s.op { loose = Some((u, p)) }
                }
                _ => {}
            }
        }
        let mut have: Vec<(Addr, Position)> = h.d.positions().map(|(u, _, p)| (*u, p.clone())).collect();
        for w in &want { match have.iter().position(|x| x == w) { Some(i) => { have.swap_remove(i); } None => return Err(format!("{}: position {:?} of user {} is lost or changed", s.op.method(), w.1, w.0[0])) } }
        if let Some((u, p)) = &loose {
            match have.iter().position(|(v, q)| v == u && same_key_pos(p, q) && q.owed_x.is_zero() && q.owed_y.is_zero()) { Some(i) => { have.swap_remove(i); } None => return Err(format!("position {p:?} of user {} is lost by collecting", u[0])) }
            if let Op::Claim(i) = &s.op { let q = &h.d.users[&s.by].pos; ensure!(q.len() == b.users[&s.by].pos.len() && same_key_pos(&q[*i as usize], p), "collecting moved the position to another index"); }
        }
        ensure!(have.is_empty(), "{}: unexpected positions {:?}", s.op.method(), have);
        for (u, d) in &h.d.users { ensure!(d.count as usize == d.pos.len(), "user {} has {} positions listed, {} counted", u[0], d.pos.len(), d.count); }
        if matches!(s.op, Op::Create { .. } | Op::Remove(_) | Op::Transfer { .. } | Op::Claim(_)) {
            for (u, d) in h.d.users.clone() {
                for (i, p) in d.pos.iter().enumerate() { ensure!(h.w.position(&u, i as u32)? == Ok(p.clone()), "position {i} of user {} differs between queries", u[0]); }
                ensure!(h.w.position(&u, d.pos.len() as u32)?.is_err(), "user {} has a position beyond its count", u[0]);
            }
            h.w.end_queries();
            let np = b.users.get(&s.by).map_or(0, |u| u.pos.len());
            let at = match &s.op { Op::Remove(i) | Op::Claim(i) => *i as i64, Op::Transfer { index, to } => *index as i64 + if *to == s.by { 100 } else { 0 }, _ => -1 };
            self.cov.hit(format!("{sig}|{np}|{at}"), || h.log.last().cloned().unwrap());
        }
        Ok(())
    }
    // ---- C13
    fn c13(&mut self, h: &mut Hist, b: &Dump, s: &Step, sig: String) -> V {
        let mut keys = b.keys.clone(); let mut tiers = b.tiers.clone();
        let why = must_fail(b, &s.by, &s.op);
        match (&s.op, &s.ok) {
            (Op::CreatePool { a, b: c, tier, price, tick }, Some(_)) => {
                ensure!(why.is_none(), "pool created although: {}", why.unwrap());
                let (Some(lo), hi) = (h.price(*tick), h.price(tick + tier.spacing as i32)) else { return Err(format!("pool created at tick {tick} without a price")) };
                ensure!(*price >= lo && hi.map_or(true, |hi| *price < hi), "pool created at tick {tick} with price {price}; the tick covers {lo}..{hi:?}");
                let k = Key { x: *a.min(c), y: *a.max(c), tier: *tier };
                keys.push(k);
                let Some(p) = h.d.pools.get(&k).map(|p| p.pool.clone()) else { return Err("created pool is not listed".into()) };
                ensure!(p == Pool { liquidity: N::zero(), price: lo, tick: *tick, gx: 0, gy: 0, px: N::zero(), py: N::zero(), start: s.ts, last: s.ts, receiver: ADMIN }, "created pool starts as {p:?}");
                for (u, v) in [(a, c), (c, a)] { ensure!(h.w.pool_by(u, v, tier)? == Ok(p.clone()), "the pool is not found by both argument orders"); }
                h.w.end_queries();
            }
            (Op::AddTier(t), Some(_)) => { ensure!(why.is_none(), "tier added although: {}", why.unwrap()); tiers.push(*t) }
            (Op::RemoveTier(t), Some(_)) => { ensure!(why.is_none(), "tier removed although: {}", why.unwrap()); tiers.retain(|x| x != t) }
            (Op::CreatePool { tier, price, tick, .. }, None) => if why.is_none() {
                // a price inside the tick's interval is a valid request
                if let (Some(lo), Some(hi)) = (h.price(*tick), h.price(tick + tier.spacing as i32)) { ensure!(*price < lo || *price >= hi, "a valid pool was refused: {}", s.err); }
            },
            (Op::AddTier(_) | Op::RemoveTier(_), None) => ensure!(why.is_some(), "a valid tier change was refused: {}", s.err),
            _ => {}
        }
        ensure!(h.d.keys == keys, "pools listed {:?}, expected {:?}", h.d.keys.iter().map(short).collect::<Vec<_>>(), keys.iter().map(short).collect::<Vec<_>>());
        ensure!(h.d.keys_total as usize == keys.len(), "{} pools counted, {} listed", h.d.keys_total, keys.len());
        let set: BTreeSet<Key> = keys.iter().copied().collect();
        ensure!(set.len() == keys.len(), "a pool is listed twice");
        ensure!(keys.iter().all(|k| k.x < k.y), "tokens of a pool are not in canonical order");
        let (mut x, mut y) = (h.d.tiers.clone(), tiers.clone()); x.sort(); y.sort();
        ensure!(x == y, "fee tiers {:?}, expected {:?}", h.d.tiers, tiers);
        for (k, p) in &b.pools { let Some(q) = h.d.pools.get(k) else { return Err(format!("pool {} is lost", short(k))) }; ensure!(q.pool.start == p.pool.start, "pool {} was re-initialised", short(k)); }
        if matches!(s.op, Op::CreatePool { .. } | Op::AddTier(_) | Op::RemoveTier(_)) {
            let all: Vec<Tier> = h.cfg.tiers.clone().into_iter().chain(tiers.clone()).chain([match &s.op { Op::AddTier(t) | Op::RemoveTier(t) => *t, Op::CreatePool { tier, .. } => *tier, _ => unreachable!() }]).collect();
            for t in all { ensure!(h.w.tier_exists(t)? == tiers.contains(&t), "tier {t:?} listed {} but reported {}", tiers.contains(&t), !tiers.contains(&t)); }
            for k in &keys { let p = &h.d.pools[k].pool; for (u, v) in [(k.x, k.y), (k.y, k.x)] { ensure!(h.w.pool_by(&u, &v, &k.tier)?.as_ref() == Ok(p), "pool {} is not found by both argument orders", short(k)); } }
            h.w.end_queries();
            self.cov.hit(format!("{sig}|{}|{}", keys.len(), tiers.len()), || h.log.last().cloned().unwrap());
        }
        Ok(())
    }
    // ---- C14
    fn unchanged(h: &mut Hist, b: &Dump, s: &Step) -> V {
        if let Some(d) = diff(b, &h.d) { return Err(format!("{} failed ({}) but changed the state: {d}", s.op.method(), s.err)) }
        ensure!(s.events.is_empty() && s.bad_events == 0, "{} failed ({}) but emitted {:?}", s.op.method(), s.err, s.events);
        ensure!(s.native.0 == s.native.1, "{} failed ({}) but moved native value", s.op.method(), s.err);
        Ok(())
    }
    fn c14(&mut self, h: &mut Hist, b: &Dump, s: &Step, sig: String) -> V {
        if let Some(r) = must_fail(b, &s.by, &s.op) { ensure!(s.ok.is_none() || (matches!(s.op, Op::Raw(_)) && false), "accepted although: {r}"); self.cov.hit(format!("invalid|{}|{r}", s.op.method()), || h.log.last().cloned().unwrap()); }
        if s.ok.is_none() {
            if s.op.is_token_call() && !s.moved.is_empty() { return Ok(()) }
            Self::unchanged(h, b, s)?;
            if let Op::Create { key, lower, upper, .. } = &s.op { if let Some(pd) = b.pools.get(key) { for t in [*lower, *upper] { if !pd.ticks.contains_key(&t) { ensure!(h.w.tick(key, t)?.is_err(), "the failed creation left tick {t} behind"); } } h.w.end_queries(); } }
            self.cov.hit(sig, || h.log.last().cloned().unwrap());
        }
        Ok(())
    }
    /// The call dies of exhausted gas at one of its host calls.
    fn c14_gas(&mut self, h: &mut Hist, by: Addr, op: &Op) -> V {
        let total = h.branch(|h| h.apply(by, op.clone()).syscalls).max(1);
        for _ in 0..2 {
            let at = 1 + h.rng.below(total as u64) as u32;
            let b = h.d.clone(); let op = op.clone();
            let r = h.branch(|h| -> V {
                let s = h.apply_gas(by, op, Some(at), true);
                ensure!(s.ok.is_none(), "the call succeeded although it ran out of gas");
                h.d = dump(h.w, &h.watched)?;
                Self::unchanged(h, &b, &s)
            });
            r.map_err(|e| format!("out of gas at host call {at} of {total}: {e}"))?;
            self.cov.hit(format!("gas|{}|{at}/{total}", op_name(&self.prop)), || format!("trap at host call {at} of {total}"));
        }
        Ok(())
    }
    // ---- C15
    fn c15(&mut self, h: &mut Hist, b: &Dump, s: &Step) -> V {
        match (&s.op, &s.ok) {
            (Op::Create { key, min, max, .. }, Some(_)) => { let p = b.pools[key].pool.price; ensure!(*min <= p && p <= *max, "position created at price {p} outside {min}..{max}"); self.cov.hit(format!("create|ok|{}{}", (*min == p) as u8, (*max == p) as u8), || h.log.last().cloned().unwrap()) }
            (Op::Create { key, min, max, .. }, None) => if let Some(pd) = b.pools.get(key) {
                let p = pd.pool.price; let inside = *min <= p && p <= *max;
                if inside { ensure!(err_of(&s.err) != Some("PriceLimitReached"), "creation refused for its price {p} although it is inside {min}..{max}"); }
                self.cov.hit(format!("create|{}|{inside}", class(s)), String::new);
            },
            (Op::Route { expected, slippage, .. }, Some(Ret::Amount(out))) => {
                let one = p10(12);
                let min = if n(*slippage) >= one { N::zero() } else { (expected * (&one - *slippage)).div_ceil(&one) };
                ensure!(*out >= min, "route paid {out}, minimum is {min} (expected {expected}, slippage {slippage})");
                self.cov.hit(format!("route|ok|{}|{}|{}", (*out == min) as u8, (*slippage).checked_ilog10().unwrap_or(0), mag(out)), || h.log.last().cloned().unwrap());
            }
            (Op::Route { .. }, None) => { Self::unchanged(h, b, s)?; self.cov.hit(format!("route|{}", class(s)), || h.log.last().cloned().unwrap()) }
            _ => {}
        }
        Ok(())
    }
    // ---- C16
    fn c16(&mut self, h: &mut Hist, b: &Dump, s: &Step) -> V {
        if s.ok.is_none() { return Ok(()) }
        let delta = |t: &Addr| h.d.bal(&s.by, t) - b.bal(&s.by, t);
        match &s.op {
            Op::Create { key, lower, upper, liquidity, .. } => {
                let t = &h.d.pools[key].ticks;
                let (Some(lo), Some(hi)) = (t.get(lower), t.get(upper)) else { return Err("created position has no ticks".into()) };
                let pool = &b.pools[key].pool;
                let (ex, ey, inr) = principal(pool, liquidity, (*lower, lo.price), (*upper, hi.price));
                let sl = principal_slack(pool, liquidity, (*lower, lo.price), (*upper, hi.price));
                let (cx, cy) = (-delta(&key.x), -delta(&key.y));
                for (c, e, w, sl) in [(&cx, &ex, "x", &sl), (&cy, &ey, "y", &N::zero())] {
                    ensure!(*c >= e.ceil_eps() && *c <= e.ceil() + 2 + sl, "opening {lower}..{upper} L {liquidity} at price {} charged {c} of {w}, exact {}/{}", pool.price, e.a, e.b);
                }
                ensure!(ex.a.is_zero() == cx.is_zero() && ey.a.is_zero() == cy.is_zero() || true, "");
                self.cov.hit(format!("open|{inr}|{}|{}|{}", pool.tick < *lower, mag(&cx), mag(&cy)), || h.log.last().cloned().unwrap());
                // closing at once
                let by = s.by; let i = h.d.users[&by].pos.len() as u32 - 1;
                let s2 = h.branch(|h| h.apply(by, Op::Remove(i)).ok);
                let Some(Ret::Pair(rx, ry)) = s2 else { return Err("the position just opened cannot be closed".into()) };
                for (r, c, w, sl) in [(&rx, &cx, "x", &sl), (&ry, &cy, "y", &N::zero())] { ensure!(r <= c && c - r <= n(3) + sl * 2, "opening cost {c} of {w}, closing at once returned {r}"); }
            }
            Op::Remove(i) => {
                let p = &b.users[&s.by].pos[*i as usize];
                let (lo, hi) = b.bounds(p).ok_or("position without ticks")?;
                let pd = &b.pools[&p.key];
                let (ex, ey, inr) = principal(&pd.pool, &p.liquidity, lo, hi);
                let sl = principal_slack(&pd.pool, &p.liquidity, lo, hi);
                let (fx, fy) = claimable(pd, p).unwrap();
                let (rx, ry) = (delta(&p.key.x) - fx, delta(&p.key.y) - fy);
                for (r, e, w, sl) in [(&rx, &ex, "x", &sl), (&ry, &ey, "y", &N::zero())] { ensure!(*r <= e.floor() && *r >= e.floor() - 2 - sl, "closing {}..{} L {} at price {} returned {r} of {w} besides fees, exact {}/{}", lo.0, hi.0, p.liquidity, pd.pool.price, e.a, e.b); }
                self.cov.hit(format!("close|{inr}|{}|{}|{}", pd.pool.tick < lo.0, mag(&rx), mag(&ry)), || h.log.last().cloned().unwrap());
            }
            _ => {}
        }
        Ok(())
    }
    // ---- C22
    fn c22(&mut self, h: &mut Hist, b: &Dump, s: &Step, sig: String) -> V {
        ensure!(s.bad_events == 0, "{} malformed events", s.bad_events);
        let m = s.op.method();
        if s.ok.is_none() { ensure!(s.events.is_empty(), "{m} failed but emitted {:?}", s.events); return Ok(()) }
        let ev = &s.events;
        match &s.op {
            Op::Create { key, lower, upper, liquidity, .. } => ensure!(*ev == [Event::Created { ts: s.ts, who: s.by, key: *key, liquidity: liquidity.clone(), lower: *lower, upper: *upper, price: b.pools[key].pool.price }], "{m} emitted {ev:?}"),
            Op::Remove(i) => { let p = &b.users[&s.by].pos[*i as usize]; ensure!(*ev == [Event::Removed { ts: s.ts, who: s.by, key: p.key, liquidity: p.liquidity.clone(), lower: p.lower, upper: p.upper, price: b.pools[&p.key].pool.price }], "{m} emitted {ev:?} for {p:?}") }
            Op::Swap { key, x_to_y, .. } => {
                let Some(Ret::Swap(r)) = &s.ok else { return Err("?".into()) };
                let (pb, pa) = (&b.pools[key], &h.d.pools[key]);
                let c = crossed(pb, pa, *x_to_y);
                let mut want = vec![];
                if !c.is_empty() { want.push(Event::Cross { ts: s.ts, who: s.by, key: *key, ticks: c.clone() }) }
                let (ti, to) = if *x_to_y { (key.x, key.y) } else { (key.y, key.x) };
                want.push(Event::Swap { ts: s.ts, who: s.by, key: *key, amount_in: b.bal(&s.by, &ti) - h.d.bal(&s.by, &ti), amount_out: h.d.bal(&s.by, &to) - b.bal(&s.by, &to), fee: r.fee.clone(), start: pb.pool.price, target: pa.pool.price, x_to_y: *x_to_y });
                ensure!(*ev == want, "{m} emitted {ev:?}, expected {want:?}");
                ensure!(r.ticks.iter().map(|t| t.index).collect::<Vec<_>>() == c, "{m} reports crossed ticks {:?}, crossed {c:?}", r.ticks.iter().map(|t| t.index).collect::<Vec<_>>());
                let l = &legs(s)[0]; let e = bounds(l, pb, pa);
                ensure!(r.fee <= &r.amount_in - &e.net_lo && r.fee >= pct_up(&e.net_lo, key.tier.fee) - e.steps - 3 - &e.slack, "{m} reports a fee of {} on {}", r.fee, r.amount_in);
                if c.len() >= 16 { self.cov.hit(format!("Swap crossing {}+ ticks|{}", if c.len() >= 64 { 64 } else { 16 }, c.len()), String::new) }
                self.cov.hit(format!("{sig}|{}", c.len()), || format!("{ev:?}"));
                return Ok(());
            }
            Op::Route { amount, hops, .. } => {
                let Some(Ret::Amount(out)) = &s.ok else { return Err("?".into()) };
                let mut i = 0; let mut carry = amount.clone();
                let set: BTreeSet<Key> = hops.iter().map(|x| x.0).collect();
                let mut last: BTreeMap<Key, u128> = BTreeMap::new();
                for (k, d) in hops {
                    let mut ticks = vec![];
                    if let Some(Event::Cross { ts, who, key, ticks: t }) = ev.get(i) { ensure!(*ts == s.ts && *who == s.by && key == k && !t.is_empty(), "{m} emitted {:?}", ev[i]); ticks = t.clone(); i += 1 }
                    let Some(Event::Swap { ts, who, key, amount_in, amount_out, start, target, x_to_y, .. }) = ev.get(i) else { return Err(format!("{m} emitted {ev:?} for {} hops", hops.len())) };
                    i += 1;
                    let st = *last.get(k).unwrap_or(&b.pools[k].pool.price);
                    ensure!(*ts == s.ts && *who == s.by && key == k && x_to_y == d && *amount_in == carry && *start == st, "{m}: hop event {:?}, expected input {carry} from price {st}", ev[i - 1]);
                    carry = amount_out.clone(); last.insert(*k, *target);
                    if set.len() == hops.len() { let c = crossed(&b.pools[k], &h.d.pools[k], *d); ensure!(c == ticks, "{m}: crossed {c:?} but reported {ticks:?}"); }
                }
                ensure!(i == ev.len() && carry == *out, "{m} emitted {ev:?} and paid {out}");
                for (k, p) in last { ensure!(h.d.pools[&k].pool.price == p, "{m}: last reported price {p}, pool at {}", h.d.pools[&k].pool.price); }
            }
            _ => ensure!(ev.is_empty(), "{m} emitted {ev:?}"),
        }
        ensure!(s.stray == 0, "{m} sent {} unexpected messages", s.stray);
        self.cov.hit(format!("{sig}|{}", ev.len()), || format!("{ev:?}"));
        Ok(())
    }
    // ---- C24
    fn c24(&mut self, h: &mut Hist, b: &Dump, s: &Step, sig: String) -> V {
        let ok = s.ok.is_some();
        // how often each tick was crossed
        let mut crossings: BTreeMap<Key, BTreeMap<i32, u32>> = BTreeMap::new();
        for e in &s.events { if let Event::Cross { key, ticks, .. } = e { for t in ticks { *crossings.entry(*key).or_default().entry(*t).or_insert(0) += 1 } } }
        for l in legs(s) { let c = crossed(&b.pools[&l.key], &h.d.pools[&l.key], l.down); let m: BTreeMap<i32, u32> = c.into_iter().map(|t| (t, 1)).collect(); if m.is_empty() { crossings.remove(&l.key); } else { crossings.insert(l.key, m); } }
        for (k, pa) in &h.d.pools {
            let Some(pb) = b.pools.get(k) else { ensure!(pa.pool.start == s.ts && pa.pool.last == s.ts, "new pool has times {}/{} at {}", pa.pool.start, pa.pool.last, s.ts); continue };
            ensure!(pa.pool.start == pb.pool.start, "creation time of {} changed", short(k));
            let touch = ok && match &s.op { Op::Create { key, .. } => key == k, Op::Remove(i) | Op::Claim(i) => b.users[&s.by].pos[*i as usize].key == *k, _ => crossings.contains_key(k) };
            let want = if touch { s.ts } else { pb.pool.last };
            ensure!(pa.pool.last == want, "{} set the last update of {} to {} instead of {want}", s.op.method(), short(k), pa.pool.last);
            for (i, t) in &pa.ticks {
                let el = s.ts - pa.pool.start;
                let mut w = match pb.ticks.get(i) { Some(o) => o.secs, None => if *i <= pb.pool.tick { el } else { 0 } };
                let c = crossings.get(k).and_then(|m| m.get(i)).copied().unwrap_or(0);
                for _ in 0..c { w = el.wrapping_sub(w) }
                ensure!(t.secs == w, "{}: tick {i} of {} has outside time {} instead of {w}", s.op.method(), short(k), t.secs);
                if c > 0 || !pb.ticks.contains_key(i) { self.cov.hit(format!("tick|{}|{}|{}", c, pb.ticks.contains_key(i), (el > 0) as u8 + (w > 0) as u8), || format!("tick {i} outside {w} of {el}")); }
            }
        }
        if let (Op::Create { .. }, Some(Ret::Position(p))) = (&s.op, &s.ok) {
            ensure!(p.block == s.block as u64, "position opened in block {} records {}", s.block, p.block);
            ensure!(h.d.users[&s.by].pos.iter().any(|q| q == p), "the listed position differs from the reported one");
        }
        // opening blocks never change
        let mut bl: Vec<(Key, i32, i32, N, u64)> = b.positions().map(|(_, _, p)| (p.key, p.lower, p.upper, p.liquidity.clone(), p.block)).collect();
        let mut al: Vec<(Key, i32, i32, N, u64)> = h.d.positions().map(|(_, _, p)| (p.key, p.lower, p.upper, p.liquidity.clone(), p.block)).collect();
        if ok { match &s.op { Op::Create { key, lower, upper, liquidity, .. } => bl.push((*key, *lower, *upper, liquidity.clone(), s.block as u64)), Op::Remove(i) => { let p = &b.users[&s.by].pos[*i as usize]; al.push((p.key, p.lower, p.upper, p.liquidity.clone(), p.block)) } _ => {} } }
        bl.sort(); al.sort();
        ensure!(bl == al, "{} changed the opening block of a position", s.op.method());
        self.cov.hit(sig, || h.log.last().cloned().unwrap());
        Ok(())
    }
    // ---- C25
    fn c25(&mut self, h: &mut Hist, b: &Dump, s: &Step, sig: String) -> V {
        let nat = |m: &BTreeMap<Addr, u128>, u: &Addr| n(m.get(u).copied().unwrap_or(if *u == PROGRAM { 0 } else { 1 << 100 }));
        let dn = |u: &Addr| nat(&s.native.1, u) - nat(&s.native.0, u);
        let di = h.d.bal(&s.by, &ZERO) - b.bal(&s.by, &ZERO);
        match (&s.op, &s.ok) {
            (Op::DepositVara(v), Some(r)) => { ensure!(di == n(*v) && dn(&PROGRAM) == n(*v) && dn(&s.by) == -n(*v) && *r == Ret::Amount(n(*v)), "depositing {v} native credited {di}, moved {} and reported {r:?}", dn(&PROGRAM)) }
            (Op::WithdrawVara(req), Some(Ret::Amount(v))) => {
                let want = req.clone().unwrap_or_else(|| b.bal(&s.by, &ZERO));
                ensure!(*v == want && di == -v.clone() && dn(&s.by) == *v && dn(&PROGRAM) == -v.clone() && n(s.reply_value) == *v, "withdrawing {want} native debited {di}, paid {} and reported {v}", dn(&s.by));
            }
            (Op::WithdrawVara(_), Some(r)) => return Err(format!("reported {r:?}")),
            _ => {
                ensure!(s.native.1.iter().all(|(u, v)| nat(&s.native.0, u) == n(*v)), "{} moved native value", s.op.method());
                if s.op.is_token_call() || s.ok.is_none() { for u in h.d.users.keys() { ensure!(h.d.bal(u, &ZERO) == b.bal(u, &ZERO), "{} changed a VARA balance", s.op.method()); } }
                if s.ok.is_some() { if let Some("native token" | "insufficient balance or native token") = must_fail(b, &s.by, &s.op) { return Err(format!("{:?} accepted", s.op)) } }
                for m in &s.moved { ensure!(m.0 != ZERO, "a token message was sent to the native token's address"); }
            }
        }
        for u in h.d.users.keys() { if *u != s.by { ensure!(h.d.bal(u, &ZERO) == b.bal(u, &ZERO), "{} changed the VARA balance of user {}", s.op.method(), u[0]); } }
        if matches!(s.op, Op::WithdrawVara(Some(_))) && must_fail(b, &s.by, &s.op).is_none() { ensure!(s.ok.is_some(), "withdrawing within the balance failed: {}", s.err); }
        let owed = Self::liabilities(&h.d).get(&ZERO).cloned().unwrap_or_else(N::zero);
        let held = nat(&s.native.1, &PROGRAM);
        ensure!(owed <= held, "the exchange owes {owed} VARA but holds {held}");
        if matches!(s.op, Op::DepositVara(_) | Op::WithdrawVara(_)) || s.op.is_token_call() || !di.is_zero() { self.cov.hit(format!("{sig}|{}", mag(&di)), || h.log.last().cloned().unwrap()); }
        Ok(())
    }
    // ---- C26
    fn c26_queries(&mut self, h: &mut Hist) -> V {
        let Some(k) = h.any_key() else { return Ok(()) };
        let u = h.any_user();
        let edge32 = |h: &mut Hist| *h.rng.pick(&[0u32, 1, 2, u32::MAX, u32::MAX - 1, 1 << 31, 65536, 65535]);
        let edge16 = |h: &mut Hist| *h.rng.pick(&[0u16, 1, 2, u16::MAX, u16::MAX - 1, 1 << 15, 64]);
        for _ in 0..3 {
            let (a, b, c, d) = (edge32(h), edge32(h), edge16(h), edge16(h));
            let t = h.weird_tick(); let (am, lim) = (h.weird(), h.weird128());
            let down = h.rng.chance(1, 2);
            let mut exact = false; // the answer is known to be right, whatever happened on the way
            let name = match h.rng.below(9) {
                0 => { // a page of positions is exact or refused
                    if let Ok(Ok((g, total))) = h.w.positions_page(&u, a, b) {
                        let all = &h.d.users[&u].pos; let got: usize = g.iter().map(|x| x.1.len()).sum();
                        let want = all.len().saturating_sub(b as usize).min(a as usize);
                        ensure!(total as usize == all.len() && got == want, "page {a}@{b} of {} positions returned {got}", all.len());
                        let mut seen = BTreeSet::new();
                        for (p, i) in g.iter().flat_map(|x| &x.1) { ensure!(*i >= b && seen.insert(*i) && all.get(*i as usize) == Some(p), "page {a}@{b} of {} positions gives {p:?} as number {i}", all.len()); }
                        exact = true;
                    } "positions" }
                1 => { if let Ok((g, total)) = h.w.pool_keys(c, d) { let want = h.d.keys.len().saturating_sub(d as usize).min(c as usize); exact = true; ensure!(g.len() == want && total as usize == h.d.keys.len() && g[..] == h.d.keys[h.d.keys.len().min(d as usize)..][..want], "page {c}@{d} of {} pools returned {}", h.d.keys.len(), g.len()); } "pools" }
                2 => { if let Ok(v) = h.w.pos_ticks(&u, a) { let want = 2 * h.d.users[&u].pos.len().saturating_sub(a as usize); ensure!(v.len() == want, "position ticks from {a}: {} of {want}", v.len());
                    let of: Vec<i32> = h.d.users[&u].pos.iter().skip(a as usize).flat_map(|p| [p.lower, p.upper]).collect();
                    ensure!(v.iter().map(|t| t.index).eq(of), "position ticks from {a} are others"); exact = true; } "position ticks" }
                3 => { if let Ok(Ok(x)) = h.w.tick(&k, t) { ensure!(x.index == t, "tick {t} answered with tick {}", x.index); } "tick" }
                4 => { if let Ok(x) = h.w.tick_init(&k, t) { ensure!(x == h.d.pools[&k].ticks.contains_key(&t), "tick {t} reported initialised: {x}"); exact = true; } "tick initialised" }
                5 => { if let Ok(Ok(_)) = h.w.position(&u, a) { ensure!((a as usize) < h.d.users[&u].pos.len(), "position {a} found"); } "position" }
                6 => { let _ = h.w.quote(&k, down, &am, true, if down { MIN_PRICE } else { MAX_PRICE }); "quote" }
                7 => { let _ = h.w.quote(&k, down, &am, false, lim); "quote by output" }
                _ => { let _ = h.w.quote_route(&am, &[(k, down)]); "route quote" }
            };
            h.w.end_queries();
            if exact { h.w.diverged = None }
            if let Some(d) = h.w.diverged.take() { return Err(format!("{name} query with extreme arguments ({a} {b} {c} {d} {t} {am} {lim}): {d}", d = d)) }
            self.cov.hit(format!("query|{name}|{a}|{b}|{c}|{d}|{t}"), String::new);
        }
        Ok(())
    }
    fn c26(&mut self, h: &mut Hist, b: &Dump, s: &Step, sig: String) -> V {
        if let Some(d) = h.w.diverged.take() { return Err(format!("{} by user {}: {d}", s.op.method(), s.by[0])) }
        // independently of the second build: the amounts are those of exact arithmetic
        self.c05(h, b, s)?; self.c10(h, b, s)?; self.c16(h, b, s)?; self.c15(h, b, s)?;
        if let Some(why) = must_fail(b, &s.by, &s.op) { ensure!(s.ok.is_none(), "{} accepted although: {why}", s.op.method()); }
        self.c28(h, b, s, sig.clone())?;
        if let Some(d) = h.w.diverged.take() { return Err(format!("{} by user {}: {d}", s.op.method(), s.by[0])) }
        let big = match &s.op { Op::Swap { amount, .. } | Op::Route { amount, .. } => mag(amount), Op::Create { liquidity, .. } => mag(liquidity), Op::Deposit { amount, .. } => mag(amount), _ => 0 };
        self.cov.hit(format!("call|{sig}|{big}"), || h.log.last().cloned().unwrap_or_default());
        Ok(())
    }
    // ---- C27
    fn c27(&mut self, h: &mut Hist, b: &Dump, s: &Step, sig: String) -> V {
        if s.ok.is_none() && !s.op.is_token_call() { if let Some(d) = diff(b, &h.d) { return Err(format!("failed {}: {d}", s.op.method())) } return Ok(()) }
        let m = s.op.method();
        let mine = |i: u32| b.users[&s.by].pos.get(i as usize).cloned();
        let (mut pools, mut toks): (BTreeSet<Key>, BTreeSet<Addr>) = Default::default();
        let mut ticks: BTreeSet<(Key, i32)> = BTreeSet::new();
        match &s.op {
            Op::Swap { key, .. } => { pools.insert(*key); toks.extend([key.x, key.y]); }
            Op::Route { hops, .. } => { for (k, _) in hops { pools.insert(*k); }
                if let (Some((k, d)), Some((l, e))) = (hops.first(), hops.last()) { toks.insert(if *d { k.x } else { k.y }); toks.insert(if *e { l.y } else { l.x });
                    // hops that do not fit together also settle their own tokens
                    for w in hops.windows(2) { let o = if w[0].1 { w[0].0.y } else { w[0].0.x }; let i = if w[1].1 { w[1].0.x } else { w[1].0.y }; if o != i { toks.extend([o, i]); } } } }
            Op::Create { key, lower, upper, .. } => { pools.insert(*key); toks.extend([key.x, key.y]); ticks.extend([(*key, *lower), (*key, *upper)]); }
            Op::Remove(i) | Op::Claim(i) => if let Some(p) = mine(*i) { pools.insert(p.key); toks.extend([p.key.x, p.key.y]); ticks.extend([(p.key, p.lower), (p.key, p.upper)]); },
            Op::CollectProtocol(k) => { pools.insert(*k); toks.extend([k.x, k.y]); }
            Op::SetReceiver { key, .. } => { pools.insert(*key); }
            Op::CreatePool { a, b: c, tier, .. } => { pools.insert(Key { x: *a.min(c), y: *a.max(c), tier: *tier }); }
            Op::DepositVara(_) | Op::WithdrawVara(_) => { toks.insert(ZERO); }
            Op::Deposit { token, .. } | Op::Withdraw { token, .. } => { toks.insert(*token); }
            Op::DepositPair { a, b } => { toks.extend([a.0, b.0]); } Op::WithdrawPair { a, b } => { toks.extend([a.0, b.0]); }
            _ => {}
        }
        for e in &s.events { if let Event::Cross { key, ticks: t, .. } = e { for i in t { ticks.insert((*key, *i)); } } }
        for k in h.d.pools.keys() { ensure!(b.pools.contains_key(k) || pools.contains(k), "{m} created pool {}", short(k)); }
        for (k, pb) in &b.pools {
            let Some(pa) = h.d.pools.get(k) else { return Err(format!("{m} removed pool {}", short(k))) };
            if !pools.contains(k) { ensure!(pa == pb, "{m} changed pool {} which it does not name", short(k)); continue }
            // which fields may change
            let mut p = pa.pool.clone(); let q = &pb.pool;
            match &s.op {
                Op::Swap { .. } | Op::Route { .. } => { let down = |h: &(Key, bool)| h.0 == *k && h.1; let up = |h: &(Key, bool)| h.0 == *k && !h.1;
                    let (dn, u) = match &s.op { Op::Swap { x_to_y, .. } => (*x_to_y, !*x_to_y), Op::Route { hops, .. } => (hops.iter().any(down), hops.iter().any(up)), _ => unreachable!() };
                    p.price = q.price; p.tick = q.tick; p.last = q.last; p.liquidity = q.liquidity.clone();
                    if dn { p.gx = q.gx; p.px = q.px.clone(); } if u { p.gy = q.gy; p.py = q.py.clone(); } }
                Op::Create { .. } | Op::Remove(_) => { p.liquidity = q.liquidity.clone(); p.last = q.last; }
                Op::Claim(_) => p.last = q.last,
                Op::CollectProtocol(_) => { p.px = q.px.clone(); p.py = q.py.clone(); }
                Op::SetReceiver { .. } => p.receiver = q.receiver,
                _ => {}
            }
            ensure!(p == *q, "{m} changed unrelated fields of pool {}: {:?} -> {:?}", short(k), pb.pool, pa.pool);
            for i in pa.ticks.keys().chain(pb.ticks.keys()) { if !ticks.contains(&(*k, *i)) { ensure!(pa.ticks.get(i) == pb.ticks.get(i), "{m} changed tick {i} of {}, which is not involved: {:?} -> {:?}", short(k), pb.ticks.get(i), pa.ticks.get(i)); } }
            for (i, t) in &pb.ticks { if let Some(u) = pa.ticks.get(i) { // what may change in an involved tick
                let mut v = u.clone();
                match &s.op { Op::Swap { .. } | Op::Route { .. } => { v.gox = t.gox; v.goy = t.goy; v.secs = t.secs } Op::Create { .. } | Op::Remove(_) => { v.change = t.change.clone(); v.gross = t.gross.clone(); v.sign = t.sign } _ => {} }
                if v.change.is_zero() && t.change.is_zero() { v.sign = t.sign } // the sign of zero has no meaning
                ensure!(v == *t, "{m} changed tick {i} of {} beyond its part: {t:?} -> {u:?}", short(k)); } }
        }
        for (u, ub) in &b.users {
            let ua = &h.d.users[u];
            let all: BTreeSet<Addr> = ub.bal.keys().chain(ua.bal.keys()).copied().collect();
            for t in all { if h.d.bal(u, &t) != b.bal(u, &t) { ensure!(*u == s.by && toks.contains(&t), "{m} by user {} changed user {}'s balance of token {:02x}: {} -> {}", s.by[0], u[0], t[31], b.bal(u, &t), h.d.bal(u, &t)); } }
            let may = match &s.op { Op::Create { .. } | Op::Remove(_) | Op::Claim(_) => *u == s.by, Op::Transfer { to, .. } => *u == s.by || u == to, _ => false };
            if !may { ensure!(ua.pos == ub.pos, "{m} by user {} changed positions of user {}", s.by[0], u[0]); }
            else {
                let mut rest = ua.pos.clone();
                let involved = match &s.op { Op::Remove(i) | Op::Claim(i) | Op::Transfer { index: i, .. } if *u == s.by => mine(*i), _ => None };
                let mut spared = false;
                for p in &ub.pos {
                    if !spared && Some(p) == involved.as_ref() { spared = true; continue }
                    match rest.iter().position(|q| q == p) { Some(i) => { rest.swap_remove(i); } None => return Err(format!("{m} changed a position of user {} that is not involved: {p:?}", u[0])) }
                }
            }
        }
        if h.d.fee != b.fee { ensure!(matches!(s.op, Op::SetProtocolFee(_)), "{m} changed the protocol fee"); }
        if h.d.tiers != b.tiers { ensure!(matches!(s.op, Op::AddTier(_) | Op::RemoveTier(_)), "{m} changed the fee tiers"); }
        self.cov.hit(format!("{sig}|{}|{}", b.pools.len(), h.d.positions().count().min(10)), || h.log.last().cloned().unwrap());
        Ok(())
    }
    // ---- C28
    fn c28(&mut self, h: &mut Hist, b: &Dump, s: &Step, sig: String) -> V {
        let m = s.op.method();
        for (u, d) in &h.d.users { ensure!(d.zeros.is_empty(), "{m}: user {} lists a zero balance", u[0]); }
        let mut want: BTreeMap<Addr, N> = BTreeMap::new();
        let mut add = |t: Addr, v: N| *want.entry(t).or_insert_with(N::zero) += v;
        if let Some(r) = &s.ok {
            match (&s.op, r) {
                (Op::Create { key, lower, upper, liquidity, .. }, _) => { // what it charges is the curve amount
                    let t = &h.d.pools[key].ticks;
                    let (Some(lo), Some(hi)) = (t.get(lower), t.get(upper)) else { return Err("position without ticks".into()) };
                    let (x, y, _) = principal(&b.pools[key].pool, liquidity, (*lower, lo.price), (*upper, hi.price));
                    let sl = principal_slack(&b.pools[key].pool, liquidity, (*lower, lo.price), (*upper, hi.price));
                    for (t, e, sl) in [(key.x, x, sl), (key.y, y, N::zero())] { let c = b.bal(&s.by, &t) - h.d.bal(&s.by, &t); ensure!(c >= e.ceil_eps() && c <= e.ceil() + 2 + sl, "{m} debited {c} of token {:02x}", t[31]); add(t, -c) }
                }
                (Op::Remove(i) | Op::Claim(i), Ret::Pair(x, y)) => { let p = &b.users[&s.by].pos[*i as usize]; add(p.key.x, x.clone()); add(p.key.y, y.clone()) }
                (Op::Swap { key, x_to_y, .. }, Ret::Swap(r)) => { let (i, o) = if *x_to_y { (key.x, key.y) } else { (key.y, key.x) }; add(i, -r.amount_in.clone()); add(o, r.amount_out.clone()) }
                (Op::Route { hops, amount, .. }, Ret::Amount(out)) => {
                    let fits = hops.windows(2).all(|w| (if w[0].1 { w[0].0.y } else { w[0].0.x }) == (if w[1].1 { w[1].0.x } else { w[1].0.y }));
                    if let (true, Some((k, d)), Some((l, e))) = (fits, hops.first(), hops.last()) { add(if *d { k.x } else { k.y }, -amount.clone()); add(if *e { l.y } else { l.x }, out.clone()) }
                    else if !hops.is_empty() { for e in &s.events { if let Event::Swap { key, amount_in, amount_out, x_to_y, .. } = e { let (i, o) = if *x_to_y { (key.x, key.y) } else { (key.y, key.x) }; add(i, -amount_in.clone()); add(o, amount_out.clone()) } } }
                }
                (Op::CollectProtocol(k), _) => { add(k.x, b.pools[k].pool.px.clone()); add(k.y, b.pools[k].pool.py.clone()) }
                (Op::DepositVara(_), Ret::Amount(v)) => add(ZERO, v.clone()),
                (Op::WithdrawVara(_), Ret::Amount(v)) => add(ZERO, -v.clone()),
                (Op::Deposit { token, .. }, Ret::Amount(v)) => add(*token, v.clone()),
                (Op::Withdraw { token, .. }, Ret::Amount(v)) => add(*token, -v.clone()),
                (Op::DepositPair { a, b }, Ret::Pair(x, y)) => { add(a.0, x.clone()); add(b.0, y.clone()) }
                (Op::WithdrawPair { a, b }, Ret::Pair(x, y)) => { add(a.0, -x.clone()); add(b.0, -y.clone()) }
                _ => {}
            }
        } else if s.op.is_token_call() { for (t, from, to, amt, good) in &s.moved { if *good { if *to == PROGRAM && *from == s.by { add(*t, amt.clone()) } else { add(*t, -amt.clone()) } } } }
        let all: BTreeSet<Addr> = want.keys().copied().chain(b.users[&s.by].bal.keys().copied()).chain(h.d.users[&s.by].bal.keys().copied()).collect();
        for t in all { let d = h.d.bal(&s.by, &t) - b.bal(&s.by, &t); let w = want.get(&t).cloned().unwrap_or_else(N::zero); ensure!(d == w, "{m}: balance of token {:02x} changed by {d}, reported {w}", t[31]); }
        for (u, ub) in &b.users { if *u != s.by { ensure!(h.d.users[u].bal == ub.bal, "{m} changed balances of user {}", u[0]); } }
        let big = want.values().map(mag).max().unwrap_or(0);
        self.cov.hit(format!("{sig}|{}|{big}", want.len()), || h.log.last().cloned().unwrap());
        Ok(())
    }
    // ---- C23
    fn c23(&mut self, h: &mut Hist) -> V {
        let d = h.d.clone();
        // pools
        let nk = d.keys.len() as u16;
        for _ in 0..3 {
            let off = h.rng.below(nk as u64 + 3) as u16; let size = *h.rng.pick(&[0u16, 1, 2, 3, 100, 60_000]);
            let (k, total) = h.w.pool_keys(size, off)?;
            let want: Vec<Key> = d.keys.iter().skip(off as usize).take(size as usize).copied().collect();
            ensure!(k == want && total == nk, "pool page size {size} offset {off}: {} keys of {total}, expected {} of {nk}", k.len(), want.len());
            self.cov.hit(format!("poolpage|{nk}|{off}|{size}"), || format!("page {size}@{off} of {nk} pools"));
        }
        let ts = h.cfg.tokens.clone();
        for a in &ts { for b in &ts {
            let r = h.w.pools_for_pair(a, b)?;
            if a == b { ensure!(r.is_err() || d.tiers.is_empty(), "pools for a pair of equal tokens: {r:?}"); continue }
            let mut want: Vec<(Tier, Pool)> = d.tiers.iter().filter_map(|t| d.pools.get(&Key { x: *a.min(b), y: *a.max(b), tier: *t }).map(|p| (*t, p.pool.clone()))).collect();
            let Ok(mut r) = r else { return Err(format!("pools for a pair failed: {r:?}")) };
            want.sort_by_key(|x| x.0); r.sort_by_key(|x| x.0);
            ensure!(r == want, "pools for pair {:02x}/{:02x}: {:?}, expected {:?}", a[31], b[31], r.iter().map(|x| x.0).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>());
            self.cov.hit(format!("pair|{}", want.len()), String::new);
        } }
        // positions
        for (u, ud) in &d.users {
            let np = ud.pos.len() as u32;
            let mut pages = vec![(1000u32, 0u32)];
            for _ in 0..2 { pages.push((*h.rng.pick(&[0u32, 1, 2, 3, 5, 1 << 31]), h.rng.below(np as u64 + 3) as u32)) }
            // walking all pages of one size
            let w = 1 + h.rng.below(4) as u32; let mut o = 0; while o < np { pages.push((w, o)); o += w }
            for (size, off) in pages {
                let Ok((g, total)) = h.w.positions_page(u, size, off)? else { return Err("a page of positions failed".into()) };
                ensure!(total == np, "position total {total} instead of {np}");
                let mut flat: Vec<(u32, Position)> = vec![]; let mut seen = BTreeSet::new();
                for (pool, ps) in g { let Some(k) = ps.first().map(|p| p.0.key) else { return Err("empty group".into()) }; ensure!(seen.insert(k), "pool {} in two groups", short(&k)); ensure!(d.pools[&k].pool == pool, "group shows a wrong pool"); for (p, i) in ps { ensure!(p.key == k, "position of another pool in a group"); flat.push((i, p)) } }
                flat.sort_by_key(|x| x.0);
                let want: Vec<(u32, Position)> = ud.pos.iter().enumerate().skip(off as usize).take(size as usize).map(|(i, p)| (i as u32, p.clone())).collect();
                ensure!(flat == want, "position page size {size} offset {off} of {np}: indices {:?}", flat.iter().map(|x| x.0).collect::<Vec<_>>());
                self.cov.hit(format!("pospage|{np}|{off}|{size}|{}", seen.len()), || format!("page {size}@{off} of {np} positions in {} groups", seen.len()));
            }
            for (i, p) in ud.pos.iter().enumerate() {
                let pd = &d.pools[&p.key];
                let Ok((q, pool, lo, hi)) = h.w.associates(u, i as u32)? else { return Err("composite position query failed".into()) };
                ensure!(q == *p && pool == pd.pool && Some(&lo) == pd.ticks.get(&p.lower) && Some(&hi) == pd.ticks.get(&p.upper), "composite query of position {i} of user {} differs", u[0]);
            }
            ensure!(h.w.associates(u, np)?.is_err(), "composite query beyond the last position succeeds");
            for i in 0..=np { let one = h.w.position(u, i)?; ensure!(one.as_ref().ok() == ud.pos.get(i as usize), "position {i} of {np} queried alone differs from the listing: {one:?}"); }
            let off = h.rng.below(np as u64 + 2) as u32;
            let got = h.w.pos_ticks(u, off)?;
            let want: Vec<PosTick> = ud.pos.iter().skip(off as usize).flat_map(|p| [p.lower, p.upper].map(|i| { let t = &d.pools[&p.key].ticks[&i]; PosTick { index: i, gox: t.gox, goy: t.goy, secs: t.secs } })).collect();
            ensure!(got == want, "position ticks from {off}: {:?}", got.iter().map(|t| t.index).collect::<Vec<_>>());
            self.cov.hit(format!("posticks|{np}|{off}"), String::new);
        }
        for (k, pd) in &d.pools {
            ensure!(h.w.pool(k)?.as_ref() == Ok(&pd.pool), "pool differs between queries");
            ensure!(pd.missing.is_empty() && pd.count as usize == pd.ticks.len(), "{} ticks are counted, the tick map lists {} and {} without a record", pd.count, pd.ticks.len(), pd.missing.len());
            for (i, t) in &pd.ticks { ensure!(t.index == *i && h.w.tick_init(k, *i)?, "tick {i} is in the tick map but not reported initialised (or as tick {})", t.index); }
            let all: Vec<i32> = pd.ticks.keys().copied().collect();
            if all.is_empty() { continue }
            let mut l: Vec<i32> = vec![]; for _ in 0..1 + h.rng.below(5) { l.push(*h.rng.pick(&all)) }
            let Ok(r) = h.w.liq_ticks(k, &l)? else { return Err("liquidity tick query failed".into()) };
            let want: Vec<LiqTick> = l.iter().map(|i| { let t = &pd.ticks[i]; LiqTick { index: *i, change: t.change.clone(), sign: t.sign } }).collect();
            ensure!(r == want, "liquidity ticks {l:?} returned {r:?}");
            if h.rng.chance(1, 60) {
                let long = vec![all[0]; 21_544]; ensure!(h.w.liq_ticks(k, &long)?.map(|v| v.len()) == Ok(21_544), "a tick list at the documented limit is refused");
                let long = vec![all[0]; 21_545]; ensure!(h.w.liq_ticks(k, &long)?.is_err(), "a tick list beyond the documented limit is accepted");
                self.cov.hit("ticklimit".into(), String::new);
            }
            self.cov.hit(format!("liqticks|{}|{}", l.len(), all.len()), || format!("ticks {l:?}"));
        }
        h.w.end_queries();
        Ok(())
    }
}
fn op_name(p: &str) -> &str { p }

/// Whether the pool's liquidity can certainly absorb (or supply) the amount before the limit, and everything
/// involved fits the number formats. Some(true): and the output is certainly not zero.
pub fn fillable(pd: &PoolDump, k: &Key, down: bool, amount: &N, by_in: bool, limit: u128, bal_in: &N) -> Option<bool> {
    let (sp, f) = (k.tier.spacing as i32, k.tier.fee);
    if limit < MIN_PRICE || limit > MAX_PRICE { return None }
    // the outermost ticks end a swap
    let m = max_tick(k.tier.spacing);
    if down && (limit as f64) < approx_price(-m + 3 * sp) as f64 * 1.001 || !down && limit as f64 > approx_price(m - 3 * sp) as f64 * 0.999 { return None }
    let segs = path(&pd.pool, k.tier.spacing, &pd.ticks, limit, down);
    let dt = (2.0 * ((limit as f64) / (pd.pool.price as f64)).ln() / 1.0001f64.ln()).abs();
    let steps = segs.len() as u64 + (dt / (256.0 * sp as f64)) as u64 + 2;
    if steps > 2500 { return None }
    let big: N = (N::one() << 255u32) - 1; let grow: N = N::one() << 127u32;
    let (mut cap_in, mut cap_out, mut slack) = (N::zero(), N::zero(), N::zero());
    let mut cost = N::zero();
    for s in &segs {
        let (i, o) = (seg_in(s, down), seg_out(s, down));
        let (ic, of) = (i.ceil(), o.floor());
        let x = x_slack_path(&s.l, s.p, s.q);
        cap_in += i.floor() + pct_down(&i.floor(), f); cap_out += of;
        let c0: N = &ic + &x; let c: N = &c0 + pct_up(&c0, f) + 2u8; cost += &c;
        // growth of the fee counter by one step
        if s.l > N::zero() { let lim: N = amount + 1u8; let fee: N = if by_in { c.min(lim) } else { pct_up(&c0, f) + 2u8 }; if (fee * p10(33)) / &s.l >= grow { return None } }
        slack += x;
        if ic > big { return None }
    }
    if cost > big || cap_out > big { return None }
    let cut: N = (&slack + 2 * steps) * 4;
    // one unit of the price's last digit, in the token received
    let quantum: N = segs.iter().map(|s| { let m = n(s.p.min(s.q)); if down { &s.l / p10(29) } else { (&s.l * p10(19)) / (&m * &m) } }).max().unwrap_or_else(N::zero) + 1;
    if by_in {
        let need: N = amount + &cut; if amount > bal_in || need > cap_in { return None }
        // at least the output at the worst price
        let rate: N = p10(12) - f; let net: N = amount * &rate / p10(12) - 2 * steps;
        if net <= N::zero() { return Some(false) }
        let q = n(limit);
        let out = if down { net * &q * &q / p10(48) } else { net * p10(48) / (&q * &q) };
        Some(out > cut + 10u8 + 2 * quantum)
    } else {
        let need: N = amount + &cut; if need > cap_out || cost > *bal_in { return None }
        Some(*amount > cut + 10u8 + 2 * quantum)
    }
}
impl Mon {
    // ---- C32
    fn c32(&mut self, h: &mut Hist, b: &Dump, s: &Step, sig: String) -> V {
        let bal = |t: &Addr| b.bal(&s.by, t);
        let npos = b.users.get(&s.by).map_or(0, |u| u.pos.len());
        let mut note = String::new();
        let why: Option<String> = if must_fail(b, &s.by, &s.op).is_some() { None } else { match &s.op {
            Op::Swap { key, x_to_y, amount, by_in, limit } => {
                let pd = &b.pools[key];
                let have = bal(if *x_to_y { &key.x } else { &key.y });
                let mut stops: Vec<u128> = if *x_to_y { pd.ticks.values().rev().map(|t| t.price).filter(|q| *q < pd.pool.price && *q > *limit).take(12).collect() } else { pd.ticks.values().map(|t| t.price).filter(|q| *q > pd.pool.price && *q < *limit).take(12).collect() };
                stops.push(*limit);
                if *limit < MIN_PRICE || *limit > MAX_PRICE { stops.clear() }
                match stops.iter().find_map(|q| fillable(pd, key, *x_to_y, amount, *by_in, *q, &have)) {
                    Some(gain) if gain || err_of(&s.err) != Some("NoGainSwap") => {
                        note = format!("{}{}|{}|{}", if *x_to_y { "down" } else { "up" }, if *by_in { " in" } else { " out" }, crossed(pd, &h.d.pools[key], *x_to_y).len().min(8), mag(amount));
                        Some("the liquidity before the limit and the balance cover it".into())
                    }
                    _ => None
                }
            }
            Op::Create { key, lower, upper, liquidity, .. } => {
                let pd = &b.pools[key]; let sp = key.tier.spacing; let m = max_tick(sp);
                let cap = u256_max() / ((2 * MAX_TICK + 1) / sp as i32) as u32;
                let room = |t: &i32| pd.ticks.get(t).map_or_else(N::zero, |t| t.gross.clone()) + liquidity < cap;
                if *lower < -m || *upper > m || !room(lower) || !room(upper) || &pd.pool.liquidity + liquidity > u256_max() { None }
                else if let (Some(a), Some(c)) = (h.price(*lower), h.price(*upper)) {
                    let (x, y, _) = principal(&pd.pool, liquidity, (*lower, a), (*upper, c));
                    let sl = principal_slack(&pd.pool, liquidity, (*lower, a), (*upper, c));
                    note = format!("{}|{}|{}", (pd.pool.tick >= *lower) as u8 + (pd.pool.tick >= *upper) as u8, pd.ticks.contains_key(lower) as u8 + pd.ticks.contains_key(upper) as u8, mag(liquidity));
                    if x.ceil() + sl + 2 <= bal(&key.x) && y.ceil() + 2 <= bal(&key.y) { Some("range, liquidity and balances allow it".into()) } else { None }
                } else { None }
            }
            Op::CreatePool { tier, price, tick, .. } => {
                let m = max_tick(tier.spacing);
                if tick.abs() > m { None }
                else if let Some(lo) = h.price(*tick) {
                    let inside = if tick + tier.spacing as i32 > MAX_TICK { *price == lo } else { h.price(tick + tier.spacing as i32).map_or(false, |hi| lo <= *price && *price < hi) };
                    if inside { Some("the tier is listed and the price belongs to the tick".into()) } else { None }
                } else { None }
            }
            Op::Remove(i) | Op::Claim(i) | Op::Transfer { index: i, .. } if (*i as usize) < npos => Some("the caller owns the position".into()),
            Op::CollectProtocol(_) => Some("the caller is the fee receiver".into()),
            Op::SetReceiver { .. } | Op::RemoveTier(_) => Some("the caller is the administrator".into()),
            Op::SetProtocolFee(f) if *f <= 1_000_000_000_000 => Some("the caller is the administrator".into()),
            Op::AddTier(_) => Some("the caller is the administrator and the tier is valid and new".into()),
            Op::WithdrawVara(Some(v)) if *v > N::zero() => Some("the balance covers it".into()),
            Op::DepositVara(v) if *v > 0 => Some("value is attached".into()),
            Op::Deposit { .. } | Op::DepositPair { .. } | Op::Withdraw { .. } | Op::WithdrawPair { .. } if !s.moved.is_empty() && s.moved.iter().all(|m| m.4) => Some("every token transfer succeeded".into()),
            // refused without asking the token
            Op::Deposit { token, amount } if s.moved.is_empty() && *token != ZERO && bal(token) + amount <= u256_max() => Some("the token was never asked".into()),
            Op::DepositPair { a, b: c } if s.moved.is_empty() && [a, c].iter().all(|t| t.0 != ZERO && bal(&t.0) + &t.1 <= u256_max()) => Some("the tokens were never asked".into()),
            Op::Withdraw { token, .. } if s.moved.is_empty() && *token != ZERO => Some("the token was never asked".into()),
            Op::WithdrawPair { a, b: c } if s.moved.is_empty() && a.0 != ZERO && c.0 != ZERO => Some("the tokens were never asked".into()),
            _ => None,
        } };
        match why {
            Some(w) => { ensure!(s.ok.is_some(), "{:?} of user {} is refused ({}), although {w}", s.op, s.by[0], s.err); self.cov.hit(format!("{sig}|{note}"), || h.log.last().cloned().unwrap_or_default()) }
            None => *self.cov.counts.entry(format!("no expectation of {}, {}", s.op.method(), if s.ok.is_some() { "accepted" } else { "refused" })).or_insert(0) += 1,
        }
        Ok(())
    }
}
