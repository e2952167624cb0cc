//! The whole state of the exchange as its queries report it.
use crate::api::*;
use crate::codec::*;
use crate::rt::*;
use num_traits::Zero;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct PoolDump {
    pub pool: Pool, pub ticks: BTreeMap<i32, Tick>, pub map: Vec<(u16, u64)>, pub count: u32,
    /// ticks in the map without a record
    pub missing: Vec<i32>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct UserDump { pub bal: BTreeMap<Addr, N>, pub pos: Vec<Position>, pub count: u32, pub zeros: Vec<Addr> }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Dump {
    pub fee: u128, pub tiers: Vec<Tier>, pub keys: Vec<Key>, pub keys_total: u16,
    pub pools: BTreeMap<Key, PoolDump>, pub users: BTreeMap<Addr, UserDump>,
}
impl Dump {
    pub fn bal(&self, u: &Addr, t: &Addr) -> N { self.users.get(u).and_then(|u| u.bal.get(t)).cloned().unwrap_or_else(N::zero) }
    pub fn positions(&self) -> impl Iterator<Item = (&Addr, usize, &Position)> { self.users.iter().flat_map(|(u, d)| d.pos.iter().enumerate().map(move |(i, p)| (u, i, p))) }
    pub fn bounds(&self, p: &Position) -> Option<((i32, u128), (i32, u128))> {
        let t = &self.pools.get(&p.key)?.ticks;
        Some(((p.lower, t.get(&p.lower)?.price), (p.upper, t.get(&p.upper)?.price)))
    }
}
pub fn decode_map(map: &[(u16, u64)], spacing: u16) -> Vec<i32> {
    let mut v = vec![];
    let s = spacing as i32;
    for (c, b) in map { for i in 0..64 { if b >> i & 1 == 1 { v.push((*c as i32 * 64 + i - crate::exact::MAX_TICK / s) * s) } } }
    v
}
pub fn dump(w: &mut World, users: &BTreeSet<Addr>) -> Result<Dump, String> {
    let mut d = Dump { fee: w.protocol_fee()?, tiers: w.tiers()?, ..Default::default() };
    let mut off = 0u16;
    loop {
        let (k, total) = w.pool_keys(200, off)?;
        d.keys_total = total;
        let n = k.len();
        d.keys.extend(k);
        if n < 200 { break }
        off += 200;
    }
    for k in &d.keys {
        let pool = w.pool(k)?.map_err(|e| format!("listed pool has no record (error {e})"))?;
        let map = w.tickmap(k)?;
        let mut ticks = BTreeMap::new(); let mut missing = vec![];
        for i in decode_map(&map, k.tier.spacing) { match w.tick(k, i)? { Ok(t) => { ticks.insert(i, t); } Err(_) => missing.push(i) } }
        let count = w.tick_count(k)?;
        d.pools.insert(*k, PoolDump { pool, ticks, map: map.into_iter().filter(|m| m.1 != 0).collect(), count, missing });
    }
    for u in users {
        let b = w.balances(u)?;
        let zeros = b.iter().filter(|x| x.1.is_zero()).map(|x| x.0).collect();
        let pos = w.positions(u)?; let count = w.position_count(u)?;
        let n = b.len();
        let bal: BTreeMap<Addr, N> = b.into_iter().filter(|x| !x.1.is_zero()).collect();
        if n < bal.len() { return Err("a balance is listed twice".into()) }
        d.users.insert(*u, UserDump { bal, pos, count, zeros });
    }
    w.end_queries();
    Ok(d)
}
/// A short description of the first difference.
pub fn diff(a: &Dump, b: &Dump) -> Option<String> {
    if a == b { return None }
    if a.fee != b.fee { return Some(format!("protocol fee {} -> {}", a.fee, b.fee)) }
    if a.tiers != b.tiers { return Some(format!("fee tiers {:?} -> {:?}", a.tiers, b.tiers)) }
    if a.keys != b.keys { return Some(format!("pool keys {} -> {}", a.keys.len(), b.keys.len())) }
    for (k, p) in &a.pools { if let Some(q) = b.pools.get(k) { if p != q {
        if p.pool != q.pool { return Some(format!("pool {} {:?} -> {:?}", short(k), p.pool, q.pool)) }
        for (i, t) in &p.ticks { if q.ticks.get(i) != Some(t) { return Some(format!("pool {} tick {i} {t:?} -> {:?}", short(k), q.ticks.get(i))) } }
        return Some(format!("pool {} ticks {:?}/{} -> {:?}/{}", short(k), p.ticks.keys().collect::<Vec<_>>(), p.count, q.ticks.keys().collect::<Vec<_>>(), q.count))
    } } }
    for (u, x) in &a.users { let y = &b.users[u]; if x != y {
        if x.bal != y.bal { return Some(format!("balances of user {} {:?} -> {:?}", u[0], fmt_bal(&x.bal), fmt_bal(&y.bal))) }
        return Some(format!("positions of user {}: {:?} -> {:?}", u[0], x.pos, y.pos))
    } }
    Some("state differs".into())
}
pub fn short(k: &Key) -> String { format!("({},{},{}:{})", k.x[31], k.y[31], k.tier.fee, k.tier.spacing) }
pub fn fmt_bal(b: &BTreeMap<Addr, N>) -> Vec<(u8, String)> { b.iter().map(|(k, v)| (k[0], v.to_string())).collect() }
