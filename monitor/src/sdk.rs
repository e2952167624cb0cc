//! C20: the SDK's local computation against the contract, on the states a history reaches.
use crate::api::*;
use crate::codec::*;
use crate::exact::*;
use crate::oracle::*;
use crate::rt::*;
use crate::sim::*;
use crate::state::*;
use num_traits::Zero;
use std::collections::BTreeMap;

#[path = "../../sdkcheck/client.rs"]
mod client;
pub use client::Sdk;
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)) } } }

fn bit(b: bool) -> u8 { b as u8 }
fn hex(a: &Addr) -> String { a.iter().fold(String::from("0x"), |s, b| s + &format!("{b:02x}")) }
pub fn map_of(m: &[(u16, u64)]) -> String { if m.is_empty() { "-".into() } else { m.iter().map(|(c, b)| format!("{c}:{b}")).collect::<Vec<_>>().join(",") } }
fn ticks_of<'a>(t: impl Iterator<Item = &'a Tick>) -> String { let v: Vec<String> = t.map(|t| format!("{}:{}:{}", t.index, t.change, bit(t.sign))).collect(); if v.is_empty() { "-".into() } else { v.join(",") } }
fn sim_line(k: &Key, pd: &PoolDump, ticks: &str, down: bool, amount: &N, by_in: bool, limit: u128) -> String {
    format!("simulate {} {} {} {amount} {} {limit} {} {} {} {} {ticks}", k.tier.fee, k.tier.spacing, bit(down), bit(by_in), pd.pool.liquidity, pd.pool.price, pd.pool.tick, map_of(&pd.map))
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sim { pub a_in: N, pub a_out: N, pub fee: N, pub start: u128, pub target: u128, pub short: bool, pub steps: bool, pub old: bool, pub ticks: Vec<i32> }
fn parse(l: &str) -> Option<Sim> {
    let f: Vec<&str> = l.strip_prefix("ok ")?.split(' ').collect();
    let big = |s: &str| s.parse::<N>().unwrap();
    Some(Sim { a_in: big(f[0]), a_out: big(f[1]), fee: big(f[2]), start: f[3].parse().unwrap(), target: f[4].parse().unwrap(), short: f[5] == "1", steps: f[6] == "1", old: f[7] == "1",
        ticks: f[8].trim_matches(|c| c == '[' || c == ']').split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect() })
}
fn nums(l: &str) -> Option<Vec<N>> { l.strip_prefix("ok ").map(|r| r.split(' ').map(|s| s.parse().unwrap()).collect()) }
fn tick_at(p: u128) -> i64 { ((p as f64 / 1e24).ln() * 2.0 / 1.0001f64.ln()) as i64 }

pub struct Twin { pub sdk: Sdk, expect: Option<Sim>, valid: Option<bool>, cost: Option<(N, N)> }
impl Twin {
    pub fn start(target: &str) -> Result<Twin, String> { Ok(Twin { sdk: Sdk::start(target)?, expect: None, valid: None, cost: None }) }
    /// One swap request: the contract's quote and the SDK's simulation.
    fn request(&mut self, h: &mut Hist, cov: &mut Cover, k: &Key, down: bool, amount: &N, by_in: bool, limit: u128) -> Result<Option<Sim>, String> {
        let Some(pd) = h.d.pools.get(k).cloned() else { return Ok(None) };
        // the SDK gets the ticks in any order
        let mut list: Vec<&Tick> = pd.ticks.values().collect();
        for i in (1..list.len()).rev() { list.swap(i, h.rng.below(i as u64 + 1) as usize) }
        let all = ticks_of(list.iter().copied());
        let ans = self.sdk.one(sim_line(k, &pd, &all, down, amount, by_in, limit))?;
        let q = h.w.quote(k, down, amount, by_in, limit);
        h.w.end_queries();
        let what = || format!("{} at price {} tick {} liquidity {}: {} of {amount} {}, limit {limit}", short(k), pd.pool.price, pd.pool.tick, pd.pool.liquidity, if down { "x" } else { "y" }, if by_in { "in" } else { "out" });
        let sim = parse(&ans);
        if let Some(s) = &sim {
            ensure!(!s.old, "{}: the SDK calls the state outdated although all ticks were given", what());
            if s.steps {
                let n = s.ticks.len() as i64 + (tick_at(s.target) - pd.pool.tick as i64).abs() / (256 * k.tier.spacing as i64) + 4;
                ensure!(n > 142, "{}: the SDK gives up for too many steps after about {n}", what());
                cov.hit("too many steps|".into(), String::new);
                return Ok(None);
            }
        }
        let class = match (&q, &sim) {
            (Ok(Ok(q)), Some(s)) => {
                ensure!(!s.short, "{}: the contract quotes {} for {}, the SDK reports insufficient liquidity", what(), q.amount_out, q.amount_in);
                ensure!(q.amount_in == s.a_in && q.amount_out == s.a_out && q.target == s.target && s.start == pd.pool.price, "{}: the contract quotes in {} out {} to price {}, the SDK {s:?}", what(), q.amount_in, q.amount_out, q.target);
                let t: Vec<i32> = q.ticks.iter().map(|t| t.index).collect();
                ensure!(t == s.ticks, "{}: the contract crosses {t:?}, the SDK {:?}", what(), s.ticks);
                format!("agree|{}|{}|{}", t.len(), q.amount_in.bits() / 8, q.amount_out.bits() / 8)
            }
            (Ok(Ok(q)), None) => return Err(format!("{}: the contract quotes {} for {}, the SDK answers {ans}", what(), q.amount_out, q.amount_in)),
            (Ok(Err(c)), s) => {
                let e = ERRORS[*c as usize];
                match (e, s) {
                    ("PriceLimitReached" | "TickLimitReached", Some(s)) => ensure!(s.short, "{}: the contract fails with {e}, the SDK reports {s:?}", what()),
                    ("NoGainSwap", Some(s)) => ensure!(s.a_out.is_zero() && !s.short, "{}: the contract finds no gain, the SDK reports {s:?}", what()),
                    (_, None) => ensure!(!matches!(e, "PriceLimitReached" | "TickLimitReached" | "NoGainSwap"), "{}: the contract fails with {e}, the SDK answers {ans}", what()),
                    (_, Some(s)) => return Err(format!("{}: the contract fails with {e}, the SDK reports {s:?}", what())),
                }
                format!("both refuse|{e}")
            }
            // the SDK does not keep fee growth, and knows nothing of the protocol's share
            (Err(t), s) => {
                let e = t.chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>();
                if s.is_some() { cov.hit(format!("only the contract fails|{e}"), || format!("{}: {t}", what())); return Ok(None) }
                format!("both fail|{e}")
            }
        };
        cov.hit(class, || format!("{}: {ans}", what()));
        // an incomplete list of ticks is noticed
        if h.rng.chance(1, 4) && !pd.ticks.is_empty() {
            let out = *h.rng.pick(&pd.ticks.keys().copied().collect::<Vec<_>>());
            let some = ticks_of(list.iter().copied().filter(|t| t.index != out));
            let a2 = self.sdk.one(sim_line(k, &pd, &some, down, amount, by_in, limit))?;
            match (&sim, parse(&a2)) {
                (_, Some(p)) if p.old => cov.hit("a missing tick is noticed|".into(), String::new),
                _ => { ensure!(a2 == ans, "{}: without tick {out} the SDK answers {a2} instead of {ans}", what()); cov.hit("a missing tick does not matter|".into(), String::new) }
            }
        }
        Ok(sim)
    }
    pub fn before(&mut self, h: &mut Hist, cov: &mut Cover, by: &Addr, op: &Op) -> V {
        self.expect = None; self.valid = None; self.cost = None;
        match op {
            Op::Swap { key, x_to_y, amount, by_in, limit } => self.expect = self.request(h, cov, key, *x_to_y, amount, *by_in, *limit)?,
            Op::CreatePool { a, b, tier, price, tick } => {
                let a = self.sdk.ask(&[format!("valid_tick {tick} {} {price}", tier.spacing), format!("price {tick}"), format!("key {} {} {} {}", hex(a), hex(b), tier.fee, tier.spacing)])?;
                self.valid = Some(a[0] == "ok 1" && a[1] != "fail" && a[2] != "fail");
            }
            Op::Create { key, lower, upper, liquidity, .. } => if let Some(pd) = h.d.pools.get(key) {
                let v = nums(&self.sdk.one(format!("amounts {} {} {liquidity} 1 {upper} {lower}", pd.pool.tick, pd.pool.price))?);
                self.cost = v.map(|v| (v[0].clone(), v[1].clone()));
                if let Some((x, y)) = &self.cost { cov.hit(format!("cost|{}|{}", x.bits() / 8, y.bits() / 8), String::new) }
            },
            Op::Claim(i) | Op::Remove(i) => self.cost = self.worth(h, by, *i, matches!(op, Op::Remove(_)))?,
            _ => {}
        }
        // more requests on the same state
        for _ in 0..3 {
            let Some(k) = h.any_key() else { break };
            let u = h.any_user();
            if let Op::Swap { key, x_to_y, amount, by_in, limit } = h.gen_swap(k, &u) { self.request(h, cov, &key, x_to_y, &amount, by_in, limit)?; }
        }
        // what a position would pay, on a branch
        if h.rng.chance(1, 6) {
            let all: Vec<(Addr, u32)> = h.d.positions().map(|(u, i, _)| (*u, i as u32)).collect();
            if !all.is_empty() {
                let (u, i) = *h.rng.pick(&all);
                let whole = h.rng.chance(1, 2);
                if let Some(w) = self.worth(h, &u, i, whole)? {
                    let s = h.branch(|h| h.apply(u, if whole { Op::Remove(i) } else { Op::Claim(i) }));
                    self.paid(cov, &s, w)?;
                }
            }
        }
        Ok(())
    }
    /// Fees (and amounts) of a position as the SDK computes them.
    fn worth(&mut self, h: &mut Hist, u: &Addr, i: u32, whole: bool) -> Result<Option<(N, N)>, String> {
        let Some(p) = h.d.users.get(u).and_then(|d| d.pos.get(i as usize)).cloned() else { return Ok(None) };
        let pd = &h.d.pools[&p.key];
        let (Some(lo), Some(hi)) = (pd.ticks.get(&p.lower), pd.ticks.get(&p.upper)) else { return Ok(None) };
        let q = &pd.pool;
        let a = self.sdk.ask(&[format!("fee {} {} {} {} {} {} {} {} {} {} {} {}", lo.index, lo.gox, lo.goy, hi.index, hi.gox, hi.goy, q.tick, q.gx, q.gy, p.gix, p.giy, p.liquidity), format!("amounts {} {} {} 0 {} {}", q.tick, q.price, p.liquidity, p.upper, p.lower)])?;
        let (Some(f), Some(m)) = (nums(&a[0]), nums(&a[1])) else { return Err(format!("the SDK cannot value position {p:?} in {q:?}: {a:?}")) };
        let zero = N::zero();
        let (mx, my) = if whole { (&m[0], &m[1]) } else { (&zero, &zero) };
        Ok(Some((&f[0] + &p.owed_x + mx, &f[1] + &p.owed_y + my)))
    }
    fn paid(&mut self, cov: &mut Cover, s: &Step, w: (N, N)) -> V {
        if let Some(Ret::Pair(x, y)) = &s.ok {
            ensure!(*x == w.0 && *y == w.1, "{:?} paid {x} and {y}, the SDK computed {} and {}", s.op, w.0, w.1);
            cov.hit(format!("worth|{}|{}|{}", s.op.method(), x.bits() / 8, y.bits() / 8), || format!("{:?} pays {x} and {y} as computed", s.op));
        }
        Ok(())
    }
    pub fn after(&mut self, h: &mut Hist, cov: &mut Cover, b: &Dump, s: &Step) -> V {
        match &s.op {
            Op::Swap { .. } => if let (Some(e), Some(Ret::Swap(r))) = (self.expect.take(), &s.ok) {
                ensure!(e.a_in == r.amount_in && e.a_out == r.amount_out && e.fee == r.fee && e.start == r.start && e.target == r.target, "the swap gave in {} out {} fee {} prices {} -> {}, the SDK {e:?}", r.amount_in, r.amount_out, r.fee, r.start, r.target);
                ensure!(e.ticks == r.ticks.iter().map(|t| t.index).collect::<Vec<_>>(), "the swap crossed {:?}, the SDK {:?}", r.ticks, e.ticks);
                cov.hit(format!("swap|{}|{}", e.ticks.len(), e.fee.bits() / 8), || format!("executed as simulated: {e:?}"));
            },
            Op::CreatePool { a, b: c, tier, tick, .. } => {
                let Some(v) = self.valid.take() else { return Ok(()) };
                ensure!(v || s.ok.is_none(), "the SDK calls tick and price of {:?} invalid, the contract accepts them", s.op);
                if !v { ensure!(s.ok.is_none(), "an invalid pool was accepted") }
                if must_fail(b, &s.by, &s.op).is_none() { ensure!(v == s.ok.is_some(), "valid by the SDK: {v}, but the contract says {:?} {}", s.ok, s.err) }
                if s.ok.is_some() {
                    let key = self.sdk.one(format!("key {} {} {} {}", hex(a), hex(c), tier.fee, tier.spacing))?;
                    let k = h.d.pools.keys().find(|k| !b.pools.contains_key(k)).copied().ok_or("the created pool is not listed")?;
                    ensure!(key == format!("ok {} {} {} {}", hex(&k.x), hex(&k.y), tier.fee, tier.spacing), "the SDK calls the new pool {key}, the contract {}", short(&k));
                    let p = self.sdk.one(format!("price {tick}"))?;
                    ensure!(p == format!("ok {}", h.d.pools[&k].pool.price), "the SDK prices tick {tick} at {p}, the contract at {}", h.d.pools[&k].pool.price);
                }
                cov.hit(format!("pool|{v}|{}|{}", tier.spacing, s.ok.is_some()), || h.log.last().cloned().unwrap_or_default());
            }
            Op::Create { key, lower, upper, .. } => if s.ok.is_some() {
                let (x, y) = self.cost.take().ok_or("the SDK cannot price a position the contract accepts")?;
                for (t, v) in [(key.x, &x), (key.y, &y)] { let paid = b.bal(&s.by, &t) - h.d.bal(&s.by, &t); ensure!(paid == *v, "creating {:?} cost {paid}, the SDK computed {v}", s.op); }
                let m: BTreeMap<u16, u64> = h.d.pools[key].map.iter().copied().collect();
                for t in [lower, upper] {
                    let v = nums(&self.sdk.one(format!("js_position {t} {}", key.tier.spacing))?).ok_or("the SDK cannot place a tick the contract accepts")?;
                    let (c, i): (u16, u64) = (v[0].to_string().parse().unwrap(), v[1].to_string().parse().unwrap());
                    ensure!(m.get(&c).map_or(false, |b| b >> i & 1 == 1), "the SDK places tick {t} at chunk {c} bit {i}, where the contract's map has nothing");
                }
                cov.hit(format!("position|{}|{}", x.bits() / 8, y.bits() / 8), || format!("{:?} cost {x} and {y} as computed", s.op));
            },
            Op::Claim(_) | Op::Remove(_) => if let Some(w) = self.cost.take() { self.paid(cov, s, w)? },
            _ => {}
        }
        Ok(())
    }
}
