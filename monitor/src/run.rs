//! Runs histories on all cores, reports violations with a replay file, writes the evidence.
use crate::oracle::*;
use crate::rt::*;
use crate::sim::*;
use crate::state::*;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Viol { pub hist: u64, pub msg: String, pub log: Vec<String> }
pub struct Job { pub prop: &'static str, pub tier: String, pub seed: u64, pub target: String }
pub struct Totals { pub execs: u64, pub queries: u64, pub traps: u64, pub hists: u64 }

/// An independent stream of histories; `one` runs history number `i`.
pub trait Worker { fn one(&mut self, i: u64) -> Result<(), (String, Vec<String>)>; fn take(&mut self) -> (Cover, Totals); }

pub fn deployed(t: &str) -> Result<Arc<Program>, String> { Program::load(&format!("{t}/contract-release/wasm32-unknown-unknown/release/contract_wasm.wasm")) }
pub fn checked(t: &str) -> Result<Arc<Program>, String> { Program::load(&format!("{t}/contract-checked/wasm32-unknown-unknown/checked/contract_wasm.wasm")) }
pub fn mix(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for b in prop.bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3) }
    (h ^ i.wrapping_mul(0xD129_0B26_8F2B_1F4D)).wrapping_mul(0x2545_F491_4F6C_DD1D) | 1
}

pub struct Plain { prog: Arc<Program>, prop: &'static str, seed: u64, w: World, probe: Probe, base: (ProgState, Chain), mon: Mon, hists: u64 }
impl Plain {
    pub fn new(p: &Arc<Program>, c: Option<&Program>, prop: &'static str, seed: u64) -> Result<Plain, String> {
        let mut w = World::new(p)?; if let Some(c) = c { w.shadow = Some(Machine::new(c)?) } let base = w.snapshot();
        Ok(Plain { prog: p.clone(), prop, seed, w, probe: Probe::new(p)?, base, mon: Mon::new(prop), hists: 0 })
    }
}
impl Worker for Plain {
    fn one(&mut self, i: u64) -> Result<(), (String, Vec<String>)> {
        self.hists += 1;
        // crowded states: the first two histories of a run, and some more in longer runs
        let crowd = i % 4000 < 2;
        if i % 4000 == 0 && self.prop == "C13" || crowd && self.prop == "C23" && i % 2 == 0 { return crate::crowd::pools(&self.prog, &mut crate::rng::Rng::new(mix(self.seed, self.prop, i)), &mut self.mon.cov).map_err(|e| (format!("crowd of pools: {e}"), vec![])) }
        if crowd && (self.prop == "C12" && i % 2 == 0 || self.prop == "C23" && i % 2 == 1) { return crate::crowd::positions(&self.prog, &mut crate::rng::Rng::new(mix(self.seed, self.prop, i)), &mut self.mon.cov).map_err(|e| (format!("crowd of positions: {e}"), vec![])) }
        let n = i % 4000;
        if n == 1 && self.prop == "C13" { return crate::crowd::tiers(&self.prog, &mut crate::rng::Rng::new(mix(self.seed, self.prop, i)), &mut self.mon.cov).map_err(|e| (format!("crowd of fee tiers: {e}"), vec![])) }
        if i % 8 == 3 && self.prop == "C01" { return crate::crowd::dust(&self.prog, &mut crate::rng::Rng::new(mix(self.seed, self.prop, i)), &mut self.mon.cov).map_err(|e| (format!("crowd of small positions: {e}"), vec![])) }
        if n == 0 && matches!(self.prop, "C06" | "C07") || n == 2 && self.prop == "C23" { return crate::crowd::ticks(&self.prog, &mut crate::rng::Rng::new(mix(self.seed, self.prop, i)), &mut self.mon.cov).map_err(|e| (format!("crowd of ticks: {e}"), vec![])) }
        let mut h = Hist::start(&mut self.w, &self.base, &mut self.probe, mix(self.seed, self.prop, i), self.prop).map_err(|e| (format!("setting up: {e}"), vec![]))?;
        let m = &mut self.mon;
        let r = (|| -> V {
            m.start(&mut h)?;
            for _ in 0..h.cfg.len {
                let n = h.pending.len(); h.maybe_advance();
                if h.slow_tokens() || h.pending.len() != n { h.d = dump(h.w, &h.watched)? }
                let (by, op) = h.gen(false);
                m.before(&mut h, by, &op)?;
                let before = h.d.clone();
                let s = h.apply(by, op);
                h.d = dump(h.w, &h.watched)?;
                m.after(&mut h, &before, &s)?;
            }
            m.end(&mut h)
        })();
        r.map_err(|e| (e, h.log.clone()))
    }
    fn take(&mut self) -> (Cover, Totals) {
        (std::mem::take(&mut self.mon.cov), Totals { execs: std::mem::take(&mut self.w.execs), queries: std::mem::take(&mut self.w.queries), traps: std::mem::take(&mut self.w.traps), hists: std::mem::take(&mut self.hists) })
    }
}
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String { e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into()) }

pub fn make(j: &Job, p: &Arc<Program>, c: &Option<Arc<Program>>) -> Result<Box<dyn Worker>, String> {
    Ok(match j.prop {
        "C02" => Box::new(crate::transfers::Transfers::new(p, j.seed)?),
        "C36" => Box::new(crate::token::Tokens::new(p, &j.target, j.seed)?),
        _ => { let mut w = Plain::new(p, c.as_deref(), j.prop, j.seed)?; if j.prop == "C20" { w.mon.twin = Some(crate::sdk::Twin::start(&j.target)?) } Box::new(w) }
    })
}
/// Histories and wall-clock limit in seconds.
pub fn plan(prop: &str, tier: &str) -> (u64, u64) {
    let q = match prop { "C26" => 320, "C03" | "C13" | "C29" => 500, "C14" => 560, "C02" => 1800, "C01" | "C07" | "C15" | "C23" => 720, _ => 840 };
    if tier == "thorough" { (q * 60, 780) } else { (q, 400) }
}
pub fn single(j: &Job, i: u64) -> Result<(), (String, Vec<String>)> {
    let p = deployed(&j.target).map_err(|e| (e, vec![]))?;
    let c = if j.prop == "C26" { Some(checked(&j.target).map_err(|e| (e, vec![]))?) } else { None };
    make(j, &p, &c).map_err(|e| (e, vec![]))?.one(i)
}
/// Returns every violation found (at most a few) plus what was covered.
pub fn run(j: &Job, limit: Option<u64>) -> Result<(Vec<Viol>, Cover, Totals), String> {
    let p = deployed(&j.target)?;
    let c = if j.prop == "C26" { Some(checked(&j.target)?) } else { None };
    let (mut nh, wall) = plan(j.prop, &j.tier);
    let mut wall = wall;
    if let Some(l) = limit { nh = l; wall = 3600 }
    let (next, stop) = (AtomicU64::new(0), AtomicBool::new(false));
    let out: Mutex<(Vec<Viol>, Cover, Totals, HashSet<String>)> = Mutex::new((vec![], Cover::default(), Totals { execs: 0, queries: 0, traps: 0, hists: 0 }, HashSet::new()));
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    let t0 = Instant::now();
    let nt = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    std::thread::scope(|s| {
        for slot in 0..nt {
            let (p, c, next, stop, out, errs) = (&p, &c, &next, &stop, &out, &errs);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let mut w = match make(j, p, c) { Ok(w) => w, Err(e) => { errs.lock().unwrap().push(e); return } };
                while !stop.load(Ordering::Relaxed) && t0.elapsed() < Duration::from_secs(wall) {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= nh { break }
                    crate::watch::begin(slot, i);
                    let r = catch_unwind(AssertUnwindSafe(|| w.one(i)));
                    crate::watch::end(slot);
                    let (broken, r) = match r { Ok(r) => (false, r), Err(e) => (true, Err((format!("the monitor failed: {}", panic_text(e)), vec![]))) };
                    if let Err((msg, log)) = r {
                        let mut o = out.lock().unwrap();
                        if o.0.len() < 40 { o.0.push(Viol { hist: i, msg, log }) }
                        if o.0.len() >= 8 { stop.store(true, Ordering::Relaxed) }
                    }
                    if broken { w = match make(j, p, c) { Ok(w) => w, Err(e) => { errs.lock().unwrap().push(e); return } } }
                }
                let (cv, t) = w.take();
                let mut o = out.lock().unwrap();
                o.1.merge(cv); o.2.execs += t.execs; o.2.queries += t.queries; o.2.traps += t.traps; o.2.hists += t.hists;
            }).unwrap();
        }
    });
    if let Some(e) = errs.into_inner().unwrap().pop() { return Err(e) }
    let (mut v, c, t, _) = out.into_inner().unwrap();
    v.sort_by_key(|v| v.hist);
    Ok((v, c, t))
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
