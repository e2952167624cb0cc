//! What a run observed, and the batch runner.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Cover { pub eval: u64, pub sigs: HashSet<u64>, pub counts: BTreeMap<String, u64>, pub samples: Vec<String> }
impl Cover {
    pub fn case<H: Hash>(&mut self, sig: H) {
        self.eval += 1;
        if self.sigs.len() < 4_000_000 { let mut h = std::collections::hash_map::DefaultHasher::new(); sig.hash(&mut h); self.sigs.insert(h.finish()); }
    }
    pub fn count(&mut self, k: &str) { if let Some(v) = self.counts.get_mut(k) { *v += 1 } else { self.counts.insert(k.into(), 1); } }
    pub fn add(&mut self, k: &str, n: u64) { *self.counts.entry(k.into()).or_default() += n }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 6 { let s = f(); self.samples.push(s) } }
    pub fn merge(&mut self, o: Cover) {
        self.eval += o.eval; self.sigs.extend(o.sigs);
        for (k, v) in o.counts { *self.counts.entry(k).or_default() += v }
        for s in o.samples { if self.samples.len() < 12 { self.samples.push(s) } }
    }
}
pub struct Job { pub prop: &'static str, pub tier: String, pub seed: u64 }
pub struct Viol { pub batch: u64, pub msg: String }
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String { e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into()) }
/// Runs the code under test; a panic is a failure of the call.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }
pub fn attempt_res<T, E>(f: impl FnOnce() -> Result<T, E>) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok().and_then(|r| r.ok()) }

pub fn run(j: &Job, batches: u64, wall: u64, f: impl Fn(&Job, u64, &mut Cover) -> Result<(), String> + Sync) -> (Vec<Viol>, Cover, u64) {
    let (next, stop) = (AtomicU64::new(0), AtomicBool::new(false));
    let out: Mutex<(Vec<Viol>, Cover, u64)> = Mutex::new((vec![], Cover::default(), 0));
    let t0 = Instant::now();
    let nt = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    std::thread::scope(|s| for slot in 0..nt {
        let (next, stop, out, f) = (&next, &stop, &out, &f);
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
            let mut c = Cover::default(); let mut done = 0;
            while !stop.load(Ordering::Relaxed) && t0.elapsed() < Duration::from_secs(wall) {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= batches { break }
                done += 1;
                crate::watch::begin(slot, i);
                let r = catch_unwind(AssertUnwindSafe(|| f(j, i, &mut c))).unwrap_or_else(|e| Err(format!("the monitor failed: {}", panic_text(e))));
                crate::watch::end(slot);
                if let Err(msg) = r {
                    let mut o = out.lock().unwrap();
                    if o.0.len() < 40 { o.0.push(Viol { batch: i, msg }) }
                    if o.0.len() >= 8 { stop.store(true, Ordering::Relaxed) }
                }
            }
            let mut o = out.lock().unwrap(); o.1.merge(c); o.2 += done;
        }).unwrap();
    });
    let (mut v, c, d) = out.into_inner().unwrap();
    v.sort_by_key(|v| v.batch);
    (v, c, d)
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
pub fn mix(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for b in prop.bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3) }
    (h ^ i.wrapping_mul(0xD129_0B26_8F2B_1F4D)).wrapping_mul(0x2545_F491_4F6C_DD1D) | 1
}
