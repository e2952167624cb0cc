//! A unit of work that does not come back is reported instead of waited for.
use std::sync::Mutex;
use std::time::{Duration, Instant};
pub const LIMIT: u64 = 240;
const FREE: Mutex<Option<(u64, Instant)>> = Mutex::new(None);
static SLOTS: [Mutex<Option<(u64, Instant)>>; 64] = [FREE; 64];
pub fn begin(slot: usize, i: u64) { *SLOTS[slot].lock().unwrap() = Some((i, Instant::now())) }
pub fn end(slot: usize) { *SLOTS[slot].lock().unwrap() = None }
pub fn start(prop: &str, tier: &str, seed: u64, out: &str) {
    let (prop, tier, out) = (prop.to_string(), tier.to_string(), out.to_string());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        let stuck = SLOTS.iter().find_map(|s| s.lock().unwrap().filter(|(_, t)| t.elapsed() > Duration::from_secs(LIMIT)));
        let Some((i, _)) = stuck else { continue };
        let path = format!("{out}/{prop}-violation-1.txt");
        let msg = format!("number {i} has been running for {LIMIT} s: the code under test does not return");
        let _ = std::fs::write(&path, format!("prop={prop}\ntier={tier}\nseed={seed}\nhistory={i}\nviolation: {msg}\n\nreplay with: /verif/check.sh replay {path}\n"));
        let _ = std::fs::write(format!("{out}/{prop}.json"), format!("{{\"property\":\"{prop}\",\"tier\":\"{tier}\",\"seed\":{seed},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"a unit of work that did not return\",\"samples\":[\"{msg}\"]}},\"wall_s\":{LIMIT},\"violations\":1}}\n"));
        println!("VIOLATION property={prop} replay={path}\n  {msg}");
        std::process::exit(1)
    });
}
