//! Monitors the arithmetic crates natively: every call's result is judged against exact integers and rationals.
mod cover; mod num; mod rng; mod fixed; mod price; mod ticks; mod estimate; mod step; mod accum; mod sdk;
#[path = "../../common/watch.rs"] mod watch;
use cover::*;
use std::time::Instant;

fn plan(prop: &str, tier: &str) -> (u64, u64) {
    let q = match prop { "C17" => price::BATCHES, "C18" => 3500, "C19" => 15000, "C21" => estimate::BATCHES, "C30" => step::BATCHES, "C31" => accum::BATCHES, "C33" => sdk::BATCHES, _ => 1600 };
    if tier == "thorough" { (if prop == "C17" { price::BATCHES + 4000 } else { q * 60 }, 780) } else { (q, 300) }
}
fn batch(j: &Job, i: u64, c: &mut Cover) -> Result<(), String> {
    match j.prop { "C17" => price::batch(j, i, c), "C18" => fixed::batch(j, i, c), "C19" => ticks::batch(j, i, c), "C21" => estimate::batch(j, i, c), "C30" => step::batch(j, i, c), "C31" => accum::batch(j, i, c), "C33" => sdk::batch(j, i, c), p => Err(format!("no such property {p}")) }
}
const RULE: &str = "a case is one call of the code under test judged against exact arithmetic or a set model; cases are distinct and non-trivial when operation, types, outcome and the operands' magnitude classes (or tick, spacing, map shape) had not been seen together before";
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    sdk::TARGET.set(arg("--target").unwrap_or_else(|| "/verif/target".into())).unwrap();
    if arg("--verbose").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop: &'static str = Box::leak(arg("--prop").expect("--prop").into_boxed_str());
            let tier = arg("--tier").unwrap_or_else(|| "quick".into());
            let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let out = arg("--out").unwrap_or_else(|| "/verif/evidence".into());
            std::fs::create_dir_all(&out).unwrap();
            let t0 = Instant::now();
            let j = Job { prop, tier: tier.clone(), seed };
            let (mut n, wall) = plan(prop, &tier);
            if let Some(x) = arg("--n").and_then(|s| s.parse().ok()) { n = x }
            watch::start(prop, &tier, seed, &out);
            let (v, c, done) = run(&j, n, wall, batch);
            let known = arg("--known").and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
            let known: Vec<(String, String)> = known.lines().filter_map(|l| { let l = l.strip_prefix("known: property=")?; let (p, r) = l.split_once(' ')?; let (pat, what) = r.split_once(" :: ")?; if p == prop { Some((pat.to_string(), what.to_string())) } else { None } }).collect();
            for (_, what) in &known { println!("KNOWN-FINDING: property={prop} {what}"); }
            let mut fresh = 0;
            for x in &v {
                if known.iter().any(|(p, _)| x.msg.starts_with(p.as_str())) { continue }
                fresh += 1;
                if fresh > 3 { continue }
                let path = format!("{out}/{prop}-violation-{fresh}.txt");
                std::fs::write(&path, format!("prop={prop}\ntier={tier}\nseed={seed}\nhistory={}\nviolation: {}\n\nreplay with: /verif/check.sh replay {path}\n", x.batch, x.msg)).unwrap();
                println!("VIOLATION property={prop} replay={path}");
                println!("  batch {}: {}", x.batch, x.msg.chars().take(600).collect::<String>());
            }
            let counts = c.counts.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",");
            let samples = c.samples.iter().map(|s| js(&s.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(",");
            std::fs::write(format!("{out}/{prop}.json"), format!("{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{samples}],\"batches\":{done},\"calls_by_kind\":{{{counts}}}}},\"wall_s\":{:.2},\"violations\":{fresh}}}\n",
                js(prop), js(&tier), c.eval, c.sigs.len(), js(RULE), t0.elapsed().as_secs_f64())).unwrap();
            println!("{prop}: {done} batches, {} cases, {} distinct, {fresh} violations, {:.1}s", c.eval, c.sigs.len(), t0.elapsed().as_secs_f64());
            if fresh == 0 && c.eval == 0 { eprintln!("nothing was observed"); std::process::exit(2) }
            std::process::exit((fresh > 0) as i32)
        }
        Some("replay") => {
            let txt = std::fs::read_to_string(&a[2]).unwrap();
            let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(k)).unwrap().to_string();
            let j = Job { prop: Box::leak(get("prop=").into_boxed_str()), tier: get("tier="), seed: get("seed=").parse().unwrap() };
            let i: u64 = get("history=").parse().unwrap();
            match std::panic::catch_unwind(|| batch(&j, i, &mut Cover::default())) { Ok(Ok(())) => println!("batch {i}: no violation"), Ok(Err(m)) => { println!("VIOLATION: {m}"); std::process::exit(1) } Err(e) => { println!("the monitor failed: {}", panic_text(e)); std::process::exit(1) } }
        }
        _ => { eprintln!("usage: mathcheck run --prop P [--tier T] [--seed N] | replay FILE"); std::process::exit(2) }
    }
}
