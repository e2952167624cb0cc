#![allow(dead_code)]
mod codec; mod rt; mod api; mod exact; mod rng; mod state; mod sim; mod oracle; mod run; mod transfers; mod sdk; mod serve; mod crowd; mod token;
#[path = "../../common/watch.rs"] mod watch;
use run::*;
use std::time::Instant;

const RULE: &str = "a case is one monitored step of a history executed by the contract's wasm; a case counts as distinct and non-trivial when its signature (what was called, how it ended, and the quantities the monitor compared: ticks crossed, magnitudes, positions and pools in play) had not been seen before";
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let target = arg("--target").unwrap_or_else(|| "/verif/target".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop: &'static str = Box::leak(arg("--prop").expect("--prop").into_boxed_str());
            let tier = arg("--tier").unwrap_or_else(|| "quick".into());
            let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let out = arg("--out").unwrap_or_else(|| "/verif/evidence".into());
            std::fs::create_dir_all(&out).unwrap();
            if arg("--verbose").is_none() { std::panic::set_hook(Box::new(|_| {})); }
            let t0 = Instant::now();
            let j = Job { prop, tier: tier.clone(), seed, target };
            watch::start(prop, &tier, seed, &out);
            let (v, c, t) = match run(&j, arg("--n").and_then(|s| s.parse().ok())) { Ok(r) => r, Err(e) => { eprintln!("cannot run: {e}"); std::process::exit(2) } };
            let known = arg("--known").and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
            let known: Vec<(String, String)> = known.lines().filter_map(|l| { let l = l.strip_prefix("known: property=")?; let (p, r) = l.split_once(' ')?; let (pat, what) = r.split_once(" :: ")?; if p == prop { Some((pat.to_string(), what.to_string())) } else { None } }).collect();
            let mut fresh = 0;
            for (_, what) in &known { println!("KNOWN-FINDING: property={prop} {what}"); }
            for x in &v {
                if known.iter().any(|(p, _)| x.msg.starts_with(p.as_str())) { continue }
                fresh += 1;
                if fresh > 3 { continue }
                let path = format!("{out}/{prop}-violation-{fresh}.txt");
                let mut s = format!("prop={prop}\ntier={tier}\nseed={seed}\nhistory={}\nviolation: {}\n\nreplay with: /verif/check.sh replay {path}\n\n", x.hist, x.msg);
                for l in &x.log { s.push_str(l); s.push('\n') }
                std::fs::write(&path, s).unwrap();
                println!("VIOLATION property={prop} replay={path}");
                println!("  history {}: {}", x.hist, x.msg.chars().take(600).collect::<String>());
            }
            let counts = c.counts.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",");
            let samples = c.samples.iter().map(|s| js(&s.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(",");
            let ev = format!("{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{samples}],\"histories\":{},\"contract_executions\":{},\"queries\":{},\"trapped_executions\":{},\"events_by_kind\":{{{counts}}}}},\"wall_s\":{:.2},\"violations\":{fresh}}}\n",
                js(prop), js(&tier), c.eval, c.sigs.len(), js(RULE), t.hists, t.execs, t.queries, t.traps, t0.elapsed().as_secs_f64());
            std::fs::write(format!("{out}/{prop}.json"), ev).unwrap();
            println!("{prop}: {} histories, {} executions, {} queries, {} cases, {} distinct, {} violations, {:.1}s", t.hists, t.execs, t.queries, c.eval, c.sigs.len(), fresh, t0.elapsed().as_secs_f64());
            if fresh == 0 && c.eval == 0 { eprintln!("nothing was observed"); std::process::exit(2) }
            std::process::exit((fresh > 0) as i32)
        }
        Some("serve") => serve::serve(&target),
        Some("replay") => {
            let txt = std::fs::read_to_string(&a[2]).unwrap();
            let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(k)).unwrap().to_string();
            let prop: &'static str = Box::leak(get("prop=").into_boxed_str());
            let j = Job { prop, tier: get("tier="), seed: get("seed=").parse().unwrap(), target };
            let i: u64 = get("history=").parse().unwrap();
            let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || single(&j, i)).unwrap().join();
            match r { Ok(Ok(())) => println!("history {i} of {prop}: no violation"), Ok(Err((m, log))) => { for l in log { println!("{l}") } println!("VIOLATION: {m}"); std::process::exit(1) } Err(e) => { println!("the monitor failed: {}", panic_text(e)); std::process::exit(1) } }
        }
        _ => { eprintln!("usage: monitor run --prop P [--tier T] [--seed N] | replay FILE"); std::process::exit(2) }
    }
}
