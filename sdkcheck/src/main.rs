//! The SDK's native functions behind a line protocol: one call per line, one answer ("ok ..." or "fail") per line,
//! a line with a dot ends a batch and flushes the answers.
use decimal::*;
use invariant_vara_wasm as sdk;
use sdk::clamm::*;
use sdk::collections::tickmap::*;
use sdk::storage::{fee_tier::FeeTier, pool::Pool, pool_key::PoolKey, tick::LiquidityTick};
use sdk::types::{fee_growth::*, liquidity::Liquidity, percentage::Percentage, seconds_per_liquidity::*, sqrt_price::*, token_amount::TokenAmount};
use std::io::{BufRead, Write};

struct A<'a>(std::str::SplitWhitespace<'a>);
impl<'a> A<'a> {
    fn s(&mut self) -> &'a str { self.0.next().expect("an argument is missing") }
    fn p<T: std::str::FromStr>(&mut self) -> T where T::Err: std::fmt::Debug { self.s().parse().unwrap() }
    fn big(&mut self) -> U256 { U256::from_dec_str(self.s()).unwrap() }
    fn b(&mut self) -> bool { self.s() == "1" }
    fn price(&mut self) -> SqrtPrice { SqrtPrice(self.p()) }
    fn liq(&mut self) -> Liquidity { Liquidity(self.big()) }
    fn tok(&mut self) -> TokenAmount { TokenAmount(self.big()) }
    fn pct(&mut self) -> Percentage { Percentage(self.p()) }
    fn fg(&mut self) -> FeeGrowth { FeeGrowth(self.p()) }
    fn spl(&mut self) -> SecondsPerLiquidity { SecondsPerLiquidity(self.p()) }
    fn map(&mut self) -> Tickmap {
        let mut m = Tickmap::default();
        for e in self.s().split(',').filter(|e| *e != "-") { let (c, b) = e.split_once(':').unwrap(); m.bitmap.insert(c.parse().unwrap(), b.parse().unwrap()); }
        m
    }
}
fn b(v: bool) -> u8 { v as u8 }
fn call(line: &str) -> Result<String, String> {
    let mut a = A(line.split_whitespace());
    macro_rules! e { ($x:expr) => { $x.map_err(|e| format!("{e:?}"))? } }
    Ok(match a.s() {
        "simulate" => {
            let tier = FeeTier { fee: a.pct(), tick_spacing: a.p() };
            let (down, amount, by_in, limit) = (a.b(), a.tok(), a.b(), a.price());
            let pool = Pool { liquidity: a.liq(), sqrt_price: a.price(), current_tick_index: a.p(), ..Default::default() };
            let map = a.map();
            let ticks = a.s().split(',').filter(|e| *e != "-").map(|e| { let mut p = e.split(':'); LiquidityTick { index: p.next().unwrap().parse().unwrap(), liquidity_change: Liquidity(U256::from_dec_str(p.next().unwrap()).unwrap()), sign: p.next() == Some("1") } }).collect();
            let r = e!(sdk::swap::simulate_invariant_swap(map, tier, pool, ticks, down, amount, by_in, limit));
            let crossed: Vec<String> = r.crossed_ticks.iter().map(|t| t.index.to_string()).collect();
            format!("{} {} {} {} {} {} {} {} [{}]", r.amount_in.0, r.amount_out.0, r.fee.0, r.start_sqrt_price.0, r.target_sqrt_price.0, b(r.global_insufficient_liquidity), b(r.max_swap_steps_reached), b(r.state_outdated), crossed.join(","))
        }
        "step" => { let r = e!(compute_swap_step(a.price(), a.price(), a.liq(), a.tok(), a.b(), a.pct())); format!("{} {} {} {}", r.next_sqrt_price.0, r.amount_in.0, r.amount_out.0, r.fee_amount.0) }
        "delta_x" => e!(get_delta_x(a.price(), a.price(), a.liq(), a.b())).0.to_string(),
        "delta_y" => e!(get_delta_y(a.price(), a.price(), a.liq(), a.b())).0.to_string(),
        "next_x" => e!(get_next_sqrt_price_x_up(a.price(), a.liq(), a.tok(), a.b())).0.to_string(),
        "enough" => b(e!(is_enough_amount_to_change_price(a.tok(), a.price(), a.liq(), a.pct(), a.b(), a.b()))).to_string(),
        "amounts" => { let r = e!(calculate_amount_delta(a.p(), a.price(), a.liq(), a.b(), a.p(), a.p())); format!("{} {} {}", r.0 .0, r.1 .0, b(r.2)) }
        "max_liquidity" => calculate_max_liquidity_per_tick(a.p()).0.to_string(),
        "min_out" => calculate_min_amount_out(a.tok(), a.pct()).0.to_string(),
        "price" => e!(calculate_sqrt_price(a.p())).0.to_string(),
        "tick" => e!(sdk::log::get_tick_at_sqrt_price(a.price(), a.p())).to_string(),
        "max_tick" => e!(get_max_tick(a.p())).to_string(),
        "min_tick" => e!(get_min_tick(a.p())).to_string(),
        "check_tick" => { e!(check_tick(a.p(), a.p())); String::new() }
        "check_ticks" => { e!(check_ticks(a.p(), a.p(), a.p())); String::new() }
        "valid_tick" => b(e!(sdk::custom::check_tick_to_sqrt_price_relationship(a.p(), a.p(), a.price()))).to_string(),
        "position" => { let r = tick_to_position(a.p(), a.p()); format!("{} {}", r.0, r.1) }
        "js_position" => { let r = e!(tick_to_position_js(a.p(), a.p())); format!("{} {}", r.0, r.1) }
        "back" => e!(position_to_tick(a.p(), a.p(), a.p())).to_string(),
        "max_chunk" => e!(sdk::consts::get_max_chunk(a.p())).to_string(),
        "search_limit" => get_search_limit(a.p(), a.p(), a.b()).to_string(),
        "next_init" => format!("{:?}", a.map().next_initialized(a.p(), a.p())),
        "prev_init" => format!("{:?}", a.map().prev_initialized(a.p(), a.p())),
        "closer" => { let r = e!(a.map().get_closer_limit(a.price(), a.b(), a.p(), a.p())); format!("{} {:?}", r.0 .0, r.1) }
        "growth_inside" => { let r = calculate_fee_growth_inside(a.p(), a.fg(), a.fg(), a.p(), a.fg(), a.fg(), a.p(), a.fg(), a.fg()); format!("{} {}", r.0 .0, r.1 .0) }
        "from_fee" => e!(FeeGrowth::from_fee(a.liq(), a.tok())).0.to_string(),
        "to_fee" => e!(a.fg().to_fee(a.liq())).0.to_string(),
        "growth_add" => a.fg().unchecked_add(a.fg()).0.to_string(),
        "growth_sub" => a.fg().unchecked_sub(a.fg()).0.to_string(),
        "seconds_add" => a.spl().unchecked_add(a.spl()).0.to_string(),
        "seconds_sub" => a.spl().unchecked_sub(a.spl()).0.to_string(),
        "seconds" => e!(SecondsPerLiquidity::calculate_seconds_per_liquidity_global(a.liq(), a.p(), a.p())).0.to_string(),
        "seconds_inside" => e!(calculate_seconds_per_liquidity_inside(a.p(), a.p(), a.p(), a.spl(), a.spl(), a.spl())).0.to_string(),
        "fee" => { let r = e!(sdk::custom::calculate_fee(a.p(), a.fg(), a.fg(), a.p(), a.fg(), a.fg(), a.p(), a.fg(), a.fg(), a.fg(), a.fg(), a.liq())); format!("{} {}", r.0 .0, r.1 .0) }
        "by_x" => { let r = e!(sdk::math::get_liquidity_by_x(a.tok(), a.p(), a.p(), a.price(), a.b())); format!("{} {}", r.l.0, r.amount.0) }
        "by_y" => { let r = e!(sdk::math::get_liquidity_by_y(a.tok(), a.p(), a.p(), a.price(), a.b())); format!("{} {}", r.l.0, r.amount.0) }
        "tier" => { let t = e!(FeeTier::new(a.pct(), a.p())); format!("{} {}", t.fee.0, t.tick_spacing) }
        "key" => { let k = e!(PoolKey::new(a.s().into(), a.s().into(), FeeTier { fee: a.pct(), tick_spacing: a.p() })); format!("{} {} {} {}", k.token_x, k.token_y, k.fee_tier.fee.0, k.fee_tier.tick_spacing) }
        "consts" => format!("{} {} {} {} {} {} {} {}", sdk::MAX_TICK, sdk::MIN_TICK, sdk::MAX_SQRT_PRICE, sdk::MIN_SQRT_PRICE, sdk::TICK_SEARCH_RANGE, sdk::CHUNK_SIZE, sdk::LIQUIDITY_TICK_LIMIT, sdk::POSITION_TICK_LIMIT),
        "max_steps" => sdk::MAX_SWAP_STEPS.to_string(),
        f => panic!("unknown function {f}"),
    })
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // a call that never returns must not outlive the monitor that asked
    let parent = std::os::unix::process::parent_id();
    std::thread::spawn(move || loop { std::thread::sleep(std::time::Duration::from_secs(1)); if std::os::unix::process::parent_id() != parent { std::process::exit(0) } });
    let (i, o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut o = std::io::BufWriter::with_capacity(1 << 20, o);
    for l in i.lines() {
        let Ok(l) = l else { break };
        if l == "." { o.flush().unwrap(); continue }
        match std::panic::catch_unwind(|| call(&l)) {
            Ok(Ok(s)) => writeln!(o, "ok {s}").unwrap(),
            Ok(Err(_)) => writeln!(o, "fail").unwrap(),
            Err(e) => { let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); if m.starts_with("unknown function") || m.starts_with("an argument") { writeln!(o, "bad {m}").unwrap() } else { writeln!(o, "panic").unwrap() } }
        }
    }
    o.flush().unwrap();
}
