//! Gives the contract's wasm and the workload generator to the TypeScript client's harness: one request per line on
//! standard input, one JSON answer per line on standard output. Numbers travel as strings ending in "n".
use crate::api::*;
use crate::codec::*;
use crate::run::*;
use crate::rt::*;
use crate::sim::*;
use crate::state::*;
use std::io::{BufRead, Write};

fn num(v: impl std::fmt::Display) -> String { format!("\"{v}n\"") }
fn nref(v: &N) -> String { num(v) }
pub fn hex(b: &[u8]) -> String { b.iter().fold(String::from("0x"), |s, b| s + &format!("{b:02x}")) }
fn unhex(s: &str) -> Vec<u8> { let s = s.trim_start_matches("0x"); (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn a(x: &Addr) -> String { format!("\"{}\"", hex(x)) }
fn obj(f: &[(&str, String)]) -> String { format!("{{{}}}", f.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")) }
fn arr(v: impl IntoIterator<Item = String>) -> String { format!("[{}]", v.into_iter().collect::<Vec<_>>().join(",")) }
fn opt(v: &Option<N>) -> String { v.as_ref().map_or("null".into(), num) }
fn tier(t: &Tier) -> String { obj(&[("fee", num(t.fee)), ("tickSpacing", num(t.spacing))]) }
fn key(k: &Key) -> String { obj(&[("tokenX", a(&k.x)), ("tokenY", a(&k.y)), ("feeTier", tier(&k.tier))]) }
fn pool(p: &Pool) -> String {
    obj(&[("liquidity", num(&p.liquidity)), ("sqrtPrice", num(p.price)), ("currentTickIndex", num(p.tick)), ("feeGrowthGlobalX", num(p.gx)), ("feeGrowthGlobalY", num(p.gy)), ("feeProtocolTokenX", num(&p.px)), ("feeProtocolTokenY", num(&p.py)), ("startTimestamp", num(p.start)), ("lastTimestamp", num(p.last)), ("feeReceiver", a(&p.receiver))])
}
fn position(p: &Position) -> String {
    obj(&[("poolKey", key(&p.key)), ("liquidity", num(&p.liquidity)), ("lowerTickIndex", num(p.lower)), ("upperTickIndex", num(p.upper)), ("feeGrowthInsideX", num(p.gix)), ("feeGrowthInsideY", num(p.giy)), ("lastBlockNumber", num(p.block)), ("tokensOwedX", num(&p.owed_x)), ("tokensOwedY", num(&p.owed_y))])
}
fn tick(t: &Tick) -> String {
    obj(&[("index", num(t.index)), ("sign", t.sign.to_string()), ("liquidityChange", num(&t.change)), ("liquidityGross", num(&t.gross)), ("sqrtPrice", num(t.price)), ("feeGrowthOutsideX", num(t.gox)), ("feeGrowthOutsideY", num(t.goy)), ("secondsOutside", num(t.secs))])
}
fn swap(s: &SwapRes) -> String {
    obj(&[("amountIn", num(&s.amount_in)), ("amountOut", num(&s.amount_out)), ("startSqrtPrice", num(s.start)), ("targetSqrtPrice", num(s.target)), ("fee", num(&s.fee)), ("pool", pool(&s.pool)), ("ticks", arr(s.ticks.iter().map(tick)))])
}
fn quote(q: &Quote) -> String { obj(&[("amountIn", num(&q.amount_in)), ("amountOut", num(&q.amount_out)), ("targetSqrtPrice", num(q.target)), ("ticks", arr(q.ticks.iter().map(tick)))]) }
fn event(e: &Event) -> (&'static str, String) {
    match e {
        Event::Created { ts, who, key: k, liquidity, lower, upper, price } | Event::Removed { ts, who, key: k, liquidity, lower, upper, price } =>
            (if matches!(e, Event::Created { .. }) { "PositionCreatedEvent" } else { "PositionRemovedEvent" }, obj(&[("timestamp", num(ts)), ("address", a(who)), ("poolKey", key(k)), ("liquidityDelta", num(liquidity)), ("lowerTick", num(lower)), ("upperTick", num(upper)), ("sqrtPrice", num(price))])),
        Event::Cross { ts, who, key: k, ticks } => ("CrossTickEvent", obj(&[("timestamp", num(ts)), ("address", a(who)), ("poolKey", key(k)), ("indexes", arr(ticks.iter().map(num)))])),
        Event::Swap { ts, who, key: k, amount_in, amount_out, fee, start, target, x_to_y } =>
            ("SwapEvent", obj(&[("timestamp", num(ts)), ("address", a(who)), ("poolKey", key(k)), ("amountIn", num(amount_in)), ("amountOut", num(amount_out)), ("fee", num(fee)), ("startSqrtPrice", num(start)), ("targetSqrtPrice", num(target)), ("xToY", x_to_y.to_string())])),
    }
}
fn ret(r: &Ret) -> String {
    match r { Ret::Unit => "null".into(), Ret::Amount(x) => num(x), Ret::Pair(x, y) => arr([num(x), num(y)]), Ret::Position(p) => position(p), Ret::Swap(s) => swap(s), Ret::Fee(f) => num(f), Ret::Tier(t) => tier(t) }
}
/// The arguments of a call, in the contract's order.
fn args(o: &Op) -> String {
    use Op::*;
    arr(match o {
        SetProtocolFee(f) => vec![num(f)],
        AddTier(t) | RemoveTier(t) => vec![tier(t)],
        CreatePool { a: x, b, tier: t, price, tick } => vec![a(x), a(b), tier(t), num(price), num(tick)],
        SetReceiver { key: k, to } => vec![key(k), a(to)],
        Create { key: k, lower, upper, liquidity, min, max } => vec![key(k), num(lower), num(upper), num(liquidity), num(min), num(max)],
        Remove(i) | Claim(i) => vec![num(i)],
        Transfer { index, to } => vec![num(index), a(to)],
        Swap { key: k, x_to_y, amount, by_in, limit } => vec![key(k), x_to_y.to_string(), num(amount), by_in.to_string(), num(limit)],
        Route { amount, expected, slippage, hops } => vec![num(amount), num(expected), num(slippage), arr(hops.iter().map(|(k, d)| obj(&[("poolKey", key(k)), ("xToY", d.to_string())])))],
        CollectProtocol(k) => vec![key(k)],
        DepositVara(v) => vec![num(v)],
        WithdrawVara(v) => vec![opt(v)],
        Deposit { token, amount } => vec![a(token), num(amount)],
        Withdraw { token, amount } => vec![a(token), opt(amount)],
        DepositPair { a: x, b: y } => vec![arr([a(&x.0), num(&x.1)]), arr([a(&y.0), num(&y.1)])],
        WithdrawPair { a: x, b: y } => vec![arr([a(&x.0), opt(&x.1)]), arr([a(&y.0), opt(&y.1)])],
        Raw(_) => vec![],
    })
}
fn res<T>(r: Result<T, u8>, f: impl Fn(&T) -> String) -> String { match r { Ok(v) => obj(&[("ok", f(&v))]), Err(e) => obj(&[("err", js(ERRORS.get(e as usize).copied().unwrap_or("?")))]) } }
/// What a query's bytes ask for and what the answer means.
fn query(w: &mut World, b: &[u8]) -> Result<(String, String, String), String> {
    let bad = |_| "malformed query".to_string();
    let mut d = D(b);
    if d.str().map_err(bad)? != "Service" { return Err("unknown service".into()) }
    let m = d.str().map_err(bad)?;
    let d = &mut d;
    macro_rules! end { ($d:expr) => { $d.end().map_err(|_| format!("trailing bytes in {m}"))? } }
    let (args, ans) = match m.as_str() {
        "FeeTierExists" => { let t = d_tier(d).map_err(bad)?; end!(d); (vec![tier(&t)], w.tier_exists(t)?.to_string()) }
        "GetFeeTiers" => { end!(d); (vec![], arr(w.tiers()?.iter().map(tier))) }
        "GetProtocolFee" => { end!(d); (vec![], num(w.protocol_fee()?)) }
        "GetPool" => { let (x, y, t) = (d.addr().map_err(bad)?, d.addr().map_err(bad)?, d_tier(d).map_err(bad)?); end!(d); (vec![a(&x), a(&y), tier(&t)], res(w.pool_by(&x, &y, &t)?, pool)) }
        "GetPoolKeys" => { let (s, o) = (d.u16().map_err(bad)?, d.u16().map_err(bad)?); end!(d); let (k, t) = w.pool_keys(s, o)?; (vec![num(s), num(o)], arr([arr(k.iter().map(key)), num(t)])) }
        "GetAllPoolsForPair" => { let (x, y) = (d.addr().map_err(bad)?, d.addr().map_err(bad)?); end!(d); (vec![a(&x), a(&y)], res(w.pools_for_pair(&x, &y)?, |v| arr(v.iter().map(|(t, p)| arr([tier(t), pool(p)]))))) }
        "GetPosition" => { let (u, i) = (d.addr().map_err(bad)?, d.u32().map_err(bad)?); end!(d); (vec![a(&u), num(i)], res(w.position(&u, i)?, position)) }
        "GetAllPositions" => { let u = d.addr().map_err(bad)?; end!(d); (vec![a(&u)], arr(w.positions(&u)?.iter().map(position))) }
        "GetPositions" => { let (u, s, o) = (d.addr().map_err(bad)?, d.u32().map_err(bad)?, d.u32().map_err(bad)?); end!(d);
            (vec![a(&u), num(s), num(o)], res(w.positions_page(&u, s, o)?, |(v, t)| arr([arr(v.iter().map(|(p, l)| arr([pool(p), arr(l.iter().map(|(x, i)| arr([position(x), num(i)])))]))), num(t)]))) }
        "GetPositionWithAssociates" => { let (u, i) = (d.addr().map_err(bad)?, d.u32().map_err(bad)?); end!(d); (vec![a(&u), num(i)], res(w.associates(&u, i)?, |(p, q, l, h)| arr([position(p), pool(q), tick(l), tick(h)]))) }
        "GetTick" => { let (k, i) = (d_key(d).map_err(bad)?, d.i32().map_err(bad)?); end!(d); (vec![key(&k), num(i)], res(w.tick(&k, i)?, tick)) }
        "IsTickInitialized" => { let (k, i) = (d_key(d).map_err(bad)?, d.i32().map_err(bad)?); end!(d); (vec![key(&k), num(i)], w.tick_init(&k, i)?.to_string()) }
        "GetTickmap" => { let k = d_key(d).map_err(bad)?; end!(d); (vec![key(&k)], arr(w.tickmap(&k)?.iter().map(|(c, b)| arr([num(c), num(b)])))) }
        "GetLiquidityTicks" => { let k = d_key(d).map_err(bad)?; let t = d.vec(|d| d.i32()).map_err(bad)?; end!(d); (vec![key(&k), arr(t.iter().map(num))], res(w.liq_ticks(&k, &t)?, |v| arr(v.iter().map(|t| obj(&[("index", num(t.index)), ("liquidityChange", num(&t.change)), ("sign", t.sign.to_string())]))))) }
        "GetLiquidityTicksAmount" => { let k = d_key(d).map_err(bad)?; end!(d); (vec![key(&k)], num(w.tick_count(&k)?)) }
        "GetUserBalances" => { let u = d.addr().map_err(bad)?; end!(d); (vec![a(&u)], arr(w.balances(&u)?.iter().map(|(t, v)| arr([a(t), num(v)])))) }
        "GetUserPositionAmount" => { let u = d.addr().map_err(bad)?; end!(d); (vec![a(&u)], num(w.position_count(&u)?)) }
        "GetPositionTicks" => { let (u, o) = (d.addr().map_err(bad)?, d.u32().map_err(bad)?); end!(d); (vec![a(&u), num(o)], arr(w.pos_ticks(&u, o)?.iter().map(|t| obj(&[("index", num(t.index)), ("feeGrowthOutsideX", num(t.gox)), ("feeGrowthOutsideY", num(t.goy)), ("secondsOutside", num(t.secs))])))) }
        "Quote" => { let (k, x, n, i, l) = (d_key(d).map_err(bad)?, d.bool().map_err(bad)?, d.u256().map_err(bad)?, d.bool().map_err(bad)?, d.u128().map_err(bad)?); end!(d);
            (vec![key(&k), x.to_string(), num(&n), i.to_string(), num(l)], res(w.quote(&k, x, &n, i, l)?, quote)) }
        "QuoteRoute" => { let n = d.u256().map_err(bad)?; let h = d.vec(|d| Ok((d_key(d)?, d.bool()?))).map_err(bad)?; end!(d);
            (vec![num(&n), arr(h.iter().map(|(k, x)| obj(&[("poolKey", key(k)), ("xToY", x.to_string())])))], res(w.quote_route(&n, &h)?, nref)) }
        _ => return Err(format!("unknown query {m}")),
    };
    Ok((m, arr(args), ans))
}
fn dump_json(h: &Hist) -> String {
    let d = &h.d;
    obj(&[("fee", num(d.fee)), ("tiers", arr(d.tiers.iter().map(tier))), ("admin", a(&ADMIN)), ("tokens", arr(h.cfg.tokens.iter().map(a))),
        ("pools", arr(d.keys.iter().filter_map(|k| Some((k, d.pools.get(k)?))).map(|(k, p)| obj(&[("key", key(k)), ("pool", pool(&p.pool)), ("ticks", arr(p.ticks.values().map(tick))), ("map", arr(p.map.iter().map(|(c, b)| arr([num(c), num(b)])))), ("count", num(p.count))])))),
        ("users", arr(d.users.iter().map(|(u, x)| obj(&[("user", a(u)), ("balances", arr(x.bal.iter().map(|(t, v)| arr([a(t), num(v)])))), ("positions", arr(x.pos.iter().map(position)))]))))])
}
pub fn serve(target: &str) -> ! {
    let p = match deployed(target) { Ok(p) => p, Err(e) => { eprintln!("cannot run: {e}"); std::process::exit(2) } };
    let mut w = World::new(&p).unwrap();
    let base = w.snapshot();
    let mut probe = Probe::new(&p).unwrap();
    let mut lines = std::io::stdin().lock().lines();
    let mut out = std::io::stdout().lock();
    let mut say = |s: String| { let _ = writeln!(out, "{s}"); let _ = out.flush(); };
    let mut next: Option<String> = lines.next().and_then(|l| l.ok());
    'outer: while let Some(l) = next.take() {
        let f: Vec<&str> = l.split(' ').collect();
        if f[0] != "start" { say(obj(&[("error", js("expected start"))])); next = lines.next().and_then(|l| l.ok()); continue }
        let seed: u64 = f[1].parse().unwrap();
        let mut h = match Hist::start(&mut w, &base, &mut probe, seed, "C34") { Ok(h) => h, Err(e) => { say(obj(&[("error", js(&e))])); next = lines.next().and_then(|l| l.ok()); continue } };
        say(obj(&[("steps", h.cfg.len.to_string()), ("program", a(&PROGRAM))]));
        let mut ahead: Option<(Addr, Op)> = None;
        while let Some(Ok(l)) = lines.next() {
            let f: Vec<&str> = l.split(' ').collect();
            let ans = match f[0] {
                "start" => { next = Some(l); continue 'outer }
                "gen" => {
                    h.maybe_advance();
                    let (by, op) = h.gen(true);
                    let s = obj(&[("by", a(&by)), ("method", js(op.method())), ("args", args(&op)), ("payload", js(&hex(&op.payload()))), ("value", num(op.value()))]);
                    ahead = Some((by, op));
                    s
                }
                "call" => {
                    let by: Addr = unhex(f[1]).try_into().unwrap();
                    let (payload, value) = (unhex(f[2]), f[3].parse::<u128>().unwrap());
                    match Op::parse(&payload, value) {
                        Err(_) => obj(&[("error", js("the contract could not read this call"))]),
                        Ok(op) => {
                            ahead = None;
                            let called = (op.method(), args(&op));
                            let op = if op.value() != value { Op::Raw(payload) } else { op };
                            let s = h.apply(by, op);
                            h.d = dump(h.w, &h.watched).unwrap();
                            let ev = s.events.iter().map(event).collect::<Vec<_>>();
                            obj(&[("method", js(called.0)), ("args", called.1), ("ok", s.ok.is_some().to_string()), ("ret", s.ok.as_ref().map_or("null".into(), ret)), ("err", js(&s.err)), ("reply", js(&hex(&s.reply))),
                                ("events", arr(ev.iter().zip(&s.raw_events).map(|((n, e), r)| obj(&[("name", js(n)), ("data", e.clone()), ("raw", js(&hex(r)))]))))])
                        }
                    }
                }
                "query" => {
                    let b = unhex(f[1]);
                    let r = query(h.w, &b);
                    let raw = h.w.query([9; 32], b);
                    h.w.end_queries();
                    match (r, raw) {
                        (Ok((m, args, ans)), Ok(raw)) => obj(&[("method", js(&m)), ("args", args), ("ans", ans), ("reply", js(&hex(&raw)))]),
                        (Err(e), _) | (_, Err(e)) => obj(&[("error", js(&e))]),
                    }
                }
                "dump" => dump_json(&h),
                "log" => arr(h.log.iter().map(|l| js(l))),
                "price" => h.price(f[1].parse().unwrap()).map_or("null".into(), num),
                // what removing (or claiming) a position pays, tried on a branch
                "worth" => {
                    let u: Addr = unhex(f[1]).try_into().unwrap(); let i: u32 = f[2].parse().unwrap();
                    let op = if f[3] == "1" { Op::Remove(i) } else { Op::Claim(i) };
                    let s = h.branch(|h| h.apply(u, op));
                    obj(&[("ok", s.ok.is_some().to_string()), ("ret", s.ok.as_ref().map_or("null".into(), ret)), ("err", js(&s.err))])
                }
                // what creating a position costs, tried on a branch by someone rich enough
                "cost" => {
                    let b = unhex(f[2]); let u: Addr = unhex(f[1]).try_into().unwrap();
                    match Op::parse(&b, 0) {
                        Ok(op) => { let r = h.branch(|h| { let s = h.apply(u, op); let d = dump(h.w, &h.watched).unwrap(); (s, d) });
                            let spent: Vec<String> = h.d.users[&u].bal.iter().map(|(t, v)| arr([a(t), num(v - r.1.bal(&u, t))])).collect();
                            obj(&[("ok", r.0.ok.is_some().to_string()), ("err", js(&r.0.err)), ("spent", arr(spent))]) }
                        Err(_) => obj(&[("error", js("the contract could not read this call"))]),
                    }
                }
                _ => obj(&[("error", js("unknown request"))]),
            };
            say(ans);
        }
        let _ = ahead;
        break
    }
    std::process::exit(0)
}
