//! C30: one step of a swap, the amount formulas and the price-change test, against exact rationals.
use crate::cover::*;
use crate::num::*;
use crate::price::{at, tick_of};
use crate::rng::Rng;
use decimal::*;
use math::clamm::*;
use math::types::{liquidity::Liquidity, percentage::Percentage, sqrt_price::*, token_amount::*};
use num_traits::{One, Signed, Zero};

type R = Result<(), String>;
const TICK: i32 = 221_818;
pub const BATCHES: u64 = 24000;
pub fn token(v: &N) -> TokenAmount { TokenAmount::new(<U256 as B>::of(v)) }
pub fn liq(v: &N) -> Liquidity { Liquidity::new(<U256 as B>::of(v)) }
fn one12() -> N { p10(12) }

/// Exact X for l between two prices is l*(b-a)*1e19/(a*b). Returned: lower bound and floor for rounding down,
/// lower bound and upper bound for rounding up. The contract keeps numerator and denominator in units of
/// 1e-24 each; that is the only imprecision allowed.
pub struct Dx { pub lo: N, pub floor: N, pub least: N, pub hi: N }
pub fn dx(a: u128, b: u128, l: &N) -> Dx {
    let (a, b) = (n(a.min(b)), n(a.max(b)));
    let (num, den) = (l * (&b - &a), &a * &b);
    let (nf, df, dc) = (dn(&num, &p10(5)), dn(&den, &p10(24)), up(&den, &p10(24)));
    let least = up(&(&num * p10(19) - p10(24)), &den);
    Dx { lo: dn(&nf, &dc), floor: dn(&(&num * p10(19)), &den), least: if least.is_negative() { N::zero() } else { least }, hi: up(&nf, &df) }
}
pub fn dy(a: u128, b: u128, l: &N) -> (N, N) { let v = l * (n(a.max(b)) - n(a.min(b))); (dn(&v, &p10(29)), up(&v, &p10(29))) }
/// Price after adding (or taking) x: exact p*L*1e19/(L*1e19 +- p*x), rounded up; the numerator is first rounded up.
fn next_x(p: u128, l: &N, x: &N, add: bool) -> Option<(N, N)> {
    let p = n(p); let big = l * p10(19);
    let den = if add { &big + &p * x } else { &big - &p * x };
    if !den.is_positive() { return None }
    let num = &p * &big;
    Some((up(&num, &den), up(&(num + p10(24)), &den)))
}

struct Case { p: u128, t: u128, l: N, amount: N, by_in: bool, fee: u128 }
impl Case {
    fn down(&self) -> bool { self.p >= self.t }
    fn net(&self) -> N { dn(&(&self.amount * (one12() - self.fee)), &one12()) }
    fn check(&self, c: &mut Cover) -> R {
        let k = self; let down = k.down();
        let got = attempt_res(|| compute_swap_step(SqrtPrice(k.p), SqrtPrice(k.t), liq(&k.l), token(&k.amount), k.by_in, Percentage(k.fee)));
        let say = |m: String| Err(format!("step from price {} towards {}, liquidity {}, amount {} {}, fee {}: {m}", k.p, k.t, k.l, k.amount, if k.by_in { "in" } else { "out" }, k.fee));
        let full = p2(256);
        let whole_x = dx(k.p, k.t, &k.l); let whole_y = dy(k.p, k.t, &k.l);
        let Some(g) = got else {
            c.case(("refused", down, k.by_in, mag(&k.l), mag(&k.amount))); c.count("step refused");
            let (x, y) = (&whole_x.hi, &whole_y.1);
            if *x < full && *y < full { return say(format!("fails although the amounts to the target ({x} X, {y} Y) fit")) }
            return Ok(());
        };
        let (next, ain, out, fee) = (g.next_sqrt_price.0, g.amount_in.get().big(), g.amount_out.get().big(), g.fee_amount.get().big());
        let reached = next == k.t;
        c.case((down, k.by_in, reached, next == k.p, mag(&k.l), mag(&k.amount), k.p >> 90, mag(&ain)));
        c.count(match (k.by_in, reached) { (true, true) => "step by input to the target", (true, false) => "step by input inside", (false, true) => "step by output to the target", (false, false) => "step by output inside" });
        c.sample(|| format!("{} -> {next} (target {}), L {}, {} of {}: in {ain}, out {out}, fee {fee}", k.p, k.t, k.l, if k.by_in { "input" } else { "output" }, k.amount));
        if k.l.is_zero() {
            if !reached || !ain.is_zero() || !out.is_zero() || !fee.is_zero() { return say(format!("without liquidity moved to {next} with in {ain}, out {out}, fee {fee}")) }
            return Ok(());
        }
        if next < k.p.min(k.t) || next > k.p.max(k.t) { return say(format!("moved to {next}, past the target or backwards")) }
        // the sides against the curve between the two prices
        let (x, y) = (dx(k.p, next, &k.l), dy(k.p, next, &k.l));
        let (in_least, in_most, out_least, out_most) = if down { (&x.least, &x.hi, &y.0, &y.0) } else { (&y.1, &y.1, &x.lo, &x.floor) };
        if ain < *in_least || ain > *in_most { return say(format!("moved to {next} taking in {ain}, the curve needs {in_least}..={in_most}")) }
        let (ol, om) = if k.by_in { (out_least.clone(), out_most.clone()) } else { (out_least.min(&k.amount).clone(), out_most.min(&k.amount).clone()) };
        if out < ol || out > om { return say(format!("moved to {next} giving {out}, the curve gives {ol}..={om}")) }
        // the caller's side
        let rate = up(&(&ain * k.fee), &one12());
        if k.by_in {
            if &ain + &fee > k.amount { return say(format!("takes {ain} and fee {fee}, more than offered")) }
            if !reached && &ain + &fee != k.amount { return say(format!("stops at {next} before the target with {} of the input unused", &k.amount - &ain - &fee)) }
            if fee < rate { return say(format!("charges fee {fee} on {ain}, the rate asks for {rate}")) }
            if reached && fee != rate { return say(format!("reaches the target charging {fee} on {ain}, the rate asks for {rate}")) }
            let net = k.net();
            // the price reached: exactly what the net input buys
            let (need_least, need_most) = if down { (&whole_x.least, &whole_x.hi) } else { (&whole_y.1, &whole_y.1) };
            let bought = if down { next_x(k.p, &k.l, &net, true) } else { let q = n(k.p) + dn(&(&net * p10(29)), &k.l); Some((q.clone(), q)) };
            if reached {
                // either the input covers the amount to the target, or it moves the price there
                let (b0, b1) = bought.unwrap();
                if net < *need_least && if down { b0 > n(k.t) } else { b1 < n(k.t) } { return say(format!("reaches the target, but {net} does not pay for it ({need_least} needed)")) }
            } else {
                if net >= *need_most { return say(format!("stops at {next} although {net} pays for reaching the target ({need_most} needed)")) }
                let (b0, b1) = bought.unwrap();
                if n(next) < b0 || n(next) > b1 { return say(format!("stops at {next}, but {net} moves the price to {b0}..={b1}")) }
            }
        } else {
            if fee != rate { return say(format!("charges fee {fee} on {ain}, the rate asks for {rate}")) }
            let (w0, w1) = if down { (&whole_y.0, &whole_y.0) } else { (&whole_x.lo, &whole_x.floor) };
            if k.amount >= *w1 && !reached { return say(format!("stops at {next} although the {w1} up to the target are asked for")) }
            if !reached {
                let (b0, b1) = if down { let q = n(k.p) - up(&(&k.amount * p10(29)), &k.l); (q.clone(), q) } else { match next_x(k.p, &k.l, &k.amount, false) { Some(v) => v, None => return say(format!("stops at {next}, but the amount cannot be taken at any price")) } };
                if n(next) < b0 || n(next) > b1 { return say(format!("stops at {next}, but taking {} moves the price to {b0}..={b1}", k.amount)) }
            } else if k.amount < *w0 {
                // the rounded next price may coincide with the target
                let hit = if down { n(k.p) - up(&(&k.amount * p10(29)), &k.l) <= n(k.t) } else { next_x(k.p, &k.l, &k.amount, false).map_or(true, |(_, b)| b >= n(k.t)) };
                if !hit { return say(format!("reaches the target although only {} of {w0} is asked for", k.amount)) }
            }
        }
        Ok(())
    }
}
pub fn price(r: &mut Rng) -> u128 {
    let (lo, hi) = (at(-TICK), at(TICK));
    match r.below(12) { 0 => lo, 1 => hi, 2 => at(r.range(-TICK as i64, TICK as i64) as i32), 3 => p24(), 4 => lo + r.below(1000) as u128, 5 => hi - r.below(1000) as u128, 6 => p24() - 50 + r.below(100) as u128, _ => { let t = r.range(-TICK as i64, TICK as i64 - 1) as i32; let (a, b) = (at(t), at(t + 1)); a + r.u128() % (b - a) } }
}
fn p24() -> u128 { 1_000_000_000_000_000_000_000_000 }
pub fn near(r: &mut Rng, p: u128) -> u128 {
    let (lo, hi) = (at(-TICK), at(TICK));
    let t = tick_of(p).unwrap_or(0);
    let q = match r.below(10) {
        0 => p, 1 => p + r.below(5) as u128, 2 => p.saturating_sub(r.below(5) as u128),
        3 => { let k = r.below(96); if r.chance(1, 2) { p.saturating_add(1 << k) } else { p.saturating_sub(1 << k) } }
        4 | 5 | 6 => at((t + r.range(-300, 300) as i32).clamp(-TICK, TICK)),
        7 => at((t as i64 + r.range(-25600, 25600)).clamp(-TICK as i64, TICK as i64) as i32),
        _ => price(r),
    };
    q.clamp(lo, hi)
}
pub fn fee(r: &mut Rng) -> u128 { match r.below(8) { 0 => 0, 1 => 1, 2 => 999_999_999_999, 3 => r.next() as u128 % 1_000_000_000_000, 4 => 10u128.pow(r.below(12) as u32), _ => *r.pick(&[100_000_000u128, 500_000_000, 3_000_000_000, 6_000_000_000, 10_000_000_000]) } }
pub fn liquidity(r: &mut Rng) -> N { match r.below(10) { 0 => operand(r, 256), 1 => n(r.below(10)), 2 => r.log(256), 3 => r.log(20), 4 => p10(5) * r.log(40), _ => { let b = 40 + r.below(120) as u32; r.log(b) } } }
/// amounts around what reaches the target, or around what moves the price by one unit, or any
pub fn amount(r: &mut Rng, p: u128, t: u128, l: &N, by_in: bool, f: u128) -> N {
    let down = p >= t;
    let whole = if down == by_in { let v = dx(p, t, l); if by_in { v.hi } else { v.floor } } else { let v = dy(p, t, l); if by_in { v.1 } else { v.0 } };
    let v = match r.below(10) {
        0 | 1 => whole + r.range(-2, 2),
        2 => up(&(whole * one12()), &(one12() - f)) + r.range(-2, 2),
        3 | 4 => { let k = r.below(1001); whole * k / 1000 }
        5 => { let k = if down == by_in { let q = n(p); l * p10(19) / (&q * &q) } else { l / p10(29) }; let m = r.below(4); k * m + r.range(-1, 2) }
        6 => n(r.below(5)), 7 => operand(r, 256), _ => r.log(200),
    };
    if v.is_negative() { N::zero() } else if v >= p2(256) { p2(256) - 1 } else { v }
}
pub fn batch(j: &Job, i: u64, c: &mut Cover) -> R {
    let mut r = Rng::new(mix(j.seed, j.prop, i));
    for _ in 0..150 {
        let p = price(&mut r); let t = near(&mut r, p);
        let l = liquidity(&mut r); let by_in = r.chance(1, 2); let f = fee(&mut r);
        let a = amount(&mut r, p, t, &l, by_in, f);
        Case { p, t, l: l.clone(), amount: a.clone(), by_in, fee: f }.check(c)?;
        // amount formulas
        let (x, y) = (dx(p, t, &l), dy(p, t, &l));
        for upw in [false, true] {
            let g = attempt_res(|| get_delta_x(SqrtPrice(p), SqrtPrice(t), liq(&l), upw)).map(|v| v.get().big());
            let (lo, hi) = if upw { (&x.least, &x.hi) } else { (&x.lo, &x.floor) };
            c.case(("dx", upw, mag(&l), g.is_some(), (p.max(t) - p.min(t)) >> 80)); c.count("X between prices");
            match g { Some(v) if v >= *lo && v <= *hi => {} Some(v) => return Err(format!("X of liquidity {l} between prices {p} and {t}, up {upw}: {v}, exact is in {lo}..={hi}")), None if *hi < p2(256) => return Err(format!("X of liquidity {l} between prices {p} and {t}, up {upw}: refused although it is at most {hi}")), _ => {} }
            let g = attempt_res(|| get_delta_y(SqrtPrice(p), SqrtPrice(t), liq(&l), upw)).map(|v| v.get().big());
            let w = if upw { &y.1 } else { &y.0 };
            c.case(("dy", upw, mag(&l), g.is_some(), (p.max(t) - p.min(t)) >> 80)); c.count("Y between prices");
            match g { Some(v) if v == *w => {} Some(v) => return Err(format!("Y of liquidity {l} between prices {p} and {t}, up {upw}: {v}, exact is {w}")), None if *w < p2(256) => return Err(format!("Y of liquidity {l} between prices {p} and {t}, up {upw}: refused although it is {w}")), _ => {} }
        }
        // does the amount change the price?
        let down = p >= t;
        let g = attempt_res(|| is_enough_amount_to_change_price(token(&a), SqrtPrice(p), liq(&l), Percentage(f), by_in, down));
        let net = if by_in { dn(&(&a * (one12() - f)), &one12()) } else { a.clone() };
        let bounds = if l.is_zero() { None } else if net.is_zero() { Some((n(p), n(p))) } else if down == by_in { next_x(p, &l, &net, by_in) } else { let q = if by_in { n(p) + dn(&(&net * p10(29)), &l) } else { n(p) - up(&(&net * p10(29)), &l) }; Some((q.clone(), q)) };
        c.case(("enough", down, by_in, mag(&l), mag(&a), g)); c.count(match g { Some(true) => "amount moves the price", Some(false) => "amount does not move the price", None => "price change refused" });
        match (g, &bounds) {
            (Some(v), None) if l.is_zero() => if !v { return Err("without liquidity any amount moves the price".into()) },
            (Some(v), None) => return Err(format!("taking {a} at price {p} with liquidity {l} is possible at no price, but changing it is answered {v}")),
            (Some(v), Some((lo, hi))) => {
                let same = n(p);
                if (lo == hi || !v) && v != (*lo != same) && !(lo != hi && *hi == same) { return Err(format!("amount {a} ({}, fee {f}) at price {p} with liquidity {l} {}: price goes to {lo}..={hi}, answered {v}", if by_in { "in" } else { "out" }, if down { "down" } else { "up" })) }
                if v && *lo == same && *hi == same { return Err(format!("amount {a} leaves price {p} with liquidity {l} unchanged, answered that it moves")) }
            }
            (None, Some((lo, hi))) if lo.is_positive() && *hi < p2(128) => return Err(format!("amount {a} ({by_in}) at price {p} with liquidity {l}, down {down}: whether the price moves is refused although it goes to {lo}..={hi}")),
            _ => {}
        }
        // amounts of a position
        let (u, v) = (r.range(-TICK as i64, TICK as i64) as i32, r.range(-300, 300) as i32);
        let (lo, hi) = (u, match r.below(8) { 0 => u, 1 => u - 1, 2 => TICK + 1, 3 => u.saturating_add(v.abs()).min(TICK), _ => { let w = r.range(u as i64, TICK as i64); w as i32 } });
        let pos = match r.below(6) { 0 => at(lo), 1 => at(hi.clamp(-TICK, TICK)), 2 | 3 if hi > lo && hi <= TICK => at(lo) + r.u128() % (at(hi) - at(lo)), _ => p };
        let tk = { let t = tick_of(pos).unwrap(); if at(t) == pos && r.chance(1, 3) { t - 1 } else { t } };
        for add in [false, true] {
            let g = attempt_res(|| calculate_amount_delta(tk, SqrtPrice(pos), liq(&l), add, hi, lo)).map(|(x, y, u)| (x.get().big(), y.get().big(), u));
            c.case(("delta", add, g.is_some(), tk < lo, tk < hi, mag(&l))); c.count("amounts of a range");
            if hi < lo || hi > TICK { if hi < lo || tk < hi || hi > TICK { if let Some(g) = g { return Err(format!("amounts of liquidity {l} in [{lo}, {hi}] are given as {g:?}")) } } continue }
            let inside = tk >= lo && tk < hi;
            let (a, b) = (at(lo), at(hi));
            // what the range holds at this price
            let q = pos.clamp(a, b);
            let (ex, ey) = (dx(q, b, &l), dy(a, q, &l));
            let (x0, x1, y) = if add { (ex.least, ex.hi, ey.1) } else { (ex.lo, ex.floor, ey.0) };
            match g {
                Some((gx, gy, gu)) => if gx < x0 || gx > x1 || gy != y || gu != inside { return Err(format!("amounts of liquidity {l} in [{lo}, {hi}] at price {pos}, tick {tk}, adding {add}: {gx} X, {gy} Y, in range {gu}; exact {x0}..={x1} X, {y} Y, in range {inside}")) },
                None => if x1 < p2(256) && y < p2(256) { return Err(format!("amounts of liquidity {l} in [{lo}, {hi}] at price {pos} are refused although {x1} X and {y} Y fit")) }
            }
        }
        // slippage
        let (e, s) = (operand(&mut r, 256), match r.below(4) { 0 => r.u128() >> r.below(128), 1 => one_plus(&mut r), _ => fee(&mut r) });
        let g = attempt(|| calculate_min_amount_out(token(&e), Percentage(s))).map(|v| v.get().big());
        c.case(("min out", mag(&e), s >> 30, g.is_some())); c.count("minimum output");
        let w = if s <= 1_000_000_000_000 { Some(up(&(&e * (one12() - s)), &one12())) } else { None };
        if g != w { return Err(format!("least output for {e} expected at slippage {s}: {g:?}, should be {w:?}")) }
    }
    // liquidity per tick: the largest share that lets every spaced tick be full
    if i < 100 {
        let s = i as u16 + 1;
        let g = calculate_max_liquidity_per_tick(s).get().big();
        let w = (p2(256) - N::one()) / n((2 * TICK as u64 + 1) / s as u64);
        c.case(("per tick", s)); c.count("liquidity per tick");
        if g != w { return Err(format!("liquidity allowed per tick with spacing {s} is {g}, should be {w}")) }
    }
    Ok(())
}
fn one_plus(r: &mut Rng) -> u128 { 1_000_000_000_000 - 3 + r.below(7) as u128 }
