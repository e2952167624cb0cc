//! C21: liquidity estimated from token amounts, against the exact curve and against the deposit's own amounts.
use crate::cover::*;
use crate::num::*;
use crate::price::{at, tick_of};
use crate::rng::Rng;
use contracts::{get_liquidity, get_liquidity_by_x, get_liquidity_by_y};
use decimal::*;
use math::clamm::calculate_amount_delta;
use math::types::{liquidity::Liquidity, sqrt_price::*, token_amount::*};
use num_traits::Zero;

type R = Result<(), String>;
const TICK: i32 = 221_818;
pub const BATCHES: u64 = 12000;
fn token(v: &N) -> TokenAmount { TokenAmount::new(<U256 as B>::of(v)) }

struct Case { lo: i32, hi: i32, p: u128, up: bool }
impl Case {
    fn say(&self, what: &str, m: String) -> R { Err(format!("{what} in [{}, {}] at price {} (prices {}, {}), rounding up {}: {m}", self.lo, self.hi, self.p, at(self.lo), at(self.hi), self.up)) }
    fn above(&self) -> bool { self.p >= at(self.hi) }
    fn below(&self) -> bool { self.p <= at(self.lo) }
    /// exact most liquidity that x buys: x * pa * pb / (pb - pa), as a fraction in liquidity units; with the
    /// product rounded down to the price's precision for the lower one
    fn by_x(&self, x: &N) -> (N, N) {
        let (pa, pb) = (n(self.p.max(at(self.lo))), n(at(self.hi)));
        let d = &pb - &pa; let q = &pa * &pb;
        (dn(&(x * (dn(&q, &p10(24))) * p10(5)), &d), dn(&(x * q * p10(5)), &(d * p10(24))))
    }
    fn by_y(&self, y: &N) -> N { let d = n(self.p.min(at(self.hi))) - n(at(self.lo)); dn(&(y * p10(29)), &d) }
    fn exact_y(&self, l: &N) -> (N, N) { let d = n(self.p.min(at(self.hi)).max(at(self.lo))) - n(at(self.lo)); (dn(&(l * &d), &p10(29)), up(&(l * d), &p10(29))) }
    /// exact x for l is l * (pb - pa) * 1e24 / (pa * pb) / 1e5 tokens: lower and upper integer bounds for its
    /// computation (the product of the prices is kept with 24 decimals, so is numerator)
    fn exact_x(&self, l: &N) -> [N; 4] {
        let (pa, pb) = (n(self.p.max(at(self.lo)).min(at(self.hi))), n(at(self.hi)));
        let (num, den) = (l * (&pb - &pa), &pa * &pb); // x = num * 1e19 / den
        let (nf, df, dc) = (dn(&num, &p10(5)), dn(&den, &p10(24)), up(&den, &p10(24)));
        [dn(&nf, &dc), dn(&(&num * p10(19)), &den), up(&nf, &df), up(&(&num * p10(19) - &p10(24)), &den)]
    }
    /// what depositing l takes, for each tick the pool may be at
    fn deposit(&self, l: &N) -> Vec<Option<(N, N)>> {
        let mut ticks = vec![];
        if let Some(t) = tick_of(self.p) { ticks.push(t); if at(t) == self.p { ticks.push(t - 1) } }
        ticks.into_iter().map(|t| attempt_res(|| calculate_amount_delta(t, SqrtPrice(self.p), Liquidity::new(<U256 as B>::of(l)), true, self.hi, self.lo)).map(|(x, y, _)| (x.get().big(), y.get().big()))).collect()
    }
    fn fits_deposit(&self, what: &str, l: &N, x: &N, y: &N) -> R {
        for d in self.deposit(l) {
            match d {
                Some((dx, dy)) if &dx <= x && &dy <= y => {}
                Some((dx, dy)) => return self.say(what, format!("promises liquidity {l} for {x} X and {y} Y, depositing it takes {dx} X and {dy} Y")),
                None => return self.say(what, format!("promises liquidity {l} for {x} X and {y} Y, its deposit fails")),
            }
        }
        Ok(())
    }
    /// the reported amount of the other token
    fn other_y(&self, what: &str, l: &N, y: &N) -> R {
        let (f, c) = self.exact_y(l);
        let w = if self.up { c } else { f };
        if *y != w { return self.say(what, format!("liquidity {l} reported with {y} Y, exact is {w}")) }
        Ok(())
    }
    fn other_x(&self, what: &str, l: &N, x: &N) -> R {
        let [dlo, dhi, uhi, ulo] = self.exact_x(l);
        let (a, b) = if self.up { (ulo.max(N::zero()), uhi) } else { (dlo, dhi) };
        if *x < a || *x > b { return self.say(what, format!("liquidity {l} reported with {x} X, exact is in {a}..={b}")) }
        Ok(())
    }
}
pub fn batch(j: &Job, i: u64, c: &mut Cover) -> R {
    let mut r = Rng::new(mix(j.seed, j.prop, i));
    for _ in 0..150 {
        let s = *r.pick(&[1i32, 1, 2, 5, 10, 60, 100]);
        let top = TICK / s;
        let mid = match r.below(6) { 0 => 0, 1 => r.range(-20, 20), 2 => top as i64, 3 => -top as i64, _ => r.range(-top as i64, top as i64) };
        let w = match r.below(4) { 0 => 1, 1 => r.range(1, 20), 2 => r.range(1, 2000), _ => r.range(1, 2 * top as i64) };
        let lo = (mid - r.below(w as u64 + 1) as i64).clamp(-top as i64, top as i64 - 1) as i32;
        let hi = (lo as i64 + w).clamp(lo as i64 + 1, top as i64) as i32;
        let (lo, hi) = (lo * s, hi * s);
        let (a, b) = (at(lo), at(hi));
        let pick = |r: &mut Rng, f: i32, t: i32| { let (f, t) = (f.max(-TICK), t.min(TICK)); if f >= t { return at(t) } let k = r.range(f as i64, t as i64 - 1) as i32; let (u, v) = (at(k), at(k + 1)); u + r.u128() % (v - u) };
        let p = match r.below(16) {
            0 => a, 1 => b, 2 => a + 1, 3 => b - 1, 4 => (a - 1).max(at(-TICK)), 5 => (b + 1).min(at(TICK)),
            6 => pick(&mut r, -TICK, lo), 7 => pick(&mut r, hi, TICK), 8 => at(r.range(-TICK as i64, TICK as i64) as i32), 9 => at(r.range(lo as i64, hi as i64) as i32),
            10 => a + (r.u128() % (b - a)).min(1u128 << r.below(90)), 11 => b - (r.u128() % (b - a)).min(1u128 << r.below(90)),
            _ => pick(&mut r, lo, hi),
        };
        let k = Case { lo, hi, p, up: r.chance(1, 2) };
        let amount = |r: &mut Rng| match r.below(8) { 0 => operand(r, 256), 1 => n(r.below(5)), 2 | 3 => r.log(64), 4 => r.log(100), _ => r.log(200) };
        let (x, y) = (amount(&mut r), amount(&mut r));
        let side = if k.above() { 2 } else if k.below() { 0 } else { 1 };
        let max = p2(256);
        // from X
        let got = attempt_res(|| get_liquidity_by_x(token(&x), lo, hi, SqrtPrice(p), k.up)).map(|v| (v.l.get().big(), v.amount.get().big()));
        c.case(("x", side, mag(&x), (lo >> 13, (hi - lo) >> 10), k.up, got.is_some())); c.count(if got.is_some() { "from X" } else { "from X refused" });
        if p >= b { if let Some(g) = &got { return k.say("get_liquidity_by_x", format!("{x} X gave {g:?} although no X can be deposited")) } }
        else {
            let (least, most) = k.by_x(&x);
            match &got {
                Some((l, oy)) => {
                    if *l > most || *l < least { return k.say("get_liquidity_by_x", format!("{x} X gave {l}, exact is in {least}..={most}")) }
                    k.other_y("get_liquidity_by_x", l, oy)?;
                    let y_up = k.exact_y(l).1;
                    k.fits_deposit("get_liquidity_by_x", l, &x, if k.up { oy } else { &y_up })?;
                    c.sample(|| format!("{x} X in [{lo}, {hi}] at {p}: liquidity {l} with {oy} Y"));
                }
                None => if most < max && k.exact_y(&most).1 < max { return k.say("get_liquidity_by_x", format!("{x} X refused although liquidity {most} fits")) }
            }
        }
        // from Y
        let got = attempt_res(|| get_liquidity_by_y(token(&y), lo, hi, SqrtPrice(p), k.up)).map(|v| (v.l.get().big(), v.amount.get().big()));
        c.case(("y", side, mag(&y), (lo >> 13, (hi - lo) >> 10), k.up, got.is_some())); c.count(if got.is_some() { "from Y" } else { "from Y refused" });
        if p <= a { if let Some(g) = &got { return k.say("get_liquidity_by_y", format!("{y} Y gave {g:?} although no Y can be deposited")) } }
        else {
            let most = k.by_y(&y);
            match &got {
                Some((l, ox)) => {
                    if *l != most { return k.say("get_liquidity_by_y", format!("{y} Y gave {l}, exact is {most}")) }
                    k.other_x("get_liquidity_by_y", l, ox)?;
                    let x_up = k.exact_x(l)[2].clone();
                    k.fits_deposit("get_liquidity_by_y", l, if k.up { ox } else { &x_up }, &y)?;
                    c.sample(|| format!("{y} Y in [{lo}, {hi}] at {p}: liquidity {l} with {ox} X"));
                }
                None => if most < max && k.exact_x(&most)[2] < max { return k.say("get_liquidity_by_y", format!("{y} Y refused although liquidity {most} fits")) }
            }
        }
        // from both
        let got = attempt_res(|| get_liquidity(token(&x), token(&y), lo, hi, SqrtPrice(p), k.up)).map(|v| (v.l.get().big(), v.x.get().big(), v.y.get().big()));
        c.case(("both", side, mag(&x), mag(&y), k.up, got.is_some())); c.count(if got.is_some() { "from both" } else { "from both refused" });
        let lx = if p < b { Some(k.by_x(&x)) } else { None };
        let ly = if p > a { Some(k.by_y(&y)) } else { None };
        let (least, most) = match (&lx, &ly) { (Some(v), Some(w)) => ((&v.0).min(w).clone(), (&v.1).min(w).clone()), (Some(v), None) => v.clone(), (None, Some(w)) => (w.clone(), w.clone()), _ => unreachable!() };
        match &got {
            Some((l, gx, gy)) => {
                if *l < least || *l > most { return k.say("get_liquidity", format!("{x} X and {y} Y gave {l}, exact is in {least}..={most}")) }
                if *gx > x || *gy > y { return k.say("get_liquidity", format!("{x} X and {y} Y gave {l} for {gx} X and {gy} Y, more than offered")) }
                let (ux, uy) = (k.exact_x(l)[2].clone(), k.exact_y(l).1);
                if k.up { k.fits_deposit("get_liquidity", l, gx, gy)? } else { k.fits_deposit("get_liquidity", l, if *gx == x { gx } else { &ux }, if *gy == y { gy } else { &uy })? }
                // the amount that is not the offered one must be the deposit's
                if *gx != x || p >= b { k.other_x("get_liquidity", l, gx)? }
                if *gy != y || p <= a { k.other_y("get_liquidity", l, gy)? }
                c.sample(|| format!("{x} X and {y} Y in [{lo}, {hi}] at {p}: liquidity {l} with {gx} X and {gy} Y"));
            }
            None => {
                // both estimates are made, so both have to fit
                let fx = lx.as_ref().map_or(true, |v| v.1 < max && k.exact_y(&v.1).1 < max);
                let fy = ly.as_ref().map_or(true, |v| *v < max && k.exact_x(v)[2] < max);
                if fx && fy { return k.say("get_liquidity", format!("{x} X and {y} Y refused although liquidity {most} fits")) }
            }
        }
        // ranges that are none
        let (bl, bh) = match r.below(6) { 0 => (hi, lo), 1 => (lo, lo), 2 => (-TICK - 1 - r.below(9) as i32, hi), 3 => (lo, TICK + 1 + r.below(9) as i32), 4 => (i32::MIN + r.below(2) as i32, hi), _ => (lo, i32::MAX - r.below(2) as i32) };
        let q = SqrtPrice(p);
        c.case(("no range", r.0 & 7, side)); c.count("not a range");
        if attempt_res(|| get_liquidity_by_x(token(&x), bl, bh, q, k.up)).is_some() || attempt_res(|| get_liquidity_by_y(token(&y), bl, bh, q, k.up)).is_some() || attempt_res(|| get_liquidity(token(&x), token(&y), bl, bh, q, k.up)).is_some() {
            return Err(format!("range [{bl}, {bh}] at price {p} accepted for {x} X and {y} Y"));
        }
    }
    Ok(())
}
