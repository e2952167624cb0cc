//! Workload: random histories of user, administrator and hostile calls against the contract's wasm.
use crate::api::*;
use crate::codec::*;
use crate::exact::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::state::*;
use num_traits::{One, ToPrimitive, Zero};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const ADMIN: Addr = [0xAD; 32];
pub fn user(i: u8) -> Addr { [i; 32] }
pub fn u256_max() -> N { (N::one() << 256) - 1 }
pub const ERRORS: [&str; 36] = ["NotAdmin", "NotFeeReceiver", "PoolAlreadyExist", "PoolNotFound", "TickAlreadyExist", "InvalidTickIndexOrTickSpacing", "PositionNotFound", "TickNotFound", "FeeTierNotFound", "PoolKeyNotFound", "AmountIsZero", "WrongLimit", "PriceLimitReached", "NoGainSwap", "InvalidTickSpacing", "FeeTierAlreadyExist", "PoolKeyAlreadyExist", "UnauthorizedFeeReceiver", "ZeroLiquidity", "RecoverableTransferError", "UnrecoverableTransferError", "TransferError", "TokensAreSame", "AmountUnderMinimumAmountOut", "InvalidFee", "NotEmptyTickDeinitialization", "InvalidInitTick", "InvalidInitSqrtPrice", "NotEnoughGasToExecute", "TickLimitReached", "InvalidTickIndex", "NoBalanceForTheToken", "FailedToChangeTokenBalance", "ReplyHandlingFailed", "InvalidVaraDepositAttempt", "InvalidVaraWithdrawAttempt"];
pub fn err_of(text: &str) -> Option<&'static str> {
    let i = text.find("InvariantError: ")? + 16;
    let t: String = text[i..].chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    ERRORS.iter().find(|e| **e == t).copied()
}

/// Learns the contract's own price of a tick by creating a pool there.
pub struct Probe { w: World, base: (ProgState, Chain), cache: HashMap<i32, Option<u128>>, pub lookups: u64 }
impl Probe {
    pub fn new(p: &Program) -> Result<Probe, String> {
        let mut w = World::new(p)?;
        let mut e = E::new(); e.str("New");
        w.init(ADMIN, e.addr(&ADMIN).u128(0).0)?;
        w.send(ADMIN, Op::AddTier(Tier { fee: 0, spacing: 1 }).payload(), 0, GAS, None);
        let base = w.snapshot();
        Ok(Probe { w, base, cache: HashMap::new(), lookups: 0 })
    }
    pub fn price(&mut self, t: i32) -> Option<u128> {
        if let Some(p) = self.cache.get(&t) { return *p }
        let tier = Tier { fee: 0, spacing: 1 };
        let guess = approx_price(t);
        let cand = if t >= MAX_TICK { vec![MAX_PRICE] } else { vec![(guess as f64 * 1.00002) as u128, guess, (guess as f64 * 1.000001) as u128 + 1] };
        let mut r = None;
        for g in cand {
            self.w.send(ADMIN, Op::CreatePool { a: user(1), b: user(2), tier, price: g.min(MAX_PRICE), tick: t }.payload(), 0, GAS, None);
            let q = self.w.pool_by(&user(1), &user(2), &tier);
            self.w.restore(&self.base);
            if let Ok(Ok(p)) = q { r = Some(p.price); break }
        }
        self.lookups += 1;
        self.cache.insert(t, r);
        r
    }
}
pub fn approx_price(t: i32) -> u128 { (1.0001f64.powf(t as f64 / 2.0) * 1e24) as u128 }

#[derive(Clone, Debug)]
pub struct Cfg {
    pub tokens: Vec<Addr>, pub users: Vec<Addr>, pub tiers: Vec<Tier>, pub lbits: u32, pub dep: N, pub center: i32, pub span: i32,
    pub dense: u32, pub ends: Vec<i32>, pub pools: usize, pub len: usize, pub fee: u128, pub hostile: u64,
}
#[derive(Clone, Debug)]
pub struct Step {
    pub by: Addr, pub op: Op, pub ok: Option<Ret>, pub err: String, pub events: Vec<Event>, pub bad_events: u32, pub stray: u32,
    pub native: (BTreeMap<Addr, u128>, BTreeMap<Addr, u128>), pub ts: u64, pub block: u32, pub reply_value: u128, pub syscalls: u32,
    pub reply: Vec<u8>, pub raw_events: Vec<Vec<u8>>,
    /// per token call: (token, from, to, amount, moved)
    pub moved: Vec<(Addr, Addr, Addr, N, bool)>,
}
pub struct Hist<'a> {
    pub w: &'a mut World, pub probe: &'a mut Probe, pub rng: Rng, pub cfg: Cfg, pub prop: &'static str,
    /// what honest token contracts hold for the exchange
    pub ledger: BTreeMap<Addr, N>,
    pub watched: BTreeSet<Addr>, pub touched: BTreeMap<Key, BTreeSet<i32>>,
    pub d: Dump, pub log: Vec<String>,
    /// transfers the token has not answered yet: block, caller, message
    pub pending: Vec<(u32, Addr, Sent)>,
}

/// relative frequencies of operation kinds
const KINDS: [&str; 17] = ["swap", "create", "remove", "claim", "transfer", "route", "collect", "receiver", "setfee", "tier+", "tier-", "pool", "vara+", "vara-", "deposit", "withdraw", "raw"];
fn weights(prop: &str) -> [u32; 17] {
    //           swap cre rem clm trf rou col rec fee t+ t- pool v+ v- dep wd raw
    match prop {
        "C03" | "C04" | "C05" | "C20" | "C32" => [60, 16, 5, 2, 1, 6, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 0],
        "C06" | "C07" | "C16" => [30, 34, 22, 4, 3, 4, 1, 0, 0, 1, 1, 2, 1, 1, 1, 1, 1],
        "C22" => [46, 18, 9, 4, 2, 10, 2, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1],
        "C09" => [45, 16, 8, 18, 3, 5, 2, 0, 2, 0, 0, 1, 1, 1, 1, 1, 0],
        "C10" => [45, 12, 4, 4, 0, 8, 14, 4, 6, 0, 0, 2, 1, 1, 1, 1, 0],
        "C11" => [14, 14, 10, 10, 10, 4, 8, 6, 5, 5, 5, 4, 3, 3, 3, 4, 1],
        "C12" => [12, 30, 20, 12, 24, 2, 1, 0, 0, 0, 0, 2, 1, 1, 1, 1, 0],
        "C13" => [10, 6, 3, 1, 1, 2, 1, 3, 1, 14, 14, 40, 1, 1, 1, 1, 1],
        "C14" => [24, 20, 8, 6, 5, 10, 4, 3, 3, 5, 5, 6, 3, 5, 3, 5, 8],
        "C15" => [14, 30, 6, 1, 1, 50, 0, 0, 0, 1, 1, 2, 1, 1, 1, 1, 0],
        "C25" => [14, 10, 5, 4, 2, 6, 4, 1, 0, 1, 1, 2, 22, 26, 12, 14, 1],
        "C28" => [26, 18, 10, 10, 3, 14, 4, 1, 1, 1, 1, 2, 4, 4, 6, 8, 1],
        "C26" => [40, 20, 6, 5, 1, 12, 3, 1, 6, 3, 1, 4, 2, 3, 5, 5, 0],
        "C24" => [36, 22, 12, 12, 2, 6, 3, 2, 1, 1, 1, 4, 1, 1, 1, 1, 0],
        _ => [34, 20, 9, 8, 4, 6, 4, 2, 2, 2, 2, 3, 2, 2, 3, 4, 1],
    }
}
impl Cfg {
    pub fn random(r: &mut Rng, prop: &str) -> Cfg {
        let mut tokens: Vec<Addr> = vec![];
        let mut pool: Vec<Addr> = vec![{ let mut a = [0x20; 32]; a[31] = 0x60; a }, { let mut a = [0x20; 32]; a[31] = 0x61; a }, { let mut a = [0xf0; 32]; a[31] = 0x62; a }, { let mut a = [0x7f; 32]; a[31] = 0x63; a }];
        if prop == "C25" || r.chance(1, 4) { pool.insert(0, ZERO) }
        let nt = 3 + r.below(2) as usize;
        if pool[0] == ZERO { tokens.push(pool.remove(0)) }
        while tokens.len() < nt { let i = r.below(pool.len() as u64) as usize; tokens.push(pool.remove(i)) }
        tokens.sort();
        let fees = [0u128, 100_000_000, 500_000_000, 3_000_000_000, 10_000_000_000, 500_000_000_000, 990_000_000_000, 1, 6_000_000_000];
        let spacings = [1u16, 1, 2, 3, 5, 7, 10, 60, 99, 100];
        let mut tiers = vec![];
        for _ in 0..1 + r.below(3) { let t = Tier { fee: if r.chance(1, 8) { r.below(1_000_000_000_000) as u128 } else { *r.pick(&fees) }, spacing: if r.chance(1, 6) { 1 + r.below(100) as u16 } else { *r.pick(&spacings) } }; if !tiers.contains(&t) { tiers.push(t) } }
        let lbits = *r.pick(&[24u32, 34, 44, 60, 60, 80, 100, 130, 180]);
        let extreme = prop == "C26";
        let lbits = if extreme { *r.pick(&[60u32, 130, 180, 200, 215, 225, 232, 238]) } else { lbits };
        let dep: N = if extreme && r.chance(1, 2) { u256_max() - r.below(5) } else { N::one() << (lbits + 70).min(236) };
        let center = match r.below(10) + if extreme && r.chance(1, 2) { 5 } else { 0 } { 0..=4 => r.range(-300, 300), 5 | 6 => r.range(-20000, 20000), 7 => r.range(-200_000, 200_000), 8 | 10 | 12 => MAX_TICK as i64 - r.range(0, 3000), _ => -(MAX_TICK as i64) + r.range(0, 3000) } as i32;
        let span = *r.pick(&[2, 4, 8, 30, 120, 300, 1500]);
        let users = (1..=4).map(user).collect();
        // crowded pool: a ladder of positions on neighbouring ticks, and an account with many tokens
        let dense = if prop != "C02" && r.chance(1, 14) { 20 + r.below(130) as u32 } else { 0 };
        Cfg { dense, tokens, users, tiers, lbits, dep, center, span, ends: vec![], pools: 1 + r.below(3) as usize, len: if dense > 0 { 12 + r.below(20) as usize } else { 40 + r.below(50) as usize },
            fee: *r.pick(&[0u128, 10_000_000_000, 200_000_000_000, 1_000_000_000_000, 333_333_333_333, 500_000_000_000]), hostile: if extreme { 20 } else { *r.pick(&[2u64, 5, 12]) } }
    }
}
pub fn snap(t: i32, s: u16) -> i32 { let s = s as i32; t.div_euclid(s) * s }
pub fn max_tick(s: u16) -> i32 { MAX_TICK / s as i32 * s as i32 }

impl<'a> Hist<'a> {
    pub fn start(w: &'a mut World, base: &(ProgState, Chain), probe: &'a mut Probe, seed: u64, prop: &'static str) -> Result<Hist<'a>, String> {
        w.restore(base);
        let mut rng = Rng::new(seed);
        let cfg = Cfg::random(&mut rng, prop);
        let mut e = E::new(); e.str("New");
        // whoever deploys the program is not its administrator by that
        let creator = *rng.clone().pick(&[ADMIN, user(1), user(2), user(0x77)]);
        w.init(creator, e.addr(&ADMIN).u128(cfg.fee).0)?;
        let watched: BTreeSet<Addr> = cfg.users.iter().copied().chain([ADMIN, user(0xEE), PROGRAM]).collect();
        let mut h = Hist { w, probe, rng, cfg, prop, ledger: BTreeMap::new(), watched, touched: BTreeMap::new(), d: Dump::default(), log: vec![], pending: vec![] };
        for t in h.cfg.tiers.clone() { h.apply(ADMIN, Op::AddTier(t)); }
        let mut users = h.cfg.users.clone(); users.push(ADMIN);
        for u in users {
            let poor = h.rng.chance(1, 6);
            for t in h.cfg.tokens.clone() {
                let amt = if poor { h.rng.log(h.cfg.lbits) } else { h.cfg.dep.clone() - h.rng.below(1000) };
                let op = if t == ZERO { Op::DepositVara(amt.to_u128().unwrap_or(1 << 90).min(1 << 90)) } else { Op::Deposit { token: t, amount: amt } };
                h.apply(u, op);
            }
        }
        let mut t = 0;
        while h.d_keys().len() < h.cfg.pools && t < 8 { let op = h.gen_pool(false); h.apply(*h.rng.clone().pick(&[ADMIN, user(1)]), op); t += 1 }
        h.d = dump(h.w, &h.watched)?;
        let keys = h.d.keys.clone();
        let s = keys.first().map_or(1, |k| k.tier.spacing) as i32;
        for _ in 0..6 { let x = h.cfg.center + h.rng.range(-(h.cfg.span as i64), h.cfg.span as i64) as i32 * s; h.cfg.ends.push(x) }
        // most histories start with a wide position so that trading is possible
        for k in keys {
            for _ in 0..1 + h.rng.below(2) {
                let s = k.tier.spacing as i32;
                let w = *h.rng.pick(&[h.cfg.span, h.cfg.span * 4, 1000, 100_000]) * s;
                let m = max_tick(k.tier.spacing);
                let (lo, hi) = (snap((h.cfg.center - w).max(-m), k.tier.spacing).max(-m), snap((h.cfg.center + w).min(m), k.tier.spacing));
                if lo >= hi { continue }
                let l = (N::one() << h.cfg.lbits) + h.rng.log(h.cfg.lbits);
                let by = *h.rng.clone().pick(&h.cfg.users);
                h.apply(by, Op::Create { key: k, lower: lo, upper: hi, liquidity: l, min: 0, max: u128::MAX });
                h.touched.entry(k).or_default().extend([lo, hi]);
            }
        }
        h.d = dump(h.w, &h.watched)?;
        if h.cfg.dense > 0 { h.crowd(); h.d = dump(h.w, &h.watched)? }
        Ok(h)
    }
    fn crowd(&mut self) {
        let Some(k) = self.d.keys.first().copied() else { return };
        let s = k.tier.spacing as i32; let m = max_tick(k.tier.spacing);
        let step = *self.rng.pick(&[1i32, 1, 2, 5]); let same = self.rng.chance(1, 2);
        let l0 = (N::one() << self.cfg.lbits.saturating_sub(4)) + self.rng.log(self.cfg.lbits.saturating_sub(4));
        let few = 1 + self.rng.below(4) as usize;
        for i in 0..self.cfg.dense as i32 {
            let lo = (self.d.pools[&k].pool.tick + (i - self.cfg.dense as i32 / 2) * step * s).clamp(-m, m - s);
            let hi = (lo + (1 + self.rng.below(if same { 1 } else { 6 }) as i32) * step * s).min(m);
            let l = if same { l0.clone() } else { N::one() + self.rng.log(self.cfg.lbits) };
            let by = self.cfg.users[i as usize % few];
            self.apply(by, Op::Create { key: k, lower: lo, upper: hi, liquidity: l, min: 0, max: u128::MAX });
            self.touched.entry(k).or_default().extend([lo, hi]);
        }
        for i in 0..self.cfg.dense / 4 { let mut t = [0x99; 32]; t[0] = i as u8; self.apply(user(1), Op::Deposit { token: t, amount: n(1 + i) }); }
    }
    fn d_keys(&mut self) -> Vec<Key> { let r = self.w.pool_keys(100, 0).map(|k| k.0).unwrap_or_default(); self.w.end_queries(); r }
    pub fn note(&mut self, s: String) { self.log.push(shorten(&s)) }

    /// Executes a call to its end; token contracts are honest here.
    pub fn apply(&mut self, by: Addr, op: Op) -> Step { self.apply_gas(by, op, None, true) }
    pub fn apply_gas(&mut self, by: Addr, op: Op, trap_at: Option<u32>, honest: bool) -> Step {
        self.w.c.events.clear(); self.w.c.other.clear(); self.w.c.to_tokens.clear(); self.w.c.signals.clear(); self.w.c.woken.clear();
        { let b = self.w.c.native.entry(by).or_insert(1 << 100); if *b < op.value() { *b = op.value() } }
        let n0 = self.w.c.native.clone();
        let (id, ex) = self.w.send(by, op.payload(), op.value(), GAS, trap_at);
        let mut moved = vec![]; let mut stray = 0;
        for _ in 0..4 {
            let mut sent = std::mem::take(&mut self.w.c.to_tokens);
            if sent.len() > 1 && self.rng.chance(1, 2) { sent.reverse() }
            for s in sent {
                let mut d = D(&s.payload);
                let parse = (|| -> R<(Addr, Addr, N)> { if d.str()? != "Vft" || d.str()? != "TransferFrom" { return Err(Bad) } let r = (d.addr()?, d.addr()?, d.u256()?); d.end()?; Ok(r) })();
                let Ok((from, to, amt)) = parse else { stray += 1; continue };
                let l = self.ledger.entry(s.dest).or_insert_with(N::zero);
                let good = if !honest { false } else if to == PROGRAM && from == by {
                    // no token has a supply above 2^256-1
                    let fits = self.prop == "C26" || &*l + &amt <= u256_max(); if fits { *l += &amt } fits } else if from == PROGRAM && *l >= amt { *l -= &amt; true } else { false };
                moved.push((s.dest, from, to, amt, good));
                let mut e = E::new(); e.str("Vft"); e.str("TransferFrom");
                self.w.deliver_reply(TokenReply { to: s.id, from: s.dest, payload: e.bool(good).0, code: [0, 1, 0, 0], gas: s.deposit }, None);
            }
            while !self.w.c.woken.is_empty() { self.w.step_woken(0, None, None); }
        }
        self.w.c.signals.clear();
        let r = self.w.c.done.remove(&id);
        let (mut ok, mut err) = (None, String::new());
        let mut reply_value = 0; let mut reply = vec![]; let mut raw_events = vec![];
        match r {
            None => err = "no reply".into(),
            Some(r) if r.ok => { reply_value = r.value; reply = r.payload.clone(); match op.decode(&r.payload) { Ok(x) => ok = Some(x), Err(e) => err = format!("replied without failing, but: {e}") } }
            Some(r) => err = r.text,
        }
        let mut events = vec![]; let mut bad_events = 0;
        for s in std::mem::take(&mut self.w.c.events) { raw_events.push(s.payload.clone()); match d_event(&s.payload) { Ok(e) => events.push(e), Err(_) => bad_events += 1 } }
        stray += self.w.c.other.len() as u32;
        let line = format!("{} {:?} -> {}", by[0], op, if let Some(r) = &ok { brief(r) } else { format!("FAIL {err}") });
        self.note(line);
        Step { by, op, ok, err, events, bad_events, stray, native: (n0, self.w.c.native.clone()), ts: self.w.c.ts, block: self.w.c.block, reply_value, syscalls: ex.syscalls, reply, raw_events, moved }
    }
    /// Runs `f` on a branch of the current state.
    pub fn branch<T>(&mut self, f: impl FnOnce(&mut Hist) -> T) -> T {
        let s = self.w.snapshot(); let l = self.ledger.clone(); let d = self.d.clone(); let n = self.log.len(); let r = self.rng.clone(); let p = self.pending.clone();
        let v = f(self);
        self.w.restore(&s); self.ledger = l; self.d = d; self.log.truncate(n); self.rng = r; self.pending = p;
        v
    }
    pub fn price(&mut self, t: i32) -> Option<u128> { self.probe.price(t) }

    // ---------------------------------------------------------------- generation
    pub fn weird(&mut self) -> N {
        match self.rng.below(9) { 0 => N::zero(), 1 => N::one(), 2 => n(u64::MAX), 3 => N::one() << 64, 4 => n(u128::MAX), 5 => N::one() << 128, 6 => N::one() << 255, 7 => u256_max() - self.rng.below(3), _ => self.rng.log(256) }
    }
    pub fn weird128(&mut self) -> u128 { self.weird().to_u128().unwrap_or(u128::MAX) }
    pub fn weird_tick(&mut self) -> i32 { *self.rng.clone().pick(&[i32::MIN, i32::MAX, MAX_TICK, -MAX_TICK, MAX_TICK + 1, -MAX_TICK - 1, 0, 1, -1, 1 << 20, 221_800, -221_800]) + { self.rng.next(); 0 } }
    pub fn any_user(&mut self) -> Addr { let u = self.cfg.users.clone(); if self.rng.chance(1, 6) { ADMIN } else { *self.rng.pick(&u) } }
    pub fn any_key(&mut self) -> Option<Key> { let k = self.d.keys.clone(); if k.is_empty() { None } else { Some(*self.rng.pick(&k)) } }
    pub fn gen_tier(&mut self) -> Tier {
        let known = self.cfg.tiers.clone();
        if !known.is_empty() && self.rng.chance(1, 2) { return *self.rng.pick(&known) }
        let mut t = Tier { fee: *self.rng.pick(&[0, 1, 3_000_000_000, 10_000_000_000, 999_999_999_999]), spacing: *self.rng.pick(&[1u16, 2, 3, 10, 50, 100]) };
        if self.rng.chance(1, 10) { t.fee = *self.rng.pick(&[1_000_000_000_000u128, 1_000_000_000_001, u128::MAX]) }
        if self.rng.chance(1, 10) { t.spacing = *self.rng.pick(&[0u16, 101, 65535]) }
        t
    }
    pub fn gen_pool(&mut self, wild: bool) -> Op {
        let ts = self.cfg.tokens.clone();
        let a = *self.rng.pick(&ts); let mut b = *self.rng.pick(&ts);
        if a == b && !self.rng.chance(1, 12) { b = *ts.iter().find(|t| **t != a).unwrap() }
        let tier = if wild && self.rng.chance(1, 3) { self.gen_tier() } else { let k = self.cfg.tiers.clone(); *self.rng.pick(&k) };
        let s = tier.spacing.max(1);
        let m = max_tick(s.min(100));
        let tick = snap(self.cfg.center + self.rng.range(-3, 3) as i32 * s as i32, s).clamp(-m, m - s as i32);
        let mut tick = if wild && self.rng.chance(1, 6) { self.rng.range(-(MAX_TICK as i64), MAX_TICK as i64) as i32 } else { tick };
        let mut price = self.price(tick).unwrap_or_else(|| approx_price(tick));
        let next = tick + s as i32;
        if self.rng.chance(1, 3) { if let Some(q) = self.price(next) { price = if q > price { match self.rng.below(4) { 0 => q - 1, 1 => if wild { q } else { q - 1 }, _ => price + (self.rng.u128() % (q - price)) } } else { price } } }
        if wild { match self.rng.below(14) { 0 => price = price.wrapping_sub(1), 1 => price = self.weird128(), 2 => tick = self.weird_tick(), 3 => tick += 1, _ => {} } }
        Op::CreatePool { a, b, tier, price, tick }
    }
    pub fn gen_create(&mut self, k: Key) -> Op {
        let s = k.tier.spacing as i32; let m = max_tick(k.tier.spacing);
        let p = self.d.pools[&k].pool.clone();
        let mut end = |h: &mut Self| -> i32 {
            let t = match h.rng.below(10) {
                0..=4 => *h.rng.clone().pick(&h.cfg.ends) + { h.rng.next(); 0 },
                5 => p.tick, 6 => p.tick + s, 7 => p.tick - s,
                8 => p.tick + h.rng.range(-260, 260) as i32 * s,
                _ => p.tick + h.rng.range(-(h.cfg.span as i64), h.cfg.span as i64) as i32 * s,
            };
            if h.rng.chance(1, 25) { return if h.rng.chance(1, 2) { m } else { -m } }
            if h.rng.chance(1, 150) { return h.weird_tick() }
            if h.rng.chance(1, 150) { return t + 1 }
            snap(t, k.tier.spacing).clamp(-m, m)
        };
        let (a, b) = (end(self), end(self));
        let (lower, upper) = if self.rng.chance(1, 40) { (a.max(b), a.min(b)) } else { (a.min(b), a.max(b)) };
        let mut liquidity = if self.rng.chance(1, 3) { self.rng.log(self.cfg.lbits) } else { (N::one() << self.cfg.lbits) + self.rng.log(self.cfg.lbits) };
        // liquidity that differs by many orders of magnitude between neighbouring ranges
        if self.rng.chance(1, 6) { let b = self.rng.below(60) as u32; liquidity = (N::one() << (self.cfg.lbits + b).min(230)) + self.rng.log(self.cfg.lbits) }
        if self.rng.chance(1, 40) { liquidity = self.weird() }
        if self.rng.chance(1, 60) { liquidity = u256_max() / (443_637 / s) - 1 + self.rng.below(3) }
        // a neighbour of exactly the same size, so that changes cancel out on a shared tick
        let (mut lower, mut upper) = (lower, upper);
        if self.rng.chance(1, 5) {
            let mine: Vec<_> = self.d.positions().map(|q| q.2).filter(|q| q.key == k).map(|q| (q.lower, q.upper, q.liquidity.clone())).collect();
            if !mine.is_empty() {
                let (lo, hi, l) = self.rng.pick(&mine).clone();
                let far = (1 + self.rng.below(30) as i32) * s;
                match self.rng.below(3) {
                    0 if hi < m => { lower = hi; upper = (hi + far).min(m) }
                    1 if lo > -m => { lower = (lo - far).max(-m); upper = lo }
                    _ => { lower = lo; upper = hi }
                }
                liquidity = l;
            }
        }
        let (min, max) = match self.rng.below(if self.prop == "C15" { 8 } else { 20 }) { 0 => (p.price, p.price), 1 => (p.price + 1, u128::MAX), 2 => (0, p.price - 1), 3 => (p.price, u128::MAX), 4 => (0, p.price), _ => (0, u128::MAX) };
        Op::Create { key: k, lower, upper, liquidity, min, max }
    }
    /// A price worth stopping at.
    pub fn aim(&mut self, k: &Key, down: bool) -> u128 {
        let pd = self.d.pools[k].clone();
        let s = k.tier.spacing as i32; let m = max_tick(k.tier.spacing);
        let far = if self.cfg.dense > 0 && self.rng.chance(1, 2) { 200 } else { 4 };
        let near: Vec<u128> = if down { pd.ticks.range(..=pd.pool.tick).rev().take(far).map(|t| t.1.price).filter(|q| *q < pd.pool.price).collect() } else { pd.ticks.range(pd.pool.tick + 1..).take(far).map(|t| t.1.price).collect() };
        let p = pd.pool.price;
        match self.rng.below(10) {
            0..=4 if !near.is_empty() => *self.rng.pick(&near),
            5 => { // the end of the search range
                let i = pd.pool.tick / s + if down { -256 } else { 256 }; let t = (i * s).clamp(-m, m); self.price(t).unwrap_or(p) }
            6 => { let t = (pd.pool.tick + if down { -1 } else { 1 } * self.rng.range(0, 6) as i32 * s).clamp(-m, m); self.price(t).unwrap_or(p) }
            7 => { let t = if down { -m } else { m }; self.price(t).unwrap_or(p) }
            8 => { let f = (p >> 20) * (1 + self.rng.below(4000) as u128) / 16; if down { p.saturating_sub(f).max(MIN_PRICE) } else { (p + f).min(MAX_PRICE) } }
            _ => { let f = 1 + self.rng.below(50) as u128; if down { p - f } else { p + f } }
        }
    }
    pub fn gen_amount(&mut self, k: &Key, down: bool, by_in: bool, by: &Addr) -> N {
        let pd = self.d.pools[k].clone();
        match self.rng.below(14) {
            0 => n(1 + self.rng.below(4)),
            1 => { let t = if down == by_in { k.x } else { k.y }; let b = self.d.bal(by, &t); if b.is_zero() { n(7) } else { b + self.rng.below(3) - 1 } }
            2 => self.rng.log((self.cfg.lbits + 30).min(250)),
            3..=5 => self.rng.log(self.cfg.lbits.saturating_sub(17).max(3)),
            _ => {
                let t = self.aim(k, down);
                let segs = path(&pd.pool, k.tier.spacing, &pd.ticks, t, down);
                let v = if by_in { let c = cost_to(&segs, down, k.tier.fee); c } else { gain_to(&segs, down) };
                let v = match self.rng.below(9) { 0..=3 => v + self.rng.range(-2, 2), 4 => v + self.rng.range(-20, 40), 8 => { let e: N = &v / 1_000_000_000_000_000u64; v + (e * self.rng.below(4000)) / 1000u32 } 5 => (v * self.rng.below(1000)) / 1000u32, _ => v };
                if v <= N::zero() { n(1 + self.rng.below(3)) } else { v.min(u256_max()) }
            }
        }
    }
    pub fn gen_swap(&mut self, k: Key, by: &Addr) -> Op {
        let x_to_y = self.rng.chance(1, 2); let by_in = self.rng.chance(3, 5);
        // across many ticks of a crowded pool
        if self.cfg.dense > 0 && self.rng.chance(1, 3) {
            let pd = self.d.pools[&k].clone();
            let (lo, hi) = (pd.ticks.range(..=pd.pool.tick).count(), pd.ticks.range(pd.pool.tick + 1..).count());
            let down = lo > hi; let c = lo.max(hi);
            if c > 3 {
                let far = c / 2 + self.rng.below(c as u64 / 2) as usize;
                let t = if down { pd.ticks.range(..=pd.pool.tick).rev().nth(far) } else { pd.ticks.range(pd.pool.tick + 1..).nth(far) };
                let t = t.map_or(pd.pool.price, |t| t.1.price);
                let segs = path(&pd.pool, k.tier.spacing, &pd.ticks, t, down);
                let v = if by_in { cost_to(&segs, down, k.tier.fee) } else { gain_to(&segs, down) };
                let amount = (v + self.rng.range(-1, 400)).max(N::one()).min(u256_max());
                return Op::Swap { key: k, x_to_y: down, amount, by_in, limit: if down { MIN_PRICE } else { MAX_PRICE } };
            }
        }
        let amount = self.gen_amount(&k, x_to_y, by_in, by);
        let amount = if self.rng.chance(1, 60) { self.weird() } else if self.rng.chance(1, 50) { N::zero() } else { amount };
        let limit = match self.rng.below(12) {
            0..=5 => if x_to_y { MIN_PRICE } else { MAX_PRICE },
            6..=9 => { let t = self.aim(&k, x_to_y); match self.rng.below(5) { 0 => t + 1, 1 => t - 1, _ => t } }
            10 => { let p = self.d.pools[&k].pool.price; if x_to_y { p - 1 - self.rng.below(1 << 40) as u128 } else { p + 1 + self.rng.below(1 << 40) as u128 } }
            _ => match self.rng.below(5) { 0 => self.aim(&k, !x_to_y), 1 => self.d.pools[&k].pool.price, 2 => self.weird128(), 3 => MIN_PRICE - 1, _ => MAX_PRICE + 1 },
        };
        // a limit that is exactly a tick, with an amount that is exactly enough to get there
        if self.rng.chance(1, 8) {
            let t = self.aim(&k, x_to_y);
            let pd = self.d.pools[&k].clone();
            let segs = path(&pd.pool, k.tier.spacing, &pd.ticks, t, x_to_y);
            let a = if by_in { cost_to(&segs, x_to_y, k.tier.fee) } else { gain_to(&segs, x_to_y) };
            if a > N::zero() && a <= u256_max() { return Op::Swap { key: k, x_to_y, amount: a, by_in, limit: t } }
        }
        Op::Swap { key: k, x_to_y, amount, by_in, limit }
    }
    pub fn gen_route(&mut self, by: &Addr) -> Op {
        let keys = self.d.keys.clone();
        let mut hops = vec![];
        if !keys.is_empty() {
            let nh = if self.rng.chance(1, 14) { 5 + self.rng.below(9) } else { self.rng.below(4) + if self.rng.chance(1, 12) { 0 } else { 1 } };
            let mut tok: Option<Addr> = None;
            for _ in 0..nh {
                let c: Vec<Key> = keys.iter().filter(|k| tok.map_or(true, |t| k.x == t || k.y == t)).copied().collect();
                let k = if c.is_empty() || self.rng.chance(1, 12) { *self.rng.pick(&keys) } else { *self.rng.pick(&c) };
                let d = match tok { Some(t) if k.x == t => true, Some(t) if k.y == t => false, _ => self.rng.chance(1, 2) };
                tok = Some(if d { k.y } else { k.x });
                hops.push((k, d));
            }
        }
        let amount = match hops.first() { Some(_) if self.rng.chance(1, 15) => N::zero(), Some((k, d)) => { let (k, d) = (*k, *d); self.gen_amount(&k, d, true, by) } None => n(5) };
        let q = self.w.quote_route(&amount, &hops); self.w.end_queries();
        let out = match q { Ok(Ok(v)) => v, _ => n(self.rng.below(1000)) };
        let one = 1_000_000_000_000u128;
        let slippage = match self.rng.below(8) { 0 => 0, 1 => one, 2 => one - 1, 3 => self.rng.below(1_000_000_000_000) as u128, 4 => 10_000_000_000, 5 => 1, 6 => 500_000_000_000, _ => self.rng.below(20_000_000_000) as u128 };
        let keep = one - slippage;
        // the expectation that makes the minimum meet the output, give or take one
        let exp: N = match self.rng.below(6) { 0 => N::zero(), 1 => out.clone(), _ if keep == 0 => out.clone() + self.rng.below(1000), _ => (&out * n(one)) / n(keep) + self.rng.range(-2, 2) };
        let exp = exp.clamp(N::zero(), u256_max());
        if self.rng.chance(1, 30) { return Op::Route { amount: self.weird(), expected: self.weird(), slippage: self.weird128(), hops } }
        Op::Route { amount, expected: exp, slippage, hops }
    }
    pub fn gen_raw(&mut self) -> Op {
        let by = self.any_user();
        let mut b = match self.gen(true).1 { Op::Raw(b) => b, o => o.payload() };
        match self.rng.below(6) {
            5 => { let mut e = E::new(); e.str("New"); b = e.addr(&by).u128(0).0 }
            0 => { let k = 1 + self.rng.below(b.len().min(4).max(1) as u64) as usize; let l = b.len(); b.truncate(l - k.min(l)) }
            1 => b = vec![],
            2 => { b = E::call("Nothing").raw(&b).0 }
            3 => { let mut e = E::new(); e.str("Svc"); b = e.raw(&b[8..]).0 }
            _ => { let mut e = E::call("Swap"); if let Some(k) = self.any_key() { e = e_key(e, &k) } b = e.u8(2).u256(&n(5)).u8(1).u128(MIN_PRICE).0 }
        }
        // a message cut down to nothing but the route is a well-formed call of an argument-less method
        if [E::call("DepositVara").0].contains(&b) { b.pop(); }
        Op::Raw(b)
    }
    pub fn gen(&mut self, no_raw: bool) -> (Addr, Op) {
        let mut w = weights(self.prop);
        if no_raw { w[16] = 0 }
        let kind = KINDS[self.rng.weighted(&w)];
        let mut by = self.any_user();
        let owned: Vec<(Addr, u32)> = self.d.positions().map(|(u, i, _)| (*u, i as u32)).collect();
        let mut pick_pos = |h: &mut Self, by: &mut Addr| -> u32 {
            if owned.is_empty() || h.rng.chance(1, 20) { return h.rng.below(4) as u32 * if h.rng.chance(1, 8) { u32::MAX / 3 } else { 1 } }
            let (u, i) = *h.rng.pick(&owned); *by = u; i
        };
        let key = self.any_key();
        let op = match (kind, key) {
            ("swap", Some(k)) => self.gen_swap(k, &by),
            ("create", Some(k)) => self.gen_create(k),
            ("remove", _) => Op::Remove(pick_pos(self, &mut by)),
            ("claim", _) => Op::Claim(pick_pos(self, &mut by)),
            ("transfer", _) => { let index = pick_pos(self, &mut by); Op::Transfer { index, to: self.any_user() } }
            ("route", _) => self.gen_route(&by),
            ("collect", Some(k)) => { if self.rng.chance(4, 5) { by = self.d.pools[&k].pool.receiver } Op::CollectProtocol(k) }
            ("receiver", Some(k)) => { if self.rng.chance(4, 5) { by = ADMIN } Op::SetReceiver { key: k, to: self.any_user() } }
            ("setfee", _) if self.prop == "C26" => Op::SetProtocolFee({ by = ADMIN; match self.rng.below(3) { 0 => self.weird128(), 1 => 1_000_000_000_000 + self.rng.below(3) as u128, _ => self.rng.below(1_000_000_000_000) as u128 } }),
            ("setfee", _) => { if self.rng.chance(4, 5) { by = ADMIN } Op::SetProtocolFee(*self.rng.pick(&[0u128, 1, 10_000_000_000, 200_000_000_000, 500_000_000_000, 1_000_000_000_000, 123_456_789_012])) }
            ("tier+", _) => { if self.rng.chance(4, 5) { by = ADMIN } let t = self.gen_tier(); if self.rng.chance(1, 2) && !self.cfg.tiers.contains(&t) { self.cfg.tiers.push(t); if self.cfg.tiers.len() > 6 { self.cfg.tiers.remove(0); } } Op::AddTier(t) }
            ("tier-", _) => { if self.rng.chance(4, 5) { by = ADMIN } Op::RemoveTier(self.gen_tier()) }
            ("vara+", _) => Op::DepositVara(match self.rng.below(4) { 0 => 0, 1 => 1, _ => self.rng.log(90).to_u128().unwrap() }),
            ("vara-", _) => { let b = self.d.bal(&by, &ZERO); Op::WithdrawVara(match self.rng.below(7) { 0 => None, 1 => Some(b), 2 => Some(b + 1), 3 => Some(self.weird()), 4 => Some(N::zero()), _ => Some(self.rng.log(70)) }) }
            ("deposit", _) => { let ts = self.cfg.tokens.clone(); let a = *self.rng.pick(&ts); let b = *self.rng.pick(&ts);
                let (x, y) = (self.rng.log(self.cfg.lbits), self.rng.log(self.cfg.lbits));
                let (x, y) = match self.rng.below(10) { 0 => (N::zero(), y), 1 => (x, N::zero()), 2 => (u256_max(), y), _ => (x, y) };
                if self.rng.chance(1, 2) { Op::Deposit { token: a, amount: x } } else { Op::DepositPair { a: (a, x), b: (b, y) } } }
            ("withdraw", _) => { let ts = self.cfg.tokens.clone(); let a = *self.rng.pick(&ts); let b = *self.rng.pick(&ts);
                let mut amt = |h: &mut Self, t: &Addr| { let v = h.d.bal(&by, t); match h.rng.below(12) { 0 => None, 1 => Some(v), 2 => Some(v + 1u8), 3 => Some(N::zero()), 4 => Some(h.weird()), _ => Some(h.rng.log(h.cfg.lbits)) } };
                let (x, y) = (amt(self, &a), amt(self, &b));
                if self.rng.chance(1, 2) { Op::Withdraw { token: a, amount: x } } else { Op::WithdrawPair { a: (a, x), b: (b, y) } } }
            ("raw", _) => return (by, self.gen_raw()),
            _ => self.gen_pool(true),
        };
        let op = if self.rng.below(100) < self.cfg.hostile { self.spoil(op) } else { op };
        (by, op)
    }
    /// Replaces one field by something hostile.
    pub fn spoil(&mut self, op: Op) -> Op {
        let tok = |h: &mut Self, k: Key| -> Key {
            match h.rng.below(4) { 0 => Key { x: k.y, y: k.x, tier: k.tier }, 1 => Key { tier: h.gen_tier(), ..k }, 2 => Key { x: user(0x55), ..k }, _ => Key { tier: Tier { spacing: 0, ..k.tier }, ..k } }
        };
        match op {
            Op::Swap { key, x_to_y, amount, by_in, limit } => match self.rng.below(3) { 0 => Op::Swap { key: tok(self, key), x_to_y, amount, by_in, limit }, 1 => Op::Swap { key, x_to_y, amount: self.weird(), by_in, limit }, _ => Op::Swap { key, x_to_y, amount, by_in, limit: self.weird128() } },
            Op::Create { key, lower, upper, liquidity, min, max } => match self.rng.below(5) {
                0 => Op::Create { key: tok(self, key), lower, upper, liquidity, min, max }, 1 => Op::Create { key, lower: self.weird_tick(), upper, liquidity, min, max },
                2 => Op::Create { key, lower, upper: self.weird_tick(), liquidity, min, max }, 3 => Op::Create { key, lower, upper, liquidity: self.weird(), min, max }, _ => Op::Create { key, lower, upper: lower, liquidity, min, max } },
            Op::Transfer { index, .. } => Op::Transfer { index, to: *self.rng.pick(&[PROGRAM, user(0xEE)]) },
            Op::CollectProtocol(k) => Op::CollectProtocol(tok(self, k)),
            Op::SetReceiver { key, to } => Op::SetReceiver { key: tok(self, key), to },
            Op::Route { amount, expected, slippage, mut hops } => { if !hops.is_empty() { let i = self.rng.below(hops.len() as u64) as usize; let k = hops[i].0; hops[i].0 = tok(self, k) } Op::Route { amount, expected, slippage, hops } }
            o => o,
        }
    }
    pub fn maybe_advance(&mut self) {
        if !self.rng.chance(1, 2) { return }
        let b = if self.rng.chance(1, 40) { *self.rng.pick(&[28_800u32, 1_430_000, 10_512_000, 105_120_000]) } else { *self.rng.pick(&[1u32, 1, 2, 10, 1000]) };
        // tokens answer while the call still waits
        while let Some(i) = self.pending.iter().position(|p| p.0 + 90 < self.w.c.block + b) { self.settle(i) }
        self.w.advance(b)
    }
    /// Now and then a token takes its time: the call stays open while others go on. True if something happened.
    pub fn slow_tokens(&mut self) -> bool {
        let mut did = false;
        if !self.pending.is_empty() && self.rng.chance(1, 4) { let i = self.rng.below(self.pending.len() as u64) as usize; self.settle(i); did = true }
        if self.rng.chance(1, 16) { self.pend(); did = true }
        did
    }
    pub fn pend(&mut self) {
        let by = self.any_user();
        let mut ts: Vec<Addr> = self.cfg.tokens.iter().filter(|t| **t != ZERO).copied().chain([[0x77; 32]]).collect();
        self.rng.shuffle(&mut ts);
        let amt = |h: &mut Self, t: &Addr, out: bool| { let b = h.d.bal(&by, t); let v = h.rng.log(40) + 1u32; if out { v.min(b / 2) } else { v } };
        let (x, y) = (ts[0], ts[1 % ts.len()]);
        let op = match self.rng.below(5) {
            0 | 1 => Op::Deposit { token: x, amount: amt(self, &x, false) },
            2 => Op::Withdraw { token: x, amount: Some(amt(self, &x, true)) },
            3 => Op::DepositPair { a: (x, amt(self, &x, false)), b: (y, amt(self, &y, false)) },
            _ => Op::WithdrawPair { a: (x, Some(amt(self, &x, true))), b: (y, Some(amt(self, &y, true))) },
        };
        self.w.c.to_tokens.clear();
        self.w.send(by, op.payload(), 0, GAS, None);
        let block = self.w.c.block;
        let sent = std::mem::take(&mut self.w.c.to_tokens);
        self.note(format!("{} {op:?} -> {} transfers stay unanswered", by[0], sent.len()));
        self.pending.extend(sent.into_iter().map(|s| (block, by, s)));
        self.w.c.events.clear(); self.w.c.other.clear(); self.w.c.signals.clear();
    }
    pub fn settle(&mut self, i: usize) {
        let (_, by, s) = self.pending.remove(i);
        let mut d = D(&s.payload);
        let parse = (|| -> R<(Addr, Addr, N)> { d.str()?; d.str()?; Ok((d.addr()?, d.addr()?, d.u256()?)) })();
        let Ok((from, to, amt)) = parse else { return };
        let will = self.rng.chance(4, 5);
        let l = self.ledger.entry(s.dest).or_insert_with(N::zero);
        let good = will && if to == PROGRAM && from == by { let fits = &*l + &amt <= u256_max(); if fits { *l += &amt } fits } else if from == PROGRAM && *l >= amt { *l -= &amt; true } else { false };
        let mut e = E::new(); e.str("Vft"); e.str("TransferFrom");
        self.w.deliver_reply(TokenReply { to: s.id, from: s.dest, payload: e.bool(good).0, code: [0, 1, 0, 0], gas: s.deposit }, None);
        while !self.w.c.woken.is_empty() { self.w.step_woken(0, None, None); }
        self.w.c.events.clear(); self.w.c.other.clear(); self.w.c.signals.clear(); self.w.c.to_tokens.clear();
        self.note(format!("token {:02x} answers the transfer of {}: {good}", s.dest[31], by[0]));
    }
}
/// Addresses print as `@first.last`.
pub fn shorten(s: &str) -> String {
    let mut o = String::new(); let mut rest = s;
    while let Some(i) = rest.find('[') {
        o.push_str(&rest[..i]); let t = &rest[i..];
        if let Some(j) = t.find(']') {
            let v: Vec<&str> = t[1..j].split(", ").collect();
            if v.len() == 32 && v.iter().all(|x| x.parse::<u8>().is_ok()) { o.push_str(&format!("@{}.{}", v[0], v[31])); rest = &t[j + 1..]; continue }
        }
        o.push('['); rest = &t[1..];
    }
    o.push_str(rest); o
}
pub fn brief(r: &Ret) -> String {
    match r { Ret::Swap(s) => format!("in {} out {} fee {} price {} -> {} crossed {:?} tick {} liq {}", s.amount_in, s.amount_out, s.fee, s.start, s.target, s.ticks.iter().map(|t| t.index).collect::<Vec<_>>(), s.pool.tick, s.pool.liquidity), Ret::Position(p) => format!("position {}..{} L {}", p.lower, p.upper, p.liquidity), r => format!("{r:?}") }
}
