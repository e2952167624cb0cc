//! Drives the contract's wasm: one exchange, honest token contracts unless told otherwise.
use crate::api::*; use crate::codec::*; use crate::rt::*;
use std::collections::BTreeMap;
pub const ADMIN: Addr = [0xAD; 32];
pub const TX: Addr = [0x20; 32];
pub const TY: Addr = [0x21; 32];
pub const TZ: Addr = [0x22; 32];
pub const ONE: u128 = 1_000_000_000_000_000_000_000_000;
pub const MIN_PRICE: u128 = 15258932000000000000;
pub const MAX_PRICE: u128 = 65535383934512647000000000000;
pub fn user(i: u8) -> Addr { [i; 32] }
pub fn n(v: u128) -> N { N::from(v) }
pub fn err_of(t: &str) -> String { t.split("InvariantError: ").nth(1).map(|t| t.chars().take_while(|c| c.is_alphanumeric()).collect()).unwrap_or_else(|| format!("?{t}")) }
pub fn key(a: Addr, b: Addr, fee: u128, spacing: u16) -> Key { let (x, y) = if a < b { (a, b) } else { (b, a) }; Key { x, y, tier: Tier { fee, spacing } } }
pub struct X { pub w: World, pub ledger: BTreeMap<Addr, N>, pub reverse: bool, pub events: Vec<Event> }
impl X {
    pub fn new(protocol_fee: u128) -> X {
        let a: Vec<String> = std::env::args().collect();
        let p = Program::load(&a[1]).expect("contract");
        let mut w = World::new(&p).unwrap();
        let mut e = E::new(); e.str("New");
        w.init(ADMIN, e.addr(&ADMIN).u128(protocol_fee).0).unwrap();
        X { w, ledger: BTreeMap::new(), reverse: false, events: vec![] }
    }
    pub fn go(&mut self, by: Addr, op: Op) -> Result<Ret, String> { self.go_with(by, op, |_, _, _, _| 1) }
    /// `answer(token, from, to, nth)`: 1 = moved, 0 = answered false, 2 = failed, 3 = no answer
    pub fn go_with(&mut self, by: Addr, op: Op, mut answer: impl FnMut(&Addr, &Addr, &Addr, usize) -> u8) -> Result<Ret, String> {
        self.w.c.events.clear(); self.w.c.to_tokens.clear();
        { let b = self.w.c.native.entry(by).or_insert(1 << 100); if *b < op.value() { *b = op.value() } }
        let (id, _) = self.w.send(by, op.payload(), op.value(), GAS, None);
        let mut i = 0;
        for _ in 0..6 {
            let mut s = std::mem::take(&mut self.w.c.to_tokens);
            if self.reverse { s.reverse() }
            for s in s {
                let mut d = D(&s.payload); d.str().unwrap(); d.str().unwrap();
                let (from, to, amt) = (d.addr().unwrap(), d.addr().unwrap(), d.u256().unwrap());
                let how = answer(&s.dest, &from, &to, i); i += 1;
                if how == 3 { continue }
                if how == 1 { let l = self.ledger.entry(s.dest).or_default(); if to == PROGRAM { *l += &amt } else { *l -= &amt } }
                let mut e = E::new(); e.str("Vft"); e.str("TransferFrom");
                let (payload, code) = if how == 2 { let mut e = E::new(); e.str("boom"); (e.0, [1, 0, 3, 0]) } else { (e.bool(how == 1).0, [0, 1, 0, 0]) };
                self.w.deliver_reply(TokenReply { to: s.id, from: s.dest, payload, code, gas: s.deposit }, None);
            }
            while !self.w.c.woken.is_empty() { self.w.step_woken(0, None, None); }
        }
        self.w.c.signals.clear();
        self.events = self.w.c.events.iter().filter_map(|s| d_event(&s.payload).ok()).collect();
        match self.w.c.done.remove(&id) { None => Err("no reply".into()), Some(r) if r.ok => op.decode(&r.payload), Some(r) => Err(err_of(&r.text)) }
    }
    pub fn ok(&mut self, by: Addr, op: Op) -> Ret { let s = format!("{op:?}"); self.go(by, op).unwrap_or_else(|e| panic!("{s} failed: {e}")) }
    pub fn bal(&mut self, u: Addr, t: Addr) -> N { let r = self.w.balances(&u).unwrap().into_iter().filter(|b| b.0 == t).map(|b| b.1).next().unwrap_or_default(); self.w.end_queries(); r }
    pub fn fund(&mut self, u: Addr, t: Addr, v: u128) { self.ok(u, Op::Deposit { token: t, amount: n(v) }); }
    pub fn pool(&mut self, k: &Key) -> Pool { let r = self.w.pool(k).unwrap().unwrap(); self.w.end_queries(); r }
    pub fn tick(&mut self, k: &Key, i: i32) -> Option<Tick> { let r = self.w.tick(k, i).unwrap().ok(); self.w.end_queries(); r }
    pub fn create(&mut self, u: Addr, k: &Key, lower: i32, upper: i32, l: u128) -> Position { match self.ok(u, Op::Create { key: *k, lower, upper, liquidity: n(l), min: 0, max: u128::MAX }) { Ret::Position(p) => p, _ => unreachable!() } }
    pub fn swap(&mut self, u: Addr, k: &Key, x_to_y: bool, amount: u128, by_in: bool) -> Result<SwapRes, String> { let limit = if x_to_y { MIN_PRICE } else { MAX_PRICE }; self.go(u, Op::Swap { key: *k, x_to_y, amount: n(amount), by_in, limit }).map(|r| match r { Ret::Swap(s) => s, _ => unreachable!() }) }
    /// A pool at price one over the first two tokens, with rich users 1..=3.
    pub fn market(&mut self, fee: u128, spacing: u16) -> Key {
        self.ok(ADMIN, Op::AddTier(Tier { fee, spacing }));
        for u in 1..=3 { for t in [TX, TY, TZ] { self.fund(user(u), t, 1 << 100) } }
        self.add_pool(TX, TY, fee, spacing)
    }
    pub fn add_pool(&mut self, a: Addr, b: Addr, fee: u128, spacing: u16) -> Key {
        let k = key(a, b, fee, spacing);
        self.ok(ADMIN, Op::CreatePool { a, b, tier: k.tier, price: ONE, tick: 0 });
        k
    }
}
