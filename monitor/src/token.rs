//! C36: the token contract (extended-vft), alone and together with the exchange, judged by a model of roles, balances,
//! supply, allowances and events.
use crate::codec::*;
use crate::api::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::*;
use crate::sim::{shorten, u256_max, user};
use num_traits::Zero;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)) } } }
const ROLES: [&str; 3] = ["Admin", "Minter", "Burner"];

#[derive(Clone, Debug)]
enum Call {
    Grant(usize, Addr), Revoke(usize, Addr), Mint(Addr, N), Burn(Addr, N), Transfer(Addr, N), TransferFrom(Addr, Addr, N), Approve(Addr, N), SetFail(bool), Raw(Vec<u8>),
}
impl Call {
    fn method(&self) -> String {
        match self {
            Call::Grant(r, _) => format!("Grant{}Role", ROLES[*r]), Call::Revoke(r, _) => format!("Revoke{}Role", ROLES[*r]), Call::Mint(..) => "Mint".into(), Call::Burn(..) => "Burn".into(),
            Call::Transfer(..) => "Transfer".into(), Call::TransferFrom(..) => "TransferFrom".into(), Call::Approve(..) => "Approve".into(), Call::SetFail(_) => "SetTransferFail".into(), Call::Raw(_) => "Raw".into(),
        }
    }
    fn payload(&self) -> Vec<u8> {
        if let Call::Raw(b) = self { return b.clone() }
        let mut e = E::new(); e.str("Vft"); e.str(&self.method());
        match self {
            Call::Grant(_, a) | Call::Revoke(_, a) => e.addr(a),
            Call::Mint(a, v) | Call::Burn(a, v) | Call::Transfer(a, v) | Call::Approve(a, v) => e.addr(a).u256(v),
            Call::TransferFrom(a, b, v) => e.addr(a).addr(b).u256(v),
            Call::SetFail(f) => e.bool(*f), Call::Raw(_) => unreachable!(),
        }.0
    }
}
/// What the token has to be.
#[derive(Clone, Default)]
struct Model { roles: [BTreeSet<Addr>; 3], bal: BTreeMap<Addr, N>, allow: BTreeMap<(Addr, Addr), N>, supply: N, fail: bool, test: bool, name: (String, String, u8) }
type Told = (String, Vec<Addr>, N);
impl Model {
    fn of(&self, a: &Addr) -> N { self.bal.get(a).cloned().unwrap_or_default() }
    fn set(&mut self, a: Addr, v: N) { if v.is_zero() { self.bal.remove(&a); } else { self.bal.insert(a, v); } }
    fn shift(&mut self, from: Addr, to: Addr, v: &N) -> Option<bool> {
        if from == to || v.is_zero() { return Some(false) }
        let (f, t) = (self.of(&from), self.of(&to));
        if f < *v || &t + v > u256_max() { return None }
        self.set(from, f - v); self.set(to, t + v);
        Some(true)
    }
    /// None: has to fail. Otherwise the answer (None for no value) and the event.
    fn apply(&mut self, by: Addr, c: &Call) -> Option<(Option<bool>, Option<Told>)> {
        let told = |n: &str, a: Vec<Addr>, v: &N, b: bool| (Some(b), b.then(|| (n.to_string(), a, v.clone())));
        Some(match c {
            Call::Grant(r, a) => { if !self.roles[0].contains(&by) { return None } self.roles[*r].insert(*a); (None, None) }
            Call::Revoke(r, a) => { if !self.roles[0].contains(&by) { return None } self.roles[*r].remove(a); (None, None) }
            Call::Mint(to, v) => {
                if !self.roles[1].contains(&by) { return None }
                if !v.is_zero() { if &self.supply + v > u256_max() { return None } let b = self.of(to) + v; self.set(*to, b); self.supply += v }
                told("Minted", vec![*to], v, !v.is_zero())
            }
            Call::Burn(from, v) => {
                if !self.roles[2].contains(&by) || self.of(from) < *v { return None }
                let b = self.of(from) - v; self.set(*from, b); self.supply -= v;
                told("Burned", vec![*from], v, !v.is_zero())
            }
            Call::Transfer(to, v) => { if self.test && self.fail { return None } let b = self.shift(by, *to, v)?; told("Transfer", vec![by, *to], v, b) }
            Call::TransferFrom(from, to, v) => {
                if self.test && self.fail { return None }
                if by != *from && from != to && !v.is_zero() {
                    let a = self.allow.get(&(*from, by)).cloned().unwrap_or_default();
                    if a < *v { return None }
                    self.shift(*from, *to, v)?;
                    if a == *v { self.allow.remove(&(*from, by)); } else { self.allow.insert((*from, by), a - v); }
                    told("Transfer", vec![*from, *to], v, true)
                } else { let b = self.shift(*from, *to, v)?; told("Transfer", vec![*from, *to], v, b) }
            }
            Call::Approve(s, v) => {
                let b = by != *s && if v.is_zero() { self.allow.remove(&(by, *s)).is_some() } else { self.allow.insert((by, *s), v.clone()) != Some(v.clone()) };
                told("Approval", vec![by, *s], v, b)
            }
            Call::SetFail(f) => { if self.test { if !self.roles[0].contains(&by) { return None } self.fail = *f } (None, None) }
            Call::Raw(_) => return None,
        })
    }
}
struct Token { w: World, m: Model, users: Vec<Addr> }
impl Token {
    fn query<T>(&mut self, m: &str, args: E, f: impl Fn(&mut D) -> R<T>) -> Result<T, String> {
        let mut e = E::new(); e.str("Vft"); e.str(m);
        let b = self.w.query([9; 32], e.raw(&args.0).0).map_err(|e| format!("the query {m} fails: {e}"))?;
        let mut d = D(&b);
        (|| { if d.str()? != "Vft" || d.str()? != m { return Err(Bad) } let r = f(&mut d)?; d.end()?; Ok(r) })().map_err(|_| format!("malformed answer to {m}"))
    }
    fn balance(&mut self, a: &Addr) -> Result<N, String> { let r = self.query("BalanceOf", E::new().addr(a), |d| d.u256()); self.w.end_queries(); r }
    fn look(&mut self) -> V {
        for (r, n) in ROLES.iter().enumerate() {
            let l = self.query(&format!("{n}s"), E::new(), |d| d.vec(|d| d.addr()))?;
            let s: BTreeSet<Addr> = l.iter().copied().collect();
            ensure!(s.len() == l.len() && s == self.m.roles[r], "the {n}s are {:?}, should be {:?}", l.iter().map(|a| a[0]).collect::<Vec<_>>(), self.m.roles[r].iter().map(|a| a[0]).collect::<Vec<_>>());
        }
        let mut sum = N::zero();
        for u in self.users.clone() {
            let b = self.query("BalanceOf", E::new().addr(&u), |d| d.u256())?;
            ensure!(b == self.m.of(&u), "the balance of {} is {b}, should be {}", u[0], self.m.of(&u));
            sum += b;
        }
        let t = self.query("TotalSupply", E::new(), |d| d.u256())?;
        ensure!(t == self.m.supply && t == sum, "the total supply is {t}, should be {}, and the balances add up to {sum}", self.m.supply);
        for (a, b) in self.users.clone().into_iter().flat_map(|a| [user(1), PROGRAM].map(|b| (a, b))).chain(self.m.allow.keys().copied().collect::<Vec<_>>()) {
            let v = self.query("Allowance", E::new().addr(&a).addr(&b), |d| d.u256())?;
            let want = self.m.allow.get(&(a, b)).cloned().unwrap_or_default();
            ensure!(v == want, "{} allows {} to spend {v}, should be {want}", a[0], b[0]);
        }
        let got = (self.query("Name", E::new(), |d| d.str())?, self.query("Symbol", E::new(), |d| d.str())?, self.query("Decimals", E::new(), |d| d.u8())?);
        ensure!(got == self.m.name, "the token is called {got:?}, should be {:?}", self.m.name);
        self.w.end_queries();
        Ok(())
    }
    /// Runs one call to its end and judges reply and events; the state is judged by `look`.
    fn call(&mut self, by: Addr, c: &Call, cut: Option<u32>) -> Result<(Option<Option<bool>>, Vec<u8>, u32), String> {
        self.w.c.events.clear(); self.w.c.other.clear(); self.w.c.to_tokens.clear(); self.w.c.signals.clear();
        let before = self.m.clone();
        let want = if cut.is_some() { None } else { self.m.apply(by, c) };
        let (id, ex) = self.w.send(by, c.payload(), 0, GAS, cut);
        self.w.c.signals.clear();
        let r = self.w.c.done.remove(&id).ok_or("no answer")?;
        let events = std::mem::take(&mut self.w.c.events);
        ensure!(self.w.c.other.is_empty() && self.w.c.to_tokens.is_empty() && self.w.c.waiting.is_empty(), "the token sends messages of its own");
        if cut.is_some() && r.ok { let m = self.m.apply(by, c); ensure!(m.is_some(), "succeeded, should fail"); return Ok((m.map(|m| m.0), r.payload, ex.syscalls)) }
        match want {
            None => {
                self.m = before;
                ensure!(!r.ok, "{} by {} succeeded, should fail", c.method(), by[0]);
                ensure!(events.is_empty(), "a failing call emits {} events", events.len());
                Ok((None, r.text.into_bytes(), ex.syscalls))
            }
            Some((val, told)) => {
                ensure!(r.ok, "{} by {} failed, should succeed: {}", c.method(), by[0], r.text);
                let mut e = E::new(); e.str("Vft"); e.str(&c.method());
                let e = if let Some(b) = val { e.bool(b) } else { e };
                ensure!(r.payload == e.0, "{} answered {:?}, should answer {:?}", c.method(), r.payload, val);
                let want: Vec<Vec<u8>> = told.iter().map(|(n, a, v)| { let mut e = E::new(); e.str("Vft"); e.str(n); for x in a { e = e.addr(x) } e.u256(v).0 }).collect();
                let got: Vec<Vec<u8>> = events.into_iter().map(|s| s.payload).collect();
                ensure!(got == want, "{} emitted {got:?}, should emit {want:?}", c.method());
                Ok((Some(val), r.payload, ex.syscalls))
            }
        }
    }
    fn amount(&mut self, r: &mut Rng, a: &Addr) -> N {
        let b = self.m.of(a); let rest = u256_max() - &self.m.supply;
        let v = match r.below(10) { 0 => N::zero(), 1 => N::from(1), 2 => b, 3 => b + 1, 4 => b - 1, 5 => rest, 6 => rest + 1, 7 => r.log(256), 8 => b / 2, _ => r.log(90) };
        v.max(N::zero()).min(u256_max())
    }
    fn random(&mut self, r: &mut Rng) -> (Addr, Call) {
        let users = self.users.clone();
        let (mut by, a, b) = (*r.pick(&users), *r.pick(&users), *r.pick(&users));
        let k = r.below(20);
        // most calls come from somebody who may make them
        let role = match k { 0..=3 | 16 => Some(0), 4..=6 => Some(1), 7..=9 => Some(2), _ => None };
        if let Some(x) = role { let l: Vec<Addr> = self.m.roles[x].iter().copied().collect(); if !l.is_empty() && r.chance(3, 4) { by = *r.pick(&l) } }
        (by, match k {
            0 | 1 => Call::Grant(r.below(3) as usize, a),
            2 | 3 => { let x = r.below(3) as usize; let l: Vec<Addr> = self.m.roles[x].iter().copied().collect();
                let mut a = if l.is_empty() || r.chance(1, 4) { a } else { *r.pick(&l) };
                // rarely without any administrator
                if x == 0 && l.len() == 1 && l[0] == a && !r.chance(1, 12) { a = b }
                Call::Revoke(x, a) }
            4..=6 => Call::Mint(a, self.amount(r, &a)),
            7..=9 => Call::Burn(a, self.amount(r, &a)),
            10 | 11 => Call::Transfer(a, self.amount(r, &by)),
            12 | 13 => {
                let l: Vec<(Addr, Addr)> = self.m.allow.keys().copied().collect();
                let from = if l.is_empty() || r.chance(1, 4) { a } else { let p = *r.pick(&l); by = p.1; p.0 };
                let al: N = self.m.allow.get(&(from, by)).cloned().unwrap_or_default();
                let v = match r.below(4) { 0 => al, 1 => (al + N::from(1)).min(u256_max()), _ => self.amount(r, &from) };
                Call::TransferFrom(from, b, v)
            }
            14 | 15 => Call::Approve(if r.chance(1, 2) { user(1) } else { a }, match r.below(3) { 0 => self.m.allow.get(&(by, a)).cloned().unwrap_or_default(), _ => self.amount(r, &by) }),
            16 | 17 => Call::SetFail(r.chance(1, 3)),
            18 => { let (_, c) = { let v = N::from(5); (0, Call::Mint(a, v)) }; let mut p = c.payload(); let n = r.below(p.len() as u64) as usize; p.truncate(n); Call::Raw(p) }
            _ => { let mut e = E::new(); e.str("Vft"); e.str(*r.pick(&["Seed", "New", "GetMut", "EnsureIsAdmin", "mint", "Panicking"])); Call::Raw(e.addr(&a).0) }
        })
    }
}

pub struct Tokens { seed: u64, builds: [Arc<Program>; 2], exchange: Arc<Program>, only_test: bool, cov: Cover, t: Totals }
impl Tokens {
    pub fn new(p: &Arc<Program>, target: &str, seed: u64) -> Result<Tokens, String> {
        // TOKEN_WASM: a built token (with the feature "test") to judge instead, see DESIGN.md
        if let Ok(f) = std::env::var("TOKEN_WASM") { let t = Program::load(&f)?; return Ok(Tokens { seed, builds: [t.clone(), t], exchange: p.clone(), only_test: true, cov: Cover::default(), t: Totals { execs: 0, queries: 0, traps: 0, hists: 0 } }) }
        let load = |f: &str| Program::load(&format!("{target}/token-{f}/wasm32-unknown-unknown/release/extended_vft_app.wasm"));
        Ok(Tokens { seed, builds: [load("default")?, load("test")?], exchange: p.clone(), only_test: false, cov: Cover::default(), t: Totals { execs: 0, queries: 0, traps: 0, hists: 0 } })
    }
    fn token(&self, r: &mut Rng, test: bool) -> Result<Token, String> {
        let test = test || self.only_test;
        let mut w = World::new(&self.builds[test as usize])?;
        let name = (["", "Wrapped Ether", "Ω-token"][r.below(3) as usize].to_string(), ["A", "WETH", ""][r.below(3) as usize].to_string(), r.below(256) as u8);
        let creator = user(1 + r.below(3) as u8);
        let mut e = E::new(); e.str("New"); e.str(&name.0); e.str(&name.1);
        w.init(creator, e.u8(name.2).0)?;
        let roles = std::array::from_fn(|_| [creator].into());
        Ok(Token { w, m: Model { roles, test, name, ..Default::default() }, users: (1..=6).map(user).chain([PROGRAM, ZERO]).collect() })
    }
    fn alone(&mut self, r: &mut Rng, log: &mut Vec<String>) -> V {
        let test = r.chance(1, 2);
        let mut t = self.token(r, test)?;
        t.look()?;
        for _ in 0..60 + r.below(80) {
            let (by, c) = t.random(r);
            log.push(shorten(&format!("{} {c:?}", by[0])));
            if r.chance(1, 8) {
                // the same call cut off at some host call leaves everything as it was
                let (s, m) = (t.w.snapshot(), t.m.clone());
                let n = t.call(by, &c, None)?.2;
                t.w.restore(&s); t.m = m.clone();
                t.call(by, &c, Some(1 + r.below(n as u64) as u32))?;
                t.look().map_err(|e| format!("after a call cut off by a lack of gas: {e}"))?;
                t.w.restore(&s); t.m = m;
                self.cov.hit("cut off|".to_string() + &c.method(), String::new);
            }
            let before = t.m.supply.clone();
            let res = t.call(by, &c, None)?.0;
            t.look()?;
            if r.chance(1, 4) { t.w.advance(1 + r.below(5) as u32) }
            self.cov.hit(format!("token|{}|{res:?}|{}|{}|{}{}", c.method(), t.m.supply.bits() / 16, t.m.supply.cmp(&before) as i8, t.m.fail, t.m.roles.iter().map(|s| s.len().min(4).to_string()).collect::<String>()), || format!("{c:?} by {} -> {res:?}", by[0]));
        }
        self.t.execs += t.w.execs; self.t.queries += t.w.queries; self.t.traps += t.w.traps;
        Ok(())
    }
    /// The exchange with two of these tokens: token balances and exchange balances move together.
    fn together(&mut self, r: &mut Rng, log: &mut Vec<String>) -> V {
        let mut x = World::new(&self.exchange)?;
        let mut e = E::new(); e.str("New");
        x.init(user(9), e.addr(&user(9)).u128(0).0)?;
        let ids = [[0x41; 32], [0x42; 32]];
        let mut ts = vec![self.token(r, r.0 & 1 == 0)?, self.token(r, true)?];
        let mut inside: BTreeMap<(Addr, usize), N> = BTreeMap::new();
        for t in ts.iter_mut() {
            let by = *t.m.roles[1].iter().next().unwrap();
            for u in 1..=4 { let v = N::from(1_000_000) + r.log(80); t.call(by, &Call::Mint(user(u), v.clone()), None)?; if r.chance(3, 4) { t.call(user(u), &Call::Approve(PROGRAM, v * 2), None)?; } }
        }
        for _ in 0..40 + r.below(40) {
            let by = user(1 + r.below(4) as u8);
            if r.chance(1, 3) {
                // something happens to a token itself
                let t = &mut ts[r.below(2) as usize];
                let a = *t.m.roles[0].iter().next().unwrap();
                let (who, c) = match r.below(6) { 0 | 1 => (a, Call::SetFail(!t.m.fail)), 2 => (by, Call::Approve(PROGRAM, t.amount(r, &by))), 3 => (by, Call::Approve(PROGRAM, u256_max())), 4 => (by, Call::Transfer(PROGRAM, N::from(r.below(50)))), _ => (a, Call::Mint(by, r.log(80))) };
                log.push(shorten(&format!("token: {} {c:?}", who[0])));
                t.call(who, &c, None)?; t.look()?;
                continue
            }
            let (dep, pair, first) = (r.chance(1, 2), r.chance(1, 3), r.below(2) as usize);
            let legs: Vec<usize> = if pair { vec![first, 1 - first] } else { vec![first] };
            let mut am = vec![];
            for &l in &legs {
                let have = if dep { ts[l].m.of(&by) } else { inside.get(&(by, l)).cloned().unwrap_or_default() };
                am.push(match r.below(5) { 0 => have, 1 => have + 1, 2 => have / 3, _ => N::from(1) + r.log(20) }.min(u256_max()));
            }
            let op = match (dep, pair) {
                (true, false) => Op::Deposit { token: ids[legs[0]], amount: am[0].clone() }, (true, true) => Op::DepositPair { a: (ids[legs[0]], am[0].clone()), b: (ids[legs[1]], am[1].clone()) },
                (false, false) => Op::Withdraw { token: ids[legs[0]], amount: Some(am[0].clone()) }, (false, true) => Op::WithdrawPair { a: (ids[legs[0]], Some(am[0].clone())), b: (ids[legs[1]], Some(am[1].clone())) },
            };
            log.push(shorten(&format!("exchange: {} {op:?}", by[0])));
            let (id, _) = x.send(by, op.payload(), 0, GAS, None);
            let mut moved = 0;
            for _ in 0..4 {
                for s in std::mem::take(&mut x.c.to_tokens) {
                    let i = ids.iter().position(|a| *a == s.dest).ok_or("the exchange calls something that is no token of the request")?;
                    let mut d = D(&s.payload);
                    let (from, to, v) = (|| -> R<_> { if d.str()? != "Vft" || d.str()? != "TransferFrom" { return Err(Bad) } let r = (d.addr()?, d.addr()?, d.u256()?); d.end()?; Ok(r) })().map_err(|_| "the exchange asks the token for something else than TransferFrom")?;
                    let (res, payload, _) = ts[i].call(PROGRAM, &Call::TransferFrom(from, to, v.clone()), None)?;
                    if res == Some(Some(true)) { moved += 1; let e = inside.entry((by, i)).or_default(); if dep { *e += v } else { *e -= v } }
                    let code = if res.is_some() { [0, 1, 0, 0] } else { [1, 0, 3, 0] };
                    x.deliver_reply(TokenReply { to: s.id, from: s.dest, payload, code, gas: s.deposit }, None);
                }
                while !x.c.woken.is_empty() { x.step_woken(0, None, None); }
            }
            x.c.signals.clear();
            let done = x.c.done.remove(&id).ok_or("the exchange does not answer")?;
            // a leg of nothing needs no transfer
            let real = am.iter().filter(|a| !a.is_zero()).count();
            ensure!(if done.ok { moved == real } else { moved < legs.len() }, "{moved} of {} transfers took place, the exchange answers {}", legs.len(), if done.ok { "success".into() } else { done.text.clone() });
            for u in 1..=4 {
                let got: BTreeMap<Addr, N> = x.balances(&user(u))?.into_iter().collect();
                for i in 0..2 { let want = inside.get(&(user(u), i)).cloned().unwrap_or_default(); ensure!(got.get(&ids[i]).cloned().unwrap_or_default() == want, "user {u} has {:?} of token {i} on the exchange, should have {want}", got.get(&ids[i])) }
            }
            x.end_queries();
            for i in 0..2 { let sum: N = inside.iter().filter(|(k, _)| k.1 == i).map(|(_, v)| v).sum(); let b = ts[i].balance(&PROGRAM)?; ensure!(b >= sum, "the exchange holds {b} of token {i} and owes {sum}") }
            self.cov.hit(format!("exchange|{}|{moved} of {}|{}", op.method(), legs.len(), done.ok), || format!("{op:?} -> {moved} transfers, {}", if done.ok { "ok" } else { &done.text }));
        }
        for t in ts.iter_mut() { t.look()? }
        self.t.execs += x.execs + ts.iter().map(|t| t.w.execs).sum::<u64>(); self.t.queries += x.queries + ts.iter().map(|t| t.w.queries).sum::<u64>(); self.t.traps += x.traps;
        Ok(())
    }
}
impl Worker for Tokens {
    fn one(&mut self, i: u64) -> Result<(), (String, Vec<String>)> {
        self.t.hists += 1;
        let mut r = Rng::new(mix(self.seed, "C36", i));
        let mut log = vec![];
        let v = if i % 3 == 2 { self.together(&mut r, &mut log) } else { self.alone(&mut r, &mut log) };
        v.map_err(|e| (e, log))
    }
    fn take(&mut self) -> (Cover, Totals) { (std::mem::take(&mut self.cov), std::mem::replace(&mut self.t, Totals { execs: 0, queries: 0, traps: 0, hists: 0 })) }
}
