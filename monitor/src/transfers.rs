//! C02: token contracts that succeed, refuse, fail, hang or answer nonsense, in every order and interleaving.
use crate::api::*;
use crate::codec::*;
use crate::oracle::*;
use crate::rt::*;
use crate::run::*;
use crate::sim::*;
use crate::state::*;
use num_traits::Zero;
use std::collections::BTreeMap;

macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)) } } }

/// What the token's answer means.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer { Moved, Refused, Failed, /** not an answer of a token that keeps to the interface */ Unclear { claims_moved: bool } }
#[derive(Clone, Debug)]
struct Leg { sent: Addr, token: Addr, amount: N, gas: u64, answer: Option<Answer>, late: bool }
#[derive(Clone, Debug)]
struct Call { id: Addr, by: Addr, op: Op, deposit: bool, legs: Vec<Leg>, until: u32, over: bool, odd: bool }

pub struct Transfers { seed: u64, w: World, probe: Probe, base: (ProgState, Chain), cov: Cover, hists: u64 }
impl Transfers {
    pub fn new(p: &Program, seed: u64) -> Result<Transfers, String> {
        let w = World::new(p)?; let base = w.snapshot();
        Ok(Transfers { seed, w, probe: Probe::new(p)?, base, cov: Cover::default(), hists: 0 })
    }
}
impl Worker for Transfers {
    fn one(&mut self, i: u64) -> Result<(), (String, Vec<String>)> {
        self.hists += 1;
        let mut h = Hist::start(&mut self.w, &self.base, &mut self.probe, mix(self.seed, "C02", i), "C02").map_err(|e| (format!("setting up: {e}"), vec![]))?;
        let mut s = Sched { bal: BTreeMap::new(), calls: vec![], woken: vec![], signals: vec![], gone: vec![], steps: 0, lost: BTreeMap::new() };
        let r = s.history(&mut h, &mut self.cov);
        r.map_err(|e| (e, h.log.clone()))
    }
    fn take(&mut self) -> (Cover, Totals) {
        (std::mem::take(&mut self.cov), Totals { execs: std::mem::take(&mut self.w.execs), queries: std::mem::take(&mut self.w.queries), traps: std::mem::take(&mut self.w.traps), hists: std::mem::take(&mut self.hists) })
    }
}

struct Sched {
    /// internal balances as they have to be
    bal: BTreeMap<(Addr, Addr), N>,
    calls: Vec<Call>, woken: Vec<Msg>, signals: Vec<Msg>,
    /// transfers already answered: for repeated replies
    gone: Vec<(Addr, Addr)>,
    steps: u32,
    /// balance dropped because of unclear answers, per token
    lost: BTreeMap<Addr, N>,
}
fn reply_to(h: &mut Hist, deposit: bool) -> (Answer, Vec<u8>, [u8; 4], &'static str) {
    let vft = |b: &[u8]| { let mut e = E::new(); e.str("Vft"); e.str("TransferFrom"); e.raw(b).0 };
    let text = |s: &str| s.as_bytes().to_vec();
    let k = h.rng.below(if deposit { 22 } else { 24 });
    match k {
        0..=6 => (Answer::Moved, vft(&[1]), [0, 1, 0, 0], "true"),
        7..=9 => (Answer::Refused, vft(&[0]), [0, 1, 0, 0], "false"),
        10 | 11 => (Answer::Failed, text("Panic occurred: panicked with 'Insufficient balance'"), [1, 0, 3, 0], "panic"),
        12 => (Answer::Failed, text("Not enough gas to continue execution"), [1, 0, 0, 0], "out of gas"),
        13 => (Answer::Failed, text("Reason is unknown. Possibly `unreachable` instruction is occurred"), [1, 0, 4, 0], "unreachable"),
        14 => (Answer::Failed, text("Stack limit exceeded"), [1, 0, 5, 0], "stack limit"),
        15 => (Answer::Failed, text("Unable to call a forbidden function"), [1, 0, 2, 0], "backend error"),
        16 => (Answer::Failed, vec![], [1, 2, 0, 0], "inactive program"),
        17 => { let mut e = E::new(); e.str("panicked with 'Insufficient allowance'"); (Answer::Failed, e.0, [1, 0, 3, 0], "encoded panic") }
        18 => match h.rng.below(3) { 0 => (Answer::Failed, vft(&[1]), [1, 0, 3, 0], "failure carrying a success"), 1 => (Answer::Failed, vft(&[0]), [1, 0, 3, 0], "failure carrying a refusal"), _ => (Answer::Failed, text("Message has been removed from the waitlist"), [1, 3, 0, 0], "removed from waitlist") },
        19 => (Answer::Failed, text("Program memory limit exceeded"), [1, 0, 1, 0], "memory overflow"),
        20 => match h.rng.below(6) {
            0 => (Answer::Unclear { claims_moved: false }, vec![], [0, 0, 0, 0], "empty"),
            1 => (Answer::Unclear { claims_moved: false }, { let mut e = E::new(); e.str("Vft"); e.str("Transfer"); e.u8(1).0 }, [0, 1, 0, 0], "another method"),
            2 => (Answer::Unclear { claims_moved: false }, vft(&[7]), [0, 1, 0, 0], "no truth value"),
            3 => (Answer::Unclear { claims_moved: false }, vft(&[]), [0, 1, 0, 0], "truncated"),
            4 => (Answer::Unclear { claims_moved: false }, { let mut e = E::new(); e.str("all fine"); e.0 }, [0, 1, 0, 0], "a text"),
            _ => (Answer::Unclear { claims_moved: false }, (0..h.rng.below(40)).map(|_| h.rng.clone().next() as u8).collect(), [0, 1, 0, 0], "garbage"),
        },
        21 => (Answer::Unclear { claims_moved: true }, vft(&[1, 0, 9]), [0, 1, 0, 0], "trailing bytes"),
        _ => (Answer::Refused, vft(&[0]), [0, 1, 0, 0], "false"),
    }
}
impl Sched {
    fn get(&self, u: &Addr, t: &Addr) -> N { self.bal.get(&(*u, *t)).cloned().unwrap_or_else(N::zero) }
    fn add(&mut self, u: &Addr, t: &Addr, v: &N) { let b = self.bal.entry((*u, *t)).or_insert_with(N::zero); *b += v }
    fn observe(h: &mut Hist) -> Result<BTreeMap<(Addr, Addr), N>, String> {
        let mut m = BTreeMap::new();
        for u in h.watched.clone() { for (t, b) in h.w.balances(&u)? { ensure!(m.insert((u, t), b).is_none(), "a balance of user {} is listed twice", u[0]); } }
        h.w.end_queries();
        Ok(m.into_iter().filter(|x| !x.1.is_zero()).collect())
    }
    /// After every execution the balances must be the expected ones.
    fn same(&mut self, h: &mut Hist, what: &str) -> V {
        let o = Self::observe(h)?;
        self.bal.retain(|_, v| !v.is_zero());
        for k in o.keys().chain(self.bal.keys()) {
            let (is, must) = (o.get(k).cloned().unwrap_or_default(), self.bal.get(k).cloned().unwrap_or_default());
            ensure!(is == must, "{what}: user {} has {is} of token {}.{}, the transfers so far make it {must}", k.0[0], k.1[0], k.1[31]);
        }
        Ok(())
    }
    fn collect(&mut self, h: &mut Hist) { self.woken.extend(h.w.c.woken.drain(..)); self.signals.extend(h.w.c.signals.drain(..)); h.w.c.events.clear() }

    fn history(&mut self, h: &mut Hist, cov: &mut Cover) -> V {
        let tokens: Vec<Addr> = h.cfg.tokens.clone();
        for t in &tokens { if *t != ZERO { h.watched.insert(*t); } }
        self.bal = Self::observe(h)?;
        let len = 60 + h.rng.below(60);
        let patience = h.rng.chance(1, 3); // some histories let calls time out
        let many = 1 + h.rng.below(5) as usize;
        for _ in 0..len {
            self.steps += 1;
            let open: Vec<(usize, usize)> = self.calls.iter().enumerate().flat_map(|(i, c)| c.legs.iter().enumerate().filter(|(_, l)| l.answer.is_none()).map(move |(j, _)| (i, j))).collect();
            let live = self.calls.iter().filter(|c| !c.over).count();
            match h.rng.below(20) {
                0..=5 if live < many => self.begin(h, cov, &tokens)?,
                0..=10 if !open.is_empty() => { let (i, j) = *h.rng.pick(&open); self.answer(h, cov, i, j)? }
                6..=14 if !self.woken.is_empty() => { let i = h.rng.below(self.woken.len() as u64) as usize; self.resume(h, cov, i)? }
                15 if !self.signals.is_empty() => self.signal(h)?,
                16 | 17 => self.repeat(h, cov)?,
                18 => self.other(h)?,
                19 => { let b = if patience && h.rng.chance(1, 3) { 100 } else { 1 + h.rng.below(3) as u32 }; h.w.advance(b); h.note(format!("+{b} blocks")); self.collect(h) }
                _ => self.begin(h, cov, &tokens)?,
            }
        }
        // let everything finish
        let mut rounds = 0;
        loop {
            rounds += 1;
            ensure!(rounds < 400, "calls never come to an end");
            let open: Vec<(usize, usize)> = self.calls.iter().enumerate().flat_map(|(i, c)| c.legs.iter().enumerate().filter(|(_, l)| l.answer.is_none()).map(move |(j, _)| (i, j))).collect();
            if !open.is_empty() && h.rng.chance(1, 2) { let (i, j) = *h.rng.pick(&open); self.answer(h, cov, i, j)? }
            else if !self.woken.is_empty() { let i = h.rng.below(self.woken.len() as u64) as usize; self.resume(h, cov, i)? }
            else if !self.signals.is_empty() { self.signal(h)? }
            else if open.is_empty() { break }
        }
        for c in &self.calls { ensure!(c.over, "the call {:?} got all its replies and never answers", c.op) }
        self.same(h, "at the end")?;
        // what the tokens hold for the exchange is what it owes its users
        Ok(())
    }
    fn begin(&mut self, h: &mut Hist, cov: &mut Cover, tokens: &[Addr]) -> V {
        let by = *h.rng.clone().pick(&h.cfg.users); h.rng.next();
        // a token contract may be an account as well
        let by = if h.rng.chance(1, 16) { *h.rng.pick(tokens) } else { by }; let by = if by == ZERO { user(2) } else { by };
        let t = *h.rng.pick(tokens); let u = *h.rng.pick(tokens);
        let amt = |s: &Self, h: &mut Hist, t: &Addr| -> N { let b = s.get(&by, t); match h.rng.below(12) { 0 => N::zero(), 1 => b.clone(), 2 => (b + 1u32).min(u256_max()), 3 => h.weird(), 4 => N::from(1u32), _ => h.rng.log(h.cfg.lbits) } };
        // deposits so large that the internal balance would overflow are left to C25 and C26
        let dep = |s: &Self, h: &mut Hist, t: &Addr| -> N { let m: N = u256_max() / 64u32; let a = amt(s, h, t); a.min(m) };
        let opt = |s: &Self, h: &mut Hist, t: &Addr| -> Option<N> { if h.rng.chance(1, 4) { None } else { Some(amt(s, h, t)) } };
        let op = match h.rng.below(4) {
            0 => Op::Deposit { token: t, amount: dep(self, h, &t) },
            1 => Op::Withdraw { token: t, amount: opt(self, h, &t) },
            2 => { let (x, y) = (dep(self, h, &t), dep(self, h, &u)); Op::DepositPair { a: (t, x), b: (u, y) } }
            _ => { let (x, y) = (opt(self, h, &t), opt(self, h, &u)); Op::WithdrawPair { a: (t, x), b: (u, y) } }
        };
        let gas = match h.rng.below(10) { 0 => 42_400_000_000 + h.rng.below(2_000_000), 1 => 84_800_000_000 + h.rng.below(4_000_000), 2 => 1_000_000 + h.rng.below(90_000_000_000), _ => GAS };
        let trap = if h.rng.chance(1, 10) { Some(1 + h.rng.below(60) as u32) } else { None };
        h.w.c.to_tokens.clear(); h.w.c.other.clear();
        let (id, ex) = h.w.send(by, op.payload(), 0, gas, trap);
        h.note(format!("{} {:?} gas {gas} trap {trap:?} -> {:?}", by[0], op, ex.exit));
        let sent = std::mem::take(&mut h.w.c.to_tokens);
        ensure!(h.w.c.other.is_empty(), "{:?} sends {} messages that are no token transfers", op, h.w.c.other.len());
        self.collect(h);
        match ex.exit {
            Exit::Trap(_) => { h.w.c.done.remove(&id); ensure!(sent.is_empty(), "a failed call leaves messages behind"); self.same(h, "after a call that failed at once")?; cov.hit(format!("refused at once|{}|{}", op.method(), trap.is_some()), String::new); return Ok(()) }
            Exit::Wait(d) => {
                let deposit = matches!(op, Op::Deposit { .. } | Op::DepositPair { .. });
                let asked: Vec<(Addr, Option<N>)> = match &op {
                    Op::Deposit { token, amount } => vec![(*token, Some(amount.clone()))], Op::Withdraw { token, amount } => vec![(*token, amount.clone())],
                    Op::DepositPair { a, b } => vec![(a.0, Some(a.1.clone())), (b.0, Some(b.1.clone()))], Op::WithdrawPair { a, b } => vec![a.clone(), b.clone()], _ => vec![] };
                let mut want: Vec<(Addr, N)> = vec![];
                for (t, a) in asked {
                    let a = match a { Some(a) => a, None => self.get(&by, &t) };
                    if !deposit { ensure!(self.get(&by, &t) >= a, "{:?}: more is withdrawn than the balance {} allows", op, self.get(&by, &t)); self.add(&by, &t, &-a.clone()); }
                    if !a.is_zero() { want.push((t, a)) }
                }
                let mut legs = vec![];
                let mut got = vec![];
                for s in &sent {
                    let mut d = D(&s.payload);
                    let r = (|| -> R<(Addr, Addr, N)> { if d.str()? != "Vft" || d.str()? != "TransferFrom" { return Err(Bad) } let r = (d.addr()?, d.addr()?, d.u256()?); d.end()?; Ok(r) })();
                    let Ok((from, to, a)) = r else { return Err(format!("{op:?} sends a malformed message to token {}", s.dest[31])) };
                    ensure!(if deposit { from == by && to == PROGRAM } else { from == PROGRAM && to == by }, "{op:?}: the token is asked to move from {} to {}", from[0], to[0]);
                    ensure!(s.value == 0, "{op:?}: native value travels with the transfer");
                    got.push((s.dest, a.clone()));
                    legs.push(Leg { sent: s.id, token: s.dest, amount: a, gas: s.deposit, answer: None, late: false });
                }
                want.sort(); got.sort();
                ensure!(want == got, "{op:?}: the tokens are asked to move {:?} instead of {:?}", got.iter().map(|x| (x.0[31], x.1.to_string())).collect::<Vec<_>>(), want.iter().map(|x| (x.0[31], x.1.to_string())).collect::<Vec<_>>());
                self.calls.push(Call { id, by, op, deposit, legs, until: h.w.c.block + d, over: false, odd: false });
                self.same(h, "after the call was sent off")?;
            }
            Exit::Done | Exit::Leave => {
                // nothing to move: must be a call for zero amounts
                let r = h.w.c.done.remove(&id);
                ensure!(sent.is_empty(), "{op:?} answers before its transfers do");
                let ok = match &r { Some(r) => op.decode(&r.payload).map_err(|e| format!("{op:?}: {e}"))?, None => return Err("no reply".into()) };
                let nothing = match ok { Ret::Amount(a) => a.is_zero(), Ret::Pair(a, b) => a.is_zero() && b.is_zero(), _ => false };
                ensure!(nothing, "{op:?} reports success although no token was asked for anything");
                self.same(h, "after a call for nothing")?;
            }
        }
        Ok(())
    }
    fn answer(&mut self, h: &mut Hist, cov: &mut Cover, i: usize, j: usize) -> V {
        let c = self.calls[i].clone(); let l = c.legs[j].clone();
        let (mut ans, payload, code, name) = reply_to(h, c.deposit);
        // a call that gave up waiting no longer takes part; such a transfer is only checked for double credit
        let late = c.over && h.w.c.block >= c.until || l.late;
        if late { ans = Answer::Unclear { claims_moved: true } }
        let ex = h.w.deliver_reply(TokenReply { to: l.sent, from: l.token, payload, code, gas: l.gas }, None);
        h.note(format!("token {}.{} answers {name} to {:?} ({} of {})", l.token[0], l.token[31], c.op, j + 1, c.legs.len()));
        ensure!(!matches!(ex.exit, Exit::Trap(_)), "the answer `{name}` to {:?} cannot be handled: {:?}", c.op, ex.exit);
        ensure!(ex.sent.iter().all(|s| s.value == 0) && h.w.c.to_tokens.is_empty(), "handling a reply sends messages");
        self.collect(h);
        let due = match (ans, c.deposit) {
            (Answer::Moved, true) => l.amount.clone(), (Answer::Moved, false) => N::zero(),
            (Answer::Refused | Answer::Failed, true) => N::zero(), (Answer::Refused | Answer::Failed, false) => l.amount.clone(),
            (Answer::Unclear { claims_moved }, dep) => {
                let o = Self::observe(h)?;
                let now = o.get(&(c.by, l.token)).cloned().unwrap_or_default();
                let d = now - self.get(&c.by, &l.token);
                ensure!(d.is_zero() || (d == l.amount && (!dep || claims_moved)), "the answer `{name}` to {:?} changes the balance by {d}", c.op);
                d
            }
        };
        self.add(&c.by, &l.token, &due);
        self.calls[i].legs[j].answer = Some(ans);
        self.calls[i].legs[j].late = late;
        self.gone.push((l.sent, l.token));
        let others = self.calls.iter().filter(|x| !x.over && x.id != c.id).count();
        cov.hit(format!("answer|{}|{name}|leg {j} of {}|late {late}|call over {}|other calls {others}|same token elsewhere {}", c.op.method(), c.legs.len(), c.over, self.calls.iter().any(|x| !x.over && x.id != c.id && x.legs.iter().any(|y| y.token == l.token))), || format!("token answers `{name}` to {:?}: balance changes by {due}", c.op));
        self.same(h, &format!("after token {}.{} answered `{name}` to {:?}", l.token[0], l.token[31], c.op))
    }
    fn resume(&mut self, h: &mut Hist, cov: &mut Cover, i: usize) -> V {
        let m = self.woken.remove(i);
        let trap = if h.rng.chance(1, 8) { Some(1 + h.rng.below(12) as u32) } else { None };
        let id = m.id;
        h.w.c.woken.clear(); h.w.c.woken.push_back(m);
        let ex = h.w.step_woken(0, None, trap);
        self.collect(h);
        let Some(c) = self.calls.iter().position(|c| c.id == id) else { return Err("an unknown message is woken".into()) };
        h.note(format!("resume {:?} trap {trap:?} -> {:?}", self.calls[c].op, ex.exit));
        ensure!(h.w.c.to_tokens.is_empty(), "a resumed call sends further transfers");
        let blk = h.w.c.block;
        let cl = &mut self.calls[c];
        let (op, deposit) = (cl.op.clone(), cl.deposit);
        match &ex.exit {
            Exit::Wait(d) => { ensure!(cl.legs.iter().any(|l| l.answer.is_none()), "{op:?} has all its answers and goes on waiting"); cl.until = cl.until.min(blk + d); }
            e => {
                cl.over = true;
                let r = h.w.c.done.remove(&id);
                let Some(r) = r else { return Err(format!("{op:?} ends without an answer")) };
                let timed_out = cl.legs.iter().any(|l| l.answer.is_none());
                if timed_out { ensure!(blk >= cl.until || trap.is_some(), "{op:?} ends ({e:?}) before its transfers were answered: {}", r.text) }
                let out_of_gas = matches!(e, Exit::Trap(t) if t.starts_with("Not enough gas")) && trap.is_some();
                if timed_out && !out_of_gas { for l in &mut cl.legs { if l.answer.is_none() { l.late = true } } }
                let unclear = cl.odd || cl.legs.iter().any(|l| matches!(l.answer, Some(Answer::Unclear { .. })));
                let legs = cl.legs.clone();
                let how = if out_of_gas { "out of gas".to_string() } else if r.ok {
                    match op.decode(&r.payload) { Ok(_) => "ok".to_string(), Err(_) => "unhandled".into() }
                } else { err_of(&r.text).map(|x| x.to_string()).unwrap_or_else(|| r.text.clone()) };
                let good = legs.iter().filter(|l| l.answer == Some(Answer::Moved)).count();
                let all = legs.len();
                let answers: Vec<String> = legs.iter().map(|l| format!("{:?}", l.answer)).collect();
                if !out_of_gas {
                    if timed_out { ensure!(how != "ok", "{op:?} reports success although a transfer was never answered") }
                    // resumed only after its patience ended: gstd reports a timeout, the balances above are right all the same
                    else if blk >= cl.until {}
                    else if !unclear {
                        let want = if good == all { "ok" } else if deposit && good == 0 { "UnrecoverableTransferError" } else { "RecoverableTransferError" };
                        ensure!(how == want, "{op:?} with answers {answers:?} ends with `{how}` instead of `{want}`");
                        if how == "ok" {
                            let got = match op.decode(&r.payload) { Ok(Ret::Amount(a)) => vec![a], Ok(Ret::Pair(a, b)) => vec![a, b], _ => vec![] };
                            let mut got: Vec<N> = got.into_iter().filter(|x| !x.is_zero()).collect(); let mut want: Vec<N> = legs.iter().map(|l| l.amount.clone()).collect();
                            got.sort(); want.sort();
                            ensure!(got == want, "{op:?} reports {got:?}, moved were {want:?}");
                        }
                    }
                }
                cov.hit(format!("end|{}|{how}|{answers:?}|timed out {timed_out}", op.method()), || format!("{op:?} with answers {answers:?} ends with {how}"));
            }
        }
        self.same(h, &format!("after {op:?} was resumed"))
    }
    fn signal(&mut self, h: &mut Hist) -> V {
        let i = h.rng.below(self.signals.len() as u64) as usize;
        let m = self.signals.remove(i);
        h.w.c.signals.clear(); h.w.c.signals.push_back(m);
        let e = h.w.step_signal().unwrap();
        self.collect(h);
        h.note(format!("signal -> {:?}", e.exit));
        ensure!(!matches!(e.exit, Exit::Trap(_)), "the signal handler fails: {:?}", e.exit);
        self.same(h, "after a signal")
    }
    /// Replies nobody waits for: repeated ones, and ones to messages that were never sent.
    fn repeat(&mut self, h: &mut Hist, cov: &mut Cover) -> V {
        let (to, from) = if self.gone.is_empty() || h.rng.chance(1, 4) {
            let t = *h.rng.clone().pick(&h.cfg.tokens); let mut id = [0x51u8; 32]; id[..8].copy_from_slice(&h.rng.next().to_le_bytes());
            // an answer of one token to a transfer of another is not possible; an unknown message is
            (id, t)
        } else { *h.rng.clone().pick(&self.gone) };
        h.rng.next();
        let dep = h.rng.chance(1, 2);
        let (_, payload, code, name) = reply_to(h, dep);
        for c in &mut self.calls { if !c.over && c.legs.iter().any(|l| l.sent == to) { c.odd = true } }
        let ex = h.w.deliver_reply(TokenReply { to, from, payload, code, gas: GAS }, None);
        h.note(format!("token {}.{} answers {name} again (or to nothing) -> {:?}", from[0], from[31], ex.exit));
        self.collect(h);
        cov.hit(format!("repeated reply|{name}"), || format!("a repeated `{name}`"));
        self.same(h, "after a reply that was not due")
    }
    fn other(&mut self, h: &mut Hist) -> V {
        let (w, g) = (std::mem::take(&mut self.woken), std::mem::take(&mut self.signals));
        h.d = dump(h.w, &h.watched)?;
        for _ in 0..8 {
            let (by, op) = h.gen(false);
            if op.is_token_call() { continue }
            h.apply(by, op);
            break
        }
        self.collect(h);
        self.woken.extend(w); self.signals.extend(g);
        self.bal = Self::observe(h)?;
        Ok(())
    }
}
