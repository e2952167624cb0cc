//! An instrumented Gear runtime: executes the contract's wasm, message by message, with Gear's
//! transactional rules (state, messages and value of a failed message are dropped), and exposes
//! every source of nondeterminism (order, time, gas, replies) to the caller.
use crate::codec::Addr;
use std::collections::{BTreeMap, VecDeque};
use std::sync::Arc;
use wasmer::*;

pub const PAGE: usize = 65536;
/// Memory limit of ordinary worlds; Gear itself allows 2 GB (`LIMIT_PAGES`).
pub const MAX_PAGES: usize = 512;
pub const LIMIT_PAGES: usize = 32768;
pub const PROGRAM: Addr = [0xC0; 32];
pub const ZERO: Addr = [0; 32];

#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Init, Handle, Reply { to: Addr, code: [u8; 4] }, Signal { from: Addr } }
#[derive(Clone, Debug)]
pub struct Msg { pub id: Addr, pub source: Addr, pub payload: Vec<u8>, pub value: u128, pub gas: u64, pub kind: Kind, pub replied: bool }
#[derive(Clone, Debug, PartialEq)]
pub struct Sent { pub id: Addr, pub dest: Addr, pub payload: Vec<u8>, pub value: u128, pub gas: Option<u64>, pub deposit: u64, pub parent: Addr }
#[derive(Clone, Debug, PartialEq)]
pub enum Exit { Done, Leave, Wait(u32), Trap(String) }
#[derive(Clone, Debug)]
pub struct Exec { pub exit: Exit, pub sent: Vec<Sent>, pub reply: Option<(Vec<u8>, u128)>, pub wakes: Vec<Addr>, pub syscalls: u32 }
#[derive(Debug)]
struct Stop(Exit);
impl std::fmt::Display for Stop { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
impl std::error::Error for Stop {}

#[derive(Clone)]
pub struct ProgState { pub mem: Vec<u8>, pub pages: Vec<bool> }

struct Ctx {
    mem: Option<Memory>, pages: Vec<bool>, static_pages: usize, max_pages: usize,
    msg: Msg, block: u32, ts: u64, nonce: u64, gas: u64, reserved: bool,
    sent: Vec<Sent>, reply: Option<(Vec<u8>, u128)>, wakes: Vec<Addr>, syscalls: u32, trap_at: Option<u32>,
    pub value_available: u128,
}
impl Ctx {
    fn tick(&mut self) -> Result<(), RuntimeError> {
        self.syscalls += 1;
        self.gas = self.gas.saturating_sub(100_000);
        if self.trap_at == Some(self.syscalls) || self.gas == 0 {
            return Err(RuntimeError::user(Box::new(Stop(Exit::Trap("Not enough gas to continue execution".into())))));
        }
        Ok(())
    }
}
fn stop<T>(e: Exit) -> Result<T, RuntimeError> { Err(RuntimeError::user(Box::new(Stop(e)))) }
type Env<'a> = FunctionEnvMut<'a, Ctx>;
fn wr(env: &mut Env, ptr: u32, b: &[u8]) -> Result<(), RuntimeError> {
    let (c, s) = env.data_and_store_mut();
    c.mem.as_ref().unwrap().view(&s).write(ptr as u64, b).map_err(|_| RuntimeError::new("Program memory access has been performed out of bounds"))
}
fn rd(env: &mut Env, ptr: u32, n: usize) -> Result<Vec<u8>, RuntimeError> {
    if n > 8 << 20 { return Err(RuntimeError::new("oversized read")) }
    let (c, s) = env.data_and_store_mut();
    let mut b = vec![0; n];
    c.mem.as_ref().unwrap().view(&s).read(ptr as u64, &mut b).map_err(|_| RuntimeError::new("Program memory access has been performed out of bounds"))?;
    Ok(b)
}
fn hash(env: &mut Env, ptr: u32) -> Result<Addr, RuntimeError> { Ok(rd(env, ptr, 32)?.try_into().unwrap()) }
fn u128_at(env: &mut Env, ptr: u32) -> Result<u128, RuntimeError> {
    if ptr == u32::MAX { return Ok(0) }
    Ok(u128::from_le_bytes(rd(env, ptr, 16)?.try_into().unwrap()))
}
fn err_hash(env: &mut Env, ptr: u32, err: u32, h: &Addr) -> Result<(), RuntimeError> {
    let mut b = err.to_le_bytes().to_vec(); b.extend_from_slice(h); wr(env, ptr, &b)
}
const E_CTX: u32 = 500; // incorrect context (e.g. reply code outside a reply)
const E_GAS: u32 = 100; // not enough gas
type RR = Result<(), RuntimeError>;
fn gr_block_height(mut e: Env, p: u32) -> RR { e.data_mut().tick()?; let v = e.data().block; wr(&mut e, p, &v.to_le_bytes()) }
fn gr_block_timestamp(mut e: Env, p: u32) -> RR { e.data_mut().tick()?; let v = e.data().ts; wr(&mut e, p, &v.to_le_bytes()) }
fn gr_gas_available(mut e: Env, p: u32) -> RR { e.data_mut().tick()?; let v = e.data().gas; wr(&mut e, p, &v.to_le_bytes()) }
fn gr_value(mut e: Env, p: u32) -> RR { e.data_mut().tick()?; let v = e.data().msg.value; wr(&mut e, p, &v.to_le_bytes()) }
fn gr_value_available(mut e: Env, p: u32) -> RR { e.data_mut().tick()?; let v = e.data().value_available; wr(&mut e, p, &v.to_le_bytes()) }
fn gr_source(mut e: Env, p: u32) -> RR { e.data_mut().tick()?; let v = e.data().msg.source; wr(&mut e, p, &v) }
fn gr_program_id(mut e: Env, p: u32) -> RR { e.data_mut().tick()?; wr(&mut e, p, &PROGRAM) }
fn gr_message_id(mut e: Env, p: u32) -> RR { e.data_mut().tick()?; let v = e.data().msg.id; wr(&mut e, p, &v) }
fn gr_size(mut e: Env, p: u32) -> RR { e.data_mut().tick()?; let v = e.data().msg.payload.len() as u32; wr(&mut e, p, &v.to_le_bytes()) }
fn gr_read(mut e: Env, at: u32, len: u32, buf: u32, err: u32) -> RR {
    e.data_mut().tick()?;
    let pl = &e.data().msg.payload;
    let ok = (at as usize).checked_add(len as usize).map_or(false, |x| x <= pl.len());
    if ok { let b = pl[at as usize..(at + len) as usize].to_vec(); wr(&mut e, buf, &b)?; wr(&mut e, err, &0u32.to_le_bytes()) }
    else { wr(&mut e, err, &E_CTX.to_le_bytes()) }
}
fn gr_reply_deposit(mut e: Env, mid: u32, gas: u64, err: u32) -> RR {
    e.data_mut().tick()?;
    let id = hash(&mut e, mid)?;
    let c = e.data_mut();
    let mut code = E_CTX;
    if c.gas < gas { code = E_GAS }
    else if let Some(s) = c.sent.iter_mut().find(|s| s.id == id) { s.deposit = gas; c.gas -= gas; code = 0 }
    wr(&mut e, err, &code.to_le_bytes())
}
fn gr_system_reserve_gas(mut e: Env, gas: u64, err: u32) -> RR {
    e.data_mut().tick()?;
    let c = e.data_mut();
    let code = if c.gas < gas { E_GAS } else { c.gas -= gas; c.reserved = true; 0 };
    wr(&mut e, err, &code.to_le_bytes())
}
fn gr_leave(mut e: Env) -> RR { e.data_mut().tick()?; stop(Exit::Leave) }
fn gr_wait_for(mut e: Env, d: u32) -> RR { e.data_mut().tick()?; stop(Exit::Wait(d)) }
fn gr_wait_up_to(mut e: Env, d: u32) -> RR { e.data_mut().tick()?; stop(Exit::Wait(d)) }
fn gr_wait(mut e: Env) -> RR { e.data_mut().tick()?; stop(Exit::Wait(10_000)) }
fn gr_wake(mut e: Env, mid: u32, _delay: u32, err: u32) -> RR {
    e.data_mut().tick()?;
    let id = hash(&mut e, mid)?; e.data_mut().wakes.push(id); wr(&mut e, err, &0u32.to_le_bytes())
}
fn gr_reply_code(mut e: Env, p: u32) -> RR {
    e.data_mut().tick()?;
    let (err, c) = match e.data().msg.kind { Kind::Reply { code, .. } => (0u32, code), _ => (E_CTX, [0; 4]) };
    let mut b = err.to_le_bytes().to_vec(); b.extend_from_slice(&c); wr(&mut e, p, &b)
}
fn gr_signal_code(mut e: Env, p: u32) -> RR {
    e.data_mut().tick()?;
    let err = if matches!(e.data().msg.kind, Kind::Signal { .. }) { 0 } else { E_CTX };
    let mut b = err.to_le_bytes().to_vec(); b.extend_from_slice(&[0, 0, 3, 1]); wr(&mut e, p, &b)
}
fn gr_reply_to(mut e: Env, p: u32) -> RR {
    e.data_mut().tick()?;
    let (err, h) = match e.data().msg.kind { Kind::Reply { to, .. } => (0, to), _ => (E_CTX, ZERO) };
    err_hash(&mut e, p, err, &h)
}
fn gr_signal_from(mut e: Env, p: u32) -> RR {
    e.data_mut().tick()?;
    let (err, h) = match e.data().msg.kind { Kind::Signal { from } => (0, from), _ => (E_CTX, ZERO) };
    err_hash(&mut e, p, err, &h)
}
fn new_id(c: &mut Ctx) -> Addr { c.nonce += 1; let mut h = [0x51; 32]; h[..8].copy_from_slice(&c.nonce.to_le_bytes()); h }
fn gr_reply(mut e: Env, p: u32, len: u32, value: u32, err_mid: u32) -> RR {
    e.data_mut().tick()?;
    let b = rd(&mut e, p, len as usize)?; let v = u128_at(&mut e, value)?;
    let c = e.data_mut();
    let code = if c.msg.replied || c.reply.is_some() { E_CTX } else if v > c.value_available { 101 } else { c.value_available -= v; c.reply = Some((b, v)); 0 };
    let id = new_id(e.data_mut());
    err_hash(&mut e, err_mid, code, &id)
}
fn do_send(e: &mut Env, pv: u32, p: u32, len: u32, gas: Option<u64>, err_mid: u32) -> RR {
    e.data_mut().tick()?;
    let dest = hash(e, pv)?; let value = u128_at(e, pv + 32)?; let payload = rd(e, p, len as usize)?;
    let c = e.data_mut();
    let code = match gas { Some(g) if c.gas < g => E_GAS, _ if value > c.value_available => 101, _ => 0 };
    let id = new_id(c);
    if code == 0 {
        if let Some(g) = gas { c.gas -= g }
        c.value_available -= value;
        let parent = c.msg.id;
        c.sent.push(Sent { id, dest, payload, value, gas, deposit: 0, parent });
    }
    err_hash(e, err_mid, code, &id)
}
fn gr_send(mut e: Env, pv: u32, p: u32, len: u32, _delay: u32, err_mid: u32) -> RR { do_send(&mut e, pv, p, len, None, err_mid) }
fn gr_send_wgas(mut e: Env, pv: u32, p: u32, len: u32, gas: u64, _delay: u32, err_mid: u32) -> RR { do_send(&mut e, pv, p, len, Some(gas), err_mid) }
fn gr_panic(mut e: Env, p: u32, len: u32) -> RR {
    e.data_mut().tick()?;
    let b = rd(&mut e, p, len as usize)?; stop(Exit::Trap(format!("Panic occurred: {}", String::from_utf8_lossy(&b))))
}
fn gr_oom_panic(_e: Env) -> RR { stop(Exit::Trap("Program memory limit".into())) }
fn gr_debug(_e: Env, _p: u32, _len: u32) -> RR { Ok(()) }
fn alloc(mut e: Env, n: u32) -> Result<u32, RuntimeError> {
    e.data_mut().tick()?;
    let c = e.data_mut(); let n = n as usize;
    let mut at = c.static_pages;
    'o: loop {
        if at + n > c.max_pages { return Ok(u32::MAX) }
        for i in 0..n { if c.pages[at + i] { at += i + 1; continue 'o } }
        break;
    }
    for i in 0..n { c.pages[at + i] = true }
    let mem = c.mem.clone().unwrap();
    let cur = mem.view(&e).size().0 as usize;
    if at + n > cur { let d = (at + n - cur) as u32; mem.grow(&mut e, Pages(d)).map_err(|_| RuntimeError::new("grow"))?; }
    let z = vec![0u8; n * PAGE]; wr(&mut e, (at * PAGE) as u32, &z)?;
    Ok(at as u32)
}
fn free_range(mut e: Env, a: u32, b: u32) -> Result<u32, RuntimeError> {
    e.data_mut().tick()?;
    let c = e.data_mut();
    if a as usize >= c.static_pages && b as usize >= a as usize && (b as usize) < c.max_pages { for i in a..=b { c.pages[i as usize] = false } Ok(0) } else { Ok(1) }
}
fn free(e: Env, a: u32) -> Result<u32, RuntimeError> { free_range(e, a, a) }

/// Counts loop iterations, so that an execution that never ends runs out of gas as it would on chain.
#[derive(Debug, Default)]
struct Meter { global: std::sync::atomic::AtomicU32 }
#[derive(Debug)]
struct MeterFn { global: u32 }
pub const FUEL: i64 = 40_000_000;
impl ModuleMiddleware for Meter {
    fn generate_function_middleware(&self, _: LocalFunctionIndex) -> Box<dyn FunctionMiddleware> { Box::new(MeterFn { global: self.global.load(std::sync::atomic::Ordering::SeqCst) }) }
    fn transform_module_info(&self, m: &mut wasmer_types::ModuleInfo) -> Result<(), MiddlewareError> {
        let g = m.globals.push(GlobalType::new(Type::I64, Mutability::Var));
        m.global_initializers.push(GlobalInit::I64Const(FUEL));
        m.exports.insert("__fuel".to_string(), ExportIndex::Global(g));
        self.global.store(g.as_u32(), std::sync::atomic::Ordering::SeqCst);
        Ok(())
    }
}
impl FunctionMiddleware for MeterFn {
    fn feed<'a>(&mut self, op: wasmparser::Operator<'a>, s: &mut MiddlewareReaderState<'a>) -> Result<(), MiddlewareError> {
        use wasmparser::Operator::*;
        let is_loop = matches!(op, Loop { .. });
        s.push_operator(op);
        if is_loop {
            let g = self.global;
            s.extend([GlobalGet { global_index: g }, I64Const { value: 1 }, I64Sub, GlobalSet { global_index: g }, GlobalGet { global_index: g }, I64Const { value: 0 }, I64LtS,
                If { blockty: wasmparser::BlockType::Empty }, Unreachable, End]);
        }
        Ok(())
    }
}

pub struct Program { pub engine: wasmer::Engine, pub module: Module, pub static_pages: usize, pub sp: u32 }
impl Program {
    pub fn load(path: &str) -> Result<Arc<Program>, String> {
        let wasm = std::fs::read(path).map_err(|e| format!("{path}: {e}"))?;
        let engine: wasmer::Engine = {
            let mut c = Singlepass::default();
            c.push_middleware(Arc::new(Meter::default()));
            EngineBuilder::new(c).into()
        };
        let module = Module::new(&engine, &wasm).map_err(|e| e.to_string())?;
        let mem = module.imports().find_map(|i| match i.ty() { ExternType::Memory(m) => Some(m.minimum.0 as usize), _ => None }).ok_or("no memory import")?;
        Ok(Arc::new(Program { engine, module, static_pages: mem, sp: 0 }))
    }
}

pub struct Machine { store: Store, mem: Memory, env: FunctionEnv<Ctx>, f: BTreeMap<&'static str, Function>, /* absent in artefacts stripped by wasm-opt, which are only run for comparison */ sp: Option<Global>, sp0: i32, fuel: Global, pub fuel_used: i64, pub fuel_max: i64, pub committed: ProgState }
impl Machine {
    pub fn new(p: &Program) -> Result<Machine, String> { Machine::with_memory(p, MAX_PAGES) }
    pub fn with_memory(p: &Program, max_pages: usize) -> Result<Machine, String> {
        let mut store = Store::new(p.engine.clone());
        let mem = Memory::new(&mut store, MemoryType::new(p.static_pages as u32, Some(max_pages as u32), false)).map_err(|e| e.to_string())?;
        let ctx = Ctx { mem: Some(mem.clone()), pages: vec![false; max_pages], static_pages: p.static_pages, max_pages, msg: Msg { id: ZERO, source: ZERO, payload: vec![], value: 0, gas: 0, kind: Kind::Init, replied: false }, block: 0, ts: 0, nonce: 0, gas: 0, reserved: false, sent: vec![], reply: None, wakes: vec![], syscalls: 0, trap_at: None, value_available: 0 };
        let env = FunctionEnv::new(&mut store, ctx);
        let mut ns = Exports::new();
        macro_rules! f { ($($n:ident),*) => { $( ns.insert(stringify!($n), Function::new_typed_with_env(&mut store, &env, $n)); )* } }
        f!(gr_block_height, gr_block_timestamp, gr_gas_available, gr_value, gr_value_available, gr_source, gr_program_id, gr_message_id, gr_size, gr_read, gr_reply_deposit, gr_system_reserve_gas, gr_leave, gr_wait_for, gr_wait_up_to, gr_wait, gr_wake, gr_reply_code, gr_signal_code, gr_reply_to, gr_signal_from, gr_reply, gr_send, gr_send_wgas, gr_panic, gr_oom_panic, gr_debug, alloc, free_range, free);
        ns.insert("memory", mem.clone());
        let mut imports = Imports::new();
        imports.register_namespace("env", ns);
        let inst = Instance::new(&mut store, &p.module, &imports).map_err(|e| e.to_string())?;
        let sp = inst.exports.get_global("__stack_pointer").ok().cloned();
        let sp0 = sp.as_ref().map_or(0, |sp| sp.get(&mut store).i32().unwrap());
        let fuel = inst.exports.get_global("__fuel").map_err(|e| e.to_string())?.clone();
        let mut f = BTreeMap::new();
        for n in ["init", "handle", "handle_reply", "handle_signal"] { f.insert(n, inst.exports.get_function(n).map_err(|e| e.to_string())?.clone()); }
        let mut m = Machine { store, mem, env, f, sp, sp0, fuel, fuel_used: 0, fuel_max: 0, committed: ProgState { mem: vec![], pages: vec![false; max_pages] } };
        m.commit();
        Ok(m)
    }
    pub fn commit(&mut self) {
        let v = self.mem.view(&self.store);
        let n = v.data_size() as usize;
        self.committed.mem.resize(n, 0);
        v.read(0, &mut self.committed.mem).unwrap();
        self.committed.pages = self.env.as_ref(&self.store).pages.clone();
    }
    pub fn rollback(&mut self) {
        let v = self.mem.view(&self.store);
        v.write(0, &self.committed.mem).unwrap();
        self.env.as_mut(&mut self.store).pages = self.committed.pages.clone();
    }
    pub fn load_state(&mut self, s: &ProgState) {
        // grow if needed, then overwrite; pages above are zeroed by alloc
        let cur = self.mem.view(&self.store).data_size() as usize;
        if s.mem.len() > cur { self.mem.grow(&mut self.store, Pages(((s.mem.len() - cur) / PAGE) as u32)).unwrap(); }
        self.committed = s.clone();
        self.rollback();
    }
    /// Runs one execution. The memory is left as the execution left it: the caller commits or rolls back.
    pub fn exec(&mut self, msg: &Msg, block: u32, ts: u64, nonce: &mut u64, trap_at: Option<u32>, value_available: u128) -> Exec {
        {
            let c = self.env.as_mut(&mut self.store);
            c.msg = msg.clone(); c.block = block; c.ts = ts; c.nonce = *nonce; c.gas = msg.gas; c.reserved = false;
            c.sent.clear(); c.reply = None; c.wakes.clear(); c.syscalls = 0; c.trap_at = trap_at; c.value_available = value_available;
        }
        if let Some(sp) = &self.sp { sp.set(&mut self.store, Value::I32(self.sp0)).unwrap(); }
        self.fuel.set(&mut self.store, Value::I64(FUEL)).unwrap();
        let name = match msg.kind { Kind::Init => "init", Kind::Handle => "handle", Kind::Reply { .. } => "handle_reply", Kind::Signal { .. } => "handle_signal" };
        let f = self.f[name].clone();
        let exit = match f.call(&mut self.store, &[]) {
            Ok(_) => Exit::Done,
            Err(e) => match e.downcast::<Stop>() {
                Ok(s) => s.0,
                Err(e) => {
                    let t = e.to_trap().map(|t| format!("{t:?}")).unwrap_or_default();
                    Exit::Trap(format!("Reason is unknown. Possibly `unreachable` instruction is occurred ({t})"))
                }
            },
        };
        self.fuel_used = FUEL - self.fuel.get(&mut self.store).i64().unwrap();
        if self.fuel_used > self.fuel_max { self.fuel_max = self.fuel_used; }
        let exit = if self.fuel_used > FUEL { Exit::Trap("Not enough gas to continue execution".into()) } else { exit };
        let c = self.env.as_mut(&mut self.store);
        *nonce = c.nonce;
        Exec { exit, sent: std::mem::take(&mut c.sent), reply: c.reply.take(), wakes: std::mem::take(&mut c.wakes), syscalls: c.syscalls }
    }
}

#[derive(Clone, Debug)]
pub struct UserReply { pub to: Addr, pub payload: Vec<u8>, pub value: u128, pub ok: bool, pub text: String }
#[derive(Clone, Debug)]
pub struct Waiting { pub msg: Msg, pub until: u32 }
#[derive(Clone, Debug)]
pub struct TokenReply { pub to: Addr, pub from: Addr, pub payload: Vec<u8>, pub code: [u8; 4], pub gas: u64 }

/// Everything outside the program's memory.
#[derive(Clone)]
pub struct Chain {
    pub block: u32, pub ts: u64, pub nonce: u64,
    pub native: BTreeMap<Addr, u128>,
    pub waiting: BTreeMap<Addr, Waiting>,
    pub woken: VecDeque<Msg>,
    pub to_tokens: Vec<Sent>,
    pub replies: Vec<TokenReply>,
    pub done: BTreeMap<Addr, UserReply>,
    pub events: Vec<Sent>,
    pub other: Vec<Sent>,
    pub signals: VecDeque<Msg>,
    pub shadow: Option<ProgState>,
}
pub struct World {
    pub m: Machine, pub c: Chain, pub execs: u64, pub queries: u64, pub traps: u64, dirty: bool,
    /// a second build of the contract that executes every message too; the first difference is kept
    pub shadow: Option<Machine>, pub diverged: Option<String>, pub compared: u64,
}

pub const GAS: u64 = 250_000_000_000;
impl World {
    pub fn new(p: &Program) -> Result<World, String> { World::on(Machine::new(p)?) }
    pub fn on(m: Machine) -> Result<World, String> {
        Ok(World { m, c: Chain { block: 1000, ts: 1_700_000_000_000, nonce: 1, native: BTreeMap::new(), waiting: BTreeMap::new(), woken: VecDeque::new(), to_tokens: vec![], replies: vec![], done: BTreeMap::new(), events: vec![], other: vec![], signals: VecDeque::new(), shadow: None }, execs: 0, queries: 0, traps: 0, dirty: false, shadow: None, diverged: None, compared: 0 })
    }
    pub fn snapshot(&self) -> (ProgState, Chain) { let mut c = self.c.clone(); c.shadow = self.shadow.as_ref().map(|m| m.committed.clone()); (self.m.committed.clone(), c) }
    pub fn restore(&mut self, s: &(ProgState, Chain)) { self.dirty = false; self.m.load_state(&s.0); self.c = s.1.clone(); if let (Some(m), Some(t)) = (&mut self.shadow, self.c.shadow.take()) { m.load_state(&t) } }
    fn fresh(&mut self) -> Addr { self.c.nonce += 1; let mut h = [0x4d; 32]; h[..8].copy_from_slice(&self.c.nonce.to_le_bytes()); h }
    pub fn init(&mut self, from: Addr, payload: Vec<u8>) -> Result<(), String> {
        let id = self.fresh();
        let m = Msg { id, source: from, payload, value: 0, gas: GAS, kind: Kind::Init, replied: false };
        let e = self.run(m, None);
        match e.exit { Exit::Done | Exit::Leave => Ok(()), x => Err(format!("init: {x:?}")) }
    }
    /// A user message: runs its first execution.
    pub fn send(&mut self, from: Addr, payload: Vec<u8>, value: u128, gas: u64, trap_at: Option<u32>) -> (Addr, Exec) {
        let id = self.fresh();
        let bal = self.c.native.entry(from).or_insert(1 << 100);
        assert!(*bal >= value);
        *bal -= value;
        *self.c.native.entry(PROGRAM).or_insert(0) += value;
        let e = self.run(Msg { id, source: from, payload, value, gas, kind: Kind::Handle, replied: false }, trap_at);
        (id, e)
    }
    /// A message whose effects stay uncommitted until the caller commits or rolls back.
    pub fn bulk(&mut self, from: Addr, payload: Vec<u8>) -> Exec {
        self.end_queries();
        let id = self.fresh();
        self.execs += 1;
        let mut n = self.c.nonce;
        let e = self.m.exec(&Msg { id, source: from, payload, value: 0, gas: GAS, kind: Kind::Handle, replied: false }, self.c.block, self.c.ts, &mut n, None, 0);
        self.c.nonce = n;
        e
    }
    /// A query: executed like a message, never committed.
    pub fn query(&mut self, from: Addr, payload: Vec<u8>) -> Result<Vec<u8>, String> {
        self.queries += 1;
        self.dirty = true;
        let msg = Msg { id: [0x77; 32], source: from, payload, value: 0, gas: GAS * 10, kind: Kind::Handle, replied: false };
        let mut n = self.c.nonce;
        let e = self.m.exec(&msg, self.c.block, self.c.ts, &mut n, None, 0);
        self.mirror(&msg, &e, None, 0, true);
        match e.exit {
            // executions that end regularly are rolled back lazily by `end_queries`
            Exit::Done | Exit::Leave => e.reply.map(|r| r.0).ok_or("no reply".into()),
            Exit::Trap(t) => { self.m.rollback(); Err(t) }
            Exit::Wait(_) => { self.m.rollback(); Err("query waits".into()) }
        }
    }
    pub fn end_queries(&mut self) { if self.dirty { self.m.rollback(); self.dirty = false; if let Some(m) = &mut self.shadow { m.rollback() } } }
    fn mirror(&mut self, msg: &Msg, e: &Exec, trap_at: Option<u32>, va: u128, query: bool) {
        let mut nonce = self.c.nonce;
        let Some(m) = &mut self.shadow else { return };
        self.compared += 1;
        let f = m.exec(msg, self.c.block, self.c.ts, &mut nonce, trap_at, va);
        let good = |x: &Exec| !matches!(x.exit, Exit::Trap(_));
        // where the deployed build fails, nothing remains that could be wrong; both start over from the same state
        if !good(e) || query { if !good(e) || !good(&f) { m.rollback() } if !good(&f) || query { if good(e) != good(&f) && good(e) { self.diverged.get_or_insert(format!("the deployed build answers, with overflow checks: {:?}", f.exit)); } else if good(e) && e.reply != f.reply { self.diverged.get_or_insert("a query's answer differs from the checked build's".to_string()); } } return }
        let d = if !good(&f) { Some(format!("the deployed build succeeds, with overflow checks: {:?}", f.exit)) }
            else if f.exit != e.exit { Some(format!("the deployed build ends with {:?}, with overflow checks {:?}", e.exit, f.exit)) }
            else if f.reply != e.reply { Some("the reply differs from the checked build's".to_string()) }
            else if f.sent.iter().map(|s| (&s.dest, &s.payload, s.value)).ne(e.sent.iter().map(|s| (&s.dest, &s.payload, s.value))) { Some("the messages sent differ from the checked build's".to_string()) }
            else if f.wakes != e.wakes { Some("the wake-ups differ".to_string()) } else { None };
        if let Some(d) = d { self.diverged.get_or_insert(d); m.rollback() } else { m.commit() }
    }
    fn run(&mut self, msg: Msg, trap_at: Option<u32>) -> Exec {
        self.end_queries();
        self.execs += 1;
        let va = self.c.native.get(&PROGRAM).copied().unwrap_or(0);
        let mut nonce = self.c.nonce;
        let e = self.m.exec(&msg, self.c.block, self.c.ts, &mut nonce, trap_at, va);
        self.mirror(&msg, &e, trap_at, va, false);
        self.c.nonce = nonce;
        match &e.exit {
            Exit::Trap(text) => {
                self.traps += 1;
                self.m.rollback();
                let first = !self.c.waiting.contains_key(&msg.id) && matches!(msg.kind, Kind::Handle);
                if msg.kind == Kind::Handle || msg.kind == Kind::Init {
                    // the attached value goes back with the automatic error reply
                    let mut v = 0;
                    if first && msg.gas != u64::MAX { v = msg.value }
                    if v > 0 { *self.c.native.get_mut(&PROGRAM).unwrap() -= v; *self.c.native.entry(msg.source).or_insert(0) += v; }
                    if !msg.replied { self.c.done.insert(msg.id, UserReply { to: msg.source, payload: text.clone().into_bytes(), value: v, ok: false, text: text.clone() }); }
                    let id = self.fresh();
                    self.c.signals.push_back(Msg { id, source: ZERO, payload: vec![], value: 0, gas: GAS, kind: Kind::Signal { from: msg.id }, replied: false });
                }
            }
            _ => {
                self.m.commit();
                let mut msg = msg.clone();
                if let Some((p, v)) = &e.reply {
                    msg.replied = true;
                    *self.c.native.entry(PROGRAM).or_insert(0) -= v;
                    *self.c.native.entry(msg.source).or_insert(0) += v;
                    self.c.done.insert(msg.id, UserReply { to: msg.source, payload: p.clone(), value: *v, ok: true, text: String::new() });
                }
                for s in &e.sent {
                    if s.value > 0 { *self.c.native.entry(PROGRAM).or_insert(0) -= s.value; *self.c.native.entry(s.dest).or_insert(0) += s.value; }
                    if s.dest == ZERO { self.c.events.push(s.clone()) } else if s.gas.is_some() || s.deposit > 0 { self.c.to_tokens.push(s.clone()) } else { self.c.other.push(s.clone()) }
                }
                for w in &e.wakes { if let Some(x) = self.c.waiting.remove(w) { self.c.woken.push_back(x.msg) } }
                if let Exit::Wait(d) = e.exit { let until = self.c.block + d; msg.value = 0; self.c.waiting.insert(msg.id, Waiting { msg, until }); }
                else if msg.kind == Kind::Handle && !msg.replied { self.c.done.insert(msg.id, UserReply { to: msg.source, payload: vec![], value: 0, ok: true, text: String::new() }); }
            }
        }
        e
    }
    pub fn step_woken(&mut self, i: usize, gas: Option<u64>, trap_at: Option<u32>) -> Exec {
        let mut m = self.c.woken.remove(i).unwrap();
        if let Some(g) = gas { m.gas = g }
        self.run(m, trap_at)
    }
    pub fn step_signal(&mut self) -> Option<Exec> { let m = self.c.signals.pop_front()?; Some(self.run(m, None)) }
    pub fn deliver_reply(&mut self, r: TokenReply, trap_at: Option<u32>) -> Exec {
        let id = self.fresh();
        self.run(Msg { id, source: r.from, payload: r.payload, value: 0, gas: r.gas, kind: Kind::Reply { to: r.to, code: r.code }, replied: false }, trap_at)
    }
    pub fn advance(&mut self, blocks: u32) {
        self.c.block += blocks;
        self.c.ts += 3000 * blocks as u64;
        let due: Vec<Addr> = self.c.waiting.iter().filter(|(_, w)| w.until <= self.c.block).map(|(k, _)| *k).collect();
        for d in due { let w = self.c.waiting.remove(&d).unwrap(); self.c.woken.push_back(w.msg) }
    }
}
