//! The contract's public interface as seen on the wire.
use crate::codec::*;
use crate::rt::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tier { pub fee: u128, pub spacing: u16 }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Key { pub x: Addr, pub y: Addr, pub tier: Tier }
#[derive(Clone, Debug, PartialEq)]
pub struct Pool { pub liquidity: N, pub price: u128, pub tick: i32, pub gx: u128, pub gy: u128, pub px: N, pub py: N, pub start: u64, pub last: u64, pub receiver: Addr }
#[derive(Clone, Debug, PartialEq)]
pub struct Position { pub key: Key, pub liquidity: N, pub lower: i32, pub upper: i32, pub gix: u128, pub giy: u128, pub block: u64, pub owed_x: N, pub owed_y: N }
#[derive(Clone, Debug, PartialEq)]
pub struct Tick { pub index: i32, pub sign: bool, pub change: N, pub gross: N, pub price: u128, pub gox: u128, pub goy: u128, pub secs: u64 }
#[derive(Clone, Debug, PartialEq)]
pub struct SwapRes { pub amount_in: N, pub amount_out: N, pub start: u128, pub target: u128, pub fee: N, pub pool: Pool, pub ticks: Vec<Tick> }
#[derive(Clone, Debug, PartialEq)]
pub struct Quote { pub amount_in: N, pub amount_out: N, pub target: u128, pub ticks: Vec<Tick> }
#[derive(Clone, Debug, PartialEq)]
pub struct LiqTick { pub index: i32, pub change: N, pub sign: bool }
#[derive(Clone, Debug, PartialEq)]
pub struct PosTick { pub index: i32, pub gox: u128, pub goy: u128, pub secs: u64 }
#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    Created { ts: u64, who: Addr, key: Key, liquidity: N, lower: i32, upper: i32, price: u128 },
    Removed { ts: u64, who: Addr, key: Key, liquidity: N, lower: i32, upper: i32, price: u128 },
    Cross { ts: u64, who: Addr, key: Key, ticks: Vec<i32> },
    Swap { ts: u64, who: Addr, key: Key, amount_in: N, amount_out: N, fee: N, start: u128, target: u128, x_to_y: bool },
}

pub fn e_tier(e: E, t: &Tier) -> E { e.u128(t.fee).u16(t.spacing) }
pub fn e_key(e: E, k: &Key) -> E { e_tier(e.addr(&k.x).addr(&k.y), &k.tier) }
pub fn d_tier(d: &mut D) -> R<Tier> { Ok(Tier { fee: d.u128()?, spacing: d.u16()? }) }
pub fn d_key(d: &mut D) -> R<Key> { Ok(Key { x: d.addr()?, y: d.addr()?, tier: d_tier(d)? }) }
pub fn d_pool(d: &mut D) -> R<Pool> { Ok(Pool { liquidity: d.u256()?, price: d.u128()?, tick: d.i32()?, gx: d.u128()?, gy: d.u128()?, px: d.u256()?, py: d.u256()?, start: d.u64()?, last: d.u64()?, receiver: d.addr()? }) }
pub fn d_pos(d: &mut D) -> R<Position> { Ok(Position { key: d_key(d)?, liquidity: d.u256()?, lower: d.i32()?, upper: d.i32()?, gix: d.u128()?, giy: d.u128()?, block: d.u64()?, owed_x: d.u256()?, owed_y: d.u256()? }) }
pub fn d_tick(d: &mut D) -> R<Tick> { Ok(Tick { index: d.i32()?, sign: d.bool()?, change: d.u256()?, gross: d.u256()?, price: d.u128()?, gox: d.u128()?, goy: d.u128()?, secs: d.u64()? }) }
pub fn d_swap(d: &mut D) -> R<SwapRes> { Ok(SwapRes { amount_in: d.u256()?, amount_out: d.u256()?, start: d.u128()?, target: d.u128()?, fee: d.u256()?, pool: d_pool(d)?, ticks: d.vec(d_tick)? }) }
pub fn d_quote(d: &mut D) -> R<Quote> { Ok(Quote { amount_in: d.u256()?, amount_out: d.u256()?, target: d.u128()?, ticks: d.vec(d_tick)? }) }
pub fn d_event(b: &[u8]) -> R<Event> {
    let mut d = D(b);
    if d.str()? != "Service" { return Err(Bad) }
    let name = d.str()?;
    let ts = d.u64()?; let who = d.addr()?; let key = d_key(&mut d)?;
    let e = match name.as_str() {
        "PositionCreatedEvent" => Event::Created { ts, who, key, liquidity: d.u256()?, lower: d.i32()?, upper: d.i32()?, price: d.u128()? },
        "PositionRemovedEvent" => Event::Removed { ts, who, key, liquidity: d.u256()?, lower: d.i32()?, upper: d.i32()?, price: d.u128()? },
        "CrossTickEvent" => Event::Cross { ts, who, key, ticks: d.vec(|d| d.i32())? },
        "SwapEvent" => Event::Swap { ts, who, key, amount_in: d.u256()?, amount_out: d.u256()?, fee: d.u256()?, start: d.u128()?, target: d.u128()?, x_to_y: d.bool()? },
        _ => return Err(Bad),
    };
    d.end()?;
    Ok(e)
}

/// Strips the "Service"/method prefix of a reply.
pub fn body<'a>(method: &str, b: &'a [u8]) -> Result<D<'a>, String> {
    let mut d = D(b);
    if d.str().ok().as_deref() != Some("Service") || d.str().ok().as_deref() != Some(method) { return Err(format!("malformed reply to {method}")) }
    Ok(d)
}

/// A state-changing call.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    SetProtocolFee(u128), AddTier(Tier), RemoveTier(Tier),
    CreatePool { a: Addr, b: Addr, tier: Tier, price: u128, tick: i32 },
    SetReceiver { key: Key, to: Addr },
    Create { key: Key, lower: i32, upper: i32, liquidity: N, min: u128, max: u128 },
    Remove(u32), Transfer { index: u32, to: Addr }, Claim(u32),
    Swap { key: Key, x_to_y: bool, amount: N, by_in: bool, limit: u128 },
    Route { amount: N, expected: N, slippage: u128, hops: Vec<(Key, bool)> },
    CollectProtocol(Key),
    DepositVara(u128), WithdrawVara(Option<N>),
    Deposit { token: Addr, amount: N }, Withdraw { token: Addr, amount: Option<N> },
    DepositPair { a: (Addr, N), b: (Addr, N) }, WithdrawPair { a: (Addr, Option<N>), b: (Addr, Option<N>) },
    Raw(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ret { Unit, Amount(N), Pair(N, N), Position(Position), Swap(SwapRes), Fee(u128), Tier(Tier) }

impl Op {
    pub fn method(&self) -> &'static str {
        use Op::*;
        match self {
            SetProtocolFee(_) => "ChangeProtocolFee", AddTier(_) => "AddFeeTier", RemoveTier(_) => "RemoveFeeTier", CreatePool { .. } => "CreatePool",
            SetReceiver { .. } => "ChangeFeeReceiver", Create { .. } => "CreatePosition", Remove(_) => "RemovePosition", Transfer { .. } => "TransferPosition",
            Claim(_) => "ClaimFee", Swap { .. } => "Swap", Route { .. } => "SwapRoute", CollectProtocol(_) => "WithdrawProtocolFee",
            DepositVara(_) => "DepositVara", WithdrawVara(_) => "WithdrawVara", Deposit { .. } => "DepositSingleToken", Withdraw { .. } => "WithdrawSingleToken",
            DepositPair { .. } => "DepositTokenPair", WithdrawPair { .. } => "WithdrawTokenPair", Raw(_) => "Raw",
        }
    }
    pub fn is_token_call(&self) -> bool { matches!(self, Op::Deposit { .. } | Op::Withdraw { .. } | Op::DepositPair { .. } | Op::WithdrawPair { .. }) }
    pub fn value(&self) -> u128 { if let Op::DepositVara(v) = self { *v } else { 0 } }
    pub fn payload(&self) -> Vec<u8> {
        use Op::*;
        if let Raw(b) = self { return b.clone() }
        let e = E::call(self.method());
        match self {
            SetProtocolFee(f) => e.u128(*f),
            AddTier(t) | RemoveTier(t) => e_tier(e, t),
            CreatePool { a, b, tier, price, tick } => e_tier(e.addr(a).addr(b), tier).u128(*price).i32(*tick),
            SetReceiver { key, to } => e_key(e, key).addr(to),
            Create { key, lower, upper, liquidity, min, max } => e_key(e, key).i32(*lower).i32(*upper).u256(liquidity).u128(*min).u128(*max),
            Remove(i) | Claim(i) => e.u32(*i),
            Transfer { index, to } => e.u32(*index).addr(to),
            Swap { key, x_to_y, amount, by_in, limit } => e_key(e, key).bool(*x_to_y).u256(amount).bool(*by_in).u128(*limit),
            Route { amount, expected, slippage, hops } => e.u256(amount).u256(expected).u128(*slippage).vec(hops, |e, (k, d)| e_key(e, k).bool(*d)),
            CollectProtocol(k) => e_key(e, k),
            DepositVara(_) => e,
            WithdrawVara(v) => e.opt_u256(v),
            Deposit { token, amount } => e.addr(token).u256(amount),
            Withdraw { token, amount } => e.addr(token).opt_u256(amount),
            DepositPair { a, b } => e.addr(&a.0).u256(&a.1).addr(&b.0).u256(&b.1),
            WithdrawPair { a, b } => e.addr(&a.0).opt_u256(&a.1).addr(&b.0).opt_u256(&b.1),
            Raw(_) => unreachable!(),
        }.0
    }
    pub fn decode(&self, b: &[u8]) -> Result<Ret, String> {
        use Op::*;
        let mut d = body(self.method(), b)?;
        let f = |d: &mut D| -> R<Ret> {
            let r = match self {
                SetProtocolFee(_) => Ret::Fee(d.u128()?),
                AddTier(_) | RemoveTier(_) => Ret::Tier(d_tier(d)?),
                CreatePool { .. } | SetReceiver { .. } | Transfer { .. } | CollectProtocol(_) => Ret::Unit,
                Create { .. } => Ret::Position(d_pos(d)?),
                Remove(_) | Claim(_) | DepositPair { .. } | WithdrawPair { .. } => Ret::Pair(d.u256()?, d.u256()?),
                Swap { .. } => Ret::Swap(d_swap(d)?),
                Route { .. } | DepositVara(_) | WithdrawVara(_) | Deposit { .. } | Withdraw { .. } => Ret::Amount(d.u256()?),
                Raw(_) => return Err(Bad),
            };
            d.end()?;
            Ok(r)
        };
        f(&mut d).map_err(|_| format!("malformed reply to {}", self.method()))
    }
}

impl Op {
    /// Reads a call back from the bytes a client sent.
    pub fn parse(b: &[u8], value: u128) -> R<Op> {
        let mut d = D(b);
        if d.str()? != "Service" { return Err(Bad) }
        let m = d.str()?;
        let d = &mut d;
        let opt = |d: &mut D| -> R<Option<N>> { match d.u8()? { 0 => Ok(None), 1 => Ok(Some(d.u256()?)), _ => Err(Bad) } };
        let op = match m.as_str() {
            "ChangeProtocolFee" => Op::SetProtocolFee(d.u128()?), "AddFeeTier" => Op::AddTier(d_tier(d)?), "RemoveFeeTier" => Op::RemoveTier(d_tier(d)?),
            "CreatePool" => Op::CreatePool { a: d.addr()?, b: d.addr()?, tier: d_tier(d)?, price: d.u128()?, tick: d.i32()? },
            "ChangeFeeReceiver" => Op::SetReceiver { key: d_key(d)?, to: d.addr()? },
            "CreatePosition" => Op::Create { key: d_key(d)?, lower: d.i32()?, upper: d.i32()?, liquidity: d.u256()?, min: d.u128()?, max: d.u128()? },
            "RemovePosition" => Op::Remove(d.u32()?), "ClaimFee" => Op::Claim(d.u32()?),
            "TransferPosition" => Op::Transfer { index: d.u32()?, to: d.addr()? },
            "Swap" => Op::Swap { key: d_key(d)?, x_to_y: d.bool()?, amount: d.u256()?, by_in: d.bool()?, limit: d.u128()? },
            "SwapRoute" => Op::Route { amount: d.u256()?, expected: d.u256()?, slippage: d.u128()?, hops: d.vec(|d| Ok((d_key(d)?, d.bool()?)))? },
            "WithdrawProtocolFee" => Op::CollectProtocol(d_key(d)?),
            "DepositVara" => Op::DepositVara(value), "WithdrawVara" => Op::WithdrawVara(opt(d)?),
            "DepositSingleToken" => Op::Deposit { token: d.addr()?, amount: d.u256()? },
            "WithdrawSingleToken" => Op::Withdraw { token: d.addr()?, amount: opt(d)? },
            "DepositTokenPair" => Op::DepositPair { a: (d.addr()?, d.u256()?), b: (d.addr()?, d.u256()?) },
            "WithdrawTokenPair" => Op::WithdrawPair { a: (d.addr()?, opt(d)?), b: (d.addr()?, opt(d)?) },
            _ => return Err(Bad),
        };
        d.end()?;
        Ok(op)
    }
}

/// Typed queries. A query that traps is an Err(text).
pub type Q<T> = Result<T, String>;
impl World {
    pub fn q<T>(&mut self, m: &'static str, args: impl Fn(E) -> E, f: impl Fn(&mut D) -> R<T>) -> Q<T> {
        let b = self.query([9; 32], args(E::call(m)).0)?;
        let mut d = body(m, &b)?;
        let r = f(&mut d).map_err(|_| format!("malformed reply to {m}"))?;
        d.end().map_err(|_| format!("trailing bytes in reply to {m}"))?;
        Ok(r)
    }
    pub fn protocol_fee(&mut self) -> Q<u128> { self.q("GetProtocolFee", |e| e, |d| d.u128()) }
    pub fn tiers(&mut self) -> Q<Vec<Tier>> { self.q("GetFeeTiers", |e| e, |d| d.vec(d_tier)) }
    pub fn tier_exists(&mut self, t: Tier) -> Q<bool> { self.q("FeeTierExists", |e| e_tier(e, &t), |d| d.bool()) }
    pub fn pool(&mut self, k: &Key) -> Q<Result<Pool, u8>> { self.q("GetPool", |e| e_tier(e.addr(&k.x).addr(&k.y), &k.tier), |d| d.res(d_pool)) }
    pub fn pool_by(&mut self, a: &Addr, b: &Addr, t: &Tier) -> Q<Result<Pool, u8>> { self.q("GetPool", |e| e_tier(e.addr(a).addr(b), t), |d| d.res(d_pool)) }
    pub fn pool_keys(&mut self, size: u16, off: u16) -> Q<(Vec<Key>, u16)> { self.q("GetPoolKeys", |e| e.u16(size).u16(off), |d| Ok((d.vec(d_key)?, d.u16()?))) }
    pub fn pools_for_pair(&mut self, a: &Addr, b: &Addr) -> Q<Result<Vec<(Tier, Pool)>, u8>> { self.q("GetAllPoolsForPair", |e| e.addr(a).addr(b), |d| d.res(|d| d.vec(|d| Ok((d_tier(d)?, d_pool(d)?))))) }
    pub fn balances(&mut self, u: &Addr) -> Q<Vec<(Addr, N)>> { self.q("GetUserBalances", |e| e.addr(u), |d| d.vec(|d| Ok((d.addr()?, d.u256()?)))) }
    pub fn positions(&mut self, u: &Addr) -> Q<Vec<Position>> { self.q("GetAllPositions", |e| e.addr(u), |d| d.vec(d_pos)) }
    pub fn position(&mut self, u: &Addr, i: u32) -> Q<Result<Position, u8>> { self.q("GetPosition", |e| e.addr(u).u32(i), |d| d.res(d_pos)) }
    pub fn position_count(&mut self, u: &Addr) -> Q<u32> { self.q("GetUserPositionAmount", |e| e.addr(u), |d| d.u32()) }
    pub fn positions_page(&mut self, u: &Addr, size: u32, off: u32) -> Q<Result<(Vec<(Pool, Vec<(Position, u32)>)>, u32), u8>> {
        self.q("GetPositions", |e| e.addr(u).u32(size).u32(off), |d| d.res(|d| Ok((d.vec(|d| Ok((d_pool(d)?, d.vec(|d| Ok((d_pos(d)?, d.u32()?)))?)))?, d.u32()?))))
    }
    pub fn associates(&mut self, u: &Addr, i: u32) -> Q<Result<(Position, Pool, Tick, Tick), u8>> { self.q("GetPositionWithAssociates", |e| e.addr(u).u32(i), |d| d.res(|d| Ok((d_pos(d)?, d_pool(d)?, d_tick(d)?, d_tick(d)?)))) }
    pub fn tick(&mut self, k: &Key, i: i32) -> Q<Result<Tick, u8>> { self.q("GetTick", |e| e_key(e, k).i32(i), |d| d.res(d_tick)) }
    pub fn tick_init(&mut self, k: &Key, i: i32) -> Q<bool> { self.q("IsTickInitialized", |e| e_key(e, k).i32(i), |d| d.bool()) }
    pub fn tickmap(&mut self, k: &Key) -> Q<Vec<(u16, u64)>> { self.q("GetTickmap", |e| e_key(e, k), |d| d.vec(|d| Ok((d.u16()?, d.u64()?)))) }
    pub fn tick_count(&mut self, k: &Key) -> Q<u32> { self.q("GetLiquidityTicksAmount", |e| e_key(e, k), |d| d.u32()) }
    pub fn liq_ticks(&mut self, k: &Key, t: &[i32]) -> Q<Result<Vec<LiqTick>, u8>> { self.q("GetLiquidityTicks", |e| e_key(e, k).vec(t, |e, i| e.i32(*i)), |d| d.res(|d| d.vec(|d| Ok(LiqTick { index: d.i32()?, change: d.u256()?, sign: d.bool()? })))) }
    pub fn pos_ticks(&mut self, u: &Addr, off: u32) -> Q<Vec<PosTick>> { self.q("GetPositionTicks", |e| e.addr(u).u32(off), |d| d.vec(|d| Ok(PosTick { index: d.i32()?, gox: d.u128()?, goy: d.u128()?, secs: d.u64()? }))) }
    pub fn quote(&mut self, k: &Key, x_to_y: bool, amount: &N, by_in: bool, limit: u128) -> Q<Result<Quote, u8>> { self.q("Quote", |e| e_key(e, k).bool(x_to_y).u256(amount).bool(by_in).u128(limit), |d| d.res(d_quote)) }
    pub fn quote_route(&mut self, amount: &N, hops: &[(Key, bool)]) -> Q<Result<N, u8>> { self.q("QuoteRoute", |e| e.u256(amount).vec(hops, |e, (k, d)| e_key(e, k).bool(*d)), |d| d.res(|d| d.u256())) }
}
