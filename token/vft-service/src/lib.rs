//! Stand-in for the fungible token service the token contract extends (gear-foundation/standards, not
//! available offline): same interface, same semantics.
#![no_std]
#![allow(static_mut_refs, clippy::new_without_default)]
use gstd::msg;
use sails_rs::{gstd::service, prelude::*};
pub mod funcs;
pub mod utils;
use utils::*;

#[derive(Default)]
pub struct Storage { balances: BalancesMap, allowances: AllowancesMap, name: String, symbol: String, decimals: u8, total_supply: U256 }
static mut STORAGE: Option<Storage> = None;
impl Storage {
    pub fn get_mut() -> &'static mut Self { unsafe { STORAGE.as_mut().expect("Storage is not initialized") } }
    pub fn balances() -> &'static mut BalancesMap { &mut Self::get_mut().balances }
    pub fn allowances() -> &'static mut AllowancesMap { &mut Self::get_mut().allowances }
    pub fn total_supply() -> &'static mut U256 { &mut Self::get_mut().total_supply }
    pub fn name() -> &'static str { &Self::get_mut().name }
    pub fn symbol() -> &'static str { &Self::get_mut().symbol }
    pub fn decimals() -> u8 { Self::get_mut().decimals }
}

#[derive(Encode, Decode, TypeInfo)]
pub enum Event {
    Approval { owner: ActorId, spender: ActorId, value: U256 },
    Transfer { from: ActorId, to: ActorId, value: U256 },
}

#[derive(Clone)]
pub struct Service();
impl Service {
    pub fn seed(name: String, symbol: String, decimals: u8) -> Self {
        unsafe { STORAGE = Some(Storage { name, symbol, decimals, ..Default::default() }) };
        Self()
    }
}

#[service(events = Event)]
impl Service {
    pub fn new() -> Self { Self() }
    pub fn approve(&mut self, spender: ActorId, value: U256) -> bool {
        let owner = msg::source();
        let mutated = funcs::approve(Storage::allowances(), owner, spender, value);
        if mutated { self.notify_on(Event::Approval { owner, spender, value }).expect("Notification Error") }
        mutated
    }
    pub fn transfer(&mut self, to: ActorId, value: U256) -> bool {
        let from = msg::source();
        let mutated = panicking(|| funcs::transfer(Storage::balances(), from, to, value));
        if mutated { self.notify_on(Event::Transfer { from, to, value }).expect("Notification Error") }
        mutated
    }
    pub fn transfer_from(&mut self, from: ActorId, to: ActorId, value: U256) -> bool {
        let spender = msg::source();
        let mutated = panicking(|| funcs::transfer_from(Storage::allowances(), Storage::balances(), spender, from, to, value));
        if mutated { self.notify_on(Event::Transfer { from, to, value }).expect("Notification Error") }
        mutated
    }
    pub fn allowance(&self, owner: ActorId, spender: ActorId) -> U256 { funcs::allowance(Storage::allowances(), owner, spender) }
    pub fn balance_of(&self, account: ActorId) -> U256 { funcs::balance_of(Storage::balances(), account) }
    pub fn decimals(&self) -> &'static u8 { &Storage::get_mut().decimals }
    pub fn name(&self) -> &'static str { Storage::name() }
    pub fn symbol(&self) -> &'static str { Storage::symbol() }
    pub fn total_supply(&self) -> &'static U256 { Storage::total_supply() }
}
