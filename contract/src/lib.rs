#![no_std]
#[allow(unused_imports)]
pub use invariant::*;
