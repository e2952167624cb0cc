pub use invariant_vara_wasm::*;
