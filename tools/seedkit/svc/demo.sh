#!/bin/bash
# Builds the contract's wasm from /repo and plays the scenario in main.rs against it.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
mkdir "$S/contract" "$S/demo"
cp "$D/contract.toml" "$S/contract/Cargo.toml"; cp "$D/contract.lock" "$S/contract/Cargo.lock"; cp "$D/lib.rs" "$S/contract/"
cp "$D"/main.rs "$D"/kit.rs "$D"/rt.rs "$D"/api.rs "$D"/codec.rs "$D"/Cargo.toml "$D"/Cargo.lock "$S/demo/"
(cd "$S/contract" && cargo rustc --offline --locked --release --target wasm32-unknown-unknown -- -C link-arg=--import-memory -C link-arg=--export=__stack_pointer) >"$S/log1" 2>&1 &
(cd "$S/demo" && cargo build --offline --locked --release) >"$S/log2" 2>&1 || { tail -30 "$S/log2"; exit 3; }
wait %1 || { tail -30 "$S/log1"; exit 3; }
timeout 120 "$S/demo/target/release/demo" "$S/contract/target/wasm32-unknown-unknown/release/contract_wasm.wasm"
