#!/bin/bash
# Builds main.rs against /repo's crates and runs it.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
cp "$D/main.rs" "$D/Cargo.toml" "$D/Cargo.lock" "$S/"
(cd "$S" && cargo build --offline --locked) >"$S/log" 2>&1 || { tail -30 "$S/log"; exit 3; }
timeout 120 "$S/target/debug/demo"
