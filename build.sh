#!/bin/bash
# Builds, from /repo's working tree: the token contract (default and with the feature "test"); the contract (deployed and checked profile) and the
# monitor; the arithmetic crates; the SDK's crate, natively and as the wasm module the TypeScript client uses.
# Usage: build.sh [contract|token|math|sdk|ts]...   (default: all)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
cd "$(dirname "$0")" || exit 2
T=$PWD/target
mkdir -p "$T"
exec 9>"$T/.lock"; flock 9
# cargo decides by modification times; a stamp over the contents makes sure nothing stale is used
stamp=$(cd /repo && find . -path ./.git -prune -o -path ./target -prune -o -path '*/node_modules' -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name 'Cargo.lock' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$T/.stamp" 2>/dev/null)" != "$stamp" ]; then
    find "$T" -type d \( -path '*/.fingerprint/invariant-*' -o -path '*/.fingerprint/contracts-*' -o -path '*/.fingerprint/extended-vft-app-*' -o -path '*/.fingerprint/math-*' -o -path '*/.fingerprint/decimal*' -o -path '*/.fingerprint/io-*' -o -path '*/.fingerprint/traceable_result-*' -o -path '*/.fingerprint/storage-*' -o -path '*/.fingerprint/wasm_wrapper-*' -o -path '*/.fingerprint/contract-wasm-*' -o -path '*/.fingerprint/mathcheck-*' -o -path '*/.fingerprint/sdkcheck-*' -o -path '*/.fingerprint/sdkwasm-*' \) -prune -exec rm -r {} + 2>/dev/null
    echo "$stamp" > "$T/.stamp"
fi
wasm() { # profile
    (cd contract && CARGO_TARGET_DIR=$T/contract-$1 cargo rustc --offline --locked --profile $1 --target wasm32-unknown-unknown -- \
        -C link-arg=--import-memory -C linker-plugin-lto -C link-arg=--export=__stack_pointer) >"$T/$1.log" 2>&1
}
token() { # feature
    (cd token && CARGO_TARGET_DIR=$T/token-$1 cargo rustc --offline --locked --release --features $1 --target wasm32-unknown-unknown -- \
        -C link-arg=--import-memory -C linker-plugin-lto -C link-arg=--export=__stack_pointer) >"$T/$1.log" 2>&1
}
native() { (cd $1 && CARGO_TARGET_DIR=$T/$1 cargo build --offline --locked --release) >"$T/$1.log" 2>&1; }
client() { (cd $1 && CARGO_TARGET_DIR=$T/$1 cargo build --offline --locked --release --target wasm32-unknown-unknown) >"$T/$1.log" 2>&1; }
what=${*:-contract token math sdk ts}
pids=(); names=()
go() { "$@" & pids+=($!); names+=("$2"); }
for w in $what; do
    case $w in
        contract) go wasm release; go wasm checked; go native monitor;;
        token) go token default; go token test;;
        math) go native mathcheck;;
        sdk) go native sdkcheck;;
        ts) go client sdkwasm;;
    esac
done
rc=0
for i in ${!pids[@]}; do
    wait ${pids[$i]} || { rc=1; echo "build of ${names[$i]} failed" >&2; tail -40 "$T/${names[$i]}.log" >&2; }
done
exit $rc
