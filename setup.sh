#!/bin/bash
# builds the harness and the tool once, so that the checks only rebuild what a change to /repo touches
cd "$(dirname "$0")" || exit 2
V="$PWD"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR LD_LIBRARY_PATH RUSTC_WRAPPER
cargo build --release --offline -q --manifest-path /repo/Cargo.toml --bin divans --target-dir "$V/target/cli" 2>&1 | grep -E '^error' -A7
[ "${PIPESTATUS[0]}" = 0 ] || exit 1
cd harness || exit 2
for p in release checked; do cargo build --profile $p --offline -q 2>&1 | grep -v warning | tail -5; [ "${PIPESTATUS[0]}" = 0 ] || exit 1; done
