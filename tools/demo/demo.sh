#!/bin/bash
# builds main.rs against the divans crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99
trap 'cd /; find "$t" -delete' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"; cp "$here/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<X
[package]
name = "vh"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
divans = { path = "$repo" }
alloc-no-stdlib = "~2.0"
alloc-stdlib = "~0.2"
brotli = "~3.1"
[profile.release]
opt-level = 1
X
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTFLAGS=-Awarnings
cd "$t" && cargo build -q --release --offline >build.log 2>&1 || { tail -30 build.log; exit 98; }
timeout ${DEMO_SECONDS:-100} "$t/target/release/vh"
rc=$?; echo "demo exit $rc"; exit $rc
