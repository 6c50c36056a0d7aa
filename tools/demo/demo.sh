#!/bin/bash
# Builds and runs main.rs against the working tree in the current directory.
# Exit 0: the behaviour is right. Everything is kept in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
w="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$here/kit.rs" "$w/src/"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
asset-program = { path = "$repo/programs/asset/program" }
nifty-asset-types = { path = "$repo/programs/asset/types" }
nitrate = "0.1.0"
solana-program = "~1.16"
borsh = "^0.10"
T
export RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export pnpm_config_offline=true pnpm_config_fetch_retries=0
cd "$w" && cargo build --offline --target-dir "$w/target" >"$w/log" 2>&1 || { tail -30 "$w/log"; exit 2; }
"$w/target/debug/demo"
