#!/bin/bash
# Runs scenario.rs (beside this file) with the Rust client of the current directory's working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
scratch="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 9
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src"
cp "$here/scenario.rs" "$scratch/src/main.rs" && cp "$repo/Cargo.lock" "$scratch/Cargo.lock" || exit 9
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
publish = false
[workspace]
[dependencies]
xorca = { path = "$repo/rust-client"@FEATURES@ }
borsh = "^0.10"
@DEPS@
[profile.dev]
debug = 0
END
export CARGO_TARGET_DIR="$scratch/target" RUSTC_WRAPPER="" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
if ! (cd "$scratch" && cargo build --offline -q) >"$scratch/log" 2>&1; then
  tail -40 "$scratch/log"; echo "the demonstration could not be built"; exit 8
fi
timeout 120 "$scratch/target/debug/demo"
