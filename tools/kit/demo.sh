#!/bin/bash
# Runs scenario.rs (beside this file) against the program in the current directory's working tree.
# Exit 0: the scenario's expectations hold; anything else: they do not.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
scratch="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 9
trap 'rm -rf "$scratch"' EXIT
tar -xzf "$here/kit.tar.gz" -C "$scratch" || exit 9
cp "$here/scenario.rs" "$scratch/src/scenario.rs" || exit 9
sed -i "s#@REPO@#$repo#" "$scratch/Cargo.toml"
export CARGO_TARGET_DIR="$scratch/target" RUSTC_WRAPPER="$scratch/rustc-wrap.sh" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
if ! (cd "$scratch" && cargo build --release --offline -q) >"$scratch/log" 2>&1; then
  tail -40 "$scratch/log"; echo "the demonstration could not be built"; exit 8
fi
timeout 120 "$scratch/target/release/demo"
