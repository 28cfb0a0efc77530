# Sourced by every script: the repository's own toolchain, offline, with the program crates seeing the on-chain target.
. /opt/vp/env.sh 2>/dev/null || true
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.88.0}" CARGO_NET_OFFLINE=true
export VERIF="${VERIF:-$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)}"
export CARGO_TARGET_DIR="$VERIF/target"
export RUSTC_WRAPPER="$VERIF/bin/rustc-wrap.sh"
