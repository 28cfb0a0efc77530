#!/bin/bash
# Builds the framework from the committed files; every check builds again what changed.
set -eu
cd "$(dirname "$0")"
. bin/env.sh
mkdir -p "$CARGO_TARGET_DIR"
for c in mc cl conf sd; do
  (cd $c && cargo build --release --locked -q) >"$CARGO_TARGET_DIR"/setup.log 2>&1 || { grep -E -A12 "^error" "$CARGO_TARGET_DIR"/setup.log | head -60; exit 1; }
done
