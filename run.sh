#!/bin/bash
# run.sh <property> [quick|thorough]: build from /repo's working tree, explore, write evidence/<property>.json.
set -u
cd "$(dirname "$0")"
. bin/env.sh
mkdir -p "$CARGO_TARGET_DIR"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
build() {
  if ! (cd "$1" && cargo build --release --locked -q) >"$CARGO_TARGET_DIR"/build.log 2>&1; then
    grep -E -A12 "^error" "$CARGO_TARGET_DIR"/build.log | head -60; echo "build failed"; exit 2
  fi
}
build mc
case "$id" in
C13)
  build cl
  file="$CARGO_TARGET_DIR/ledgers.$$.json"
  trap 'rm -f "$file"' EXIT
  target/release/xmc ledgers "$file" "$tier" || exit 2
  target/release/xcl "$tier" "$file"
  ;;
C19)
  file="$CARGO_TARGET_DIR/ledgers.$$.json"
  trap 'rm -f "$file"' EXIT
  target/release/xmc ledgers "$file" "$tier" || exit 2
  node --no-warnings js/fetch.mjs "$tier" "$file" /repo
  ;;
C20|C21)
  node --no-warnings js/scripts.mjs "$id" "$tier" /repo
  ;;
C23)
  build sd
  file="$CARGO_TARGET_DIR/records.$$.jsonl"
  trap 'rm -f "$file"' EXIT
  target/release/xmc wire "$file" "$tier" || exit 2
  target/release/xsd "$tier" "$file"
  ;;
C22)
  node --no-warnings js/keys.mjs "$tier" /repo
  ;;
C24)
  node --no-warnings js/upload.mjs "$tier" /repo
  ;;
C02)
  # The runtime the explorations run in, compared with LiteSVM on what they execute.
  build conf
  export CONFORMANCE="$CARGO_TARGET_DIR/conformance.$$.json"
  trap 'rm -f "$CONFORMANCE"' EXIT
  target/release/xconf "$tier" "$CONFORMANCE" 2>"$CARGO_TARGET_DIR"/conformance.log
  same=$?
  target/release/xmc check "$id" "$tier"
  rc=$?
  if [ $rc = 0 ] && [ $same != 0 ]; then
    echo "the re-implemented runtime and LiteSVM differ:"; grep -A1 DIFFERENT "$CARGO_TARGET_DIR"/conformance.log | cut -c1-600 | head -6
    exit 2
  fi
  exit $rc
  ;;
*)
  target/release/xmc check "$id" "$tier"
  ;;
esac
