#!/bin/bash
rustc="$1"; shift
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      xorca_staking_program|pinocchio|pinocchio_*) exec "$rustc" "$@" --cfg 'target_os="solana"' -A explicit_builtin_cfgs_in_flags ;;
    esac
  fi
  prev="$a"
done
exec "$rustc" "$@"
