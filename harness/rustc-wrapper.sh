#!/bin/sh
# Builds the staking program and the pinocchio crates as they are built on chain (cfg target_os = "solana"), natively;
# the harness provides the runtime's system calls.  Every other crate is compiled untouched.
real="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  pinocchio|pinocchio_log|pinocchio_pubkey|pinocchio_token|pinocchio_system|pinocchio_associated_token_account|xorca_staking_program)
    # only the rlib: a cdylib would want the system calls at link time
    n=$#
    while [ "$n" -gt 0 ]; do
      a="$1"; shift
      if [ "$a" = "cdylib" ] && [ "$last" = "--crate-type" ]; then a="rlib"; fi
      last="$a"
      set -- "$@" "$a"
      n=$((n - 1))
    done
    exec "$real" "$@" --cfg 'target_os="solana"' -A explicit_builtin_cfgs_in_flags ;;
  *) exec "$real" "$@" ;;
esac
