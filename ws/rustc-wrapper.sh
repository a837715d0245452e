#!/bin/bash
# Compiles the on-chain crates with the on-chain configuration (target_os =
# "solana"), on the host: their syscalls then resolve to the emulated runtime.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; break; fi
  prev="$a"
done
case "$name" in
  swig|swig_state|swig_compact_instructions|swig_assertions|pinocchio|pinocchio_pubkey|pinocchio_system|pinocchio_token)
    exec "$rustc" "$@" --cfg 'target_os="solana"' -A explicit_builtin_cfgs_in_flags -A unexpected_cfgs -A warnings ;;
  host_state|host_assertions|swig_interface|swig_sdk) exec "$rustc" "$@" -A warnings ;;
  *) exec "$rustc" "$@" ;;
esac
