#!/bin/sh
# RUSTC_WRAPPER: the crates that run on chain are compiled with the code paths
# they have on chain (target_os = "solana"); everything else is untouched.
rustc="$1"; shift
case "${CARGO_PKG_NAME:-}" in
  swig|swig-state|swig-compact-instructions|swig-assertions|pinocchio|pinocchio-system|pinocchio-pubkey|pinocchio-token)
    exec "$rustc" "$@" --cfg 'target_os="solana"' -A explicit_builtin_cfgs_in_flags -A warnings ;;
  *) exec "$rustc" "$@" ;;
esac
