#!/bin/bash
# check.sh setup | <ID> quick|thorough | replay <file> | list
# Builds the harness against /repo's working tree, then runs one check.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="${VERIF_ROOT:-$here}"
export RUSTUP_TOOLCHAIN=1.91.0 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-$here/target}"
export RUSTC_WRAPPER="$here/harness/rustc-wrap.sh"
unset RUSTFLAGS
log="$(mktemp)"
build() { (cd "$here/harness" && cargo build --release --offline --locked "$@") >"$log" 2>&1; }
if ! build && ! build -p swigpbt --no-default-features --features sdk && ! build -p swigpbt --no-default-features --features client && ! build -p swigpbt --no-default-features; then
  tail -40 "$log"; rm -f "$log"
  echo "ERROR: the harness does not build against /repo"
  exit 2
fi
rm -f "$log"
bin="$CARGO_TARGET_DIR/release/swigpbt"
case "$1" in
  setup) echo "built $bin"; exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  list) exec "$bin" list ;;
  *) exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
