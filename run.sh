#!/bin/bash
# run.sh ID [--replay FILE]   builds the harness of property ID from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL="${MC_OPT:-3}"
export LIBCLANG_PATH=/usr/lib/llvm-14/lib
export RUSTFLAGS="--force-warn unconditional_recursion"
ID="$1"; shift
case "$ID" in
  H01|H02|H03) H=sharing ;;
  C0?|N01|N03) H=cl ;;
  N02) H=bn ;;
  E02) H=symn ;;
  B0?) H=bbs ;;
  P0?) H=bp ;;
  Z0?) H=zmix ;;
  E01|S0?|K0?|H04) H=sym ;;
  W0?) H=wasm ;;
  F0?) H=ffi ;;
  *) echo "unknown property $ID" >&2; exit 2 ;;
esac
export CARGO_TARGET_DIR="$VERIF_DIR/target/$H"
LOG="$VERIF_DIR/target/$H.build.log"; mkdir -p "$VERIF_DIR/target" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
(cd "harness/$H" && cargo build --offline ${MC_UNLOCKED---locked}) > "$LOG" 2>&1 || { tail -40 "$LOG" >&2; echo "the harness does not build against /repo" >&2; exit 2; }
exec "$CARGO_TARGET_DIR/debug/h_$H" "$ID" "$@"
