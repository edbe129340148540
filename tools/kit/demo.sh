#!/bin/bash
# Builds the program beside this script against the tree in the current directory and runs it:
# exit 0 if the property holds, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"; cp "$here"/*.json "$d/src/" 2>/dev/null
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$d/Cargo.toml"; cp "$here/Cargo.lock" "$d/"
cd "$d" || exit 2
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export LIBCLANG_PATH=/usr/lib/llvm-14/lib CARGO_TARGET_DIR="$d/target" CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1
cargo build --offline > "$d/log" 2>&1 || { tail -30 "$d/log"; exit 3; }
"$d/target/debug/demo"
