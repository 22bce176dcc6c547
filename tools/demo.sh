#!/bin/bash
# Builds the library of the current directory in a scratch folder and runs demo.rs against it.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
unset RUSTC_WRAPPER CARGO_TARGET_DIR
cargo build --offline --lib --target-dir "$T/t" >"$T/log" 2>&1 || { cat "$T/log"; exit 3; }
rustc --edition 2024 -L "$T/t/debug/deps" --extern neure="$T/t/debug/libneure.rlib" -o "$T/demo" "$here/demo.rs" >"$T/log" 2>&1 || { cat "$T/log"; exit 3; }
timeout 60 "$T/demo"
