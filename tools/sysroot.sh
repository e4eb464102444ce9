#!/bin/bash
# Builds std for wasm64-unknown-unknown (from the installed rust-src) into $1, offline.
# The copy is patched (tools/patch_std.py): DefaultHasher is constant, std::fs is in memory.
set -e
OUT=$1
SRC=$(rustc --print sysroot)/lib/rustlib/src/rust/library
W=$OUT.work
mkdir -p "$W"
if [ ! -d "$W/library" ]; then cp -a "$SRC" "$W/library"; fi
python3 "$(dirname "$0")/patch_std.py" "$W/library"
( cd "$W/library" && RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zforce-unstable-if-unmarked -Cpanic=abort -Cembed-bitcode=no -Cdebuginfo=0" \
  cargo build --offline --release -q -p std -p panic_abort --features compiler-builtins-mem --target wasm64-unknown-unknown --target-dir "$W/t" )
L=$OUT.tmp/lib/rustlib/wasm64-unknown-unknown/lib
mkdir -p "$L"
cp "$W"/t/wasm64-unknown-unknown/release/deps/*.rlib "$L/"
rm -rf "$W/t"
mv "$OUT.tmp" "$OUT"
