#!/bin/bash
# Builds the library and the harness for WebAssembly, with and without SIMD, from /repo's working tree.
cd "$(dirname "$0")" && . ../env.sh || exit 2
go() { RUSTFLAGS="$2" CARGO_TARGET_DIR=$VERIF/target/wasm-$1 cargo build --release --target wasm32-unknown-unknown; }
go simd "-C target-feature=+simd128" & a=$!
go scalar "" & b=$!
wait $a && wait $b
