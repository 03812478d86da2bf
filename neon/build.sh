#!/bin/bash
# The harness over the NEON code: a copy of /repo's sources with names rewritten, on emulated intrinsics.
cd "$(dirname "$0")/.." && . ./env.sh && python3 neon/gen.py target/neon/yuv && cargo build --release --manifest-path neon/Cargo.toml
