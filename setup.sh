#!/bin/bash
# Builds the harness against /repo's working tree, in every configuration.
cd "$(dirname "$0")" && ./build.sh && test -x target/release/mc && ./variants.sh && wasm/build.sh && neon/build.sh && python3 interp/run.py build
