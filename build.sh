#!/bin/bash
cd "$(dirname "$0")" && . ./env.sh && cargo build --release --manifest-path mc/Cargo.toml 2>&1 | grep -E "^(error|warning: unus)|-->|Finished" | head -${1:-30}
