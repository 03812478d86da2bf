#!/bin/bash
# Builds the harness against /repo's working tree in the other configurations of C29.
cd "$(dirname "$0")" && . ./env.sh || exit 2
features() { case $1 in par) echo full,par;; stable) echo simd;; bare) echo "";; esac; }
pids=()
for v in par stable bare; do
  CARGO_TARGET_DIR=$VERIF/target/$v cargo build --release --manifest-path mc/Cargo.toml --no-default-features --features "$(features $v)" &
  pids+=($!)
done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=2; done
exit $rc
