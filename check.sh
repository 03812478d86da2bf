#!/bin/bash
# check.sh ID [quick|thorough]: build the harness against /repo's working tree and decide one property.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export VERIF_ROOT=$VERIF
tier=${2:-${VERIF_TIER:-quick}}
log=$(mktemp)
build() { "$@" >"$log" 2>&1 || { tail -40 "$log"; rm -f "$log"; echo "check.sh: the build failed" >&2; exit 2; }; }
if [ "$1" = C33 ]; then
  build wasm/build.sh
  rm -f "$log"
  exec node wasm/run.mjs check "$tier"
fi
if [ "$1" = C34 ] || [ "$1" = C35 ]; then
  build neon/build.sh
  rm -f "$log"
  exec target/release/mcneon check "$1" "$tier"
fi
build cargo build --release --manifest-path mc/Cargo.toml
if [ "$1" = C37 ] || [ "$1" = C38 ]; then
  build python3 interp/run.py build "$1"
  rm -f "$log"
  exec python3 interp/run.py check "$1" "$tier"
fi
if [ "$1" = C29 ]; then
  build ./variants.sh
  export MC_VARIANTS="target/par/release/mc target/stable/release/mc target/bare/release/mc"
fi
rm -f "$log"
exec target/release/mc check "$1" "$tier"
