#!/bin/bash
# conform.sh OUT: runs every emulated intrinsic the library uses against the toolchain's own
# core::arch::aarch64 under Miri (aarch64), one process each, and writes the verdicts to OUT.
# Takes about ten minutes; a one-off check of the emulator, not part of a registered check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
w="${CONFORM_DIR:?a scratch directory}"
export XDG_CACHE_HOME="$w/cache" CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true
export RUSTFLAGS="-C target-feature=+rdm,+i8mm,+dotprod,+fp16"
mkdir -p "$w"
cargo +nightly miri setup --target aarch64-unknown-linux-gnu >/dev/null 2>&1 || exit 2
python3 "$here/gen.py" "$w/crate" > "$w/names"
cd "$w/crate" && cargo +nightly miri run --target aarch64-unknown-linux-gnu -- "$(head -1 "$w/names")" >/dev/null 2>&1
one() {
    o=$(timeout 300 cargo +nightly miri run -q --target aarch64-unknown-linux-gnu -- "$1" 2>&1)
    if r=$(grep -m1 -E "^(same|DIFF) " <<<"$o"); then echo "$r"
    else echo "none $1 $(grep -m1 -E '^error' <<<"$o")"; fi
}
export -f one
xargs -P "${CONFORM_JOBS:-4}" -I{} bash -c 'one {}' < "$w/names" | sort > "$1"
cut -d' ' -f1 "$1" | sort | uniq -c

