#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py (the planted bugs): patch.diff made in a scratch copy, demo.sh, main.rs, meta.json.
Run by hand: mkseeds.py [id ...]"""
import json, os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(__file__))
import seeds
WT = os.environ.get('SEEDWT', '/tmp/seedwt')
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'cd /; rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
yuv = { path = "$repo", default-features = false, features = [FEATURES] }
[profile.dev]
opt-level = 1
debug = false
[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
export RUSTUP_TOOLCHAIN=nightly-2025-04-15-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTC_WRAPPER= CARGO_INCREMENTAL=0
cargo build --offline --manifest-path "$t/Cargo.toml" >"$t/log" 2>&1 || { tail -30 "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
'''
WASM = DEMO.replace('cp "$here/main.rs" "$t/src/main.rs"', 'cp "$here/main.rs" "$t/src/lib.rs"').replace('[dependencies]', '[lib]\ncrate-type = ["cdylib"]\n[dependencies]').replace(
    'cargo build --offline', 'RUSTFLAGS="-C target-feature=+simd128" cargo build --offline --target wasm32-unknown-unknown').replace(
    'timeout 120 "$t/target/debug/demo"', """timeout 120 node -e '
const m = new WebAssembly.Module(require("fs").readFileSync(process.argv[1]));
process.exit(new WebAssembly.Instance(m, {}).exports.demo());' "$t/target/wasm32-unknown-unknown/debug/demo.wasm\"""")
NEON = DEMO.replace('mkdir "$t/src"', 'mkdir "$t/src"\npython3 "$here/gen.py" "$t/yuv" || exit 3').replace('yuv = { path = "$repo"', 'yuv = { path = "$t/yuv"').replace(
    '# Builds main.rs against the crate in the current directory', '# Builds main.rs against a copy of the crate in the current directory whose NEON code runs on emulated intrinsics (emu/),')
# under Miri, which needs its own toolchain and a standard library built on the spot
MIRI = DEMO.replace('opt-level = 1\ndebug = false', 'debug = false').replace('nightly-2025-04-15-x86_64', 'nightly-x86_64').replace(
    'RUSTC_WRAPPER= ', 'RUSTC_WRAPPER= RUSTFLAGS="RFLAGS" XDG_CACHE_HOME="$t" MIRI_SYSROOT="$t/miri" MIRIFLAGS="-Zmiri-symbolic-alignment-check" ').replace(
    'cargo build --offline --manifest-path "$t/Cargo.toml" >"$t/log" 2>&1', '(unset MIRI_SYSROOT RUSTFLAGS CARGO_TARGET_DIR; cargo miri setup --target MTARGET) >"$t/log" 2>&1').replace(
    'timeout 120 "$t/target/debug/demo"', 'cd "$t" && timeout 240 cargo miri run -q --target MTARGET')
def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout
want = sys.argv[1:]
for s in seeds.SEEDS:
    if want and s['id'] not in want:
        continue
    sh('git', '-C', WT, 'checkout', '-q', '--', '.')
    for f, old, new, nth in s['edits']:
        p = f'{WT}/{f}'
        t = open(p).read()
        parts = t.split(old)
        assert len(parts) > 1, (s['id'], 'not found', old)
        assert nth is not None or len(parts) == 2, (s['id'], 'ambiguous', len(parts) - 1)
        n = len(parts) - 2 if nth == 'last' else nth or 0
        if n == 'all':
            t = new.join(parts)
        else:
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, 'w').write(t)
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(sh('git', '-C', WT, 'diff'))
    open(f'{d}/main.rs', 'w').write(seeds.PRELUDE.replace('#![allow', s.get('head', '') + '#![allow', 1) + s['main'])
    feats = ', '.join(f'"{x}"' for x in s['features'])
    kind = s.get('kind', 'native')
    open(f'{d}/demo.sh', 'w').write({'native': DEMO, 'wasm': WASM, 'neon': NEON, 'miri': MIRI}[kind].replace('FEATURES', feats).replace('MTARGET', s.get('target', '')).replace('RFLAGS', s.get('rustflags', '')))
    if kind == 'neon':
        open(f'{d}/gen.py', 'w').write(open('/verif/neon/gen.py').read().replace("repo = '/repo'", 'repo = os.getcwd()'))
        shutil.copytree('/verif/neon/emu', f'{d}/emu', dirs_exist_ok=True, ignore=shutil.ignore_patterns('target', 'gen_emu.py'))
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    sh('git', '-C', WT, 'checkout', '-q', '--', '.')
    print('wrote', s['id'])
