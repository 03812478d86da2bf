#!/usr/bin/env python3
"""gen.py OUT: a copy of the library in /repo in which the code for aarch64 is what gets compiled.

Nothing but names is rewritten: the configuration predicates of aarch64 with NEON hold and those of x86
do not, the intrinsics come from the crate neon_emu instead of std::arch::aarch64, run-time feature
detection asks that crate, and attributes naming features x86 does not have are dropped."""
import os, re, sys
out = sys.argv[1]
here = os.path.dirname(os.path.abspath(__file__))
repo = '/repo'

def conv(t):
    t = re.sub(r'target_arch\s*=\s*"aarch64"', 'not(neon_off)', t)
    t = re.sub(r'target_feature\s*=\s*"neon"', 'not(neon_off)', t)
    t = re.sub(r'target_arch\s*=\s*"x86(_64)?"', 'neon_off', t)
    t = re.sub(r'\b(std|core)::arch::aarch64\b', '::neon_emu', t)
    t = re.sub(r'\b(std|core)::(arch::)?is_aarch64_feature_detected!', '::neon_emu::detected!', t)
    t = re.sub(r'\b(std|core)::arch::asm\b', '::neon_emu::asm', t)
    t = re.sub(r'#\[target_feature\(\s*enable\s*=\s*"(neon|rdm|i8mm|fp16|dotprod|,)+"\s*\)\]', '', t)
    # compiler gates of stdarch's aarch64 module: there is nothing to gate here
    t = re.sub(r'\bfeature\(stdarch_neon_\w+\)', 'allow(unused)', t)
    return t

want = {}
for d, ds, fs in os.walk(repo + '/src'):
    for f in fs:
        p = os.path.join(d, f)
        r = os.path.relpath(p, repo)
        if f.endswith('.rs'):
            want[r] = conv(open(p).read())
toml = open(repo + '/Cargo.toml').read()
toml = re.sub(r'(?m)^workspace\s*=.*$', '', toml)
toml = re.sub(r'(?s)\[dev-dependencies\].*?(?=\n\[)', '', toml)
toml = re.sub(r'(?s)\n\[(\[bench\]|\[example\]|profile|package\.metadata|workspace)[^\n]*\n.*?(?=\n\[|\Z)', '\n', toml)
toml = toml.replace('[dependencies]', f'[dependencies]\nneon_emu = {{ path = "{here}/emu" }}')
want['Cargo.toml'] = toml
for r, t in want.items():
    p = os.path.join(out, r)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    # unchanged files keep their time, so that cargo does not rebuild
    if not os.path.exists(p) or open(p).read() != t:
        open(p, 'w').write(t)
for d, ds, fs in os.walk(out + '/src'):
    for f in fs:
        if os.path.relpath(os.path.join(d, f), out) not in want:
            os.remove(os.path.join(d, f))
