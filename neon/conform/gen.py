#!/usr/bin/env python3
"""gen.py OUT: a crate that compares each emulated intrinsic the library uses with the toolchain's own
core::arch::aarch64, to be run under Miri for aarch64 (conform.sh). Prints the names, one per line."""
import os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
out = sys.argv[1]
src = open(here + '/../emu/src/lib.rs').read()
emu = {m.group(1): m.groups()[1:] for m in re.finditer(
    r'pub unsafe fn (v\w+)(?:<const (\w+): i32>)?\(([^)]*)\)(?: -> (\w+))?', src)}
used = set()
for d, _, fs in os.walk('/repo/src'):
    for f in fs:
        if f.endswith('.rs'):
            used |= set(re.findall(r'\bv\w+_(?:[usfp](?:8|16|32|64))(?:_x[234])?\b', open(os.path.join(d, f)).read()))
names = sorted(used & set(emu))

def vec(t):
    m = re.match(r'(u?int|float)(\d+)x(\d+)(?:x(\d))?_t$', t)
    return m and (m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4) or 1))

def consts(n, c, args, ret):
    vs = [vec(t) for _, t in args if vec(t)]
    if c == 'LANE':
        k = vs[-1][2]
        return list(range(k))
    if n.startswith('vext'):
        return list(range(vs[0][2]))
    e_in, e_out = vs[0][1], vec(ret)[1]
    if 'shll' in n or re.match(r'vq?shlq?_n|vsliq?_n|vqshluq?_n', n):
        return list(range(e_in))
    return list(range(1, min(e_in, e_out) + 1))

body = []
for n in names:
    c, a, r = emu[n]
    args = [tuple(x.strip().removeprefix('mut ').split(': ')) for x in a.split(', ')] if a else []
    for k in consts(n, c, args, r) if c else [None]:
        g = f'::<{k}>' if c else ''
        L = [f'"{n}" => for s in 0..ROUNDS {{ let mut r = Rng(s);']
        if k is not None:
            L = [f'for s in 0..ROUNDS {{ let mut r = Rng(s);']
        real, fake, cmp = [], [], []
        for i, (nm, t) in enumerate(args):
            if t.startswith('*'):
                w = 'mut' in t
                e = t.split()[-1]
                L.append(f'let mut m{i} = Buf([0u8; 128]); r.fill(&mut m{i}.0, {int(e[1:])}, {str(e[0]=="f").lower()}); let mut n{i} = Buf(m{i}.0);')
                cast = f'as_mut_ptr() as *mut {e}' if w else f'as_ptr() as *const {e}'
                real.append(f'm{i}.0.{cast}'); fake.append(f'n{i}.0.{cast}')
                if w: cmp.append(f'check("{n}{g}", &m{i}.0, &n{i}.0);')
            else:
                v = vec(t)
                bits, fl = (v[1], v[0] == 'float') if v else (int(t[1:]), t[0] == 'f')
                tr, tf = (f'real::{t}', f'emu::{t}') if v else (t, t)
                L.append(f'let b{i} = r.bytes::<{{size_of::<{tr}>()}}>({bits}, {str(fl).lower()});')
                real.append(f'transmute::<_, {tr}>(b{i})'); fake.append(f'transmute::<_, {tf}>(b{i})')
        if r:
            tr, tf = (f'real::{r}', f'emu::{r}') if vec(r) else (r, r)
            L.append(f'let x = real::{n}{g}({", ".join(real)}); let y = emu::{n}{g}({", ".join(fake)});')
            L.append(f'check("{n}{g}", &transmute::<{tr}, [u8; size_of::<{tr}>()]>(x), &transmute::<{tf}, [u8; size_of::<{tr}>()]>(y));')
        else:
            L.append(f'real::{n}{g}({", ".join(real)}); emu::{n}{g}({", ".join(fake)});')
        L += cmp + ['}']
        body.append((n, k, ' '.join(L)))
arms = {}
for n, k, t in body:
    arms.setdefault(n, []).append(t)
code = []
for n, ts in arms.items():
    code.append(ts[0] + ',' if len(ts) == 1 and ts[0].startswith('"') else f'"{n}" => {{ ' + '\n'.join(ts) + ' }')
os.makedirs(out + '/src', exist_ok=True)
open(out + '/Cargo.toml', 'w').write(f'''[package]
name = "conform"
version = "0.1.0"
edition = "2021"
[dependencies]
neon_emu = {{ path = "{here}/../emu" }}
[workspace]
''')
open(out + '/src/main.rs', 'w').write('''#![allow(warnings)]
#![feature(stdarch_neon_i8mm, stdarch_neon_f16, stdarch_neon_dotprod)]
use core::arch::aarch64 as real;
use core::mem::{size_of, transmute};
use neon_emu as emu;
const ROUNDS: u64 = 24;
struct Rng(u64);
#[repr(align(16))]
struct Buf([u8; 128]);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn fill(&mut self, b: &mut [u8], bits: usize, float: bool) {
        for c in b.chunks_mut(bits / 8) {
            let v: u64 = if float {
                let t = [0.0f32, 1.0, -1.0, 0.5, 1.5, 2.5, -2.5, 255.0, 65535.0, 1e-3, 3e9, 5e9, -0.0, 1023.7];
                let k = self.next();
                (if k % 3 == 0 { t[(k >> 8) as usize % t.len()] } else { (k >> 40) as f32 * 0.0137 - 1000.0 }).to_bits() as u64
            } else {
                let k = self.next();
                let m = u64::MAX >> (64 - bits);
                let e = [0, 1, 2, 3, 4, 5, 6, 7, 8, m, m - 1, m / 2, m / 2 + 1, m / 2 + 2, m / 4, 15, 16, 31, 127, 128, 129, 255, 256];
                match k % 4 { 0 | 1 => k >> 8, 2 => (k >> 8) & 15, _ => e[(k >> 8) as usize % e.len()] }
            };
            c.copy_from_slice(&v.to_le_bytes()[..bits / 8]);
        }
    }
    fn bytes<const N: usize>(&mut self, bits: usize, float: bool) -> [u8; N] {
        let mut b = [0; N];
        self.fill(&mut b, bits, float);
        b
    }
}
fn check(n: &str, a: &[u8], b: &[u8]) {
    if a != b {
        println!("DIFF {n} real {a:02x?} emulated {b:02x?}");
        std::process::exit(3);
    }
}
fn main() {
    let n = std::env::args().nth(1).unwrap();
    unsafe { match n.as_str() {
''' + '\n'.join(code) + '''
_ => panic!("no such intrinsic") } }
    println!("same {n}");
}
''')
print('\n'.join(names))
