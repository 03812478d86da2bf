//! The library inside an interpreter of Rust's abstract machine (Miri), which faults what the language does
//! not define: accesses outside an object, uninitialised or misaligned reads, forbidden aliasing, invalid
//! values, races. The states and the bytes the native code leaves come from `mc interp`.
//! interp FILE FROM TO: the states FROM..TO of FILE in turn.
#![feature(f16)]
#![allow(dead_code)]
#[path = "../../mc/src/call.rs"]
mod call;
#[path = "../../mc/src/fmt.rs"]
mod fmt;
mod mem;
#[path = "../../mc/src/ops.rs"]
mod ops;

use fmt::*;
use mem::*;
use std::borrow::Cow;

struct In<'a> {
    d: &'a [u8],
    at: usize,
}
impl<'a> In<'a> {
    fn u32(&mut self) -> usize {
        let a = self.at;
        self.at += 4;
        u32::from_le_bytes([self.d[a], self.d[a + 1], self.d[a + 2], self.d[a + 3]]) as usize
    }
    fn take(&mut self, n: usize) -> &'a [u8] {
        let a = self.at;
        self.at += n.next_multiple_of(4);
        &self.d[a..a + n]
    }
}
struct Rec<'a> {
    op: usize,
    w: usize,
    h: usize,
    pad: usize,
    p: Params,
    inp: Vec<(Ty, usize, usize, Cow<'a, [u8]>)>,
    out: Vec<(Ty, usize, usize, Cow<'a, [u8]>)>,
}
/// The bytes of a little-endian machine as those of this one.
fn native(kind: usize, stride: usize, d: &[u8]) -> Cow<'_, [u8]> {
    let n = [0, 2, 0, 4][kind];
    if cfg!(target_endian = "little") || n == 0 {
        return Cow::Borrowed(d);
    }
    let mut v = d.to_vec();
    for row in v.chunks_mut(if n == 4 { stride } else { d.len() }) {
        row.chunks_exact_mut(n).for_each(|c| c.reverse());
    }
    Cow::Owned(v)
}
fn rec<'a>(f: &mut In<'a>) -> Rec<'a> {
    let v: [usize; 6] = std::array::from_fn(|_| f.u32());
    let p = f.take(8);
    let mut planes = |n| {
        let mut o = vec![];
        for _ in 0..n {
            let kind = f.u32();
            let ty = if matches!(kind, 0 | 3) { Ty::U8 } else { Ty::U16 };
            let (len, stride) = (f.u32(), f.u32());
            o.push((ty, len, stride, native(kind, stride, f.take(len * ty.size()))));
        }
        o
    };
    let inp = planes(v[3]);
    let out = planes(v[4]);
    let p = Params { range: p[0], matrix: p[1], mode: p[2], bo: p[3], premul: p[4] == 1, depth: p[5], aux: p[6] };
    Rec { op: v[0], w: v[1], h: v[2], pad: v[5], p, inp, out }
}

pub fn run() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        println!("{:?}", features());
        return;
    }
    let d = std::fs::read(&a[1]).unwrap();
    let (from, to): (usize, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let mut f = In { d: &d, at: 0 };
    let n = f.u32();
    assert_eq!(f.u32(), ops::OPS.len());
    for i in from..n.min(to) {
        f.at = 8 + 4 * i;
        f.at = f.u32();
        let r = rec(&mut f);
        let row = &ops::OPS[r.op];
        let p = &r.p;
        println!("@ {i} {} op={} w={} h={} padding={} range={} matrix={} mode={} bo={} premul={} depth={} aux={}", r.op, row.name, r.w, r.h, r.pad, p.range, p.matrix, p.mode, p.bo, p.premul as u8, p.depth, p.aux);
        let op = Op { name: row.name, f: row.f, src: BASE, dst: BASE, takes: Takes::default() };
        let inp: Vec<Plane> = r.inp.iter().map(|q| Plane::new(q.0, q.1, q.2, &q.3)).collect();
        let pre = [0xA5u8];
        let out: Vec<Plane> = r.out.iter().map(|q| Plane::new(q.0, q.1, q.2, &pre)).collect();
        if let Some(e) = call::call(&op, p, r.w, r.h, &inp, &out) {
            println!("V rejected a valid image was rejected: {e}");
        } else {
            for (k, (q, s)) in inp.iter().zip(&r.inp).enumerate() {
                if q.bytes() != &*s.3 {
                    println!("V source source plane {k} was modified");
                }
            }
            for (k, (q, s)) in out.iter().zip(&r.out).enumerate() {
                if q.bytes() != &*s.3 {
                    // where there is no fast path the fast mode is the balanced one
                    if cfg!(target_endian = "big") && p.mode == 0 && q.bytes().iter().zip(s.3.iter()).all(|(a, b)| a.abs_diff(*b) <= 4) {
                        continue;
                    }
                    let at = q.bytes().iter().zip(s.3.iter()).position(|(a, b)| a != b).unwrap();
                    println!("V value destination plane {k} at byte {at} of {}: got {}, the native code leaves {}", s.3.len(), q.bytes()[at], s.3[at]);
                }
            }
        }
        for q in inp.iter().chain(&out) {
            q.free();
        }
    }
    println!("done");
}

#[cfg(target_arch = "x86_64")]
fn features() -> [bool; 4] {
    [is_x86_feature_detected!("sse4.1"), is_x86_feature_detected!("avx2"), is_x86_feature_detected!("avxvnni"), is_x86_feature_detected!("avx512bw")]
}
#[cfg(not(target_arch = "x86_64"))]
fn features() -> [bool; 0] {
    []
}
