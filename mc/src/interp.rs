//! States for the interpreter (interp/): buffers and the bytes the native code leaves in them.
use crate::cpu::*;
use crate::fill::{fill, Fill};
use crate::fmt::*;
use crate::mem::Plane;
use crate::ops::F;
use std::io::Write;

fn params(op: &Op, thorough: bool) -> Vec<Params> {
    let t = &op.takes;
    let one = |on: bool, v: &[u8], d: u8| if on { v.to_vec() } else { vec![d] };
    let mut out = vec![];
    // the gamma curve of sharp conversions only changes the contents of a table
    let aux = if matches!(op.f, F::SharpEnc8(_)) { 1 } else { t.aux.max(1) };
    let depths: &[u8] = if thorough { &[8, 10, 12, 16] } else { &[10, 16] };
    for mode in one(t.mode, &[0, 1, 2], 1) {
        for bo in one(t.bo, &[0, 1], 0) {
            for pm in one(t.premul, &[0, 1], 0) {
                for depth in one(t.depth, depths, 8) {
                    for a in 0..aux {
                        let i = out.len() as u8;
                        out.push(Params { range: if t.range { i & 1 } else { 0 }, matrix: if t.matrix { i % 3 } else { 0 }, mode, bo, premul: pm == 1, depth, aux: a });
                    }
                }
            }
        }
    }
    out
}

fn plane(s: &PlaneSpec, pad: usize, pre: u8) -> Plane {
    let stride = s.w + if s.tight { 0 } else { pad };
    let len = stride * s.h;
    // a u64 vector so that 16-bit planes are aligned
    let v = vec![u64::from_ne_bytes([pre; 8]); (len * s.ty.size()).div_ceil(8).max(1)];
    Plane { p: Box::leak(v.into_boxed_slice()).as_mut_ptr() as *mut u8, ty: s.ty, len, stride, w: s.w, h: s.h }
}
fn bytes(p: &Plane) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(p.p, p.bytes()) }
}

/// What the bytes of a plane are: 0 bytes, 1 16-bit numbers of the machine, 2 16-bit numbers of a fixed byte
/// order, 3 32-bit numbers of the machine.
fn kind(ops: &[Op], op: &Op, p: &Params, f: &Fmt, ty: Ty) -> usize {
    if ty == Ty::U8 {
        return if f.class == Class::Ar && p.bo == 0 { 3 } else { 0 };
    }
    // i010, p010 and the like have an order of their own; what has a function for either order too
    let named = op.name.split('_').any(|s| s.len() == 4 && matches!(s.as_bytes()[0], b'i' | b'p') && s[1..].bytes().all(|c| c.is_ascii_digit()));
    let yuv = f.color != Color::Rgb && f.color != Color::Raw;
    let fixed = f.be || (yuv && (named || ops.iter().any(|o| o.name != op.name && o.name.contains("_be") && o.name.replacen("_be", "", 1) == op.name)));
    1 + fixed as usize
}

/// `interp OUT BACKEND SHAPES TIER`: the number of states and functions, where each record starts, the records.
pub fn write(out: &str, backend: &str, shapes: &str, thorough: bool) {
    let mut cpu = Cpu::new();
    let b = BACKENDS.iter().position(|b| b.name == backend).expect("backend");
    if !cpu.backends().contains(&b) {
        println!("0");
        return;
    }
    cpu.select(b);
    let shapes: Vec<Vec<usize>> = shapes.split(',').map(|s| s.split(['x', '+']).map(|x| x.parse().unwrap()).collect()).collect();
    let mut f: Vec<u8> = vec![];
    let ops = all_ops();
    let (mut at, mut slow) = (vec![], vec![]);
    let put = |f: &mut Vec<u8>, v: usize| f.extend((v as u32).to_le_bytes());
    for (o, op) in ops.iter().enumerate() {
        for (i, p) in params(op, thorough).into_iter().enumerate() {
            // these build their tables anew in every call
            if !thorough && matches!(op.f, F::SharpEnc8(_)) && (!op.name.starts_with("rgb_") || p.mode != 1) {
                continue;
            }
            for (k, s) in shapes.iter().enumerate() {
                let (w, h, pad) = (s[0], s[1], s[2]);
                let (sf, df) = op.fmts(&p);
                let (dw, dh) = op.dst_size(&p, w, h);
                let src = fill(&sf, w, h, if (k + i) % 2 == 0 { Fill::Hash(7) } else { Fill::Ext(3) });
                let inp: Vec<Plane> = sf.planes(w, h).iter().map(|s| plane(s, pad, 0x3C)).collect();
                let dst: Vec<Plane> = df.planes(dw, dh).iter().map(|s| plane(s, pad, 0xA5)).collect();
                sf.store(&src, &inp);
                if crate::call::call(op, &p, w, h, &inp, &dst).is_some() {
                    continue; // other checks report that
                }
                if matches!(op.f, F::SharpEnc8(_)) {
                    slow.push(at.len());
                }
                at.push(f.len());
                for v in [o, w, h, inp.len(), dst.len(), pad] {
                    put(&mut f, v);
                }
                f.extend([p.range, p.matrix, p.mode, p.bo, p.premul as u8, p.depth, p.aux, 0]);
                for (j, q) in inp.iter().chain(&dst).enumerate() {
                    let f0 = if j < inp.len() { &sf } else { &df };
                    for v in [kind(&ops, op, &p, f0, q.ty), q.len, q.stride] {
                        put(&mut f, v);
                    }
                    f.extend(bytes(q));
                    f.resize(f.len().next_multiple_of(4), 0);
                }
            }
        }
    }
    let mut o = std::fs::File::create(out).unwrap();
    let mut head = vec![];
    put(&mut head, at.len());
    put(&mut head, ops.len());
    for a in &at {
        put(&mut head, 8 + 4 * at.len() + a);
    }
    o.write_all(&head).unwrap();
    o.write_all(&f).unwrap();
    println!("{}", at.len());
    println!("{}", slow.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" "));
}
