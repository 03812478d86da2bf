//! Properties that relate several executions, or an execution and an invalid argument vector.
use crate::engine::*;
use crate::explore::*;
use crate::fill::Fill;
use crate::fmt::*;
use crate::mem::*;
use crate::model::*;
use crate::ops::F;
use crate::tol::tol;
use std::sync::atomic::Ordering::SeqCst;

const ANY: Tol = Tol { abs: f32::INFINITY, rel: 0.0 };

fn bad(ctx: &mut Ctx, c: &Case, kind: &str, detail: &str) {
    let cs = ctx.case_str(c);
    let n = ctx.ops[c.op].name;
    ctx.violation(n, c.backend, kind, &cs, detail);
}
/// Execute without comparing; reports memory errors, panics and rejections. True when the call went well.
fn go(ctx: &mut Ctx, c: &Case, s: &Comps) -> bool {
    match ctx.run(c, s, None, &|_, _, _, _| ANY, false) {
        None => true,
        Some(f) => {
            bad(ctx, c, f.kind, &f.detail);
            false
        }
    }
}
fn first_diff(a: &[Vec<i32>], b: &[Vec<i32>]) -> Option<(usize, usize, i32, i32)> {
    for c in 0..a.len().min(b.len()) {
        if a[c].len() != b[c].len() {
            return Some((c, usize::MAX, a[c].len() as i32, b[c].len() as i32));
        }
        for i in 0..a[c].len() {
            if a[c][i] != b[c][i] {
                return Some((c, i, a[c][i], b[c][i]));
            }
        }
    }
    None
}

// ---------------------------------------------------------------- C02
pub fn layouts(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let lays: [Lay; 6] = [
        (Layout::Tight, Layout::Tight, Place::Tail, 0xAA),
        (Layout::Pad, Layout::Pad, Place::Tail, 0x55),
        (Layout::Tight, Layout::Pad, Place::Head, 0x00),
        (Layout::Pad, Layout::Tight, Place::Head, 0xFF),
        (Layout::Align, Layout::Align, Place::Tail, 0x00),
        (Layout::Tight, Layout::Align, Place::Head, 0xFF),
    ];
    let mut sp = sp.clone();
    sp.lays = vec![lays[0]];
    let bs = ctx.cpu.backends();
    sp.each(ctx, op, w, false, &mut |ctx, c, s, _| {
        for &b in &bs {
            let mut c = *c;
            c.backend = b;
            let mut first: Option<Vec<Vec<i32>>> = None;
            for l in lays {
                (c.src_layout, c.dst_layout, c.place, c.pre) = l;
                if !go(ctx, &c, s) {
                    break;
                }
                ctx.sh.compared.fetch_add(1, SeqCst);
                match &first {
                    None => first = Some(ctx.got.v.clone()),
                    Some(f) => {
                        if let Some((k, i, p, q)) = first_diff(f, &ctx.got.v) {
                            let cw = ctx.got.dim[k].0;
                            bad(ctx, &c, "layout", &format!("component {k} at x={} y={}: {q}, but {p} with tight rows", i % cw, i / cw));
                            break;
                        }
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C01
/// Buffers of other accepted lengths: no access outside them. Whether such calls convert is C04's business.
pub fn lengths(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let bs = ctx.cpu.backends();
    let mut sp = sp.clone();
    sp.lays = vec![
        (Layout::Short, Layout::Short, Place::Tail, 0xAA),
        (Layout::Short, Layout::Tight, Place::Tail, 0xAA),
        (Layout::Tight, Layout::Short, Place::Tail, 0xAA),
        (Layout::Over, Layout::Tight, Place::Tail, 0xAA),
        (Layout::Tight, Layout::Over, Place::Tail, 0xAA),
        (Layout::Over, Layout::Short, Place::Head, 0xAA),
    ];
    sp.each(ctx, op, w, false, &mut |ctx, c, s, _| {
        for &b in &bs {
            let mut c = *c;
            c.backend = b;
            match ctx.run(&c, s, None, &|_, _, _, _| ANY, false) {
                Some(f) if f.kind == "margin" => bad(ctx, &c, f.kind, &f.detail),
                None if !ctx.sources_intact(&c, s) => bad(ctx, &c, "source", "a source plane was modified"),
                _ => {}
            }
        }
    });
}

// ---------------------------------------------------------------- C03
/// Argument vectors with exactly one defect.
pub fn invalid(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let o = ctx.ops[op];
    for p in sp.params(&o) {
        for &h in &sp.hs {
            let (sf, df) = o.fmts(&p);
            let (dw, dh) = o.dst_size(&p, w, h);
            let (si, so) = (sf.planes(w, h), df.planes(dw, dh));
            let mut c = Case { op, backend: 0, w, h, fill: Fill::Zero, p, src_layout: Layout::Tight, dst_layout: Layout::Tight, place: Place::Tail, pre: 0xAA };
            ctx.sh.states.fetch_add(1, SeqCst);
            c.backend = *ctx.cpu.backends().last().unwrap();
            ctx.cpu.select(c.backend);
            let n = si.len() + so.len();
            // (description, width, height, per plane: length and stride)
            let mut cases: Vec<(String, usize, usize, Vec<(usize, usize)>)> = vec![];
            let specs: Vec<PlaneSpec> = si.iter().chain(so.iter()).copied().collect();
            let tight: Vec<(usize, usize)> = specs.iter().map(|s| (s.w * s.h, s.w)).collect();
            let padded: Vec<(usize, usize)> = specs.iter().map(|s| if s.tight { (s.w * s.h, s.w) } else { ((s.w + 7) * s.h, s.w + 7) }).collect();
            for k in 0..n {
                let s = specs[k];
                let who = if k < si.len() { format!("source plane {k}") } else { format!("destination plane {}", k - si.len()) };
                for base in [&tight, &padded] {
                    let mut v = base.clone();
                    // one sample less than the last row needs
                    v[k].0 = v[k].1 * (s.h - 1) + s.w - 1;
                    cases.push((format!("{who} one sample short"), w, h, v.clone()));
                    v[k].0 = 0;
                    cases.push((format!("{who} empty"), w, h, v.clone()));
                    if s.h > 1 {
                        v[k].0 = base[k].1 * (s.h - 1);
                        cases.push((format!("{who} one row short"), w, h, v.clone()));
                    }
                    if s.h > 1 && !s.tight {
                        // rows that fit, at a stride that takes the last one out of the plane
                        for st in [s.w + 1, s.w * 2, s.w + s.w / (s.h - 1) + 1] {
                            let mut v = base.clone();
                            v[k] = (s.w * s.h, st);
                            if st * (s.h - 1) + s.w > s.w * s.h {
                                cases.push((format!("{who} stride beyond the plane"), w, h, v));
                            }
                        }
                    }
                    if !s.tight {
                        let mut v = base.clone();
                        v[k] = (s.w * s.h, s.w - 1);
                        cases.push((format!("{who} stride below the row"), w, h, v.clone()));
                        v[k] = (s.w * s.h, 0);
                        cases.push((format!("{who} stride zero"), w, h, v));
                    } else {
                        let mut v = base.clone();
                        v[k] = (s.w * s.h, 0);
                        cases.push((format!("{who} stride zero"), w, h, v));
                    }
                }
            }
            cases.push(("zero width".into(), 0, h, tight.clone()));
            cases.push(("zero height".into(), w, 0, tight.clone()));
            for (a, b) in [(1usize << 31, 1usize << 31), (u32::MAX as usize, u32::MAX as usize), (u32::MAX as usize, h), (w, u32::MAX as usize)] {
                cases.push((format!("dimensions {a}x{b} beyond the planes"), a, b, tight.clone()));
                let mut v = tight.clone();
                for k in 0..n {
                    v[k].1 = u32::MAX as usize;
                }
                cases.push((format!("dimensions {a}x{b} and strides beyond the planes"), a, b, v));
            }
            // sizes given as usize: products that wrap around
            if matches!(o.f, F::Rot8(_) | F::Rot16(_) | F::Mir8(_) | F::Mir16(_) | F::F16From8(_) | F::F16From16(_) | F::F16To8(_) | F::F16To16(_)) {
                let big = [1usize << 32, 1 << 60, 1 << 61, 1 << 62, 1 << 63, (1 << 63) + 1, usize::MAX / 3 + 1, usize::MAX / 2, usize::MAX];
                for a in [w].into_iter().chain(big) {
                    for b in [h].into_iter().chain(big) {
                        for st in [0usize].into_iter().chain(big) {
                            if (a, b) == (w, h) {
                                continue;
                            }
                            let mut v = tight.clone();
                            if st != 0 {
                                v.iter_mut().for_each(|p| p.1 = st);
                            }
                            cases.push((format!("dimensions {a}x{b} and stride {st} beyond the planes"), a, b, v));
                        }
                    }
                }
            }
            // two images of different sizes, each of which is valid
            let mut sizes: Vec<Option<(usize, usize)>> = vec![None; cases.len()];
            if matches!(o.f, F::YuyPack8(_) | F::YuyPack16(_) | F::YuyUnp8(_) | F::YuyUnp16(_)) {
                for (a, b) in [(w + 1, h), (w, h + 1), (w + 1, h + 1), (w + 2, h), (w, h + 2), (w - 1, h), (w, h - 1), (w - 1, h - 1), (h, w), (2 * w, h), (w, 2 * h)] {
                    if a == 0 || b == 0 || (a, b) == (w, h) {
                        continue;
                    }
                    let d = df.planes(a, b);
                    let v = tight[..si.len()].iter().copied().chain(d.iter().map(|s| (s.w * s.h, s.w))).collect();
                    let rel = |a: usize, b: usize, n: &str| match a.cmp(&b) {
                        std::cmp::Ordering::Less => format!("smaller {n} "),
                        std::cmp::Ordering::Greater => format!("larger {n} "),
                        _ => String::new(),
                    };
                    cases.push((format!("{}{}of the destination than of the source {a}x{b}", rel(a, w, "width"), rel(b, h, "height")), w, h, v));
                    sizes.push(Some((a, b)));
                }
            }
            for (k, (what, cw, ch, pl)) in cases.into_iter().enumerate() {
                let pre = 0xAA;
                crate::call::DST_SIZE.set(sizes[k]);
                let planes: Vec<Plane> = (0..n)
                    .map(|k| {
                        let s = specs[k];
                        let ar = if k < si.len() { &ctx.ins[k] } else { &ctx.outs[k - si.len()] };
                        let pt = ar.place(pl[k].0 * s.ty.size(), Place::Tail);
                        ar.prefill(pt, pl[k].0 * s.ty.size(), pre);
                        Plane { p: pt, ty: s.ty, len: pl[k].0, stride: pl[k].1, w: s.w, h: s.h }
                    })
                    .collect();
                let (i, out) = planes.split_at(si.len());
                ctx.announce(&format!("op={} backend={} w={cw} h={ch} invalid={}", o.name, crate::cpu::BACKENDS[c.backend].name, what.replace(' ', "_")));
                ctx.watchdog();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::call::call(&o, &p, cw, ch, i, out)));
                crate::call::DST_SIZE.set(None);
                ctx.done();
                ctx.sh.execs.fetch_add(1, SeqCst);
                ctx.sh.compared.fetch_add(1, SeqCst);
                let touched = out.iter().enumerate().any(|(k, q)| {
                    let b = unsafe { std::slice::from_raw_parts(q.p, q.bytes()) };
                    b.iter().any(|&x| x != pre) || !ctx.outs[k].margin_ok(q.p, q.bytes(), pre)
                });
                let why = match r {
                    Err(_) => Some(("panic", format!("{what}: {}", PANIC.with(|p| p.borrow().clone())))),
                    // turning an empty picture may be a no-op instead of an error
                    Ok(None) if (cw == 0 || ch == 0) && matches!(o.f, F::Rot8(_) | F::Rot16(_) | F::Mir8(_) | F::Mir16(_)) => touched.then(|| ("touched", format!("{what}: the destination was written"))),
                    Ok(None) => Some(("accepted", format!("{what}: not rejected"))),
                    Ok(Some(_)) if touched => Some(("touched", format!("{what}: rejected, but a destination was written"))),
                    _ => None,
                };
                if let Some((kind, d)) = why {
                    // keep different defects apart
                    let cls: String = what.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').collect::<String>().split_whitespace().collect::<Vec<_>>().join("-");
                    c.w = w;
                    bad(ctx, &c, &format!("{kind}:{cls}"), &d);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C04
/// Accepted geometries other than stride * height: the last row without padding, and longer buffers.
pub fn geometry(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let bs = ctx.cpu.backends();
    let mut sp = sp.clone();
    let lays: [(&str, Lay); 4] = [
        ("short-source", (Layout::Short, Layout::Pad, Place::Tail, 0xAA)),
        ("short-destination", (Layout::Pad, Layout::Short, Place::Tail, 0x55)),
        ("long-source", (Layout::Over, Layout::Tight, Place::Tail, 0xAA)),
        ("long-destination", (Layout::Tight, Layout::Over, Place::Tail, 0x55)),
    ];
    sp.lays = vec![lays[0].1];
    sp.each(ctx, op, w, true, &mut |ctx, c, s, e| {
        for (name, l) in lays {
            let mut c = *c;
            (c.src_layout, c.dst_layout, c.place, c.pre) = l;
            for &b in &bs {
                c.backend = b;
                if let Some(f) = ctx.run(&c, s, e, &tol, false) {
                    // turning and mirroring take buffers of the exact size only
                    if f.kind == "rejected" && matches!(ctx.ops[op].f, F::Rot8(_) | F::Rot16(_) | F::Mir8(_) | F::Mir16(_)) {
                        continue;
                    }
                    // Where: rows of the destination that are wrong
                    let mut kind = f.kind.to_string();
                    if matches!(f.kind, "value" | "stray") {
                        let e = e.unwrap();
                        let o = ctx.ops[op];
                        let (_, df) = o.fmts(&c.p);
                        let mut last_only = true;
                        for k in 0..e.v.len() {
                            let cw = e.dim[k].0;
                            let t = tol(&o, &c.p, b, k);
                            // rows before the last row pair
                            let rows = (0..e.dim[k].1).filter(|&y| {
                                let part = |v: &Vec<f32>| v[y * cw..(y + 1) * cw].to_vec();
                                let er = Exp { dim: vec![(cw, 1)], v: vec![part(&e.v[k])], hi: e.hi.get(k).map(|h| vec![part(h)]).unwrap_or_default() };
                                first_bad(&df, 0, &ctx.got.v[k][y * cw..(y + 1) * cw], &er, t).is_some()
                            });
                            let hh = e.dim[k].1;
                            for y in rows {
                                if y + 2 < hh {
                                    last_only = false;
                                }
                            }
                        }
                        kind = if last_only { "lastrows".into() } else { "value".into() };
                    }
                    bad(ctx, &c, &format!("{kind}:{name}"), &f.detail);
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C24
/// Per function and mode: position independent per backend, SIMD paths identical, all paths identical.
/// The measured table of exact equalities describes the x86 kernels.
const NEON: bool = cfg!(feature = "neon");

pub struct Equiv {
    pub prefix: [bool; 7],
    pub simd: bool,
    pub all: bool,
}
pub fn equiv(name: &str, mode: u8) -> Option<Equiv> {
    thread_local! {
        static T: std::collections::HashMap<(&'static str, u8), (&'static str, bool, bool)> = {
            let mut m = std::collections::HashMap::new();
            for l in include_str!("../equiv.tsv").lines() {
                let f: Vec<&'static str> = l.split('\t').collect();
                if f.len() == 5 {
                    m.insert((f[0], f[1].parse().unwrap()), (f[2], f[3] == "1", f[4] == "1"));
                }
            }
            m
        };
    }
    T.with(|t| {
        t.get(&(name, mode)).or_else(|| t.get(&(name, 1))).map(|&(p, s, a)| {
            let mut prefix = [false; 7];
            for (i, c) in p.bytes().enumerate() {
                prefix[i] = c == b'1';
            }
            Equiv { prefix, simd: s, all: a }
        })
    })
}

pub fn backends(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let bs = ctx.cpu.backends();
    let o = ctx.ops[op];
    sp.each(ctx, op, w, false, &mut |ctx, c, s, _| {
        let eq = equiv(o.name, c.p.mode).unwrap_or(Equiv { prefix: [false; 7], simd: false, all: false });
        let (_, df) = o.fmts(&c.p);
        let mut outs: Vec<(usize, Vec<Vec<i32>>)> = vec![];
        for &b in &bs {
            let mut c = *c;
            c.backend = b;
            if !go(ctx, &c, s) {
                continue;
            }
            ctx.sh.compared.fetch_add(1, SeqCst);
            let g = ctx.got.v.clone();
            for (a, p) in &outs {
                let exact = !NEON && (eq.all || (eq.simd && *a > 0));
                let d = if exact {
                    first_diff(p, &g).map(|(k, i, x, y)| (k, i, x as f32, y as f32, 0.0))
                } else {
                    let mut r = None;
                    'o: for k in 0..g.len() {
                        let t = tol(&o, &c.p, *a, k).abs + tol(&o, &c.p, b, k).abs;
                        let f = is_f16_dst(&df);
                        for i in 0..g[k].len() {
                            let (x, y) = if f { (f16v(p[k][i]), f16v(g[k][i])) } else { (p[k][i] as f32, g[k][i] as f32) };
                            // below black the choice of the decoder is free (see the model)
                            if !((x - y).abs() <= t) && !below_black(&o, &c, s, i) {
                                r = Some((k, i, x, y, t));
                                break 'o;
                            }
                        }
                    }
                    r
                };
                if let Some((k, i, x, y, t)) = d {
                    let cw = ctx.got.dim[k].0;
                    bad(ctx, &c, &format!("differs-from-{}", crate::cpu::BACKENDS[*a].name), &format!("component {k} at x={} y={}: {y} where {} gives {x} (allowed difference {t})", i % cw, i / cw, crate::cpu::BACKENDS[*a].name));
                    break;
                }
            }
            outs.push((b, g));
        }
    });
}
fn below_black(o: &Op, c: &Case, s: &Comps, i: usize) -> bool {
    let (sf, _) = o.fmts(&c.p);
    c.p.range == 0 && matches!(sf.color, Color::YCbCr | Color::YCgCo) && i < s.v[0].len() && (s.v[0][i] as f64) < yuv_range(sf.depth, 0).by
}

// ---------------------------------------------------------------- C25
/// The first function of the table that differs from this one only in where values are stored.
fn base_of(ctx: &Ctx, op: usize) -> usize {
    let key = |o: &Op| {
        let mut s = o.src;
        let mut d = o.dst;
        for f in [&mut s, &mut d] {
            if f.class == Class::Rgb {
                f.ord = [0; 4];
                if f.ch == 4 {
                    f.ch = 3;
                }
            }
            if f.class == Class::Nv || f.class == Class::Yuy {
                f.ord = [0; 4];
            }
            if f.class != Class::Ar {
                f.be = false;
            }
            if f.class == Class::Ar || f.class == Class::Ayuv {
                f.ord = [0; 4];
            }
        }
        (std::mem::discriminant(&o.f), s, d)
    };
    let k = key(&ctx.ops[op]);
    (0..ctx.ops.len()).find(|&i| key(&ctx.ops[i]) == k).unwrap()
}
pub fn siblings(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let b0 = base_of(ctx, op);
    if b0 == op || !numeric_like(&ctx.ops[op]) {
        return;
    }
    let bs = ctx.cpu.backends();
    let base = ctx.ops[b0].name;
    sp.each(ctx, op, w, false, &mut |ctx, c, s, _| {
        let o = ctx.ops[op];
        let bo = ctx.ops[b0];
        for &b in &bs {
            let mut c = *c;
            c.backend = b;
            if !go(ctx, &c, s) {
                continue;
            }
            let g = ctx.got.v.clone();
            let mut d = c;
            d.op = b0;
            // the same picture in the base function's source format
            let (sf, _) = bo.fmts(&c.p);
            let sb = if sf.dim(w, c.h).len() == s.v.len() { None } else { Some(crate::fill::fill(&sf, w, c.h, c.fill)) };
            if !go(ctx, &d, sb.as_ref().unwrap_or(s)) {
                continue;
            }
            ctx.sh.compared.fetch_add(1, SeqCst);
            let n = g.len().min(ctx.got.v.len()).min(3);
            let exact = sibling_exact(&o, &c.p, b);
            let mut dd = None;
            'o: for k in 0..n {
                let t = if exact { 0.0 } else { tol(&o, &c.p, b, k).abs * 2.0 };
                let f = is_f16_dst(&o.dst);
                for i in 0..g[k].len() {
                    let (x, y) = (ctx.got.v[k][i], g[k][i]);
                    let bad = if exact { x != y } else if f { !((f16v(x) - f16v(y)).abs() <= t) } else { !((x - y).abs() as f32 <= t) };
                    if bad && (exact || !below_black(&o, &c, s, i)) {
                        dd = Some((k, i, x, y, t));
                        break 'o;
                    }
                }
            }
            if let Some((k, i, x, y, t)) = dd {
                let cw = ctx.got.dim[k].0;
                bad(ctx, &c, &format!("sibling-{base}"), &format!("component {k} at x={} y={}: {y} where {base} gives {x} (allowed difference {t})", i % cw, i / cw));
            }
        }
    });
}
fn numeric_like(o: &Op) -> bool {
    !matches!(o.f, F::Shuf(_) | F::Rot8(_) | F::Rot16(_) | F::Mir8(_) | F::Mir16(_))
}
/// Siblings agree bit for bit except where a path's vector body and its remainder differ (see equiv.tsv).
fn sibling_exact(o: &Op, p: &Params, b: usize) -> bool {
    b == 0 || equiv(o.name, p.mode).map(|e| e.prefix[b]).unwrap_or(false)
}

// ---------------------------------------------------------------- C26
pub fn endpoints(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let bs = ctx.cpu.backends();
    let o = ctx.ops[op];
    sp.each(ctx, op, w, false, &mut |ctx, c, s, _| {
        let (sf, df) = o.fmts(&c.p);
        for &b in &bs {
            let mut c = *c;
            c.backend = b;
            if !go(ctx, &c, s) {
                continue;
            }
            ctx.sh.compared.fetch_add(1, SeqCst);
            for (kind, dev, _, k, i, v, want) in endpoint_faults(&o, &c, s, &ctx.got, &sf, &df) {
                if ctx.notes.is_some() { let d = o.class_name(); ctx.note(&format!("{kind} {} depth{} mode{} simd{} m{} r{}", d, df.depth, c.p.mode, (b > 0) as u8, c.p.matrix, c.p.range), dev); }
                if dev > end_slack(&o, &c.p, b, kind) {
                    let cw = ctx.got.dim[k].0;
                    bad(ctx, &c, kind, &format!("component {k} at x={} y={}: {v}, must be {want}", i % cw, i / cw));
                }
            }
        }
    });
}
fn val(f: &Fmt, v: i32) -> f64 {
    if f.ty == Ty::F16 { f16v(v) as f64 } else { v as f64 }
}
/// The worst deviation seen, by kind, and where: (kind, deviation, slack, component, index, value, wanted).
type Worst = (&'static str, f64, f64, usize, usize, f64, f64);
fn endpoint_faults(o: &Op, c: &Case, s: &Comps, g: &Comps, sf: &Fmt, df: &Fmt) -> Vec<Worst> {
    let mut out: Vec<Worst> = vec![];
    let yuv_src = matches!(sf.color, Color::YCbCr | Color::YCgCo | Color::Gbr) && df.color == Color::Rgb;
    let yuv_dst = sf.color == Color::Rgb && matches!(df.color, Color::YCbCr | Color::YCgCo | Color::Gbr);
    let (w, h) = (c.w, c.h);
    let mut note = |kind: &'static str, dev: f64, k: usize, i: usize, v: f64, want: f64| {
        if dev <= 0.0 {
            return;
        }
        match out.iter_mut().find(|x| x.0 == kind) {
            Some(x) if x.1 >= dev => {}
            Some(x) => (x.1, x.3, x.4, x.5, x.6) = (dev, k, i, v, want),
            None => out.push((kind, dev, 0.0, k, i, v, want)),
        }
    };
    if yuv_dst {
        let r = yuv_range(df.depth, c.p.range);
        let chroma = df.color != Color::Gbr && df.class != Class::Gray;
        // never outside the range the caller asked for
        for k in 0..g.v.len() {
            let (lo, hi) = if k == 0 || !chroma { (r.by, r.by + r.ry) } else { ((r.buv - r.ruv / 2.0).max(0.0), (r.buv + r.ruv / 2.0).min(df.max() as f64)) };
            let (mut mn, mut mx) = ((i32::MAX, 0), (i32::MIN, 0));
            for (i, &v) in g.v[k].iter().enumerate() {
                if v < mn.0 {
                    mn = (v, i);
                }
                if v > mx.0 {
                    mx = (v, i);
                }
            }
            note("illegal", lo - mn.0 as f64, k, mn.1, mn.0 as f64, lo);
            note("illegal", mx.0 as f64 - hi, k, mx.1, mx.0 as f64, hi);
        }
        // black, white and grey pixels
        let m = sf.max();
        let (y0, y1) = (r.by, r.by + r.ry);
        let n = if chroma { 1 } else { g.v.len() };
        for i in 0..w * h {
            let a = s.v[0][i];
            if (a == 0 || a == m) && s.v[1][i] == a && s.v[2][i] == a {
                let want = if a == 0 { y0 } else { y1 };
                for k in 0..n {
                    note("luma-end", (g.v[k][i] as f64 - want).abs(), k, i, g.v[k][i] as f64, want);
                }
            }
        }
        let uniform = (0..3).all(|k| s.v[k] == s.v[0]);
        if chroma && uniform {
            for k in 1..3 {
                for (i, &v) in g.v[k].iter().enumerate() {
                    note("grey-chroma", (v as f64 - r.buv).abs(), k, i, v as f64, r.buv);
                }
            }
        }
        return out;
    }
    if yuv_src {
        let r = yuv_range(sf.depth, c.p.range);
        let chroma = sf.color != Color::Gbr && sf.class != Class::Gray;
        let f16 = df.ty == Ty::F16;
        let unit = if f16 { 0.001 } else { 1.0 };
        let dmax = if f16 { 1.0 } else { df.max() as f64 };
        let neutral = 1i32 << (sf.depth - 1);
        let (cw, _) = sf.cdim(w, h);
        let mut by_luma: Vec<(i32, f64, usize)> = vec![];
        for i in 0..w * h {
            let (x, y) = (i % w, i / w);
            let ci = match sf.sub {
                Sub::S420 => (y / 2) * cw + x / 2,
                Sub::S422 => y * cw + x / 2,
                _ => i,
            };
            let l = s.v[0][i];
            if chroma && (s.v[1][ci] != neutral || s.v[2][ci] != neutral) {
                continue;
            }
            if !chroma && sf.class != Class::Gray && (s.v[1][i] != l || s.v[2][i] != l) {
                continue;
            }
            if c.p.premul && s.v[3][i] != sf.max() {
                continue;
            }
            let p = [0, 1, 2].map(|k| val(df, g.v[k][i]));
            let n = if df.class == Class::Gray { 1 } else { 3 };
            for k in 0..n {
                if l as f64 <= r.by {
                    note("black", p[k] / unit, k, i, p[k], 0.0);
                }
                if l as f64 >= r.by + r.ry {
                    note("white", (dmax - p[k]).abs() / unit, k, i, p[k], dmax);
                }
                note("grey", (p[k] - p[1]).abs() / unit, k, i, p[k], p[1]);
            }
            by_luma.push((l, p[1], i));
        }
        if matches!(c.fill, Fill::Gray(_) | Fill::Neutral(_)) {
            by_luma.sort_by(|a, b| (a.0, a.2).cmp(&(b.0, b.2)));
            let mut top = f64::MIN;
            for e in by_luma {
                if e.1 < top {
                    note("monotone", (top - e.1) / unit, 1, e.2, e.1, top);
                } else {
                    top = e.1;
                }
            }
        }
    }
    out
}
/// Units of the destination sample (0.001 for f16). Half a unit: the exact level, range ends of .5 rounded either way.
fn end_slack(o: &Op, p: &Params, b: usize, kind: &str) -> f64 {
    let (_, df) = o.fmts(p);
    let enc8 = matches!(o.f, F::PlEnc8(_) | F::BiEnc8(_));
    match kind {
        "monotone" => if b > 0 || NEON { 1.0 } else { 0.5 },
        "black" | "grey" => 0.5,
        "white" => if df.depth == 14 { 1.0 } else { 0.5 },
        _ if enc8 && p.mode == 0 => 2.0,
        _ if matches!(o.f, F::PlEnc16(_) | F::BiEnc16(_)) && df.depth == 16 => 2.0,
        "illegal" | "luma-end" if b > 0 && (enc8 && p.mode == 1 || matches!(o.f, F::GrayEnc8(_))) => 1.0,
        "luma-end" if matches!(o.f, F::PlREnc16(_)) && df.depth >= 14 => 1.0,
        _ => 0.5,
    }
}

// ---------------------------------------------------------------- C27
/// The NEON code sends some columns through scalar code that rounds differently: there, both within tolerance is enough.
fn near(o: &Op, c: &Case, k: usize, a: i32, r: i32, s: &Comps, i: usize) -> bool {
    let (_, df) = o.fmts(&c.p);
    let (x, y) = if is_f16_dst(&df) { (f16v(a), f16v(r)) } else { (a as f32, r as f32) };
    (x - y).abs() <= 2.0 * tol(o, &c.p, c.backend, k).abs || below_black(o, c, s, i)
}
pub fn prefix(ctx: &mut Ctx, sp: &Space, op: usize, _w: usize) {
    let o = ctx.ops[op];
    if matches!(o.f, F::Rot8(_) | F::Rot16(_) | F::Mir8(_) | F::Mir16(_)) {
        return;
    }
    let bs = ctx.cpu.backends();
    const BIG: usize = 230;
    for p in sp.params(&o) {
        let Some(eq) = equiv(o.name, p.mode) else { continue };
        for &h in &sp.hs {
            for fl in [Fill::Grid(1), Fill::Ext(6)] {
                let (sf, _) = o.fmts(&p);
                let bigh = h + 4 & !1;
                let big = crate::fill::fill(&sf, BIG, bigh, fl);
                let l = LAYS_ALL[0];
                let mut c = Case { op, backend: 0, w: BIG, h: bigh, fill: fl, p, src_layout: l.0, dst_layout: l.1, place: l.2, pre: l.3 };
                let mut refs = vec![];
                for &b in &bs {
                    c.backend = b;
                    if !go(ctx, &c, &big) {
                        return;
                    }
                    refs.push((ctx.got.dim.clone(), ctx.got.v.clone()));
                }
                for w in (1..=132).chain([159, 160, 191, 192, 193, 224, 225, 229]) {
                    let dim = sf.dim(w, h);
                    let v = dim
                        .iter()
                        .enumerate()
                        .map(|(k, &(cw, ch))| {
                            let bw = big.dim[k].0;
                            (0..ch).flat_map(|y| big.v[k][y * bw..y * bw + cw].iter().copied()).collect()
                        })
                        .collect();
                    let s = Comps { dim, v };
                    ctx.sh.states.fetch_add(1, SeqCst);
                    for (bi, &b) in bs.iter().enumerate() {
                        if !NEON && !eq.prefix[b] {
                            continue;
                        }
                        c.backend = b;
                        c.w = w;
                        c.h = h;
                        if !go(ctx, &c, &s) {
                            continue;
                        }
                        ctx.sh.compared.fetch_add(1, SeqCst);
                        let (rd, rv) = &refs[bi];
                        'k: for k in 0..ctx.got.v.len() {
                            let (cw, chh) = ctx.got.dim[k];
                            for y in 0..chh {
                                // a chroma sample cut off by the right or lower edge covers fewer pixels
                                let sub = o.dst.sub;
                                let cut = k > 0 && k < 3 && matches!(sub, Sub::S420 | Sub::S422) && o.src.sub != sub;
                                if cut && sub == Sub::S420 && h % 2 == 1 && y == chh - 1 {
                                    continue;
                                }
                                for x in 0..cw {
                                    if cut && w % 2 == 1 && x == cw - 1 {
                                        continue;
                                    }
                                    let (a, r) = (ctx.got.v[k][y * cw + x], rv[k][y * rd[k].0 + x]);
                                    if a != r && !(NEON && near(&o, &c, k, a, r, &s, y * cw + x)) {
                                        bad(ctx, &c, "position", &format!("component {k} at x={x} y={y}: {a}, but {r} for the same pixel of a {BIG} wide picture"));
                                        break 'k;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C28
pub fn is_encoder(o: &Op) -> bool {
    matches!(o.f, F::PlEnc8(_) | F::BiEnc8(_) | F::PlEnc16(_) | F::BiEnc16(_) | F::PlREnc8(_) | F::PlREnc16(_) | F::RdpEnc(_) | F::F16From8(_) | F::F16From16(_) | F::Rgb8ToAr(_) | F::YuyPack8(_) | F::YuyPack16(_))
}
/// Largest difference between a picture and its image after `t` encode/decode trips.
fn trip_bound(o: &Op, p: &Params, t: usize) -> f64 {
    let t = t as f64;
    match o.f {
        F::YuyPack8(_) | F::YuyPack16(_) | F::Rgb8ToAr(_) | F::F16From8(_) => 0.0,
        F::F16From16(_) => match p.depth {
            ..=10 => 0.0,
            d => (1u64 << (d as u32 - 10)) as f64,
        },
        // the fast bi-planar decoder caps its blue weight at 127/64, so that blue fades from trip to trip
        F::BiEnc8(_) if p.mode == 0 => f64::INFINITY,
        F::PlEnc8(_) if p.mode == 0 => 6.0 * t + 1.0,
        F::PlREnc8(_) | F::PlREnc16(_) => 2.0 * t + 1.0,
        F::RdpEnc(_) => t + 1.0,
        F::PlEnc16(_) | F::BiEnc16(_) if o.dst.depth == 16 => 7.0 * t + 1.0,
        _ => 3.0 * t + 1.0,
    }
}
pub fn roundtrip(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let o = ctx.ops[op];
    let bs = ctx.cpu.backends();
    let dec: Vec<usize> = (0..ctx.ops.len())
        .filter(|&i| {
            let d = ctx.ops[i];
            d.src == o.dst && d.dst == o.src && i != op && !matches!(d.f, F::Shuf(_)) && d.takes.matrix == o.takes.matrix
        })
        .collect();
    for d in dec {
        let dn = ctx.ops[d].name;
        sp.each(ctx, op, w, false, &mut |ctx, c, s, _| {
            // colours are constant over a chroma cell, so that subsampling loses nothing
            let (_, df) = o.fmts(&c.p);
            let s = flatten(s, &df, w, c.h, &o);
            for &b in &bs {
                let mut e = *c;
                e.backend = b;
                let mut cur = Comps { dim: s.dim.clone(), v: s.v.clone() };
                for trip in 1..=sp.auxs.len() {
                    let bound = trip_bound(&o, &c.p, trip);
                    if !go(ctx, &e, &cur) {
                        break;
                    }
                    let mid = std::mem::replace(&mut ctx.got, Comps { dim: vec![], v: vec![] });
                    let mut f = e;
                    f.op = d;
                    if !go(ctx, &f, &mid) {
                        break;
                    }
                    ctx.sh.compared.fetch_add(1, SeqCst);
                    let got = std::mem::replace(&mut ctx.got, Comps { dim: vec![], v: vec![] });
                    let n = if o.src.class == Class::Rgb { 3 } else { got.v.len() };
                    let mut worst = (0i64, 0, 0);
                    for k in 0..n {
                        for i in 0..got.v[k].len() {
                            let q = (got.v[k][i] as i64 - s.v[k][i] as i64).abs();
                            if q > worst.0 {
                                worst = (q, k, i);
                            }
                        }
                    }
                    if ctx.notes.is_some() { let dn2 = o.class_name(); ctx.note(&format!("drift{trip} {} depth{} mode{} simd{} m{} r{}", dn2, o.src.depth, c.p.mode, (b > 0) as u8, c.p.matrix, c.p.range), worst.0 as f64); }
                    if worst.0 as f64 > bound {
                        let (q, k, i) = worst;
                        bad(ctx, &e, "drift", &format!("through {dn}, trip {trip}: component {k} of pixel {i} went from {} to {} (bound {bound}, off by {q})", s.v[k][i], got.v[k][i]));
                        break;
                    }
                    cur = got;
                }
            }
        });
    }
}
fn flatten(s: &Comps, df: &Fmt, w: usize, h: usize, o: &Op) -> Comps {
    let (xs, ys) = match df.sub {
        Sub::S420 => (2, 2),
        Sub::S422 => (2, 1),
        _ => (1, 1),
    };
    let mut r = Comps { dim: s.dim.clone(), v: s.v.clone() };
    if o.src.class == Class::Rgb {
        for k in 0..s.v.len() {
            for y in 0..h {
                for x in 0..w {
                    r.v[k][y * w + x] = s.v[k][(y / ys * ys) * w + x / xs * xs];
                }
            }
        }
    } else if matches!(o.f, F::YuyPack8(_) | F::YuyPack16(_)) {
        // planar source: make its chroma constant over the cells of 4:2:2 / 4:2:0
        for k in 1..3 {
            let (cw, ch) = s.dim[k];
            for y in 0..ch {
                for x in 0..cw {
                    let x0 = if cw == w { x / 2 * 2 } else { x };
                    r.v[k][y * cw + x] = s.v[k][y * cw + x0];
                }
            }
        }
    }
    r
}

// ---------------------------------------------------------------- C30
/// All sequences of rotations and mirrorings up to length 3, composed with the library, against the
/// symmetry of the rectangle they amount to.
pub fn dihedral(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let o = ctx.ops[op];
    let bs = ctx.cpu.backends();
    let mir = (0..ctx.ops.len()).find(|&i| ctx.ops[i].src == o.src && matches!(ctx.ops[i].f, F::Mir8(_) | F::Mir16(_))).expect("mirror sibling");
    let moves: [(usize, u8); 5] = [(op, 0), (op, 1), (op, 2), (mir, 0), (mir, 1)];
    for (&h, l) in sp.hs.iter().flat_map(|h| [0, 1, 4, 5].map(move |l: usize| (h, LAYS_ALL[l]))) {
        let p = sp.params(&o)[0];
        let c0 = Case { op, backend: 0, w, h, fill: Fill::Hash(11), p, src_layout: l.0, dst_layout: l.1, place: l.2, pre: l.3 };
        let s0 = crate::fill::fill(&o.src, w, h, c0.fill);
        for &b in &bs {
            // depth-first over sequences; `map[i]` = source pixel shown at i, by the definition of each move
            let mut stack: Vec<(Comps, usize, usize, Vec<usize>, Vec<usize>)> = vec![(Comps { dim: s0.dim.clone(), v: s0.v.clone() }, w, h, (0..w * h).collect(), vec![])];
            while let Some((cur, cw, ch, map, seq)) = stack.pop() {
                if seq.len() == 3 {
                    continue;
                }
                for (m, &(fop, aux)) in moves.iter().enumerate() {
                    let mut c = c0;
                    c.op = fop;
                    c.backend = b;
                    c.w = cw;
                    c.h = ch;
                    c.p.aux = aux;
                    if !go(ctx, &c, &cur) {
                        continue;
                    }
                    ctx.sh.states.fetch_add(1, SeqCst);
                    ctx.sh.compared.fetch_add(1, SeqCst);
                    let (nw, nh) = if m == 0 || m == 2 { (ch, cw) } else { (cw, ch) };
                    let mut nm = vec![0; nw * nh];
                    for y in 0..nh {
                        for x in 0..nw {
                            let (sx, sy) = match m {
                                0 => (cw - 1 - y, x),
                                1 => (cw - 1 - x, ch - 1 - y),
                                2 => (y, ch - 1 - x),
                                3 => (x, ch - 1 - y),
                                _ => (cw - 1 - x, y),
                            };
                            nm[y * nw + x] = map[sy * cw + sx];
                        }
                    }
                    let got = std::mem::replace(&mut ctx.got, Comps { dim: vec![], v: vec![] });
                    let mut sq = seq.clone();
                    sq.push(m);
                    let wrong = (0..got.v.len()).find_map(|k| (0..nw * nh).find(|&i| got.v[k][i] != s0.v[k][nm[i]]).map(|i| (k, i)));
                    if let Some((k, i)) = wrong {
                        bad(ctx, &c, "symmetry", &format!("after the moves {sq:?} (0,1,2: rotate 90,180,270; 3,4: mirror vertically, horizontally) of a {w}x{h} picture, channel {k} at {},{} is {} and not {}", i % nw, i / nw, got.v[k][i], s0.v[k][nm[i]]));
                        continue;
                    }
                    stack.push((got, nw, nh, nm, sq));
                }
            }
        }
    }
}

/// All sequences of up to three shuffles: colours survive, alpha survives until dropped, then is opaque.
pub fn shuffles(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let bs = ctx.cpu.backends();
    let shuf: Vec<usize> = (0..ctx.ops.len()).filter(|&i| matches!(ctx.ops[i].f, F::Shuf(_))).collect();
    for (&h, l) in sp.hs.iter().flat_map(|h| [0, 1].map(move |l: usize| (h, LAYS_ALL[l]))) {
        let o = ctx.ops[op];
        let c0 = Case { op, backend: 0, w, h, fill: Fill::Hash(12), p: P0, src_layout: l.0, dst_layout: l.1, place: l.2, pre: l.3 };
        let s0 = crate::fill::fill(&o.src, w, h, c0.fill);
        for &b in &bs {
            let mut stack: Vec<(Comps, usize, bool, usize)> = vec![];
            let step = |ctx: &mut Ctx, f: usize, cur: &Comps, lost: bool| -> Option<(Comps, bool)> {
                let mut c = c0;
                c.op = f;
                c.backend = b;
                if !go(ctx, &c, cur) {
                    return None;
                }
                ctx.sh.states.fetch_add(1, SeqCst);
                ctx.sh.compared.fetch_add(1, SeqCst);
                let got = std::mem::replace(&mut ctx.got, Comps { dim: vec![], v: vec![] });
                let lost = lost || ctx.ops[f].src.ch == 3;
                for k in 0..got.v.len() {
                    for i in 0..w * h {
                        let want = if k < 3 { s0.v[k][i] } else if lost { 255 } else { s0.v[3][i] };
                        if got.v[k][i] != want {
                            bad(ctx, &c, "shuffle", &format!("channel {k} at {},{} is {} and not {want}", i % w, i / w, got.v[k][i]));
                            return None;
                        }
                    }
                }
                Some((got, lost))
            };
            if let Some((g, lost)) = step(ctx, op, &s0, false) {
                stack.push((g, op, lost, 1));
            }
            while let Some((cur, last, lost, depth)) = stack.pop() {
                if depth == 3 {
                    continue;
                }
                for &f in &shuf {
                    let ok = ctx.ops[f].src.ord == ctx.ops[last].dst.ord && ctx.ops[f].src.ch == ctx.ops[last].dst.ch;
                    if !ok {
                        continue;
                    }
                    if let Some((g, l2)) = step(ctx, f, &cur, lost || ctx.ops[last].dst.ch == 3) {
                        stack.push((g, f, l2, depth + 1));
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C13
/// Premultiplied colour is the straight colour of the same call times alpha, rounded to nearest.
pub fn premultiplied(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let bs = ctx.cpu.backends();
    let mut sp = sp.clone();
    sp.premuls = vec![false];
    sp.each(ctx, op, w, false, &mut |ctx, c, s, _| {
        for &b in &bs {
            let mut c = *c;
            c.backend = b;
            if !go(ctx, &c, s) {
                continue;
            }
            let straight = ctx.got.v.clone();
            c.p.premul = true;
            if !go(ctx, &c, s) {
                continue;
            }
            ctx.sh.compared.fetch_add(1, SeqCst);
            let cw = ctx.got.dim[0].0;
            let mut worst = None;
            let mut dev = 0f64;
            for k in 0..3 {
                for i in 0..straight[k].len() {
                    let want = straight[k][i] as f64 * s.v[3][i] as f64 / 255.0;
                    let d = (ctx.got.v[k][i] as f64 - want).abs();
                    if d > dev {
                        dev = d;
                        worst = Some((k, i, ctx.got.v[k][i], straight[k][i], s.v[3][i]));
                    }
                }
            }
            let name = format!("premul {} {}", ctx.ops[op].name, crate::cpu::BACKENDS[b].name);
            ctx.note(&name, dev);
            if dev > 0.51 {
                let (k, i, g, v, a) = worst.unwrap();
                bad(ctx, &c, "premultiplied", &format!("component {k} at x={} y={}: {g}, but {v} without premultiplication and alpha {a}", i % cw, i / cw));
            }
        }
    });
}

fn fnv(v: &[Vec<i32>]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in v.iter().flat_map(|c| c.iter().copied().chain([c.len() as i32])) {
        h = (h ^ x as u32 as u64).wrapping_mul(0x1_0000_0001_b3);
    }
    h | 1
}
/// Run the calls one after the other in a process of their own, in which no function of the library
/// has run yet, and give a digest of every result (0: the call failed, which other checks report).
#[cfg(not(feature = "neon"))]
fn in_fresh_process(ctx: &mut Ctx, calls: &[(Case, &Comps)]) -> Vec<u64> {
    let n = calls.len() * 8;
    unsafe {
        let m = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u64;
        assert!(m as isize != -1);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            for (i, (c, s)) in calls.iter().enumerate() {
                if go(ctx, c, s) {
                    *m.add(i) = fnv(&ctx.got.v);
                }
            }
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        let r = std::slice::from_raw_parts(m, calls.len()).to_vec();
        libc::munmap(m as *mut _, n);
        if st != 0 {
            let c = r.iter().position(|&x| x == 0).map(|i| calls[i].0).unwrap_or(calls[0].0);
            bad(ctx, &c, "crash", &format!("the process died (wait status {st})"));
        }
        r
    }
}
#[cfg(feature = "neon")]
fn in_fresh_process(_: &mut Ctx, calls: &[(Case, &Comps)]) -> Vec<u64> {
    vec![0; calls.len()]
}
/// Every call as the first of its process, then after and before the same function with every other
/// setting: what a function remembers from its first or from its last call shows.
pub fn fresh_params(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let bs = ctx.cpu.backends();
    let l = LAYS_ALL[0];
    let sel: Vec<usize> = if sp.hs.len() > 1 { bs } else { vec![bs[0], bs[bs.len() - 1]] };
    let ps = sp.params(&ctx.ops[op]);
    for &h in &sp.hs {
        let src: Vec<Comps> = ps.iter().map(|p| { let (sf, _) = ctx.ops[op].fmts(p); crate::fill::fill(&sf, w, h, Fill::Hash(23)) }).collect();
        for &b in &sel {
            let case = |i: usize| Case { op, backend: b, w, h, fill: Fill::Hash(23), p: ps[i], src_layout: l.0, dst_layout: l.1, place: l.2, pre: l.3 };
            let mut want = vec![0u64; ps.len()];
            let mut rows = vec![];
            for r in 0..ps.len() {
                let mut order = vec![r];
                for j in (0..ps.len()).filter(|&j| j != r) {
                    order.extend([j, r]);
                }
                let calls: Vec<(Case, &Comps)> = order.iter().map(|&i| (case(i), &src[i])).collect();
                let d = in_fresh_process(ctx, &calls);
                want[r] = d[0];
                ctx.sh.states.fetch_add(1, SeqCst);
                rows.push((order, d));
            }
            'rows: for (order, d) in &rows {
                for k in 1..order.len() {
                    ctx.sh.compared.fetch_add(1, SeqCst);
                    let i = order[k];
                    if d[k] != 0 && want[i] != 0 && d[k] != want[i] {
                        bad(ctx, &case(i), "history", &format!("as call {} of a process that began with {:?} and last called {:?} the result is another than as its first call", k + 1, ps[order[0]], ps[order[k - 1]]));
                        break 'rows;
                    }
                }
            }
        }
    }
}
/// Every function as the first of its process, and then every function once more: whatever the first
/// call left behind, the others give what they give as the first call of a process of their own.
pub fn fresh_pairs(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    thread_local!(static ALONE: std::cell::RefCell<std::collections::HashMap<(usize, usize), Vec<u64>>> = Default::default());
    let bs = ctx.cpu.backends();
    let l = LAYS_ALL[0];
    let sel: Vec<usize> = if sp.auxs.len() > 1 { bs } else { vec![bs[0], bs[bs.len() - 1]] };
    for b in sel {
        let all: Vec<(Case, Comps)> = (0..ctx.ops.len()).map(|o| {
            let mut sp1 = sp.clone();
            sp1.ranges = vec![(o % 2) as u8];
            sp1.matrices = vec![(o % 3) as u8];
            sp1.auxs = vec![0];
            let p = sp1.params(&ctx.ops[o])[0];
            let c = Case { op: o, backend: b, w, h: 4, fill: Fill::Hash(29), p, src_layout: l.0, dst_layout: l.1, place: l.2, pre: l.3 };
            let (sf, _) = ctx.ops[o].fmts(&p);
            (c, crate::fill::fill(&sf, w, 4, Fill::Hash(29)))
        }).collect();
        let want = match ALONE.with(|m| m.borrow().get(&(b, w)).cloned()) {
            Some(v) => v,
            None => {
                let v: Vec<u64> = all.iter().map(|(c, s)| in_fresh_process(ctx, &[(*c, s)])[0]).collect();
                ALONE.with(|m| m.borrow_mut().insert((b, w), v.clone()));
                v
            }
        };
        let mut calls: Vec<(Case, &Comps)> = vec![(all[op].0, &all[op].1)];
        calls.extend(all.iter().map(|(c, s)| (*c, s)));
        let d = in_fresh_process(ctx, &calls);
        for o in 0..all.len() {
            ctx.sh.states.fetch_add(1, SeqCst);
            ctx.sh.compared.fetch_add(1, SeqCst);
            if d[o + 1] != 0 && want[o] != 0 && d[o + 1] != want[o] {
                let on = ctx.ops[o].name;
                bad(ctx, &all[op].0, "history", &format!("{on}, in a process that began with this call, gives another result than as the first call of a process"));
                break;
            }
        }
    }
}

/// Every call preceded by every other call: results have no memory.
pub fn history(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let bs = ctx.cpu.backends();
    let l = LAYS_ALL[0];
    let mk1 = |ctx: &Ctx, o: usize, w: usize, h: usize, fill: Fill| {
        let mut sp1 = sp.clone();
        sp1.ranges = vec![(o % 2) as u8];
        let p = sp1.params(&ctx.ops[o])[0];
        let c = Case { op: o, backend: 0, w, h, fill, p, src_layout: l.0, dst_layout: l.1, place: l.2, pre: l.3 };
        let (sf, _) = ctx.ops[o].fmts(&p);
        (c, crate::fill::fill(&sf, w, h, fill))
    };
    // the earlier calls: larger and smaller pictures
    let earlier: Vec<(Case, Comps)> = (0..ctx.ops.len()).flat_map(|a| sp.hs.iter().map(move |&h| (a, h))).map(|(a, h)| mk1(ctx, a, if h > 2 { w + 33 } else { w / 2 + 1 }, h, Fill::Ext(13))).collect();
    let (mut c, s) = mk1(ctx, op, w, 3, Fill::Hash(17));
    let sel: Vec<usize> = if sp.auxs.len() > 1 { bs } else { vec![bs[0], bs[bs.len() / 2], bs[bs.len() - 1]] };
    for b in sel {
        c.backend = b;
        if !go(ctx, &c, &s) {
            continue;
        }
        let want = ctx.got.v.clone();
        for (ca, sa) in &earlier {
            let mut ca = *ca;
            ca.backend = b;
            ctx.sh.states.fetch_add(1, SeqCst);
            if !go(ctx, &ca, sa) || !go(ctx, &c, &s) {
                continue;
            }
            ctx.sh.compared.fetch_add(1, SeqCst);
            if let Some((k, i, x, y)) = first_diff(&ctx.got.v, &want) {
                let (an, at) = (ctx.ops[ca.op].name, format!("{}x{}", ca.w, ca.h));
                bad(ctx, &c, "history", &format!("component {k} sample {i} is {x} after a call of {an} on {at}, and {y} before it"));
                break;
            }
        }
    }
}
