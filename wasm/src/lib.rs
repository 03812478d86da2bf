//! The library compiled to WebAssembly, explored inside the WebAssembly machine itself. Tables, contents
//! and the exact model are the native harness's; what differs is how memory is watched and who drives.
#![feature(f16)]
#![allow(dead_code)]
#[path = "../../mc/src/call.rs"]
mod call;
#[path = "../../mc/src/fill.rs"]
mod fill;
#[path = "../../mc/src/fmt.rs"]
mod fmt;
mod mem;
#[path = "../../mc/src/model.rs"]
mod model;
#[path = "../../mc/src/ops.rs"]
mod ops;
#[path = "../../mc/src/tol.rs"]
mod tol;

use fill::{fill, Fill};
use fmt::*;
use mem::*;
use model::*;
use ops::F;

#[link(wasm_import_module = "host")]
extern "C" {
    /// kind 0: panic message, 1: violation "key \t case \t detail", 2: sample, 3: what is about to run
    fn tell(kind: u32, p: *const u8, n: usize);
    fn count(states: u32, execs: u32, compared: u32, samples: u32);
}
fn say(kind: u32, s: &str) {
    unsafe { tell(kind, s.as_ptr(), s.len()) }
}

/// (name, padding of source and destination rows in samples; 0: rows follow each other)
const LAYS: [(&str, usize, usize); 3] = [("tight", 0, 0), ("padded", 3, 5), ("wide", 64, 61)];

struct Stage {
    name: &'static str,
    ops: fn(&Op) -> bool,
    ws: Vec<usize>,
    hs: Vec<usize>,
    fills: Vec<Fill>,
    ranges: Vec<u8>,
    matrices: Vec<u8>,
    modes: Vec<u8>,
    depths: Vec<u8>,
    /// how many of LAYS, and whether every plane takes its turn at the end of the memory
    lays: usize,
    turns: bool,
    dims: bool,
}

fn wasm_kernels(o: &Op) -> bool {
    matches!(o.f, F::PlDec8(_) | F::BiDec8(_) | F::GrayDec8(_))
}
fn others(o: &Op) -> bool {
    !wasm_kernels(o)
}
fn any(_: &Op) -> bool {
    true
}
fn numeric(o: &Op) -> bool {
    o.takes.matrix
}

fn stages(thorough: bool) -> Vec<Stage> {
    let base = || Stage {
        name: "",
        ops: any,
        ws: vec![],
        hs: vec![2, 3],
        fills: vec![Fill::Hash(1)],
        ranges: vec![0, 1],
        matrices: vec![0],
        modes: vec![0, 1, 2],
        depths: vec![8, 10, 12, 16],
        lays: 2,
        turns: true,
        dims: false,
    };
    vec![
        Stage { name: "kernels", ops: wasm_kernels, ws: (1..=if thorough { 260 } else { 131 }).collect(), hs: vec![1, 2, 3, 4], fills: vec![Fill::Hash(1), Fill::Ext(2)], lays: 3, ..base() },
        Stage { name: "shapes", ops: others, ws: (1..=if thorough { 140 } else { 40 }).chain([64, 67, 127, 129, 131]).collect(), hs: if thorough { vec![1, 2, 3, 4] } else { vec![1, 2, 3] }, ranges: vec![0], ..base() },
        Stage { name: "parameters", ops: numeric, ws: vec![33, 66], hs: vec![5], matrices: (0..8).collect(), depths: (8..=16).collect(), fills: vec![Fill::Ext(5), Fill::Grid(1), Fill::Gray(0), Fill::Black, Fill::White], lays: 1, turns: false, ..base() },
        Stage { name: "values", ops: any, ws: vec![133], hs: vec![340], fills: if thorough { (0..4).map(Fill::Grid).collect() } else { vec![Fill::Grid(0)] }, lays: 1, turns: false, ranges: if thorough { vec![0, 1] } else { vec![0] }, ..base() },
        Stage { name: "large", ops: wasm_kernels, ws: vec![511, 1030], hs: vec![9], ranges: vec![0], fills: vec![Fill::Ramp], ..base() },
        Stage { name: "address-space", ops: any, ws: vec![8], hs: vec![4], ranges: vec![0], modes: vec![1], depths: vec![10], dims: true, ..base() },
    ]
}

fn params(s: &Stage, op: &Op) -> Vec<Params> {
    let t = &op.takes;
    let one = |on: bool, v: &[u8], d: u8| if on { v.to_vec() } else { vec![d] };
    let mut out = vec![];
    for range in one(t.range, &s.ranges, 0) {
        for matrix in one(t.matrix, &s.matrices, 0) {
            for mode in one(t.mode, &s.modes, 1) {
                for bo in one(t.bo, &[0, 1], 0) {
                    for pm in one(t.premul, &[0, 1], 0) {
                        for depth in one(t.depth, &s.depths, 8) {
                            for aux in 0..t.aux.max(1) {
                                out.push(Params { range, matrix, mode, bo, premul: pm == 1, depth, aux });
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

struct World {
    ops: Vec<Op>,
    arena: Arena,
    stages: Vec<Stage>,
    jobs: Vec<(usize, usize, usize)>,
    first: Comps,
    got: Comps,
}
static mut WORLD: Option<World> = None;

fn cost(s: &Stage, w: usize) -> usize {
    w * s.hs.iter().sum::<usize>() * s.fills.len() * s.matrices.len() * s.lays
}

/// Prepare the machine; returns the number of jobs.
#[no_mangle]
pub extern "C" fn init(thorough: u32) -> u32 {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        say(0, &format!("{m} at {l}"));
    }));
    let ops = all_ops();
    let stages = stages(thorough == 1);
    let mut jobs = vec![];
    for (k, s) in stages.iter().enumerate() {
        for (o, op) in ops.iter().enumerate() {
            if (s.ops)(op) {
                jobs.extend(s.ws.iter().map(|&w| (k, o, w)));
            }
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(cost(&stages[j.0], j.2)));
    let n = jobs.len();
    let e = || Comps { dim: vec![], v: vec![] };
    unsafe { WORLD = Some(World { ops, arena: Arena::new(), stages, jobs, first: e(), got: e() }) };
    n as u32
}

fn case_str(s: &Stage, o: &Op, w: usize, h: usize, f: Fill, p: &Params, lay: &str, turn: usize) -> String {
    format!(
        "stage={} op={} w={w} h={h} fill={f:?} layout={lay} end={turn} range={} matrix={} mode={} bo={} premul={} depth={} aux={}",
        s.name, o.name, p.range, p.matrix, p.mode, p.bo, p.premul as u8, p.depth, p.aux
    )
}

/// The bounds explored, one line per stage.
#[no_mangle]
pub extern "C" fn bounds() {
    #[allow(static_mut_refs)]
    let wd = unsafe { WORLD.as_ref().unwrap() };
    for s in &wd.stages {
        let n = wd.ops.iter().filter(|o| (s.ops)(o)).count();
        say(
            4,
            &format!(
                "{}: {n} functions x {} widths {}..{} x heights {:?} x contents {:?} x matrices {:?} x ranges {:?} x modes {:?} x depths {:?} x {} layouts{}",
                s.name, s.ws.len(), s.ws[0], s.ws[s.ws.len() - 1], s.hs, s.fills, s.matrices, s.ranges, s.modes, s.depths, s.lays,
                if s.turns { ", every plane in turn at the end of the memory" } else { "" }
            ),
        );
    }
}

/// What job `j` covers, told as kind 5.
#[no_mangle]
pub extern "C" fn describe(job: u32) {
    #[allow(static_mut_refs)]
    let wd = unsafe { WORLD.as_ref().unwrap() };
    let (k, o, w) = wd.jobs[job as usize];
    say(5, &format!("stage={} op={} w={w} ", wd.stages[k].name, wd.ops[o].name));
}

#[no_mangle]
pub extern "C" fn run(job: u32) {
    #[allow(static_mut_refs)]
    let wd = unsafe { WORLD.as_mut().unwrap() };
    let (k, o, w) = wd.jobs[job as usize];
    let st = &wd.stages[k];
    let op = wd.ops[o];
    let simd = cfg!(target_feature = "simd128") && wasm_kernels(&op);
    let (mut states, mut execs, mut compared, mut samples) = (0u32, 0u32, 0u32, 0u32);
    let mut bad = 0;
    let mut report = |kind: &str, case: &str, detail: &str| {
        bad += 1;
        if bad <= 2 {
            say(1, &format!("op={} kind={kind}\t{case}\t{}", op.name, detail.replace(['\n', '\t'], " ")));
        }
    };
    for p in params(st, &op) {
        let (sf, df) = op.fmts(&p);
        for &h in &st.hs {
            if st.dims {
                states += 1;
                execs += dims(wd, st, &op, &p, w, h, &mut report);
                continue;
            }
            let (dw, dh) = op.dst_size(&p, w, h);
            let (ps, pd) = (sf.planes(w, h), df.planes(dw, dh));
            for &fl in &st.fills {
                let src = fill(&sf, w, h, fl);
                let exp = expect(&op, &p, &src, w, h);
                states += 1;
                let mut first = true;
                for &(lname, xs, xd) in &LAYS[..st.lays] {
                    for turn in 0..if st.turns { ps.len() + pd.len() } else { 1 } {
                        let pre = [0xAAu8, 0x55, 0x00, 0xFF][(turn + xs) % 4];
                        let mut planes = vec![];
                        for (q, s) in ps.iter().chain(pd.iter()).enumerate() {
                            let stride = if s.tight { s.w } else { s.w + if q < ps.len() { xs } else { xd } };
                            let len = stride * s.h;
                            // the plane whose turn it is last in memory
                            let r = if q == turn { NREGION - 1 } else { q };
                            let ptr = wd.arena.place(r, len * s.ty.size());
                            let v = if q < ps.len() { pre ^ 0x3C } else { pre };
                            wd.arena.prefill(ptr, len * s.ty.size(), v);
                            planes.push(Plane { p: ptr, ty: s.ty, len, stride, w: s.w, h: s.h });
                        }
                        let (inp, out) = planes.split_at(ps.len());
                        sf.store(&src, inp);
                        let case = case_str(st, &op, w, h, fl, &p, lname, turn);
                        say(3, &case);
                        if execs == 0 && job % 97 == 0 {
                            say(2, &case);
                        }
                        let r = call::call(&op, &p, w, h, inp, out);
                        execs += 1;
                        if let Some(e) = r {
                            report("rejected", &case, &format!("a valid image was rejected: {e}"));
                            continue;
                        }
                        if !wd.arena.at_end() {
                            report("harness", &case, "the memory grew behind the arena");
                        }
                        for (q, pl) in planes.iter().enumerate() {
                            let v = if q < ps.len() { pre ^ 0x3C } else { pre };
                            if !wd.arena.margin_ok(pl.p, pl.bytes(), v) {
                                report("margin", &case, &format!("bytes around plane {q} were written"));
                            }
                            if let Some((x, y)) = padding(pl, v) {
                                report("padding", &case, &format!("padding of plane {q} written at row {y} element {x}"));
                            }
                        }
                        sf.load(inp, w, h, &mut wd.got);
                        if wd.got.v != src.v {
                            report("source", &case, "a source plane was modified");
                        }
                        let stray = df.load(out, dw, dh, &mut wd.got);
                        if let Some((c, x, y)) = stray {
                            report("stray", &case, &format!("component {c} at {x},{y}: bits outside the sample are set"));
                        }
                        if !first {
                            if wd.got.v != wd.first.v {
                                report("layout", &case, "the result differs from the one in another buffer layout");
                            }
                            continue;
                        }
                        first = false;
                        compared += 1;
                        for c in 0..exp.v.len() {
                            samples += wd.got.v[c].len() as u32;
                            let t = tol::tol(&op, &p, simd as usize, c);
                            if let Some(i) = first_bad(&df, c, &wd.got.v[c], &exp, t) {
                                let cw = exp.dim[c].0;
                                report("value", &case, &format!("component {c} at x={} y={}: got {}, model {} (tolerance {t:?})", i % cw, i / cw, wd.got.v[c][i], exp.v[c][i]));
                                break;
                            }
                        }
                        std::mem::swap(&mut wd.got, &mut wd.first);
                    }
                }
            }
        }
    }
    unsafe { count(states, execs, compared, samples) };
}

fn padding(pl: &Plane, pre: u8) -> Option<(usize, usize)> {
    if pl.stride == pl.w {
        return None;
    }
    let es = pl.ty.size();
    let b = unsafe { std::slice::from_raw_parts(pl.p, pl.bytes()) };
    (0..pl.h).find_map(|y| (pl.w..pl.stride).find(|x| (0..es).any(|q| b[(y * pl.stride + x) * es + q] != pre)).map(|x| (x, y)))
}

/// Small planes described by sizes whose products do not fit a 32-bit address space: always an error.
fn dims(wd: &World, st: &Stage, op: &Op, p: &Params, w: usize, h: usize, report: &mut dyn FnMut(&str, &str, &str)) -> u32 {
    let (sf, df) = op.fmts(p);
    let (dw, dh) = op.dst_size(p, w, h);
    let (ps, pd) = (sf.planes(w, h), df.planes(dw, dh));
    let mut n = 0;
    let big = [1usize << 16, 1 << 17, 1 << 24, 1 << 29, 1 << 30, 1 << 31, (1 << 31) - 1, (1 << 31) + 1, 0x5555_5556, 0xAAAA_AAAB, 0xC000_0000, u32::MAX as usize - 1, u32::MAX as usize];
    for &cw in [w].iter().chain(&big) {
        for &ch in [h].iter().chain(&big) {
            for &stride in [0usize].iter().chain(&big) {
                if (cw, ch, stride) == (w, h, 0) {
                    continue;
                }
                // every plane at this stride, or (0) at the true one; one plane at a time when the size is true
                let which: Vec<usize> = if (cw, ch) == (w, h) { (0..ps.len() + pd.len()).collect() } else { vec![usize::MAX] };
                for only in which {
                    let mut planes = vec![];
                    for (q, s) in ps.iter().chain(pd.iter()).enumerate() {
                        let len = s.w * s.h;
                        let ptr = wd.arena.place(if q == 0 { NREGION - 1 } else { q }, len * s.ty.size());
                        wd.arena.prefill(ptr, len * s.ty.size(), 0xAA);
                        let huge = stride != 0 && (only == usize::MAX || only == q);
                        planes.push(Plane { p: ptr, ty: s.ty, len, stride: if huge { stride } else { s.w }, w: s.w, h: s.h });
                    }
                    let (inp, out) = planes.split_at(ps.len());
                    let case = format!("stage={} op={} w={cw} h={ch} stride={stride} plane={} planes for {w}x{h}", st.name, op.name, only as isize);
                    say(3, &case);
                    let r = call::call(op, p, cw, ch, inp, out);
                    n += 1;
                    if r.is_none() {
                        report("accepted", &case, "an image larger than its planes was accepted");
                    }
                    for pl in out {
                        let b = unsafe { std::slice::from_raw_parts(pl.p, pl.bytes()) };
                        if b.iter().any(|&x| x != 0xAA) || !wd.arena.margin_ok(pl.p, pl.bytes(), 0xAA) {
                            report("written", &case, "a rejected call wrote to the destination");
                        }
                    }
                }
            }
        }
    }
    n
}
