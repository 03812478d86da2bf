#![feature(f16, avx512_target_feature, stdarch_x86_avx512)]
#![allow(dead_code)]
mod call;
mod check;
#[cfg_attr(feature = "neon", path = "cpu_neon.rs")]
mod cpu;
mod engine;
mod explore;
mod fill;
mod fmt;
mod images;
#[cfg(not(feature = "neon"))]
mod interp;
mod mem;
mod meta;
mod model;
mod ops;
mod props;
#[cfg(not(feature = "neon"))]
mod race;
mod tol;
mod vary;
use engine::*;
use fill::Fill;
use fmt::*;
use model::*;

fn calib(filter: &str) {
    let sh = shared();
    let ops = all_ops();
    let ev = |k: &str| std::env::var(k).ok();
    let sel: Vec<usize> = (0..ops.len()).filter(|&i| ops[i].name.contains(filter)).filter(|&i| !ev("OP8").is_some() || ops[i].is8()).collect();
    let wmax: usize = ev("W").map(|s| s.parse().unwrap()).unwrap_or(140);
    let mut sp = explore::Space::shapes(wmax, &[1, 2, 3]);
    sp.fills = vec![Fill::Hash(1), Fill::Ext(2)];
    if let Some(h) = ev("HS") {
        sp.hs = h.split(',').map(|x| x.parse().unwrap()).collect();
    }
    if let Some(h) = ev("WS") {
        sp.ws = h.split(',').map(|x| x.parse().unwrap()).collect();
    }
    if let Some(l) = ev("LAYS") {
        sp.lays = l.split(',').map(|x| explore::LAYS_ALL[x.parse::<usize>().unwrap()]).collect();
    }
    if ev("MATS").is_some() {
        sp.matrices = (0..8).collect();
    }
    if ev("DEPTHS").is_some() {
        sp.depths = vec![8, 9, 10, 11, 12, 13, 14, 15, 16];
    }
    if let Some(f) = ev("FILLS") {
        sp.fills = match f.as_str() {
            "ends" => vec![Fill::Zero, Fill::Max, Fill::Ramp, Fill::Gray(0), Fill::Neutral(0)],
            "grid" => (0..ev("BANDS").map(|s| s.parse().unwrap()).unwrap_or(4)).map(Fill::Grid).collect(),
            _ => (0..ev("BANDS").map(|s| s.parse().unwrap()).unwrap_or(4)).map(Fill::Cube).collect(),
        };
    }
    engine::pool(sh, 8, "calib", 1, sel.len() * sp.ws.len(), &|ctx, j| {
        let oi = sel[j / sp.ws.len()];
        let w = sp.ws[j % sp.ws.len()];
        let bs = ctx.cpu.backends();
        sp.each(ctx, oi, w, true, &mut |ctx, c, s, e| {
            let mut c = *c;
            for &b in &bs {
                c.backend = b;
                if let Some(v) = ctx.run(&c, s, e, &|_, _, _, _| EXACT, true) {
                    let cs = ctx.case_str(&c);
                    let n = ctx.ops[oi].name;
                    ctx.violation(n, b, v.kind, &cs, &v.detail);
                }
            }
        });
    });
    let mut rec = sh.records();
    rec.sort();
    for (k, c, d) in rec {
        println!("V {k} | {d} | {c}");
    }
    for &i in &sel {
        for b in 0..cpu::BACKENDS.len() {
            for m in 0..3 {
                let v: Vec<f32> = (0..4).map(|c| f32::from_bits(sh.calib[i][b * 3 + m][c].load(std::sync::atomic::Ordering::SeqCst))).collect();
                if v.iter().any(|x| *x != 0.0) {
                    println!("D {} {} mode{} {:.5} {:.5} {:.5} {:.5}", ops[i].name, cpu::BACKENDS[b].name, m, v[0], v[1], v[2], v[3]);
                }
            }
        }
    }
    println!("execs {:?}", sh.execs);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "cpu" => {
            let mut c = cpu::Cpu::new();
            println!("{:?} {:?}", c.native, c.backends());
            for b in c.backends() {
                c.select(b);
            }
        }
        "check" => std::process::exit(check::check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick"))),
        "replay" => std::process::exit(check::replay(&a[2])),
        "list" => {
            for o in all_ops() {
                println!("{} {}", props::group(&o), o.name);
            }
        }
        "vary" => std::process::exit(vary::main(&a[2], &a[3])),
        #[cfg(not(feature = "neon"))]
        "interp" => interp::write(&a[2], &a[3], &a[4], a[5] == "thorough"),
        "dump" => dump(),
        "calib" => calib(a.get(2).map(|s| s.as_str()).unwrap_or("")),
        "calib2" => calib2(a.get(2).map(|s| s.as_str()).unwrap_or("")),
        _ => {}
    }
}

/// Which functions are position independent / identical between backends (printed, used when writing properties).
fn calib2(filter: &str) {
    let sh = shared();
    let ops = all_ops();
    let sel: Vec<usize> = (0..ops.len()).filter(|&i| ops[i].name.contains(filter)).collect();
    engine::pool(sh, 8, "calib2", 1, sel.len(), &|ctx, j| {
        let oi = sel[j];
        let op = ctx.ops[oi];
        let mut sp = explore::Space::shapes(1, &[3]);
        sp.matrices = vec![0, 1, 2, 3];
        sp.depths = vec![10, 16];
        let bs = ctx.cpu.backends();
        let mut pre = [[0u32; 8]; 3];
        let mut eq = [[[0u32; 8]; 8]; 3];
        let mut tot = [0u32; 3];
        for p in sp.params(&op) {
            for fl in [Fill::Hash(1), Fill::Ext(2), Fill::Grid(1), Fill::Grid(3)] {
                let m = p.mode as usize;
                let run = |ctx: &mut Ctx, w: usize, b: usize| -> Vec<Vec<i32>> {
                    let l = explore::LAYS_ALL[1];
                    let c = Case { op: oi, backend: b, w, h: 3, fill: fl, p, src_layout: l.0, dst_layout: l.1, place: l.2, pre: l.3 };
                    let (sf, _) = op.fmts(&p);
                    let s = match fl { Fill::Grid(_) => {
                        let big = fill::fill(&sf, 162, 4, fl);
                        // crop
                        let dim = sf.dim(w, 3);
                        let v = dim.iter().enumerate().map(|(k, &(cw, ch))| { let bw = big.dim[k].0; let mut o = vec![]; for y in 0..ch { o.extend_from_slice(&big.v[k][y*bw..y*bw+cw]); } o }).collect();
                        Comps { dim, v }
                    } _ => fill::fill(&sf, w, 3, fl) };
                    let e = expect(&op, &p, &s, w, 3);
                    let _ = ctx.run(&c, &s, Some(&e), &|_, _, _, _| Tol{abs:1e9,rel:0.}, false);
                    ctx.got.v.clone()
                };
                let refs: Vec<_> = bs.iter().map(|&b| run(ctx, 162, b)).collect();
                for w in (1..=70).chain([96,97,127,128,129,130,140]) {
                    let outs: Vec<_> = bs.iter().map(|&b| run(ctx, w, b)).collect();
                    let (_, df) = op.fmts(&p);
                    let (dw, dh) = op.dst_size(&p, w, 3);
                    let dim = df.dim(dw, dh);
                    let (rw, rh) = op.dst_size(&p, 162, 3);
                    let rdim = df.dim(rw, rh);
                    tot[m] += 1;
                    for k in 0..bs.len() {
                        let mut bad = false;
                        for c in 0..dim.len() {
                            for y in 0..dim[c].1 { for x in 0..dim[c].0 {
                                if w % 2 == 1 && x == dim[c].0 - 1 { continue; }
                                if outs[k][c][y*dim[c].0+x] != refs[k][c][y*rdim[c].0+x] { bad = true; }
                            } }
                        }
                        if bad { pre[m][k] += 1; }
                        for q in 0..k { if outs[q] != outs[k] { eq[m][q][k] += 1; } }
                    }
                }
            }
        }
        for m in 0..3 { if tot[m] > 0 {
            let mut s = format!("{} mode{m} tot {} prefix {:?} eq", op.name, tot[m], &pre[m][..bs.len()]);
            for k in 1..bs.len() { s += &format!(" {:?}", &eq[m][..k].iter().map(|r| r[k]).collect::<Vec<_>>()); }
            println!("{s}");
        } }
    });
}

/// One hash of all results per function, path and mode over a fixed space (mutation campaign: is a mutant observable at all?).
fn dump() {
    use std::sync::atomic::Ordering::Relaxed;
    let sh = shared();
    let ops = all_ops();
    let mut sps = vec![explore::Space::shapes(100, &[2, 3]), explore::Space::shapes(1, &[1]), explore::Space::shapes(1, &[1]), explore::Space::shapes(1, &[1])];
    sps[1].ws = vec![131];
    sps[1].hs = vec![340];
    sps[1].fills = vec![Fill::Grid(0)];
    sps[1].depths = vec![10, 16];
    sps[2].ws = vec![67];
    sps[2].hs = vec![40];
    sps[2].fills = vec![Fill::Grid(1), Fill::Ext(4)];
    sps[2].matrices = (0..8).collect();
    sps[2].depths = (8..=16).collect();
    sps[3].ws = vec![257];
    sps[3].hs = vec![256];
    sps[3].fills = vec![Fill::Gray(0), Fill::Neutral(0), Fill::Zero, Fill::Max];
    let mut jobs = vec![];
    for (k, sp) in sps.iter().enumerate() {
        for &w in sp.ws.iter().rev() {
            for i in 0..ops.len() {
                jobs.push((k, w, i));
            }
        }
    }
    jobs.sort_by_key(|j| if j.0 == 1 { 0 } else { 1 });
    engine::pool(sh, check::workers(), "dump", 1, jobs.len(), &|ctx, j| {
        let (k, w, oi) = jobs[j];
        let bs = ctx.cpu.backends();
        sps[k].each(ctx, oi, w, false, &mut |ctx, c, s, e| {
            let mut c = *c;
            for &b in &bs {
                c.backend = b;
                let _ = ctx.run(&c, s, e, &|_, _, _, _| EXACT, false);
                let mut h = fill::hash(c.w as u32, c.h as u32, oi as u32, (c.p.matrix as u32) << 16 | (c.p.range as u32) << 8 | c.p.depth as u32);
                for v in ctx.got.v.iter() {
                    for &x in v {
                        h = (h ^ x as u32).wrapping_mul(0x01000193).rotate_left(5);
                    }
                }
                sh.calib[oi][b * 3 + c.p.mode as usize][0].fetch_add(h, Relaxed);
            }
        });
    });
    for (i, o) in ops.iter().enumerate() {
        for b in 0..cpu::BACKENDS.len() {
            for m in 0..3 {
                let h = sh.calib[i][b * 3 + m][0].load(Relaxed);
                if h != 0 {
                    println!("{} {} {} {:08x}", o.name, cpu::BACKENDS[b].name, m, h);
                }
            }
        }
    }
    for (k, _, _) in sh.records() {
        println!("V {k}");
    }
}
