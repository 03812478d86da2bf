//! C31: the image containers. Allocation, fixed views and the acceptance test, over every small geometry.
use crate::engine::*;
use crate::explore::Space;
use std::sync::atomic::Ordering::Relaxed;
use yuv::*;

const SUBS: [(YuvChromaSubsampling, usize, usize); 3] = [(YuvChromaSubsampling::Yuv420, 2, 2), (YuvChromaSubsampling::Yuv422, 2, 1), (YuvChromaSubsampling::Yuv444, 1, 1)];

fn say(ctx: &mut Ctx, what: &str, case: &str, detail: &str) {
    let w = case.split("width=").nth(1).and_then(|x| x.split(' ').next()).unwrap_or("0");
    let case = format!("stage={} op={} w={w} {case}", ctx.stage, ctx.ops[0].name);
    ctx.violation(what, 0, "container", &case, detail);
}

fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "panicked".to_string())
}

struct Seen {
    len: usize,
    ptr: usize,
    stride: u32,
    zero: bool,
}

fn alloc_of<T: Copy + Default + PartialEq + std::fmt::Debug>(ctx: &mut Ctx, ty: &str, w: usize, h: usize) {
    let z = T::default();
    let seen = |s: &[T], stride: u32| Seen { len: s.len(), ptr: s.as_ptr() as usize, stride, zero: s.iter().all(|x| *x == z) };
    for (sub, sx, sy) in SUBS {
        let (cw, ch) = (w.div_ceil(sx), h.div_ceil(sy));
        let case = format!("type={ty} width={w} height={h} subsampling={sub:?}");
        ctx.sh.states.fetch_add(1, Relaxed);
        // planar, bi-planar, gray: (name, expected (row, rows) per plane, owned planes, fixed planes, sizes, verdicts)
        let look = |ctx: &mut Ctx, what: &str, want: &[(usize, usize)], r: Result<(Vec<Seen>, Vec<Seen>, [u32; 4], Vec<bool>), String>| {
            ctx.sh.execs.fetch_add(1, Relaxed);
            let (own, fix, dims, ok) = match r {
                Ok(x) => x,
                Err(e) => return say(ctx, what, &case, &e),
            };
            ctx.sh.compared.fetch_add(1, Relaxed);
            for (k, &(row, rows)) in want.iter().enumerate() {
                if own[k].len != row * rows || own[k].stride as usize != row {
                    say(ctx, what, &case, &format!("plane {k} has {} samples in rows of {}, the image needs {rows} rows of {row}", own[k].len, own[k].stride));
                }
                if !own[k].zero {
                    say(ctx, what, &case, &format!("plane {k} is not cleared"));
                }
                for f in fix.chunks(want.len()) {
                    if f[k].len != own[k].len || f[k].ptr != own[k].ptr || f[k].stride != own[k].stride {
                        say(ctx, what, &case, &format!("plane {k} of the fixed view is not the image's own plane"));
                    }
                }
            }
            if dims != [w as u32, h as u32, w as u32, h as u32] {
                say(ctx, what, &case, &format!("the image or its fixed view says {dims:?}"));
            }
            if ok.iter().any(|x| !x) {
                say(ctx, what, &case, "its own check rejects the allocated image");
            }
        };
        let r = guarded(|| {
            let i = YuvPlanarImageMut::<T>::alloc(w as u32, h as u32, sub);
            let f = i.to_fixed();
            (
                vec![seen(i.y_plane.borrow(), i.y_stride), seen(i.u_plane.borrow(), i.u_stride), seen(i.v_plane.borrow(), i.v_stride)],
                vec![seen(f.y_plane, f.y_stride), seen(f.u_plane, f.u_stride), seen(f.v_plane, f.v_stride)],
                [i.width, i.height, f.width, f.height],
                vec![i.check_constraints(sub).is_ok(), f.check_constraints(sub).is_ok()],
            )
        });
        look(ctx, "YuvPlanarImageMut::alloc", &[(w, h), (cw, ch), (cw, ch)], r);
        let r = guarded(|| {
            let i = YuvBiPlanarImageMut::<T>::alloc(w as u32, h as u32, sub);
            let f = i.to_fixed();
            let g = YuvBiPlanarImage::from_mut(&i);
            (
                vec![seen(i.y_plane.borrow(), i.y_stride), seen(i.uv_plane.borrow(), i.uv_stride)],
                vec![seen(f.y_plane, f.y_stride), seen(f.uv_plane, f.uv_stride), seen(g.y_plane, g.y_stride), seen(g.uv_plane, g.uv_stride)],
                [i.width, i.height, if f.width == g.width { f.width } else { !0 }, if f.height == g.height { f.height } else { !0 }],
                vec![i.check_constraints(sub).is_ok(), f.check_constraints(sub).is_ok(), g.check_constraints(sub).is_ok()],
            )
        });
        look(ctx, "YuvBiPlanarImageMut::alloc", &[(w, h), (2 * cw, ch)], r);
        if sx == 1 {
            let r = guarded(|| {
                let i = YuvGrayImageMut::<T>::alloc(w as u32, h as u32);
                let f = i.to_fixed();
                (
                    vec![seen(i.y_plane.borrow(), i.y_stride)],
                    vec![seen(f.y_plane, f.y_stride)],
                    [i.width, i.height, f.width, f.height],
                    vec![i.check_constraints().is_ok(), f.check_constraints().is_ok()],
                )
            });
            look(ctx, "YuvGrayImageMut::alloc", &[(w, h)], r);
        }
    }
    // a store hands out its own memory, for reading and for writing
    let case = format!("type={ty} width={w} height={h}");
    let mut mem = vec![z; w * h];
    let p = mem.as_ptr();
    let mut b = BufferStoreMut::Borrowed(&mut mem);
    let same = b.borrow().as_ptr() == p && b.borrow().len() == w * h && b.borrow_mut().as_ptr() == p && b.borrow_mut().len() == w * h;
    let mem2 = vec![z; w * h];
    let p = mem2.as_ptr();
    let mut b = BufferStoreMut::Owned(mem2);
    let same = same && b.borrow().as_ptr() == p && b.borrow().len() == w * h && b.borrow_mut().as_ptr() == p && b.borrow_mut().len() == w * h;
    if !same {
        say(ctx, "BufferStoreMut", &case, "the store does not hand out its own memory");
    }
    let mut mem = vec![z; w * h];
    let p = mem.as_ptr();
    let i = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(&mut mem), yuy_stride: w as u32, width: h as u32, height: 7 };
    let f = i.to_fixed();
    if f.yuy.as_ptr() != p || f.yuy.len() != w * h || f.yuy_stride != w as u32 || f.width != h as u32 || f.height != 7 {
        say(ctx, "YuvPackedImageMut::to_fixed", &case, "the fixed view differs from the image");
    }
}

pub fn alloc(ctx: &mut Ctx, sp: &Space, _op: usize, w: usize) {
    for &h in &sp.hs {
        alloc_of::<u8>(ctx, "u8", w, h);
        alloc_of::<u16>(ctx, "u16", w, h);
    }
}

/// What must be accepted, what must be rejected, and what is left open for one plane.
fn verdict(row: usize, rows: usize, stride: usize, len: usize, tight: bool) -> Option<bool> {
    if row == 0 || rows == 0 || stride < row || len < stride * (rows - 1) + row {
        return Some(false);
    }
    if len == stride * rows && (!tight || stride == row) {
        return Some(true);
    }
    None
}

/// Every plane length and stride around the right ones, one plane at a time, for every container.
pub fn accept(ctx: &mut Ctx, sp: &Space, _op: usize, w: usize) {
    let mem = vec![0u8; 4 * (2 * w + 12) * (sp.hs.iter().max().unwrap() + 2) + 64];
    for h in sp.hs.iter().copied().chain([0]) {
        for w in [w, 0] {
            for (sub, sx, sy) in SUBS {
                let (cw, ch) = (w.div_ceil(sx), h.div_ceil(sy));
                // container, its planes (row, rows, must be tight)
                let kinds: [(&str, Vec<(usize, usize, bool)>); 6] = [
                    ("planar", vec![(w, h, false), (cw, ch, false), (cw, ch, false)]),
                    ("planar-alpha", vec![(w, h, false), (cw, ch, false), (cw, ch, false), (w, h, false)]),
                    ("bi-planar", vec![(w, h, false), (2 * cw, ch, true)]),
                    ("gray", vec![(w, h, false)]),
                    ("gray-alpha", vec![(w, h, false), (w, h, false)]),
                    ("packed", vec![(2 * w.next_multiple_of(2), h, true)]),
                ];
                for (what, planes) in &kinds {
                    if matches!(*what, "gray" | "gray-alpha" | "packed") && sx != 1 {
                        continue;
                    }
                    for k in 0..planes.len() {
                        let (row, rows, _) = planes[k];
                        for stride in 0..=row + 3 {
                            for len in 0..=stride * rows + 3 {
                                let g: Vec<(u32, &[u8])> = planes.iter().enumerate().map(|(j, p)| if j == k { (stride as u32, &mem[..len]) } else { (p.0 as u32, &mem[..p.0 * p.1]) }).collect();
                                let want = planes.iter().enumerate().fold(Some(true), |a, (j, p)| {
                                    let v = verdict(p.0, p.1, g[j].0 as usize, g[j].1.len(), p.2);
                                    match (a, v) {
                                        (Some(false), _) | (_, Some(false)) => Some(false),
                                        (Some(true), Some(true)) => Some(true),
                                        _ => None,
                                    }
                                });
                                ctx.sh.states.fetch_add(1, Relaxed);
                                let (wu, hu) = (w as u32, h as u32);
                                let r = guarded(|| {
                                    let mut v = vec![];
                                    let mut add = |r: Result<(), YuvError>| v.push(r.is_ok());
                                    match *what {
                                        "planar" => {
                                            let i = YuvPlanarImage { y_plane: g[0].1, y_stride: g[0].0, u_plane: g[1].1, u_stride: g[1].0, v_plane: g[2].1, v_stride: g[2].0, width: wu, height: hu };
                                            add(i.check_constraints(sub));
                                            let m = YuvPlanarImageMut { y_plane: BufferStoreMut::Owned(g[0].1.to_vec()), y_stride: g[0].0, u_plane: BufferStoreMut::Owned(g[1].1.to_vec()), u_stride: g[1].0, v_plane: BufferStoreMut::Owned(g[2].1.to_vec()), v_stride: g[2].0, width: wu, height: hu };
                                            add(m.check_constraints(sub));
                                        }
                                        "planar-alpha" => {
                                            let i = YuvPlanarImageWithAlpha { y_plane: g[0].1, y_stride: g[0].0, u_plane: g[1].1, u_stride: g[1].0, v_plane: g[2].1, v_stride: g[2].0, a_plane: g[3].1, a_stride: g[3].0, width: wu, height: hu };
                                            add(i.check_constraints(sub));
                                        }
                                        "bi-planar" => {
                                            let i = YuvBiPlanarImage { y_plane: g[0].1, y_stride: g[0].0, uv_plane: g[1].1, uv_stride: g[1].0, width: wu, height: hu };
                                            add(i.check_constraints(sub));
                                            let m = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Owned(g[0].1.to_vec()), y_stride: g[0].0, uv_plane: BufferStoreMut::Owned(g[1].1.to_vec()), uv_stride: g[1].0, width: wu, height: hu };
                                            add(m.check_constraints(sub));
                                        }
                                        "gray" => {
                                            add(YuvGrayImage { y_plane: g[0].1, y_stride: g[0].0, width: wu, height: hu }.check_constraints());
                                            add(YuvGrayImageMut { y_plane: BufferStoreMut::Owned(g[0].1.to_vec()), y_stride: g[0].0, width: wu, height: hu }.check_constraints());
                                        }
                                        "gray-alpha" => add(YuvGrayAlphaImage { y_plane: g[0].1, y_stride: g[0].0, a_plane: g[1].1, a_stride: g[1].0, width: wu, height: hu }.check_constraints()),
                                        _ => {
                                            add(YuvPackedImage { yuy: g[0].1, yuy_stride: g[0].0, width: wu, height: hu }.check_constraints());
                                            add(YuvPackedImageMut { yuy: BufferStoreMut::Owned(g[0].1.to_vec()), yuy_stride: g[0].0, width: wu, height: hu }.check_constraints());
                                        }
                                    }
                                    v
                                });
                                ctx.sh.execs.fetch_add(1, Relaxed);
                                let case = format!("width={w} height={h} subsampling={sub:?} plane={k} stride={stride} length={len}");
                                let v = match r {
                                    Err(e) => {
                                        say(ctx, what, &case, &e);
                                        continue;
                                    }
                                    Ok(v) => v,
                                };
                                ctx.sh.compared.fetch_add(1, Relaxed);
                                if v.iter().any(|x| *x != v[0]) {
                                    say(ctx, what, &case, "the mutable and the fixed image disagree on whether it is valid");
                                }
                                if want == Some(false) && v[0] {
                                    say(ctx, what, &case, "accepted, although a row of the image is not inside its plane");
                                }
                                if want == Some(true) && !v[0] {
                                    say(ctx, what, &case, "rejected, although every plane holds exactly its rows");
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}
