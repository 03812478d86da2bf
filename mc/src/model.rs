//! The reference model: what every function must compute, written directly from the format
//! definitions (ITU-R luma/chroma equations, YCgCo, GBR, RemoteFX, bit packing) in f64 or exact
//! integers, one pixel at a time, with no SIMD, no tables and no fixed point.
use crate::fmt::*;
use crate::ops::F;

pub struct Exp {
    pub dim: Vec<(usize, usize)>,
    pub v: Vec<Vec<f32>>,
    /// Upper ends where the definition leaves a choice: luma below the black level of limited range
    /// may be decoded as it is or as black. Empty when `v` is the only admissible result.
    pub hi: Vec<Vec<f32>>,
}

/// Tolerance of the comparison per destination component: |got - exact| <= abs + rel * |exact|.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tol {
    pub abs: f32,
    pub rel: f32,
}
pub const EXACT: Tol = Tol { abs: 0.0, rel: 0.0 };

#[derive(Clone, Copy)]
pub struct Rng {
    pub by: f64,
    pub ry: f64,
    pub buv: f64,
    pub ruv: f64,
}
pub fn yuv_range(depth: u32, range: u8) -> Rng {
    let k = (1u32 << (depth - 8)) as f64;
    if range == 0 {
        Rng { by: 16.0 * k, ry: 219.0 * k, buv: 128.0 * k, ruv: 224.0 * k }
    } else {
        let m = ((1u32 << depth) - 1) as f64;
        Rng { by: 0.0, ry: m, buv: 128.0 * k, ruv: m }
    }
}

/// Mean of the source pixels a chroma sample covers.
fn box_mean(v: &[i32], w: usize, h: usize, sub: Sub, cx: usize, cy: usize) -> f64 {
    let (xs, ys) = match sub {
        Sub::S420 => (2, 2),
        Sub::S422 => (2, 1),
        _ => (1, 1),
    };
    let (mut s, mut n) = (0i64, 0i64);
    for y in cy * ys..(cy * ys + ys).min(h) {
        for x in cx * xs..(cx * xs + xs).min(w) {
            s += v[y * w + x] as i64;
            n += 1;
        }
    }
    s as f64 / n as f64
}

/// Sharp YUV transfer functions by their definitions: (to linear, from linear).
fn to_linear(g: u8, x: f64) -> f64 {
    match g {
        0 if x < 0.04045 => x / 12.92,
        0 => ((x + 0.055010717) / 1.0550107).powf(2.4),
        1 if x < 0.0812429 => x / 4.5,
        1 => ((x + 0.09929682) / 1.0992968).powf(1.0 / 0.45),
        2 => x.powf(2.2),
        _ => x.powf(2.8),
    }
}
fn from_linear(g: u8, x: f64) -> f64 {
    let x = x.clamp(0.0, 1.0);
    match g {
        0 if x < 0.0030412825 => x * 12.92,
        0 => 1.0550107 * x.powf(1.0 / 2.4) - 0.055010717,
        1 if x < 0.01805397 => x * 4.5,
        1 => 1.0992968 * x.powf(0.45) - 0.09929682,
        2 => x.powf(1.0 / 2.2),
        _ => x.powf(1.0 / 2.8),
    }
}

/// Chroma of sharp YUV: linear light bilinear interpolation (9:3:3:1, 12:4 for 4:2:2) of the pixels of
/// the cell, back to gamma. The interval covers linear light held in 16 bits and gamma in 8 bits.
fn sharp_chroma(e: &mut Exp, df: &Fmt, p: &Params, s: &Comps, w: usize, h: usize, r: &Rng) {
    let (_, kr, kb) = MATRICES[p.matrix as usize];
    let kg = 1.0 - kr - kb;
    e.hi = e.v.clone();
    let (cw, ch) = df.cdim(w, h);
    let q = 1.0 / 65535.0;
    for cy in 0..ch {
        for cx in 0..cw {
            let (y0, y1) = match df.sub {
                Sub::S420 => (2 * cy, (2 * cy + 1).min(h - 1)),
                _ => (cy, cy),
            };
            let (x0, x1) = (2 * cx, (2 * cx + 1).min(w - 1));
            let (mut lo, mut hi) = ([0f64; 3], [0f64; 3]);
            for c in 0..3 {
                let l = |x: usize, y: usize| to_linear(p.aux, s.v[c][y * w + x] as f64 / 255.0);
                let m = (9.0 * l(x0, y0) + 3.0 * l(x1, y0) + 3.0 * l(x0, y1) + l(x1, y1)) / 16.0;
                lo[c] = (from_linear(p.aux, m - 1.6 * q) * 255.0 - 1.0).max(0.0) / 255.0;
                hi[c] = from_linear(p.aux, m + 0.6 * q);
            }
            let i = cy * cw + cx;
            let cbw = [-kr, -kg, 1.0 - kb].map(|k| k / (2.0 * (1.0 - kb)));
            let crw = [1.0 - kr, -kg, -kb].map(|k| k / (2.0 * (1.0 - kr)));
            for (pc, wt) in [(1, cbw), (2, crw)] {
                let (mut a, mut b) = (0.0, 0.0);
                for c in 0..3 {
                    a += wt[c] * if wt[c] > 0.0 { lo[c] } else { hi[c] };
                    b += wt[c] * if wt[c] > 0.0 { hi[c] } else { lo[c] };
                }
                e.v[pc][i] = (r.buv + r.ruv * a) as f32;
                e.hi[pc][i] = (r.buv + r.ruv * b) as f32;
            }
        }
    }
}

pub fn f16v(bits: i32) -> f32 {
    f16::from_bits(bits as u16) as f32
}

pub fn is_f16_dst(d: &Fmt) -> bool {
    d.ty == Ty::F16
}

pub fn expect(op: &Op, p: &Params, s: &Comps, w: usize, h: usize) -> Exp {
    let (sf, df) = op.fmts(p);
    let (dw, dh) = op.dst_size(p, w, h);
    let dim = df.dim(dw, dh);
    let mut e = Exp { v: dim.iter().map(|&(a, b)| vec![0f32; a * b]).collect(), hi: vec![], dim };
    let (_, kr, kb) = MATRICES[p.matrix as usize];
    let kg = 1.0 - kr - kb;
    // unit of the destination: 1.0 for f16, 2^depth - 1 otherwise
    let dmax = if is_f16_dst(&df) { 1.0 } else { df.max() as f64 };
    let rgb_like = |f: &Fmt| f.color == Color::Rgb;
    let has_a_dst = (df.class == Class::Rgb && df.ch == 4) || df.class == Class::Ar;

    // chroma sample index of a luma position
    let cidx = |f: &Fmt, x: usize, y: usize| -> usize {
        let (cw, _) = f.cdim(w, h);
        match f.sub {
            Sub::S420 => (y / 2) * cw + x / 2,
            Sub::S422 => y * cw + x / 2,
            _ => y * cw + x,
        }
    };

    if matches!(op.f, F::SharpEnc8(_)) || (rgb_like(&sf) && df.color == Color::YCbCr) {
        let r = yuv_range(df.depth, p.range);
        let m = sf.max() as f64;
        for i in 0..w * h {
            let (a, b, c) = (s.v[0][i] as f64, s.v[1][i] as f64, s.v[2][i] as f64);
            e.v[0][i] = (r.by + r.ry * (kr * a + kg * b + kb * c) / m) as f32;
        }
        if let F::SharpEnc8(_) = op.f {
            sharp_chroma(&mut e, &df, p, s, w, h, &r);
            return e;
        }
        if df.class != Class::Gray {
            let (cw, ch) = df.cdim(w, h);
            for cy in 0..ch {
                for cx in 0..cw {
                    let a = box_mean(&s.v[0], w, h, df.sub, cx, cy) / m;
                    let b = box_mean(&s.v[1], w, h, df.sub, cx, cy) / m;
                    let c = box_mean(&s.v[2], w, h, df.sub, cx, cy) / m;
                    let y = kr * a + kg * b + kb * c;
                    e.v[1][cy * cw + cx] = (r.buv + r.ruv * (c - y) / (2.0 * (1.0 - kb))) as f32;
                    e.v[2][cy * cw + cx] = (r.buv + r.ruv * (a - y) / (2.0 * (1.0 - kr))) as f32;
                }
            }
        }
        return e;
    }
    if rgb_like(&sf) && df.color == Color::YCgCo {
        let r = yuv_range(df.depth, p.range);
        let m = sf.max() as f64;
        for i in 0..w * h {
            let (a, b, c) = (s.v[0][i] as f64, s.v[1][i] as f64, s.v[2][i] as f64);
            e.v[0][i] = (r.by + r.ry * (0.25 * a + 0.5 * b + 0.25 * c) / m) as f32;
        }
        let (cw, ch) = df.cdim(w, h);
        for cy in 0..ch {
            for cx in 0..cw {
                let a = box_mean(&s.v[0], w, h, df.sub, cx, cy) / m;
                let b = box_mean(&s.v[1], w, h, df.sub, cx, cy) / m;
                let c = box_mean(&s.v[2], w, h, df.sub, cx, cy) / m;
                e.v[1][cy * cw + cx] = (r.buv + r.ruv * (0.5 * b - 0.25 * a - 0.25 * c)) as f32;
                e.v[2][cy * cw + cx] = (r.buv + r.ruv * (0.5 * a - 0.5 * c)) as f32;
            }
        }
        return e;
    }
    if rgb_like(&sf) && df.color == Color::Gbr {
        let r = yuv_range(df.depth, p.range);
        let m = sf.max() as f64;
        for (pc, sc) in [(0, 1), (1, 2), (2, 0)] {
            for i in 0..w * h {
                e.v[pc][i] = (r.by + r.ry * s.v[sc][i] as f64 / m) as f32;
            }
        }
        return e;
    }
    if rgb_like(&sf) && df.color == Color::Rdp {
        // [MS-RDPRFX]: Y in 11.5 fixed point shifted by -4096, Cb/Cr in 11.5 fixed point
        for i in 0..w * h {
            let (a, b, c) = (s.v[0][i] as f64, s.v[1][i] as f64, s.v[2][i] as f64);
            e.v[0][i] = (32.0 * (0.299 * a + 0.587 * b + 0.114 * c) - 4096.0) as f32;
            e.v[1][i] = (32.0 * (-0.168935 * a - 0.331665 * b + 0.500590 * c)) as f32;
            e.v[2][i] = (32.0 * (0.499813 * a - 0.418531 * b - 0.081282 * c)) as f32;
        }
        return e;
    }
    if sf.color == Color::Rdp {
        for i in 0..w * h {
            let y = s.v[0][i] as f64 + 4096.0;
            let (u, v) = (s.v[1][i] as f64, s.v[2][i] as f64);
            e.v[0][i] = ((y + 1.402525 * v) / 32.0).clamp(0.0, 255.0) as f32;
            e.v[1][i] = ((y - 0.343730 * u - 0.714401 * v) / 32.0).clamp(0.0, 255.0) as f32;
            e.v[2][i] = ((y + 1.769905 * u) / 32.0).clamp(0.0, 255.0) as f32;
            if has_a_dst {
                e.v[3][i] = 255.0;
            }
        }
        return e;
    }
    if matches!(sf.color, Color::YCbCr | Color::YCgCo | Color::Gbr) && rgb_like(&df) {
        let r = yuv_range(sf.depth, p.range);
        let smax = sf.max() as f64;
        let (cr, cb) = (2.0 * (1.0 - kr), 2.0 * (1.0 - kb));
        let (g1, g2) = (kr * cr / kg, kb * cb / kg);
        // fast NV decoding limits each chroma weight to what 7 bits with 6 fractional ones can hold
        let cap = |k: f64| if matches!(op.f, F::BiDec8(_)) && p.mode == 0 { k.min(127.0 / 64.0 * r.ruv / 255.0) } else { k };
        let (cr, cb, g1, g2) = (cap(cr), cap(cb), cap(g1), cap(g2));
        let foot = p.range == 0 && sf.class != Class::Gray && sf.color != Color::Gbr && s.v[0].iter().any(|&q| (q as f64) < r.by);
        if foot {
            e.hi = e.v[..3].to_vec();
        }
        for y in 0..h {
            for x in 0..w {
                let i = y * w + x;
                let l = (s.v[0][i] as f64 - r.by) / r.ry;
                let rgb = if sf.class == Class::Gray {
                    [l, l, l]
                } else {
                    let c = cidx(&sf, x, y);
                    let (u0, v0) = (s.v[1][c] as f64, s.v[2][c] as f64);
                    match sf.color {
                        Color::YCbCr => {
                            let (u, v) = ((u0 - r.buv) / r.ruv, (v0 - r.buv) / r.ruv);
                            [l + cr * v, l - g1 * v - g2 * u, l + cb * u]
                        }
                        Color::YCgCo => {
                            let (cg, co) = ((u0 - r.buv) / r.ruv, (v0 - r.buv) / r.ruv);
                            [l - cg + co, l + cg, l - cg - co]
                        }
                        _ => [(v0 - r.by) / r.ry, l, (u0 - r.by) / r.ry],
                    }
                };
                let mut k = 1.0;
                if p.premul && op.takes.premul {
                    k = s.v[3][i] as f64 / smax;
                }
                for c in 0..3 {
                    e.v[c][i] = (rgb[c].clamp(0.0, 1.0) * dmax * k) as f32;
                }
                if foot && l < 0.0 {
                    for c in 0..3 {
                        e.hi[c][i] = ((rgb[c] - l).clamp(0.0, 1.0) * dmax * k) as f32;
                    }
                } else if foot {
                    for c in 0..3 {
                        e.hi[c][i] = e.v[c][i];
                    }
                }
                if has_a_dst {
                    e.v[3][i] = if df.class == Class::Ar {
                        3.0
                    } else if sf.alpha {
                        let ai = if sf.class == Class::Gray { 1 } else { 3 };
                        let a = s.v[ai][i];
                        if is_f16_dst(&df) {
                            a as f32 / smax as f32
                        } else if df.depth < sf.depth {
                            (a >> (sf.depth - df.depth)) as f32
                        } else {
                            a as f32
                        }
                    } else {
                        dmax as f32
                    };
                }
            }
        }
        return e;
    }
    if rgb_like(&sf) && rgb_like(&df) {
        let sa = sf.ch == 4;
        for i in 0..w * h {
            for c in 0..3 {
                let v = s.v[c][i];
                e.v[c][i] = (if df.depth == 10 && sf.depth == 8 {
                    v << 2 | v >> 6
                } else if df.depth < sf.depth {
                    v >> (sf.depth - df.depth)
                } else {
                    v
                }) as f32;
            }
            if has_a_dst {
                let damax = if df.class == Class::Ar { 3 } else { df.max() };
                e.v[3][i] = (if !sa {
                    damax
                } else {
                    let a = s.v[3][i];
                    if sf.class == Class::Ar && df.class != Class::Ar {
                        a * 0x55
                    } else if df.class == Class::Ar {
                        a >> (sf.depth - 2)
                    } else {
                        a
                    }
                }) as f32;
            }
        }
        return e;
    }
    if sf.color == Color::YCbCr && df.color == Color::YCbCr {
        // packed 4:2:2 <-> planar: luma verbatim, chroma verbatim / averaged / replicated
        for i in 0..w * h {
            e.v[0][i] = s.v[0][i] as f32;
        }
        let (dcw, dch) = df.cdim(w, h);
        let (scw, sch) = sf.cdim(w, h);
        let upper = sf.sub == Sub::S422 && df.sub == Sub::S420;
        if upper {
            e.hi = e.v.clone();
        }
        for c in 1..3 {
            for cy in 0..dch {
                for cx in 0..dcw {
                    let a = &s.v[c];
                    let avg = |p: i32, q: i32| ((p + q + 1) >> 1) as f32;
                    e.v[c][cy * dcw + cx] = match (sf.sub, df.sub) {
                        (Sub::S444, Sub::S422) => {
                            let x1 = (2 * cx + 1).min(scw - 1);
                            avg(a[cy * scw + 2 * cx], a[cy * scw + x1])
                        }
                        (Sub::S422, Sub::S444) => a[cy * scw + cx / 2] as f32,
                        (Sub::S420, Sub::S422) => a[(cy / 2) * scw + cx] as f32,
                        (Sub::S422, Sub::S420) => {
                            let y1 = (2 * cy + 1).min(sch - 1);
                            // either co-sited with the upper row or the mean of both rows
                            let (p, q) = (a[2 * cy * scw + cx] as f32, avg(a[2 * cy * scw + cx], a[y1 * scw + cx]));
                            e.hi[c][cy * dcw + cx] = p.max(q);
                            p.min(q)
                        }
                        _ => a[cy * scw + cx] as f32,
                    };
                }
            }
        }
        return e;
    }
    if sf.color == Color::Raw {
        for c in 0..sf.ch {
            match op.f {
                F::F16From8(_) | F::F16From16(_) => {
                    for i in 0..w * h {
                        e.v[c][i] = (s.v[c][i] as f64 / sf.max() as f64) as f32;
                    }
                }
                F::F16To8(_) | F::F16To16(_) => {
                    for i in 0..w * h {
                        let v = f16v(s.v[c][i]);
                        let t = (v as f64 * df.max() as f64).round();
                        e.v[c][i] = if v.is_nan() { 0.0 } else { t.clamp(0.0, df.max() as f64) as f32 };
                    }
                }
                F::Mir8(_) | F::Mir16(_) => {
                    for y in 0..h {
                        for x in 0..w {
                            let q = if p.aux == 0 { (h - 1 - y) * w + x } else { y * w + w - 1 - x };
                            e.v[c][y * w + x] = s.v[c][q] as f32;
                        }
                    }
                }
                _ => {
                    for y in 0..dh {
                        for x in 0..dw {
                            let q = match p.aux {
                                0 => x * w + (w - 1 - y),
                                1 => (h - 1 - y) * w + (w - 1 - x),
                                _ => (h - 1 - x) * w + y,
                            };
                            e.v[c][y * dw + x] = s.v[c][q] as f32;
                        }
                    }
                }
            }
        }
        return e;
    }
    panic!("no model for {}", op.name);
}

/// Worst deviation of one component from the model, as (deviation, index).
pub fn deviation(df: &Fmt, c: usize, got: &[i32], e: &Exp) -> (f32, usize) {
    let mut worst = (0f32, 0usize);
    let f16 = is_f16_dst(df);
    let exp = &e.v[c];
    let hi = e.hi.get(c).unwrap_or(exp);
    for (i, &g) in got.iter().enumerate() {
        let g = if f16 { f16v(g) } else { g as f32 };
        let mut d = (exp[i] - g).max(g - hi[i]).max(0.0);
        if !(d <= f32::MAX) {
            d = f32::MAX;
        }
        if d > worst.0 {
            worst = (d, i);
        }
    }
    worst
}

pub fn first_bad(df: &Fmt, c: usize, got: &[i32], e: &Exp, t: Tol) -> Option<usize> {
    let exp = &e.v[c];
    let hi = e.hi.get(c).unwrap_or(exp);
    if is_f16_dst(df) {
        (0..got.len()).find(|&i| {
            let g = f16v(got[i]);
            let d = (exp[i] - g).max(g - hi[i]);
            !(d <= t.abs + t.rel * exp[i].abs()) || g.is_nan()
        })
    } else {
        (0..got.len()).find(|&i| {
            let g = got[i] as f32;
            !(g >= exp[i] - t.abs && g <= hi[i] + t.abs)
        })
    }
}
