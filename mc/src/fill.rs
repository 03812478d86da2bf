//! The alphabet of image contents.
use crate::fmt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fill {
    Zero,
    Max,
    /// uniformly mixed sample values
    Hash(u32),
    /// every sample at one of the two ends of its range
    Ext(u32),
    /// horizontal/vertical ramps with different slopes per component
    Ramp,
    /// band `k` of the enumeration of all component triples, `n` bits per component
    Cube(u32),
    /// triples over an alphabet of interesting values; band k
    Grid(u32),
    /// all samples of all components of a pixel equal (grey); luma runs through all values from k
    Gray(u32),
    /// neutral chroma, luma runs through all values from k
    Neutral(u32),
    /// black in every range / white in every range: constant luma at the limited-range end, neutral chroma
    Black,
    White,
    /// every 16-bit sample any 16 bits, whether or not the format admits them
    Raw(u32),
}

#[inline(always)]
pub fn hash(a: u32, b: u32, c: u32, d: u32) -> u32 {
    let mut x = a
        .wrapping_mul(0x9E3779B1)
        .wrapping_add(b.wrapping_mul(0x85EBCA77))
        .wrapping_add(c.wrapping_mul(0xC2B2AE3D))
        .wrapping_add(d.wrapping_mul(0x27D4EB2F));
    x ^= x >> 15;
    x = x.wrapping_mul(0x2C1B3C6D);
    x ^= x >> 12;
    x = x.wrapping_mul(0x297A2D39);
    x ^ x >> 15
}

fn cmax(f: &Fmt, c: usize) -> i32 {
    if f.class == Class::Ar && c == 3 { 3 } else { f.max() }
}

/// A component level in [0,1] (as k of n) turned into a stored sample.
fn level(f: &Fmt, c: usize, t: u32) -> i32 {
    // t: uniform 32-bit
    match (f.ty, f.color) {
        (Ty::F16, _) => {
            let v = t as f64 / u32::MAX as f64;
            (v as f32 as f16).to_bits() as i32
        }
        (_, Color::Rdp) => (t >> 19) as i32 - 4096,
        _ => ((t as u64 * (cmax(f, c) as u64 + 1)) >> 32) as i32,
    }
}
fn ends(f: &Fmt, c: usize, hi: bool) -> i32 {
    match (f.ty, f.color) {
        (Ty::F16, _) => if hi { 0x3C00 } else { 0 },
        (_, Color::Rdp) => if hi { 4095 } else { -4096 },
        _ => if hi { cmax(f, c) } else { 0 },
    }
}

/// Interesting sample values of a depth: ends, range limits, mid, and carries.
pub fn alphabet(depth: u32) -> Vec<i32> {
    let k = 1i32 << (depth - 8);
    let m = (1i32 << depth) - 1;
    let mut v = vec![];
    for b in [0, 16 * k, 64 * k, 128 * k, 235 * k, 240 * k, m / 3, 2 * m / 3, m] {
        for d in [-1, 0, 1] {
            v.push(b + d);
        }
    }
    for j in 0..8 {
        v.push(m * j / 8 + j);
    }
    v.retain(|&x| x >= 0 && x <= m);
    v.sort();
    v.dedup();
    v
}

pub fn fill(f: &Fmt, w: usize, h: usize, k: Fill) -> Comps {
    let dim = f.dim(w, h);
    let mut v: Vec<Vec<i32>> = dim.iter().map(|&(a, b)| vec![0; a * b]).collect();
    let (xs, ys) = match (f.class, f.sub) {
        (Class::Planar | Class::Nv | Class::Yuy, Sub::S420) => (2, 2),
        (Class::Planar | Class::Nv | Class::Yuy, Sub::S422) => (2, 1),
        _ => (1, 1),
    };
    let alph = match k {
        Fill::Grid(_) if f.ty == Ty::F16 => {
            // normalised values: zero, the smallest, around subnormal, quotients, around one
            let mut v = vec![0, 1, 2, 0x3fe, 0x3ff, 0x400, 0x401, 0x1c04, 0x1c05, 0x37ff, 0x3800, 0x3801, 0x3bfe, 0x3bff, 0x3c00];
            v.extend((1..16).map(|j| ((j as f32 / 17.0) as f16).to_bits() as i32));
            v
        }
        Fill::Grid(_) if f.color == Color::Rdp => {
            let mut v = vec![-4096, -4095, -33, -32, -31, -1, 0, 1, 31, 32, 33, 4094, 4095];
            v.extend((1..20).map(|j| -4096 + j * 409));
            v
        }
        Fill::Grid(_) => alphabet(f.depth.max(8)),
        _ => vec![],
    };
    let white = matches!(k, Fill::White);
    for c in 0..dim.len() {
        let (cw, ch) = dim[c];
        let chroma = c > 0 && c < 3 && (cw, ch) != (w, h);
        for y in 0..ch {
            for x in 0..cw {
                let i = y * cw + x;
                v[c][i] = match k {
                    Fill::Zero => ends(f, c, false),
                    Fill::Max => ends(f, c, true),
                    Fill::Hash(s) => level(f, c, hash(s, c as u32, x as u32, y as u32)),
                    Fill::Ext(s) => ends(f, c, hash(s ^ 0x5555, c as u32, x as u32, y as u32) & 1 == 1),
                    Fill::Ramp => {
                        let t = (x as u32).wrapping_mul(0x0300_0000 + 0x0110_0000 * c as u32)
                            .wrapping_add((y as u32).wrapping_mul(0x0500_0000));
                        level(f, c, t)
                    }
                    Fill::Black | Fill::White if matches!(f.color, Color::YCbCr | Color::YCgCo) => {
                        let k = 1i32 << (f.depth - 8);
                        match c {
                            0 => k * if white { 235 } else { 16 },
                            3 => cmax(f, c),
                            _ => 128 * k,
                        }
                    }
                    Fill::Raw(s) if f.ty == Ty::U8 => level(f, c, hash(s, c as u32, x as u32, y as u32)),
                    Fill::Raw(s) => {
                        let t = hash(s, c as u32, x as u32, y as u32);
                        let r = match t & 7 {
                            0 => 0,
                            1 => 0x7fff,
                            2 => 0x8000,
                            3 => 0xffff,
                            _ => t as i32 >> 16 & 0xffff,
                        };
                        if f.color == Color::Rdp { r as i16 as i32 } else { r | RAW }
                    }
                    Fill::Black => ends(f, c, c == 3),
                    Fill::White => ends(f, c, true),
                    Fill::Gray(s) | Fill::Neutral(s) if f.color == Color::Rdp => {
                        let t = ((x + y * cw) as i32 + s as i32) % 8192 - 4096;
                        if c == 0 || matches!(k, Fill::Gray(_)) { t } else { 0 }
                    }
                    Fill::Gray(s) | Fill::Neutral(s) if f.ty == Ty::F16 => ((x + y * cw) as i32 + s as i32) % 0x3c01,
                    Fill::Gray(s) => {
                        let t = (x + y * cw) as i32 + s as i32;
                        if c == 3 { ends(f, c, true) } else { t & f.max() }
                    }
                    Fill::Neutral(s) => {
                        if c == 1 || c == 2 {
                            1 << (f.depth - 1)
                        } else {
                            ((x + y * cw) as i32 + s as i32) & cmax(f, c)
                        }
                    }
                    Fill::Cube(_) | Fill::Grid(_) => 0,
                };
                let _ = chroma;
            }
        }
    }
    if let Fill::Cube(band) | Fill::Grid(band) = k {
        // Pixels are enumerated chroma cell by chroma cell, so that with subsampling every luma
        // value still meets every chroma pair.
        let cells_w = w.div_ceil(xs);
        let per_row = cells_w * xs * ys;
        let total = per_row * h.div_ceil(ys);
        let n = alph.len() as u64;
        for y in 0..h {
            for x in 0..w {
                let cell = (y / ys) * cells_w + x / xs;
                let idx = (cell * xs * ys + (y % ys) * xs + x % xs) as u64 + band as u64 * total as u64;
                let t = if let Fill::Cube(_) = k {
                    [(idx & 255) as i32, (idx >> 8 & 255) as i32, (idx >> 16 & 255) as i32]
                } else {
                    // chroma pair must be constant within a cell: advance it once per n rounded up
                    let np = n.div_ceil((xs * ys) as u64) * (xs * ys) as u64;
                    let l = idx % np;
                    let r = idx / np;
                    [alph[(l % n) as usize], alph[(r % n) as usize], alph[(r / n % n) as usize]]
                };
                v[0][y * w + x] = t[0];
                for c in 1..3.min(dim.len()) {
                    let (cw, _) = dim[c];
                    if x % (w.div_ceil(cw).max(1)) == 0 || cw == w {
                        let (cx, cy) = if cw == w && dim[c].1 == h { (x, y) } else { (x / xs, y / ys) };
                        v[c][cy * cw + cx] = t[c];
                    }
                }
                if dim.len() > 3 {
                    v[3][y * w + x] = if f.class == Class::Ar { (idx & 3) as i32 } else { if f.ty == Ty::F16 { (idx % 0x3c01) as i32 } else { (hash(9, idx as u32, 0, 0) & f.max() as u32) as i32 } };
                }
            }
        }
    }
    Comps { dim, v }
}
