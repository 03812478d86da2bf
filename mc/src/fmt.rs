//! What each public function is supposed to do, derived from its name: source and destination
//! sample formats and where every component of every pixel lives in the planes.
use crate::mem::Plane;
use crate::ops::{OpRow, F};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    U8,
    U16,
    F16,
    I16,
}
impl Ty {
    pub fn size(self) -> usize {
        if self == Ty::U8 { 1 } else { 2 }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Rgb,
    Ar,
    Planar,
    Nv,
    Gray,
    Yuy,
    Ayuv,
    Raw,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Color {
    Rgb,
    YCbCr,
    YCgCo,
    Gbr,
    Rdp,
    Raw,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sub {
    S420,
    S422,
    S444,
    S400,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fmt {
    pub class: Class,
    pub ty: Ty,
    /// interleaved channels of Rgb/Raw
    pub ch: usize,
    pub depth: u32,
    /// Rgb: positions of R,G,B,A; Yuy: y0,u,y1,v; Ayuv: y,u,v,a; Nv: u,v in [0],[1]; Ar: kind in [0]
    pub ord: [u8; 4],
    pub sub: Sub,
    pub msb: bool,
    pub be: bool,
    pub alpha: bool,
    pub color: Color,
}

pub const BASE: Fmt = Fmt {
    class: Class::Raw,
    ty: Ty::U8,
    ch: 1,
    depth: 8,
    ord: [0, 1, 2, 3],
    sub: Sub::S444,
    msb: false,
    be: false,
    alpha: false,
    color: Color::Raw,
};

#[derive(Clone, Copy)]
pub struct PlaneSpec {
    pub ty: Ty,
    pub w: usize,
    pub h: usize,
    /// the library requires the exact tight size for this plane
    pub tight: bool,
}

/// Samples of one image, component by component: `v[c][y * cw(c) + x]`.
pub struct Comps {
    pub dim: Vec<(usize, usize)>,
    pub v: Vec<Vec<i32>>,
}

#[derive(Clone, Copy)]
pub struct RowPos {
    pub plane: usize,
    pub start: usize,
    pub step: usize,
}

/// Marks a value that is to be stored as it is, whatever the sample format.
pub const RAW: i32 = 1 << 30;

impl Fmt {
    pub fn max(&self) -> i32 {
        (1i32 << self.depth) - 1
    }
    pub fn dim(&self, w: usize, h: usize) -> Vec<(usize, usize)> {
        match self.class {
            Class::Rgb => vec![(w, h); self.ch],
            Class::Ar => vec![(w, h); 4],
            Class::Raw => vec![(w, h); self.ch],
            Class::Gray => vec![(w, h); if self.alpha { 2 } else { 1 }],
            Class::Ayuv => vec![(w, h); 4],
            _ => {
                let (cw, ch) = self.cdim(w, h);
                let mut v = vec![(w, h), (cw, ch), (cw, ch)];
                if self.alpha {
                    v.push((w, h));
                }
                v
            }
        }
    }
    pub fn cdim(&self, w: usize, h: usize) -> (usize, usize) {
        match self.sub {
            Sub::S420 => (w.div_ceil(2), h.div_ceil(2)),
            Sub::S422 => (w.div_ceil(2), h),
            _ => (w, h),
        }
    }
    pub fn planes(&self, w: usize, h: usize) -> Vec<PlaneSpec> {
        let p = |w, h| PlaneSpec { ty: self.ty, w, h, tight: false };
        let (cw, ch) = self.cdim(w, h);
        match self.class {
            Class::Rgb | Class::Raw => vec![p(w * self.ch, h)],
            Class::Ar => vec![p(w * 4, h)],
            Class::Planar => {
                let mut v = vec![p(w, h), p(cw, ch), p(cw, ch)];
                if self.alpha {
                    v.push(p(w, h));
                }
                v
            }
            Class::Nv => vec![p(w, h), PlaneSpec { tight: true, ..p(cw * 2, ch) }],
            Class::Gray => vec![p(w, h); if self.alpha { 2 } else { 1 }],
            Class::Yuy => vec![PlaneSpec { tight: true, ..p(cw * 4, h) }],
            Class::Ayuv => vec![p(w * 4, h)],
        }
    }
    pub fn pos(&self, c: usize) -> RowPos {
        let r = |plane, start, step| RowPos { plane, start, step };
        match self.class {
            Class::Rgb => r(0, self.ord[c] as usize, self.ch),
            Class::Raw => r(0, c, self.ch),
            Class::Planar | Class::Gray => r(c, 0, 1),
            Class::Nv => {
                if c == 0 { r(0, 0, 1) } else { r(1, self.ord[c - 1] as usize, 2) }
            }
            Class::Yuy => match c {
                0 => r(0, self.ord[0] as usize, 2),
                1 => r(0, self.ord[1] as usize, 4),
                _ => r(0, self.ord[3] as usize, 4),
            },
            Class::Ayuv => r(0, self.ord[c] as usize, 4),
            Class::Ar => unreachable!(),
        }
    }
    #[inline(always)]
    pub fn enc(&self, v: i32) -> u16 {
        if v & RAW != 0 && self.color != Color::Rdp {
            return v as u16;
        }
        let mut x = v as u16;
        if self.msb {
            x <<= 16 - self.depth;
        }
        if self.be {
            x = x.swap_bytes();
        }
        x
    }
    /// Raw element to component value; the second part is false when bits outside the sample are set.
    #[inline(always)]
    pub fn dec(&self, e: u16) -> (i32, bool) {
        let mut x = e;
        if self.be {
            x = x.swap_bytes();
        }
        if self.msb {
            let s = 16 - self.depth;
            return ((x >> s) as i32, x & ((1u16 << s) - 1) == 0);
        }
        if self.ty == Ty::I16 {
            return (x as i16 as i32, true);
        }
        (x as i32, true)
    }
    pub fn store(&self, comps: &Comps, planes: &[Plane]) {
        if self.class == Class::Ar {
            let pl = planes[0];
            let m = pl.m::<u8>();
            let (w, h) = comps.dim[0];
            for y in 0..h {
                for x in 0..w {
                    let i = y * w + x;
                    let p = ar_pack(self.ord[0], comps.v[0][i], comps.v[1][i], comps.v[2][i], comps.v[3][i]);
                    let b = if self.be { p.to_be_bytes() } else { p.to_le_bytes() };
                    m[y * pl.stride + x * 4..][..4].copy_from_slice(&b);
                }
            }
            return;
        }
        for c in 0..comps.v.len() {
            let rp = self.pos(c);
            let pl = planes[rp.plane];
            let (cw, chh) = comps.dim[c];
            for y in 0..chh {
                let src = &comps.v[c][y * cw..(y + 1) * cw];
                let base = y * pl.stride + rp.start;
                if pl.ty == Ty::U8 {
                    let m = pl.m::<u8>();
                    for (x, s) in src.iter().enumerate() {
                        m[base + x * rp.step] = *s as u8;
                    }
                } else {
                    let m = pl.m::<u16>();
                    for (x, s) in src.iter().enumerate() {
                        m[base + x * rp.step] = self.enc(*s);
                    }
                }
            }
        }
    }
    /// Read the components back; returns the first sample with stray bits, if any.
    pub fn load(&self, planes: &[Plane], w: usize, h: usize, out: &mut Comps) -> Option<(usize, usize, usize)> {
        let mut bad = None;
        out.dim = self.dim(w, h);
        out.v.resize_with(out.dim.len(), Vec::new);
        if self.class == Class::Ar {
            let pl = planes[0];
            let m = pl.s::<u8>();
            for c in 0..4 {
                out.v[c].clear();
            }
            for y in 0..h {
                for x in 0..w {
                    let q = &m[y * pl.stride + x * 4..][..4];
                    let q = [q[0], q[1], q[2], q[3]];
                    let p = if self.be { u32::from_be_bytes(q) } else { u32::from_le_bytes(q) };
                    let t = ar_unpack(self.ord[0], p);
                    for c in 0..4 {
                        out.v[c].push(t[c]);
                    }
                }
            }
            return None;
        }
        for c in 0..out.dim.len() {
            let rp = self.pos(c);
            let pl = planes[rp.plane];
            let (cw, chh) = out.dim[c];
            let o = &mut out.v[c];
            o.clear();
            for y in 0..chh {
                let base = y * pl.stride + rp.start;
                if cw == 0 {
                    continue;
                }
                if pl.ty == Ty::U8 {
                    let m = &pl.s::<u8>()[base..base + (cw - 1) * rp.step + 1];
                    o.extend(m.iter().step_by(rp.step).map(|&e| e as i32));
                } else {
                    let m = &pl.s::<u16>()[base..base + (cw - 1) * rp.step + 1];
                    for (x, &e) in m.iter().step_by(rp.step).enumerate() {
                        let (v, ok) = self.dec(e);
                        if !ok && bad.is_none() {
                            bad = Some((c, x, y));
                        }
                        o.push(v);
                    }
                }
            }
        }
        bad
    }
}

pub fn ar_pack(kind: u8, r: i32, g: i32, b: i32, a: i32) -> u32 {
    let (r, g, b, a) = (r as u32, g as u32, b as u32, a as u32);
    match kind {
        0 => a << 30 | b << 20 | g << 10 | r,
        1 => a << 30 | r << 20 | g << 10 | b,
        2 => r << 22 | g << 12 | b << 2 | a,
        _ => b << 22 | g << 12 | r << 2 | a,
    }
}
pub fn ar_unpack(kind: u8, p: u32) -> [i32; 4] {
    let f = |s: u32| (p >> s & 0x3ff) as i32;
    match kind {
        0 => [f(0), f(10), f(20), (p >> 30) as i32],
        1 => [f(20), f(10), f(0), (p >> 30) as i32],
        2 => [f(22), f(12), f(2), (p & 3) as i32],
        _ => [f(2), f(12), f(22), (p & 3) as i32],
    }
}

/// Run-time arguments of a call beyond the buffers.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Params {
    /// 0 limited, 1 full
    pub range: u8,
    pub matrix: u8,
    /// 0 fast, 1 balanced, 2 professional
    pub mode: u8,
    /// 0 host, 1 network
    pub bo: u8,
    pub premul: bool,
    pub depth: u8,
    /// rotation / mirror / gamma
    pub aux: u8,
}
pub const P0: Params = Params { range: 0, matrix: 0, mode: 1, bo: 0, premul: false, depth: 8, aux: 0 };

pub const MATRICES: [(&str, f64, f64); 8] = [
    ("Bt601", 0.299, 0.114),
    ("Bt709", 0.2126, 0.0722),
    ("Bt2020", 0.2627, 0.0593),
    ("Smpte240", 0.087, 0.212),
    ("Bt470_6", 0.2220, 0.0713),
    ("Fcc", 0.30, 0.11),
    ("Custom(0.299,0.114)", 0.299, 0.114),
    ("Custom(0.25,0.05)", 0.25, 0.05),
];

/// Which of `Params` the function takes.
#[derive(Clone, Copy, Default, Debug)]
pub struct Takes {
    pub range: bool,
    pub matrix: bool,
    pub mode: bool,
    pub bo: bool,
    pub premul: bool,
    pub depth: bool,
    pub aux: u8,
}

#[derive(Clone, Copy)]
pub struct Op {
    pub name: &'static str,
    pub f: F,
    pub src: Fmt,
    pub dst: Fmt,
    pub takes: Takes,
}

fn rgb_order(t: &str) -> ([u8; 4], usize) {
    match t {
        "rgb" => ([0, 1, 2, 255], 3),
        "bgr" => ([2, 1, 0, 255], 3),
        "rgba" => ([0, 1, 2, 3], 4),
        "bgra" => ([2, 1, 0, 3], 4),
        "argb" => ([1, 2, 3, 0], 4),
        "abgr" => ([3, 2, 1, 0], 4),
        _ => panic!("rgb order {t}"),
    }
}

fn rgb_fmt(tok: &str) -> Fmt {
    let tok = tok.strip_suffix("_p16").unwrap_or(tok);
    if let Some(t) = tok.strip_suffix("_f16") {
        let (ord, ch) = rgb_order(t);
        return Fmt { class: Class::Rgb, ty: Ty::F16, ch, depth: 16, ord, color: Color::Rgb, ..BASE };
    }
    for (i, k) in ["ar30", "ab30", "ra30", "ba30"].iter().enumerate() {
        if tok == *k {
            return Fmt { class: Class::Ar, ty: Ty::U8, ch: 4, depth: 10, ord: [i as u8, 0, 0, 0], color: Color::Rgb, ..BASE };
        }
    }
    let digits: String = tok.chars().filter(|c| c.is_ascii_digit()).collect();
    let name: String = tok.chars().filter(|c| !c.is_ascii_digit()).collect();
    let (ord, ch) = rgb_order(&name);
    let depth: u32 = if digits.is_empty() { 8 } else { digits.parse().unwrap() };
    let ty = if depth > 8 { Ty::U16 } else { Ty::U8 };
    Fmt { class: Class::Rgb, ty, ch, depth, ord, color: Color::Rgb, ..BASE }
}

fn sub_of(s: &str) -> Sub {
    match s {
        "420" | "0" => Sub::S420,
        "422" | "2" => Sub::S422,
        "444" | "4" => Sub::S444,
        "400" => Sub::S400,
        _ => panic!("sub {s}"),
    }
}

fn yuy_ord(s: &str) -> [u8; 4] {
    match s {
        "yuyv" => [0, 1, 2, 3],
        "yvyu" => [0, 3, 2, 1],
        "uyvy" => [1, 0, 3, 2],
        "vyuy" => [1, 2, 3, 0],
        _ => panic!("yuy {s}"),
    }
}

/// Format of a YUV-side token such as `yuv420`, `i210_be_alpha`, `p010`, `yuv_nv21`, `gb12`, `icgc010`.
fn yuv_fmt(tok: &str) -> Fmt {
    let mut t = tok.to_string();
    let mut alpha = false;
    let mut be = false;
    for (pat, which) in [("_with_alpha", 0), ("_alpha", 0), ("_be", 1), ("_p16", 2)] {
        if t.contains(pat) {
            t = t.replace(pat, "");
            match which {
                0 => alpha = true,
                1 => be = true,
                _ => {}
            }
        }
    }
    let base = Fmt { class: Class::Planar, alpha, be, color: Color::YCbCr, ..BASE };
    let hb = |ty_depth: &str| -> (Ty, u32) { (Ty::U16, ty_depth.parse().unwrap()) };
    if let Some(n) = t.strip_prefix("yuv_nv") {
        let (sub, swap) = match n {
            "12" => (Sub::S420, false),
            "21" => (Sub::S420, true),
            "16" => (Sub::S422, false),
            "61" => (Sub::S422, true),
            "24" => (Sub::S444, false),
            "42" => (Sub::S444, true),
            _ => panic!("nv {n}"),
        };
        return Fmt { class: Class::Nv, sub, ord: if swap { [1, 0, 0, 0] } else { [0, 1, 0, 0] }, ..base };
    }
    if let Some(n) = t.strip_prefix("rdp_yuv444") {
        assert!(n.is_empty());
        return Fmt { color: Color::Rdp, ty: Ty::I16, depth: 15, ..base };
    }
    if let Some(n) = t.strip_prefix("icgc") {
        let (ty, depth) = hb(&n[1..]);
        return Fmt { color: Color::YCgCo, sub: sub_of(&n[..1]), ty, depth, ..base };
    }
    if let Some(n) = t.strip_prefix("ycgco") {
        return Fmt { color: Color::YCgCo, sub: sub_of(n), ..base };
    }
    if t == "gbr" {
        return Fmt { color: Color::Gbr, ..base };
    }
    if let Some(n) = t.strip_prefix("gb") {
        let (ty, depth) = hb(n);
        return Fmt { color: Color::Gbr, ty, depth, ..base };
    }
    if t == "ayuv" {
        return Fmt { class: Class::Ayuv, alpha: true, ord: [1, 2, 3, 0], ..base };
    }
    if t == "vyua" {
        return Fmt { class: Class::Ayuv, alpha: true, ord: [2, 1, 0, 3], ..base };
    }
    if let Some(p) = t.strip_suffix("422") {
        if p.len() == 4 {
            return Fmt { class: Class::Yuy, sub: Sub::S422, ord: yuy_ord(p), ..base };
        }
    }
    if let Some(n) = t.strip_prefix("yuv") {
        let n = n.trim_start_matches('_');
        let n = n.strip_prefix("sharp").unwrap_or(n);
        let sub = sub_of(n);
        if sub == Sub::S400 {
            return Fmt { class: Class::Gray, sub, ..base };
        }
        return Fmt { sub, ..base };
    }
    if let Some(n) = t.strip_prefix("sharp_yuv") {
        return Fmt { sub: sub_of(n), ..base };
    }
    if let Some(n) = t.strip_prefix("y0") {
        let (ty, depth) = hb(n);
        return Fmt { class: Class::Gray, sub: Sub::S400, ty, depth, ..base };
    }
    if let Some(n) = t.strip_prefix('i') {
        let (ty, depth) = hb(&n[1..]);
        return Fmt { sub: sub_of(&n[..1]), ty, depth, ..base };
    }
    if let Some(n) = t.strip_prefix('p') {
        let (ty, depth) = hb(&n[1..]);
        return Fmt { class: Class::Nv, ord: [0, 1, 0, 0], sub: sub_of(&n[..1]), ty, depth, msb: depth < 16, ..base };
    }
    panic!("yuv token {tok}");
}

impl Op {
    pub fn parse(r: &OpRow) -> Op {
        let n = r.name;
        let mut takes = Takes::default();
        macro_rules! t {
            ($($x:ident),*) => { $( takes.$x = true; )* };
        }
        let (a, b) = n.split_once("_to_").unwrap_or((n, ""));
        let u16r = |f: Fmt| Fmt { ty: Ty::U16, depth: 16, ..f };
        let (src, dst) = match r.f {
            F::PlDec8(_) | F::GrayDec8(_) | F::GrayADec8(_) | F::GrayDec16(_) | F::GrayADec16(_) | F::PlDec16(_)
            | F::PlADec16(_) | F::PlDec16To8(_) | F::PlADec16To8(_) | F::PlDecF16(_) | F::PlADecF16(_) | F::BiDec16(_)
            | F::YuyDec8(_) => {
                t!(range, matrix);
                (yuv_fmt(a), rgb_fmt(b))
            }
            F::YuyDec16(_) => {
                t!(range, matrix, depth);
                (u16r(yuv_fmt(a)), u16r(rgb_fmt(b)))
            }
            F::PlADec8(_) | F::AyuvDec(_) => {
                t!(range, matrix, premul);
                (yuv_fmt(a), rgb_fmt(b))
            }
            F::BiDec8(_) | F::BiDec16To8(_) => {
                t!(range, matrix, mode);
                (yuv_fmt(a), rgb_fmt(b))
            }
            F::PlDecAr(_) | F::BiDecAr(_) => {
                t!(range, matrix, bo);
                (yuv_fmt(a), rgb_fmt(b))
            }
            F::PlRDec8(_) | F::PlARDec8(_) | F::PlRDec16(_) | F::PlARDec16(_) | F::PlRDecF16(_) | F::PlARDecF16(_) => {
                t!(range);
                (yuv_fmt(a), rgb_fmt(b))
            }
            F::PlEnc8(_) | F::BiEnc8(_) => {
                t!(range, matrix, mode);
                (rgb_fmt(a), yuv_fmt(b))
            }
            F::PlEnc16(_) | F::BiEnc16(_) | F::GrayEnc8(_) => {
                t!(range, matrix);
                (rgb_fmt(a), yuv_fmt(b))
            }
            F::SharpEnc8(_) => {
                t!(range, matrix);
                takes.aux = 4;
                (rgb_fmt(a), yuv_fmt(b))
            }
            F::PlREnc8(_) | F::PlREnc16(_) => {
                t!(range);
                (rgb_fmt(a), yuv_fmt(b))
            }
            F::YuyPack8(_) => (yuv_fmt(a), yuv_fmt(b)),
            F::YuyPack16(_) => (u16r(yuv_fmt(a)), u16r(yuv_fmt(b))),
            F::YuyUnp8(_) => (yuv_fmt(a), yuv_fmt(b)),
            F::YuyUnp16(_) => (u16r(yuv_fmt(a)), u16r(yuv_fmt(b))),
            F::RdpEnc(_) => (rgb_fmt(a.strip_prefix("rdp_").unwrap()), Fmt { color: Color::Rdp, ty: Ty::I16, depth: 15, class: Class::Planar, ..BASE }),
            F::RdpDec(_) => (yuv_fmt(a), rgb_fmt(b)),
            F::Shuf(_) => (rgb_fmt(a), rgb_fmt(b)),
            F::ArToRgb8(_) => {
                t!(bo);
                (rgb_fmt(a), rgb_fmt(b))
            }
            F::Rgb8ToAr(_) | F::Rgb16ToAr(_) => {
                t!(bo);
                (rgb_fmt(a), rgb_fmt(b))
            }
            F::Rot8(_) | F::Mir8(_) | F::Rot16(_) | F::Mir16(_) => {
                takes.aux = if matches!(r.f, F::Rot8(_) | F::Rot16(_)) { 3 } else { 2 };
                let k = n.split_once('_').unwrap().1;
                let (k, hi) = match k.strip_suffix("16") {
                    Some(k) => (k, true),
                    None => (k, false),
                };
                let ch = match k {
                    "plane" => 1,
                    "cbcr" => 2,
                    "rgb" => 3,
                    _ => 4,
                };
                let f = Fmt { ch, ty: if hi { Ty::U16 } else { Ty::U8 }, depth: if hi { 16 } else { 8 }, ..BASE };
                (f, f)
            }
            F::F16From8(_) | F::F16From16(_) | F::F16To8(_) | F::F16To16(_) => {
                let k = n.strip_prefix("convert_").unwrap();
                let ch = if k.starts_with("plane") {
                    1
                } else if k.starts_with("rgba") {
                    4
                } else {
                    3
                };
                let fl = Fmt { ch, ty: Ty::F16, depth: 16, ..BASE };
                let i8 = Fmt { ch, ty: Ty::U8, depth: 8, ..BASE };
                let i16 = Fmt { ch, ty: Ty::U16, depth: 16, ..BASE };
                match r.f {
                    F::F16From8(_) => (i8, fl),
                    F::F16From16(_) => {
                        t!(depth);
                        (i16, fl)
                    }
                    F::F16To8(_) => (fl, i8),
                    _ => {
                        t!(depth);
                        (fl, i16)
                    }
                }
            }
        };
        Op { name: n, f: r.f, src, dst, takes }
    }
    /// Formats under concrete parameters (run-time bit depth, byte order).
    pub fn fmts(&self, p: &Params) -> (Fmt, Fmt) {
        let (mut s, mut d) = (self.src, self.dst);
        if self.takes.depth {
            for f in [&mut s, &mut d] {
                if f.ty == Ty::U16 {
                    f.depth = p.depth as u32;
                }
            }
        }
        if self.takes.bo {
            for f in [&mut s, &mut d] {
                if f.class == Class::Ar {
                    f.be = p.bo == 1;
                }
            }
        }
        (s, d)
    }
    /// The source is an 8-bit image of at least three components.
    pub fn is8(&self) -> bool {
        self.src.ty == Ty::U8 && self.src.color != Color::Raw && self.src.class != Class::Gray && self.src.class != Class::Ar && self.dst.color != self.src.color
    }
    /// Size of the destination image for a source of w x h.
    pub fn dst_size(&self, p: &Params, w: usize, h: usize) -> (usize, usize) {
        match self.f {
            F::Rot8(_) | F::Rot16(_) if p.aux != 1 => (h, w),
            _ => (w, h),
        }
    }
}

pub fn all_ops() -> Vec<Op> {
    crate::ops::OPS.iter().map(Op::parse).collect()
}
