//! How far a result may lie from the exact real-valued model, in units of the destination sample.
//! These numbers are the ones written in the statements of the properties.
use crate::fmt::*;
use crate::model::{Tol, EXACT};
use crate::ops::F;

/// Rounding of one sample to the nearest representable level, plus fixed-point slack.
const RND: f32 = 0.75;

pub fn tol(op: &Op, p: &Params, backend: usize, c: usize) -> Tol {
    let a = |abs: f32| Tol { abs, rel: 0.0 };
    let simd = backend > 0 || cfg!(feature = "neon");
    let (sf, df) = op.fmts(p);
    if df.ty == Ty::F16 {
        return match op.f {
            // with fp16 the scale itself is an f16
            F::F16From8(_) | F::F16From16(_) if cfg!(feature = "neon") && backend > 1 => a(0.0011),
            F::F16From8(_) | F::F16From16(_) => a(0.0005),
            _ => a(if c == 3 { 0.001 } else { 0.0015 }),
        };
    }
    let alpha = matches!(df.class, Class::Rgb | Class::Ar) && c == 3;
    if alpha {
        return match op.f {
            F::F16To8(_) | F::F16To16(_) => a(1.25),
            _ => EXACT,
        };
    }
    // by sample depth of the destination
    let by = |d10: f32, d12: f32, d14: f32, d16: f32| match df.depth {
        ..=10 => d10,
        11..=12 => d12,
        13..=14 => d14,
        _ => d16,
    };
    let _ = sf;
    a(match op.f {
        F::Rot8(_) | F::Rot16(_) | F::Mir8(_) | F::Mir16(_) | F::Shuf(_) => return EXACT,
        F::YuyPack8(_) | F::YuyPack16(_) | F::YuyUnp8(_) | F::YuyUnp16(_) => return EXACT,
        F::ArToRgb8(_) | F::Rgb8ToAr(_) | F::Rgb16ToAr(_) => return EXACT,
        F::PlDec8(_) => if simd { 3.0 } else { RND },
        F::AyuvDec(_) | F::PlADec8(_) if cfg!(feature = "neon") => 3.5,
        F::AyuvDec(_) | F::PlADec8(_) => match (simd, p.premul) {
            (true, _) => 3.0,
            (false, true) => 1.5,
            (false, false) => RND,
        },
        F::BiDec8(_) => match (p.mode, simd) {
            (0, _) => 3.5,
            (1, true) => 3.0,
            _ => RND,
        },
        F::YuyDec8(_) => 3.5,
        F::YuyDec16(_) => by(3.5, 3.5, 3.5, 5.0),
        F::PlDec16(_) | F::PlADec16(_) => match (df.depth, simd) {
            (10 | 12, true) => 3.0,
            _ => by(0.9, 1.1, 2.4, 5.0),
        },
        // rounding doubling multiplications, two bits below the sample
        F::BiDec16(_) if cfg!(feature = "neon") && backend > 0 && matches!(df.depth, 10 | 12) => 3.0,
        F::BiDec16(_) => by(0.9, 1.1, 2.4, 5.0),
        F::BiDec16To8(_) => 1.75,
        F::PlDec16To8(_) | F::PlADec16To8(_) => 1.75,
        F::BiDecAr(_) | F::PlDecAr(_) => 1.75,
        F::BiEnc8(_) | F::PlEnc8(_) => match (p.mode, simd, c) {
            (0, _, _) => 3.0,
            (1, true, _) => 1.5,
            (_, _, 0) => RND,
            _ => 1.1,
        },
        F::BiEnc16(_) | F::PlEnc16(_) => by(1.4, 1.4, 1.6, 3.1),
        F::GrayEnc8(_) => if simd { 1.5 } else { RND },
        F::GrayDec8(_) | F::GrayADec8(_) => if simd { 1.6 } else { RND },
        F::GrayDec16(_) | F::GrayADec16(_) => by(0.85, 0.95, 1.6, 1.6),
        F::PlRDec8(_) | F::PlARDec8(_) => if simd { 1.6 } else { RND },
        F::PlRDec16(_) | F::PlARDec16(_) => by(0.85, 0.95, 1.6, 1.6),
        F::PlREnc8(_) => if c == 0 || df.color == Color::Gbr { RND } else { 1.1 },
        F::PlREnc16(_) => by(0.85, 0.95, 1.7, 1.7),
        F::RdpDec(_) => 1.3,
        F::RdpEnc(_) => 1.8,
        F::SharpEnc8(_) => 0.85,
        F::F16To8(_) | F::F16To16(_) => 1.25,
        F::F16From8(_) | F::F16From16(_) | F::PlDecF16(_) | F::PlADecF16(_) | F::PlRDecF16(_) | F::PlARDecF16(_) => unreachable!(),
    })
}
