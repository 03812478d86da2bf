//! Executing one library function on raw planes.
use crate::fmt::{Op, Params};
use crate::mem::Plane;
use crate::ops::F;
use yuv::*;

thread_local! {
    /// The size the destination image claims when it differs from the source's (C03).
    pub static DST_SIZE: std::cell::Cell<Option<(usize, usize)>> = const { std::cell::Cell::new(None) };
}

/// `None`: the library returned; `Some(text)`: it returned an error.
pub fn call(op: &Op, p: &Params, w: usize, h: usize, i: &[Plane], o: &[Plane]) -> Option<YuvError> {
    let (wu, hu) = (w as u32, h as u32);
    let (dwu, dhu) = DST_SIZE.get().map_or((wu, hu), |d| (d.0 as u32, d.1 as u32));
    let range = if p.range == 0 { YuvRange::Limited } else { YuvRange::Full };
    let m = match p.matrix {
        0 => YuvStandardMatrix::Bt601,
        1 => YuvStandardMatrix::Bt709,
        2 => YuvStandardMatrix::Bt2020,
        3 => YuvStandardMatrix::Smpte240,
        4 => YuvStandardMatrix::Bt470_6,
        5 => YuvStandardMatrix::Fcc,
        6 => YuvStandardMatrix::Custom(0.299, 0.114),
        _ => YuvStandardMatrix::Custom(0.25, 0.05),
    };
    let mode = match p.mode {
        #[cfg(feature = "fast")]
        0 => YuvConversionMode::Fast,
        #[cfg(feature = "prof")]
        2 => YuvConversionMode::Professional,
        _ => YuvConversionMode::Balanced,
    };
    let bo = if p.bo == 0 { Rgb30ByteOrder::Host } else { Rgb30ByteOrder::Network };
    let rot = match p.aux {
        0 => RotationMode::Rotate90,
        1 => RotationMode::Rotate180,
        _ => RotationMode::Rotate270,
    };
    let mir = if p.aux == 0 { MirrorMode::Vertical } else { MirrorMode::Horizontal };
    let gam = match p.aux {
        0 => SharpYuvGammaTransfer::Srgb,
        1 => SharpYuvGammaTransfer::Rec709,
        2 => SharpYuvGammaTransfer::Gamma2p2,
        _ => SharpYuvGammaTransfer::Gamma2p8,
    };
    macro_rules! pl {
        ($t:ty) => {
            YuvPlanarImage {
                y_plane: i[0].s::<$t>(),
                y_stride: i[0].stride as u32,
                u_plane: i[1].s::<$t>(),
                u_stride: i[1].stride as u32,
                v_plane: i[2].s::<$t>(),
                v_stride: i[2].stride as u32,
                width: wu,
                height: hu,
            }
        };
    }
    macro_rules! pla {
        ($t:ty) => {
            YuvPlanarImageWithAlpha {
                y_plane: i[0].s::<$t>(),
                y_stride: i[0].stride as u32,
                u_plane: i[1].s::<$t>(),
                u_stride: i[1].stride as u32,
                v_plane: i[2].s::<$t>(),
                v_stride: i[2].stride as u32,
                a_plane: i[3].s::<$t>(),
                a_stride: i[3].stride as u32,
                width: wu,
                height: hu,
            }
        };
    }
    macro_rules! plm {
        ($t:ty) => {
            YuvPlanarImageMut {
                y_plane: BufferStoreMut::Borrowed(o[0].m::<$t>()),
                y_stride: o[0].stride as u32,
                u_plane: BufferStoreMut::Borrowed(o[1].m::<$t>()),
                u_stride: o[1].stride as u32,
                v_plane: BufferStoreMut::Borrowed(o[2].m::<$t>()),
                v_stride: o[2].stride as u32,
                width: dwu,
                height: dhu,
            }
        };
    }
    macro_rules! bi {
        ($t:ty) => {
            YuvBiPlanarImage {
                y_plane: i[0].s::<$t>(),
                y_stride: i[0].stride as u32,
                uv_plane: i[1].s::<$t>(),
                uv_stride: i[1].stride as u32,
                width: wu,
                height: hu,
            }
        };
    }
    macro_rules! bim {
        ($t:ty) => {
            YuvBiPlanarImageMut {
                y_plane: BufferStoreMut::Borrowed(o[0].m::<$t>()),
                y_stride: o[0].stride as u32,
                uv_plane: BufferStoreMut::Borrowed(o[1].m::<$t>()),
                uv_stride: o[1].stride as u32,
                width: wu,
                height: hu,
            }
        };
    }
    macro_rules! gr {
        ($t:ty) => {
            YuvGrayImage { y_plane: i[0].s::<$t>(), y_stride: i[0].stride as u32, width: wu, height: hu }
        };
    }
    macro_rules! gra {
        ($t:ty) => {
            YuvGrayAlphaImage {
                y_plane: i[0].s::<$t>(),
                y_stride: i[0].stride as u32,
                a_plane: i[1].s::<$t>(),
                a_stride: i[1].stride as u32,
                width: wu,
                height: hu,
            }
        };
    }
    macro_rules! pk {
        ($t:ty) => {
            YuvPackedImage { yuy: i[0].s::<$t>(), yuy_stride: i[0].stride as u32, width: wu, height: hu }
        };
    }
    macro_rules! pkm {
        ($t:ty) => {
            YuvPackedImageMut {
                yuy: BufferStoreMut::Borrowed(o[0].m::<$t>()),
                yuy_stride: o[0].stride as u32,
                width: dwu,
                height: dhu,
            }
        };
    }
    let (is, os) = (i[0].stride, o[0].stride);
    let (is32, os32) = (is as u32, os as u32);
    let r = match op.f {
        F::ArToRgb8(f) => f(i[0].s(), is32, bo, o[0].m(), os32, wu, hu),
        F::AyuvDec(f) => f(&pk!(u8), o[0].m(), os32, range, m, p.premul),
        F::BiDec16(f) => f(&bi!(u16), o[0].m(), os32, range, m),
        F::BiDec16To8(f) => f(&bi!(u16), o[0].m(), os32, range, m, mode),
        F::BiDec8(f) => f(&bi!(u8), o[0].m(), os32, range, m, mode),
        F::BiDecAr(f) => f(&bi!(u16), o[0].m(), os32, bo, range, m),
        F::BiEnc16(f) => f(&mut bim!(u16), i[0].s(), is32, range, m),
        F::BiEnc8(f) => f(&mut bim!(u8), i[0].s(), is32, range, m, mode),
        F::F16From16(f) => f(i[0].s(), is, o[0].m(), os, p.depth as usize, w, h),
        F::F16From8(f) => f(i[0].s(), is, o[0].m(), os, w, h),
        F::F16To16(f) => f(i[0].s(), is, o[0].m(), os, p.depth as usize, w, h),
        F::F16To8(f) => f(i[0].s(), is, o[0].m(), os, w, h),
        F::GrayADec16(f) => f(&gra!(u16), o[0].m(), os32, range, m),
        F::GrayADec8(f) => f(&gra!(u8), o[0].m(), os32, range, m),
        F::GrayDec16(f) => f(&gr!(u16), o[0].m(), os32, range, m),
        F::GrayDec8(f) => f(&gr!(u8), o[0].m(), os32, range, m),
        F::GrayEnc8(f) => f(
            &mut YuvGrayImageMut { y_plane: BufferStoreMut::Borrowed(o[0].m()), y_stride: os32, width: wu, height: hu },
            i[0].s(),
            is32,
            range,
            m,
        ),
        F::Mir16(f) => f(i[0].s(), is, o[0].m(), os, w, h, mir),
        F::Mir8(f) => f(i[0].s(), is, o[0].m(), os, w, h, mir),
        F::PlADec16(f) => f(&pla!(u16), o[0].m(), os32, range, m),
        F::PlADec16To8(f) => f(&pla!(u16), o[0].m(), os32, range, m),
        F::PlADec8(f) => f(&pla!(u8), o[0].m(), os32, range, m, p.premul),
        F::PlADecF16(f) => f(&pla!(u16), o[0].m(), os32, range, m),
        F::PlARDec16(f) => f(&pla!(u16), o[0].m(), os32, range),
        F::PlARDec8(f) => f(&pla!(u8), o[0].m(), os32, range),
        F::PlARDecF16(f) => f(&pla!(u16), o[0].m(), os32, range),
        F::PlDec16(f) => f(&pl!(u16), o[0].m(), os32, range, m),
        F::PlDec16To8(f) => f(&pl!(u16), o[0].m(), os32, range, m),
        F::PlDec8(f) => f(&pl!(u8), o[0].m(), os32, range, m),
        F::PlDecAr(f) => f(&pl!(u16), o[0].m(), os32, bo, range, m),
        F::PlDecF16(f) => f(&pl!(u16), o[0].m(), os32, range, m),
        F::PlEnc16(f) => f(&mut plm!(u16), i[0].s(), is32, range, m),
        F::PlEnc8(f) => f(&mut plm!(u8), i[0].s(), is32, range, m, mode),
        F::PlRDec16(f) => f(&pl!(u16), o[0].m(), os32, range),
        F::PlRDec8(f) => f(&pl!(u8), o[0].m(), os32, range),
        F::PlRDecF16(f) => f(&pl!(u16), o[0].m(), os32, range),
        F::PlREnc16(f) => f(&mut plm!(u16), i[0].s(), is32, range),
        F::PlREnc8(f) => f(&mut plm!(u8), i[0].s(), is32, range),
        F::RdpDec(f) => f(&pl!(i16), o[0].m(), os32),
        F::RdpEnc(f) => f(&mut plm!(i16), i[0].s(), is32),
        F::Rgb16ToAr(f) => f(o[0].m(), os32, bo, i[0].s(), is32, wu, hu),
        F::Rgb8ToAr(f) => f(o[0].m(), os32, bo, i[0].s(), is32, wu, hu),
        F::Rot16(f) => f(i[0].s(), is, o[0].m(), os, w, h, rot),
        F::Rot8(f) => f(i[0].s(), is, o[0].m(), os, w, h, rot),
        F::SharpEnc8(f) => f(&mut plm!(u8), i[0].s(), is32, range, m, gam),
        F::Shuf(f) => f(i[0].s(), is32, o[0].m(), os32, wu, hu),
        F::YuyDec16(f) => f(&pk!(u16), o[0].m(), os32, p.depth as u32, range, m),
        F::YuyDec8(f) => f(&pk!(u8), o[0].m(), os32, range, m),
        F::YuyPack16(f) => f(&mut pkm!(u16), &pl!(u16)),
        F::YuyPack8(f) => f(&mut pkm!(u8), &pl!(u8)),
        F::YuyUnp16(f) => f(&mut plm!(u16), &pk!(u16)),
        F::YuyUnp8(f) => f(&mut plm!(u8), &pk!(u8)),
    };
    r.err()
}
