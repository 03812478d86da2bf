// Table of the public conversion functions of the crate, one row per function.
// The signature class (variant of F) decides how the harness lays out and passes buffers;
// the meaning of the function is derived from its name in fmt.rs.
#![allow(clippy::all)]
use yuv::YuvError;

#[derive(Clone, Copy)]
pub enum F {
    ArToRgb8(fn(&[u8],u32,yuv::Rgb30ByteOrder,&mut [u8],u32,u32,u32) -> Result<(), YuvError>),
    AyuvDec(fn(&yuv::YuvPackedImage<u8>,&mut [u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix,bool) -> Result<(), YuvError>),
    BiDec16(fn(&yuv::YuvBiPlanarImage<u16>,&mut [u16],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    BiDec16To8(fn(&yuv::YuvBiPlanarImage<u16>,&mut [u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix,yuv::YuvConversionMode) -> Result<(), YuvError>),
    BiDec8(fn(&yuv::YuvBiPlanarImage<u8>,&mut [u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix,yuv::YuvConversionMode) -> Result<(), YuvError>),
    BiDecAr(fn(&yuv::YuvBiPlanarImage<u16>,&mut [u8],u32,yuv::Rgb30ByteOrder,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    BiEnc16(fn(&mut yuv::YuvBiPlanarImageMut<u16>,&[u16],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    BiEnc8(fn(&mut yuv::YuvBiPlanarImageMut<u8>,&[u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix,yuv::YuvConversionMode) -> Result<(), YuvError>),
    F16From16(fn(&[u16],usize,&mut [f16],usize,usize,usize,usize) -> Result<(), YuvError>),
    F16From8(fn(&[u8],usize,&mut [f16],usize,usize,usize) -> Result<(), YuvError>),
    F16To16(fn(&[f16],usize,&mut [u16],usize,usize,usize,usize) -> Result<(), YuvError>),
    F16To8(fn(&[f16],usize,&mut [u8],usize,usize,usize) -> Result<(), YuvError>),
    GrayADec16(fn(&yuv::YuvGrayAlphaImage<u16>,&mut [u16],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    GrayADec8(fn(&yuv::YuvGrayAlphaImage<u8>,&mut [u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    GrayDec16(fn(&yuv::YuvGrayImage<u16>,&mut [u16],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    GrayDec8(fn(&yuv::YuvGrayImage<u8>,&mut [u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    GrayEnc8(fn(&mut yuv::YuvGrayImageMut<u8>,&[u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    Mir16(fn(&[u16],usize,&mut [u16],usize,usize,usize,yuv::MirrorMode) -> Result<(), YuvError>),
    Mir8(fn(&[u8],usize,&mut [u8],usize,usize,usize,yuv::MirrorMode) -> Result<(), YuvError>),
    PlADec16(fn(&yuv::YuvPlanarImageWithAlpha<u16>,&mut [u16],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    PlADec16To8(fn(&yuv::YuvPlanarImageWithAlpha<u16>,&mut [u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    PlADec8(fn(&yuv::YuvPlanarImageWithAlpha<u8>,&mut [u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix,bool) -> Result<(), YuvError>),
    PlADecF16(fn(&yuv::YuvPlanarImageWithAlpha<u16>,&mut [f16],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    PlARDec16(fn(&yuv::YuvPlanarImageWithAlpha<u16>,&mut [u16],u32,yuv::YuvRange) -> Result<(), YuvError>),
    PlARDec8(fn(&yuv::YuvPlanarImageWithAlpha<u8>,&mut [u8],u32,yuv::YuvRange) -> Result<(), YuvError>),
    PlARDecF16(fn(&yuv::YuvPlanarImageWithAlpha<u16>,&mut [f16],u32,yuv::YuvRange) -> Result<(), YuvError>),
    PlDec16(fn(&yuv::YuvPlanarImage<u16>,&mut [u16],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    PlDec16To8(fn(&yuv::YuvPlanarImage<u16>,&mut [u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    PlDec8(fn(&yuv::YuvPlanarImage<u8>,&mut [u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    PlDecAr(fn(&yuv::YuvPlanarImage<u16>,&mut [u8],u32,yuv::Rgb30ByteOrder,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    PlDecF16(fn(&yuv::YuvPlanarImage<u16>,&mut [f16],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    PlEnc16(fn(&mut yuv::YuvPlanarImageMut<u16>,&[u16],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    PlEnc8(fn(&mut yuv::YuvPlanarImageMut<u8>,&[u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix,yuv::YuvConversionMode) -> Result<(), YuvError>),
    PlRDec16(fn(&yuv::YuvPlanarImage<u16>,&mut [u16],u32,yuv::YuvRange) -> Result<(), YuvError>),
    PlRDec8(fn(&yuv::YuvPlanarImage<u8>,&mut [u8],u32,yuv::YuvRange) -> Result<(), YuvError>),
    PlRDecF16(fn(&yuv::YuvPlanarImage<u16>,&mut [f16],u32,yuv::YuvRange) -> Result<(), YuvError>),
    PlREnc16(fn(&mut yuv::YuvPlanarImageMut<u16>,&[u16],u32,yuv::YuvRange) -> Result<(), YuvError>),
    PlREnc8(fn(&mut yuv::YuvPlanarImageMut<u8>,&[u8],u32,yuv::YuvRange) -> Result<(), YuvError>),
    RdpDec(fn(&yuv::YuvPlanarImage<i16>,&mut [u8],u32) -> Result<(), YuvError>),
    RdpEnc(fn(&mut yuv::YuvPlanarImageMut<i16>,&[u8],u32) -> Result<(), YuvError>),
    Rgb16ToAr(fn(&mut [u8],u32,yuv::Rgb30ByteOrder,&[u16],u32,u32,u32) -> Result<(), YuvError>),
    Rgb8ToAr(fn(&mut [u8],u32,yuv::Rgb30ByteOrder,&[u8],u32,u32,u32) -> Result<(), YuvError>),
    Rot16(fn(&[u16],usize,&mut [u16],usize,usize,usize,yuv::RotationMode) -> Result<(), YuvError>),
    Rot8(fn(&[u8],usize,&mut [u8],usize,usize,usize,yuv::RotationMode) -> Result<(), YuvError>),
    SharpEnc8(fn(&mut yuv::YuvPlanarImageMut<u8>,&[u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix,yuv::SharpYuvGammaTransfer) -> Result<(), YuvError>),
    Shuf(fn(&[u8],u32,&mut [u8],u32,u32,u32) -> Result<(), YuvError>),
    YuyDec16(fn(&yuv::YuvPackedImage<u16>,&mut [u16],u32,u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    YuyDec8(fn(&yuv::YuvPackedImage<u8>,&mut [u8],u32,yuv::YuvRange,yuv::YuvStandardMatrix) -> Result<(), YuvError>),
    YuyPack16(fn(&mut yuv::YuvPackedImageMut<u16>,&yuv::YuvPlanarImage<u16>) -> Result<(), YuvError>),
    YuyPack8(fn(&mut yuv::YuvPackedImageMut<u8>,&yuv::YuvPlanarImage<u8>) -> Result<(), YuvError>),
    YuyUnp16(fn(&mut yuv::YuvPlanarImageMut<u16>,&yuv::YuvPackedImage<u16>) -> Result<(), YuvError>),
    YuyUnp8(fn(&mut yuv::YuvPlanarImageMut<u8>,&yuv::YuvPackedImage<u8>) -> Result<(), YuvError>),
}

#[derive(Clone, Copy)]
pub struct OpRow {
    pub name: &'static str,
    pub f: F,
}

pub static OPS: &[OpRow] = &[
    OpRow { name: "ab30_to_rgb8", f: F::ArToRgb8(yuv::ab30_to_rgb8) },
    OpRow { name: "ar30_to_rgb8", f: F::ArToRgb8(yuv::ar30_to_rgb8) },
    OpRow { name: "ar30_to_rgba8", f: F::ArToRgb8(yuv::ar30_to_rgba8) },
    OpRow { name: "ba30_to_rgb8", f: F::ArToRgb8(yuv::ba30_to_rgb8) },
    OpRow { name: "ra30_to_rgb8", f: F::ArToRgb8(yuv::ra30_to_rgb8) },
    OpRow { name: "ra30_to_rgba8", f: F::ArToRgb8(yuv::ra30_to_rgba8) },
    OpRow { name: "ayuv_to_rgb", f: F::AyuvDec(yuv::ayuv_to_rgb) },
    OpRow { name: "ayuv_to_rgba", f: F::AyuvDec(yuv::ayuv_to_rgba) },
    OpRow { name: "vyua_to_rgb", f: F::AyuvDec(yuv::vyua_to_rgb) },
    OpRow { name: "vyua_to_rgba", f: F::AyuvDec(yuv::vyua_to_rgba) },
    OpRow { name: "p010_to_rgb10", f: F::BiDec16(yuv::p010_to_rgb10) },
    OpRow { name: "p010_to_rgba10", f: F::BiDec16(yuv::p010_to_rgba10) },
    OpRow { name: "p012_to_rgb12", f: F::BiDec16(yuv::p012_to_rgb12) },
    OpRow { name: "p012_to_rgba12", f: F::BiDec16(yuv::p012_to_rgba12) },
    OpRow { name: "p210_to_rgb10", f: F::BiDec16(yuv::p210_to_rgb10) },
    OpRow { name: "p210_to_rgba10", f: F::BiDec16(yuv::p210_to_rgba10) },
    OpRow { name: "p212_to_rgb12", f: F::BiDec16(yuv::p212_to_rgb12) },
    OpRow { name: "p212_to_rgba12", f: F::BiDec16(yuv::p212_to_rgba12) },
    OpRow { name: "p410_to_rgb10", f: F::BiDec16(yuv::p410_to_rgb10) },
    OpRow { name: "p410_to_rgba10", f: F::BiDec16(yuv::p410_to_rgba10) },
    OpRow { name: "p412_to_rgb12", f: F::BiDec16(yuv::p412_to_rgb12) },
    OpRow { name: "p412_to_rgba12", f: F::BiDec16(yuv::p412_to_rgba12) },
    OpRow { name: "p010_to_bgr", f: F::BiDec16To8(yuv::p010_to_bgr) },
    OpRow { name: "p010_to_bgra", f: F::BiDec16To8(yuv::p010_to_bgra) },
    OpRow { name: "p010_to_rgb", f: F::BiDec16To8(yuv::p010_to_rgb) },
    OpRow { name: "p010_to_rgba", f: F::BiDec16To8(yuv::p010_to_rgba) },
    OpRow { name: "p210_to_bgr", f: F::BiDec16To8(yuv::p210_to_bgr) },
    OpRow { name: "p210_to_bgra", f: F::BiDec16To8(yuv::p210_to_bgra) },
    OpRow { name: "p210_to_rgb", f: F::BiDec16To8(yuv::p210_to_rgb) },
    OpRow { name: "p210_to_rgba", f: F::BiDec16To8(yuv::p210_to_rgba) },
    OpRow { name: "p410_to_bgr", f: F::BiDec16To8(yuv::p410_to_bgr) },
    OpRow { name: "p410_to_bgra", f: F::BiDec16To8(yuv::p410_to_bgra) },
    OpRow { name: "p410_to_rgb", f: F::BiDec16To8(yuv::p410_to_rgb) },
    OpRow { name: "p410_to_rgba", f: F::BiDec16To8(yuv::p410_to_rgba) },
    OpRow { name: "yuv_nv12_to_bgr", f: F::BiDec8(yuv::yuv_nv12_to_bgr) },
    OpRow { name: "yuv_nv12_to_bgra", f: F::BiDec8(yuv::yuv_nv12_to_bgra) },
    OpRow { name: "yuv_nv12_to_rgb", f: F::BiDec8(yuv::yuv_nv12_to_rgb) },
    OpRow { name: "yuv_nv12_to_rgba", f: F::BiDec8(yuv::yuv_nv12_to_rgba) },
    OpRow { name: "yuv_nv16_to_bgr", f: F::BiDec8(yuv::yuv_nv16_to_bgr) },
    OpRow { name: "yuv_nv16_to_bgra", f: F::BiDec8(yuv::yuv_nv16_to_bgra) },
    OpRow { name: "yuv_nv16_to_rgb", f: F::BiDec8(yuv::yuv_nv16_to_rgb) },
    OpRow { name: "yuv_nv16_to_rgba", f: F::BiDec8(yuv::yuv_nv16_to_rgba) },
    OpRow { name: "yuv_nv21_to_bgr", f: F::BiDec8(yuv::yuv_nv21_to_bgr) },
    OpRow { name: "yuv_nv21_to_bgra", f: F::BiDec8(yuv::yuv_nv21_to_bgra) },
    OpRow { name: "yuv_nv21_to_rgb", f: F::BiDec8(yuv::yuv_nv21_to_rgb) },
    OpRow { name: "yuv_nv21_to_rgba", f: F::BiDec8(yuv::yuv_nv21_to_rgba) },
    OpRow { name: "yuv_nv24_to_bgr", f: F::BiDec8(yuv::yuv_nv24_to_bgr) },
    OpRow { name: "yuv_nv24_to_bgra", f: F::BiDec8(yuv::yuv_nv24_to_bgra) },
    OpRow { name: "yuv_nv24_to_rgb", f: F::BiDec8(yuv::yuv_nv24_to_rgb) },
    OpRow { name: "yuv_nv24_to_rgba", f: F::BiDec8(yuv::yuv_nv24_to_rgba) },
    OpRow { name: "yuv_nv42_to_bgr", f: F::BiDec8(yuv::yuv_nv42_to_bgr) },
    OpRow { name: "yuv_nv42_to_bgra", f: F::BiDec8(yuv::yuv_nv42_to_bgra) },
    OpRow { name: "yuv_nv42_to_rgb", f: F::BiDec8(yuv::yuv_nv42_to_rgb) },
    OpRow { name: "yuv_nv42_to_rgba", f: F::BiDec8(yuv::yuv_nv42_to_rgba) },
    OpRow { name: "yuv_nv61_to_bgr", f: F::BiDec8(yuv::yuv_nv61_to_bgr) },
    OpRow { name: "yuv_nv61_to_bgra", f: F::BiDec8(yuv::yuv_nv61_to_bgra) },
    OpRow { name: "yuv_nv61_to_rgb", f: F::BiDec8(yuv::yuv_nv61_to_rgb) },
    OpRow { name: "yuv_nv61_to_rgba", f: F::BiDec8(yuv::yuv_nv61_to_rgba) },
    OpRow { name: "p010_to_ar30", f: F::BiDecAr(yuv::p010_to_ar30) },
    OpRow { name: "p010_to_ra30", f: F::BiDecAr(yuv::p010_to_ra30) },
    OpRow { name: "p012_to_ar30", f: F::BiDecAr(yuv::p012_to_ar30) },
    OpRow { name: "p012_to_ra30", f: F::BiDecAr(yuv::p012_to_ra30) },
    OpRow { name: "p210_to_ar30", f: F::BiDecAr(yuv::p210_to_ar30) },
    OpRow { name: "p210_to_ra30", f: F::BiDecAr(yuv::p210_to_ra30) },
    OpRow { name: "p212_to_ar30", f: F::BiDecAr(yuv::p212_to_ar30) },
    OpRow { name: "p212_to_ra30", f: F::BiDecAr(yuv::p212_to_ra30) },
    OpRow { name: "rgb10_to_p010", f: F::BiEnc16(yuv::rgb10_to_p010) },
    OpRow { name: "rgb10_to_p210", f: F::BiEnc16(yuv::rgb10_to_p210) },
    OpRow { name: "rgb10_to_p410", f: F::BiEnc16(yuv::rgb10_to_p410) },
    OpRow { name: "rgb12_to_p012", f: F::BiEnc16(yuv::rgb12_to_p012) },
    OpRow { name: "rgb12_to_p212", f: F::BiEnc16(yuv::rgb12_to_p212) },
    OpRow { name: "rgb12_to_p412", f: F::BiEnc16(yuv::rgb12_to_p412) },
    OpRow { name: "rgb16_to_p016", f: F::BiEnc16(yuv::rgb16_to_p016) },
    OpRow { name: "rgb16_to_p216", f: F::BiEnc16(yuv::rgb16_to_p216) },
    OpRow { name: "rgba10_to_p010", f: F::BiEnc16(yuv::rgba10_to_p010) },
    OpRow { name: "rgba10_to_p210", f: F::BiEnc16(yuv::rgba10_to_p210) },
    OpRow { name: "rgba10_to_p410", f: F::BiEnc16(yuv::rgba10_to_p410) },
    OpRow { name: "rgba12_to_p012", f: F::BiEnc16(yuv::rgba12_to_p012) },
    OpRow { name: "rgba12_to_p212", f: F::BiEnc16(yuv::rgba12_to_p212) },
    OpRow { name: "rgba12_to_p412", f: F::BiEnc16(yuv::rgba12_to_p412) },
    OpRow { name: "rgba16_to_p016", f: F::BiEnc16(yuv::rgba16_to_p016) },
    OpRow { name: "rgba16_to_p216", f: F::BiEnc16(yuv::rgba16_to_p216) },
    OpRow { name: "bgr_to_yuv_nv12", f: F::BiEnc8(yuv::bgr_to_yuv_nv12) },
    OpRow { name: "bgr_to_yuv_nv16", f: F::BiEnc8(yuv::bgr_to_yuv_nv16) },
    OpRow { name: "bgr_to_yuv_nv21", f: F::BiEnc8(yuv::bgr_to_yuv_nv21) },
    OpRow { name: "bgr_to_yuv_nv24", f: F::BiEnc8(yuv::bgr_to_yuv_nv24) },
    OpRow { name: "bgr_to_yuv_nv42", f: F::BiEnc8(yuv::bgr_to_yuv_nv42) },
    OpRow { name: "bgr_to_yuv_nv61", f: F::BiEnc8(yuv::bgr_to_yuv_nv61) },
    OpRow { name: "bgra_to_yuv_nv12", f: F::BiEnc8(yuv::bgra_to_yuv_nv12) },
    OpRow { name: "bgra_to_yuv_nv16", f: F::BiEnc8(yuv::bgra_to_yuv_nv16) },
    OpRow { name: "bgra_to_yuv_nv21", f: F::BiEnc8(yuv::bgra_to_yuv_nv21) },
    OpRow { name: "bgra_to_yuv_nv24", f: F::BiEnc8(yuv::bgra_to_yuv_nv24) },
    OpRow { name: "bgra_to_yuv_nv42", f: F::BiEnc8(yuv::bgra_to_yuv_nv42) },
    OpRow { name: "bgra_to_yuv_nv61", f: F::BiEnc8(yuv::bgra_to_yuv_nv61) },
    OpRow { name: "rgb_to_yuv_nv12", f: F::BiEnc8(yuv::rgb_to_yuv_nv12) },
    OpRow { name: "rgb_to_yuv_nv16", f: F::BiEnc8(yuv::rgb_to_yuv_nv16) },
    OpRow { name: "rgb_to_yuv_nv21", f: F::BiEnc8(yuv::rgb_to_yuv_nv21) },
    OpRow { name: "rgb_to_yuv_nv24", f: F::BiEnc8(yuv::rgb_to_yuv_nv24) },
    OpRow { name: "rgb_to_yuv_nv42", f: F::BiEnc8(yuv::rgb_to_yuv_nv42) },
    OpRow { name: "rgb_to_yuv_nv61", f: F::BiEnc8(yuv::rgb_to_yuv_nv61) },
    OpRow { name: "rgba_to_yuv_nv12", f: F::BiEnc8(yuv::rgba_to_yuv_nv12) },
    OpRow { name: "rgba_to_yuv_nv16", f: F::BiEnc8(yuv::rgba_to_yuv_nv16) },
    OpRow { name: "rgba_to_yuv_nv21", f: F::BiEnc8(yuv::rgba_to_yuv_nv21) },
    OpRow { name: "rgba_to_yuv_nv24", f: F::BiEnc8(yuv::rgba_to_yuv_nv24) },
    OpRow { name: "rgba_to_yuv_nv42", f: F::BiEnc8(yuv::rgba_to_yuv_nv42) },
    OpRow { name: "rgba_to_yuv_nv61", f: F::BiEnc8(yuv::rgba_to_yuv_nv61) },
    #[cfg(feature = "f16")]
    OpRow { name: "convert_plane16_to_f16", f: F::F16From16(yuv::convert_plane16_to_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "convert_rgb16_to_f16", f: F::F16From16(yuv::convert_rgb16_to_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "convert_rgba16_to_f16", f: F::F16From16(yuv::convert_rgba16_to_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "convert_plane_to_f16", f: F::F16From8(yuv::convert_plane_to_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "convert_rgb_to_f16", f: F::F16From8(yuv::convert_rgb_to_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "convert_rgba_to_f16", f: F::F16From8(yuv::convert_rgba_to_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "convert_plane_f16_to_planar16", f: F::F16To16(yuv::convert_plane_f16_to_planar16) },
    #[cfg(feature = "f16")]
    OpRow { name: "convert_rgb_f16_to_rgb16", f: F::F16To16(yuv::convert_rgb_f16_to_rgb16) },
    #[cfg(feature = "f16")]
    OpRow { name: "convert_rgba_f16_to_rgba16", f: F::F16To16(yuv::convert_rgba_f16_to_rgba16) },
    #[cfg(feature = "f16")]
    OpRow { name: "convert_plane_f16_to_planar", f: F::F16To8(yuv::convert_plane_f16_to_planar) },
    #[cfg(feature = "f16")]
    OpRow { name: "convert_rgb_f16_to_rgb", f: F::F16To8(yuv::convert_rgb_f16_to_rgb) },
    #[cfg(feature = "f16")]
    OpRow { name: "convert_rgba_f16_to_rgba", f: F::F16To8(yuv::convert_rgba_f16_to_rgba) },
    OpRow { name: "y010_alpha_to_rgba10", f: F::GrayADec16(yuv::y010_alpha_to_rgba10) },
    OpRow { name: "y012_alpha_to_rgba12", f: F::GrayADec16(yuv::y012_alpha_to_rgba12) },
    OpRow { name: "y014_alpha_to_rgba14", f: F::GrayADec16(yuv::y014_alpha_to_rgba14) },
    OpRow { name: "y016_alpha_to_rgba16", f: F::GrayADec16(yuv::y016_alpha_to_rgba16) },
    OpRow { name: "yuv400_alpha_to_bgra", f: F::GrayADec8(yuv::yuv400_alpha_to_bgra) },
    OpRow { name: "yuv400_alpha_to_rgba", f: F::GrayADec8(yuv::yuv400_alpha_to_rgba) },
    OpRow { name: "y010_to_rgb10", f: F::GrayDec16(yuv::y010_to_rgb10) },
    OpRow { name: "y010_to_rgba10", f: F::GrayDec16(yuv::y010_to_rgba10) },
    OpRow { name: "y012_to_rgb12", f: F::GrayDec16(yuv::y012_to_rgb12) },
    OpRow { name: "y012_to_rgba12", f: F::GrayDec16(yuv::y012_to_rgba12) },
    OpRow { name: "y014_to_rgb14", f: F::GrayDec16(yuv::y014_to_rgb14) },
    OpRow { name: "y014_to_rgba14", f: F::GrayDec16(yuv::y014_to_rgba14) },
    OpRow { name: "y016_to_rgb16", f: F::GrayDec16(yuv::y016_to_rgb16) },
    OpRow { name: "y016_to_rgba16", f: F::GrayDec16(yuv::y016_to_rgba16) },
    OpRow { name: "yuv400_to_bgr", f: F::GrayDec8(yuv::yuv400_to_bgr) },
    OpRow { name: "yuv400_to_bgra", f: F::GrayDec8(yuv::yuv400_to_bgra) },
    OpRow { name: "yuv400_to_rgb", f: F::GrayDec8(yuv::yuv400_to_rgb) },
    OpRow { name: "yuv400_to_rgba", f: F::GrayDec8(yuv::yuv400_to_rgba) },
    OpRow { name: "bgr_to_yuv400", f: F::GrayEnc8(yuv::bgr_to_yuv400) },
    OpRow { name: "bgra_to_yuv400", f: F::GrayEnc8(yuv::bgra_to_yuv400) },
    OpRow { name: "rgb_to_yuv400", f: F::GrayEnc8(yuv::rgb_to_yuv400) },
    OpRow { name: "rgba_to_yuv400", f: F::GrayEnc8(yuv::rgba_to_yuv400) },
    OpRow { name: "mirror_cbcr16", f: F::Mir16(yuv::mirror_cbcr16) },
    OpRow { name: "mirror_plane16", f: F::Mir16(yuv::mirror_plane16) },
    OpRow { name: "mirror_rgb16", f: F::Mir16(yuv::mirror_rgb16) },
    OpRow { name: "mirror_rgba16", f: F::Mir16(yuv::mirror_rgba16) },
    OpRow { name: "mirror_cbcr", f: F::Mir8(yuv::mirror_cbcr) },
    OpRow { name: "mirror_plane", f: F::Mir8(yuv::mirror_plane) },
    OpRow { name: "mirror_rgb", f: F::Mir8(yuv::mirror_rgb) },
    OpRow { name: "mirror_rgba", f: F::Mir8(yuv::mirror_rgba) },
    OpRow { name: "i010_alpha_to_rgba10", f: F::PlADec16(yuv::i010_alpha_to_rgba10) },
    OpRow { name: "i010_be_alpha_to_rgba10", f: F::PlADec16(yuv::i010_be_alpha_to_rgba10) },
    OpRow { name: "i012_alpha_to_rgba12", f: F::PlADec16(yuv::i012_alpha_to_rgba12) },
    OpRow { name: "i012_be_alpha_to_rgba12", f: F::PlADec16(yuv::i012_be_alpha_to_rgba12) },
    OpRow { name: "i014_alpha_to_rgba14", f: F::PlADec16(yuv::i014_alpha_to_rgba14) },
    OpRow { name: "i014_be_alpha_to_rgba14", f: F::PlADec16(yuv::i014_be_alpha_to_rgba14) },
    OpRow { name: "i210_alpha_be_to_rgba10", f: F::PlADec16(yuv::i210_alpha_be_to_rgba10) },
    OpRow { name: "i210_alpha_to_rgba10", f: F::PlADec16(yuv::i210_alpha_to_rgba10) },
    OpRow { name: "i212_alpha_to_rgba12", f: F::PlADec16(yuv::i212_alpha_to_rgba12) },
    OpRow { name: "i212_be_alpha_to_rgba12", f: F::PlADec16(yuv::i212_be_alpha_to_rgba12) },
    OpRow { name: "i214_alpha_to_rgba14", f: F::PlADec16(yuv::i214_alpha_to_rgba14) },
    OpRow { name: "i214_be_alpha_to_rgba14", f: F::PlADec16(yuv::i214_be_alpha_to_rgba14) },
    OpRow { name: "i410_alpha_to_rgba10", f: F::PlADec16(yuv::i410_alpha_to_rgba10) },
    OpRow { name: "i410_be_alpha_to_rgba10", f: F::PlADec16(yuv::i410_be_alpha_to_rgba10) },
    OpRow { name: "i412_alpha_to_rgba12", f: F::PlADec16(yuv::i412_alpha_to_rgba12) },
    OpRow { name: "i412_be_alpha_to_rgba12", f: F::PlADec16(yuv::i412_be_alpha_to_rgba12) },
    OpRow { name: "i414_alpha_to_rgba14", f: F::PlADec16(yuv::i414_alpha_to_rgba14) },
    OpRow { name: "i414_be_alpha_to_rgba14", f: F::PlADec16(yuv::i414_be_alpha_to_rgba14) },
    OpRow { name: "i010_alpha_to_rgba", f: F::PlADec16To8(yuv::i010_alpha_to_rgba) },
    OpRow { name: "i010_be_alpha_to_rgba", f: F::PlADec16To8(yuv::i010_be_alpha_to_rgba) },
    OpRow { name: "i012_alpha_to_rgba", f: F::PlADec16To8(yuv::i012_alpha_to_rgba) },
    OpRow { name: "i012_be_alpha_to_rgba", f: F::PlADec16To8(yuv::i012_be_alpha_to_rgba) },
    OpRow { name: "i210_alpha_be_to_rgba", f: F::PlADec16To8(yuv::i210_alpha_be_to_rgba) },
    OpRow { name: "i210_alpha_to_rgba", f: F::PlADec16To8(yuv::i210_alpha_to_rgba) },
    OpRow { name: "i212_alpha_to_rgba", f: F::PlADec16To8(yuv::i212_alpha_to_rgba) },
    OpRow { name: "i212_be_alpha_to_rgba", f: F::PlADec16To8(yuv::i212_be_alpha_to_rgba) },
    OpRow { name: "i410_alpha_to_rgba", f: F::PlADec16To8(yuv::i410_alpha_to_rgba) },
    OpRow { name: "i410_be_alpha_to_rgba", f: F::PlADec16To8(yuv::i410_be_alpha_to_rgba) },
    OpRow { name: "i412_alpha_to_rgba", f: F::PlADec16To8(yuv::i412_alpha_to_rgba) },
    OpRow { name: "i412_be_alpha_to_rgba", f: F::PlADec16To8(yuv::i412_be_alpha_to_rgba) },
    OpRow { name: "yuv420_alpha_to_bgra", f: F::PlADec8(yuv::yuv420_alpha_to_bgra) },
    OpRow { name: "yuv420_alpha_to_rgba", f: F::PlADec8(yuv::yuv420_alpha_to_rgba) },
    OpRow { name: "yuv422_alpha_to_bgra", f: F::PlADec8(yuv::yuv422_alpha_to_bgra) },
    OpRow { name: "yuv422_alpha_to_rgba", f: F::PlADec8(yuv::yuv422_alpha_to_rgba) },
    OpRow { name: "yuv444_alpha_to_bgra", f: F::PlADec8(yuv::yuv444_alpha_to_bgra) },
    OpRow { name: "yuv444_alpha_to_rgba", f: F::PlADec8(yuv::yuv444_alpha_to_rgba) },
    #[cfg(feature = "f16")]
    OpRow { name: "i010_alpha_to_rgba_f16", f: F::PlADecF16(yuv::i010_alpha_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i012_alpha_to_rgba_f16", f: F::PlADecF16(yuv::i012_alpha_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i014_alpha_to_rgba_f16", f: F::PlADecF16(yuv::i014_alpha_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i210_alpha_to_rgba_f16", f: F::PlADecF16(yuv::i210_alpha_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i212_alpha_to_rgba_f16", f: F::PlADecF16(yuv::i212_alpha_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i214_alpha_to_rgba_f16", f: F::PlADecF16(yuv::i214_alpha_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i410_alpha_to_rgba_f16", f: F::PlADecF16(yuv::i410_alpha_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i412_alpha_to_rgba_f16", f: F::PlADecF16(yuv::i412_alpha_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i414_alpha_to_rgba_f16", f: F::PlADecF16(yuv::i414_alpha_to_rgba_f16) },
    OpRow { name: "gb10_alpha_to_rgba10", f: F::PlARDec16(yuv::gb10_alpha_to_rgba10) },
    OpRow { name: "gb12_alpha_to_rgba12", f: F::PlARDec16(yuv::gb12_alpha_to_rgba12) },
    OpRow { name: "gb14_alpha_to_rgba14", f: F::PlARDec16(yuv::gb14_alpha_to_rgba14) },
    OpRow { name: "gb16_alpha_to_rgba16", f: F::PlARDec16(yuv::gb16_alpha_to_rgba16) },
    OpRow { name: "icgc010_alpha_to_rgba10", f: F::PlARDec16(yuv::icgc010_alpha_to_rgba10) },
    OpRow { name: "icgc012_alpha_to_rgba12", f: F::PlARDec16(yuv::icgc012_alpha_to_rgba12) },
    OpRow { name: "icgc210_alpha_to_rgba10", f: F::PlARDec16(yuv::icgc210_alpha_to_rgba10) },
    OpRow { name: "icgc212_alpha_to_rgba12", f: F::PlARDec16(yuv::icgc212_alpha_to_rgba12) },
    OpRow { name: "icgc410_alpha_to_rgba10", f: F::PlARDec16(yuv::icgc410_alpha_to_rgba10) },
    OpRow { name: "icgc412_alpha_to_rgba12", f: F::PlARDec16(yuv::icgc412_alpha_to_rgba12) },
    OpRow { name: "gbr_with_alpha_to_bgra", f: F::PlARDec8(yuv::gbr_with_alpha_to_bgra) },
    OpRow { name: "gbr_with_alpha_to_rgba", f: F::PlARDec8(yuv::gbr_with_alpha_to_rgba) },
    OpRow { name: "ycgco420_alpha_to_bgra", f: F::PlARDec8(yuv::ycgco420_alpha_to_bgra) },
    OpRow { name: "ycgco420_alpha_to_rgba", f: F::PlARDec8(yuv::ycgco420_alpha_to_rgba) },
    OpRow { name: "ycgco422_alpha_to_bgra", f: F::PlARDec8(yuv::ycgco422_alpha_to_bgra) },
    OpRow { name: "ycgco422_alpha_to_rgba", f: F::PlARDec8(yuv::ycgco422_alpha_to_rgba) },
    OpRow { name: "ycgco444_alpha_to_bgra", f: F::PlARDec8(yuv::ycgco444_alpha_to_bgra) },
    OpRow { name: "ycgco444_alpha_to_rgba", f: F::PlARDec8(yuv::ycgco444_alpha_to_rgba) },
    #[cfg(feature = "f16")]
    OpRow { name: "gb10_alpha_to_rgba_f16", f: F::PlARDecF16(yuv::gb10_alpha_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "gb12_alpha_to_rgba_f16", f: F::PlARDecF16(yuv::gb12_alpha_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "gb14_alpha_to_rgba_f16", f: F::PlARDecF16(yuv::gb14_alpha_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "gb16_alpha_to_rgba_f16", f: F::PlARDecF16(yuv::gb16_alpha_to_rgba_f16) },
    OpRow { name: "i010_be_to_rgb10", f: F::PlDec16(yuv::i010_be_to_rgb10) },
    OpRow { name: "i010_be_to_rgba10", f: F::PlDec16(yuv::i010_be_to_rgba10) },
    OpRow { name: "i010_to_rgb10", f: F::PlDec16(yuv::i010_to_rgb10) },
    OpRow { name: "i010_to_rgba10", f: F::PlDec16(yuv::i010_to_rgba10) },
    OpRow { name: "i012_be_to_rgb12", f: F::PlDec16(yuv::i012_be_to_rgb12) },
    OpRow { name: "i012_be_to_rgba12", f: F::PlDec16(yuv::i012_be_to_rgba12) },
    OpRow { name: "i012_to_rgb12", f: F::PlDec16(yuv::i012_to_rgb12) },
    OpRow { name: "i012_to_rgba12", f: F::PlDec16(yuv::i012_to_rgba12) },
    OpRow { name: "i014_be_to_rgb14", f: F::PlDec16(yuv::i014_be_to_rgb14) },
    OpRow { name: "i014_be_to_rgba14", f: F::PlDec16(yuv::i014_be_to_rgba14) },
    OpRow { name: "i014_to_rgb14", f: F::PlDec16(yuv::i014_to_rgb14) },
    OpRow { name: "i014_to_rgba14", f: F::PlDec16(yuv::i014_to_rgba14) },
    OpRow { name: "i016_be_to_rgb16", f: F::PlDec16(yuv::i016_be_to_rgb16) },
    OpRow { name: "i016_be_to_rgba16", f: F::PlDec16(yuv::i016_be_to_rgba16) },
    OpRow { name: "i016_to_rgb16", f: F::PlDec16(yuv::i016_to_rgb16) },
    OpRow { name: "i016_to_rgba16", f: F::PlDec16(yuv::i016_to_rgba16) },
    OpRow { name: "i210_be_to_rgb10", f: F::PlDec16(yuv::i210_be_to_rgb10) },
    OpRow { name: "i210_be_to_rgba10", f: F::PlDec16(yuv::i210_be_to_rgba10) },
    OpRow { name: "i210_to_rgb10", f: F::PlDec16(yuv::i210_to_rgb10) },
    OpRow { name: "i210_to_rgba10", f: F::PlDec16(yuv::i210_to_rgba10) },
    OpRow { name: "i212_be_to_rgb12", f: F::PlDec16(yuv::i212_be_to_rgb12) },
    OpRow { name: "i212_be_to_rgba12", f: F::PlDec16(yuv::i212_be_to_rgba12) },
    OpRow { name: "i212_to_rgb12", f: F::PlDec16(yuv::i212_to_rgb12) },
    OpRow { name: "i212_to_rgba12", f: F::PlDec16(yuv::i212_to_rgba12) },
    OpRow { name: "i214_be_to_rgb14", f: F::PlDec16(yuv::i214_be_to_rgb14) },
    OpRow { name: "i214_be_to_rgba14", f: F::PlDec16(yuv::i214_be_to_rgba14) },
    OpRow { name: "i214_to_rgb14", f: F::PlDec16(yuv::i214_to_rgb14) },
    OpRow { name: "i214_to_rgba14", f: F::PlDec16(yuv::i214_to_rgba14) },
    OpRow { name: "i216_be_to_rgb16", f: F::PlDec16(yuv::i216_be_to_rgb16) },
    OpRow { name: "i216_be_to_rgba16", f: F::PlDec16(yuv::i216_be_to_rgba16) },
    OpRow { name: "i216_to_rgb16", f: F::PlDec16(yuv::i216_to_rgb16) },
    OpRow { name: "i216_to_rgba16", f: F::PlDec16(yuv::i216_to_rgba16) },
    OpRow { name: "i410_be_to_rgb10", f: F::PlDec16(yuv::i410_be_to_rgb10) },
    OpRow { name: "i410_be_to_rgba10", f: F::PlDec16(yuv::i410_be_to_rgba10) },
    OpRow { name: "i410_to_rgb10", f: F::PlDec16(yuv::i410_to_rgb10) },
    OpRow { name: "i410_to_rgba10", f: F::PlDec16(yuv::i410_to_rgba10) },
    OpRow { name: "i412_be_to_rgb12", f: F::PlDec16(yuv::i412_be_to_rgb12) },
    OpRow { name: "i412_be_to_rgba12", f: F::PlDec16(yuv::i412_be_to_rgba12) },
    OpRow { name: "i412_to_rgb12", f: F::PlDec16(yuv::i412_to_rgb12) },
    OpRow { name: "i412_to_rgba12", f: F::PlDec16(yuv::i412_to_rgba12) },
    OpRow { name: "i414_be_to_rgb14", f: F::PlDec16(yuv::i414_be_to_rgb14) },
    OpRow { name: "i414_be_to_rgba14", f: F::PlDec16(yuv::i414_be_to_rgba14) },
    OpRow { name: "i414_to_rgb14", f: F::PlDec16(yuv::i414_to_rgb14) },
    OpRow { name: "i414_to_rgba14", f: F::PlDec16(yuv::i414_to_rgba14) },
    OpRow { name: "i416_be_to_rgb16", f: F::PlDec16(yuv::i416_be_to_rgb16) },
    OpRow { name: "i416_be_to_rgba16", f: F::PlDec16(yuv::i416_be_to_rgba16) },
    OpRow { name: "i416_to_rgb16", f: F::PlDec16(yuv::i416_to_rgb16) },
    OpRow { name: "i416_to_rgba16", f: F::PlDec16(yuv::i416_to_rgba16) },
    OpRow { name: "i010_be_to_bgr", f: F::PlDec16To8(yuv::i010_be_to_bgr) },
    OpRow { name: "i010_be_to_bgra", f: F::PlDec16To8(yuv::i010_be_to_bgra) },
    OpRow { name: "i010_be_to_rgb", f: F::PlDec16To8(yuv::i010_be_to_rgb) },
    OpRow { name: "i010_be_to_rgba", f: F::PlDec16To8(yuv::i010_be_to_rgba) },
    OpRow { name: "i010_to_bgr", f: F::PlDec16To8(yuv::i010_to_bgr) },
    OpRow { name: "i010_to_bgra", f: F::PlDec16To8(yuv::i010_to_bgra) },
    OpRow { name: "i010_to_rgb", f: F::PlDec16To8(yuv::i010_to_rgb) },
    OpRow { name: "i010_to_rgba", f: F::PlDec16To8(yuv::i010_to_rgba) },
    OpRow { name: "i012_be_to_bgr", f: F::PlDec16To8(yuv::i012_be_to_bgr) },
    OpRow { name: "i012_be_to_bgra", f: F::PlDec16To8(yuv::i012_be_to_bgra) },
    OpRow { name: "i012_be_to_rgb", f: F::PlDec16To8(yuv::i012_be_to_rgb) },
    OpRow { name: "i012_be_to_rgba", f: F::PlDec16To8(yuv::i012_be_to_rgba) },
    OpRow { name: "i012_to_bgr", f: F::PlDec16To8(yuv::i012_to_bgr) },
    OpRow { name: "i012_to_bgra", f: F::PlDec16To8(yuv::i012_to_bgra) },
    OpRow { name: "i012_to_rgb", f: F::PlDec16To8(yuv::i012_to_rgb) },
    OpRow { name: "i012_to_rgba", f: F::PlDec16To8(yuv::i012_to_rgba) },
    OpRow { name: "i210_be_to_bgr", f: F::PlDec16To8(yuv::i210_be_to_bgr) },
    OpRow { name: "i210_be_to_bgra", f: F::PlDec16To8(yuv::i210_be_to_bgra) },
    OpRow { name: "i210_be_to_rgb", f: F::PlDec16To8(yuv::i210_be_to_rgb) },
    OpRow { name: "i210_be_to_rgba", f: F::PlDec16To8(yuv::i210_be_to_rgba) },
    OpRow { name: "i210_to_bgr", f: F::PlDec16To8(yuv::i210_to_bgr) },
    OpRow { name: "i210_to_bgra", f: F::PlDec16To8(yuv::i210_to_bgra) },
    OpRow { name: "i210_to_rgb", f: F::PlDec16To8(yuv::i210_to_rgb) },
    OpRow { name: "i210_to_rgba", f: F::PlDec16To8(yuv::i210_to_rgba) },
    OpRow { name: "i212_be_to_bgr", f: F::PlDec16To8(yuv::i212_be_to_bgr) },
    OpRow { name: "i212_be_to_bgra", f: F::PlDec16To8(yuv::i212_be_to_bgra) },
    OpRow { name: "i212_be_to_rgb", f: F::PlDec16To8(yuv::i212_be_to_rgb) },
    OpRow { name: "i212_be_to_rgba", f: F::PlDec16To8(yuv::i212_be_to_rgba) },
    OpRow { name: "i212_to_bgr", f: F::PlDec16To8(yuv::i212_to_bgr) },
    OpRow { name: "i212_to_bgra", f: F::PlDec16To8(yuv::i212_to_bgra) },
    OpRow { name: "i212_to_rgb", f: F::PlDec16To8(yuv::i212_to_rgb) },
    OpRow { name: "i212_to_rgba", f: F::PlDec16To8(yuv::i212_to_rgba) },
    OpRow { name: "i410_be_to_rgba", f: F::PlDec16To8(yuv::i410_be_to_rgba) },
    OpRow { name: "i410_to_rgba", f: F::PlDec16To8(yuv::i410_to_rgba) },
    OpRow { name: "yuv420_to_bgr", f: F::PlDec8(yuv::yuv420_to_bgr) },
    OpRow { name: "yuv420_to_bgra", f: F::PlDec8(yuv::yuv420_to_bgra) },
    OpRow { name: "yuv420_to_rgb", f: F::PlDec8(yuv::yuv420_to_rgb) },
    OpRow { name: "yuv420_to_rgba", f: F::PlDec8(yuv::yuv420_to_rgba) },
    OpRow { name: "yuv422_to_bgr", f: F::PlDec8(yuv::yuv422_to_bgr) },
    OpRow { name: "yuv422_to_bgra", f: F::PlDec8(yuv::yuv422_to_bgra) },
    OpRow { name: "yuv422_to_rgb", f: F::PlDec8(yuv::yuv422_to_rgb) },
    OpRow { name: "yuv422_to_rgba", f: F::PlDec8(yuv::yuv422_to_rgba) },
    OpRow { name: "yuv444_to_bgr", f: F::PlDec8(yuv::yuv444_to_bgr) },
    OpRow { name: "yuv444_to_bgra", f: F::PlDec8(yuv::yuv444_to_bgra) },
    OpRow { name: "yuv444_to_rgb", f: F::PlDec8(yuv::yuv444_to_rgb) },
    OpRow { name: "yuv444_to_rgba", f: F::PlDec8(yuv::yuv444_to_rgba) },
    OpRow { name: "i010_to_ar30", f: F::PlDecAr(yuv::i010_to_ar30) },
    OpRow { name: "i010_to_ra30", f: F::PlDecAr(yuv::i010_to_ra30) },
    OpRow { name: "i012_to_ar30", f: F::PlDecAr(yuv::i012_to_ar30) },
    OpRow { name: "i012_to_ra30", f: F::PlDecAr(yuv::i012_to_ra30) },
    OpRow { name: "i014_to_ar30", f: F::PlDecAr(yuv::i014_to_ar30) },
    OpRow { name: "i014_to_ra30", f: F::PlDecAr(yuv::i014_to_ra30) },
    OpRow { name: "i210_to_ar30", f: F::PlDecAr(yuv::i210_to_ar30) },
    OpRow { name: "i210_to_ra30", f: F::PlDecAr(yuv::i210_to_ra30) },
    OpRow { name: "i212_to_ar30", f: F::PlDecAr(yuv::i212_to_ar30) },
    OpRow { name: "i212_to_ra30", f: F::PlDecAr(yuv::i212_to_ra30) },
    OpRow { name: "i214_to_ar30", f: F::PlDecAr(yuv::i214_to_ar30) },
    OpRow { name: "i214_to_ra30", f: F::PlDecAr(yuv::i214_to_ra30) },
    OpRow { name: "i410_to_ar30", f: F::PlDecAr(yuv::i410_to_ar30) },
    OpRow { name: "i410_to_ra30", f: F::PlDecAr(yuv::i410_to_ra30) },
    OpRow { name: "i412_to_ar30", f: F::PlDecAr(yuv::i412_to_ar30) },
    OpRow { name: "i412_to_ra30", f: F::PlDecAr(yuv::i412_to_ra30) },
    OpRow { name: "i414_to_ar30", f: F::PlDecAr(yuv::i414_to_ar30) },
    OpRow { name: "i414_to_ra30", f: F::PlDecAr(yuv::i414_to_ra30) },
    #[cfg(feature = "f16")]
    OpRow { name: "i010_to_rgb_f16", f: F::PlDecF16(yuv::i010_to_rgb_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i010_to_rgba_f16", f: F::PlDecF16(yuv::i010_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i012_to_rgb_f16", f: F::PlDecF16(yuv::i012_to_rgb_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i012_to_rgba_f16", f: F::PlDecF16(yuv::i012_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i014_to_rgb_f16", f: F::PlDecF16(yuv::i014_to_rgb_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i014_to_rgba_f16", f: F::PlDecF16(yuv::i014_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i210_to_rgb_f16", f: F::PlDecF16(yuv::i210_to_rgb_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i210_to_rgba_f16", f: F::PlDecF16(yuv::i210_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i212_to_rgb_f16", f: F::PlDecF16(yuv::i212_to_rgb_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i212_to_rgba_f16", f: F::PlDecF16(yuv::i212_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i214_to_rgb_f16", f: F::PlDecF16(yuv::i214_to_rgb_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i214_to_rgba_f16", f: F::PlDecF16(yuv::i214_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i410_to_rgb_f16", f: F::PlDecF16(yuv::i410_to_rgb_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i410_to_rgba_f16", f: F::PlDecF16(yuv::i410_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i412_to_rgb_f16", f: F::PlDecF16(yuv::i412_to_rgb_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i412_to_rgba_f16", f: F::PlDecF16(yuv::i412_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i414_to_rgb_f16", f: F::PlDecF16(yuv::i414_to_rgb_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "i414_to_rgba_f16", f: F::PlDecF16(yuv::i414_to_rgba_f16) },
    OpRow { name: "rgb10_to_i010", f: F::PlEnc16(yuv::rgb10_to_i010) },
    OpRow { name: "rgb10_to_i010_be", f: F::PlEnc16(yuv::rgb10_to_i010_be) },
    OpRow { name: "rgb10_to_i210", f: F::PlEnc16(yuv::rgb10_to_i210) },
    OpRow { name: "rgb10_to_i210_be", f: F::PlEnc16(yuv::rgb10_to_i210_be) },
    OpRow { name: "rgb10_to_i410", f: F::PlEnc16(yuv::rgb10_to_i410) },
    OpRow { name: "rgb10_to_i410_be", f: F::PlEnc16(yuv::rgb10_to_i410_be) },
    OpRow { name: "rgb12_to_i012", f: F::PlEnc16(yuv::rgb12_to_i012) },
    OpRow { name: "rgb12_to_i012_be", f: F::PlEnc16(yuv::rgb12_to_i012_be) },
    OpRow { name: "rgb12_to_i212", f: F::PlEnc16(yuv::rgb12_to_i212) },
    OpRow { name: "rgb12_to_i212_be", f: F::PlEnc16(yuv::rgb12_to_i212_be) },
    OpRow { name: "rgb12_to_i412", f: F::PlEnc16(yuv::rgb12_to_i412) },
    OpRow { name: "rgb12_to_i412_be", f: F::PlEnc16(yuv::rgb12_to_i412_be) },
    OpRow { name: "rgb14_to_i014", f: F::PlEnc16(yuv::rgb14_to_i014) },
    OpRow { name: "rgb14_to_i014_be", f: F::PlEnc16(yuv::rgb14_to_i014_be) },
    OpRow { name: "rgb14_to_i214", f: F::PlEnc16(yuv::rgb14_to_i214) },
    OpRow { name: "rgb14_to_i214_be", f: F::PlEnc16(yuv::rgb14_to_i214_be) },
    OpRow { name: "rgb14_to_i414", f: F::PlEnc16(yuv::rgb14_to_i414) },
    OpRow { name: "rgb14_to_i414_be", f: F::PlEnc16(yuv::rgb14_to_i414_be) },
    OpRow { name: "rgb16_to_i016", f: F::PlEnc16(yuv::rgb16_to_i016) },
    OpRow { name: "rgb16_to_i016_be", f: F::PlEnc16(yuv::rgb16_to_i016_be) },
    OpRow { name: "rgb16_to_i216", f: F::PlEnc16(yuv::rgb16_to_i216) },
    OpRow { name: "rgb16_to_i216_be", f: F::PlEnc16(yuv::rgb16_to_i216_be) },
    OpRow { name: "rgb16_to_i416", f: F::PlEnc16(yuv::rgb16_to_i416) },
    OpRow { name: "rgb16_to_i416_be", f: F::PlEnc16(yuv::rgb16_to_i416_be) },
    OpRow { name: "rgba10_to_i010", f: F::PlEnc16(yuv::rgba10_to_i010) },
    OpRow { name: "rgba10_to_i010_be", f: F::PlEnc16(yuv::rgba10_to_i010_be) },
    OpRow { name: "rgba10_to_i210", f: F::PlEnc16(yuv::rgba10_to_i210) },
    OpRow { name: "rgba10_to_i210_be", f: F::PlEnc16(yuv::rgba10_to_i210_be) },
    OpRow { name: "rgba10_to_i410", f: F::PlEnc16(yuv::rgba10_to_i410) },
    OpRow { name: "rgba10_to_i410_be", f: F::PlEnc16(yuv::rgba10_to_i410_be) },
    OpRow { name: "rgba12_to_i012", f: F::PlEnc16(yuv::rgba12_to_i012) },
    OpRow { name: "rgba12_to_i012_be", f: F::PlEnc16(yuv::rgba12_to_i012_be) },
    OpRow { name: "rgba12_to_i212", f: F::PlEnc16(yuv::rgba12_to_i212) },
    OpRow { name: "rgba12_to_i212_be", f: F::PlEnc16(yuv::rgba12_to_i212_be) },
    OpRow { name: "rgba12_to_i412", f: F::PlEnc16(yuv::rgba12_to_i412) },
    OpRow { name: "rgba12_to_i412_be", f: F::PlEnc16(yuv::rgba12_to_i412_be) },
    OpRow { name: "rgba14_to_i014", f: F::PlEnc16(yuv::rgba14_to_i014) },
    OpRow { name: "rgba14_to_i014_be", f: F::PlEnc16(yuv::rgba14_to_i014_be) },
    OpRow { name: "rgba14_to_i214", f: F::PlEnc16(yuv::rgba14_to_i214) },
    OpRow { name: "rgba14_to_i214_be", f: F::PlEnc16(yuv::rgba14_to_i214_be) },
    OpRow { name: "rgba14_to_i414", f: F::PlEnc16(yuv::rgba14_to_i414) },
    OpRow { name: "rgba14_to_i414_be", f: F::PlEnc16(yuv::rgba14_to_i414_be) },
    OpRow { name: "rgba16_to_i016", f: F::PlEnc16(yuv::rgba16_to_i016) },
    OpRow { name: "rgba16_to_i016_be", f: F::PlEnc16(yuv::rgba16_to_i016_be) },
    OpRow { name: "rgba16_to_i216", f: F::PlEnc16(yuv::rgba16_to_i216) },
    OpRow { name: "rgba16_to_i216_be", f: F::PlEnc16(yuv::rgba16_to_i216_be) },
    OpRow { name: "rgba16_to_i416", f: F::PlEnc16(yuv::rgba16_to_i416) },
    OpRow { name: "rgba16_to_i416_be", f: F::PlEnc16(yuv::rgba16_to_i416_be) },
    OpRow { name: "bgr_to_yuv420", f: F::PlEnc8(yuv::bgr_to_yuv420) },
    OpRow { name: "bgr_to_yuv422", f: F::PlEnc8(yuv::bgr_to_yuv422) },
    OpRow { name: "bgr_to_yuv444", f: F::PlEnc8(yuv::bgr_to_yuv444) },
    OpRow { name: "bgra_to_yuv420", f: F::PlEnc8(yuv::bgra_to_yuv420) },
    OpRow { name: "bgra_to_yuv422", f: F::PlEnc8(yuv::bgra_to_yuv422) },
    OpRow { name: "bgra_to_yuv444", f: F::PlEnc8(yuv::bgra_to_yuv444) },
    OpRow { name: "rgb_to_yuv420", f: F::PlEnc8(yuv::rgb_to_yuv420) },
    OpRow { name: "rgb_to_yuv422", f: F::PlEnc8(yuv::rgb_to_yuv422) },
    OpRow { name: "rgb_to_yuv444", f: F::PlEnc8(yuv::rgb_to_yuv444) },
    OpRow { name: "rgba_to_yuv420", f: F::PlEnc8(yuv::rgba_to_yuv420) },
    OpRow { name: "rgba_to_yuv422", f: F::PlEnc8(yuv::rgba_to_yuv422) },
    OpRow { name: "rgba_to_yuv444", f: F::PlEnc8(yuv::rgba_to_yuv444) },
    OpRow { name: "gb10_to_rgb10", f: F::PlRDec16(yuv::gb10_to_rgb10) },
    OpRow { name: "gb10_to_rgba10", f: F::PlRDec16(yuv::gb10_to_rgba10) },
    OpRow { name: "gb12_to_rgb12", f: F::PlRDec16(yuv::gb12_to_rgb12) },
    OpRow { name: "gb12_to_rgba12", f: F::PlRDec16(yuv::gb12_to_rgba12) },
    OpRow { name: "gb14_to_rgb14", f: F::PlRDec16(yuv::gb14_to_rgb14) },
    OpRow { name: "gb14_to_rgba14", f: F::PlRDec16(yuv::gb14_to_rgba14) },
    OpRow { name: "gb16_to_rgb16", f: F::PlRDec16(yuv::gb16_to_rgb16) },
    OpRow { name: "gb16_to_rgba16", f: F::PlRDec16(yuv::gb16_to_rgba16) },
    OpRow { name: "icgc010_to_rgb10", f: F::PlRDec16(yuv::icgc010_to_rgb10) },
    OpRow { name: "icgc010_to_rgba10", f: F::PlRDec16(yuv::icgc010_to_rgba10) },
    OpRow { name: "icgc012_to_rgb12", f: F::PlRDec16(yuv::icgc012_to_rgb12) },
    OpRow { name: "icgc012_to_rgba12", f: F::PlRDec16(yuv::icgc012_to_rgba12) },
    OpRow { name: "icgc210_to_rgb10", f: F::PlRDec16(yuv::icgc210_to_rgb10) },
    OpRow { name: "icgc210_to_rgba10", f: F::PlRDec16(yuv::icgc210_to_rgba10) },
    OpRow { name: "icgc212_to_rgb12", f: F::PlRDec16(yuv::icgc212_to_rgb12) },
    OpRow { name: "icgc212_to_rgba12", f: F::PlRDec16(yuv::icgc212_to_rgba12) },
    OpRow { name: "icgc410_to_rgb10", f: F::PlRDec16(yuv::icgc410_to_rgb10) },
    OpRow { name: "icgc410_to_rgba10", f: F::PlRDec16(yuv::icgc410_to_rgba10) },
    OpRow { name: "icgc412_to_rgb12", f: F::PlRDec16(yuv::icgc412_to_rgb12) },
    OpRow { name: "icgc412_to_rgba12", f: F::PlRDec16(yuv::icgc412_to_rgba12) },
    OpRow { name: "gbr_to_bgr", f: F::PlRDec8(yuv::gbr_to_bgr) },
    OpRow { name: "gbr_to_bgra", f: F::PlRDec8(yuv::gbr_to_bgra) },
    OpRow { name: "gbr_to_rgb", f: F::PlRDec8(yuv::gbr_to_rgb) },
    OpRow { name: "gbr_to_rgba", f: F::PlRDec8(yuv::gbr_to_rgba) },
    OpRow { name: "ycgco420_to_bgr", f: F::PlRDec8(yuv::ycgco420_to_bgr) },
    OpRow { name: "ycgco420_to_bgra", f: F::PlRDec8(yuv::ycgco420_to_bgra) },
    OpRow { name: "ycgco420_to_rgb", f: F::PlRDec8(yuv::ycgco420_to_rgb) },
    OpRow { name: "ycgco420_to_rgba", f: F::PlRDec8(yuv::ycgco420_to_rgba) },
    OpRow { name: "ycgco422_to_bgr", f: F::PlRDec8(yuv::ycgco422_to_bgr) },
    OpRow { name: "ycgco422_to_bgra", f: F::PlRDec8(yuv::ycgco422_to_bgra) },
    OpRow { name: "ycgco422_to_rgb", f: F::PlRDec8(yuv::ycgco422_to_rgb) },
    OpRow { name: "ycgco422_to_rgba", f: F::PlRDec8(yuv::ycgco422_to_rgba) },
    OpRow { name: "ycgco444_to_bgr", f: F::PlRDec8(yuv::ycgco444_to_bgr) },
    OpRow { name: "ycgco444_to_bgra", f: F::PlRDec8(yuv::ycgco444_to_bgra) },
    OpRow { name: "ycgco444_to_rgb", f: F::PlRDec8(yuv::ycgco444_to_rgb) },
    OpRow { name: "ycgco444_to_rgba", f: F::PlRDec8(yuv::ycgco444_to_rgba) },
    #[cfg(feature = "f16")]
    OpRow { name: "gb10_to_rgb_f16", f: F::PlRDecF16(yuv::gb10_to_rgb_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "gb10_to_rgba_f16", f: F::PlRDecF16(yuv::gb10_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "gb12_to_rgb_f16", f: F::PlRDecF16(yuv::gb12_to_rgb_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "gb12_to_rgba_f16", f: F::PlRDecF16(yuv::gb12_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "gb14_to_rgb_f16", f: F::PlRDecF16(yuv::gb14_to_rgb_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "gb14_to_rgba_f16", f: F::PlRDecF16(yuv::gb14_to_rgba_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "gb16_to_rgb_f16", f: F::PlRDecF16(yuv::gb16_to_rgb_f16) },
    #[cfg(feature = "f16")]
    OpRow { name: "gb16_to_rgba_f16", f: F::PlRDecF16(yuv::gb16_to_rgba_f16) },
    OpRow { name: "rgb10_to_gb10", f: F::PlREnc16(yuv::rgb10_to_gb10) },
    OpRow { name: "rgb12_to_gb12", f: F::PlREnc16(yuv::rgb12_to_gb12) },
    OpRow { name: "rgb14_to_gb14", f: F::PlREnc16(yuv::rgb14_to_gb14) },
    OpRow { name: "rgb16_to_gb16", f: F::PlREnc16(yuv::rgb16_to_gb16) },
    OpRow { name: "rgba10_to_gb10", f: F::PlREnc16(yuv::rgba10_to_gb10) },
    OpRow { name: "rgba12_to_gb12", f: F::PlREnc16(yuv::rgba12_to_gb12) },
    OpRow { name: "rgba14_to_gb14", f: F::PlREnc16(yuv::rgba14_to_gb14) },
    OpRow { name: "rgba16_to_gb16", f: F::PlREnc16(yuv::rgba16_to_gb16) },
    OpRow { name: "bgr_to_gbr", f: F::PlREnc8(yuv::bgr_to_gbr) },
    OpRow { name: "bgr_to_ycgco420", f: F::PlREnc8(yuv::bgr_to_ycgco420) },
    OpRow { name: "bgr_to_ycgco422", f: F::PlREnc8(yuv::bgr_to_ycgco422) },
    OpRow { name: "bgr_to_ycgco444", f: F::PlREnc8(yuv::bgr_to_ycgco444) },
    OpRow { name: "bgra_to_gbr", f: F::PlREnc8(yuv::bgra_to_gbr) },
    OpRow { name: "bgra_to_ycgco420", f: F::PlREnc8(yuv::bgra_to_ycgco420) },
    OpRow { name: "bgra_to_ycgco422", f: F::PlREnc8(yuv::bgra_to_ycgco422) },
    OpRow { name: "bgra_to_ycgco444", f: F::PlREnc8(yuv::bgra_to_ycgco444) },
    OpRow { name: "rgb_to_gbr", f: F::PlREnc8(yuv::rgb_to_gbr) },
    OpRow { name: "rgb_to_ycgco420", f: F::PlREnc8(yuv::rgb_to_ycgco420) },
    OpRow { name: "rgb_to_ycgco422", f: F::PlREnc8(yuv::rgb_to_ycgco422) },
    OpRow { name: "rgb_to_ycgco444", f: F::PlREnc8(yuv::rgb_to_ycgco444) },
    OpRow { name: "rgba_to_gbr", f: F::PlREnc8(yuv::rgba_to_gbr) },
    OpRow { name: "rgba_to_ycgco420", f: F::PlREnc8(yuv::rgba_to_ycgco420) },
    OpRow { name: "rgba_to_ycgco422", f: F::PlREnc8(yuv::rgba_to_ycgco422) },
    OpRow { name: "rgba_to_ycgco444", f: F::PlREnc8(yuv::rgba_to_ycgco444) },
    OpRow { name: "rdp_yuv444_to_abgr", f: F::RdpDec(yuv::rdp_yuv444_to_abgr) },
    OpRow { name: "rdp_yuv444_to_argb", f: F::RdpDec(yuv::rdp_yuv444_to_argb) },
    OpRow { name: "rdp_yuv444_to_bgr", f: F::RdpDec(yuv::rdp_yuv444_to_bgr) },
    OpRow { name: "rdp_yuv444_to_bgra", f: F::RdpDec(yuv::rdp_yuv444_to_bgra) },
    OpRow { name: "rdp_yuv444_to_rgb", f: F::RdpDec(yuv::rdp_yuv444_to_rgb) },
    OpRow { name: "rdp_yuv444_to_rgba", f: F::RdpDec(yuv::rdp_yuv444_to_rgba) },
    OpRow { name: "rdp_abgr_to_yuv444", f: F::RdpEnc(yuv::rdp_abgr_to_yuv444) },
    OpRow { name: "rdp_argb_to_yuv444", f: F::RdpEnc(yuv::rdp_argb_to_yuv444) },
    OpRow { name: "rdp_bgr_to_yuv444", f: F::RdpEnc(yuv::rdp_bgr_to_yuv444) },
    OpRow { name: "rdp_bgra_to_yuv444", f: F::RdpEnc(yuv::rdp_bgra_to_yuv444) },
    OpRow { name: "rdp_rgb_to_yuv444", f: F::RdpEnc(yuv::rdp_rgb_to_yuv444) },
    OpRow { name: "rdp_rgba_to_yuv444", f: F::RdpEnc(yuv::rdp_rgba_to_yuv444) },
    OpRow { name: "rgb10_to_ar30", f: F::Rgb16ToAr(yuv::rgb10_to_ar30) },
    OpRow { name: "rgb10_to_ra30", f: F::Rgb16ToAr(yuv::rgb10_to_ra30) },
    OpRow { name: "rgb12_to_ar30", f: F::Rgb16ToAr(yuv::rgb12_to_ar30) },
    OpRow { name: "rgb12_to_ra30", f: F::Rgb16ToAr(yuv::rgb12_to_ra30) },
    OpRow { name: "rgba10_to_ar30", f: F::Rgb16ToAr(yuv::rgba10_to_ar30) },
    OpRow { name: "rgba10_to_ra30", f: F::Rgb16ToAr(yuv::rgba10_to_ra30) },
    OpRow { name: "rgba12_to_ar30", f: F::Rgb16ToAr(yuv::rgba12_to_ar30) },
    OpRow { name: "rgba12_to_ra30", f: F::Rgb16ToAr(yuv::rgba12_to_ra30) },
    OpRow { name: "rgb8_to_ar30", f: F::Rgb8ToAr(yuv::rgb8_to_ar30) },
    OpRow { name: "rgb8_to_ra30", f: F::Rgb8ToAr(yuv::rgb8_to_ra30) },
    OpRow { name: "rgba8_to_ar30", f: F::Rgb8ToAr(yuv::rgba8_to_ar30) },
    OpRow { name: "rgba8_to_ra30", f: F::Rgb8ToAr(yuv::rgba8_to_ra30) },
    OpRow { name: "rotate_cbcr16", f: F::Rot16(yuv::rotate_cbcr16) },
    OpRow { name: "rotate_plane16", f: F::Rot16(yuv::rotate_plane16) },
    OpRow { name: "rotate_rgb16", f: F::Rot16(yuv::rotate_rgb16) },
    OpRow { name: "rotate_rgba16", f: F::Rot16(yuv::rotate_rgba16) },
    OpRow { name: "rotate_cbcr", f: F::Rot8(yuv::rotate_cbcr) },
    OpRow { name: "rotate_plane", f: F::Rot8(yuv::rotate_plane) },
    OpRow { name: "rotate_rgb", f: F::Rot8(yuv::rotate_rgb) },
    OpRow { name: "rotate_rgba", f: F::Rot8(yuv::rotate_rgba) },
    OpRow { name: "bgr_to_sharp_yuv420", f: F::SharpEnc8(yuv::bgr_to_sharp_yuv420) },
    OpRow { name: "bgr_to_sharp_yuv422", f: F::SharpEnc8(yuv::bgr_to_sharp_yuv422) },
    OpRow { name: "bgra_to_sharp_yuv420", f: F::SharpEnc8(yuv::bgra_to_sharp_yuv420) },
    OpRow { name: "bgra_to_sharp_yuv422", f: F::SharpEnc8(yuv::bgra_to_sharp_yuv422) },
    OpRow { name: "rgb_to_sharp_yuv420", f: F::SharpEnc8(yuv::rgb_to_sharp_yuv420) },
    OpRow { name: "rgb_to_sharp_yuv422", f: F::SharpEnc8(yuv::rgb_to_sharp_yuv422) },
    OpRow { name: "rgba_to_sharp_yuv420", f: F::SharpEnc8(yuv::rgba_to_sharp_yuv420) },
    OpRow { name: "rgba_to_sharp_yuv422", f: F::SharpEnc8(yuv::rgba_to_sharp_yuv422) },
    OpRow { name: "bgr_to_bgra", f: F::Shuf(yuv::bgr_to_bgra) },
    OpRow { name: "bgr_to_rgb", f: F::Shuf(yuv::bgr_to_rgb) },
    OpRow { name: "bgr_to_rgba", f: F::Shuf(yuv::bgr_to_rgba) },
    OpRow { name: "bgra_to_bgr", f: F::Shuf(yuv::bgra_to_bgr) },
    OpRow { name: "bgra_to_rgb", f: F::Shuf(yuv::bgra_to_rgb) },
    OpRow { name: "bgra_to_rgba", f: F::Shuf(yuv::bgra_to_rgba) },
    OpRow { name: "rgb_to_bgr", f: F::Shuf(yuv::rgb_to_bgr) },
    OpRow { name: "rgb_to_bgra", f: F::Shuf(yuv::rgb_to_bgra) },
    OpRow { name: "rgb_to_rgba", f: F::Shuf(yuv::rgb_to_rgba) },
    OpRow { name: "rgba_to_bgr", f: F::Shuf(yuv::rgba_to_bgr) },
    OpRow { name: "rgba_to_bgra", f: F::Shuf(yuv::rgba_to_bgra) },
    OpRow { name: "rgba_to_rgb", f: F::Shuf(yuv::rgba_to_rgb) },
    OpRow { name: "uyvy422_to_rgb_p16", f: F::YuyDec16(yuv::uyvy422_to_rgb_p16) },
    OpRow { name: "uyvy422_to_rgba_p16", f: F::YuyDec16(yuv::uyvy422_to_rgba_p16) },
    OpRow { name: "vyuy422_to_rgb_p16", f: F::YuyDec16(yuv::vyuy422_to_rgb_p16) },
    OpRow { name: "vyuy422_to_rgba_p16", f: F::YuyDec16(yuv::vyuy422_to_rgba_p16) },
    OpRow { name: "yuyv422_to_rgb_p16", f: F::YuyDec16(yuv::yuyv422_to_rgb_p16) },
    OpRow { name: "yuyv422_to_rgba_p16", f: F::YuyDec16(yuv::yuyv422_to_rgba_p16) },
    OpRow { name: "yvyu422_to_rgb_p16", f: F::YuyDec16(yuv::yvyu422_to_rgb_p16) },
    OpRow { name: "yvyu422_to_rgba_p16", f: F::YuyDec16(yuv::yvyu422_to_rgba_p16) },
    OpRow { name: "uyvy422_to_bgr", f: F::YuyDec8(yuv::uyvy422_to_bgr) },
    OpRow { name: "uyvy422_to_bgra", f: F::YuyDec8(yuv::uyvy422_to_bgra) },
    OpRow { name: "uyvy422_to_rgb", f: F::YuyDec8(yuv::uyvy422_to_rgb) },
    OpRow { name: "uyvy422_to_rgba", f: F::YuyDec8(yuv::uyvy422_to_rgba) },
    OpRow { name: "vyuy422_to_bgr", f: F::YuyDec8(yuv::vyuy422_to_bgr) },
    OpRow { name: "vyuy422_to_bgra", f: F::YuyDec8(yuv::vyuy422_to_bgra) },
    OpRow { name: "vyuy422_to_rgb", f: F::YuyDec8(yuv::vyuy422_to_rgb) },
    OpRow { name: "vyuy422_to_rgba", f: F::YuyDec8(yuv::vyuy422_to_rgba) },
    OpRow { name: "yuyv422_to_bgr", f: F::YuyDec8(yuv::yuyv422_to_bgr) },
    OpRow { name: "yuyv422_to_bgra", f: F::YuyDec8(yuv::yuyv422_to_bgra) },
    OpRow { name: "yuyv422_to_rgb", f: F::YuyDec8(yuv::yuyv422_to_rgb) },
    OpRow { name: "yuyv422_to_rgba", f: F::YuyDec8(yuv::yuyv422_to_rgba) },
    OpRow { name: "yvyu422_to_bgr", f: F::YuyDec8(yuv::yvyu422_to_bgr) },
    OpRow { name: "yvyu422_to_bgra", f: F::YuyDec8(yuv::yvyu422_to_bgra) },
    OpRow { name: "yvyu422_to_rgb", f: F::YuyDec8(yuv::yvyu422_to_rgb) },
    OpRow { name: "yvyu422_to_rgba", f: F::YuyDec8(yuv::yvyu422_to_rgba) },
    OpRow { name: "yuv420_to_uyvy422_p16", f: F::YuyPack16(yuv::yuv420_to_uyvy422_p16) },
    OpRow { name: "yuv420_to_vyuy422_p16", f: F::YuyPack16(yuv::yuv420_to_vyuy422_p16) },
    OpRow { name: "yuv420_to_yuyv422_p16", f: F::YuyPack16(yuv::yuv420_to_yuyv422_p16) },
    OpRow { name: "yuv420_to_yvyu422_p16", f: F::YuyPack16(yuv::yuv420_to_yvyu422_p16) },
    OpRow { name: "yuv422_to_uyvy422_p16", f: F::YuyPack16(yuv::yuv422_to_uyvy422_p16) },
    OpRow { name: "yuv422_to_vyuy422_p16", f: F::YuyPack16(yuv::yuv422_to_vyuy422_p16) },
    OpRow { name: "yuv422_to_yuyv422_p16", f: F::YuyPack16(yuv::yuv422_to_yuyv422_p16) },
    OpRow { name: "yuv422_to_yvyu422_p16", f: F::YuyPack16(yuv::yuv422_to_yvyu422_p16) },
    OpRow { name: "yuv444_to_uyvy422_p16", f: F::YuyPack16(yuv::yuv444_to_uyvy422_p16) },
    OpRow { name: "yuv444_to_vyuy422_p16", f: F::YuyPack16(yuv::yuv444_to_vyuy422_p16) },
    OpRow { name: "yuv444_to_yuyv422_p16", f: F::YuyPack16(yuv::yuv444_to_yuyv422_p16) },
    OpRow { name: "yuv444_to_yvyu422_p16", f: F::YuyPack16(yuv::yuv444_to_yvyu422_p16) },
    OpRow { name: "yuv420_to_uyvy422", f: F::YuyPack8(yuv::yuv420_to_uyvy422) },
    OpRow { name: "yuv420_to_vyuy422", f: F::YuyPack8(yuv::yuv420_to_vyuy422) },
    OpRow { name: "yuv420_to_yuyv422", f: F::YuyPack8(yuv::yuv420_to_yuyv422) },
    OpRow { name: "yuv420_to_yvyu422", f: F::YuyPack8(yuv::yuv420_to_yvyu422) },
    OpRow { name: "yuv422_to_uyvy422", f: F::YuyPack8(yuv::yuv422_to_uyvy422) },
    OpRow { name: "yuv422_to_vyuy422", f: F::YuyPack8(yuv::yuv422_to_vyuy422) },
    OpRow { name: "yuv422_to_yuyv422", f: F::YuyPack8(yuv::yuv422_to_yuyv422) },
    OpRow { name: "yuv422_to_yvyu422", f: F::YuyPack8(yuv::yuv422_to_yvyu422) },
    OpRow { name: "yuv444_to_uyvy422", f: F::YuyPack8(yuv::yuv444_to_uyvy422) },
    OpRow { name: "yuv444_to_vyuy422", f: F::YuyPack8(yuv::yuv444_to_vyuy422) },
    OpRow { name: "yuv444_to_yuyv422", f: F::YuyPack8(yuv::yuv444_to_yuyv422) },
    OpRow { name: "yuv444_to_yvyu422", f: F::YuyPack8(yuv::yuv444_to_yvyu422) },
    OpRow { name: "uyvy422_to_yuv420_p16", f: F::YuyUnp16(yuv::uyvy422_to_yuv420_p16) },
    OpRow { name: "uyvy422_to_yuv422_p16", f: F::YuyUnp16(yuv::uyvy422_to_yuv422_p16) },
    OpRow { name: "uyvy422_to_yuv444_p16", f: F::YuyUnp16(yuv::uyvy422_to_yuv444_p16) },
    OpRow { name: "vyuy422_to_yuv420_p16", f: F::YuyUnp16(yuv::vyuy422_to_yuv420_p16) },
    OpRow { name: "vyuy422_to_yuv422_p16", f: F::YuyUnp16(yuv::vyuy422_to_yuv422_p16) },
    OpRow { name: "vyuy422_to_yuv444_p16", f: F::YuyUnp16(yuv::vyuy422_to_yuv444_p16) },
    OpRow { name: "yuyv422_to_yuv420_p16", f: F::YuyUnp16(yuv::yuyv422_to_yuv420_p16) },
    OpRow { name: "yuyv422_to_yuv422_p16", f: F::YuyUnp16(yuv::yuyv422_to_yuv422_p16) },
    OpRow { name: "yuyv422_to_yuv444_p16", f: F::YuyUnp16(yuv::yuyv422_to_yuv444_p16) },
    OpRow { name: "yvyu422_to_yuv420_p16", f: F::YuyUnp16(yuv::yvyu422_to_yuv420_p16) },
    OpRow { name: "yvyu422_to_yuv422_p16", f: F::YuyUnp16(yuv::yvyu422_to_yuv422_p16) },
    OpRow { name: "yvyu422_to_yuv444_p16", f: F::YuyUnp16(yuv::yvyu422_to_yuv444_p16) },
    OpRow { name: "uyvy422_to_yuv420", f: F::YuyUnp8(yuv::uyvy422_to_yuv420) },
    OpRow { name: "uyvy422_to_yuv422", f: F::YuyUnp8(yuv::uyvy422_to_yuv422) },
    OpRow { name: "uyvy422_to_yuv444", f: F::YuyUnp8(yuv::uyvy422_to_yuv444) },
    OpRow { name: "vyuy422_to_yuv420", f: F::YuyUnp8(yuv::vyuy422_to_yuv420) },
    OpRow { name: "vyuy422_to_yuv422", f: F::YuyUnp8(yuv::vyuy422_to_yuv422) },
    OpRow { name: "vyuy422_to_yuv444", f: F::YuyUnp8(yuv::vyuy422_to_yuv444) },
    OpRow { name: "yuyv422_to_yuv420", f: F::YuyUnp8(yuv::yuyv422_to_yuv420) },
    OpRow { name: "yuyv422_to_yuv422", f: F::YuyUnp8(yuv::yuyv422_to_yuv422) },
    OpRow { name: "yuyv422_to_yuv444", f: F::YuyUnp8(yuv::yuyv422_to_yuv444) },
    OpRow { name: "yvyu422_to_yuv420", f: F::YuyUnp8(yuv::yvyu422_to_yuv420) },
    OpRow { name: "yvyu422_to_yuv422", f: F::YuyUnp8(yuv::yvyu422_to_yuv422) },
    OpRow { name: "yvyu422_to_yuv444", f: F::YuyUnp8(yuv::yvyu422_to_yuv444) },
];

impl crate::fmt::Op {
    pub fn class_name(&self) -> &'static str {
        match self.f {
            F::ArToRgb8(_) => "ArToRgb8",
            F::AyuvDec(_) => "AyuvDec",
            F::BiDec16(_) => "BiDec16",
            F::BiDec16To8(_) => "BiDec16To8",
            F::BiDec8(_) => "BiDec8",
            F::BiDecAr(_) => "BiDecAr",
            F::BiEnc16(_) => "BiEnc16",
            F::BiEnc8(_) => "BiEnc8",
            F::F16From16(_) => "F16From16",
            F::F16From8(_) => "F16From8",
            F::F16To16(_) => "F16To16",
            F::F16To8(_) => "F16To8",
            F::GrayADec16(_) => "GrayADec16",
            F::GrayADec8(_) => "GrayADec8",
            F::GrayDec16(_) => "GrayDec16",
            F::GrayDec8(_) => "GrayDec8",
            F::GrayEnc8(_) => "GrayEnc8",
            F::Mir16(_) => "Mir16",
            F::Mir8(_) => "Mir8",
            F::PlADec16(_) => "PlADec16",
            F::PlADec16To8(_) => "PlADec16To8",
            F::PlADec8(_) => "PlADec8",
            F::PlADecF16(_) => "PlADecF16",
            F::PlARDec16(_) => "PlARDec16",
            F::PlARDec8(_) => "PlARDec8",
            F::PlARDecF16(_) => "PlARDecF16",
            F::PlDec16(_) => "PlDec16",
            F::PlDec16To8(_) => "PlDec16To8",
            F::PlDec8(_) => "PlDec8",
            F::PlDecAr(_) => "PlDecAr",
            F::PlDecF16(_) => "PlDecF16",
            F::PlEnc16(_) => "PlEnc16",
            F::PlEnc8(_) => "PlEnc8",
            F::PlRDec16(_) => "PlRDec16",
            F::PlRDec8(_) => "PlRDec8",
            F::PlRDecF16(_) => "PlRDecF16",
            F::PlREnc16(_) => "PlREnc16",
            F::PlREnc8(_) => "PlREnc8",
            F::RdpDec(_) => "RdpDec",
            F::RdpEnc(_) => "RdpEnc",
            F::Rgb16ToAr(_) => "Rgb16ToAr",
            F::Rgb8ToAr(_) => "Rgb8ToAr",
            F::Rot16(_) => "Rot16",
            F::Rot8(_) => "Rot8",
            F::SharpEnc8(_) => "SharpEnc8",
            F::Shuf(_) => "Shuf",
            F::YuyDec16(_) => "YuyDec16",
            F::YuyDec8(_) => "YuyDec8",
            F::YuyPack16(_) => "YuyPack16",
            F::YuyPack8(_) => "YuyPack8",
            F::YuyUnp16(_) => "YuyUnp16",
            F::YuyUnp8(_) => "YuyUnp8",
        }
    }
}
