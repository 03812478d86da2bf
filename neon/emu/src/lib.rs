// Generated by gen_emu.py. NEON intrinsics as plain Rust on arrays of lanes.
#![allow(non_camel_case_types, clippy::all)]
#![feature(f16)]
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

/// Which optional features the emulated processor has: 1 rdm, 2 i8mm, 4 fp16.
pub static FEATURES: AtomicU32 = AtomicU32::new(0);
pub fn has(f: &str) -> bool {
    let m = match f { "rdm" => 1, "i8mm" => 2, "fp16" => 4, "neon" => return true, _ => 0 };
    FEATURES.load(Relaxed) & m != 0
}
#[macro_export]
macro_rules! detected { ($f:tt) => { $crate::has($f) }; }

#[inline(always)]
fn map<T: Copy, R, const N: usize>(a: [T; N], f: impl Fn(T) -> R) -> [R; N] { std::array::from_fn(|i| f(a[i])) }
#[inline(always)]
fn map2<T: Copy, U: Copy, R, const N: usize>(a: [T; N], b: [U; N], f: impl Fn(T, U) -> R) -> [R; N] { std::array::from_fn(|i| f(a[i], b[i])) }
#[inline(always)]
fn map3<T: Copy, U: Copy, V: Copy, R, const N: usize>(a: [T; N], b: [U; N], c: [V; N], f: impl Fn(T, U, V) -> R) -> [R; N] { std::array::from_fn(|i| f(a[i], b[i], c[i])) }
#[inline(always)]
fn lo<T: Copy, const N: usize, const M: usize>(a: [T; N]) -> [T; M] { std::array::from_fn(|i| a[i]) }
#[inline(always)]
fn hi<T: Copy, const N: usize, const M: usize>(a: [T; N]) -> [T; M] { std::array::from_fn(|i| a[i + M]) }
#[inline(always)]
fn cat<T: Copy, const N: usize, const M: usize>(a: [T; N], b: [T; N]) -> [T; M] { std::array::from_fn(|i| if i < N { a[i] } else { b[i - N] }) }

#[derive(Copy, Clone, Debug)]
#[repr(C, align(8))]
pub struct uint8x8_t(pub [u8; 8]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint8x8x2_t(pub uint8x8_t, pub uint8x8_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint8x8x3_t(pub uint8x8_t, pub uint8x8_t, pub uint8x8_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint8x8x4_t(pub uint8x8_t, pub uint8x8_t, pub uint8x8_t, pub uint8x8_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(16))]
pub struct uint8x16_t(pub [u8; 16]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint8x16x2_t(pub uint8x16_t, pub uint8x16_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint8x16x3_t(pub uint8x16_t, pub uint8x16_t, pub uint8x16_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint8x16x4_t(pub uint8x16_t, pub uint8x16_t, pub uint8x16_t, pub uint8x16_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(8))]
pub struct int8x8_t(pub [i8; 8]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int8x8x2_t(pub int8x8_t, pub int8x8_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int8x8x3_t(pub int8x8_t, pub int8x8_t, pub int8x8_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int8x8x4_t(pub int8x8_t, pub int8x8_t, pub int8x8_t, pub int8x8_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(16))]
pub struct int8x16_t(pub [i8; 16]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int8x16x2_t(pub int8x16_t, pub int8x16_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int8x16x3_t(pub int8x16_t, pub int8x16_t, pub int8x16_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int8x16x4_t(pub int8x16_t, pub int8x16_t, pub int8x16_t, pub int8x16_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(8))]
pub struct uint16x4_t(pub [u16; 4]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint16x4x2_t(pub uint16x4_t, pub uint16x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint16x4x3_t(pub uint16x4_t, pub uint16x4_t, pub uint16x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint16x4x4_t(pub uint16x4_t, pub uint16x4_t, pub uint16x4_t, pub uint16x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(16))]
pub struct uint16x8_t(pub [u16; 8]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint16x8x2_t(pub uint16x8_t, pub uint16x8_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint16x8x3_t(pub uint16x8_t, pub uint16x8_t, pub uint16x8_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint16x8x4_t(pub uint16x8_t, pub uint16x8_t, pub uint16x8_t, pub uint16x8_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(8))]
pub struct int16x4_t(pub [i16; 4]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int16x4x2_t(pub int16x4_t, pub int16x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int16x4x3_t(pub int16x4_t, pub int16x4_t, pub int16x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int16x4x4_t(pub int16x4_t, pub int16x4_t, pub int16x4_t, pub int16x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(16))]
pub struct int16x8_t(pub [i16; 8]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int16x8x2_t(pub int16x8_t, pub int16x8_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int16x8x3_t(pub int16x8_t, pub int16x8_t, pub int16x8_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int16x8x4_t(pub int16x8_t, pub int16x8_t, pub int16x8_t, pub int16x8_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(8))]
pub struct uint32x2_t(pub [u32; 2]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint32x2x2_t(pub uint32x2_t, pub uint32x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint32x2x3_t(pub uint32x2_t, pub uint32x2_t, pub uint32x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint32x2x4_t(pub uint32x2_t, pub uint32x2_t, pub uint32x2_t, pub uint32x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(16))]
pub struct uint32x4_t(pub [u32; 4]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint32x4x2_t(pub uint32x4_t, pub uint32x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint32x4x3_t(pub uint32x4_t, pub uint32x4_t, pub uint32x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint32x4x4_t(pub uint32x4_t, pub uint32x4_t, pub uint32x4_t, pub uint32x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(8))]
pub struct int32x2_t(pub [i32; 2]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int32x2x2_t(pub int32x2_t, pub int32x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int32x2x3_t(pub int32x2_t, pub int32x2_t, pub int32x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int32x2x4_t(pub int32x2_t, pub int32x2_t, pub int32x2_t, pub int32x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(16))]
pub struct int32x4_t(pub [i32; 4]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int32x4x2_t(pub int32x4_t, pub int32x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int32x4x3_t(pub int32x4_t, pub int32x4_t, pub int32x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int32x4x4_t(pub int32x4_t, pub int32x4_t, pub int32x4_t, pub int32x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(8))]
pub struct uint64x1_t(pub [u64; 1]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint64x1x2_t(pub uint64x1_t, pub uint64x1_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint64x1x3_t(pub uint64x1_t, pub uint64x1_t, pub uint64x1_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint64x1x4_t(pub uint64x1_t, pub uint64x1_t, pub uint64x1_t, pub uint64x1_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(16))]
pub struct uint64x2_t(pub [u64; 2]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint64x2x2_t(pub uint64x2_t, pub uint64x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint64x2x3_t(pub uint64x2_t, pub uint64x2_t, pub uint64x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct uint64x2x4_t(pub uint64x2_t, pub uint64x2_t, pub uint64x2_t, pub uint64x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(8))]
pub struct int64x1_t(pub [i64; 1]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int64x1x2_t(pub int64x1_t, pub int64x1_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int64x1x3_t(pub int64x1_t, pub int64x1_t, pub int64x1_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int64x1x4_t(pub int64x1_t, pub int64x1_t, pub int64x1_t, pub int64x1_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(16))]
pub struct int64x2_t(pub [i64; 2]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int64x2x2_t(pub int64x2_t, pub int64x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int64x2x3_t(pub int64x2_t, pub int64x2_t, pub int64x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct int64x2x4_t(pub int64x2_t, pub int64x2_t, pub int64x2_t, pub int64x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(8))]
pub struct float32x2_t(pub [f32; 2]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct float32x2x2_t(pub float32x2_t, pub float32x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct float32x2x3_t(pub float32x2_t, pub float32x2_t, pub float32x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct float32x2x4_t(pub float32x2_t, pub float32x2_t, pub float32x2_t, pub float32x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(16))]
pub struct float32x4_t(pub [f32; 4]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct float32x4x2_t(pub float32x4_t, pub float32x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct float32x4x3_t(pub float32x4_t, pub float32x4_t, pub float32x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct float32x4x4_t(pub float32x4_t, pub float32x4_t, pub float32x4_t, pub float32x4_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(8))]
pub struct float64x1_t(pub [f64; 1]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct float64x1x2_t(pub float64x1_t, pub float64x1_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct float64x1x3_t(pub float64x1_t, pub float64x1_t, pub float64x1_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct float64x1x4_t(pub float64x1_t, pub float64x1_t, pub float64x1_t, pub float64x1_t);
#[derive(Copy, Clone, Debug)]
#[repr(C, align(16))]
pub struct float64x2_t(pub [f64; 2]);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct float64x2x2_t(pub float64x2_t, pub float64x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct float64x2x3_t(pub float64x2_t, pub float64x2_t, pub float64x2_t);
#[derive(Copy, Clone, Debug)]
#[repr(C)]
pub struct float64x2x4_t(pub float64x2_t, pub float64x2_t, pub float64x2_t, pub float64x2_t);
#[inline(always)]
pub unsafe fn vdup_n_u8(a: u8) -> uint8x8_t { uint8x8_t([a; 8]) }
#[inline(always)]
pub unsafe fn vmov_n_u8(a: u8) -> uint8x8_t { uint8x8_t([a; 8]) }
#[inline(always)]
pub unsafe fn vdup_lane_u8<const LANE: i32>(a: uint8x8_t) -> uint8x8_t { uint8x8_t([a.0[LANE as usize]; 8]) }
#[inline(always)]
pub unsafe fn vdup_laneq_u8<const LANE: i32>(a: uint8x16_t) -> uint8x8_t { uint8x8_t([a.0[LANE as usize]; 8]) }
#[inline(always)]
pub unsafe fn vget_lane_u8<const LANE: i32>(a: uint8x8_t) -> u8 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vset_lane_u8<const LANE: i32>(a: u8, mut b: uint8x8_t) -> uint8x8_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1_u8(p: *const u8) -> uint8x8_t { (p as *const uint8x8_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1_u8(p: *mut u8, a: uint8x8_t) { (p as *mut uint8x8_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1_dup_u8(p: *const u8) -> uint8x8_t { uint8x8_t([p.read_unaligned(); 8]) }
#[inline(always)]
pub unsafe fn vld1_lane_u8<const LANE: i32>(p: *const u8, mut b: uint8x8_t) -> uint8x8_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1_lane_u8<const LANE: i32>(p: *mut u8, a: uint8x8_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2_u8(p: *const u8) -> uint8x8x2_t { let d = (p as *const [u8; 16]).read_unaligned(); uint8x8x2_t(uint8x8_t(std::array::from_fn(|i| d[i * 2 + 0])), uint8x8_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2_u8(p: *mut u8, a: uint8x8x2_t) { let s = [a.0.0, a.1.0]; let d: [u8; 16] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [u8; 16]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_u8_x2(p: *const u8) -> uint8x8x2_t { uint8x8x2_t(vld1_u8(p.add(0)), vld1_u8(p.add(8))) }
#[inline(always)]
pub unsafe fn vst1_u8_x2(p: *mut u8, a: uint8x8x2_t) { vst1_u8(p.add(0), a.0); vst1_u8(p.add(8), a.1); }
#[inline(always)]
pub unsafe fn vld3_u8(p: *const u8) -> uint8x8x3_t { let d = (p as *const [u8; 24]).read_unaligned(); uint8x8x3_t(uint8x8_t(std::array::from_fn(|i| d[i * 3 + 0])), uint8x8_t(std::array::from_fn(|i| d[i * 3 + 1])), uint8x8_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3_u8(p: *mut u8, a: uint8x8x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [u8; 24] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [u8; 24]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_u8_x3(p: *const u8) -> uint8x8x3_t { uint8x8x3_t(vld1_u8(p.add(0)), vld1_u8(p.add(8)), vld1_u8(p.add(16))) }
#[inline(always)]
pub unsafe fn vst1_u8_x3(p: *mut u8, a: uint8x8x3_t) { vst1_u8(p.add(0), a.0); vst1_u8(p.add(8), a.1); vst1_u8(p.add(16), a.2); }
#[inline(always)]
pub unsafe fn vld4_u8(p: *const u8) -> uint8x8x4_t { let d = (p as *const [u8; 32]).read_unaligned(); uint8x8x4_t(uint8x8_t(std::array::from_fn(|i| d[i * 4 + 0])), uint8x8_t(std::array::from_fn(|i| d[i * 4 + 1])), uint8x8_t(std::array::from_fn(|i| d[i * 4 + 2])), uint8x8_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4_u8(p: *mut u8, a: uint8x8x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [u8; 32] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [u8; 32]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_u8_x4(p: *const u8) -> uint8x8x4_t { uint8x8x4_t(vld1_u8(p.add(0)), vld1_u8(p.add(8)), vld1_u8(p.add(16)), vld1_u8(p.add(24))) }
#[inline(always)]
pub unsafe fn vst1_u8_x4(p: *mut u8, a: uint8x8x4_t) { vst1_u8(p.add(0), a.0); vst1_u8(p.add(8), a.1); vst1_u8(p.add(16), a.2); vst1_u8(p.add(24), a.3); }
#[inline(always)]
pub unsafe fn vzip1_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[4 + i / 2] } else { b.0[4 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(std::array::from_fn(|i| if i < 4 { a.0[2 * i] } else { b.0[2 * i - 8] })) }
#[inline(always)]
pub unsafe fn vuzp2_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(std::array::from_fn(|i| if i < 4 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 8] })) }
#[inline(always)]
pub unsafe fn vtrn1_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzip_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8x2_t { uint8x8x2_t(vzip1_u8(a, b), vzip2_u8(a, b)) }
#[inline(always)]
pub unsafe fn vuzp_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8x2_t { uint8x8x2_t(vuzp1_u8(a, b), vuzp2_u8(a, b)) }
#[inline(always)]
pub unsafe fn vtrn_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8x2_t { uint8x8x2_t(vtrn1_u8(a, b), vtrn2_u8(a, b)) }
#[inline(always)]
pub unsafe fn vext_u8<const N: i32>(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(std::array::from_fn(|i| if i + (N as usize) < 8 { a.0[i + N as usize] } else { b.0[i + N as usize - 8] })) }
#[inline(always)]
pub unsafe fn vadd_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsub_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vmul_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| x.wrapping_mul(y))) }
#[inline(always)]
pub unsafe fn vmla_u8(a: uint8x8_t, b: uint8x8_t, c: uint8x8_t) -> uint8x8_t { uint8x8_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmls_u8(a: uint8x8_t, b: uint8x8_t, c: uint8x8_t) -> uint8x8_t { uint8x8_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmul_n_u8(a: uint8x8_t, b: u8) -> uint8x8_t { uint8x8_t(map(a.0, |x| x.wrapping_mul(b))) }
#[inline(always)]
pub unsafe fn vqadd_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsub_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vand_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorr_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veor_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvn_u8(a: uint8x8_t) -> uint8x8_t { uint8x8_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbsl_u8(m: uint8x8_t, a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u8) | (!m & y as u8)) as u8)) }
#[inline(always)]
pub unsafe fn vceq_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| if x == y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgt_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| if x > y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcge_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| if x >= y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vclt_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| if x < y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcle_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| if x <= y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshl_n_u8<const N: i32>(a: uint8x8_t) -> uint8x8_t { uint8x8_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshr_n_u8<const N: i32>(a: uint8x8_t) -> uint8x8_t { uint8x8_t(map(a.0, |x| ((x as i128) >> N) as u8)) }
#[inline(always)]
pub unsafe fn vrshr_n_u8<const N: i32>(a: uint8x8_t) -> uint8x8_t { uint8x8_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as u8)) }
#[inline(always)]
pub unsafe fn vsra_n_u8<const N: i32>(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64) >> N) as u8))) }
#[inline(always)]
pub unsafe fn vrsra_n_u8<const N: i32>(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64 + (1 << (N - 1))) >> N) as u8))) }
#[inline(always)]
pub unsafe fn vmin_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmax_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vabd_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| x.abs_diff(y) as u8)) }
#[inline(always)]
pub unsafe fn vhadd_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64) >> 1) as u8)) }
#[inline(always)]
pub unsafe fn vrhadd_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64 + 1) >> 1) as u8)) }
#[inline(always)]
pub unsafe fn vpaddl_u8(a: uint8x8_t) -> uint16x4_t { uint16x4_t(std::array::from_fn(|i| a.0[2 * i] as u16 + a.0[2 * i + 1] as u16)) }
#[inline(always)]
pub unsafe fn vpadal_u8(a: uint16x4_t, b: uint8x8_t) -> uint16x4_t { uint16x4_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[2 * i] as u16 + b.0[2 * i + 1] as u16))) }
#[inline(always)]
pub unsafe fn vpadd_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t { uint8x8_t(std::array::from_fn(|i| if i < 4 { a.0[2 * i].wrapping_add(a.0[2 * i + 1]) } else { b.0[2 * i - 8].wrapping_add(b.0[2 * i + 1 - 8]) })) }
#[inline(always)]
pub unsafe fn vrev16_u8(a: uint8x8_t) -> uint8x8_t { uint8x8_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2])) }
#[inline(always)]
pub unsafe fn vrev32_u8(a: uint8x8_t) -> uint8x8_t { uint8x8_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4])) }
#[inline(always)]
pub unsafe fn vrev64_u8(a: uint8x8_t) -> uint8x8_t { uint8x8_t(std::array::from_fn(|i| a.0[i / 8 * 8 + 7 - i % 8])) }
#[inline(always)]
pub unsafe fn vreinterpret_s8_u8(a: uint8x8_t) -> int8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u16_u8(a: uint8x8_t) -> uint16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s16_u8(a: uint8x8_t) -> int16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u32_u8(a: uint8x8_t) -> uint32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s32_u8(a: uint8x8_t) -> int32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u64_u8(a: uint8x8_t) -> uint64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s64_u8(a: uint8x8_t) -> int64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_f32_u8(a: uint8x8_t) -> float32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vdupq_n_u8(a: u8) -> uint8x16_t { uint8x16_t([a; 16]) }
#[inline(always)]
pub unsafe fn vmovq_n_u8(a: u8) -> uint8x16_t { uint8x16_t([a; 16]) }
#[inline(always)]
pub unsafe fn vdupq_lane_u8<const LANE: i32>(a: uint8x8_t) -> uint8x16_t { uint8x16_t([a.0[LANE as usize]; 16]) }
#[inline(always)]
pub unsafe fn vdupq_laneq_u8<const LANE: i32>(a: uint8x16_t) -> uint8x16_t { uint8x16_t([a.0[LANE as usize]; 16]) }
#[inline(always)]
pub unsafe fn vgetq_lane_u8<const LANE: i32>(a: uint8x16_t) -> u8 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vsetq_lane_u8<const LANE: i32>(a: u8, mut b: uint8x16_t) -> uint8x16_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1q_u8(p: *const u8) -> uint8x16_t { (p as *const uint8x16_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1q_u8(p: *mut u8, a: uint8x16_t) { (p as *mut uint8x16_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1q_dup_u8(p: *const u8) -> uint8x16_t { uint8x16_t([p.read_unaligned(); 16]) }
#[inline(always)]
pub unsafe fn vld1q_lane_u8<const LANE: i32>(p: *const u8, mut b: uint8x16_t) -> uint8x16_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1q_lane_u8<const LANE: i32>(p: *mut u8, a: uint8x16_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2q_u8(p: *const u8) -> uint8x16x2_t { let d = (p as *const [u8; 32]).read_unaligned(); uint8x16x2_t(uint8x16_t(std::array::from_fn(|i| d[i * 2 + 0])), uint8x16_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2q_u8(p: *mut u8, a: uint8x16x2_t) { let s = [a.0.0, a.1.0]; let d: [u8; 32] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [u8; 32]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_u8_x2(p: *const u8) -> uint8x16x2_t { uint8x16x2_t(vld1q_u8(p.add(0)), vld1q_u8(p.add(16))) }
#[inline(always)]
pub unsafe fn vst1q_u8_x2(p: *mut u8, a: uint8x16x2_t) { vst1q_u8(p.add(0), a.0); vst1q_u8(p.add(16), a.1); }
#[inline(always)]
pub unsafe fn vld3q_u8(p: *const u8) -> uint8x16x3_t { let d = (p as *const [u8; 48]).read_unaligned(); uint8x16x3_t(uint8x16_t(std::array::from_fn(|i| d[i * 3 + 0])), uint8x16_t(std::array::from_fn(|i| d[i * 3 + 1])), uint8x16_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3q_u8(p: *mut u8, a: uint8x16x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [u8; 48] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [u8; 48]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_u8_x3(p: *const u8) -> uint8x16x3_t { uint8x16x3_t(vld1q_u8(p.add(0)), vld1q_u8(p.add(16)), vld1q_u8(p.add(32))) }
#[inline(always)]
pub unsafe fn vst1q_u8_x3(p: *mut u8, a: uint8x16x3_t) { vst1q_u8(p.add(0), a.0); vst1q_u8(p.add(16), a.1); vst1q_u8(p.add(32), a.2); }
#[inline(always)]
pub unsafe fn vld4q_u8(p: *const u8) -> uint8x16x4_t { let d = (p as *const [u8; 64]).read_unaligned(); uint8x16x4_t(uint8x16_t(std::array::from_fn(|i| d[i * 4 + 0])), uint8x16_t(std::array::from_fn(|i| d[i * 4 + 1])), uint8x16_t(std::array::from_fn(|i| d[i * 4 + 2])), uint8x16_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4q_u8(p: *mut u8, a: uint8x16x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [u8; 64] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [u8; 64]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_u8_x4(p: *const u8) -> uint8x16x4_t { uint8x16x4_t(vld1q_u8(p.add(0)), vld1q_u8(p.add(16)), vld1q_u8(p.add(32)), vld1q_u8(p.add(48))) }
#[inline(always)]
pub unsafe fn vst1q_u8_x4(p: *mut u8, a: uint8x16x4_t) { vst1q_u8(p.add(0), a.0); vst1q_u8(p.add(16), a.1); vst1q_u8(p.add(32), a.2); vst1q_u8(p.add(48), a.3); }
#[inline(always)]
pub unsafe fn vzip1q_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2q_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[8 + i / 2] } else { b.0[8 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1q_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(std::array::from_fn(|i| if i < 8 { a.0[2 * i] } else { b.0[2 * i - 16] })) }
#[inline(always)]
pub unsafe fn vuzp2q_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(std::array::from_fn(|i| if i < 8 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 16] })) }
#[inline(always)]
pub unsafe fn vtrn1q_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2q_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzipq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16x2_t { uint8x16x2_t(vzip1q_u8(a, b), vzip2q_u8(a, b)) }
#[inline(always)]
pub unsafe fn vuzpq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16x2_t { uint8x16x2_t(vuzp1q_u8(a, b), vuzp2q_u8(a, b)) }
#[inline(always)]
pub unsafe fn vtrnq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16x2_t { uint8x16x2_t(vtrn1q_u8(a, b), vtrn2q_u8(a, b)) }
#[inline(always)]
pub unsafe fn vextq_u8<const N: i32>(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(std::array::from_fn(|i| if i + (N as usize) < 16 { a.0[i + N as usize] } else { b.0[i + N as usize - 16] })) }
#[inline(always)]
pub unsafe fn vaddq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsubq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vmulq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| x.wrapping_mul(y))) }
#[inline(always)]
pub unsafe fn vmlaq_u8(a: uint8x16_t, b: uint8x16_t, c: uint8x16_t) -> uint8x16_t { uint8x16_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmlsq_u8(a: uint8x16_t, b: uint8x16_t, c: uint8x16_t) -> uint8x16_t { uint8x16_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmulq_n_u8(a: uint8x16_t, b: u8) -> uint8x16_t { uint8x16_t(map(a.0, |x| x.wrapping_mul(b))) }
#[inline(always)]
pub unsafe fn vqaddq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsubq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vandq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorrq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veorq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvnq_u8(a: uint8x16_t) -> uint8x16_t { uint8x16_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbslq_u8(m: uint8x16_t, a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u8) | (!m & y as u8)) as u8)) }
#[inline(always)]
pub unsafe fn vceqq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| if x == y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgtq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| if x > y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgeq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| if x >= y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcltq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| if x < y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcleq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| if x <= y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshlq_n_u8<const N: i32>(a: uint8x16_t) -> uint8x16_t { uint8x16_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshrq_n_u8<const N: i32>(a: uint8x16_t) -> uint8x16_t { uint8x16_t(map(a.0, |x| ((x as i128) >> N) as u8)) }
#[inline(always)]
pub unsafe fn vrshrq_n_u8<const N: i32>(a: uint8x16_t) -> uint8x16_t { uint8x16_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as u8)) }
#[inline(always)]
pub unsafe fn vsraq_n_u8<const N: i32>(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64) >> N) as u8))) }
#[inline(always)]
pub unsafe fn vrsraq_n_u8<const N: i32>(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64 + (1 << (N - 1))) >> N) as u8))) }
#[inline(always)]
pub unsafe fn vminq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmaxq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vabdq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| x.abs_diff(y) as u8)) }
#[inline(always)]
pub unsafe fn vhaddq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64) >> 1) as u8)) }
#[inline(always)]
pub unsafe fn vrhaddq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64 + 1) >> 1) as u8)) }
#[inline(always)]
pub unsafe fn vpaddlq_u8(a: uint8x16_t) -> uint16x8_t { uint16x8_t(std::array::from_fn(|i| a.0[2 * i] as u16 + a.0[2 * i + 1] as u16)) }
#[inline(always)]
pub unsafe fn vpadalq_u8(a: uint16x8_t, b: uint8x16_t) -> uint16x8_t { uint16x8_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[2 * i] as u16 + b.0[2 * i + 1] as u16))) }
#[inline(always)]
pub unsafe fn vpaddq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t { uint8x16_t(std::array::from_fn(|i| if i < 8 { a.0[2 * i].wrapping_add(a.0[2 * i + 1]) } else { b.0[2 * i - 16].wrapping_add(b.0[2 * i + 1 - 16]) })) }
#[inline(always)]
pub unsafe fn vrev16q_u8(a: uint8x16_t) -> uint8x16_t { uint8x16_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2])) }
#[inline(always)]
pub unsafe fn vrev32q_u8(a: uint8x16_t) -> uint8x16_t { uint8x16_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4])) }
#[inline(always)]
pub unsafe fn vrev64q_u8(a: uint8x16_t) -> uint8x16_t { uint8x16_t(std::array::from_fn(|i| a.0[i / 8 * 8 + 7 - i % 8])) }
#[inline(always)]
pub unsafe fn vreinterpretq_s8_u8(a: uint8x16_t) -> int8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u16_u8(a: uint8x16_t) -> uint16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s16_u8(a: uint8x16_t) -> int16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u32_u8(a: uint8x16_t) -> uint32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s32_u8(a: uint8x16_t) -> int32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u64_u8(a: uint8x16_t) -> uint64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s64_u8(a: uint8x16_t) -> int64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_f32_u8(a: uint8x16_t) -> float32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vget_low_u8(a: uint8x16_t) -> uint8x8_t { uint8x8_t(lo(a.0)) }
#[inline(always)]
pub unsafe fn vget_high_u8(a: uint8x16_t) -> uint8x8_t { uint8x8_t(hi(a.0)) }
#[inline(always)]
pub unsafe fn vcombine_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x16_t { uint8x16_t(cat(a.0, b.0)) }
#[inline(always)]
pub unsafe fn vdup_n_s8(a: i8) -> int8x8_t { int8x8_t([a; 8]) }
#[inline(always)]
pub unsafe fn vmov_n_s8(a: i8) -> int8x8_t { int8x8_t([a; 8]) }
#[inline(always)]
pub unsafe fn vdup_lane_s8<const LANE: i32>(a: int8x8_t) -> int8x8_t { int8x8_t([a.0[LANE as usize]; 8]) }
#[inline(always)]
pub unsafe fn vdup_laneq_s8<const LANE: i32>(a: int8x16_t) -> int8x8_t { int8x8_t([a.0[LANE as usize]; 8]) }
#[inline(always)]
pub unsafe fn vget_lane_s8<const LANE: i32>(a: int8x8_t) -> i8 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vset_lane_s8<const LANE: i32>(a: i8, mut b: int8x8_t) -> int8x8_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1_s8(p: *const i8) -> int8x8_t { (p as *const int8x8_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1_s8(p: *mut i8, a: int8x8_t) { (p as *mut int8x8_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1_dup_s8(p: *const i8) -> int8x8_t { int8x8_t([p.read_unaligned(); 8]) }
#[inline(always)]
pub unsafe fn vld1_lane_s8<const LANE: i32>(p: *const i8, mut b: int8x8_t) -> int8x8_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1_lane_s8<const LANE: i32>(p: *mut i8, a: int8x8_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2_s8(p: *const i8) -> int8x8x2_t { let d = (p as *const [i8; 16]).read_unaligned(); int8x8x2_t(int8x8_t(std::array::from_fn(|i| d[i * 2 + 0])), int8x8_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2_s8(p: *mut i8, a: int8x8x2_t) { let s = [a.0.0, a.1.0]; let d: [i8; 16] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [i8; 16]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_s8_x2(p: *const i8) -> int8x8x2_t { int8x8x2_t(vld1_s8(p.add(0)), vld1_s8(p.add(8))) }
#[inline(always)]
pub unsafe fn vst1_s8_x2(p: *mut i8, a: int8x8x2_t) { vst1_s8(p.add(0), a.0); vst1_s8(p.add(8), a.1); }
#[inline(always)]
pub unsafe fn vld3_s8(p: *const i8) -> int8x8x3_t { let d = (p as *const [i8; 24]).read_unaligned(); int8x8x3_t(int8x8_t(std::array::from_fn(|i| d[i * 3 + 0])), int8x8_t(std::array::from_fn(|i| d[i * 3 + 1])), int8x8_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3_s8(p: *mut i8, a: int8x8x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [i8; 24] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [i8; 24]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_s8_x3(p: *const i8) -> int8x8x3_t { int8x8x3_t(vld1_s8(p.add(0)), vld1_s8(p.add(8)), vld1_s8(p.add(16))) }
#[inline(always)]
pub unsafe fn vst1_s8_x3(p: *mut i8, a: int8x8x3_t) { vst1_s8(p.add(0), a.0); vst1_s8(p.add(8), a.1); vst1_s8(p.add(16), a.2); }
#[inline(always)]
pub unsafe fn vld4_s8(p: *const i8) -> int8x8x4_t { let d = (p as *const [i8; 32]).read_unaligned(); int8x8x4_t(int8x8_t(std::array::from_fn(|i| d[i * 4 + 0])), int8x8_t(std::array::from_fn(|i| d[i * 4 + 1])), int8x8_t(std::array::from_fn(|i| d[i * 4 + 2])), int8x8_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4_s8(p: *mut i8, a: int8x8x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [i8; 32] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [i8; 32]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_s8_x4(p: *const i8) -> int8x8x4_t { int8x8x4_t(vld1_s8(p.add(0)), vld1_s8(p.add(8)), vld1_s8(p.add(16)), vld1_s8(p.add(24))) }
#[inline(always)]
pub unsafe fn vst1_s8_x4(p: *mut i8, a: int8x8x4_t) { vst1_s8(p.add(0), a.0); vst1_s8(p.add(8), a.1); vst1_s8(p.add(16), a.2); vst1_s8(p.add(24), a.3); }
#[inline(always)]
pub unsafe fn vzip1_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[4 + i / 2] } else { b.0[4 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(std::array::from_fn(|i| if i < 4 { a.0[2 * i] } else { b.0[2 * i - 8] })) }
#[inline(always)]
pub unsafe fn vuzp2_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(std::array::from_fn(|i| if i < 4 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 8] })) }
#[inline(always)]
pub unsafe fn vtrn1_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzip_s8(a: int8x8_t, b: int8x8_t) -> int8x8x2_t { int8x8x2_t(vzip1_s8(a, b), vzip2_s8(a, b)) }
#[inline(always)]
pub unsafe fn vuzp_s8(a: int8x8_t, b: int8x8_t) -> int8x8x2_t { int8x8x2_t(vuzp1_s8(a, b), vuzp2_s8(a, b)) }
#[inline(always)]
pub unsafe fn vtrn_s8(a: int8x8_t, b: int8x8_t) -> int8x8x2_t { int8x8x2_t(vtrn1_s8(a, b), vtrn2_s8(a, b)) }
#[inline(always)]
pub unsafe fn vext_s8<const N: i32>(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(std::array::from_fn(|i| if i + (N as usize) < 8 { a.0[i + N as usize] } else { b.0[i + N as usize - 8] })) }
#[inline(always)]
pub unsafe fn vadd_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsub_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vmul_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| x.wrapping_mul(y))) }
#[inline(always)]
pub unsafe fn vmla_s8(a: int8x8_t, b: int8x8_t, c: int8x8_t) -> int8x8_t { int8x8_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmls_s8(a: int8x8_t, b: int8x8_t, c: int8x8_t) -> int8x8_t { int8x8_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmul_n_s8(a: int8x8_t, b: i8) -> int8x8_t { int8x8_t(map(a.0, |x| x.wrapping_mul(b))) }
#[inline(always)]
pub unsafe fn vqadd_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsub_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vand_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorr_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veor_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvn_s8(a: int8x8_t) -> int8x8_t { int8x8_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbsl_s8(m: uint8x8_t, a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u8) | (!m & y as u8)) as i8)) }
#[inline(always)]
pub unsafe fn vceq_s8(a: int8x8_t, b: int8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| if x == y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgt_s8(a: int8x8_t, b: int8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| if x > y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcge_s8(a: int8x8_t, b: int8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| if x >= y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vclt_s8(a: int8x8_t, b: int8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| if x < y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcle_s8(a: int8x8_t, b: int8x8_t) -> uint8x8_t { uint8x8_t(map2(a.0, b.0, |x, y| if x <= y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshl_n_s8<const N: i32>(a: int8x8_t) -> int8x8_t { int8x8_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshr_n_s8<const N: i32>(a: int8x8_t) -> int8x8_t { int8x8_t(map(a.0, |x| ((x as i128) >> N) as i8)) }
#[inline(always)]
pub unsafe fn vrshr_n_s8<const N: i32>(a: int8x8_t) -> int8x8_t { int8x8_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as i8)) }
#[inline(always)]
pub unsafe fn vsra_n_s8<const N: i32>(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64) >> N) as i8))) }
#[inline(always)]
pub unsafe fn vrsra_n_s8<const N: i32>(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64 + (1 << (N - 1))) >> N) as i8))) }
#[inline(always)]
pub unsafe fn vmin_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmax_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vabd_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| x.abs_diff(y) as i8)) }
#[inline(always)]
pub unsafe fn vhadd_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64) >> 1) as i8)) }
#[inline(always)]
pub unsafe fn vrhadd_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64 + 1) >> 1) as i8)) }
#[inline(always)]
pub unsafe fn vpaddl_s8(a: int8x8_t) -> int16x4_t { int16x4_t(std::array::from_fn(|i| a.0[2 * i] as i16 + a.0[2 * i + 1] as i16)) }
#[inline(always)]
pub unsafe fn vpadal_s8(a: int16x4_t, b: int8x8_t) -> int16x4_t { int16x4_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[2 * i] as i16 + b.0[2 * i + 1] as i16))) }
#[inline(always)]
pub unsafe fn vpadd_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t { int8x8_t(std::array::from_fn(|i| if i < 4 { a.0[2 * i].wrapping_add(a.0[2 * i + 1]) } else { b.0[2 * i - 8].wrapping_add(b.0[2 * i + 1 - 8]) })) }
#[inline(always)]
pub unsafe fn vrev16_s8(a: int8x8_t) -> int8x8_t { int8x8_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2])) }
#[inline(always)]
pub unsafe fn vrev32_s8(a: int8x8_t) -> int8x8_t { int8x8_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4])) }
#[inline(always)]
pub unsafe fn vrev64_s8(a: int8x8_t) -> int8x8_t { int8x8_t(std::array::from_fn(|i| a.0[i / 8 * 8 + 7 - i % 8])) }
#[inline(always)]
pub unsafe fn vreinterpret_u8_s8(a: int8x8_t) -> uint8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u16_s8(a: int8x8_t) -> uint16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s16_s8(a: int8x8_t) -> int16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u32_s8(a: int8x8_t) -> uint32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s32_s8(a: int8x8_t) -> int32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u64_s8(a: int8x8_t) -> uint64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s64_s8(a: int8x8_t) -> int64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_f32_s8(a: int8x8_t) -> float32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vdupq_n_s8(a: i8) -> int8x16_t { int8x16_t([a; 16]) }
#[inline(always)]
pub unsafe fn vmovq_n_s8(a: i8) -> int8x16_t { int8x16_t([a; 16]) }
#[inline(always)]
pub unsafe fn vdupq_lane_s8<const LANE: i32>(a: int8x8_t) -> int8x16_t { int8x16_t([a.0[LANE as usize]; 16]) }
#[inline(always)]
pub unsafe fn vdupq_laneq_s8<const LANE: i32>(a: int8x16_t) -> int8x16_t { int8x16_t([a.0[LANE as usize]; 16]) }
#[inline(always)]
pub unsafe fn vgetq_lane_s8<const LANE: i32>(a: int8x16_t) -> i8 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vsetq_lane_s8<const LANE: i32>(a: i8, mut b: int8x16_t) -> int8x16_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1q_s8(p: *const i8) -> int8x16_t { (p as *const int8x16_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1q_s8(p: *mut i8, a: int8x16_t) { (p as *mut int8x16_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1q_dup_s8(p: *const i8) -> int8x16_t { int8x16_t([p.read_unaligned(); 16]) }
#[inline(always)]
pub unsafe fn vld1q_lane_s8<const LANE: i32>(p: *const i8, mut b: int8x16_t) -> int8x16_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1q_lane_s8<const LANE: i32>(p: *mut i8, a: int8x16_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2q_s8(p: *const i8) -> int8x16x2_t { let d = (p as *const [i8; 32]).read_unaligned(); int8x16x2_t(int8x16_t(std::array::from_fn(|i| d[i * 2 + 0])), int8x16_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2q_s8(p: *mut i8, a: int8x16x2_t) { let s = [a.0.0, a.1.0]; let d: [i8; 32] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [i8; 32]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_s8_x2(p: *const i8) -> int8x16x2_t { int8x16x2_t(vld1q_s8(p.add(0)), vld1q_s8(p.add(16))) }
#[inline(always)]
pub unsafe fn vst1q_s8_x2(p: *mut i8, a: int8x16x2_t) { vst1q_s8(p.add(0), a.0); vst1q_s8(p.add(16), a.1); }
#[inline(always)]
pub unsafe fn vld3q_s8(p: *const i8) -> int8x16x3_t { let d = (p as *const [i8; 48]).read_unaligned(); int8x16x3_t(int8x16_t(std::array::from_fn(|i| d[i * 3 + 0])), int8x16_t(std::array::from_fn(|i| d[i * 3 + 1])), int8x16_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3q_s8(p: *mut i8, a: int8x16x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [i8; 48] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [i8; 48]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_s8_x3(p: *const i8) -> int8x16x3_t { int8x16x3_t(vld1q_s8(p.add(0)), vld1q_s8(p.add(16)), vld1q_s8(p.add(32))) }
#[inline(always)]
pub unsafe fn vst1q_s8_x3(p: *mut i8, a: int8x16x3_t) { vst1q_s8(p.add(0), a.0); vst1q_s8(p.add(16), a.1); vst1q_s8(p.add(32), a.2); }
#[inline(always)]
pub unsafe fn vld4q_s8(p: *const i8) -> int8x16x4_t { let d = (p as *const [i8; 64]).read_unaligned(); int8x16x4_t(int8x16_t(std::array::from_fn(|i| d[i * 4 + 0])), int8x16_t(std::array::from_fn(|i| d[i * 4 + 1])), int8x16_t(std::array::from_fn(|i| d[i * 4 + 2])), int8x16_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4q_s8(p: *mut i8, a: int8x16x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [i8; 64] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [i8; 64]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_s8_x4(p: *const i8) -> int8x16x4_t { int8x16x4_t(vld1q_s8(p.add(0)), vld1q_s8(p.add(16)), vld1q_s8(p.add(32)), vld1q_s8(p.add(48))) }
#[inline(always)]
pub unsafe fn vst1q_s8_x4(p: *mut i8, a: int8x16x4_t) { vst1q_s8(p.add(0), a.0); vst1q_s8(p.add(16), a.1); vst1q_s8(p.add(32), a.2); vst1q_s8(p.add(48), a.3); }
#[inline(always)]
pub unsafe fn vzip1q_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2q_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[8 + i / 2] } else { b.0[8 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1q_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(std::array::from_fn(|i| if i < 8 { a.0[2 * i] } else { b.0[2 * i - 16] })) }
#[inline(always)]
pub unsafe fn vuzp2q_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(std::array::from_fn(|i| if i < 8 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 16] })) }
#[inline(always)]
pub unsafe fn vtrn1q_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2q_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzipq_s8(a: int8x16_t, b: int8x16_t) -> int8x16x2_t { int8x16x2_t(vzip1q_s8(a, b), vzip2q_s8(a, b)) }
#[inline(always)]
pub unsafe fn vuzpq_s8(a: int8x16_t, b: int8x16_t) -> int8x16x2_t { int8x16x2_t(vuzp1q_s8(a, b), vuzp2q_s8(a, b)) }
#[inline(always)]
pub unsafe fn vtrnq_s8(a: int8x16_t, b: int8x16_t) -> int8x16x2_t { int8x16x2_t(vtrn1q_s8(a, b), vtrn2q_s8(a, b)) }
#[inline(always)]
pub unsafe fn vextq_s8<const N: i32>(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(std::array::from_fn(|i| if i + (N as usize) < 16 { a.0[i + N as usize] } else { b.0[i + N as usize - 16] })) }
#[inline(always)]
pub unsafe fn vaddq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsubq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vmulq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| x.wrapping_mul(y))) }
#[inline(always)]
pub unsafe fn vmlaq_s8(a: int8x16_t, b: int8x16_t, c: int8x16_t) -> int8x16_t { int8x16_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmlsq_s8(a: int8x16_t, b: int8x16_t, c: int8x16_t) -> int8x16_t { int8x16_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmulq_n_s8(a: int8x16_t, b: i8) -> int8x16_t { int8x16_t(map(a.0, |x| x.wrapping_mul(b))) }
#[inline(always)]
pub unsafe fn vqaddq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsubq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vandq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorrq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veorq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvnq_s8(a: int8x16_t) -> int8x16_t { int8x16_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbslq_s8(m: uint8x16_t, a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u8) | (!m & y as u8)) as i8)) }
#[inline(always)]
pub unsafe fn vceqq_s8(a: int8x16_t, b: int8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| if x == y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgtq_s8(a: int8x16_t, b: int8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| if x > y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgeq_s8(a: int8x16_t, b: int8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| if x >= y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcltq_s8(a: int8x16_t, b: int8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| if x < y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcleq_s8(a: int8x16_t, b: int8x16_t) -> uint8x16_t { uint8x16_t(map2(a.0, b.0, |x, y| if x <= y { u8::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshlq_n_s8<const N: i32>(a: int8x16_t) -> int8x16_t { int8x16_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshrq_n_s8<const N: i32>(a: int8x16_t) -> int8x16_t { int8x16_t(map(a.0, |x| ((x as i128) >> N) as i8)) }
#[inline(always)]
pub unsafe fn vrshrq_n_s8<const N: i32>(a: int8x16_t) -> int8x16_t { int8x16_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as i8)) }
#[inline(always)]
pub unsafe fn vsraq_n_s8<const N: i32>(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64) >> N) as i8))) }
#[inline(always)]
pub unsafe fn vrsraq_n_s8<const N: i32>(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64 + (1 << (N - 1))) >> N) as i8))) }
#[inline(always)]
pub unsafe fn vminq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmaxq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vabdq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| x.abs_diff(y) as i8)) }
#[inline(always)]
pub unsafe fn vhaddq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64) >> 1) as i8)) }
#[inline(always)]
pub unsafe fn vrhaddq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64 + 1) >> 1) as i8)) }
#[inline(always)]
pub unsafe fn vpaddlq_s8(a: int8x16_t) -> int16x8_t { int16x8_t(std::array::from_fn(|i| a.0[2 * i] as i16 + a.0[2 * i + 1] as i16)) }
#[inline(always)]
pub unsafe fn vpadalq_s8(a: int16x8_t, b: int8x16_t) -> int16x8_t { int16x8_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[2 * i] as i16 + b.0[2 * i + 1] as i16))) }
#[inline(always)]
pub unsafe fn vpaddq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t { int8x16_t(std::array::from_fn(|i| if i < 8 { a.0[2 * i].wrapping_add(a.0[2 * i + 1]) } else { b.0[2 * i - 16].wrapping_add(b.0[2 * i + 1 - 16]) })) }
#[inline(always)]
pub unsafe fn vrev16q_s8(a: int8x16_t) -> int8x16_t { int8x16_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2])) }
#[inline(always)]
pub unsafe fn vrev32q_s8(a: int8x16_t) -> int8x16_t { int8x16_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4])) }
#[inline(always)]
pub unsafe fn vrev64q_s8(a: int8x16_t) -> int8x16_t { int8x16_t(std::array::from_fn(|i| a.0[i / 8 * 8 + 7 - i % 8])) }
#[inline(always)]
pub unsafe fn vreinterpretq_u8_s8(a: int8x16_t) -> uint8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u16_s8(a: int8x16_t) -> uint16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s16_s8(a: int8x16_t) -> int16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u32_s8(a: int8x16_t) -> uint32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s32_s8(a: int8x16_t) -> int32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u64_s8(a: int8x16_t) -> uint64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s64_s8(a: int8x16_t) -> int64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_f32_s8(a: int8x16_t) -> float32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vget_low_s8(a: int8x16_t) -> int8x8_t { int8x8_t(lo(a.0)) }
#[inline(always)]
pub unsafe fn vget_high_s8(a: int8x16_t) -> int8x8_t { int8x8_t(hi(a.0)) }
#[inline(always)]
pub unsafe fn vcombine_s8(a: int8x8_t, b: int8x8_t) -> int8x16_t { int8x16_t(cat(a.0, b.0)) }
#[inline(always)]
pub unsafe fn vdup_n_u16(a: u16) -> uint16x4_t { uint16x4_t([a; 4]) }
#[inline(always)]
pub unsafe fn vmov_n_u16(a: u16) -> uint16x4_t { uint16x4_t([a; 4]) }
#[inline(always)]
pub unsafe fn vdup_lane_u16<const LANE: i32>(a: uint16x4_t) -> uint16x4_t { uint16x4_t([a.0[LANE as usize]; 4]) }
#[inline(always)]
pub unsafe fn vdup_laneq_u16<const LANE: i32>(a: uint16x8_t) -> uint16x4_t { uint16x4_t([a.0[LANE as usize]; 4]) }
#[inline(always)]
pub unsafe fn vget_lane_u16<const LANE: i32>(a: uint16x4_t) -> u16 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vset_lane_u16<const LANE: i32>(a: u16, mut b: uint16x4_t) -> uint16x4_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1_u16(p: *const u16) -> uint16x4_t { (p as *const uint16x4_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1_u16(p: *mut u16, a: uint16x4_t) { (p as *mut uint16x4_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1_dup_u16(p: *const u16) -> uint16x4_t { uint16x4_t([p.read_unaligned(); 4]) }
#[inline(always)]
pub unsafe fn vld1_lane_u16<const LANE: i32>(p: *const u16, mut b: uint16x4_t) -> uint16x4_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1_lane_u16<const LANE: i32>(p: *mut u16, a: uint16x4_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2_u16(p: *const u16) -> uint16x4x2_t { let d = (p as *const [u16; 8]).read_unaligned(); uint16x4x2_t(uint16x4_t(std::array::from_fn(|i| d[i * 2 + 0])), uint16x4_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2_u16(p: *mut u16, a: uint16x4x2_t) { let s = [a.0.0, a.1.0]; let d: [u16; 8] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [u16; 8]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_u16_x2(p: *const u16) -> uint16x4x2_t { uint16x4x2_t(vld1_u16(p.add(0)), vld1_u16(p.add(4))) }
#[inline(always)]
pub unsafe fn vst1_u16_x2(p: *mut u16, a: uint16x4x2_t) { vst1_u16(p.add(0), a.0); vst1_u16(p.add(4), a.1); }
#[inline(always)]
pub unsafe fn vld3_u16(p: *const u16) -> uint16x4x3_t { let d = (p as *const [u16; 12]).read_unaligned(); uint16x4x3_t(uint16x4_t(std::array::from_fn(|i| d[i * 3 + 0])), uint16x4_t(std::array::from_fn(|i| d[i * 3 + 1])), uint16x4_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3_u16(p: *mut u16, a: uint16x4x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [u16; 12] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [u16; 12]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_u16_x3(p: *const u16) -> uint16x4x3_t { uint16x4x3_t(vld1_u16(p.add(0)), vld1_u16(p.add(4)), vld1_u16(p.add(8))) }
#[inline(always)]
pub unsafe fn vst1_u16_x3(p: *mut u16, a: uint16x4x3_t) { vst1_u16(p.add(0), a.0); vst1_u16(p.add(4), a.1); vst1_u16(p.add(8), a.2); }
#[inline(always)]
pub unsafe fn vld4_u16(p: *const u16) -> uint16x4x4_t { let d = (p as *const [u16; 16]).read_unaligned(); uint16x4x4_t(uint16x4_t(std::array::from_fn(|i| d[i * 4 + 0])), uint16x4_t(std::array::from_fn(|i| d[i * 4 + 1])), uint16x4_t(std::array::from_fn(|i| d[i * 4 + 2])), uint16x4_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4_u16(p: *mut u16, a: uint16x4x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [u16; 16] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [u16; 16]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_u16_x4(p: *const u16) -> uint16x4x4_t { uint16x4x4_t(vld1_u16(p.add(0)), vld1_u16(p.add(4)), vld1_u16(p.add(8)), vld1_u16(p.add(12))) }
#[inline(always)]
pub unsafe fn vst1_u16_x4(p: *mut u16, a: uint16x4x4_t) { vst1_u16(p.add(0), a.0); vst1_u16(p.add(4), a.1); vst1_u16(p.add(8), a.2); vst1_u16(p.add(12), a.3); }
#[inline(always)]
pub unsafe fn vzip1_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[2 + i / 2] } else { b.0[2 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i] } else { b.0[2 * i - 4] })) }
#[inline(always)]
pub unsafe fn vuzp2_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 4] })) }
#[inline(always)]
pub unsafe fn vtrn1_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzip_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4x2_t { uint16x4x2_t(vzip1_u16(a, b), vzip2_u16(a, b)) }
#[inline(always)]
pub unsafe fn vuzp_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4x2_t { uint16x4x2_t(vuzp1_u16(a, b), vuzp2_u16(a, b)) }
#[inline(always)]
pub unsafe fn vtrn_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4x2_t { uint16x4x2_t(vtrn1_u16(a, b), vtrn2_u16(a, b)) }
#[inline(always)]
pub unsafe fn vext_u16<const N: i32>(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(std::array::from_fn(|i| if i + (N as usize) < 4 { a.0[i + N as usize] } else { b.0[i + N as usize - 4] })) }
#[inline(always)]
pub unsafe fn vadd_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsub_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vmul_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| x.wrapping_mul(y))) }
#[inline(always)]
pub unsafe fn vmla_u16(a: uint16x4_t, b: uint16x4_t, c: uint16x4_t) -> uint16x4_t { uint16x4_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmls_u16(a: uint16x4_t, b: uint16x4_t, c: uint16x4_t) -> uint16x4_t { uint16x4_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmul_n_u16(a: uint16x4_t, b: u16) -> uint16x4_t { uint16x4_t(map(a.0, |x| x.wrapping_mul(b))) }
#[inline(always)]
pub unsafe fn vqadd_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsub_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vand_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorr_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veor_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvn_u16(a: uint16x4_t) -> uint16x4_t { uint16x4_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbsl_u16(m: uint16x4_t, a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u16) | (!m & y as u16)) as u16)) }
#[inline(always)]
pub unsafe fn vceq_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| if x == y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgt_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| if x > y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcge_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| if x >= y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vclt_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| if x < y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcle_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| if x <= y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshl_n_u16<const N: i32>(a: uint16x4_t) -> uint16x4_t { uint16x4_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshr_n_u16<const N: i32>(a: uint16x4_t) -> uint16x4_t { uint16x4_t(map(a.0, |x| ((x as i128) >> N) as u16)) }
#[inline(always)]
pub unsafe fn vrshr_n_u16<const N: i32>(a: uint16x4_t) -> uint16x4_t { uint16x4_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as u16)) }
#[inline(always)]
pub unsafe fn vsra_n_u16<const N: i32>(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64) >> N) as u16))) }
#[inline(always)]
pub unsafe fn vrsra_n_u16<const N: i32>(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64 + (1 << (N - 1))) >> N) as u16))) }
#[inline(always)]
pub unsafe fn vmin_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmax_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vabd_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| x.abs_diff(y) as u16)) }
#[inline(always)]
pub unsafe fn vhadd_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64) >> 1) as u16)) }
#[inline(always)]
pub unsafe fn vrhadd_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64 + 1) >> 1) as u16)) }
#[inline(always)]
pub unsafe fn vpaddl_u16(a: uint16x4_t) -> uint32x2_t { uint32x2_t(std::array::from_fn(|i| a.0[2 * i] as u32 + a.0[2 * i + 1] as u32)) }
#[inline(always)]
pub unsafe fn vpadal_u16(a: uint32x2_t, b: uint16x4_t) -> uint32x2_t { uint32x2_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[2 * i] as u32 + b.0[2 * i + 1] as u32))) }
#[inline(always)]
pub unsafe fn vpadd_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { uint16x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i].wrapping_add(a.0[2 * i + 1]) } else { b.0[2 * i - 4].wrapping_add(b.0[2 * i + 1 - 4]) })) }
#[inline(always)]
pub unsafe fn vrev32_u16(a: uint16x4_t) -> uint16x4_t { uint16x4_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2])) }
#[inline(always)]
pub unsafe fn vrev64_u16(a: uint16x4_t) -> uint16x4_t { uint16x4_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4])) }
#[inline(always)]
pub unsafe fn vreinterpret_u8_u16(a: uint16x4_t) -> uint8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s8_u16(a: uint16x4_t) -> int8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s16_u16(a: uint16x4_t) -> int16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u32_u16(a: uint16x4_t) -> uint32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s32_u16(a: uint16x4_t) -> int32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u64_u16(a: uint16x4_t) -> uint64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s64_u16(a: uint16x4_t) -> int64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_f32_u16(a: uint16x4_t) -> float32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vdupq_n_u16(a: u16) -> uint16x8_t { uint16x8_t([a; 8]) }
#[inline(always)]
pub unsafe fn vmovq_n_u16(a: u16) -> uint16x8_t { uint16x8_t([a; 8]) }
#[inline(always)]
pub unsafe fn vdupq_lane_u16<const LANE: i32>(a: uint16x4_t) -> uint16x8_t { uint16x8_t([a.0[LANE as usize]; 8]) }
#[inline(always)]
pub unsafe fn vdupq_laneq_u16<const LANE: i32>(a: uint16x8_t) -> uint16x8_t { uint16x8_t([a.0[LANE as usize]; 8]) }
#[inline(always)]
pub unsafe fn vgetq_lane_u16<const LANE: i32>(a: uint16x8_t) -> u16 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vsetq_lane_u16<const LANE: i32>(a: u16, mut b: uint16x8_t) -> uint16x8_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1q_u16(p: *const u16) -> uint16x8_t { (p as *const uint16x8_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1q_u16(p: *mut u16, a: uint16x8_t) { (p as *mut uint16x8_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1q_dup_u16(p: *const u16) -> uint16x8_t { uint16x8_t([p.read_unaligned(); 8]) }
#[inline(always)]
pub unsafe fn vld1q_lane_u16<const LANE: i32>(p: *const u16, mut b: uint16x8_t) -> uint16x8_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1q_lane_u16<const LANE: i32>(p: *mut u16, a: uint16x8_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2q_u16(p: *const u16) -> uint16x8x2_t { let d = (p as *const [u16; 16]).read_unaligned(); uint16x8x2_t(uint16x8_t(std::array::from_fn(|i| d[i * 2 + 0])), uint16x8_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2q_u16(p: *mut u16, a: uint16x8x2_t) { let s = [a.0.0, a.1.0]; let d: [u16; 16] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [u16; 16]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_u16_x2(p: *const u16) -> uint16x8x2_t { uint16x8x2_t(vld1q_u16(p.add(0)), vld1q_u16(p.add(8))) }
#[inline(always)]
pub unsafe fn vst1q_u16_x2(p: *mut u16, a: uint16x8x2_t) { vst1q_u16(p.add(0), a.0); vst1q_u16(p.add(8), a.1); }
#[inline(always)]
pub unsafe fn vld3q_u16(p: *const u16) -> uint16x8x3_t { let d = (p as *const [u16; 24]).read_unaligned(); uint16x8x3_t(uint16x8_t(std::array::from_fn(|i| d[i * 3 + 0])), uint16x8_t(std::array::from_fn(|i| d[i * 3 + 1])), uint16x8_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3q_u16(p: *mut u16, a: uint16x8x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [u16; 24] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [u16; 24]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_u16_x3(p: *const u16) -> uint16x8x3_t { uint16x8x3_t(vld1q_u16(p.add(0)), vld1q_u16(p.add(8)), vld1q_u16(p.add(16))) }
#[inline(always)]
pub unsafe fn vst1q_u16_x3(p: *mut u16, a: uint16x8x3_t) { vst1q_u16(p.add(0), a.0); vst1q_u16(p.add(8), a.1); vst1q_u16(p.add(16), a.2); }
#[inline(always)]
pub unsafe fn vld4q_u16(p: *const u16) -> uint16x8x4_t { let d = (p as *const [u16; 32]).read_unaligned(); uint16x8x4_t(uint16x8_t(std::array::from_fn(|i| d[i * 4 + 0])), uint16x8_t(std::array::from_fn(|i| d[i * 4 + 1])), uint16x8_t(std::array::from_fn(|i| d[i * 4 + 2])), uint16x8_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4q_u16(p: *mut u16, a: uint16x8x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [u16; 32] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [u16; 32]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_u16_x4(p: *const u16) -> uint16x8x4_t { uint16x8x4_t(vld1q_u16(p.add(0)), vld1q_u16(p.add(8)), vld1q_u16(p.add(16)), vld1q_u16(p.add(24))) }
#[inline(always)]
pub unsafe fn vst1q_u16_x4(p: *mut u16, a: uint16x8x4_t) { vst1q_u16(p.add(0), a.0); vst1q_u16(p.add(8), a.1); vst1q_u16(p.add(16), a.2); vst1q_u16(p.add(24), a.3); }
#[inline(always)]
pub unsafe fn vzip1q_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2q_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[4 + i / 2] } else { b.0[4 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1q_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(std::array::from_fn(|i| if i < 4 { a.0[2 * i] } else { b.0[2 * i - 8] })) }
#[inline(always)]
pub unsafe fn vuzp2q_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(std::array::from_fn(|i| if i < 4 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 8] })) }
#[inline(always)]
pub unsafe fn vtrn1q_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2q_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzipq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8x2_t { uint16x8x2_t(vzip1q_u16(a, b), vzip2q_u16(a, b)) }
#[inline(always)]
pub unsafe fn vuzpq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8x2_t { uint16x8x2_t(vuzp1q_u16(a, b), vuzp2q_u16(a, b)) }
#[inline(always)]
pub unsafe fn vtrnq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8x2_t { uint16x8x2_t(vtrn1q_u16(a, b), vtrn2q_u16(a, b)) }
#[inline(always)]
pub unsafe fn vextq_u16<const N: i32>(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(std::array::from_fn(|i| if i + (N as usize) < 8 { a.0[i + N as usize] } else { b.0[i + N as usize - 8] })) }
#[inline(always)]
pub unsafe fn vaddq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsubq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vmulq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x.wrapping_mul(y))) }
#[inline(always)]
pub unsafe fn vmlaq_u16(a: uint16x8_t, b: uint16x8_t, c: uint16x8_t) -> uint16x8_t { uint16x8_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmlsq_u16(a: uint16x8_t, b: uint16x8_t, c: uint16x8_t) -> uint16x8_t { uint16x8_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmulq_n_u16(a: uint16x8_t, b: u16) -> uint16x8_t { uint16x8_t(map(a.0, |x| x.wrapping_mul(b))) }
#[inline(always)]
pub unsafe fn vqaddq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsubq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vandq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorrq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veorq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvnq_u16(a: uint16x8_t) -> uint16x8_t { uint16x8_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbslq_u16(m: uint16x8_t, a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u16) | (!m & y as u16)) as u16)) }
#[inline(always)]
pub unsafe fn vceqq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| if x == y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgtq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| if x > y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgeq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| if x >= y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcltq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| if x < y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcleq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| if x <= y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshlq_n_u16<const N: i32>(a: uint16x8_t) -> uint16x8_t { uint16x8_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshrq_n_u16<const N: i32>(a: uint16x8_t) -> uint16x8_t { uint16x8_t(map(a.0, |x| ((x as i128) >> N) as u16)) }
#[inline(always)]
pub unsafe fn vrshrq_n_u16<const N: i32>(a: uint16x8_t) -> uint16x8_t { uint16x8_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as u16)) }
#[inline(always)]
pub unsafe fn vsraq_n_u16<const N: i32>(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64) >> N) as u16))) }
#[inline(always)]
pub unsafe fn vrsraq_n_u16<const N: i32>(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64 + (1 << (N - 1))) >> N) as u16))) }
#[inline(always)]
pub unsafe fn vminq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmaxq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vabdq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x.abs_diff(y) as u16)) }
#[inline(always)]
pub unsafe fn vhaddq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64) >> 1) as u16)) }
#[inline(always)]
pub unsafe fn vrhaddq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64 + 1) >> 1) as u16)) }
#[inline(always)]
pub unsafe fn vpaddlq_u16(a: uint16x8_t) -> uint32x4_t { uint32x4_t(std::array::from_fn(|i| a.0[2 * i] as u32 + a.0[2 * i + 1] as u32)) }
#[inline(always)]
pub unsafe fn vpadalq_u16(a: uint32x4_t, b: uint16x8_t) -> uint32x4_t { uint32x4_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[2 * i] as u32 + b.0[2 * i + 1] as u32))) }
#[inline(always)]
pub unsafe fn vpaddq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { uint16x8_t(std::array::from_fn(|i| if i < 4 { a.0[2 * i].wrapping_add(a.0[2 * i + 1]) } else { b.0[2 * i - 8].wrapping_add(b.0[2 * i + 1 - 8]) })) }
#[inline(always)]
pub unsafe fn vrev32q_u16(a: uint16x8_t) -> uint16x8_t { uint16x8_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2])) }
#[inline(always)]
pub unsafe fn vrev64q_u16(a: uint16x8_t) -> uint16x8_t { uint16x8_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4])) }
#[inline(always)]
pub unsafe fn vreinterpretq_u8_u16(a: uint16x8_t) -> uint8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s8_u16(a: uint16x8_t) -> int8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s16_u16(a: uint16x8_t) -> int16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u32_u16(a: uint16x8_t) -> uint32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s32_u16(a: uint16x8_t) -> int32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u64_u16(a: uint16x8_t) -> uint64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s64_u16(a: uint16x8_t) -> int64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_f32_u16(a: uint16x8_t) -> float32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vget_low_u16(a: uint16x8_t) -> uint16x4_t { uint16x4_t(lo(a.0)) }
#[inline(always)]
pub unsafe fn vget_high_u16(a: uint16x8_t) -> uint16x4_t { uint16x4_t(hi(a.0)) }
#[inline(always)]
pub unsafe fn vcombine_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x8_t { uint16x8_t(cat(a.0, b.0)) }
#[inline(always)]
pub unsafe fn vdup_n_s16(a: i16) -> int16x4_t { int16x4_t([a; 4]) }
#[inline(always)]
pub unsafe fn vmov_n_s16(a: i16) -> int16x4_t { int16x4_t([a; 4]) }
#[inline(always)]
pub unsafe fn vdup_lane_s16<const LANE: i32>(a: int16x4_t) -> int16x4_t { int16x4_t([a.0[LANE as usize]; 4]) }
#[inline(always)]
pub unsafe fn vdup_laneq_s16<const LANE: i32>(a: int16x8_t) -> int16x4_t { int16x4_t([a.0[LANE as usize]; 4]) }
#[inline(always)]
pub unsafe fn vget_lane_s16<const LANE: i32>(a: int16x4_t) -> i16 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vset_lane_s16<const LANE: i32>(a: i16, mut b: int16x4_t) -> int16x4_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1_s16(p: *const i16) -> int16x4_t { (p as *const int16x4_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1_s16(p: *mut i16, a: int16x4_t) { (p as *mut int16x4_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1_dup_s16(p: *const i16) -> int16x4_t { int16x4_t([p.read_unaligned(); 4]) }
#[inline(always)]
pub unsafe fn vld1_lane_s16<const LANE: i32>(p: *const i16, mut b: int16x4_t) -> int16x4_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1_lane_s16<const LANE: i32>(p: *mut i16, a: int16x4_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2_s16(p: *const i16) -> int16x4x2_t { let d = (p as *const [i16; 8]).read_unaligned(); int16x4x2_t(int16x4_t(std::array::from_fn(|i| d[i * 2 + 0])), int16x4_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2_s16(p: *mut i16, a: int16x4x2_t) { let s = [a.0.0, a.1.0]; let d: [i16; 8] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [i16; 8]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_s16_x2(p: *const i16) -> int16x4x2_t { int16x4x2_t(vld1_s16(p.add(0)), vld1_s16(p.add(4))) }
#[inline(always)]
pub unsafe fn vst1_s16_x2(p: *mut i16, a: int16x4x2_t) { vst1_s16(p.add(0), a.0); vst1_s16(p.add(4), a.1); }
#[inline(always)]
pub unsafe fn vld3_s16(p: *const i16) -> int16x4x3_t { let d = (p as *const [i16; 12]).read_unaligned(); int16x4x3_t(int16x4_t(std::array::from_fn(|i| d[i * 3 + 0])), int16x4_t(std::array::from_fn(|i| d[i * 3 + 1])), int16x4_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3_s16(p: *mut i16, a: int16x4x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [i16; 12] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [i16; 12]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_s16_x3(p: *const i16) -> int16x4x3_t { int16x4x3_t(vld1_s16(p.add(0)), vld1_s16(p.add(4)), vld1_s16(p.add(8))) }
#[inline(always)]
pub unsafe fn vst1_s16_x3(p: *mut i16, a: int16x4x3_t) { vst1_s16(p.add(0), a.0); vst1_s16(p.add(4), a.1); vst1_s16(p.add(8), a.2); }
#[inline(always)]
pub unsafe fn vld4_s16(p: *const i16) -> int16x4x4_t { let d = (p as *const [i16; 16]).read_unaligned(); int16x4x4_t(int16x4_t(std::array::from_fn(|i| d[i * 4 + 0])), int16x4_t(std::array::from_fn(|i| d[i * 4 + 1])), int16x4_t(std::array::from_fn(|i| d[i * 4 + 2])), int16x4_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4_s16(p: *mut i16, a: int16x4x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [i16; 16] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [i16; 16]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_s16_x4(p: *const i16) -> int16x4x4_t { int16x4x4_t(vld1_s16(p.add(0)), vld1_s16(p.add(4)), vld1_s16(p.add(8)), vld1_s16(p.add(12))) }
#[inline(always)]
pub unsafe fn vst1_s16_x4(p: *mut i16, a: int16x4x4_t) { vst1_s16(p.add(0), a.0); vst1_s16(p.add(4), a.1); vst1_s16(p.add(8), a.2); vst1_s16(p.add(12), a.3); }
#[inline(always)]
pub unsafe fn vzip1_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[2 + i / 2] } else { b.0[2 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i] } else { b.0[2 * i - 4] })) }
#[inline(always)]
pub unsafe fn vuzp2_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 4] })) }
#[inline(always)]
pub unsafe fn vtrn1_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzip_s16(a: int16x4_t, b: int16x4_t) -> int16x4x2_t { int16x4x2_t(vzip1_s16(a, b), vzip2_s16(a, b)) }
#[inline(always)]
pub unsafe fn vuzp_s16(a: int16x4_t, b: int16x4_t) -> int16x4x2_t { int16x4x2_t(vuzp1_s16(a, b), vuzp2_s16(a, b)) }
#[inline(always)]
pub unsafe fn vtrn_s16(a: int16x4_t, b: int16x4_t) -> int16x4x2_t { int16x4x2_t(vtrn1_s16(a, b), vtrn2_s16(a, b)) }
#[inline(always)]
pub unsafe fn vext_s16<const N: i32>(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(std::array::from_fn(|i| if i + (N as usize) < 4 { a.0[i + N as usize] } else { b.0[i + N as usize - 4] })) }
#[inline(always)]
pub unsafe fn vadd_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsub_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vmul_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| x.wrapping_mul(y))) }
#[inline(always)]
pub unsafe fn vmla_s16(a: int16x4_t, b: int16x4_t, c: int16x4_t) -> int16x4_t { int16x4_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmls_s16(a: int16x4_t, b: int16x4_t, c: int16x4_t) -> int16x4_t { int16x4_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmul_n_s16(a: int16x4_t, b: i16) -> int16x4_t { int16x4_t(map(a.0, |x| x.wrapping_mul(b))) }
#[inline(always)]
pub unsafe fn vqadd_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsub_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vand_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorr_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veor_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvn_s16(a: int16x4_t) -> int16x4_t { int16x4_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbsl_s16(m: uint16x4_t, a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u16) | (!m & y as u16)) as i16)) }
#[inline(always)]
pub unsafe fn vceq_s16(a: int16x4_t, b: int16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| if x == y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgt_s16(a: int16x4_t, b: int16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| if x > y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcge_s16(a: int16x4_t, b: int16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| if x >= y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vclt_s16(a: int16x4_t, b: int16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| if x < y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcle_s16(a: int16x4_t, b: int16x4_t) -> uint16x4_t { uint16x4_t(map2(a.0, b.0, |x, y| if x <= y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshl_n_s16<const N: i32>(a: int16x4_t) -> int16x4_t { int16x4_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshr_n_s16<const N: i32>(a: int16x4_t) -> int16x4_t { int16x4_t(map(a.0, |x| ((x as i128) >> N) as i16)) }
#[inline(always)]
pub unsafe fn vrshr_n_s16<const N: i32>(a: int16x4_t) -> int16x4_t { int16x4_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as i16)) }
#[inline(always)]
pub unsafe fn vsra_n_s16<const N: i32>(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64) >> N) as i16))) }
#[inline(always)]
pub unsafe fn vrsra_n_s16<const N: i32>(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64 + (1 << (N - 1))) >> N) as i16))) }
#[inline(always)]
pub unsafe fn vmin_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmax_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vabd_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| x.abs_diff(y) as i16)) }
#[inline(always)]
pub unsafe fn vhadd_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64) >> 1) as i16)) }
#[inline(always)]
pub unsafe fn vrhadd_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64 + 1) >> 1) as i16)) }
#[inline(always)]
pub unsafe fn vpaddl_s16(a: int16x4_t) -> int32x2_t { int32x2_t(std::array::from_fn(|i| a.0[2 * i] as i32 + a.0[2 * i + 1] as i32)) }
#[inline(always)]
pub unsafe fn vpadal_s16(a: int32x2_t, b: int16x4_t) -> int32x2_t { int32x2_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[2 * i] as i32 + b.0[2 * i + 1] as i32))) }
#[inline(always)]
pub unsafe fn vpadd_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i].wrapping_add(a.0[2 * i + 1]) } else { b.0[2 * i - 4].wrapping_add(b.0[2 * i + 1 - 4]) })) }
#[inline(always)]
pub unsafe fn vrev32_s16(a: int16x4_t) -> int16x4_t { int16x4_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2])) }
#[inline(always)]
pub unsafe fn vrev64_s16(a: int16x4_t) -> int16x4_t { int16x4_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4])) }
#[inline(always)]
pub unsafe fn vreinterpret_u8_s16(a: int16x4_t) -> uint8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s8_s16(a: int16x4_t) -> int8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u16_s16(a: int16x4_t) -> uint16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u32_s16(a: int16x4_t) -> uint32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s32_s16(a: int16x4_t) -> int32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u64_s16(a: int16x4_t) -> uint64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s64_s16(a: int16x4_t) -> int64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_f32_s16(a: int16x4_t) -> float32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vdupq_n_s16(a: i16) -> int16x8_t { int16x8_t([a; 8]) }
#[inline(always)]
pub unsafe fn vmovq_n_s16(a: i16) -> int16x8_t { int16x8_t([a; 8]) }
#[inline(always)]
pub unsafe fn vdupq_lane_s16<const LANE: i32>(a: int16x4_t) -> int16x8_t { int16x8_t([a.0[LANE as usize]; 8]) }
#[inline(always)]
pub unsafe fn vdupq_laneq_s16<const LANE: i32>(a: int16x8_t) -> int16x8_t { int16x8_t([a.0[LANE as usize]; 8]) }
#[inline(always)]
pub unsafe fn vgetq_lane_s16<const LANE: i32>(a: int16x8_t) -> i16 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vsetq_lane_s16<const LANE: i32>(a: i16, mut b: int16x8_t) -> int16x8_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1q_s16(p: *const i16) -> int16x8_t { (p as *const int16x8_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1q_s16(p: *mut i16, a: int16x8_t) { (p as *mut int16x8_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1q_dup_s16(p: *const i16) -> int16x8_t { int16x8_t([p.read_unaligned(); 8]) }
#[inline(always)]
pub unsafe fn vld1q_lane_s16<const LANE: i32>(p: *const i16, mut b: int16x8_t) -> int16x8_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1q_lane_s16<const LANE: i32>(p: *mut i16, a: int16x8_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2q_s16(p: *const i16) -> int16x8x2_t { let d = (p as *const [i16; 16]).read_unaligned(); int16x8x2_t(int16x8_t(std::array::from_fn(|i| d[i * 2 + 0])), int16x8_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2q_s16(p: *mut i16, a: int16x8x2_t) { let s = [a.0.0, a.1.0]; let d: [i16; 16] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [i16; 16]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_s16_x2(p: *const i16) -> int16x8x2_t { int16x8x2_t(vld1q_s16(p.add(0)), vld1q_s16(p.add(8))) }
#[inline(always)]
pub unsafe fn vst1q_s16_x2(p: *mut i16, a: int16x8x2_t) { vst1q_s16(p.add(0), a.0); vst1q_s16(p.add(8), a.1); }
#[inline(always)]
pub unsafe fn vld3q_s16(p: *const i16) -> int16x8x3_t { let d = (p as *const [i16; 24]).read_unaligned(); int16x8x3_t(int16x8_t(std::array::from_fn(|i| d[i * 3 + 0])), int16x8_t(std::array::from_fn(|i| d[i * 3 + 1])), int16x8_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3q_s16(p: *mut i16, a: int16x8x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [i16; 24] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [i16; 24]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_s16_x3(p: *const i16) -> int16x8x3_t { int16x8x3_t(vld1q_s16(p.add(0)), vld1q_s16(p.add(8)), vld1q_s16(p.add(16))) }
#[inline(always)]
pub unsafe fn vst1q_s16_x3(p: *mut i16, a: int16x8x3_t) { vst1q_s16(p.add(0), a.0); vst1q_s16(p.add(8), a.1); vst1q_s16(p.add(16), a.2); }
#[inline(always)]
pub unsafe fn vld4q_s16(p: *const i16) -> int16x8x4_t { let d = (p as *const [i16; 32]).read_unaligned(); int16x8x4_t(int16x8_t(std::array::from_fn(|i| d[i * 4 + 0])), int16x8_t(std::array::from_fn(|i| d[i * 4 + 1])), int16x8_t(std::array::from_fn(|i| d[i * 4 + 2])), int16x8_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4q_s16(p: *mut i16, a: int16x8x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [i16; 32] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [i16; 32]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_s16_x4(p: *const i16) -> int16x8x4_t { int16x8x4_t(vld1q_s16(p.add(0)), vld1q_s16(p.add(8)), vld1q_s16(p.add(16)), vld1q_s16(p.add(24))) }
#[inline(always)]
pub unsafe fn vst1q_s16_x4(p: *mut i16, a: int16x8x4_t) { vst1q_s16(p.add(0), a.0); vst1q_s16(p.add(8), a.1); vst1q_s16(p.add(16), a.2); vst1q_s16(p.add(24), a.3); }
#[inline(always)]
pub unsafe fn vzip1q_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2q_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[4 + i / 2] } else { b.0[4 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1q_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(std::array::from_fn(|i| if i < 4 { a.0[2 * i] } else { b.0[2 * i - 8] })) }
#[inline(always)]
pub unsafe fn vuzp2q_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(std::array::from_fn(|i| if i < 4 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 8] })) }
#[inline(always)]
pub unsafe fn vtrn1q_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2q_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzipq_s16(a: int16x8_t, b: int16x8_t) -> int16x8x2_t { int16x8x2_t(vzip1q_s16(a, b), vzip2q_s16(a, b)) }
#[inline(always)]
pub unsafe fn vuzpq_s16(a: int16x8_t, b: int16x8_t) -> int16x8x2_t { int16x8x2_t(vuzp1q_s16(a, b), vuzp2q_s16(a, b)) }
#[inline(always)]
pub unsafe fn vtrnq_s16(a: int16x8_t, b: int16x8_t) -> int16x8x2_t { int16x8x2_t(vtrn1q_s16(a, b), vtrn2q_s16(a, b)) }
#[inline(always)]
pub unsafe fn vextq_s16<const N: i32>(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(std::array::from_fn(|i| if i + (N as usize) < 8 { a.0[i + N as usize] } else { b.0[i + N as usize - 8] })) }
#[inline(always)]
pub unsafe fn vaddq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsubq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vmulq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x.wrapping_mul(y))) }
#[inline(always)]
pub unsafe fn vmlaq_s16(a: int16x8_t, b: int16x8_t, c: int16x8_t) -> int16x8_t { int16x8_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmlsq_s16(a: int16x8_t, b: int16x8_t, c: int16x8_t) -> int16x8_t { int16x8_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmulq_n_s16(a: int16x8_t, b: i16) -> int16x8_t { int16x8_t(map(a.0, |x| x.wrapping_mul(b))) }
#[inline(always)]
pub unsafe fn vqaddq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsubq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vandq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorrq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veorq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvnq_s16(a: int16x8_t) -> int16x8_t { int16x8_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbslq_s16(m: uint16x8_t, a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u16) | (!m & y as u16)) as i16)) }
#[inline(always)]
pub unsafe fn vceqq_s16(a: int16x8_t, b: int16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| if x == y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgtq_s16(a: int16x8_t, b: int16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| if x > y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgeq_s16(a: int16x8_t, b: int16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| if x >= y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcltq_s16(a: int16x8_t, b: int16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| if x < y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcleq_s16(a: int16x8_t, b: int16x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| if x <= y { u16::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshlq_n_s16<const N: i32>(a: int16x8_t) -> int16x8_t { int16x8_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshrq_n_s16<const N: i32>(a: int16x8_t) -> int16x8_t { int16x8_t(map(a.0, |x| ((x as i128) >> N) as i16)) }
#[inline(always)]
pub unsafe fn vrshrq_n_s16<const N: i32>(a: int16x8_t) -> int16x8_t { int16x8_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as i16)) }
#[inline(always)]
pub unsafe fn vsraq_n_s16<const N: i32>(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64) >> N) as i16))) }
#[inline(always)]
pub unsafe fn vrsraq_n_s16<const N: i32>(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64 + (1 << (N - 1))) >> N) as i16))) }
#[inline(always)]
pub unsafe fn vminq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmaxq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vabdq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x.abs_diff(y) as i16)) }
#[inline(always)]
pub unsafe fn vhaddq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64) >> 1) as i16)) }
#[inline(always)]
pub unsafe fn vrhaddq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64 + 1) >> 1) as i16)) }
#[inline(always)]
pub unsafe fn vpaddlq_s16(a: int16x8_t) -> int32x4_t { int32x4_t(std::array::from_fn(|i| a.0[2 * i] as i32 + a.0[2 * i + 1] as i32)) }
#[inline(always)]
pub unsafe fn vpadalq_s16(a: int32x4_t, b: int16x8_t) -> int32x4_t { int32x4_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[2 * i] as i32 + b.0[2 * i + 1] as i32))) }
#[inline(always)]
pub unsafe fn vpaddq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(std::array::from_fn(|i| if i < 4 { a.0[2 * i].wrapping_add(a.0[2 * i + 1]) } else { b.0[2 * i - 8].wrapping_add(b.0[2 * i + 1 - 8]) })) }
#[inline(always)]
pub unsafe fn vrev32q_s16(a: int16x8_t) -> int16x8_t { int16x8_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2])) }
#[inline(always)]
pub unsafe fn vrev64q_s16(a: int16x8_t) -> int16x8_t { int16x8_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4])) }
#[inline(always)]
pub unsafe fn vreinterpretq_u8_s16(a: int16x8_t) -> uint8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s8_s16(a: int16x8_t) -> int8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u16_s16(a: int16x8_t) -> uint16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u32_s16(a: int16x8_t) -> uint32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s32_s16(a: int16x8_t) -> int32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u64_s16(a: int16x8_t) -> uint64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s64_s16(a: int16x8_t) -> int64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_f32_s16(a: int16x8_t) -> float32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vget_low_s16(a: int16x8_t) -> int16x4_t { int16x4_t(lo(a.0)) }
#[inline(always)]
pub unsafe fn vget_high_s16(a: int16x8_t) -> int16x4_t { int16x4_t(hi(a.0)) }
#[inline(always)]
pub unsafe fn vcombine_s16(a: int16x4_t, b: int16x4_t) -> int16x8_t { int16x8_t(cat(a.0, b.0)) }
#[inline(always)]
pub unsafe fn vdup_n_u32(a: u32) -> uint32x2_t { uint32x2_t([a; 2]) }
#[inline(always)]
pub unsafe fn vmov_n_u32(a: u32) -> uint32x2_t { uint32x2_t([a; 2]) }
#[inline(always)]
pub unsafe fn vdup_lane_u32<const LANE: i32>(a: uint32x2_t) -> uint32x2_t { uint32x2_t([a.0[LANE as usize]; 2]) }
#[inline(always)]
pub unsafe fn vdup_laneq_u32<const LANE: i32>(a: uint32x4_t) -> uint32x2_t { uint32x2_t([a.0[LANE as usize]; 2]) }
#[inline(always)]
pub unsafe fn vget_lane_u32<const LANE: i32>(a: uint32x2_t) -> u32 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vset_lane_u32<const LANE: i32>(a: u32, mut b: uint32x2_t) -> uint32x2_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1_u32(p: *const u32) -> uint32x2_t { (p as *const uint32x2_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1_u32(p: *mut u32, a: uint32x2_t) { (p as *mut uint32x2_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1_dup_u32(p: *const u32) -> uint32x2_t { uint32x2_t([p.read_unaligned(); 2]) }
#[inline(always)]
pub unsafe fn vld1_lane_u32<const LANE: i32>(p: *const u32, mut b: uint32x2_t) -> uint32x2_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1_lane_u32<const LANE: i32>(p: *mut u32, a: uint32x2_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2_u32(p: *const u32) -> uint32x2x2_t { let d = (p as *const [u32; 4]).read_unaligned(); uint32x2x2_t(uint32x2_t(std::array::from_fn(|i| d[i * 2 + 0])), uint32x2_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2_u32(p: *mut u32, a: uint32x2x2_t) { let s = [a.0.0, a.1.0]; let d: [u32; 4] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [u32; 4]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_u32_x2(p: *const u32) -> uint32x2x2_t { uint32x2x2_t(vld1_u32(p.add(0)), vld1_u32(p.add(2))) }
#[inline(always)]
pub unsafe fn vst1_u32_x2(p: *mut u32, a: uint32x2x2_t) { vst1_u32(p.add(0), a.0); vst1_u32(p.add(2), a.1); }
#[inline(always)]
pub unsafe fn vld3_u32(p: *const u32) -> uint32x2x3_t { let d = (p as *const [u32; 6]).read_unaligned(); uint32x2x3_t(uint32x2_t(std::array::from_fn(|i| d[i * 3 + 0])), uint32x2_t(std::array::from_fn(|i| d[i * 3 + 1])), uint32x2_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3_u32(p: *mut u32, a: uint32x2x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [u32; 6] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [u32; 6]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_u32_x3(p: *const u32) -> uint32x2x3_t { uint32x2x3_t(vld1_u32(p.add(0)), vld1_u32(p.add(2)), vld1_u32(p.add(4))) }
#[inline(always)]
pub unsafe fn vst1_u32_x3(p: *mut u32, a: uint32x2x3_t) { vst1_u32(p.add(0), a.0); vst1_u32(p.add(2), a.1); vst1_u32(p.add(4), a.2); }
#[inline(always)]
pub unsafe fn vld4_u32(p: *const u32) -> uint32x2x4_t { let d = (p as *const [u32; 8]).read_unaligned(); uint32x2x4_t(uint32x2_t(std::array::from_fn(|i| d[i * 4 + 0])), uint32x2_t(std::array::from_fn(|i| d[i * 4 + 1])), uint32x2_t(std::array::from_fn(|i| d[i * 4 + 2])), uint32x2_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4_u32(p: *mut u32, a: uint32x2x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [u32; 8] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [u32; 8]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_u32_x4(p: *const u32) -> uint32x2x4_t { uint32x2x4_t(vld1_u32(p.add(0)), vld1_u32(p.add(2)), vld1_u32(p.add(4)), vld1_u32(p.add(6))) }
#[inline(always)]
pub unsafe fn vst1_u32_x4(p: *mut u32, a: uint32x2x4_t) { vst1_u32(p.add(0), a.0); vst1_u32(p.add(2), a.1); vst1_u32(p.add(4), a.2); vst1_u32(p.add(6), a.3); }
#[inline(always)]
pub unsafe fn vzip1_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[1 + i / 2] } else { b.0[1 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(std::array::from_fn(|i| if i < 1 { a.0[2 * i] } else { b.0[2 * i - 2] })) }
#[inline(always)]
pub unsafe fn vuzp2_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(std::array::from_fn(|i| if i < 1 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 2] })) }
#[inline(always)]
pub unsafe fn vtrn1_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzip_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2x2_t { uint32x2x2_t(vzip1_u32(a, b), vzip2_u32(a, b)) }
#[inline(always)]
pub unsafe fn vuzp_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2x2_t { uint32x2x2_t(vuzp1_u32(a, b), vuzp2_u32(a, b)) }
#[inline(always)]
pub unsafe fn vtrn_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2x2_t { uint32x2x2_t(vtrn1_u32(a, b), vtrn2_u32(a, b)) }
#[inline(always)]
pub unsafe fn vext_u32<const N: i32>(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(std::array::from_fn(|i| if i + (N as usize) < 2 { a.0[i + N as usize] } else { b.0[i + N as usize - 2] })) }
#[inline(always)]
pub unsafe fn vadd_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsub_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vmul_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| x.wrapping_mul(y))) }
#[inline(always)]
pub unsafe fn vmla_u32(a: uint32x2_t, b: uint32x2_t, c: uint32x2_t) -> uint32x2_t { uint32x2_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmls_u32(a: uint32x2_t, b: uint32x2_t, c: uint32x2_t) -> uint32x2_t { uint32x2_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmul_n_u32(a: uint32x2_t, b: u32) -> uint32x2_t { uint32x2_t(map(a.0, |x| x.wrapping_mul(b))) }
#[inline(always)]
pub unsafe fn vqadd_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsub_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vand_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorr_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veor_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvn_u32(a: uint32x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbsl_u32(m: uint32x2_t, a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u32) | (!m & y as u32)) as u32)) }
#[inline(always)]
pub unsafe fn vceq_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| if x == y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgt_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| if x > y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcge_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| if x >= y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vclt_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| if x < y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcle_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| if x <= y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshl_n_u32<const N: i32>(a: uint32x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshr_n_u32<const N: i32>(a: uint32x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| ((x as i128) >> N) as u32)) }
#[inline(always)]
pub unsafe fn vrshr_n_u32<const N: i32>(a: uint32x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as u32)) }
#[inline(always)]
pub unsafe fn vsra_n_u32<const N: i32>(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64) >> N) as u32))) }
#[inline(always)]
pub unsafe fn vrsra_n_u32<const N: i32>(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64 + (1 << (N - 1))) >> N) as u32))) }
#[inline(always)]
pub unsafe fn vmin_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmax_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vabd_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| x.abs_diff(y) as u32)) }
#[inline(always)]
pub unsafe fn vhadd_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64) >> 1) as u32)) }
#[inline(always)]
pub unsafe fn vrhadd_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64 + 1) >> 1) as u32)) }
#[inline(always)]
pub unsafe fn vpaddl_u32(a: uint32x2_t) -> uint64x1_t { uint64x1_t(std::array::from_fn(|i| a.0[2 * i] as u64 + a.0[2 * i + 1] as u64)) }
#[inline(always)]
pub unsafe fn vpadal_u32(a: uint64x1_t, b: uint32x2_t) -> uint64x1_t { uint64x1_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[2 * i] as u64 + b.0[2 * i + 1] as u64))) }
#[inline(always)]
pub unsafe fn vpadd_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { uint32x2_t(std::array::from_fn(|i| if i < 1 { a.0[2 * i].wrapping_add(a.0[2 * i + 1]) } else { b.0[2 * i - 2].wrapping_add(b.0[2 * i + 1 - 2]) })) }
#[inline(always)]
pub unsafe fn vrev64_u32(a: uint32x2_t) -> uint32x2_t { uint32x2_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2])) }
#[inline(always)]
pub unsafe fn vreinterpret_u8_u32(a: uint32x2_t) -> uint8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s8_u32(a: uint32x2_t) -> int8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u16_u32(a: uint32x2_t) -> uint16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s16_u32(a: uint32x2_t) -> int16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s32_u32(a: uint32x2_t) -> int32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u64_u32(a: uint32x2_t) -> uint64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s64_u32(a: uint32x2_t) -> int64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_f32_u32(a: uint32x2_t) -> float32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vdupq_n_u32(a: u32) -> uint32x4_t { uint32x4_t([a; 4]) }
#[inline(always)]
pub unsafe fn vmovq_n_u32(a: u32) -> uint32x4_t { uint32x4_t([a; 4]) }
#[inline(always)]
pub unsafe fn vdupq_lane_u32<const LANE: i32>(a: uint32x2_t) -> uint32x4_t { uint32x4_t([a.0[LANE as usize]; 4]) }
#[inline(always)]
pub unsafe fn vdupq_laneq_u32<const LANE: i32>(a: uint32x4_t) -> uint32x4_t { uint32x4_t([a.0[LANE as usize]; 4]) }
#[inline(always)]
pub unsafe fn vgetq_lane_u32<const LANE: i32>(a: uint32x4_t) -> u32 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vsetq_lane_u32<const LANE: i32>(a: u32, mut b: uint32x4_t) -> uint32x4_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1q_u32(p: *const u32) -> uint32x4_t { (p as *const uint32x4_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1q_u32(p: *mut u32, a: uint32x4_t) { (p as *mut uint32x4_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1q_dup_u32(p: *const u32) -> uint32x4_t { uint32x4_t([p.read_unaligned(); 4]) }
#[inline(always)]
pub unsafe fn vld1q_lane_u32<const LANE: i32>(p: *const u32, mut b: uint32x4_t) -> uint32x4_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1q_lane_u32<const LANE: i32>(p: *mut u32, a: uint32x4_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2q_u32(p: *const u32) -> uint32x4x2_t { let d = (p as *const [u32; 8]).read_unaligned(); uint32x4x2_t(uint32x4_t(std::array::from_fn(|i| d[i * 2 + 0])), uint32x4_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2q_u32(p: *mut u32, a: uint32x4x2_t) { let s = [a.0.0, a.1.0]; let d: [u32; 8] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [u32; 8]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_u32_x2(p: *const u32) -> uint32x4x2_t { uint32x4x2_t(vld1q_u32(p.add(0)), vld1q_u32(p.add(4))) }
#[inline(always)]
pub unsafe fn vst1q_u32_x2(p: *mut u32, a: uint32x4x2_t) { vst1q_u32(p.add(0), a.0); vst1q_u32(p.add(4), a.1); }
#[inline(always)]
pub unsafe fn vld3q_u32(p: *const u32) -> uint32x4x3_t { let d = (p as *const [u32; 12]).read_unaligned(); uint32x4x3_t(uint32x4_t(std::array::from_fn(|i| d[i * 3 + 0])), uint32x4_t(std::array::from_fn(|i| d[i * 3 + 1])), uint32x4_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3q_u32(p: *mut u32, a: uint32x4x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [u32; 12] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [u32; 12]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_u32_x3(p: *const u32) -> uint32x4x3_t { uint32x4x3_t(vld1q_u32(p.add(0)), vld1q_u32(p.add(4)), vld1q_u32(p.add(8))) }
#[inline(always)]
pub unsafe fn vst1q_u32_x3(p: *mut u32, a: uint32x4x3_t) { vst1q_u32(p.add(0), a.0); vst1q_u32(p.add(4), a.1); vst1q_u32(p.add(8), a.2); }
#[inline(always)]
pub unsafe fn vld4q_u32(p: *const u32) -> uint32x4x4_t { let d = (p as *const [u32; 16]).read_unaligned(); uint32x4x4_t(uint32x4_t(std::array::from_fn(|i| d[i * 4 + 0])), uint32x4_t(std::array::from_fn(|i| d[i * 4 + 1])), uint32x4_t(std::array::from_fn(|i| d[i * 4 + 2])), uint32x4_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4q_u32(p: *mut u32, a: uint32x4x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [u32; 16] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [u32; 16]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_u32_x4(p: *const u32) -> uint32x4x4_t { uint32x4x4_t(vld1q_u32(p.add(0)), vld1q_u32(p.add(4)), vld1q_u32(p.add(8)), vld1q_u32(p.add(12))) }
#[inline(always)]
pub unsafe fn vst1q_u32_x4(p: *mut u32, a: uint32x4x4_t) { vst1q_u32(p.add(0), a.0); vst1q_u32(p.add(4), a.1); vst1q_u32(p.add(8), a.2); vst1q_u32(p.add(12), a.3); }
#[inline(always)]
pub unsafe fn vzip1q_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2q_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[2 + i / 2] } else { b.0[2 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1q_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i] } else { b.0[2 * i - 4] })) }
#[inline(always)]
pub unsafe fn vuzp2q_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 4] })) }
#[inline(always)]
pub unsafe fn vtrn1q_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2q_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzipq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4x2_t { uint32x4x2_t(vzip1q_u32(a, b), vzip2q_u32(a, b)) }
#[inline(always)]
pub unsafe fn vuzpq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4x2_t { uint32x4x2_t(vuzp1q_u32(a, b), vuzp2q_u32(a, b)) }
#[inline(always)]
pub unsafe fn vtrnq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4x2_t { uint32x4x2_t(vtrn1q_u32(a, b), vtrn2q_u32(a, b)) }
#[inline(always)]
pub unsafe fn vextq_u32<const N: i32>(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(std::array::from_fn(|i| if i + (N as usize) < 4 { a.0[i + N as usize] } else { b.0[i + N as usize - 4] })) }
#[inline(always)]
pub unsafe fn vaddq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsubq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vmulq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x.wrapping_mul(y))) }
#[inline(always)]
pub unsafe fn vmlaq_u32(a: uint32x4_t, b: uint32x4_t, c: uint32x4_t) -> uint32x4_t { uint32x4_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmlsq_u32(a: uint32x4_t, b: uint32x4_t, c: uint32x4_t) -> uint32x4_t { uint32x4_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmulq_n_u32(a: uint32x4_t, b: u32) -> uint32x4_t { uint32x4_t(map(a.0, |x| x.wrapping_mul(b))) }
#[inline(always)]
pub unsafe fn vqaddq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsubq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vandq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorrq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veorq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvnq_u32(a: uint32x4_t) -> uint32x4_t { uint32x4_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbslq_u32(m: uint32x4_t, a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u32) | (!m & y as u32)) as u32)) }
#[inline(always)]
pub unsafe fn vceqq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| if x == y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgtq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| if x > y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgeq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| if x >= y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcltq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| if x < y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcleq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| if x <= y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshlq_n_u32<const N: i32>(a: uint32x4_t) -> uint32x4_t { uint32x4_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshrq_n_u32<const N: i32>(a: uint32x4_t) -> uint32x4_t { uint32x4_t(map(a.0, |x| ((x as i128) >> N) as u32)) }
#[inline(always)]
pub unsafe fn vrshrq_n_u32<const N: i32>(a: uint32x4_t) -> uint32x4_t { uint32x4_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as u32)) }
#[inline(always)]
pub unsafe fn vsraq_n_u32<const N: i32>(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64) >> N) as u32))) }
#[inline(always)]
pub unsafe fn vrsraq_n_u32<const N: i32>(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64 + (1 << (N - 1))) >> N) as u32))) }
#[inline(always)]
pub unsafe fn vminq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmaxq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vabdq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x.abs_diff(y) as u32)) }
#[inline(always)]
pub unsafe fn vhaddq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64) >> 1) as u32)) }
#[inline(always)]
pub unsafe fn vrhaddq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64 + 1) >> 1) as u32)) }
#[inline(always)]
pub unsafe fn vpaddlq_u32(a: uint32x4_t) -> uint64x2_t { uint64x2_t(std::array::from_fn(|i| a.0[2 * i] as u64 + a.0[2 * i + 1] as u64)) }
#[inline(always)]
pub unsafe fn vpadalq_u32(a: uint64x2_t, b: uint32x4_t) -> uint64x2_t { uint64x2_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[2 * i] as u64 + b.0[2 * i + 1] as u64))) }
#[inline(always)]
pub unsafe fn vpaddq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { uint32x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i].wrapping_add(a.0[2 * i + 1]) } else { b.0[2 * i - 4].wrapping_add(b.0[2 * i + 1 - 4]) })) }
#[inline(always)]
pub unsafe fn vrev64q_u32(a: uint32x4_t) -> uint32x4_t { uint32x4_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2])) }
#[inline(always)]
pub unsafe fn vreinterpretq_u8_u32(a: uint32x4_t) -> uint8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s8_u32(a: uint32x4_t) -> int8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u16_u32(a: uint32x4_t) -> uint16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s16_u32(a: uint32x4_t) -> int16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s32_u32(a: uint32x4_t) -> int32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u64_u32(a: uint32x4_t) -> uint64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s64_u32(a: uint32x4_t) -> int64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_f32_u32(a: uint32x4_t) -> float32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vget_low_u32(a: uint32x4_t) -> uint32x2_t { uint32x2_t(lo(a.0)) }
#[inline(always)]
pub unsafe fn vget_high_u32(a: uint32x4_t) -> uint32x2_t { uint32x2_t(hi(a.0)) }
#[inline(always)]
pub unsafe fn vcombine_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x4_t { uint32x4_t(cat(a.0, b.0)) }
#[inline(always)]
pub unsafe fn vdup_n_s32(a: i32) -> int32x2_t { int32x2_t([a; 2]) }
#[inline(always)]
pub unsafe fn vmov_n_s32(a: i32) -> int32x2_t { int32x2_t([a; 2]) }
#[inline(always)]
pub unsafe fn vdup_lane_s32<const LANE: i32>(a: int32x2_t) -> int32x2_t { int32x2_t([a.0[LANE as usize]; 2]) }
#[inline(always)]
pub unsafe fn vdup_laneq_s32<const LANE: i32>(a: int32x4_t) -> int32x2_t { int32x2_t([a.0[LANE as usize]; 2]) }
#[inline(always)]
pub unsafe fn vget_lane_s32<const LANE: i32>(a: int32x2_t) -> i32 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vset_lane_s32<const LANE: i32>(a: i32, mut b: int32x2_t) -> int32x2_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1_s32(p: *const i32) -> int32x2_t { (p as *const int32x2_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1_s32(p: *mut i32, a: int32x2_t) { (p as *mut int32x2_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1_dup_s32(p: *const i32) -> int32x2_t { int32x2_t([p.read_unaligned(); 2]) }
#[inline(always)]
pub unsafe fn vld1_lane_s32<const LANE: i32>(p: *const i32, mut b: int32x2_t) -> int32x2_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1_lane_s32<const LANE: i32>(p: *mut i32, a: int32x2_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2_s32(p: *const i32) -> int32x2x2_t { let d = (p as *const [i32; 4]).read_unaligned(); int32x2x2_t(int32x2_t(std::array::from_fn(|i| d[i * 2 + 0])), int32x2_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2_s32(p: *mut i32, a: int32x2x2_t) { let s = [a.0.0, a.1.0]; let d: [i32; 4] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [i32; 4]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_s32_x2(p: *const i32) -> int32x2x2_t { int32x2x2_t(vld1_s32(p.add(0)), vld1_s32(p.add(2))) }
#[inline(always)]
pub unsafe fn vst1_s32_x2(p: *mut i32, a: int32x2x2_t) { vst1_s32(p.add(0), a.0); vst1_s32(p.add(2), a.1); }
#[inline(always)]
pub unsafe fn vld3_s32(p: *const i32) -> int32x2x3_t { let d = (p as *const [i32; 6]).read_unaligned(); int32x2x3_t(int32x2_t(std::array::from_fn(|i| d[i * 3 + 0])), int32x2_t(std::array::from_fn(|i| d[i * 3 + 1])), int32x2_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3_s32(p: *mut i32, a: int32x2x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [i32; 6] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [i32; 6]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_s32_x3(p: *const i32) -> int32x2x3_t { int32x2x3_t(vld1_s32(p.add(0)), vld1_s32(p.add(2)), vld1_s32(p.add(4))) }
#[inline(always)]
pub unsafe fn vst1_s32_x3(p: *mut i32, a: int32x2x3_t) { vst1_s32(p.add(0), a.0); vst1_s32(p.add(2), a.1); vst1_s32(p.add(4), a.2); }
#[inline(always)]
pub unsafe fn vld4_s32(p: *const i32) -> int32x2x4_t { let d = (p as *const [i32; 8]).read_unaligned(); int32x2x4_t(int32x2_t(std::array::from_fn(|i| d[i * 4 + 0])), int32x2_t(std::array::from_fn(|i| d[i * 4 + 1])), int32x2_t(std::array::from_fn(|i| d[i * 4 + 2])), int32x2_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4_s32(p: *mut i32, a: int32x2x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [i32; 8] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [i32; 8]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_s32_x4(p: *const i32) -> int32x2x4_t { int32x2x4_t(vld1_s32(p.add(0)), vld1_s32(p.add(2)), vld1_s32(p.add(4)), vld1_s32(p.add(6))) }
#[inline(always)]
pub unsafe fn vst1_s32_x4(p: *mut i32, a: int32x2x4_t) { vst1_s32(p.add(0), a.0); vst1_s32(p.add(2), a.1); vst1_s32(p.add(4), a.2); vst1_s32(p.add(6), a.3); }
#[inline(always)]
pub unsafe fn vzip1_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[1 + i / 2] } else { b.0[1 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(std::array::from_fn(|i| if i < 1 { a.0[2 * i] } else { b.0[2 * i - 2] })) }
#[inline(always)]
pub unsafe fn vuzp2_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(std::array::from_fn(|i| if i < 1 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 2] })) }
#[inline(always)]
pub unsafe fn vtrn1_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzip_s32(a: int32x2_t, b: int32x2_t) -> int32x2x2_t { int32x2x2_t(vzip1_s32(a, b), vzip2_s32(a, b)) }
#[inline(always)]
pub unsafe fn vuzp_s32(a: int32x2_t, b: int32x2_t) -> int32x2x2_t { int32x2x2_t(vuzp1_s32(a, b), vuzp2_s32(a, b)) }
#[inline(always)]
pub unsafe fn vtrn_s32(a: int32x2_t, b: int32x2_t) -> int32x2x2_t { int32x2x2_t(vtrn1_s32(a, b), vtrn2_s32(a, b)) }
#[inline(always)]
pub unsafe fn vext_s32<const N: i32>(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(std::array::from_fn(|i| if i + (N as usize) < 2 { a.0[i + N as usize] } else { b.0[i + N as usize - 2] })) }
#[inline(always)]
pub unsafe fn vadd_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsub_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vmul_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| x.wrapping_mul(y))) }
#[inline(always)]
pub unsafe fn vmla_s32(a: int32x2_t, b: int32x2_t, c: int32x2_t) -> int32x2_t { int32x2_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmls_s32(a: int32x2_t, b: int32x2_t, c: int32x2_t) -> int32x2_t { int32x2_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmul_n_s32(a: int32x2_t, b: i32) -> int32x2_t { int32x2_t(map(a.0, |x| x.wrapping_mul(b))) }
#[inline(always)]
pub unsafe fn vqadd_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsub_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vand_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorr_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veor_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvn_s32(a: int32x2_t) -> int32x2_t { int32x2_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbsl_s32(m: uint32x2_t, a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u32) | (!m & y as u32)) as i32)) }
#[inline(always)]
pub unsafe fn vceq_s32(a: int32x2_t, b: int32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| if x == y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgt_s32(a: int32x2_t, b: int32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| if x > y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcge_s32(a: int32x2_t, b: int32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| if x >= y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vclt_s32(a: int32x2_t, b: int32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| if x < y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcle_s32(a: int32x2_t, b: int32x2_t) -> uint32x2_t { uint32x2_t(map2(a.0, b.0, |x, y| if x <= y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshl_n_s32<const N: i32>(a: int32x2_t) -> int32x2_t { int32x2_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshr_n_s32<const N: i32>(a: int32x2_t) -> int32x2_t { int32x2_t(map(a.0, |x| ((x as i128) >> N) as i32)) }
#[inline(always)]
pub unsafe fn vrshr_n_s32<const N: i32>(a: int32x2_t) -> int32x2_t { int32x2_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as i32)) }
#[inline(always)]
pub unsafe fn vsra_n_s32<const N: i32>(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64) >> N) as i32))) }
#[inline(always)]
pub unsafe fn vrsra_n_s32<const N: i32>(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64 + (1 << (N - 1))) >> N) as i32))) }
#[inline(always)]
pub unsafe fn vmin_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmax_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vabd_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| x.abs_diff(y) as i32)) }
#[inline(always)]
pub unsafe fn vhadd_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64) >> 1) as i32)) }
#[inline(always)]
pub unsafe fn vrhadd_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64 + 1) >> 1) as i32)) }
#[inline(always)]
pub unsafe fn vpaddl_s32(a: int32x2_t) -> int64x1_t { int64x1_t(std::array::from_fn(|i| a.0[2 * i] as i64 + a.0[2 * i + 1] as i64)) }
#[inline(always)]
pub unsafe fn vpadal_s32(a: int64x1_t, b: int32x2_t) -> int64x1_t { int64x1_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[2 * i] as i64 + b.0[2 * i + 1] as i64))) }
#[inline(always)]
pub unsafe fn vpadd_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(std::array::from_fn(|i| if i < 1 { a.0[2 * i].wrapping_add(a.0[2 * i + 1]) } else { b.0[2 * i - 2].wrapping_add(b.0[2 * i + 1 - 2]) })) }
#[inline(always)]
pub unsafe fn vrev64_s32(a: int32x2_t) -> int32x2_t { int32x2_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2])) }
#[inline(always)]
pub unsafe fn vreinterpret_u8_s32(a: int32x2_t) -> uint8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s8_s32(a: int32x2_t) -> int8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u16_s32(a: int32x2_t) -> uint16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s16_s32(a: int32x2_t) -> int16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u32_s32(a: int32x2_t) -> uint32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u64_s32(a: int32x2_t) -> uint64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s64_s32(a: int32x2_t) -> int64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_f32_s32(a: int32x2_t) -> float32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vdupq_n_s32(a: i32) -> int32x4_t { int32x4_t([a; 4]) }
#[inline(always)]
pub unsafe fn vmovq_n_s32(a: i32) -> int32x4_t { int32x4_t([a; 4]) }
#[inline(always)]
pub unsafe fn vdupq_lane_s32<const LANE: i32>(a: int32x2_t) -> int32x4_t { int32x4_t([a.0[LANE as usize]; 4]) }
#[inline(always)]
pub unsafe fn vdupq_laneq_s32<const LANE: i32>(a: int32x4_t) -> int32x4_t { int32x4_t([a.0[LANE as usize]; 4]) }
#[inline(always)]
pub unsafe fn vgetq_lane_s32<const LANE: i32>(a: int32x4_t) -> i32 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vsetq_lane_s32<const LANE: i32>(a: i32, mut b: int32x4_t) -> int32x4_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1q_s32(p: *const i32) -> int32x4_t { (p as *const int32x4_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1q_s32(p: *mut i32, a: int32x4_t) { (p as *mut int32x4_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1q_dup_s32(p: *const i32) -> int32x4_t { int32x4_t([p.read_unaligned(); 4]) }
#[inline(always)]
pub unsafe fn vld1q_lane_s32<const LANE: i32>(p: *const i32, mut b: int32x4_t) -> int32x4_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1q_lane_s32<const LANE: i32>(p: *mut i32, a: int32x4_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2q_s32(p: *const i32) -> int32x4x2_t { let d = (p as *const [i32; 8]).read_unaligned(); int32x4x2_t(int32x4_t(std::array::from_fn(|i| d[i * 2 + 0])), int32x4_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2q_s32(p: *mut i32, a: int32x4x2_t) { let s = [a.0.0, a.1.0]; let d: [i32; 8] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [i32; 8]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_s32_x2(p: *const i32) -> int32x4x2_t { int32x4x2_t(vld1q_s32(p.add(0)), vld1q_s32(p.add(4))) }
#[inline(always)]
pub unsafe fn vst1q_s32_x2(p: *mut i32, a: int32x4x2_t) { vst1q_s32(p.add(0), a.0); vst1q_s32(p.add(4), a.1); }
#[inline(always)]
pub unsafe fn vld3q_s32(p: *const i32) -> int32x4x3_t { let d = (p as *const [i32; 12]).read_unaligned(); int32x4x3_t(int32x4_t(std::array::from_fn(|i| d[i * 3 + 0])), int32x4_t(std::array::from_fn(|i| d[i * 3 + 1])), int32x4_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3q_s32(p: *mut i32, a: int32x4x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [i32; 12] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [i32; 12]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_s32_x3(p: *const i32) -> int32x4x3_t { int32x4x3_t(vld1q_s32(p.add(0)), vld1q_s32(p.add(4)), vld1q_s32(p.add(8))) }
#[inline(always)]
pub unsafe fn vst1q_s32_x3(p: *mut i32, a: int32x4x3_t) { vst1q_s32(p.add(0), a.0); vst1q_s32(p.add(4), a.1); vst1q_s32(p.add(8), a.2); }
#[inline(always)]
pub unsafe fn vld4q_s32(p: *const i32) -> int32x4x4_t { let d = (p as *const [i32; 16]).read_unaligned(); int32x4x4_t(int32x4_t(std::array::from_fn(|i| d[i * 4 + 0])), int32x4_t(std::array::from_fn(|i| d[i * 4 + 1])), int32x4_t(std::array::from_fn(|i| d[i * 4 + 2])), int32x4_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4q_s32(p: *mut i32, a: int32x4x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [i32; 16] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [i32; 16]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_s32_x4(p: *const i32) -> int32x4x4_t { int32x4x4_t(vld1q_s32(p.add(0)), vld1q_s32(p.add(4)), vld1q_s32(p.add(8)), vld1q_s32(p.add(12))) }
#[inline(always)]
pub unsafe fn vst1q_s32_x4(p: *mut i32, a: int32x4x4_t) { vst1q_s32(p.add(0), a.0); vst1q_s32(p.add(4), a.1); vst1q_s32(p.add(8), a.2); vst1q_s32(p.add(12), a.3); }
#[inline(always)]
pub unsafe fn vzip1q_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2q_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[2 + i / 2] } else { b.0[2 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1q_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i] } else { b.0[2 * i - 4] })) }
#[inline(always)]
pub unsafe fn vuzp2q_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 4] })) }
#[inline(always)]
pub unsafe fn vtrn1q_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2q_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzipq_s32(a: int32x4_t, b: int32x4_t) -> int32x4x2_t { int32x4x2_t(vzip1q_s32(a, b), vzip2q_s32(a, b)) }
#[inline(always)]
pub unsafe fn vuzpq_s32(a: int32x4_t, b: int32x4_t) -> int32x4x2_t { int32x4x2_t(vuzp1q_s32(a, b), vuzp2q_s32(a, b)) }
#[inline(always)]
pub unsafe fn vtrnq_s32(a: int32x4_t, b: int32x4_t) -> int32x4x2_t { int32x4x2_t(vtrn1q_s32(a, b), vtrn2q_s32(a, b)) }
#[inline(always)]
pub unsafe fn vextq_s32<const N: i32>(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(std::array::from_fn(|i| if i + (N as usize) < 4 { a.0[i + N as usize] } else { b.0[i + N as usize - 4] })) }
#[inline(always)]
pub unsafe fn vaddq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsubq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vmulq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x.wrapping_mul(y))) }
#[inline(always)]
pub unsafe fn vmlaq_s32(a: int32x4_t, b: int32x4_t, c: int32x4_t) -> int32x4_t { int32x4_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmlsq_s32(a: int32x4_t, b: int32x4_t, c: int32x4_t) -> int32x4_t { int32x4_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y.wrapping_mul(z)))) }
#[inline(always)]
pub unsafe fn vmulq_n_s32(a: int32x4_t, b: i32) -> int32x4_t { int32x4_t(map(a.0, |x| x.wrapping_mul(b))) }
#[inline(always)]
pub unsafe fn vqaddq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsubq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vandq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorrq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veorq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvnq_s32(a: int32x4_t) -> int32x4_t { int32x4_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbslq_s32(m: uint32x4_t, a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u32) | (!m & y as u32)) as i32)) }
#[inline(always)]
pub unsafe fn vceqq_s32(a: int32x4_t, b: int32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| if x == y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgtq_s32(a: int32x4_t, b: int32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| if x > y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgeq_s32(a: int32x4_t, b: int32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| if x >= y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcltq_s32(a: int32x4_t, b: int32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| if x < y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcleq_s32(a: int32x4_t, b: int32x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| if x <= y { u32::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshlq_n_s32<const N: i32>(a: int32x4_t) -> int32x4_t { int32x4_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshrq_n_s32<const N: i32>(a: int32x4_t) -> int32x4_t { int32x4_t(map(a.0, |x| ((x as i128) >> N) as i32)) }
#[inline(always)]
pub unsafe fn vrshrq_n_s32<const N: i32>(a: int32x4_t) -> int32x4_t { int32x4_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as i32)) }
#[inline(always)]
pub unsafe fn vsraq_n_s32<const N: i32>(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64) >> N) as i32))) }
#[inline(always)]
pub unsafe fn vrsraq_n_s32<const N: i32>(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i64 + (1 << (N - 1))) >> N) as i32))) }
#[inline(always)]
pub unsafe fn vminq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmaxq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vabdq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x.abs_diff(y) as i32)) }
#[inline(always)]
pub unsafe fn vhaddq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64) >> 1) as i32)) }
#[inline(always)]
pub unsafe fn vrhaddq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| ((x as i64 + y as i64 + 1) >> 1) as i32)) }
#[inline(always)]
pub unsafe fn vpaddlq_s32(a: int32x4_t) -> int64x2_t { int64x2_t(std::array::from_fn(|i| a.0[2 * i] as i64 + a.0[2 * i + 1] as i64)) }
#[inline(always)]
pub unsafe fn vpadalq_s32(a: int64x2_t, b: int32x4_t) -> int64x2_t { int64x2_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[2 * i] as i64 + b.0[2 * i + 1] as i64))) }
#[inline(always)]
pub unsafe fn vpaddq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i].wrapping_add(a.0[2 * i + 1]) } else { b.0[2 * i - 4].wrapping_add(b.0[2 * i + 1 - 4]) })) }
#[inline(always)]
pub unsafe fn vrev64q_s32(a: int32x4_t) -> int32x4_t { int32x4_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2])) }
#[inline(always)]
pub unsafe fn vreinterpretq_u8_s32(a: int32x4_t) -> uint8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s8_s32(a: int32x4_t) -> int8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u16_s32(a: int32x4_t) -> uint16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s16_s32(a: int32x4_t) -> int16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u32_s32(a: int32x4_t) -> uint32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u64_s32(a: int32x4_t) -> uint64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s64_s32(a: int32x4_t) -> int64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_f32_s32(a: int32x4_t) -> float32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vget_low_s32(a: int32x4_t) -> int32x2_t { int32x2_t(lo(a.0)) }
#[inline(always)]
pub unsafe fn vget_high_s32(a: int32x4_t) -> int32x2_t { int32x2_t(hi(a.0)) }
#[inline(always)]
pub unsafe fn vcombine_s32(a: int32x2_t, b: int32x2_t) -> int32x4_t { int32x4_t(cat(a.0, b.0)) }
#[inline(always)]
pub unsafe fn vdup_n_u64(a: u64) -> uint64x1_t { uint64x1_t([a; 1]) }
#[inline(always)]
pub unsafe fn vmov_n_u64(a: u64) -> uint64x1_t { uint64x1_t([a; 1]) }
#[inline(always)]
pub unsafe fn vdup_lane_u64<const LANE: i32>(a: uint64x1_t) -> uint64x1_t { uint64x1_t([a.0[LANE as usize]; 1]) }
#[inline(always)]
pub unsafe fn vdup_laneq_u64<const LANE: i32>(a: uint64x2_t) -> uint64x1_t { uint64x1_t([a.0[LANE as usize]; 1]) }
#[inline(always)]
pub unsafe fn vget_lane_u64<const LANE: i32>(a: uint64x1_t) -> u64 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vset_lane_u64<const LANE: i32>(a: u64, mut b: uint64x1_t) -> uint64x1_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1_u64(p: *const u64) -> uint64x1_t { (p as *const uint64x1_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1_u64(p: *mut u64, a: uint64x1_t) { (p as *mut uint64x1_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1_dup_u64(p: *const u64) -> uint64x1_t { uint64x1_t([p.read_unaligned(); 1]) }
#[inline(always)]
pub unsafe fn vld1_lane_u64<const LANE: i32>(p: *const u64, mut b: uint64x1_t) -> uint64x1_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1_lane_u64<const LANE: i32>(p: *mut u64, a: uint64x1_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2_u64(p: *const u64) -> uint64x1x2_t { let d = (p as *const [u64; 2]).read_unaligned(); uint64x1x2_t(uint64x1_t(std::array::from_fn(|i| d[i * 2 + 0])), uint64x1_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2_u64(p: *mut u64, a: uint64x1x2_t) { let s = [a.0.0, a.1.0]; let d: [u64; 2] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [u64; 2]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_u64_x2(p: *const u64) -> uint64x1x2_t { uint64x1x2_t(vld1_u64(p.add(0)), vld1_u64(p.add(1))) }
#[inline(always)]
pub unsafe fn vst1_u64_x2(p: *mut u64, a: uint64x1x2_t) { vst1_u64(p.add(0), a.0); vst1_u64(p.add(1), a.1); }
#[inline(always)]
pub unsafe fn vld3_u64(p: *const u64) -> uint64x1x3_t { let d = (p as *const [u64; 3]).read_unaligned(); uint64x1x3_t(uint64x1_t(std::array::from_fn(|i| d[i * 3 + 0])), uint64x1_t(std::array::from_fn(|i| d[i * 3 + 1])), uint64x1_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3_u64(p: *mut u64, a: uint64x1x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [u64; 3] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [u64; 3]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_u64_x3(p: *const u64) -> uint64x1x3_t { uint64x1x3_t(vld1_u64(p.add(0)), vld1_u64(p.add(1)), vld1_u64(p.add(2))) }
#[inline(always)]
pub unsafe fn vst1_u64_x3(p: *mut u64, a: uint64x1x3_t) { vst1_u64(p.add(0), a.0); vst1_u64(p.add(1), a.1); vst1_u64(p.add(2), a.2); }
#[inline(always)]
pub unsafe fn vld4_u64(p: *const u64) -> uint64x1x4_t { let d = (p as *const [u64; 4]).read_unaligned(); uint64x1x4_t(uint64x1_t(std::array::from_fn(|i| d[i * 4 + 0])), uint64x1_t(std::array::from_fn(|i| d[i * 4 + 1])), uint64x1_t(std::array::from_fn(|i| d[i * 4 + 2])), uint64x1_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4_u64(p: *mut u64, a: uint64x1x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [u64; 4] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [u64; 4]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_u64_x4(p: *const u64) -> uint64x1x4_t { uint64x1x4_t(vld1_u64(p.add(0)), vld1_u64(p.add(1)), vld1_u64(p.add(2)), vld1_u64(p.add(3))) }
#[inline(always)]
pub unsafe fn vst1_u64_x4(p: *mut u64, a: uint64x1x4_t) { vst1_u64(p.add(0), a.0); vst1_u64(p.add(1), a.1); vst1_u64(p.add(2), a.2); vst1_u64(p.add(3), a.3); }
#[inline(always)]
pub unsafe fn vadd_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsub_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vqadd_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsub_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vand_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorr_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veor_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvn_u64(a: uint64x1_t) -> uint64x1_t { uint64x1_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbsl_u64(m: uint64x1_t, a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u64) | (!m & y as u64)) as u64)) }
#[inline(always)]
pub unsafe fn vceq_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| if x == y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgt_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| if x > y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcge_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| if x >= y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vclt_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| if x < y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcle_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| if x <= y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshl_n_u64<const N: i32>(a: uint64x1_t) -> uint64x1_t { uint64x1_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshr_n_u64<const N: i32>(a: uint64x1_t) -> uint64x1_t { uint64x1_t(map(a.0, |x| ((x as i128) >> N) as u64)) }
#[inline(always)]
pub unsafe fn vrshr_n_u64<const N: i32>(a: uint64x1_t) -> uint64x1_t { uint64x1_t(map(a.0, |x| ((x as i128 + (1 << (N - 1))) >> N) as u64)) }
#[inline(always)]
pub unsafe fn vsra_n_u64<const N: i32>(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i128) >> N) as u64))) }
#[inline(always)]
pub unsafe fn vrsra_n_u64<const N: i32>(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i128 + (1 << (N - 1))) >> N) as u64))) }
#[inline(always)]
pub unsafe fn vreinterpret_u8_u64(a: uint64x1_t) -> uint8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s8_u64(a: uint64x1_t) -> int8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u16_u64(a: uint64x1_t) -> uint16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s16_u64(a: uint64x1_t) -> int16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u32_u64(a: uint64x1_t) -> uint32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s32_u64(a: uint64x1_t) -> int32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s64_u64(a: uint64x1_t) -> int64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_f32_u64(a: uint64x1_t) -> float32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vdupq_n_u64(a: u64) -> uint64x2_t { uint64x2_t([a; 2]) }
#[inline(always)]
pub unsafe fn vmovq_n_u64(a: u64) -> uint64x2_t { uint64x2_t([a; 2]) }
#[inline(always)]
pub unsafe fn vdupq_lane_u64<const LANE: i32>(a: uint64x1_t) -> uint64x2_t { uint64x2_t([a.0[LANE as usize]; 2]) }
#[inline(always)]
pub unsafe fn vdupq_laneq_u64<const LANE: i32>(a: uint64x2_t) -> uint64x2_t { uint64x2_t([a.0[LANE as usize]; 2]) }
#[inline(always)]
pub unsafe fn vgetq_lane_u64<const LANE: i32>(a: uint64x2_t) -> u64 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vsetq_lane_u64<const LANE: i32>(a: u64, mut b: uint64x2_t) -> uint64x2_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1q_u64(p: *const u64) -> uint64x2_t { (p as *const uint64x2_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1q_u64(p: *mut u64, a: uint64x2_t) { (p as *mut uint64x2_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1q_dup_u64(p: *const u64) -> uint64x2_t { uint64x2_t([p.read_unaligned(); 2]) }
#[inline(always)]
pub unsafe fn vld1q_lane_u64<const LANE: i32>(p: *const u64, mut b: uint64x2_t) -> uint64x2_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1q_lane_u64<const LANE: i32>(p: *mut u64, a: uint64x2_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2q_u64(p: *const u64) -> uint64x2x2_t { let d = (p as *const [u64; 4]).read_unaligned(); uint64x2x2_t(uint64x2_t(std::array::from_fn(|i| d[i * 2 + 0])), uint64x2_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2q_u64(p: *mut u64, a: uint64x2x2_t) { let s = [a.0.0, a.1.0]; let d: [u64; 4] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [u64; 4]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_u64_x2(p: *const u64) -> uint64x2x2_t { uint64x2x2_t(vld1q_u64(p.add(0)), vld1q_u64(p.add(2))) }
#[inline(always)]
pub unsafe fn vst1q_u64_x2(p: *mut u64, a: uint64x2x2_t) { vst1q_u64(p.add(0), a.0); vst1q_u64(p.add(2), a.1); }
#[inline(always)]
pub unsafe fn vld3q_u64(p: *const u64) -> uint64x2x3_t { let d = (p as *const [u64; 6]).read_unaligned(); uint64x2x3_t(uint64x2_t(std::array::from_fn(|i| d[i * 3 + 0])), uint64x2_t(std::array::from_fn(|i| d[i * 3 + 1])), uint64x2_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3q_u64(p: *mut u64, a: uint64x2x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [u64; 6] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [u64; 6]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_u64_x3(p: *const u64) -> uint64x2x3_t { uint64x2x3_t(vld1q_u64(p.add(0)), vld1q_u64(p.add(2)), vld1q_u64(p.add(4))) }
#[inline(always)]
pub unsafe fn vst1q_u64_x3(p: *mut u64, a: uint64x2x3_t) { vst1q_u64(p.add(0), a.0); vst1q_u64(p.add(2), a.1); vst1q_u64(p.add(4), a.2); }
#[inline(always)]
pub unsafe fn vld4q_u64(p: *const u64) -> uint64x2x4_t { let d = (p as *const [u64; 8]).read_unaligned(); uint64x2x4_t(uint64x2_t(std::array::from_fn(|i| d[i * 4 + 0])), uint64x2_t(std::array::from_fn(|i| d[i * 4 + 1])), uint64x2_t(std::array::from_fn(|i| d[i * 4 + 2])), uint64x2_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4q_u64(p: *mut u64, a: uint64x2x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [u64; 8] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [u64; 8]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_u64_x4(p: *const u64) -> uint64x2x4_t { uint64x2x4_t(vld1q_u64(p.add(0)), vld1q_u64(p.add(2)), vld1q_u64(p.add(4)), vld1q_u64(p.add(6))) }
#[inline(always)]
pub unsafe fn vst1q_u64_x4(p: *mut u64, a: uint64x2x4_t) { vst1q_u64(p.add(0), a.0); vst1q_u64(p.add(2), a.1); vst1q_u64(p.add(4), a.2); vst1q_u64(p.add(6), a.3); }
#[inline(always)]
pub unsafe fn vzip1q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[1 + i / 2] } else { b.0[1 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(std::array::from_fn(|i| if i < 1 { a.0[2 * i] } else { b.0[2 * i - 2] })) }
#[inline(always)]
pub unsafe fn vuzp2q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(std::array::from_fn(|i| if i < 1 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 2] })) }
#[inline(always)]
pub unsafe fn vtrn1q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzipq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2x2_t { uint64x2x2_t(vzip1q_u64(a, b), vzip2q_u64(a, b)) }
#[inline(always)]
pub unsafe fn vuzpq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2x2_t { uint64x2x2_t(vuzp1q_u64(a, b), vuzp2q_u64(a, b)) }
#[inline(always)]
pub unsafe fn vtrnq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2x2_t { uint64x2x2_t(vtrn1q_u64(a, b), vtrn2q_u64(a, b)) }
#[inline(always)]
pub unsafe fn vextq_u64<const N: i32>(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(std::array::from_fn(|i| if i + (N as usize) < 2 { a.0[i + N as usize] } else { b.0[i + N as usize - 2] })) }
#[inline(always)]
pub unsafe fn vaddq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsubq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vqaddq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsubq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vandq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorrq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veorq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvnq_u64(a: uint64x2_t) -> uint64x2_t { uint64x2_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbslq_u64(m: uint64x2_t, a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u64) | (!m & y as u64)) as u64)) }
#[inline(always)]
pub unsafe fn vceqq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| if x == y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgtq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| if x > y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgeq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| if x >= y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcltq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| if x < y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcleq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| if x <= y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshlq_n_u64<const N: i32>(a: uint64x2_t) -> uint64x2_t { uint64x2_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshrq_n_u64<const N: i32>(a: uint64x2_t) -> uint64x2_t { uint64x2_t(map(a.0, |x| ((x as i128) >> N) as u64)) }
#[inline(always)]
pub unsafe fn vrshrq_n_u64<const N: i32>(a: uint64x2_t) -> uint64x2_t { uint64x2_t(map(a.0, |x| ((x as i128 + (1 << (N - 1))) >> N) as u64)) }
#[inline(always)]
pub unsafe fn vsraq_n_u64<const N: i32>(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i128) >> N) as u64))) }
#[inline(always)]
pub unsafe fn vrsraq_n_u64<const N: i32>(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i128 + (1 << (N - 1))) >> N) as u64))) }
#[inline(always)]
pub unsafe fn vreinterpretq_u8_u64(a: uint64x2_t) -> uint8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s8_u64(a: uint64x2_t) -> int8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u16_u64(a: uint64x2_t) -> uint16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s16_u64(a: uint64x2_t) -> int16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u32_u64(a: uint64x2_t) -> uint32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s32_u64(a: uint64x2_t) -> int32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s64_u64(a: uint64x2_t) -> int64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_f32_u64(a: uint64x2_t) -> float32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vget_low_u64(a: uint64x2_t) -> uint64x1_t { uint64x1_t(lo(a.0)) }
#[inline(always)]
pub unsafe fn vget_high_u64(a: uint64x2_t) -> uint64x1_t { uint64x1_t(hi(a.0)) }
#[inline(always)]
pub unsafe fn vcombine_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x2_t { uint64x2_t(cat(a.0, b.0)) }
#[inline(always)]
pub unsafe fn vdup_n_s64(a: i64) -> int64x1_t { int64x1_t([a; 1]) }
#[inline(always)]
pub unsafe fn vmov_n_s64(a: i64) -> int64x1_t { int64x1_t([a; 1]) }
#[inline(always)]
pub unsafe fn vdup_lane_s64<const LANE: i32>(a: int64x1_t) -> int64x1_t { int64x1_t([a.0[LANE as usize]; 1]) }
#[inline(always)]
pub unsafe fn vdup_laneq_s64<const LANE: i32>(a: int64x2_t) -> int64x1_t { int64x1_t([a.0[LANE as usize]; 1]) }
#[inline(always)]
pub unsafe fn vget_lane_s64<const LANE: i32>(a: int64x1_t) -> i64 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vset_lane_s64<const LANE: i32>(a: i64, mut b: int64x1_t) -> int64x1_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1_s64(p: *const i64) -> int64x1_t { (p as *const int64x1_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1_s64(p: *mut i64, a: int64x1_t) { (p as *mut int64x1_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1_dup_s64(p: *const i64) -> int64x1_t { int64x1_t([p.read_unaligned(); 1]) }
#[inline(always)]
pub unsafe fn vld1_lane_s64<const LANE: i32>(p: *const i64, mut b: int64x1_t) -> int64x1_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1_lane_s64<const LANE: i32>(p: *mut i64, a: int64x1_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2_s64(p: *const i64) -> int64x1x2_t { let d = (p as *const [i64; 2]).read_unaligned(); int64x1x2_t(int64x1_t(std::array::from_fn(|i| d[i * 2 + 0])), int64x1_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2_s64(p: *mut i64, a: int64x1x2_t) { let s = [a.0.0, a.1.0]; let d: [i64; 2] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [i64; 2]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_s64_x2(p: *const i64) -> int64x1x2_t { int64x1x2_t(vld1_s64(p.add(0)), vld1_s64(p.add(1))) }
#[inline(always)]
pub unsafe fn vst1_s64_x2(p: *mut i64, a: int64x1x2_t) { vst1_s64(p.add(0), a.0); vst1_s64(p.add(1), a.1); }
#[inline(always)]
pub unsafe fn vld3_s64(p: *const i64) -> int64x1x3_t { let d = (p as *const [i64; 3]).read_unaligned(); int64x1x3_t(int64x1_t(std::array::from_fn(|i| d[i * 3 + 0])), int64x1_t(std::array::from_fn(|i| d[i * 3 + 1])), int64x1_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3_s64(p: *mut i64, a: int64x1x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [i64; 3] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [i64; 3]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_s64_x3(p: *const i64) -> int64x1x3_t { int64x1x3_t(vld1_s64(p.add(0)), vld1_s64(p.add(1)), vld1_s64(p.add(2))) }
#[inline(always)]
pub unsafe fn vst1_s64_x3(p: *mut i64, a: int64x1x3_t) { vst1_s64(p.add(0), a.0); vst1_s64(p.add(1), a.1); vst1_s64(p.add(2), a.2); }
#[inline(always)]
pub unsafe fn vld4_s64(p: *const i64) -> int64x1x4_t { let d = (p as *const [i64; 4]).read_unaligned(); int64x1x4_t(int64x1_t(std::array::from_fn(|i| d[i * 4 + 0])), int64x1_t(std::array::from_fn(|i| d[i * 4 + 1])), int64x1_t(std::array::from_fn(|i| d[i * 4 + 2])), int64x1_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4_s64(p: *mut i64, a: int64x1x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [i64; 4] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [i64; 4]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_s64_x4(p: *const i64) -> int64x1x4_t { int64x1x4_t(vld1_s64(p.add(0)), vld1_s64(p.add(1)), vld1_s64(p.add(2)), vld1_s64(p.add(3))) }
#[inline(always)]
pub unsafe fn vst1_s64_x4(p: *mut i64, a: int64x1x4_t) { vst1_s64(p.add(0), a.0); vst1_s64(p.add(1), a.1); vst1_s64(p.add(2), a.2); vst1_s64(p.add(3), a.3); }
#[inline(always)]
pub unsafe fn vadd_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t { int64x1_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsub_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t { int64x1_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vqadd_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t { int64x1_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsub_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t { int64x1_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vand_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t { int64x1_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorr_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t { int64x1_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veor_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t { int64x1_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvn_s64(a: int64x1_t) -> int64x1_t { int64x1_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbsl_s64(m: uint64x1_t, a: int64x1_t, b: int64x1_t) -> int64x1_t { int64x1_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u64) | (!m & y as u64)) as i64)) }
#[inline(always)]
pub unsafe fn vceq_s64(a: int64x1_t, b: int64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| if x == y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgt_s64(a: int64x1_t, b: int64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| if x > y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcge_s64(a: int64x1_t, b: int64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| if x >= y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vclt_s64(a: int64x1_t, b: int64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| if x < y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcle_s64(a: int64x1_t, b: int64x1_t) -> uint64x1_t { uint64x1_t(map2(a.0, b.0, |x, y| if x <= y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshl_n_s64<const N: i32>(a: int64x1_t) -> int64x1_t { int64x1_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshr_n_s64<const N: i32>(a: int64x1_t) -> int64x1_t { int64x1_t(map(a.0, |x| ((x as i128) >> N) as i64)) }
#[inline(always)]
pub unsafe fn vrshr_n_s64<const N: i32>(a: int64x1_t) -> int64x1_t { int64x1_t(map(a.0, |x| ((x as i128 + (1 << (N - 1))) >> N) as i64)) }
#[inline(always)]
pub unsafe fn vsra_n_s64<const N: i32>(a: int64x1_t, b: int64x1_t) -> int64x1_t { int64x1_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i128) >> N) as i64))) }
#[inline(always)]
pub unsafe fn vrsra_n_s64<const N: i32>(a: int64x1_t, b: int64x1_t) -> int64x1_t { int64x1_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i128 + (1 << (N - 1))) >> N) as i64))) }
#[inline(always)]
pub unsafe fn vreinterpret_u8_s64(a: int64x1_t) -> uint8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s8_s64(a: int64x1_t) -> int8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u16_s64(a: int64x1_t) -> uint16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s16_s64(a: int64x1_t) -> int16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u32_s64(a: int64x1_t) -> uint32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s32_s64(a: int64x1_t) -> int32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u64_s64(a: int64x1_t) -> uint64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_f32_s64(a: int64x1_t) -> float32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vdupq_n_s64(a: i64) -> int64x2_t { int64x2_t([a; 2]) }
#[inline(always)]
pub unsafe fn vmovq_n_s64(a: i64) -> int64x2_t { int64x2_t([a; 2]) }
#[inline(always)]
pub unsafe fn vdupq_lane_s64<const LANE: i32>(a: int64x1_t) -> int64x2_t { int64x2_t([a.0[LANE as usize]; 2]) }
#[inline(always)]
pub unsafe fn vdupq_laneq_s64<const LANE: i32>(a: int64x2_t) -> int64x2_t { int64x2_t([a.0[LANE as usize]; 2]) }
#[inline(always)]
pub unsafe fn vgetq_lane_s64<const LANE: i32>(a: int64x2_t) -> i64 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vsetq_lane_s64<const LANE: i32>(a: i64, mut b: int64x2_t) -> int64x2_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1q_s64(p: *const i64) -> int64x2_t { (p as *const int64x2_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1q_s64(p: *mut i64, a: int64x2_t) { (p as *mut int64x2_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1q_dup_s64(p: *const i64) -> int64x2_t { int64x2_t([p.read_unaligned(); 2]) }
#[inline(always)]
pub unsafe fn vld1q_lane_s64<const LANE: i32>(p: *const i64, mut b: int64x2_t) -> int64x2_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1q_lane_s64<const LANE: i32>(p: *mut i64, a: int64x2_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2q_s64(p: *const i64) -> int64x2x2_t { let d = (p as *const [i64; 4]).read_unaligned(); int64x2x2_t(int64x2_t(std::array::from_fn(|i| d[i * 2 + 0])), int64x2_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2q_s64(p: *mut i64, a: int64x2x2_t) { let s = [a.0.0, a.1.0]; let d: [i64; 4] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [i64; 4]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_s64_x2(p: *const i64) -> int64x2x2_t { int64x2x2_t(vld1q_s64(p.add(0)), vld1q_s64(p.add(2))) }
#[inline(always)]
pub unsafe fn vst1q_s64_x2(p: *mut i64, a: int64x2x2_t) { vst1q_s64(p.add(0), a.0); vst1q_s64(p.add(2), a.1); }
#[inline(always)]
pub unsafe fn vld3q_s64(p: *const i64) -> int64x2x3_t { let d = (p as *const [i64; 6]).read_unaligned(); int64x2x3_t(int64x2_t(std::array::from_fn(|i| d[i * 3 + 0])), int64x2_t(std::array::from_fn(|i| d[i * 3 + 1])), int64x2_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3q_s64(p: *mut i64, a: int64x2x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [i64; 6] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [i64; 6]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_s64_x3(p: *const i64) -> int64x2x3_t { int64x2x3_t(vld1q_s64(p.add(0)), vld1q_s64(p.add(2)), vld1q_s64(p.add(4))) }
#[inline(always)]
pub unsafe fn vst1q_s64_x3(p: *mut i64, a: int64x2x3_t) { vst1q_s64(p.add(0), a.0); vst1q_s64(p.add(2), a.1); vst1q_s64(p.add(4), a.2); }
#[inline(always)]
pub unsafe fn vld4q_s64(p: *const i64) -> int64x2x4_t { let d = (p as *const [i64; 8]).read_unaligned(); int64x2x4_t(int64x2_t(std::array::from_fn(|i| d[i * 4 + 0])), int64x2_t(std::array::from_fn(|i| d[i * 4 + 1])), int64x2_t(std::array::from_fn(|i| d[i * 4 + 2])), int64x2_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4q_s64(p: *mut i64, a: int64x2x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [i64; 8] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [i64; 8]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_s64_x4(p: *const i64) -> int64x2x4_t { int64x2x4_t(vld1q_s64(p.add(0)), vld1q_s64(p.add(2)), vld1q_s64(p.add(4)), vld1q_s64(p.add(6))) }
#[inline(always)]
pub unsafe fn vst1q_s64_x4(p: *mut i64, a: int64x2x4_t) { vst1q_s64(p.add(0), a.0); vst1q_s64(p.add(2), a.1); vst1q_s64(p.add(4), a.2); vst1q_s64(p.add(6), a.3); }
#[inline(always)]
pub unsafe fn vzip1q_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2q_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[1 + i / 2] } else { b.0[1 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1q_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(std::array::from_fn(|i| if i < 1 { a.0[2 * i] } else { b.0[2 * i - 2] })) }
#[inline(always)]
pub unsafe fn vuzp2q_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(std::array::from_fn(|i| if i < 1 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 2] })) }
#[inline(always)]
pub unsafe fn vtrn1q_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2q_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzipq_s64(a: int64x2_t, b: int64x2_t) -> int64x2x2_t { int64x2x2_t(vzip1q_s64(a, b), vzip2q_s64(a, b)) }
#[inline(always)]
pub unsafe fn vuzpq_s64(a: int64x2_t, b: int64x2_t) -> int64x2x2_t { int64x2x2_t(vuzp1q_s64(a, b), vuzp2q_s64(a, b)) }
#[inline(always)]
pub unsafe fn vtrnq_s64(a: int64x2_t, b: int64x2_t) -> int64x2x2_t { int64x2x2_t(vtrn1q_s64(a, b), vtrn2q_s64(a, b)) }
#[inline(always)]
pub unsafe fn vextq_s64<const N: i32>(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(std::array::from_fn(|i| if i + (N as usize) < 2 { a.0[i + N as usize] } else { b.0[i + N as usize - 2] })) }
#[inline(always)]
pub unsafe fn vaddq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(y))) }
#[inline(always)]
pub unsafe fn vsubq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y))) }
#[inline(always)]
pub unsafe fn vqaddq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqsubq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vandq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| x & y)) }
#[inline(always)]
pub unsafe fn vorrq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| x | y)) }
#[inline(always)]
pub unsafe fn veorq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| x ^ y)) }
#[inline(always)]
pub unsafe fn vmvnq_s64(a: int64x2_t) -> int64x2_t { int64x2_t(map(a.0, |x| !x)) }
#[inline(always)]
pub unsafe fn vbslq_s64(m: uint64x2_t, a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(map3(m.0, a.0, b.0, |m, x, y| ((m & x as u64) | (!m & y as u64)) as i64)) }
#[inline(always)]
pub unsafe fn vceqq_s64(a: int64x2_t, b: int64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| if x == y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgtq_s64(a: int64x2_t, b: int64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| if x > y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcgeq_s64(a: int64x2_t, b: int64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| if x >= y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcltq_s64(a: int64x2_t, b: int64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| if x < y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vcleq_s64(a: int64x2_t, b: int64x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| if x <= y { u64::MAX } else { 0 })) }
#[inline(always)]
pub unsafe fn vshlq_n_s64<const N: i32>(a: int64x2_t) -> int64x2_t { int64x2_t(map(a.0, |x| x << N)) }
#[inline(always)]
pub unsafe fn vshrq_n_s64<const N: i32>(a: int64x2_t) -> int64x2_t { int64x2_t(map(a.0, |x| ((x as i128) >> N) as i64)) }
#[inline(always)]
pub unsafe fn vrshrq_n_s64<const N: i32>(a: int64x2_t) -> int64x2_t { int64x2_t(map(a.0, |x| ((x as i128 + (1 << (N - 1))) >> N) as i64)) }
#[inline(always)]
pub unsafe fn vsraq_n_s64<const N: i32>(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i128) >> N) as i64))) }
#[inline(always)]
pub unsafe fn vrsraq_n_s64<const N: i32>(a: int64x2_t, b: int64x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(((y as i128 + (1 << (N - 1))) >> N) as i64))) }
#[inline(always)]
pub unsafe fn vreinterpretq_u8_s64(a: int64x2_t) -> uint8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s8_s64(a: int64x2_t) -> int8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u16_s64(a: int64x2_t) -> uint16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s16_s64(a: int64x2_t) -> int16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u32_s64(a: int64x2_t) -> uint32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s32_s64(a: int64x2_t) -> int32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u64_s64(a: int64x2_t) -> uint64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_f32_s64(a: int64x2_t) -> float32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vget_low_s64(a: int64x2_t) -> int64x1_t { int64x1_t(lo(a.0)) }
#[inline(always)]
pub unsafe fn vget_high_s64(a: int64x2_t) -> int64x1_t { int64x1_t(hi(a.0)) }
#[inline(always)]
pub unsafe fn vcombine_s64(a: int64x1_t, b: int64x1_t) -> int64x2_t { int64x2_t(cat(a.0, b.0)) }
#[inline(always)]
pub unsafe fn vdup_n_f32(a: f32) -> float32x2_t { float32x2_t([a; 2]) }
#[inline(always)]
pub unsafe fn vmov_n_f32(a: f32) -> float32x2_t { float32x2_t([a; 2]) }
#[inline(always)]
pub unsafe fn vdup_lane_f32<const LANE: i32>(a: float32x2_t) -> float32x2_t { float32x2_t([a.0[LANE as usize]; 2]) }
#[inline(always)]
pub unsafe fn vdup_laneq_f32<const LANE: i32>(a: float32x4_t) -> float32x2_t { float32x2_t([a.0[LANE as usize]; 2]) }
#[inline(always)]
pub unsafe fn vget_lane_f32<const LANE: i32>(a: float32x2_t) -> f32 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vset_lane_f32<const LANE: i32>(a: f32, mut b: float32x2_t) -> float32x2_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1_f32(p: *const f32) -> float32x2_t { (p as *const float32x2_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1_f32(p: *mut f32, a: float32x2_t) { (p as *mut float32x2_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1_dup_f32(p: *const f32) -> float32x2_t { float32x2_t([p.read_unaligned(); 2]) }
#[inline(always)]
pub unsafe fn vld1_lane_f32<const LANE: i32>(p: *const f32, mut b: float32x2_t) -> float32x2_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1_lane_f32<const LANE: i32>(p: *mut f32, a: float32x2_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2_f32(p: *const f32) -> float32x2x2_t { let d = (p as *const [f32; 4]).read_unaligned(); float32x2x2_t(float32x2_t(std::array::from_fn(|i| d[i * 2 + 0])), float32x2_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2_f32(p: *mut f32, a: float32x2x2_t) { let s = [a.0.0, a.1.0]; let d: [f32; 4] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [f32; 4]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_f32_x2(p: *const f32) -> float32x2x2_t { float32x2x2_t(vld1_f32(p.add(0)), vld1_f32(p.add(2))) }
#[inline(always)]
pub unsafe fn vst1_f32_x2(p: *mut f32, a: float32x2x2_t) { vst1_f32(p.add(0), a.0); vst1_f32(p.add(2), a.1); }
#[inline(always)]
pub unsafe fn vld3_f32(p: *const f32) -> float32x2x3_t { let d = (p as *const [f32; 6]).read_unaligned(); float32x2x3_t(float32x2_t(std::array::from_fn(|i| d[i * 3 + 0])), float32x2_t(std::array::from_fn(|i| d[i * 3 + 1])), float32x2_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3_f32(p: *mut f32, a: float32x2x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [f32; 6] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [f32; 6]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_f32_x3(p: *const f32) -> float32x2x3_t { float32x2x3_t(vld1_f32(p.add(0)), vld1_f32(p.add(2)), vld1_f32(p.add(4))) }
#[inline(always)]
pub unsafe fn vst1_f32_x3(p: *mut f32, a: float32x2x3_t) { vst1_f32(p.add(0), a.0); vst1_f32(p.add(2), a.1); vst1_f32(p.add(4), a.2); }
#[inline(always)]
pub unsafe fn vld4_f32(p: *const f32) -> float32x2x4_t { let d = (p as *const [f32; 8]).read_unaligned(); float32x2x4_t(float32x2_t(std::array::from_fn(|i| d[i * 4 + 0])), float32x2_t(std::array::from_fn(|i| d[i * 4 + 1])), float32x2_t(std::array::from_fn(|i| d[i * 4 + 2])), float32x2_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4_f32(p: *mut f32, a: float32x2x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [f32; 8] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [f32; 8]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1_f32_x4(p: *const f32) -> float32x2x4_t { float32x2x4_t(vld1_f32(p.add(0)), vld1_f32(p.add(2)), vld1_f32(p.add(4)), vld1_f32(p.add(6))) }
#[inline(always)]
pub unsafe fn vst1_f32_x4(p: *mut f32, a: float32x2x4_t) { vst1_f32(p.add(0), a.0); vst1_f32(p.add(2), a.1); vst1_f32(p.add(4), a.2); vst1_f32(p.add(6), a.3); }
#[inline(always)]
pub unsafe fn vzip1_f32(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2_f32(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[1 + i / 2] } else { b.0[1 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1_f32(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t(std::array::from_fn(|i| if i < 1 { a.0[2 * i] } else { b.0[2 * i - 2] })) }
#[inline(always)]
pub unsafe fn vuzp2_f32(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t(std::array::from_fn(|i| if i < 1 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 2] })) }
#[inline(always)]
pub unsafe fn vtrn1_f32(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2_f32(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzip_f32(a: float32x2_t, b: float32x2_t) -> float32x2x2_t { float32x2x2_t(vzip1_f32(a, b), vzip2_f32(a, b)) }
#[inline(always)]
pub unsafe fn vuzp_f32(a: float32x2_t, b: float32x2_t) -> float32x2x2_t { float32x2x2_t(vuzp1_f32(a, b), vuzp2_f32(a, b)) }
#[inline(always)]
pub unsafe fn vtrn_f32(a: float32x2_t, b: float32x2_t) -> float32x2x2_t { float32x2x2_t(vtrn1_f32(a, b), vtrn2_f32(a, b)) }
#[inline(always)]
pub unsafe fn vext_f32<const N: i32>(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t(std::array::from_fn(|i| if i + (N as usize) < 2 { a.0[i + N as usize] } else { b.0[i + N as usize - 2] })) }
#[inline(always)]
pub unsafe fn vadd_f32(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t(map2(a.0, b.0, |x, y| x + y)) }
#[inline(always)]
pub unsafe fn vsub_f32(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t(map2(a.0, b.0, |x, y| x - y)) }
#[inline(always)]
pub unsafe fn vmul_f32(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t(map2(a.0, b.0, |x, y| x * y)) }
#[inline(always)]
pub unsafe fn vdiv_f32(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t(map2(a.0, b.0, |x, y| x / y)) }
#[inline(always)]
pub unsafe fn vfma_f32(a: float32x2_t, b: float32x2_t, c: float32x2_t) -> float32x2_t { float32x2_t(map3(a.0, b.0, c.0, |x, y, z| y.mul_add(z, x))) }
#[inline(always)]
pub unsafe fn vmin_f32(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmax_f32(a: float32x2_t, b: float32x2_t) -> float32x2_t { float32x2_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vreinterpret_u8_f32(a: float32x2_t) -> uint8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s8_f32(a: float32x2_t) -> int8x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u16_f32(a: float32x2_t) -> uint16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s16_f32(a: float32x2_t) -> int16x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u32_f32(a: float32x2_t) -> uint32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s32_f32(a: float32x2_t) -> int32x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_u64_f32(a: float32x2_t) -> uint64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpret_s64_f32(a: float32x2_t) -> int64x1_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vdupq_n_f32(a: f32) -> float32x4_t { float32x4_t([a; 4]) }
#[inline(always)]
pub unsafe fn vmovq_n_f32(a: f32) -> float32x4_t { float32x4_t([a; 4]) }
#[inline(always)]
pub unsafe fn vdupq_lane_f32<const LANE: i32>(a: float32x2_t) -> float32x4_t { float32x4_t([a.0[LANE as usize]; 4]) }
#[inline(always)]
pub unsafe fn vdupq_laneq_f32<const LANE: i32>(a: float32x4_t) -> float32x4_t { float32x4_t([a.0[LANE as usize]; 4]) }
#[inline(always)]
pub unsafe fn vgetq_lane_f32<const LANE: i32>(a: float32x4_t) -> f32 { a.0[LANE as usize] }
#[inline(always)]
pub unsafe fn vsetq_lane_f32<const LANE: i32>(a: f32, mut b: float32x4_t) -> float32x4_t { b.0[LANE as usize] = a; b }
#[inline(always)]
pub unsafe fn vld1q_f32(p: *const f32) -> float32x4_t { (p as *const float32x4_t).read_unaligned() }
#[inline(always)]
pub unsafe fn vst1q_f32(p: *mut f32, a: float32x4_t) { (p as *mut float32x4_t).write_unaligned(a) }
#[inline(always)]
pub unsafe fn vld1q_dup_f32(p: *const f32) -> float32x4_t { float32x4_t([p.read_unaligned(); 4]) }
#[inline(always)]
pub unsafe fn vld1q_lane_f32<const LANE: i32>(p: *const f32, mut b: float32x4_t) -> float32x4_t { b.0[LANE as usize] = p.read_unaligned(); b }
#[inline(always)]
pub unsafe fn vst1q_lane_f32<const LANE: i32>(p: *mut f32, a: float32x4_t) { p.write_unaligned(a.0[LANE as usize]) }
#[inline(always)]
pub unsafe fn vld2q_f32(p: *const f32) -> float32x4x2_t { let d = (p as *const [f32; 8]).read_unaligned(); float32x4x2_t(float32x4_t(std::array::from_fn(|i| d[i * 2 + 0])), float32x4_t(std::array::from_fn(|i| d[i * 2 + 1]))) }
#[inline(always)]
pub unsafe fn vst2q_f32(p: *mut f32, a: float32x4x2_t) { let s = [a.0.0, a.1.0]; let d: [f32; 8] = std::array::from_fn(|i| s[i % 2][i / 2]); (p as *mut [f32; 8]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_f32_x2(p: *const f32) -> float32x4x2_t { float32x4x2_t(vld1q_f32(p.add(0)), vld1q_f32(p.add(4))) }
#[inline(always)]
pub unsafe fn vst1q_f32_x2(p: *mut f32, a: float32x4x2_t) { vst1q_f32(p.add(0), a.0); vst1q_f32(p.add(4), a.1); }
#[inline(always)]
pub unsafe fn vld3q_f32(p: *const f32) -> float32x4x3_t { let d = (p as *const [f32; 12]).read_unaligned(); float32x4x3_t(float32x4_t(std::array::from_fn(|i| d[i * 3 + 0])), float32x4_t(std::array::from_fn(|i| d[i * 3 + 1])), float32x4_t(std::array::from_fn(|i| d[i * 3 + 2]))) }
#[inline(always)]
pub unsafe fn vst3q_f32(p: *mut f32, a: float32x4x3_t) { let s = [a.0.0, a.1.0, a.2.0]; let d: [f32; 12] = std::array::from_fn(|i| s[i % 3][i / 3]); (p as *mut [f32; 12]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_f32_x3(p: *const f32) -> float32x4x3_t { float32x4x3_t(vld1q_f32(p.add(0)), vld1q_f32(p.add(4)), vld1q_f32(p.add(8))) }
#[inline(always)]
pub unsafe fn vst1q_f32_x3(p: *mut f32, a: float32x4x3_t) { vst1q_f32(p.add(0), a.0); vst1q_f32(p.add(4), a.1); vst1q_f32(p.add(8), a.2); }
#[inline(always)]
pub unsafe fn vld4q_f32(p: *const f32) -> float32x4x4_t { let d = (p as *const [f32; 16]).read_unaligned(); float32x4x4_t(float32x4_t(std::array::from_fn(|i| d[i * 4 + 0])), float32x4_t(std::array::from_fn(|i| d[i * 4 + 1])), float32x4_t(std::array::from_fn(|i| d[i * 4 + 2])), float32x4_t(std::array::from_fn(|i| d[i * 4 + 3]))) }
#[inline(always)]
pub unsafe fn vst4q_f32(p: *mut f32, a: float32x4x4_t) { let s = [a.0.0, a.1.0, a.2.0, a.3.0]; let d: [f32; 16] = std::array::from_fn(|i| s[i % 4][i / 4]); (p as *mut [f32; 16]).write_unaligned(d) }
#[inline(always)]
pub unsafe fn vld1q_f32_x4(p: *const f32) -> float32x4x4_t { float32x4x4_t(vld1q_f32(p.add(0)), vld1q_f32(p.add(4)), vld1q_f32(p.add(8)), vld1q_f32(p.add(12))) }
#[inline(always)]
pub unsafe fn vst1q_f32_x4(p: *mut f32, a: float32x4x4_t) { vst1q_f32(p.add(0), a.0); vst1q_f32(p.add(4), a.1); vst1q_f32(p.add(8), a.2); vst1q_f32(p.add(12), a.3); }
#[inline(always)]
pub unsafe fn vzip1q_f32(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] })) }
#[inline(always)]
pub unsafe fn vzip2q_f32(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[2 + i / 2] } else { b.0[2 + i / 2] })) }
#[inline(always)]
pub unsafe fn vuzp1q_f32(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i] } else { b.0[2 * i - 4] })) }
#[inline(always)]
pub unsafe fn vuzp2q_f32(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t(std::array::from_fn(|i| if i < 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 4] })) }
#[inline(always)]
pub unsafe fn vtrn1q_f32(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] })) }
#[inline(always)]
pub unsafe fn vtrn2q_f32(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] })) }
#[inline(always)]
pub unsafe fn vzipq_f32(a: float32x4_t, b: float32x4_t) -> float32x4x2_t { float32x4x2_t(vzip1q_f32(a, b), vzip2q_f32(a, b)) }
#[inline(always)]
pub unsafe fn vuzpq_f32(a: float32x4_t, b: float32x4_t) -> float32x4x2_t { float32x4x2_t(vuzp1q_f32(a, b), vuzp2q_f32(a, b)) }
#[inline(always)]
pub unsafe fn vtrnq_f32(a: float32x4_t, b: float32x4_t) -> float32x4x2_t { float32x4x2_t(vtrn1q_f32(a, b), vtrn2q_f32(a, b)) }
#[inline(always)]
pub unsafe fn vextq_f32<const N: i32>(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t(std::array::from_fn(|i| if i + (N as usize) < 4 { a.0[i + N as usize] } else { b.0[i + N as usize - 4] })) }
#[inline(always)]
pub unsafe fn vaddq_f32(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t(map2(a.0, b.0, |x, y| x + y)) }
#[inline(always)]
pub unsafe fn vsubq_f32(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t(map2(a.0, b.0, |x, y| x - y)) }
#[inline(always)]
pub unsafe fn vmulq_f32(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t(map2(a.0, b.0, |x, y| x * y)) }
#[inline(always)]
pub unsafe fn vdivq_f32(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t(map2(a.0, b.0, |x, y| x / y)) }
#[inline(always)]
pub unsafe fn vfmaq_f32(a: float32x4_t, b: float32x4_t, c: float32x4_t) -> float32x4_t { float32x4_t(map3(a.0, b.0, c.0, |x, y, z| y.mul_add(z, x))) }
#[inline(always)]
pub unsafe fn vminq_f32(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t(map2(a.0, b.0, |x, y| if y < x { y } else { x })) }
#[inline(always)]
pub unsafe fn vmaxq_f32(a: float32x4_t, b: float32x4_t) -> float32x4_t { float32x4_t(map2(a.0, b.0, |x, y| if y > x { y } else { x })) }
#[inline(always)]
pub unsafe fn vreinterpretq_u8_f32(a: float32x4_t) -> uint8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s8_f32(a: float32x4_t) -> int8x16_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u16_f32(a: float32x4_t) -> uint16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s16_f32(a: float32x4_t) -> int16x8_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u32_f32(a: float32x4_t) -> uint32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s32_f32(a: float32x4_t) -> int32x4_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_u64_f32(a: float32x4_t) -> uint64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vreinterpretq_s64_f32(a: float32x4_t) -> int64x2_t { std::mem::transmute(a) }
#[inline(always)]
pub unsafe fn vget_low_f32(a: float32x4_t) -> float32x2_t { float32x2_t(lo(a.0)) }
#[inline(always)]
pub unsafe fn vget_high_f32(a: float32x4_t) -> float32x2_t { float32x2_t(hi(a.0)) }
#[inline(always)]
pub unsafe fn vcombine_f32(a: float32x2_t, b: float32x2_t) -> float32x4_t { float32x4_t(cat(a.0, b.0)) }
#[inline(always)]
pub unsafe fn vmovl_u8(a: uint8x8_t) -> uint16x8_t { uint16x8_t(map(a.0, |x| x as u16)) }
#[inline(always)]
pub unsafe fn vmovl_high_u8(a: uint8x16_t) -> uint16x8_t { vmovl_u8(vget_high_u8(a)) }
#[inline(always)]
pub unsafe fn vshll_n_u8<const N: i32>(a: uint8x8_t) -> uint16x8_t { uint16x8_t(map(a.0, |x| (x as u16) << N)) }
#[inline(always)]
pub unsafe fn vshll_high_n_u8<const N: i32>(a: uint8x16_t) -> uint16x8_t { vshll_n_u8::<N>(vget_high_u8(a)) }
#[inline(always)]
pub unsafe fn vaddl_u8(a: uint8x8_t, b: uint8x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| (x as u16).wrapping_add(y as u16))) }
#[inline(always)]
pub unsafe fn vaddl_high_u8(a: uint8x16_t, b: uint8x16_t) -> uint16x8_t { vaddl_u8(vget_high_u8(a), vget_high_u8(b)) }
#[inline(always)]
pub unsafe fn vsubl_u8(a: uint8x8_t, b: uint8x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| (x as u16).wrapping_sub(y as u16))) }
#[inline(always)]
pub unsafe fn vsubl_high_u8(a: uint8x16_t, b: uint8x16_t) -> uint16x8_t { vsubl_u8(vget_high_u8(a), vget_high_u8(b)) }
#[inline(always)]
pub unsafe fn vaddw_u8(a: uint16x8_t, b: uint8x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(y as u16))) }
#[inline(always)]
pub unsafe fn vaddw_high_u8(a: uint16x8_t, b: uint8x16_t) -> uint16x8_t { vaddw_u8(a, vget_high_u8(b)) }
#[inline(always)]
pub unsafe fn vsubw_u8(a: uint16x8_t, b: uint8x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y as u16))) }
#[inline(always)]
pub unsafe fn vsubw_high_u8(a: uint16x8_t, b: uint8x16_t) -> uint16x8_t { vsubw_u8(a, vget_high_u8(b)) }
#[inline(always)]
pub unsafe fn vmull_u8(a: uint8x8_t, b: uint8x8_t) -> uint16x8_t { uint16x8_t(map2(a.0, b.0, |x, y| x as u16 * y as u16)) }
#[inline(always)]
pub unsafe fn vmull_high_u8(a: uint8x16_t, b: uint8x16_t) -> uint16x8_t { vmull_u8(vget_high_u8(a), vget_high_u8(b)) }
#[inline(always)]
pub unsafe fn vmlal_u8(a: uint16x8_t, b: uint8x8_t, c: uint8x8_t) -> uint16x8_t { uint16x8_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y as u16 * z as u16))) }
#[inline(always)]
pub unsafe fn vmlal_high_u8(a: uint16x8_t, b: uint8x16_t, c: uint8x16_t) -> uint16x8_t { vmlal_u8(a, vget_high_u8(b), vget_high_u8(c)) }
#[inline(always)]
pub unsafe fn vmlsl_u8(a: uint16x8_t, b: uint8x8_t, c: uint8x8_t) -> uint16x8_t { uint16x8_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y as u16 * z as u16))) }
#[inline(always)]
pub unsafe fn vmlsl_high_u8(a: uint16x8_t, b: uint8x16_t, c: uint8x16_t) -> uint16x8_t { vmlsl_u8(a, vget_high_u8(b), vget_high_u8(c)) }
#[inline(always)]
pub unsafe fn vmovn_u16(a: uint16x8_t) -> uint8x8_t { uint8x8_t(map(a.0, |x| x as u8)) }
#[inline(always)]
pub unsafe fn vmovn_high_u16(a: uint8x8_t, b: uint16x8_t) -> uint8x16_t { vcombine_u8(a, vmovn_u16(b)) }
#[inline(always)]
pub unsafe fn vqmovn_u16(a: uint16x8_t) -> uint8x8_t { uint8x8_t(map(a.0, |x| (x as i64).clamp(u8::MIN as i64, u8::MAX as i64) as u8)) }
#[inline(always)]
pub unsafe fn vqmovn_high_u16(a: uint8x8_t, b: uint16x8_t) -> uint8x16_t { vcombine_u8(a, vqmovn_u16(b)) }
#[inline(always)]
pub unsafe fn vshrn_n_u16<const N: i32>(a: uint16x8_t) -> uint8x8_t { uint8x8_t(map(a.0, |x| (x >> N) as u8)) }
#[inline(always)]
pub unsafe fn vrshrn_n_u16<const N: i32>(a: uint16x8_t) -> uint8x8_t { uint8x8_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as u8)) }
#[inline(always)]
pub unsafe fn vqshrn_n_u16<const N: i32>(a: uint16x8_t) -> uint8x8_t { uint8x8_t(map(a.0, |x| ((x as i64) >> N).clamp(u8::MIN as i64, u8::MAX as i64) as u8)) }
#[inline(always)]
pub unsafe fn vqrshrn_n_u16<const N: i32>(a: uint16x8_t) -> uint8x8_t { uint8x8_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N).clamp(u8::MIN as i64, u8::MAX as i64) as u8)) }
#[inline(always)]
pub unsafe fn vshrn_high_n_u16<const N: i32>(a: uint8x8_t, b: uint16x8_t) -> uint8x16_t { vcombine_u8(a, vshrn_n_u16::<N>(b)) }
#[inline(always)]
pub unsafe fn vrshrn_high_n_u16<const N: i32>(a: uint8x8_t, b: uint16x8_t) -> uint8x16_t { vcombine_u8(a, vrshrn_n_u16::<N>(b)) }
#[inline(always)]
pub unsafe fn vqshrn_high_n_u16<const N: i32>(a: uint8x8_t, b: uint16x8_t) -> uint8x16_t { vcombine_u8(a, vqshrn_n_u16::<N>(b)) }
#[inline(always)]
pub unsafe fn vqrshrn_high_n_u16<const N: i32>(a: uint8x8_t, b: uint16x8_t) -> uint8x16_t { vcombine_u8(a, vqrshrn_n_u16::<N>(b)) }
#[inline(always)]
pub unsafe fn vmovl_s8(a: int8x8_t) -> int16x8_t { int16x8_t(map(a.0, |x| x as i16)) }
#[inline(always)]
pub unsafe fn vmovl_high_s8(a: int8x16_t) -> int16x8_t { vmovl_s8(vget_high_s8(a)) }
#[inline(always)]
pub unsafe fn vshll_n_s8<const N: i32>(a: int8x8_t) -> int16x8_t { int16x8_t(map(a.0, |x| (x as i16) << N)) }
#[inline(always)]
pub unsafe fn vshll_high_n_s8<const N: i32>(a: int8x16_t) -> int16x8_t { vshll_n_s8::<N>(vget_high_s8(a)) }
#[inline(always)]
pub unsafe fn vaddl_s8(a: int8x8_t, b: int8x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| (x as i16).wrapping_add(y as i16))) }
#[inline(always)]
pub unsafe fn vaddl_high_s8(a: int8x16_t, b: int8x16_t) -> int16x8_t { vaddl_s8(vget_high_s8(a), vget_high_s8(b)) }
#[inline(always)]
pub unsafe fn vsubl_s8(a: int8x8_t, b: int8x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| (x as i16).wrapping_sub(y as i16))) }
#[inline(always)]
pub unsafe fn vsubl_high_s8(a: int8x16_t, b: int8x16_t) -> int16x8_t { vsubl_s8(vget_high_s8(a), vget_high_s8(b)) }
#[inline(always)]
pub unsafe fn vaddw_s8(a: int16x8_t, b: int8x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x.wrapping_add(y as i16))) }
#[inline(always)]
pub unsafe fn vaddw_high_s8(a: int16x8_t, b: int8x16_t) -> int16x8_t { vaddw_s8(a, vget_high_s8(b)) }
#[inline(always)]
pub unsafe fn vsubw_s8(a: int16x8_t, b: int8x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y as i16))) }
#[inline(always)]
pub unsafe fn vsubw_high_s8(a: int16x8_t, b: int8x16_t) -> int16x8_t { vsubw_s8(a, vget_high_s8(b)) }
#[inline(always)]
pub unsafe fn vmull_s8(a: int8x8_t, b: int8x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| x as i16 * y as i16)) }
#[inline(always)]
pub unsafe fn vmull_high_s8(a: int8x16_t, b: int8x16_t) -> int16x8_t { vmull_s8(vget_high_s8(a), vget_high_s8(b)) }
#[inline(always)]
pub unsafe fn vmlal_s8(a: int16x8_t, b: int8x8_t, c: int8x8_t) -> int16x8_t { int16x8_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y as i16 * z as i16))) }
#[inline(always)]
pub unsafe fn vmlal_high_s8(a: int16x8_t, b: int8x16_t, c: int8x16_t) -> int16x8_t { vmlal_s8(a, vget_high_s8(b), vget_high_s8(c)) }
#[inline(always)]
pub unsafe fn vmlsl_s8(a: int16x8_t, b: int8x8_t, c: int8x8_t) -> int16x8_t { int16x8_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y as i16 * z as i16))) }
#[inline(always)]
pub unsafe fn vmlsl_high_s8(a: int16x8_t, b: int8x16_t, c: int8x16_t) -> int16x8_t { vmlsl_s8(a, vget_high_s8(b), vget_high_s8(c)) }
#[inline(always)]
pub unsafe fn vmovn_s16(a: int16x8_t) -> int8x8_t { int8x8_t(map(a.0, |x| x as i8)) }
#[inline(always)]
pub unsafe fn vmovn_high_s16(a: int8x8_t, b: int16x8_t) -> int8x16_t { vcombine_s8(a, vmovn_s16(b)) }
#[inline(always)]
pub unsafe fn vqmovn_s16(a: int16x8_t) -> int8x8_t { int8x8_t(map(a.0, |x| (x as i64).clamp(i8::MIN as i64, i8::MAX as i64) as i8)) }
#[inline(always)]
pub unsafe fn vqmovn_high_s16(a: int8x8_t, b: int16x8_t) -> int8x16_t { vcombine_s8(a, vqmovn_s16(b)) }
#[inline(always)]
pub unsafe fn vshrn_n_s16<const N: i32>(a: int16x8_t) -> int8x8_t { int8x8_t(map(a.0, |x| (x >> N) as i8)) }
#[inline(always)]
pub unsafe fn vrshrn_n_s16<const N: i32>(a: int16x8_t) -> int8x8_t { int8x8_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as i8)) }
#[inline(always)]
pub unsafe fn vqshrn_n_s16<const N: i32>(a: int16x8_t) -> int8x8_t { int8x8_t(map(a.0, |x| ((x as i64) >> N).clamp(i8::MIN as i64, i8::MAX as i64) as i8)) }
#[inline(always)]
pub unsafe fn vqrshrn_n_s16<const N: i32>(a: int16x8_t) -> int8x8_t { int8x8_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N).clamp(i8::MIN as i64, i8::MAX as i64) as i8)) }
#[inline(always)]
pub unsafe fn vshrn_high_n_s16<const N: i32>(a: int8x8_t, b: int16x8_t) -> int8x16_t { vcombine_s8(a, vshrn_n_s16::<N>(b)) }
#[inline(always)]
pub unsafe fn vrshrn_high_n_s16<const N: i32>(a: int8x8_t, b: int16x8_t) -> int8x16_t { vcombine_s8(a, vrshrn_n_s16::<N>(b)) }
#[inline(always)]
pub unsafe fn vqshrn_high_n_s16<const N: i32>(a: int8x8_t, b: int16x8_t) -> int8x16_t { vcombine_s8(a, vqshrn_n_s16::<N>(b)) }
#[inline(always)]
pub unsafe fn vqrshrn_high_n_s16<const N: i32>(a: int8x8_t, b: int16x8_t) -> int8x16_t { vcombine_s8(a, vqrshrn_n_s16::<N>(b)) }
#[inline(always)]
pub unsafe fn vqmovun_s16(a: int16x8_t) -> uint8x8_t { uint8x8_t(map(a.0, |x| (x as i64).clamp(u8::MIN as i64, u8::MAX as i64) as u8)) }
#[inline(always)]
pub unsafe fn vqmovun_high_s16(a: uint8x8_t, b: int16x8_t) -> uint8x16_t { vcombine_u8(a, vqmovun_s16(b)) }
#[inline(always)]
pub unsafe fn vqshrun_n_s16<const N: i32>(a: int16x8_t) -> uint8x8_t { uint8x8_t(map(a.0, |x| ((x as i64) >> N).clamp(u8::MIN as i64, u8::MAX as i64) as u8)) }
#[inline(always)]
pub unsafe fn vqrshrun_n_s16<const N: i32>(a: int16x8_t) -> uint8x8_t { uint8x8_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N).clamp(u8::MIN as i64, u8::MAX as i64) as u8)) }
#[inline(always)]
pub unsafe fn vqshrun_high_n_s16<const N: i32>(a: uint8x8_t, b: int16x8_t) -> uint8x16_t { vcombine_u8(a, vqshrun_n_s16::<N>(b)) }
#[inline(always)]
pub unsafe fn vqrshrun_high_n_s16<const N: i32>(a: uint8x8_t, b: int16x8_t) -> uint8x16_t { vcombine_u8(a, vqrshrun_n_s16::<N>(b)) }
#[inline(always)]
pub unsafe fn vmovl_u16(a: uint16x4_t) -> uint32x4_t { uint32x4_t(map(a.0, |x| x as u32)) }
#[inline(always)]
pub unsafe fn vmovl_high_u16(a: uint16x8_t) -> uint32x4_t { vmovl_u16(vget_high_u16(a)) }
#[inline(always)]
pub unsafe fn vshll_n_u16<const N: i32>(a: uint16x4_t) -> uint32x4_t { uint32x4_t(map(a.0, |x| (x as u32) << N)) }
#[inline(always)]
pub unsafe fn vshll_high_n_u16<const N: i32>(a: uint16x8_t) -> uint32x4_t { vshll_n_u16::<N>(vget_high_u16(a)) }
#[inline(always)]
pub unsafe fn vaddl_u16(a: uint16x4_t, b: uint16x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| (x as u32).wrapping_add(y as u32))) }
#[inline(always)]
pub unsafe fn vaddl_high_u16(a: uint16x8_t, b: uint16x8_t) -> uint32x4_t { vaddl_u16(vget_high_u16(a), vget_high_u16(b)) }
#[inline(always)]
pub unsafe fn vsubl_u16(a: uint16x4_t, b: uint16x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| (x as u32).wrapping_sub(y as u32))) }
#[inline(always)]
pub unsafe fn vsubl_high_u16(a: uint16x8_t, b: uint16x8_t) -> uint32x4_t { vsubl_u16(vget_high_u16(a), vget_high_u16(b)) }
#[inline(always)]
pub unsafe fn vaddw_u16(a: uint32x4_t, b: uint16x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(y as u32))) }
#[inline(always)]
pub unsafe fn vaddw_high_u16(a: uint32x4_t, b: uint16x8_t) -> uint32x4_t { vaddw_u16(a, vget_high_u16(b)) }
#[inline(always)]
pub unsafe fn vsubw_u16(a: uint32x4_t, b: uint16x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y as u32))) }
#[inline(always)]
pub unsafe fn vsubw_high_u16(a: uint32x4_t, b: uint16x8_t) -> uint32x4_t { vsubw_u16(a, vget_high_u16(b)) }
#[inline(always)]
pub unsafe fn vmull_u16(a: uint16x4_t, b: uint16x4_t) -> uint32x4_t { uint32x4_t(map2(a.0, b.0, |x, y| x as u32 * y as u32)) }
#[inline(always)]
pub unsafe fn vmull_high_u16(a: uint16x8_t, b: uint16x8_t) -> uint32x4_t { vmull_u16(vget_high_u16(a), vget_high_u16(b)) }
#[inline(always)]
pub unsafe fn vmlal_u16(a: uint32x4_t, b: uint16x4_t, c: uint16x4_t) -> uint32x4_t { uint32x4_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y as u32 * z as u32))) }
#[inline(always)]
pub unsafe fn vmlal_high_u16(a: uint32x4_t, b: uint16x8_t, c: uint16x8_t) -> uint32x4_t { vmlal_u16(a, vget_high_u16(b), vget_high_u16(c)) }
#[inline(always)]
pub unsafe fn vmlsl_u16(a: uint32x4_t, b: uint16x4_t, c: uint16x4_t) -> uint32x4_t { uint32x4_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y as u32 * z as u32))) }
#[inline(always)]
pub unsafe fn vmlsl_high_u16(a: uint32x4_t, b: uint16x8_t, c: uint16x8_t) -> uint32x4_t { vmlsl_u16(a, vget_high_u16(b), vget_high_u16(c)) }
#[inline(always)]
pub unsafe fn vmull_n_u16(a: uint16x4_t, b: u16) -> uint32x4_t { vmull_u16(a, vdup_n_u16(b)) }
#[inline(always)]
pub unsafe fn vmull_lane_u16<const LANE: i32>(a: uint16x4_t, b: uint16x4_t) -> uint32x4_t { vmull_u16(a, vdup_lane_u16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmull_high_lane_u16<const LANE: i32>(a: uint16x8_t, b: uint16x4_t) -> uint32x4_t { vmull_u16(vget_high_u16(a), vdup_lane_u16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlal_lane_u16<const LANE: i32>(a: uint32x4_t, b: uint16x4_t, c: uint16x4_t) -> uint32x4_t { vmlal_u16(a, b, vdup_lane_u16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlal_high_lane_u16<const LANE: i32>(a: uint32x4_t, b: uint16x8_t, c: uint16x4_t) -> uint32x4_t { vmlal_u16(a, vget_high_u16(b), vdup_lane_u16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_lane_u16<const LANE: i32>(a: uint32x4_t, b: uint16x4_t, c: uint16x4_t) -> uint32x4_t { vmlsl_u16(a, b, vdup_lane_u16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_high_lane_u16<const LANE: i32>(a: uint32x4_t, b: uint16x8_t, c: uint16x4_t) -> uint32x4_t { vmlsl_u16(a, vget_high_u16(b), vdup_lane_u16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmul_lane_u16<const LANE: i32>(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t { vmul_u16(a, vdup_lane_u16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmla_lane_u16<const LANE: i32>(a: uint16x4_t, b: uint16x4_t, c: uint16x4_t) -> uint16x4_t { vmla_u16(a, b, vdup_lane_u16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmulq_lane_u16<const LANE: i32>(a: uint16x8_t, b: uint16x4_t) -> uint16x8_t { vmulq_u16(a, vdupq_lane_u16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlaq_lane_u16<const LANE: i32>(a: uint16x8_t, b: uint16x8_t, c: uint16x4_t) -> uint16x8_t { vmlaq_u16(a, b, vdupq_lane_u16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmull_laneq_u16<const LANE: i32>(a: uint16x4_t, b: uint16x8_t) -> uint32x4_t { vmull_u16(a, vdup_laneq_u16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmull_high_laneq_u16<const LANE: i32>(a: uint16x8_t, b: uint16x8_t) -> uint32x4_t { vmull_u16(vget_high_u16(a), vdup_laneq_u16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlal_laneq_u16<const LANE: i32>(a: uint32x4_t, b: uint16x4_t, c: uint16x8_t) -> uint32x4_t { vmlal_u16(a, b, vdup_laneq_u16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlal_high_laneq_u16<const LANE: i32>(a: uint32x4_t, b: uint16x8_t, c: uint16x8_t) -> uint32x4_t { vmlal_u16(a, vget_high_u16(b), vdup_laneq_u16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_laneq_u16<const LANE: i32>(a: uint32x4_t, b: uint16x4_t, c: uint16x8_t) -> uint32x4_t { vmlsl_u16(a, b, vdup_laneq_u16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_high_laneq_u16<const LANE: i32>(a: uint32x4_t, b: uint16x8_t, c: uint16x8_t) -> uint32x4_t { vmlsl_u16(a, vget_high_u16(b), vdup_laneq_u16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmul_laneq_u16<const LANE: i32>(a: uint16x4_t, b: uint16x8_t) -> uint16x4_t { vmul_u16(a, vdup_laneq_u16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmla_laneq_u16<const LANE: i32>(a: uint16x4_t, b: uint16x4_t, c: uint16x8_t) -> uint16x4_t { vmla_u16(a, b, vdup_laneq_u16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmulq_laneq_u16<const LANE: i32>(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t { vmulq_u16(a, vdupq_laneq_u16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlaq_laneq_u16<const LANE: i32>(a: uint16x8_t, b: uint16x8_t, c: uint16x8_t) -> uint16x8_t { vmlaq_u16(a, b, vdupq_laneq_u16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmovn_u32(a: uint32x4_t) -> uint16x4_t { uint16x4_t(map(a.0, |x| x as u16)) }
#[inline(always)]
pub unsafe fn vmovn_high_u32(a: uint16x4_t, b: uint32x4_t) -> uint16x8_t { vcombine_u16(a, vmovn_u32(b)) }
#[inline(always)]
pub unsafe fn vqmovn_u32(a: uint32x4_t) -> uint16x4_t { uint16x4_t(map(a.0, |x| (x as i64).clamp(u16::MIN as i64, u16::MAX as i64) as u16)) }
#[inline(always)]
pub unsafe fn vqmovn_high_u32(a: uint16x4_t, b: uint32x4_t) -> uint16x8_t { vcombine_u16(a, vqmovn_u32(b)) }
#[inline(always)]
pub unsafe fn vshrn_n_u32<const N: i32>(a: uint32x4_t) -> uint16x4_t { uint16x4_t(map(a.0, |x| (x >> N) as u16)) }
#[inline(always)]
pub unsafe fn vrshrn_n_u32<const N: i32>(a: uint32x4_t) -> uint16x4_t { uint16x4_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as u16)) }
#[inline(always)]
pub unsafe fn vqshrn_n_u32<const N: i32>(a: uint32x4_t) -> uint16x4_t { uint16x4_t(map(a.0, |x| ((x as i64) >> N).clamp(u16::MIN as i64, u16::MAX as i64) as u16)) }
#[inline(always)]
pub unsafe fn vqrshrn_n_u32<const N: i32>(a: uint32x4_t) -> uint16x4_t { uint16x4_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N).clamp(u16::MIN as i64, u16::MAX as i64) as u16)) }
#[inline(always)]
pub unsafe fn vshrn_high_n_u32<const N: i32>(a: uint16x4_t, b: uint32x4_t) -> uint16x8_t { vcombine_u16(a, vshrn_n_u32::<N>(b)) }
#[inline(always)]
pub unsafe fn vrshrn_high_n_u32<const N: i32>(a: uint16x4_t, b: uint32x4_t) -> uint16x8_t { vcombine_u16(a, vrshrn_n_u32::<N>(b)) }
#[inline(always)]
pub unsafe fn vqshrn_high_n_u32<const N: i32>(a: uint16x4_t, b: uint32x4_t) -> uint16x8_t { vcombine_u16(a, vqshrn_n_u32::<N>(b)) }
#[inline(always)]
pub unsafe fn vqrshrn_high_n_u32<const N: i32>(a: uint16x4_t, b: uint32x4_t) -> uint16x8_t { vcombine_u16(a, vqrshrn_n_u32::<N>(b)) }
#[inline(always)]
pub unsafe fn vmovl_s16(a: int16x4_t) -> int32x4_t { int32x4_t(map(a.0, |x| x as i32)) }
#[inline(always)]
pub unsafe fn vmovl_high_s16(a: int16x8_t) -> int32x4_t { vmovl_s16(vget_high_s16(a)) }
#[inline(always)]
pub unsafe fn vshll_n_s16<const N: i32>(a: int16x4_t) -> int32x4_t { int32x4_t(map(a.0, |x| (x as i32) << N)) }
#[inline(always)]
pub unsafe fn vshll_high_n_s16<const N: i32>(a: int16x8_t) -> int32x4_t { vshll_n_s16::<N>(vget_high_s16(a)) }
#[inline(always)]
pub unsafe fn vaddl_s16(a: int16x4_t, b: int16x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| (x as i32).wrapping_add(y as i32))) }
#[inline(always)]
pub unsafe fn vaddl_high_s16(a: int16x8_t, b: int16x8_t) -> int32x4_t { vaddl_s16(vget_high_s16(a), vget_high_s16(b)) }
#[inline(always)]
pub unsafe fn vsubl_s16(a: int16x4_t, b: int16x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| (x as i32).wrapping_sub(y as i32))) }
#[inline(always)]
pub unsafe fn vsubl_high_s16(a: int16x8_t, b: int16x8_t) -> int32x4_t { vsubl_s16(vget_high_s16(a), vget_high_s16(b)) }
#[inline(always)]
pub unsafe fn vaddw_s16(a: int32x4_t, b: int16x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x.wrapping_add(y as i32))) }
#[inline(always)]
pub unsafe fn vaddw_high_s16(a: int32x4_t, b: int16x8_t) -> int32x4_t { vaddw_s16(a, vget_high_s16(b)) }
#[inline(always)]
pub unsafe fn vsubw_s16(a: int32x4_t, b: int16x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y as i32))) }
#[inline(always)]
pub unsafe fn vsubw_high_s16(a: int32x4_t, b: int16x8_t) -> int32x4_t { vsubw_s16(a, vget_high_s16(b)) }
#[inline(always)]
pub unsafe fn vmull_s16(a: int16x4_t, b: int16x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| x as i32 * y as i32)) }
#[inline(always)]
pub unsafe fn vmull_high_s16(a: int16x8_t, b: int16x8_t) -> int32x4_t { vmull_s16(vget_high_s16(a), vget_high_s16(b)) }
#[inline(always)]
pub unsafe fn vmlal_s16(a: int32x4_t, b: int16x4_t, c: int16x4_t) -> int32x4_t { int32x4_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y as i32 * z as i32))) }
#[inline(always)]
pub unsafe fn vmlal_high_s16(a: int32x4_t, b: int16x8_t, c: int16x8_t) -> int32x4_t { vmlal_s16(a, vget_high_s16(b), vget_high_s16(c)) }
#[inline(always)]
pub unsafe fn vmlsl_s16(a: int32x4_t, b: int16x4_t, c: int16x4_t) -> int32x4_t { int32x4_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y as i32 * z as i32))) }
#[inline(always)]
pub unsafe fn vmlsl_high_s16(a: int32x4_t, b: int16x8_t, c: int16x8_t) -> int32x4_t { vmlsl_s16(a, vget_high_s16(b), vget_high_s16(c)) }
#[inline(always)]
pub unsafe fn vmull_n_s16(a: int16x4_t, b: i16) -> int32x4_t { vmull_s16(a, vdup_n_s16(b)) }
#[inline(always)]
pub unsafe fn vmull_lane_s16<const LANE: i32>(a: int16x4_t, b: int16x4_t) -> int32x4_t { vmull_s16(a, vdup_lane_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmull_high_lane_s16<const LANE: i32>(a: int16x8_t, b: int16x4_t) -> int32x4_t { vmull_s16(vget_high_s16(a), vdup_lane_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlal_lane_s16<const LANE: i32>(a: int32x4_t, b: int16x4_t, c: int16x4_t) -> int32x4_t { vmlal_s16(a, b, vdup_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlal_high_lane_s16<const LANE: i32>(a: int32x4_t, b: int16x8_t, c: int16x4_t) -> int32x4_t { vmlal_s16(a, vget_high_s16(b), vdup_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_lane_s16<const LANE: i32>(a: int32x4_t, b: int16x4_t, c: int16x4_t) -> int32x4_t { vmlsl_s16(a, b, vdup_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_high_lane_s16<const LANE: i32>(a: int32x4_t, b: int16x8_t, c: int16x4_t) -> int32x4_t { vmlsl_s16(a, vget_high_s16(b), vdup_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmul_lane_s16<const LANE: i32>(a: int16x4_t, b: int16x4_t) -> int16x4_t { vmul_s16(a, vdup_lane_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmla_lane_s16<const LANE: i32>(a: int16x4_t, b: int16x4_t, c: int16x4_t) -> int16x4_t { vmla_s16(a, b, vdup_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmulq_lane_s16<const LANE: i32>(a: int16x8_t, b: int16x4_t) -> int16x8_t { vmulq_s16(a, vdupq_lane_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlaq_lane_s16<const LANE: i32>(a: int16x8_t, b: int16x8_t, c: int16x4_t) -> int16x8_t { vmlaq_s16(a, b, vdupq_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmull_laneq_s16<const LANE: i32>(a: int16x4_t, b: int16x8_t) -> int32x4_t { vmull_s16(a, vdup_laneq_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmull_high_laneq_s16<const LANE: i32>(a: int16x8_t, b: int16x8_t) -> int32x4_t { vmull_s16(vget_high_s16(a), vdup_laneq_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlal_laneq_s16<const LANE: i32>(a: int32x4_t, b: int16x4_t, c: int16x8_t) -> int32x4_t { vmlal_s16(a, b, vdup_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlal_high_laneq_s16<const LANE: i32>(a: int32x4_t, b: int16x8_t, c: int16x8_t) -> int32x4_t { vmlal_s16(a, vget_high_s16(b), vdup_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_laneq_s16<const LANE: i32>(a: int32x4_t, b: int16x4_t, c: int16x8_t) -> int32x4_t { vmlsl_s16(a, b, vdup_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_high_laneq_s16<const LANE: i32>(a: int32x4_t, b: int16x8_t, c: int16x8_t) -> int32x4_t { vmlsl_s16(a, vget_high_s16(b), vdup_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmul_laneq_s16<const LANE: i32>(a: int16x4_t, b: int16x8_t) -> int16x4_t { vmul_s16(a, vdup_laneq_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmla_laneq_s16<const LANE: i32>(a: int16x4_t, b: int16x4_t, c: int16x8_t) -> int16x4_t { vmla_s16(a, b, vdup_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmulq_laneq_s16<const LANE: i32>(a: int16x8_t, b: int16x8_t) -> int16x8_t { vmulq_s16(a, vdupq_laneq_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlaq_laneq_s16<const LANE: i32>(a: int16x8_t, b: int16x8_t, c: int16x8_t) -> int16x8_t { vmlaq_s16(a, b, vdupq_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmovn_s32(a: int32x4_t) -> int16x4_t { int16x4_t(map(a.0, |x| x as i16)) }
#[inline(always)]
pub unsafe fn vmovn_high_s32(a: int16x4_t, b: int32x4_t) -> int16x8_t { vcombine_s16(a, vmovn_s32(b)) }
#[inline(always)]
pub unsafe fn vqmovn_s32(a: int32x4_t) -> int16x4_t { int16x4_t(map(a.0, |x| (x as i64).clamp(i16::MIN as i64, i16::MAX as i64) as i16)) }
#[inline(always)]
pub unsafe fn vqmovn_high_s32(a: int16x4_t, b: int32x4_t) -> int16x8_t { vcombine_s16(a, vqmovn_s32(b)) }
#[inline(always)]
pub unsafe fn vshrn_n_s32<const N: i32>(a: int32x4_t) -> int16x4_t { int16x4_t(map(a.0, |x| (x >> N) as i16)) }
#[inline(always)]
pub unsafe fn vrshrn_n_s32<const N: i32>(a: int32x4_t) -> int16x4_t { int16x4_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N) as i16)) }
#[inline(always)]
pub unsafe fn vqshrn_n_s32<const N: i32>(a: int32x4_t) -> int16x4_t { int16x4_t(map(a.0, |x| ((x as i64) >> N).clamp(i16::MIN as i64, i16::MAX as i64) as i16)) }
#[inline(always)]
pub unsafe fn vqrshrn_n_s32<const N: i32>(a: int32x4_t) -> int16x4_t { int16x4_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N).clamp(i16::MIN as i64, i16::MAX as i64) as i16)) }
#[inline(always)]
pub unsafe fn vshrn_high_n_s32<const N: i32>(a: int16x4_t, b: int32x4_t) -> int16x8_t { vcombine_s16(a, vshrn_n_s32::<N>(b)) }
#[inline(always)]
pub unsafe fn vrshrn_high_n_s32<const N: i32>(a: int16x4_t, b: int32x4_t) -> int16x8_t { vcombine_s16(a, vrshrn_n_s32::<N>(b)) }
#[inline(always)]
pub unsafe fn vqshrn_high_n_s32<const N: i32>(a: int16x4_t, b: int32x4_t) -> int16x8_t { vcombine_s16(a, vqshrn_n_s32::<N>(b)) }
#[inline(always)]
pub unsafe fn vqrshrn_high_n_s32<const N: i32>(a: int16x4_t, b: int32x4_t) -> int16x8_t { vcombine_s16(a, vqrshrn_n_s32::<N>(b)) }
#[inline(always)]
pub unsafe fn vqmovun_s32(a: int32x4_t) -> uint16x4_t { uint16x4_t(map(a.0, |x| (x as i64).clamp(u16::MIN as i64, u16::MAX as i64) as u16)) }
#[inline(always)]
pub unsafe fn vqmovun_high_s32(a: uint16x4_t, b: int32x4_t) -> uint16x8_t { vcombine_u16(a, vqmovun_s32(b)) }
#[inline(always)]
pub unsafe fn vqshrun_n_s32<const N: i32>(a: int32x4_t) -> uint16x4_t { uint16x4_t(map(a.0, |x| ((x as i64) >> N).clamp(u16::MIN as i64, u16::MAX as i64) as u16)) }
#[inline(always)]
pub unsafe fn vqrshrun_n_s32<const N: i32>(a: int32x4_t) -> uint16x4_t { uint16x4_t(map(a.0, |x| ((x as i64 + (1 << (N - 1))) >> N).clamp(u16::MIN as i64, u16::MAX as i64) as u16)) }
#[inline(always)]
pub unsafe fn vqshrun_high_n_s32<const N: i32>(a: uint16x4_t, b: int32x4_t) -> uint16x8_t { vcombine_u16(a, vqshrun_n_s32::<N>(b)) }
#[inline(always)]
pub unsafe fn vqrshrun_high_n_s32<const N: i32>(a: uint16x4_t, b: int32x4_t) -> uint16x8_t { vcombine_u16(a, vqrshrun_n_s32::<N>(b)) }
#[inline(always)]
pub unsafe fn vmovl_u32(a: uint32x2_t) -> uint64x2_t { uint64x2_t(map(a.0, |x| x as u64)) }
#[inline(always)]
pub unsafe fn vmovl_high_u32(a: uint32x4_t) -> uint64x2_t { vmovl_u32(vget_high_u32(a)) }
#[inline(always)]
pub unsafe fn vshll_n_u32<const N: i32>(a: uint32x2_t) -> uint64x2_t { uint64x2_t(map(a.0, |x| (x as u64) << N)) }
#[inline(always)]
pub unsafe fn vshll_high_n_u32<const N: i32>(a: uint32x4_t) -> uint64x2_t { vshll_n_u32::<N>(vget_high_u32(a)) }
#[inline(always)]
pub unsafe fn vaddl_u32(a: uint32x2_t, b: uint32x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| (x as u64).wrapping_add(y as u64))) }
#[inline(always)]
pub unsafe fn vaddl_high_u32(a: uint32x4_t, b: uint32x4_t) -> uint64x2_t { vaddl_u32(vget_high_u32(a), vget_high_u32(b)) }
#[inline(always)]
pub unsafe fn vsubl_u32(a: uint32x2_t, b: uint32x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| (x as u64).wrapping_sub(y as u64))) }
#[inline(always)]
pub unsafe fn vsubl_high_u32(a: uint32x4_t, b: uint32x4_t) -> uint64x2_t { vsubl_u32(vget_high_u32(a), vget_high_u32(b)) }
#[inline(always)]
pub unsafe fn vaddw_u32(a: uint64x2_t, b: uint32x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(y as u64))) }
#[inline(always)]
pub unsafe fn vaddw_high_u32(a: uint64x2_t, b: uint32x4_t) -> uint64x2_t { vaddw_u32(a, vget_high_u32(b)) }
#[inline(always)]
pub unsafe fn vsubw_u32(a: uint64x2_t, b: uint32x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y as u64))) }
#[inline(always)]
pub unsafe fn vsubw_high_u32(a: uint64x2_t, b: uint32x4_t) -> uint64x2_t { vsubw_u32(a, vget_high_u32(b)) }
#[inline(always)]
pub unsafe fn vmull_u32(a: uint32x2_t, b: uint32x2_t) -> uint64x2_t { uint64x2_t(map2(a.0, b.0, |x, y| x as u64 * y as u64)) }
#[inline(always)]
pub unsafe fn vmull_high_u32(a: uint32x4_t, b: uint32x4_t) -> uint64x2_t { vmull_u32(vget_high_u32(a), vget_high_u32(b)) }
#[inline(always)]
pub unsafe fn vmlal_u32(a: uint64x2_t, b: uint32x2_t, c: uint32x2_t) -> uint64x2_t { uint64x2_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y as u64 * z as u64))) }
#[inline(always)]
pub unsafe fn vmlal_high_u32(a: uint64x2_t, b: uint32x4_t, c: uint32x4_t) -> uint64x2_t { vmlal_u32(a, vget_high_u32(b), vget_high_u32(c)) }
#[inline(always)]
pub unsafe fn vmlsl_u32(a: uint64x2_t, b: uint32x2_t, c: uint32x2_t) -> uint64x2_t { uint64x2_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y as u64 * z as u64))) }
#[inline(always)]
pub unsafe fn vmlsl_high_u32(a: uint64x2_t, b: uint32x4_t, c: uint32x4_t) -> uint64x2_t { vmlsl_u32(a, vget_high_u32(b), vget_high_u32(c)) }
#[inline(always)]
pub unsafe fn vmull_n_u32(a: uint32x2_t, b: u32) -> uint64x2_t { vmull_u32(a, vdup_n_u32(b)) }
#[inline(always)]
pub unsafe fn vmull_lane_u32<const LANE: i32>(a: uint32x2_t, b: uint32x2_t) -> uint64x2_t { vmull_u32(a, vdup_lane_u32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmull_high_lane_u32<const LANE: i32>(a: uint32x4_t, b: uint32x2_t) -> uint64x2_t { vmull_u32(vget_high_u32(a), vdup_lane_u32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlal_lane_u32<const LANE: i32>(a: uint64x2_t, b: uint32x2_t, c: uint32x2_t) -> uint64x2_t { vmlal_u32(a, b, vdup_lane_u32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlal_high_lane_u32<const LANE: i32>(a: uint64x2_t, b: uint32x4_t, c: uint32x2_t) -> uint64x2_t { vmlal_u32(a, vget_high_u32(b), vdup_lane_u32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_lane_u32<const LANE: i32>(a: uint64x2_t, b: uint32x2_t, c: uint32x2_t) -> uint64x2_t { vmlsl_u32(a, b, vdup_lane_u32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_high_lane_u32<const LANE: i32>(a: uint64x2_t, b: uint32x4_t, c: uint32x2_t) -> uint64x2_t { vmlsl_u32(a, vget_high_u32(b), vdup_lane_u32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmul_lane_u32<const LANE: i32>(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t { vmul_u32(a, vdup_lane_u32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmla_lane_u32<const LANE: i32>(a: uint32x2_t, b: uint32x2_t, c: uint32x2_t) -> uint32x2_t { vmla_u32(a, b, vdup_lane_u32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmulq_lane_u32<const LANE: i32>(a: uint32x4_t, b: uint32x2_t) -> uint32x4_t { vmulq_u32(a, vdupq_lane_u32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlaq_lane_u32<const LANE: i32>(a: uint32x4_t, b: uint32x4_t, c: uint32x2_t) -> uint32x4_t { vmlaq_u32(a, b, vdupq_lane_u32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmull_laneq_u32<const LANE: i32>(a: uint32x2_t, b: uint32x4_t) -> uint64x2_t { vmull_u32(a, vdup_laneq_u32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmull_high_laneq_u32<const LANE: i32>(a: uint32x4_t, b: uint32x4_t) -> uint64x2_t { vmull_u32(vget_high_u32(a), vdup_laneq_u32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlal_laneq_u32<const LANE: i32>(a: uint64x2_t, b: uint32x2_t, c: uint32x4_t) -> uint64x2_t { vmlal_u32(a, b, vdup_laneq_u32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlal_high_laneq_u32<const LANE: i32>(a: uint64x2_t, b: uint32x4_t, c: uint32x4_t) -> uint64x2_t { vmlal_u32(a, vget_high_u32(b), vdup_laneq_u32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_laneq_u32<const LANE: i32>(a: uint64x2_t, b: uint32x2_t, c: uint32x4_t) -> uint64x2_t { vmlsl_u32(a, b, vdup_laneq_u32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_high_laneq_u32<const LANE: i32>(a: uint64x2_t, b: uint32x4_t, c: uint32x4_t) -> uint64x2_t { vmlsl_u32(a, vget_high_u32(b), vdup_laneq_u32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmul_laneq_u32<const LANE: i32>(a: uint32x2_t, b: uint32x4_t) -> uint32x2_t { vmul_u32(a, vdup_laneq_u32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmla_laneq_u32<const LANE: i32>(a: uint32x2_t, b: uint32x2_t, c: uint32x4_t) -> uint32x2_t { vmla_u32(a, b, vdup_laneq_u32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmulq_laneq_u32<const LANE: i32>(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t { vmulq_u32(a, vdupq_laneq_u32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlaq_laneq_u32<const LANE: i32>(a: uint32x4_t, b: uint32x4_t, c: uint32x4_t) -> uint32x4_t { vmlaq_u32(a, b, vdupq_laneq_u32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmovn_u64(a: uint64x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| x as u32)) }
#[inline(always)]
pub unsafe fn vmovn_high_u64(a: uint32x2_t, b: uint64x2_t) -> uint32x4_t { vcombine_u32(a, vmovn_u64(b)) }
#[inline(always)]
pub unsafe fn vqmovn_u64(a: uint64x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| (x as i128).clamp(u32::MIN as i128, u32::MAX as i128) as u32)) }
#[inline(always)]
pub unsafe fn vqmovn_high_u64(a: uint32x2_t, b: uint64x2_t) -> uint32x4_t { vcombine_u32(a, vqmovn_u64(b)) }
#[inline(always)]
pub unsafe fn vshrn_n_u64<const N: i32>(a: uint64x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| (x >> N) as u32)) }
#[inline(always)]
pub unsafe fn vrshrn_n_u64<const N: i32>(a: uint64x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| ((x as i128 + (1 << (N - 1))) >> N) as u32)) }
#[inline(always)]
pub unsafe fn vqshrn_n_u64<const N: i32>(a: uint64x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| ((x as i128) >> N).clamp(u32::MIN as i128, u32::MAX as i128) as u32)) }
#[inline(always)]
pub unsafe fn vqrshrn_n_u64<const N: i32>(a: uint64x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| ((x as i128 + (1 << (N - 1))) >> N).clamp(u32::MIN as i128, u32::MAX as i128) as u32)) }
#[inline(always)]
pub unsafe fn vshrn_high_n_u64<const N: i32>(a: uint32x2_t, b: uint64x2_t) -> uint32x4_t { vcombine_u32(a, vshrn_n_u64::<N>(b)) }
#[inline(always)]
pub unsafe fn vrshrn_high_n_u64<const N: i32>(a: uint32x2_t, b: uint64x2_t) -> uint32x4_t { vcombine_u32(a, vrshrn_n_u64::<N>(b)) }
#[inline(always)]
pub unsafe fn vqshrn_high_n_u64<const N: i32>(a: uint32x2_t, b: uint64x2_t) -> uint32x4_t { vcombine_u32(a, vqshrn_n_u64::<N>(b)) }
#[inline(always)]
pub unsafe fn vqrshrn_high_n_u64<const N: i32>(a: uint32x2_t, b: uint64x2_t) -> uint32x4_t { vcombine_u32(a, vqrshrn_n_u64::<N>(b)) }
#[inline(always)]
pub unsafe fn vmovl_s32(a: int32x2_t) -> int64x2_t { int64x2_t(map(a.0, |x| x as i64)) }
#[inline(always)]
pub unsafe fn vmovl_high_s32(a: int32x4_t) -> int64x2_t { vmovl_s32(vget_high_s32(a)) }
#[inline(always)]
pub unsafe fn vshll_n_s32<const N: i32>(a: int32x2_t) -> int64x2_t { int64x2_t(map(a.0, |x| (x as i64) << N)) }
#[inline(always)]
pub unsafe fn vshll_high_n_s32<const N: i32>(a: int32x4_t) -> int64x2_t { vshll_n_s32::<N>(vget_high_s32(a)) }
#[inline(always)]
pub unsafe fn vaddl_s32(a: int32x2_t, b: int32x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| (x as i64).wrapping_add(y as i64))) }
#[inline(always)]
pub unsafe fn vaddl_high_s32(a: int32x4_t, b: int32x4_t) -> int64x2_t { vaddl_s32(vget_high_s32(a), vget_high_s32(b)) }
#[inline(always)]
pub unsafe fn vsubl_s32(a: int32x2_t, b: int32x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| (x as i64).wrapping_sub(y as i64))) }
#[inline(always)]
pub unsafe fn vsubl_high_s32(a: int32x4_t, b: int32x4_t) -> int64x2_t { vsubl_s32(vget_high_s32(a), vget_high_s32(b)) }
#[inline(always)]
pub unsafe fn vaddw_s32(a: int64x2_t, b: int32x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| x.wrapping_add(y as i64))) }
#[inline(always)]
pub unsafe fn vaddw_high_s32(a: int64x2_t, b: int32x4_t) -> int64x2_t { vaddw_s32(a, vget_high_s32(b)) }
#[inline(always)]
pub unsafe fn vsubw_s32(a: int64x2_t, b: int32x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| x.wrapping_sub(y as i64))) }
#[inline(always)]
pub unsafe fn vsubw_high_s32(a: int64x2_t, b: int32x4_t) -> int64x2_t { vsubw_s32(a, vget_high_s32(b)) }
#[inline(always)]
pub unsafe fn vmull_s32(a: int32x2_t, b: int32x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| x as i64 * y as i64)) }
#[inline(always)]
pub unsafe fn vmull_high_s32(a: int32x4_t, b: int32x4_t) -> int64x2_t { vmull_s32(vget_high_s32(a), vget_high_s32(b)) }
#[inline(always)]
pub unsafe fn vmlal_s32(a: int64x2_t, b: int32x2_t, c: int32x2_t) -> int64x2_t { int64x2_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y as i64 * z as i64))) }
#[inline(always)]
pub unsafe fn vmlal_high_s32(a: int64x2_t, b: int32x4_t, c: int32x4_t) -> int64x2_t { vmlal_s32(a, vget_high_s32(b), vget_high_s32(c)) }
#[inline(always)]
pub unsafe fn vmlsl_s32(a: int64x2_t, b: int32x2_t, c: int32x2_t) -> int64x2_t { int64x2_t(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y as i64 * z as i64))) }
#[inline(always)]
pub unsafe fn vmlsl_high_s32(a: int64x2_t, b: int32x4_t, c: int32x4_t) -> int64x2_t { vmlsl_s32(a, vget_high_s32(b), vget_high_s32(c)) }
#[inline(always)]
pub unsafe fn vmull_n_s32(a: int32x2_t, b: i32) -> int64x2_t { vmull_s32(a, vdup_n_s32(b)) }
#[inline(always)]
pub unsafe fn vmull_lane_s32<const LANE: i32>(a: int32x2_t, b: int32x2_t) -> int64x2_t { vmull_s32(a, vdup_lane_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmull_high_lane_s32<const LANE: i32>(a: int32x4_t, b: int32x2_t) -> int64x2_t { vmull_s32(vget_high_s32(a), vdup_lane_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlal_lane_s32<const LANE: i32>(a: int64x2_t, b: int32x2_t, c: int32x2_t) -> int64x2_t { vmlal_s32(a, b, vdup_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlal_high_lane_s32<const LANE: i32>(a: int64x2_t, b: int32x4_t, c: int32x2_t) -> int64x2_t { vmlal_s32(a, vget_high_s32(b), vdup_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_lane_s32<const LANE: i32>(a: int64x2_t, b: int32x2_t, c: int32x2_t) -> int64x2_t { vmlsl_s32(a, b, vdup_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_high_lane_s32<const LANE: i32>(a: int64x2_t, b: int32x4_t, c: int32x2_t) -> int64x2_t { vmlsl_s32(a, vget_high_s32(b), vdup_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmul_lane_s32<const LANE: i32>(a: int32x2_t, b: int32x2_t) -> int32x2_t { vmul_s32(a, vdup_lane_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmla_lane_s32<const LANE: i32>(a: int32x2_t, b: int32x2_t, c: int32x2_t) -> int32x2_t { vmla_s32(a, b, vdup_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmulq_lane_s32<const LANE: i32>(a: int32x4_t, b: int32x2_t) -> int32x4_t { vmulq_s32(a, vdupq_lane_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlaq_lane_s32<const LANE: i32>(a: int32x4_t, b: int32x4_t, c: int32x2_t) -> int32x4_t { vmlaq_s32(a, b, vdupq_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmull_laneq_s32<const LANE: i32>(a: int32x2_t, b: int32x4_t) -> int64x2_t { vmull_s32(a, vdup_laneq_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmull_high_laneq_s32<const LANE: i32>(a: int32x4_t, b: int32x4_t) -> int64x2_t { vmull_s32(vget_high_s32(a), vdup_laneq_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlal_laneq_s32<const LANE: i32>(a: int64x2_t, b: int32x2_t, c: int32x4_t) -> int64x2_t { vmlal_s32(a, b, vdup_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlal_high_laneq_s32<const LANE: i32>(a: int64x2_t, b: int32x4_t, c: int32x4_t) -> int64x2_t { vmlal_s32(a, vget_high_s32(b), vdup_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_laneq_s32<const LANE: i32>(a: int64x2_t, b: int32x2_t, c: int32x4_t) -> int64x2_t { vmlsl_s32(a, b, vdup_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmlsl_high_laneq_s32<const LANE: i32>(a: int64x2_t, b: int32x4_t, c: int32x4_t) -> int64x2_t { vmlsl_s32(a, vget_high_s32(b), vdup_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmul_laneq_s32<const LANE: i32>(a: int32x2_t, b: int32x4_t) -> int32x2_t { vmul_s32(a, vdup_laneq_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmla_laneq_s32<const LANE: i32>(a: int32x2_t, b: int32x2_t, c: int32x4_t) -> int32x2_t { vmla_s32(a, b, vdup_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmulq_laneq_s32<const LANE: i32>(a: int32x4_t, b: int32x4_t) -> int32x4_t { vmulq_s32(a, vdupq_laneq_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vmlaq_laneq_s32<const LANE: i32>(a: int32x4_t, b: int32x4_t, c: int32x4_t) -> int32x4_t { vmlaq_s32(a, b, vdupq_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vmovn_s64(a: int64x2_t) -> int32x2_t { int32x2_t(map(a.0, |x| x as i32)) }
#[inline(always)]
pub unsafe fn vmovn_high_s64(a: int32x2_t, b: int64x2_t) -> int32x4_t { vcombine_s32(a, vmovn_s64(b)) }
#[inline(always)]
pub unsafe fn vqmovn_s64(a: int64x2_t) -> int32x2_t { int32x2_t(map(a.0, |x| (x as i128).clamp(i32::MIN as i128, i32::MAX as i128) as i32)) }
#[inline(always)]
pub unsafe fn vqmovn_high_s64(a: int32x2_t, b: int64x2_t) -> int32x4_t { vcombine_s32(a, vqmovn_s64(b)) }
#[inline(always)]
pub unsafe fn vshrn_n_s64<const N: i32>(a: int64x2_t) -> int32x2_t { int32x2_t(map(a.0, |x| (x >> N) as i32)) }
#[inline(always)]
pub unsafe fn vrshrn_n_s64<const N: i32>(a: int64x2_t) -> int32x2_t { int32x2_t(map(a.0, |x| ((x as i128 + (1 << (N - 1))) >> N) as i32)) }
#[inline(always)]
pub unsafe fn vqshrn_n_s64<const N: i32>(a: int64x2_t) -> int32x2_t { int32x2_t(map(a.0, |x| ((x as i128) >> N).clamp(i32::MIN as i128, i32::MAX as i128) as i32)) }
#[inline(always)]
pub unsafe fn vqrshrn_n_s64<const N: i32>(a: int64x2_t) -> int32x2_t { int32x2_t(map(a.0, |x| ((x as i128 + (1 << (N - 1))) >> N).clamp(i32::MIN as i128, i32::MAX as i128) as i32)) }
#[inline(always)]
pub unsafe fn vshrn_high_n_s64<const N: i32>(a: int32x2_t, b: int64x2_t) -> int32x4_t { vcombine_s32(a, vshrn_n_s64::<N>(b)) }
#[inline(always)]
pub unsafe fn vrshrn_high_n_s64<const N: i32>(a: int32x2_t, b: int64x2_t) -> int32x4_t { vcombine_s32(a, vrshrn_n_s64::<N>(b)) }
#[inline(always)]
pub unsafe fn vqshrn_high_n_s64<const N: i32>(a: int32x2_t, b: int64x2_t) -> int32x4_t { vcombine_s32(a, vqshrn_n_s64::<N>(b)) }
#[inline(always)]
pub unsafe fn vqrshrn_high_n_s64<const N: i32>(a: int32x2_t, b: int64x2_t) -> int32x4_t { vcombine_s32(a, vqrshrn_n_s64::<N>(b)) }
#[inline(always)]
pub unsafe fn vqmovun_s64(a: int64x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| (x as i128).clamp(u32::MIN as i128, u32::MAX as i128) as u32)) }
#[inline(always)]
pub unsafe fn vqmovun_high_s64(a: uint32x2_t, b: int64x2_t) -> uint32x4_t { vcombine_u32(a, vqmovun_s64(b)) }
#[inline(always)]
pub unsafe fn vqshrun_n_s64<const N: i32>(a: int64x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| ((x as i128) >> N).clamp(u32::MIN as i128, u32::MAX as i128) as u32)) }
#[inline(always)]
pub unsafe fn vqrshrun_n_s64<const N: i32>(a: int64x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| ((x as i128 + (1 << (N - 1))) >> N).clamp(u32::MIN as i128, u32::MAX as i128) as u32)) }
#[inline(always)]
pub unsafe fn vqshrun_high_n_s64<const N: i32>(a: uint32x2_t, b: int64x2_t) -> uint32x4_t { vcombine_u32(a, vqshrun_n_s64::<N>(b)) }
#[inline(always)]
pub unsafe fn vqrshrun_high_n_s64<const N: i32>(a: uint32x2_t, b: int64x2_t) -> uint32x4_t { vcombine_u32(a, vqrshrun_n_s64::<N>(b)) }
#[inline(always)]
pub unsafe fn vqdmull_s16(a: int16x4_t, b: int16x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| (2 * x as i64 * y as i64).min(i32::MAX as i64) as i32)) }
#[inline(always)]
pub unsafe fn vqdmlal_s16(a: int32x4_t, b: int16x4_t, c: int16x4_t) -> int32x4_t { int32x4_t(map2(a.0, vqdmull_s16(b, c).0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqdmlal_high_s16(a: int32x4_t, b: int16x8_t, c: int16x8_t) -> int32x4_t { vqdmlal_s16(a, vget_high_s16(b), vget_high_s16(c)) }
#[inline(always)]
pub unsafe fn vqdmlsl_s16(a: int32x4_t, b: int16x4_t, c: int16x4_t) -> int32x4_t { int32x4_t(map2(a.0, vqdmull_s16(b, c).0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vqdmlsl_high_s16(a: int32x4_t, b: int16x8_t, c: int16x8_t) -> int32x4_t { vqdmlsl_s16(a, vget_high_s16(b), vget_high_s16(c)) }
#[inline(always)]
pub unsafe fn vqdmull_high_s16(a: int16x8_t, b: int16x8_t) -> int32x4_t { vqdmull_s16(vget_high_s16(a), vget_high_s16(b)) }
#[inline(always)]
pub unsafe fn vqdmull_lane_s16<const LANE: i32>(a: int16x4_t, b: int16x4_t) -> int32x4_t { vqdmull_s16(a, vdup_lane_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqdmull_high_lane_s16<const LANE: i32>(a: int16x8_t, b: int16x4_t) -> int32x4_t { vqdmull_s16(vget_high_s16(a), vdup_lane_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqdmlal_lane_s16<const LANE: i32>(a: int32x4_t, b: int16x4_t, c: int16x4_t) -> int32x4_t { vqdmlal_s16(a, b, vdup_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmlal_high_lane_s16<const LANE: i32>(a: int32x4_t, b: int16x8_t, c: int16x4_t) -> int32x4_t { vqdmlal_s16(a, vget_high_s16(b), vdup_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmlsl_lane_s16<const LANE: i32>(a: int32x4_t, b: int16x4_t, c: int16x4_t) -> int32x4_t { vqdmlsl_s16(a, b, vdup_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmlsl_high_lane_s16<const LANE: i32>(a: int32x4_t, b: int16x8_t, c: int16x4_t) -> int32x4_t { vqdmlsl_s16(a, vget_high_s16(b), vdup_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmull_laneq_s16<const LANE: i32>(a: int16x4_t, b: int16x8_t) -> int32x4_t { vqdmull_s16(a, vdup_laneq_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqdmull_high_laneq_s16<const LANE: i32>(a: int16x8_t, b: int16x8_t) -> int32x4_t { vqdmull_s16(vget_high_s16(a), vdup_laneq_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqdmlal_laneq_s16<const LANE: i32>(a: int32x4_t, b: int16x4_t, c: int16x8_t) -> int32x4_t { vqdmlal_s16(a, b, vdup_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmlal_high_laneq_s16<const LANE: i32>(a: int32x4_t, b: int16x8_t, c: int16x8_t) -> int32x4_t { vqdmlal_s16(a, vget_high_s16(b), vdup_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmlsl_laneq_s16<const LANE: i32>(a: int32x4_t, b: int16x4_t, c: int16x8_t) -> int32x4_t { vqdmlsl_s16(a, b, vdup_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmlsl_high_laneq_s16<const LANE: i32>(a: int32x4_t, b: int16x8_t, c: int16x8_t) -> int32x4_t { vqdmlsl_s16(a, vget_high_s16(b), vdup_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmulh_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| ((2 * x as i64 * y as i64) >> 16).clamp(i16::MIN as i64, i16::MAX as i64) as i16)) }
#[inline(always)]
pub unsafe fn vqrdmulh_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t { int16x4_t(map2(a.0, b.0, |x, y| ((2 * x as i64 * y as i64 + (1 << 15)) >> 16).clamp(i16::MIN as i64, i16::MAX as i64) as i16)) }
#[inline(always)]
pub unsafe fn vqrdmlah_s16(a: int16x4_t, b: int16x4_t, c: int16x4_t) -> int16x4_t { int16x4_t(map3(a.0, b.0, c.0, |x, y, z| ((((x as i64) << 16) + 2 * y as i64 * z as i64 + (1 << 15)) >> 16).clamp(i16::MIN as i64, i16::MAX as i64) as i16)) }
#[inline(always)]
pub unsafe fn vqrdmlsh_s16(a: int16x4_t, b: int16x4_t, c: int16x4_t) -> int16x4_t { int16x4_t(map3(a.0, b.0, c.0, |x, y, z| ((((x as i64) << 16) - 2 * y as i64 * z as i64 + (1 << 15)) >> 16).clamp(i16::MIN as i64, i16::MAX as i64) as i16)) }
#[inline(always)]
pub unsafe fn vqdmulh_n_s16(a: int16x4_t, b: i16) -> int16x4_t { vqdmulh_s16(a, vdup_n_s16(b)) }
#[inline(always)]
pub unsafe fn vqdmulh_lane_s16<const LANE: i32>(a: int16x4_t, b: int16x4_t) -> int16x4_t { vqdmulh_s16(a, vdup_lane_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqdmulh_laneq_s16<const LANE: i32>(a: int16x4_t, b: int16x8_t) -> int16x4_t { vqdmulh_s16(a, vdup_laneq_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqrdmulh_n_s16(a: int16x4_t, b: i16) -> int16x4_t { vqrdmulh_s16(a, vdup_n_s16(b)) }
#[inline(always)]
pub unsafe fn vqrdmulh_lane_s16<const LANE: i32>(a: int16x4_t, b: int16x4_t) -> int16x4_t { vqrdmulh_s16(a, vdup_lane_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqrdmulh_laneq_s16<const LANE: i32>(a: int16x4_t, b: int16x8_t) -> int16x4_t { vqrdmulh_s16(a, vdup_laneq_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqrdmlah_lane_s16<const LANE: i32>(a: int16x4_t, b: int16x4_t, c: int16x4_t) -> int16x4_t { vqrdmlah_s16(a, b, vdup_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqrdmlah_laneq_s16<const LANE: i32>(a: int16x4_t, b: int16x4_t, c: int16x8_t) -> int16x4_t { vqrdmlah_s16(a, b, vdup_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqrdmlsh_lane_s16<const LANE: i32>(a: int16x4_t, b: int16x4_t, c: int16x4_t) -> int16x4_t { vqrdmlsh_s16(a, b, vdup_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqrdmlsh_laneq_s16<const LANE: i32>(a: int16x4_t, b: int16x4_t, c: int16x8_t) -> int16x4_t { vqrdmlsh_s16(a, b, vdup_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmulhq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| ((2 * x as i64 * y as i64) >> 16).clamp(i16::MIN as i64, i16::MAX as i64) as i16)) }
#[inline(always)]
pub unsafe fn vqrdmulhq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t { int16x8_t(map2(a.0, b.0, |x, y| ((2 * x as i64 * y as i64 + (1 << 15)) >> 16).clamp(i16::MIN as i64, i16::MAX as i64) as i16)) }
#[inline(always)]
pub unsafe fn vqrdmlahq_s16(a: int16x8_t, b: int16x8_t, c: int16x8_t) -> int16x8_t { int16x8_t(map3(a.0, b.0, c.0, |x, y, z| ((((x as i64) << 16) + 2 * y as i64 * z as i64 + (1 << 15)) >> 16).clamp(i16::MIN as i64, i16::MAX as i64) as i16)) }
#[inline(always)]
pub unsafe fn vqrdmlshq_s16(a: int16x8_t, b: int16x8_t, c: int16x8_t) -> int16x8_t { int16x8_t(map3(a.0, b.0, c.0, |x, y, z| ((((x as i64) << 16) - 2 * y as i64 * z as i64 + (1 << 15)) >> 16).clamp(i16::MIN as i64, i16::MAX as i64) as i16)) }
#[inline(always)]
pub unsafe fn vqdmulhq_n_s16(a: int16x8_t, b: i16) -> int16x8_t { vqdmulhq_s16(a, vdupq_n_s16(b)) }
#[inline(always)]
pub unsafe fn vqdmulhq_lane_s16<const LANE: i32>(a: int16x8_t, b: int16x4_t) -> int16x8_t { vqdmulhq_s16(a, vdupq_lane_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqdmulhq_laneq_s16<const LANE: i32>(a: int16x8_t, b: int16x8_t) -> int16x8_t { vqdmulhq_s16(a, vdupq_laneq_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqrdmulhq_n_s16(a: int16x8_t, b: i16) -> int16x8_t { vqrdmulhq_s16(a, vdupq_n_s16(b)) }
#[inline(always)]
pub unsafe fn vqrdmulhq_lane_s16<const LANE: i32>(a: int16x8_t, b: int16x4_t) -> int16x8_t { vqrdmulhq_s16(a, vdupq_lane_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqrdmulhq_laneq_s16<const LANE: i32>(a: int16x8_t, b: int16x8_t) -> int16x8_t { vqrdmulhq_s16(a, vdupq_laneq_s16::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqrdmlahq_lane_s16<const LANE: i32>(a: int16x8_t, b: int16x8_t, c: int16x4_t) -> int16x8_t { vqrdmlahq_s16(a, b, vdupq_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqrdmlahq_laneq_s16<const LANE: i32>(a: int16x8_t, b: int16x8_t, c: int16x8_t) -> int16x8_t { vqrdmlahq_s16(a, b, vdupq_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqrdmlshq_lane_s16<const LANE: i32>(a: int16x8_t, b: int16x8_t, c: int16x4_t) -> int16x8_t { vqrdmlshq_s16(a, b, vdupq_lane_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqrdmlshq_laneq_s16<const LANE: i32>(a: int16x8_t, b: int16x8_t, c: int16x8_t) -> int16x8_t { vqrdmlshq_s16(a, b, vdupq_laneq_s16::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmull_s32(a: int32x2_t, b: int32x2_t) -> int64x2_t { int64x2_t(map2(a.0, b.0, |x, y| (2 * x as i128 * y as i128).min(i64::MAX as i128) as i64)) }
#[inline(always)]
pub unsafe fn vqdmlal_s32(a: int64x2_t, b: int32x2_t, c: int32x2_t) -> int64x2_t { int64x2_t(map2(a.0, vqdmull_s32(b, c).0, |x, y| x.saturating_add(y))) }
#[inline(always)]
pub unsafe fn vqdmlal_high_s32(a: int64x2_t, b: int32x4_t, c: int32x4_t) -> int64x2_t { vqdmlal_s32(a, vget_high_s32(b), vget_high_s32(c)) }
#[inline(always)]
pub unsafe fn vqdmlsl_s32(a: int64x2_t, b: int32x2_t, c: int32x2_t) -> int64x2_t { int64x2_t(map2(a.0, vqdmull_s32(b, c).0, |x, y| x.saturating_sub(y))) }
#[inline(always)]
pub unsafe fn vqdmlsl_high_s32(a: int64x2_t, b: int32x4_t, c: int32x4_t) -> int64x2_t { vqdmlsl_s32(a, vget_high_s32(b), vget_high_s32(c)) }
#[inline(always)]
pub unsafe fn vqdmull_high_s32(a: int32x4_t, b: int32x4_t) -> int64x2_t { vqdmull_s32(vget_high_s32(a), vget_high_s32(b)) }
#[inline(always)]
pub unsafe fn vqdmull_lane_s32<const LANE: i32>(a: int32x2_t, b: int32x2_t) -> int64x2_t { vqdmull_s32(a, vdup_lane_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqdmull_high_lane_s32<const LANE: i32>(a: int32x4_t, b: int32x2_t) -> int64x2_t { vqdmull_s32(vget_high_s32(a), vdup_lane_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqdmlal_lane_s32<const LANE: i32>(a: int64x2_t, b: int32x2_t, c: int32x2_t) -> int64x2_t { vqdmlal_s32(a, b, vdup_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmlal_high_lane_s32<const LANE: i32>(a: int64x2_t, b: int32x4_t, c: int32x2_t) -> int64x2_t { vqdmlal_s32(a, vget_high_s32(b), vdup_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmlsl_lane_s32<const LANE: i32>(a: int64x2_t, b: int32x2_t, c: int32x2_t) -> int64x2_t { vqdmlsl_s32(a, b, vdup_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmlsl_high_lane_s32<const LANE: i32>(a: int64x2_t, b: int32x4_t, c: int32x2_t) -> int64x2_t { vqdmlsl_s32(a, vget_high_s32(b), vdup_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmull_laneq_s32<const LANE: i32>(a: int32x2_t, b: int32x4_t) -> int64x2_t { vqdmull_s32(a, vdup_laneq_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqdmull_high_laneq_s32<const LANE: i32>(a: int32x4_t, b: int32x4_t) -> int64x2_t { vqdmull_s32(vget_high_s32(a), vdup_laneq_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqdmlal_laneq_s32<const LANE: i32>(a: int64x2_t, b: int32x2_t, c: int32x4_t) -> int64x2_t { vqdmlal_s32(a, b, vdup_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmlal_high_laneq_s32<const LANE: i32>(a: int64x2_t, b: int32x4_t, c: int32x4_t) -> int64x2_t { vqdmlal_s32(a, vget_high_s32(b), vdup_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmlsl_laneq_s32<const LANE: i32>(a: int64x2_t, b: int32x2_t, c: int32x4_t) -> int64x2_t { vqdmlsl_s32(a, b, vdup_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmlsl_high_laneq_s32<const LANE: i32>(a: int64x2_t, b: int32x4_t, c: int32x4_t) -> int64x2_t { vqdmlsl_s32(a, vget_high_s32(b), vdup_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmulh_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| ((2 * x as i128 * y as i128) >> 32).clamp(i32::MIN as i128, i32::MAX as i128) as i32)) }
#[inline(always)]
pub unsafe fn vqrdmulh_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t { int32x2_t(map2(a.0, b.0, |x, y| ((2 * x as i128 * y as i128 + (1 << 31)) >> 32).clamp(i32::MIN as i128, i32::MAX as i128) as i32)) }
#[inline(always)]
pub unsafe fn vqrdmlah_s32(a: int32x2_t, b: int32x2_t, c: int32x2_t) -> int32x2_t { int32x2_t(map3(a.0, b.0, c.0, |x, y, z| ((((x as i128) << 32) + 2 * y as i128 * z as i128 + (1 << 31)) >> 32).clamp(i32::MIN as i128, i32::MAX as i128) as i32)) }
#[inline(always)]
pub unsafe fn vqrdmlsh_s32(a: int32x2_t, b: int32x2_t, c: int32x2_t) -> int32x2_t { int32x2_t(map3(a.0, b.0, c.0, |x, y, z| ((((x as i128) << 32) - 2 * y as i128 * z as i128 + (1 << 31)) >> 32).clamp(i32::MIN as i128, i32::MAX as i128) as i32)) }
#[inline(always)]
pub unsafe fn vqdmulh_n_s32(a: int32x2_t, b: i32) -> int32x2_t { vqdmulh_s32(a, vdup_n_s32(b)) }
#[inline(always)]
pub unsafe fn vqdmulh_lane_s32<const LANE: i32>(a: int32x2_t, b: int32x2_t) -> int32x2_t { vqdmulh_s32(a, vdup_lane_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqdmulh_laneq_s32<const LANE: i32>(a: int32x2_t, b: int32x4_t) -> int32x2_t { vqdmulh_s32(a, vdup_laneq_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqrdmulh_n_s32(a: int32x2_t, b: i32) -> int32x2_t { vqrdmulh_s32(a, vdup_n_s32(b)) }
#[inline(always)]
pub unsafe fn vqrdmulh_lane_s32<const LANE: i32>(a: int32x2_t, b: int32x2_t) -> int32x2_t { vqrdmulh_s32(a, vdup_lane_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqrdmulh_laneq_s32<const LANE: i32>(a: int32x2_t, b: int32x4_t) -> int32x2_t { vqrdmulh_s32(a, vdup_laneq_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqrdmlah_lane_s32<const LANE: i32>(a: int32x2_t, b: int32x2_t, c: int32x2_t) -> int32x2_t { vqrdmlah_s32(a, b, vdup_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqrdmlah_laneq_s32<const LANE: i32>(a: int32x2_t, b: int32x2_t, c: int32x4_t) -> int32x2_t { vqrdmlah_s32(a, b, vdup_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqrdmlsh_lane_s32<const LANE: i32>(a: int32x2_t, b: int32x2_t, c: int32x2_t) -> int32x2_t { vqrdmlsh_s32(a, b, vdup_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqrdmlsh_laneq_s32<const LANE: i32>(a: int32x2_t, b: int32x2_t, c: int32x4_t) -> int32x2_t { vqrdmlsh_s32(a, b, vdup_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqdmulhq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| ((2 * x as i128 * y as i128) >> 32).clamp(i32::MIN as i128, i32::MAX as i128) as i32)) }
#[inline(always)]
pub unsafe fn vqrdmulhq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t { int32x4_t(map2(a.0, b.0, |x, y| ((2 * x as i128 * y as i128 + (1 << 31)) >> 32).clamp(i32::MIN as i128, i32::MAX as i128) as i32)) }
#[inline(always)]
pub unsafe fn vqrdmlahq_s32(a: int32x4_t, b: int32x4_t, c: int32x4_t) -> int32x4_t { int32x4_t(map3(a.0, b.0, c.0, |x, y, z| ((((x as i128) << 32) + 2 * y as i128 * z as i128 + (1 << 31)) >> 32).clamp(i32::MIN as i128, i32::MAX as i128) as i32)) }
#[inline(always)]
pub unsafe fn vqrdmlshq_s32(a: int32x4_t, b: int32x4_t, c: int32x4_t) -> int32x4_t { int32x4_t(map3(a.0, b.0, c.0, |x, y, z| ((((x as i128) << 32) - 2 * y as i128 * z as i128 + (1 << 31)) >> 32).clamp(i32::MIN as i128, i32::MAX as i128) as i32)) }
#[inline(always)]
pub unsafe fn vqdmulhq_n_s32(a: int32x4_t, b: i32) -> int32x4_t { vqdmulhq_s32(a, vdupq_n_s32(b)) }
#[inline(always)]
pub unsafe fn vqdmulhq_lane_s32<const LANE: i32>(a: int32x4_t, b: int32x2_t) -> int32x4_t { vqdmulhq_s32(a, vdupq_lane_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqdmulhq_laneq_s32<const LANE: i32>(a: int32x4_t, b: int32x4_t) -> int32x4_t { vqdmulhq_s32(a, vdupq_laneq_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqrdmulhq_n_s32(a: int32x4_t, b: i32) -> int32x4_t { vqrdmulhq_s32(a, vdupq_n_s32(b)) }
#[inline(always)]
pub unsafe fn vqrdmulhq_lane_s32<const LANE: i32>(a: int32x4_t, b: int32x2_t) -> int32x4_t { vqrdmulhq_s32(a, vdupq_lane_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqrdmulhq_laneq_s32<const LANE: i32>(a: int32x4_t, b: int32x4_t) -> int32x4_t { vqrdmulhq_s32(a, vdupq_laneq_s32::<LANE>(b)) }
#[inline(always)]
pub unsafe fn vqrdmlahq_lane_s32<const LANE: i32>(a: int32x4_t, b: int32x4_t, c: int32x2_t) -> int32x4_t { vqrdmlahq_s32(a, b, vdupq_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqrdmlahq_laneq_s32<const LANE: i32>(a: int32x4_t, b: int32x4_t, c: int32x4_t) -> int32x4_t { vqrdmlahq_s32(a, b, vdupq_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqrdmlshq_lane_s32<const LANE: i32>(a: int32x4_t, b: int32x4_t, c: int32x2_t) -> int32x4_t { vqrdmlshq_s32(a, b, vdupq_lane_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqrdmlshq_laneq_s32<const LANE: i32>(a: int32x4_t, b: int32x4_t, c: int32x4_t) -> int32x4_t { vqrdmlshq_s32(a, b, vdupq_laneq_s32::<LANE>(c)) }
#[inline(always)]
pub unsafe fn vqtbl1q_u8(a: uint8x16_t, i: uint8x16_t) -> uint8x16_t { uint8x16_t(map(i.0, |i| if i < 16 { a.0[i as usize] } else { 0 })) }
#[inline(always)]
pub unsafe fn vqtbl1_u8(a: uint8x16_t, i: uint8x8_t) -> uint8x8_t { uint8x8_t(map(i.0, |i| if i < 16 { a.0[i as usize] } else { 0 })) }
#[inline(always)]
pub unsafe fn vtbl1_u8(a: uint8x8_t, i: uint8x8_t) -> uint8x8_t { uint8x8_t(map(i.0, |i| if i < 8 { a.0[i as usize] } else { 0 })) }
#[inline(always)]
pub unsafe fn vcvt_f32_s32(a: int32x2_t) -> float32x2_t { float32x2_t(map(a.0, |x| x as f32)) }
#[inline(always)]
pub unsafe fn vcvt_s32_f32(a: float32x2_t) -> int32x2_t { int32x2_t(map(a.0, |x| x as i32)) }
#[inline(always)]
pub unsafe fn vcvta_s32_f32(a: float32x2_t) -> int32x2_t { int32x2_t(map(a.0, |x| x.round() as i32)) }
#[inline(always)]
pub unsafe fn vcvtn_s32_f32(a: float32x2_t) -> int32x2_t { int32x2_t(map(a.0, |x| x.round_ties_even() as i32)) }
#[inline(always)]
pub unsafe fn vcvt_f32_u32(a: uint32x2_t) -> float32x2_t { float32x2_t(map(a.0, |x| x as f32)) }
#[inline(always)]
pub unsafe fn vcvt_u32_f32(a: float32x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| x as u32)) }
#[inline(always)]
pub unsafe fn vcvta_u32_f32(a: float32x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| x.round() as u32)) }
#[inline(always)]
pub unsafe fn vcvtn_u32_f32(a: float32x2_t) -> uint32x2_t { uint32x2_t(map(a.0, |x| x.round_ties_even() as u32)) }
#[inline(always)]
pub unsafe fn vcvtq_f32_s32(a: int32x4_t) -> float32x4_t { float32x4_t(map(a.0, |x| x as f32)) }
#[inline(always)]
pub unsafe fn vcvtq_s32_f32(a: float32x4_t) -> int32x4_t { int32x4_t(map(a.0, |x| x as i32)) }
#[inline(always)]
pub unsafe fn vcvtaq_s32_f32(a: float32x4_t) -> int32x4_t { int32x4_t(map(a.0, |x| x.round() as i32)) }
#[inline(always)]
pub unsafe fn vcvtnq_s32_f32(a: float32x4_t) -> int32x4_t { int32x4_t(map(a.0, |x| x.round_ties_even() as i32)) }
#[inline(always)]
pub unsafe fn vcvtq_f32_u32(a: uint32x4_t) -> float32x4_t { float32x4_t(map(a.0, |x| x as f32)) }
#[inline(always)]
pub unsafe fn vcvtq_u32_f32(a: float32x4_t) -> uint32x4_t { uint32x4_t(map(a.0, |x| x as u32)) }
#[inline(always)]
pub unsafe fn vcvtaq_u32_f32(a: float32x4_t) -> uint32x4_t { uint32x4_t(map(a.0, |x| x.round() as u32)) }
#[inline(always)]
pub unsafe fn vcvtnq_u32_f32(a: float32x4_t) -> uint32x4_t { uint32x4_t(map(a.0, |x| x.round_ties_even() as u32)) }
#[inline(always)]
pub unsafe fn vusdot_s32(a: int32x2_t, b: uint8x8_t, c: int8x8_t) -> int32x2_t { int32x2_t(std::array::from_fn(|i| (0..4).fold(a.0[i], |s, k| s.wrapping_add(b.0[4 * i + k] as i32 * c.0[4 * i + k] as i32)))) }
#[inline(always)]
pub unsafe fn vdot_u32(a: uint32x2_t, b: uint8x8_t, c: uint8x8_t) -> uint32x2_t { uint32x2_t(std::array::from_fn(|i| (0..4).fold(a.0[i], |s, k| s.wrapping_add(b.0[4 * i + k] as u32 * c.0[4 * i + k] as u32)))) }
#[inline(always)]
pub unsafe fn vusdotq_s32(a: int32x4_t, b: uint8x16_t, c: int8x16_t) -> int32x4_t { int32x4_t(std::array::from_fn(|i| (0..4).fold(a.0[i], |s, k| s.wrapping_add(b.0[4 * i + k] as i32 * c.0[4 * i + k] as i32)))) }
#[inline(always)]
pub unsafe fn vdotq_u32(a: uint32x4_t, b: uint8x16_t, c: uint8x16_t) -> uint32x4_t { uint32x4_t(std::array::from_fn(|i| (0..4).fold(a.0[i], |s, k| s.wrapping_add(b.0[4 * i + k] as u32 * c.0[4 * i + k] as u32)))) }

// Half precision, written as inline assembly in the library.
#[inline(always)]
fn h(x: u16) -> f64 { f16::from_bits(x) as f64 }
#[inline(always)]
fn r(x: f64) -> u16 { (x as f16).to_bits() }
/// RecipEstimate of the Arm pseudocode, for half precision.
fn frecpe(x: u16) -> u16 {
    let (s, e, f) = (x & 0x8000, (x >> 10) & 31, x & 0x3FF);
    if e == 31 { return if f != 0 { x | 0x200 } else { s }; }
    if e == 0 && f == 0 { return s | 0x7C00; }
    let (mut e, mut f) = (e as i32, f);
    if e == 0 {
        if f & 0x200 == 0 { e = -1; f = (f << 2) & 0x3FF; if x & 0x3FF < 0x100 { return s | 0x7C00; } } else { f = (f << 1) & 0x3FF; }
    }
    let a = 0x100 | (f >> 2) as u32;
    let b = (1u32 << 19) / (a * 2 + 1);
    let est = ((b + 1) / 2) as u16 & 0xFF;
    let e = 29 - e;
    let (e, f) = match e { 0 => (0, 0x200 | est << 1), -1 => (0, 0x100 | est), _ => (e as u16, est << 2) };
    s | e << 10 | f
}
pub trait Reg: Copy {
    type L;
    fn lane(self, i: usize) -> u16;
    fn each(self, f: impl Fn(usize, u16) -> u16) -> Self;
}
impl Reg for uint16x4_t {
    type L = u16;
    #[inline(always)]
    fn lane(self, i: usize) -> u16 { self.0[i] }
    #[inline(always)]
    fn each(self, f: impl Fn(usize, u16) -> u16) -> Self { uint16x4_t(std::array::from_fn(|i| f(i, self.0[i]))) }
}
impl Reg for uint16x8_t {
    type L = u16;
    #[inline(always)]
    fn lane(self, i: usize) -> u16 { self.0[i] }
    #[inline(always)]
    fn each(self, f: impl Fn(usize, u16) -> u16) -> Self { uint16x8_t(std::array::from_fn(|i| f(i, self.0[i]))) }
}
/// One source register: destination and source have the same shape.
pub trait Un<D> { fn un(self, t: &str) -> D; }
impl<T: Reg> Un<T> for T {
    #[inline(always)]
    fn un(self, t: &str) -> T {
        match t.split_once(' ').unwrap().0 {
            "ucvtf" => self.each(|_, x| r(x as f64)),
            "fcvtau" => self.each(|_, x| h(x).round() as u16),
            "frecpe" => self.each(|_, x| frecpe(x)),
            "fcmeq" => self.each(|_, x| if h(x) == 0.0 { 0xFFFF } else { 0 }),
            _ => panic!("no emulation of {t}"),
        }
    }
}
impl Un<float32x4_t> for uint16x4_t {
    #[inline(always)]
    fn un(self, t: &str) -> float32x4_t { assert!(t.starts_with("fcvtl ")); float32x4_t(map(self.0, |x| f16::from_bits(x) as f32)) }
}
impl Un<uint16x4_t> for float32x4_t {
    #[inline(always)]
    fn un(self, t: &str) -> uint16x4_t { assert!(t.starts_with("fcvtn ")); uint16x4_t(map(self.0, |x| (x as f16).to_bits())) }
}
#[inline(always)]
fn sel(t: &str, i: usize) -> usize {
    match t.rsplit_once('[') { Some((_, k)) => k[..k.len() - 1].parse().unwrap(), None => i }
}
#[inline(always)]
pub fn bin<T: Reg, U: Reg>(t: &str, a: T, b: U) -> T {
    match t.split_once(' ').unwrap().0 {
        "fmul" => a.each(|i, x| r(h(x) * h(b.lane(sel(t, i))))),
        "fdiv" => a.each(|i, x| r(h(x) / h(b.lane(sel(t, i))))),
        "fadd" => a.each(|i, x| r(h(x) + h(b.lane(sel(t, i))))),
        _ => panic!("no emulation of {t}"),
    }
}
#[inline(always)]
pub fn tri<T: Reg, U: Reg>(t: &str, d: T, a: T, b: U) -> T {
    match t.split_once(' ').unwrap().0 {
        "fmla" => d.each(|i, x| r(h(x) + h(a.lane(i)) * h(b.lane(sel(t, i))))),
        "bsl" => d.each(|i, m| (m & a.lane(i)) | (!m & b.lane(i))),
        _ => panic!("no emulation of {t}"),
    }
}
#[macro_export]
macro_rules! asm {
    ($t:literal, out(vreg) $d:ident, in(vreg) $a:expr, options($($o:tt)*) $(,)?) => { $d = $crate::Un::un($a, $t) };
    ($t:literal, out(vreg) $d:ident, in(vreg) $a:expr, in(vreg) $b:expr, options($($o:tt)*) $(,)?) => { $d = $crate::bin($t, $a, $b) };
    ($t:literal, inout(vreg) $d:ident, in(vreg) $a:expr, in(vreg) $b:expr, options($($o:tt)*) $(,)?) => { $d = $crate::tri($t, $d, $a, $b) };
}

