//! Buffers in WebAssembly linear memory. One plane of every execution ends exactly at the end of the
//! memory, where the machine itself traps any access beyond it; all planes have watched margins.
use crate::fmt::Ty;

pub const MARGIN: usize = 256;
pub const REGION: usize = 2 << 20;
pub const NREGION: usize = 9;

pub struct Arena {
    base: usize,
}

impl Arena {
    pub fn new() -> Arena {
        // memory the allocator may hand out later, so that it never grows past the arena
        drop(std::hint::black_box(vec![1u8; 64 << 20]));
        let pages = REGION * NREGION / 65536;
        let at = core::arch::wasm32::memory_grow(0, pages);
        assert!(at != usize::MAX);
        Arena { base: at * 65536 }
    }
    pub fn at_end(&self) -> bool {
        core::arch::wasm32::memory_size::<0>() * 65536 == self.base + REGION * NREGION
    }
    /// Region `r`; the last one ends where the memory ends.
    pub fn place(&self, r: usize, bytes: usize) -> *mut u8 {
        assert!(bytes + 4 * MARGIN <= REGION, "region too small: {bytes}");
        let end = self.base + REGION * (r + 1);
        let end = if r + 1 == NREGION { end } else { end - 2 * MARGIN };
        (end - bytes) as *mut u8
    }
    fn around(&self, p: *mut u8, bytes: usize) -> (usize, usize) {
        let top = self.base + REGION * NREGION;
        (p as usize - MARGIN, (p as usize + bytes + MARGIN).min(top))
    }
    pub fn prefill(&self, p: *mut u8, bytes: usize, val: u8) {
        let (lo, hi) = self.around(p, bytes);
        unsafe { std::ptr::write_bytes(lo as *mut u8, val, hi - lo) }
    }
    pub fn margin_ok(&self, p: *mut u8, bytes: usize, val: u8) -> bool {
        let (lo, hi) = self.around(p, bytes);
        let a = p as usize;
        (lo..a).chain(a + bytes..hi).all(|q| unsafe { *(q as *const u8) } == val)
    }
}

/// One plane handed to the library (same interface as the native harness).
#[derive(Clone, Copy)]
pub struct Plane {
    pub p: *mut u8,
    pub ty: Ty,
    pub len: usize,
    pub stride: usize,
    pub w: usize,
    pub h: usize,
}

impl Plane {
    pub fn s<T>(&self) -> &'static [T] {
        unsafe { std::slice::from_raw_parts(self.p as *const T, self.len) }
    }
    pub fn m<T>(&self) -> &'static mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.p as *mut T, self.len) }
    }
    pub fn bytes(&self) -> usize {
        self.len * self.ty.size()
    }
}
