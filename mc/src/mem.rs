//! Buffers between two inaccessible pages. A buffer either ends exactly at the upper guard page
//! (`Tail`) or starts exactly at the lower one (`Head`), so that any access outside it on that side
//! faults; the remaining side is watched by a filled margin.
use crate::fmt::Ty;

pub const PAGE: usize = 4096;
pub const MARGIN: usize = 256;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
    Tail,
    Head,
}

pub struct Arena {
    base: *mut u8,
    pub cap: usize,
}

impl Arena {
    pub fn new(cap: usize) -> Self {
        let cap = cap.div_ceil(PAGE) * PAGE;
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                cap + 2 * PAGE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let base = (p as *mut u8).add(PAGE);
            assert!(libc::mprotect(base as *mut _, cap, libc::PROT_READ | libc::PROT_WRITE) == 0);
            Arena { base, cap }
        }
    }
    pub fn place(&self, bytes: usize, place: Place) -> *mut u8 {
        assert!(bytes + MARGIN <= self.cap, "arena too small: {bytes}");
        match place {
            Place::Tail => unsafe { self.base.add(self.cap - bytes) },
            Place::Head => self.base,
        }
    }
    /// Fill the buffer and its margin with one byte value.
    pub fn prefill(&self, p: *mut u8, bytes: usize, val: u8) {
        unsafe {
            let lo = (p as usize - MARGIN).max(self.base as usize);
            let hi = (p as usize + bytes + MARGIN).min(self.base as usize + self.cap);
            std::ptr::write_bytes(lo as *mut u8, val, hi - lo);
        }
    }
    pub fn margin_ok(&self, p: *mut u8, bytes: usize, val: u8) -> bool {
        let a = p as usize;
        let lo = (a - MARGIN).max(self.base as usize);
        let hi = (a + bytes + MARGIN).min(self.base as usize + self.cap);
        let chk = |s: usize, e: usize| (s..e).all(|q| unsafe { *(q as *const u8) } == val);
        chk(lo, a) && chk(a + bytes, hi)
    }
}

/// One plane handed to the library.
#[derive(Clone, Copy)]
pub struct Plane {
    pub p: *mut u8,
    pub ty: Ty,
    /// slice length in elements
    pub len: usize,
    /// stride passed, in elements
    pub stride: usize,
    /// logical row width in elements and row count
    pub w: usize,
    pub h: usize,
}

impl Plane {
    pub fn s<T>(&self) -> &'static [T] {
        debug_assert!(std::mem::size_of::<T>() == self.ty.size());
        unsafe { std::slice::from_raw_parts(self.p as *const T, self.len) }
    }
    pub fn m<T>(&self) -> &'static mut [T] {
        debug_assert!(std::mem::size_of::<T>() == self.ty.size());
        unsafe { std::slice::from_raw_parts_mut(self.p as *mut T, self.len) }
    }
    pub fn bytes(&self) -> usize {
        self.len * self.ty.size()
    }
}
