//! Planes as separate allocations of exactly their size: the interpreter faults every access that
//! leaves one, so no margins are needed.
use crate::fmt::Ty;
use std::alloc::*;

/// One plane handed to the library (same interface as the native harness).
#[derive(Clone, Copy)]
pub struct Plane {
    pub p: *mut u8,
    pub ty: Ty,
    pub len: usize,
    pub stride: usize,
    pub w: usize,
    pub h: usize,
}

impl Plane {
    /// A plane aligned to its samples and nothing more, holding `data` (one byte: all of them that).
    pub fn new(ty: Ty, len: usize, stride: usize, data: &[u8]) -> Plane {
        unsafe {
            let p = alloc(Self::layout(len, ty));
            if data.len() == 1 {
                std::ptr::write_bytes(p, data[0], len * ty.size());
            } else {
                std::ptr::copy_nonoverlapping(data.as_ptr(), p, len * ty.size());
            }
            Plane { p, ty, len, stride, w: 0, h: 0 }
        }
    }
    fn layout(len: usize, ty: Ty) -> Layout {
        Layout::from_size_align((len * ty.size()).max(1), ty.size()).unwrap()
    }
    pub fn free(self) {
        unsafe { dealloc(self.p, Self::layout(self.len, self.ty)) }
    }
    pub fn s<T>(&self) -> &'static [T] {
        unsafe { std::slice::from_raw_parts(self.p as *const T, self.len) }
    }
    pub fn m<T>(&self) -> &'static mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.p as *mut T, self.len) }
    }
    pub fn bytes(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.p, self.len * self.ty.size()) }
    }
}
