//! Run-time CPU feature detection of the NEON build: the library asks the emulator which optional
//! Arm features there are.
use std::sync::atomic::Ordering::SeqCst;

pub const NF: usize = 3;
pub const FEATS: [&str; NF] = ["rdm", "i8mm", "fp16"];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Backend {
    pub name: &'static str,
    pub on: [bool; NF],
}

/// Armv8.0, Armv8.1, Armv8.2 and Armv8.6, as the dispatch code can tell them apart.
pub const BACKENDS: [Backend; 4] = [
    Backend { name: "neon", on: [false, false, false] },
    Backend { name: "neon+rdm", on: [true, false, false] },
    Backend { name: "neon+rdm+fp16", on: [true, false, true] },
    Backend { name: "neon+rdm+i8mm+fp16", on: [true, true, true] },
];

pub struct Cpu {
    pub native: [bool; NF],
}

pub fn detect() -> [bool; NF] {
    [neon_emu::detected!("rdm"), neon_emu::detected!("i8mm"), neon_emu::detected!("fp16")]
}

impl Cpu {
    pub fn new() -> Self {
        Cpu { native: [true; NF] }
    }
    pub fn backends(&self) -> Vec<usize> {
        (0..BACKENDS.len()).collect()
    }
    pub fn select(&mut self, i: usize) {
        let on = BACKENDS[i].on;
        neon_emu::FEATURES.store(on[0] as u32 | (on[1] as u32) << 1 | (on[2] as u32) << 2, SeqCst);
        debug_assert!(detect() == on);
    }
    pub fn restore(&mut self) {
        neon_emu::FEATURES.store(7, SeqCst);
    }
}
