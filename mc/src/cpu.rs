//! Ownership of the one source of nondeterminism of the library: run-time CPU feature detection.
//!
//! The library picks its implementation with `std::arch::is_x86_feature_detected!`. That macro reads
//! `std_detect`'s cache words. We locate the cache in our own symbol table and clear feature bits in
//! it, so that one process can execute the code the library would run on every kind of CPU up to
//! the one it is on. Which bit is which feature is found by probing, and every switch is verified
//! with the same macro the library uses.
use std::sync::atomic::{AtomicUsize, Ordering};

#[no_mangle]
#[used]
pub static MC_ANCHOR_SYMBOL: AtomicUsize = AtomicUsize::new(0x5eed);

pub const NF: usize = 7;
pub const FEATS: [&str; NF] = ["sse4.1", "avx2", "f16c", "avxvnni", "avx512bw", "avx512vnni", "avx512vbmi"];

pub fn detect() -> [bool; NF] {
    [
        std::arch::is_x86_feature_detected!("sse4.1"),
        std::arch::is_x86_feature_detected!("avx2"),
        std::arch::is_x86_feature_detected!("f16c"),
        std::arch::is_x86_feature_detected!("avxvnni"),
        std::arch::is_x86_feature_detected!("avx512bw"),
        std::arch::is_x86_feature_detected!("avx512vnni"),
        std::arch::is_x86_feature_detected!("avx512vbmi"),
    ]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Backend {
    pub name: &'static str,
    pub on: [bool; NF],
}

/// The CPU classes the dispatch code can distinguish, as real CPUs present them.
pub const BACKENDS: [Backend; 7] = [
    Backend { name: "scalar", on: [false, false, false, false, false, false, false] },
    Backend { name: "sse4.1", on: [true, false, false, false, false, false, false] },
    Backend { name: "avx2", on: [true, true, true, false, false, false, false] },
    Backend { name: "avx2+avxvnni", on: [true, true, true, true, false, false, false] },
    Backend { name: "avx512bw", on: [true, true, true, false, true, false, false] },
    Backend { name: "avx512bw+vnni", on: [true, true, true, false, true, true, false] },
    Backend { name: "avx512bw+vnni+vbmi", on: [true, true, true, true, true, true, true] },
];

pub struct Cpu {
    words: usize,
    base: *mut usize,
    orig: Vec<usize>,
    bits: [Option<(usize, usize)>; NF],
    pub native: [bool; NF],
    cur: usize,
}

fn rd<T: Copy>(b: &[u8], o: usize) -> T {
    assert!(o + std::mem::size_of::<T>() <= b.len());
    unsafe { std::ptr::read_unaligned(b.as_ptr().add(o) as *const T) }
}

fn symbols() -> (u64, u64, usize) {
    let b = std::fs::read("/proc/self/exe").expect("read own executable");
    let shoff: u64 = rd(&b, 40);
    let shentsize: u16 = rd(&b, 58);
    let shnum: u16 = rd(&b, 60);
    let (mut cache, mut anchor, mut csize) = (0u64, 0u64, 0usize);
    for i in 0..shnum as usize {
        let o = shoff as usize + i * shentsize as usize;
        let ty: u32 = rd(&b, o + 4);
        if ty != 2 {
            continue;
        }
        let off: u64 = rd(&b, o + 24);
        let size: u64 = rd(&b, o + 32);
        let link: u32 = rd(&b, o + 40);
        let so = shoff as usize + link as usize * shentsize as usize;
        let stroff: u64 = rd(&b, so + 24);
        for k in 0..(size as usize / 24) {
            let s = off as usize + k * 24;
            let name: u32 = rd(&b, s);
            let value: u64 = rd(&b, s + 8);
            let sz: u64 = rd(&b, s + 16);
            let st = stroff as usize + name as usize;
            let en = b[st..].iter().position(|&c| c == 0).unwrap() + st;
            let nm = std::str::from_utf8(&b[st..en]).unwrap_or("");
            if nm == "MC_ANCHOR_SYMBOL" {
                anchor = value;
            }
            if nm.contains("std_detect") && nm.contains("cache") && nm.contains("CACHE") {
                cache = value;
                csize = sz as usize;
            }
        }
    }
    (cache, anchor, csize)
}

impl Cpu {
    pub fn new() -> Self {
        let native = detect();
        let (c, a, sz) = symbols();
        assert!(c != 0 && a != 0, "std_detect cache symbol not found");
        let bias = (&MC_ANCHOR_SYMBOL as *const _ as usize).wrapping_sub(a as usize);
        let base = (c as usize).wrapping_add(bias) as *mut usize;
        let words = sz / 8;
        assert!((1..=4).contains(&words));
        let mut me = Cpu { words, base, orig: vec![], bits: [None; NF], native, cur: usize::MAX };
        me.orig = (0..words).map(|i| me.get(i)).collect();
        for w in 0..words {
            for bit in 0..63 {
                let o = me.orig[w];
                if o >> bit & 1 == 0 {
                    continue;
                }
                me.set(w, o & !(1 << bit));
                let d = detect();
                me.set(w, o);
                for f in 0..NF {
                    if native[f] && !d[f] {
                        me.bits[f] = Some((w, bit));
                    }
                }
            }
        }
        for f in 0..NF {
            assert!(native[f] == me.bits[f].is_some(), "feature bit of {} not found", FEATS[f]);
        }
        me
    }
    fn get(&self, i: usize) -> usize {
        unsafe { (*(self.base.add(i) as *const AtomicUsize)).load(Ordering::SeqCst) }
    }
    fn set(&self, i: usize, v: usize) {
        unsafe { (*(self.base.add(i) as *const AtomicUsize)).store(v, Ordering::SeqCst) }
    }
    pub fn available(&self, i: usize) -> bool {
        (0..NF).all(|f| !BACKENDS[i].on[f] || self.native[f])
    }
    /// Backends this machine can execute.
    pub fn backends(&self) -> Vec<usize> {
        (0..BACKENDS.len()).filter(|&i| self.available(i)).collect()
    }
    pub fn select(&mut self, i: usize) {
        if self.cur == i {
            return;
        }
        let mut w: Vec<usize> = self.orig.clone();
        for f in 0..NF {
            if let Some((k, bit)) = self.bits[f] {
                if !BACKENDS[i].on[f] {
                    w[k] &= !(1usize << bit);
                }
            }
        }
        for k in 0..self.words {
            self.set(k, w[k]);
        }
        assert!(detect() == BACKENDS[i].on, "backend {} could not be selected", BACKENDS[i].name);
        self.cur = i;
    }
    pub fn restore(&mut self) {
        for k in 0..self.words {
            self.set(k, self.orig[k]);
        }
        self.cur = usize::MAX;
    }
}
