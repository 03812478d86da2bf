//! Execution of single cases against the real library, and the fork-based worker pool.
use crate::cpu::{Cpu, BACKENDS};
use crate::fill::{fill, Fill};
use crate::fmt::*;
use crate::mem::*;
use crate::model::*;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    /// stride = row width, exact length
    Tight,
    /// stride = row width + padding, every row padded
    Pad,
    /// stride = row width + padding, the last row without padding (the documented minimum length)
    Short,
    /// exact stride, buffer longer than the image
    Over,
    /// stride rounded up to the second next multiple of 64
    Align,
}

#[derive(Clone, Copy, Debug)]
pub struct Case {
    pub op: usize,
    pub backend: usize,
    pub w: usize,
    pub h: usize,
    pub fill: Fill,
    pub p: Params,
    pub src_layout: Layout,
    pub dst_layout: Layout,
    pub place: Place,
    pub pre: u8,
}

pub struct Finding {
    pub kind: &'static str,
    pub detail: String,
}

pub const NSLOT: usize = 64;
pub const SLOT: usize = 1024;
pub const VBUF: usize = 1 << 24;

#[repr(C)]
pub struct Shared {
    pub next: AtomicUsize,
    pub states: AtomicU64,
    pub execs: AtomicU64,
    pub samples: AtomicU64,
    pub compared: AtomicU64,
    pub slen: AtomicUsize,
    pub sbuf: [u8; 1 << 14],
    pub nviol: AtomicU64,
    pub nskip: AtomicU64,
    pub vlen: AtomicUsize,
    pub slots: [[u8; SLOT]; NSLOT],
    pub slot_len: [AtomicUsize; NSLOT],
    pub calib: [[[AtomicU32; 4]; 24]; 640],
    pub vbuf: [u8; VBUF],
}

pub fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}

impl Shared {
    /// One record per violation: `key \t case \t detail \n`.
    pub fn report(&self, key: &str, case: &str, detail: &str) {
        self.nviol.fetch_add(1, SeqCst);
        let s = format!("{key}\t{case}\t{}\n", detail.replace(['\n', '\t'], " "));
        let at = self.vlen.fetch_add(s.len(), SeqCst);
        if at + s.len() > VBUF {
            return;
        }
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), (self.vbuf.as_ptr() as *mut u8).add(at), s.len()) };
    }
    /// Keep a case for the evidence file.
    pub fn sample(&self, case: &str) {
        let s = format!("{case}\n");
        let at = self.slen.fetch_add(s.len(), SeqCst);
        if at + s.len() <= 1 << 14 {
            unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), (self.sbuf.as_ptr() as *mut u8).add(at), s.len()) };
        }
    }
    pub fn sample_list(&self) -> Vec<String> {
        let n = self.slen.load(SeqCst).min(1 << 14);
        let mut v: Vec<String> = String::from_utf8_lossy(&self.sbuf[..n]).lines().map(|s| s.trim_end_matches('\0').to_string()).filter(|s| !s.is_empty()).collect();
        v.truncate(24);
        v
    }
    pub fn records(&self) -> Vec<(String, String, String)> {
        let n = self.vlen.load(SeqCst).min(VBUF);
        let s = String::from_utf8_lossy(&self.vbuf[..n]).to_string();
        s.lines()
            .filter_map(|l| {
                let mut it = l.splitn(3, '\t');
                Some((it.next()?.to_string(), it.next()?.to_string(), it.next()?.to_string()))
            })
            .collect()
    }
}

pub struct Ctx {
    pub sh: &'static Shared,
    pub slot: usize,
    pub cpu: Cpu,
    pub ops: Vec<Op>,
    pub ins: Vec<Arena>,
    pub outs: Vec<Arena>,
    pub got: Comps,
    pub seen: std::collections::HashMap<String, u32>,
    /// largest deviations, written to the file MC_ECAL names when set (calibration runs only)
    pub notes: Option<std::collections::HashMap<String, f64>>,
    pub prop: String,
    pub last_in: Vec<Plane>,
    pub stage: &'static str,
    pub want_sample: bool,
    since_watch: u32,
    /// called right before and right after the library
    pub guard: Option<fn(bool)>,
    /// panic message of the last caught panic
    pub seed: u32,
}

thread_local! {
    pub static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn layout_stride(w: usize, l: Layout, extra: usize) -> usize {
    match l {
        Layout::Tight | Layout::Over => w,
        Layout::Align => w.div_ceil(64) * 64 + 64,
        _ => w + extra,
    }
}
pub fn layout_len(w: usize, h: usize, stride: usize, l: Layout) -> usize {
    match l {
        Layout::Tight | Layout::Pad | Layout::Align => stride * h,
        Layout::Short => stride * (h - 1) + w,
        Layout::Over => stride * (h + 3) + 5,
    }
}

impl Ctx {
    pub fn new(sh: &'static Shared, slot: usize, prop: &str, seed: u32) -> Ctx {
        std::panic::set_hook(Box::new(|i| {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let m = i
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
            if loc.starts_with("src/") || std::env::var("MC_PANIC").is_ok() {
                eprintln!("panic: {m} at {loc}");
            }
        }));
        Ctx {
            sh,
            slot,
            cpu: Cpu::new(),
            ops: all_ops(),
            ins: (0..4).map(|_| Arena::new(8 << 20)).collect(),
            outs: (0..4).map(|_| Arena::new(8 << 20)).collect(),
            got: Comps { dim: vec![], v: vec![] },
            seen: Default::default(),
            notes: std::env::var("MC_ECAL").is_ok().then(Default::default),
            prop: prop.to_string(),
            last_in: vec![],
            stage: "",
            want_sample: false,
            since_watch: 0,
            guard: None,
            seed,
        }
    }
    pub fn note(&mut self, key: &str, dev: f64) {
        if let Some(n) = &mut self.notes {
            let e = n.entry(key.to_string()).or_insert(0.0);
            *e = e.max(dev);
        }
    }
    fn flush_notes(&self) {
        if let (Some(n), Ok(f)) = (&self.notes, std::env::var("MC_ECAL")) {
            use std::io::Write;
            let s: String = n.iter().map(|(k, v)| format!("{v} {k}\n")).collect();
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(f).unwrap();
            f.write_all(s.as_bytes()).unwrap();
        }
    }
    /// Announce what is about to run, for the parent to name should this process die.
    pub fn announce(&self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(SLOT);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.sh.slots[self.slot].as_ptr() as *mut u8, n);
        }
        self.sh.slot_len[self.slot].store(n, SeqCst);
    }
    pub fn done(&self) {
        self.sh.slot_len[self.slot].store(0, SeqCst);
    }

    pub fn lay(&self, arenas: &[Arena], specs: &[PlaneSpec], l: Layout, place: Place, extra: usize) -> Vec<Plane> {
        specs
            .iter()
            .enumerate()
            .map(|(k, s)| {
                let l = if s.tight { Layout::Tight } else { l };
                let stride = layout_stride(s.w, l, extra + k);
                let len = layout_len(s.w, s.h, stride, l);
                let p = arenas[k].place(len * s.ty.size(), place);
                Plane { p, ty: s.ty, len, stride, w: s.w, h: s.h }
            })
            .collect()
    }

    /// Run one case. `src`/`exp` are the contents and expected result; `tol` one per component.
    pub fn run(&mut self, c: &Case, src: &Comps, exp: Option<&Exp>, tol: &dyn Fn(&Op, &Params, usize, usize) -> Tol, calib: bool) -> Option<Finding> {
        let op = self.ops[c.op];
        let (sf, df) = op.fmts(&c.p);
        let (dw, dh) = op.dst_size(&c.p, c.w, c.h);
        let inp = self.lay(&self.ins, &sf.planes(c.w, c.h), c.src_layout, c.place, 3);
        let out = self.lay(&self.outs, &df.planes(dw, dh), c.dst_layout, c.place, 5);
        // inputs: padding holds a value different from run to run, so a result depending on it shows
        for (k, pl) in inp.iter().enumerate() {
            self.ins[k].prefill(pl.p, pl.bytes(), c.pre ^ 0x3C);
        }
        sf.store(src, &inp);
        for (k, pl) in out.iter().enumerate() {
            self.outs[k].prefill(pl.p, pl.bytes(), c.pre);
        }
        if self.want_sample {
            self.want_sample = false;
            self.sh.sample(&self.case_str(c));
        }
        self.last_in = inp.clone();
        self.cpu.select(c.backend);
        self.watchdog();
        self.announce_case(c);
        if let Some(g) = self.guard {
            g(true);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::call::call(&op, &c.p, c.w, c.h, &inp, &out)));
        if let Some(g) = self.guard {
            g(false);
        }
        self.done();
        self.sh.execs.fetch_add(1, SeqCst);
        match r {
            Err(_) => {
                let m = PANIC.with(|p| p.borrow().clone());
                return Some(Finding { kind: "panic", detail: m });
            }
            Ok(Some(e)) => {
                return Some(Finding { kind: "rejected", detail: format!("a valid image was rejected: {e}") });
            }
            Ok(None) => {}
        }
        for (k, pl) in out.iter().enumerate() {
            if !self.outs[k].margin_ok(pl.p, pl.bytes(), c.pre) {
                return Some(Finding { kind: "margin", detail: format!("bytes outside destination plane {k} were written") });
            }
            if let Some(d) = padding_dirty(pl, c.pre) {
                return Some(Finding { kind: "padding", detail: format!("destination plane {k}: padding written at row {} element {}", d.0, d.1) });
            }
        }
        let mut got = std::mem::replace(&mut self.got, Comps { dim: vec![], v: vec![] });
        let stray = df.load(&out, dw, dh, &mut got);
        let mut f = None;
        if let Some((cc, x, y)) = stray {
            f = Some(Finding { kind: "stray", detail: format!("component {cc} at {x},{y}: bits outside the sample are set") });
        }
        if let Some(exp) = exp {
            self.sh.compared.fetch_add(1, SeqCst);
            let mut ns = 0u64;
            for cc in 0..exp.v.len() {
                ns += got.v[cc].len() as u64;
                let t = tol(&op, &c.p, c.backend, cc);
                if calib {
                    let (d, i) = deviation(&df, cc, &got.v[cc], exp);
                    let cell = &self.sh.calib[c.op][c.backend * 3 + c.p.mode as usize][cc];
                    let old = cell.fetch_max(d.to_bits(), SeqCst);
                    if std::env::var("MC_TRACE").is_ok() && f32::from_bits(old) < d {
                        let m = format!("{} {d} c{cc} at {i} {} got {} exp {}\n", op.name, self.case_str(c), got.v[cc][i], exp.v[cc][i]);
                        unsafe { libc::write(2, m.as_ptr() as *const _, m.len()) };
                    }
                    continue;
                }
                if f.is_some() {
                    break;
                }
                if let Some(i) = first_bad(&df, cc, &got.v[cc], exp, t) {
                    let cw = exp.dim[cc].0;
                    let g = if is_f16_dst(&df) { f16v(got.v[cc][i]) } else { got.v[cc][i] as f32 };
                    f = Some(Finding {
                        kind: "value",
                        detail: format!("component {cc} at x={} y={}: got {g}, model {} (tolerance {:?})", i % cw, i / cw, exp.v[cc][i], t),
                    });
                }
            }
            self.sh.samples.fetch_add(ns, SeqCst);
        }
        self.got = got;
        f
    }

    /// The source planes of the last call still hold `src` and their margins are untouched.
    pub fn sources_intact(&self, c: &Case, src: &Comps) -> bool {
        let (sf, _) = self.ops[c.op].fmts(&c.p);
        let mut now = Comps { dim: vec![], v: vec![] };
        sf.load(&self.last_in, c.w, c.h, &mut now);
        (now.v == src.v || matches!(c.fill, crate::fill::Fill::Raw(_))) && self.last_in.iter().enumerate().all(|(k, p)| self.ins[k].margin_ok(p.p, p.bytes(), c.pre ^ 0x3C))
    }
    pub fn case_str(&self, c: &Case) -> String {
        format!(
            "stage={} op={} backend={} w={} h={} fill={:?} src={:?} dst={:?} place={:?} pre={} range={} matrix={} mode={} bo={} premul={} depth={} aux={}",
            self.stage, self.ops[c.op].name, BACKENDS[c.backend].name, c.w, c.h, c.fill, c.src_layout, c.dst_layout, c.place, c.pre,
            c.p.range, c.p.matrix, c.p.mode, c.p.bo, c.p.premul as u8, c.p.depth, c.p.aux
        )
    }
    /// A call that burns this much processor time never ends: the process dies and the call is reported.
    pub fn watchdog(&mut self) {
        if self.since_watch == 0 {
            let t = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: 20, tv_usec: 0 } };
            unsafe { libc::syscall(libc::SYS_setitimer, libc::ITIMER_VIRTUAL as libc::c_long, &t, std::ptr::null_mut::<libc::itimerval>()) };
            self.since_watch = 32;
        }
        self.since_watch -= 1;
    }
    fn announce_case(&self, c: &Case) {
        // cheap fixed-size record; the parent formats it
        let n = std::mem::size_of::<Case>();
        unsafe {
            std::ptr::copy_nonoverlapping(c as *const Case as *const u8, self.sh.slots[self.slot].as_ptr() as *mut u8, n);
        }
        self.sh.slot_len[self.slot].store(n | 1 << 32, SeqCst);
    }
    /// Record a finding once per (function, backend, kind) and worker.
    pub fn violation(&mut self, opname: &str, backend: usize, kind: &str, case: &str, detail: &str) {
        let key = format!("op={opname} backend={} kind={kind}", BACKENDS[backend].name);
        let n = self.seen.entry(key.clone()).or_insert(0);
        *n += 1;
        if *n == 1 {
            self.sh.report(&key, case, detail);
        }
    }
    pub fn seen_kind(&self, opname: &str, backend: usize) -> bool {
        let pre = format!("op={opname} backend={} ", BACKENDS[backend].name);
        self.seen.keys().any(|k| k.starts_with(&pre))
    }
}

fn padding_dirty(pl: &Plane, pre: u8) -> Option<(usize, usize)> {
    let es = pl.ty.size();
    if pl.len == pl.w * pl.h {
        return None;
    }
    let b = unsafe { std::slice::from_raw_parts(pl.p, pl.bytes()) };
    let rows = pl.len.div_ceil(pl.stride);
    for y in 0..rows {
        let s = y * pl.stride + if y < pl.h { pl.w } else { 0 };
        let e = ((y + 1) * pl.stride).min(pl.len);
        for x in s..e {
            for q in 0..es {
                if b[x * es + q] != pre {
                    return Some((y, x - y * pl.stride));
                }
            }
        }
    }
    None
}

/// Fork `n` workers over `jobs`; returns when all are done. A worker that dies is recorded and replaced.
pub fn pool(sh: &'static Shared, n: usize, prop: &str, seed: u32, njobs: usize, job: &dyn Fn(&mut Ctx, usize)) {
    let mut pids: Vec<(i32, usize)> = vec![];
    let spawn = |slot: usize| -> i32 {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            let mut ctx = Ctx::new(sh, slot, prop, seed);
            loop {
                let j = sh.next.fetch_add(1, SeqCst);
                if j >= njobs {
                    break;
                }
                job(&mut ctx, j);
            }
            ctx.flush_notes();
            unsafe { libc::_exit(0) };
        }
        pid
    };
    for s in 0..n {
        pids.push((spawn(s), s));
    }
    let mut deaths = 0;
    while !pids.is_empty() {
        let mut st = 0i32;
        let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
        assert!(pid > 0);
        let Some(i) = pids.iter().position(|p| p.0 == pid) else { continue };
        let (_, slot) = pids.remove(i);
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            continue;
        }
        let sl = sh.slot_len[slot].swap(0, SeqCst);
        let how = if libc::WIFSIGNALED(st) { format!("signal {}", libc::WTERMSIG(st)) } else { format!("exit status {}", libc::WEXITSTATUS(st)) };
        if sl == 0 {
            eprintln!("harness error: worker died outside a library call ({how})");
            std::process::exit(3);
        }
        let (opn, be, case) = if sl >> 32 == 1 {
            let c: Case = unsafe { std::ptr::read_unaligned(sh.slots[slot].as_ptr() as *const Case) };
            let ops = all_ops();
            (
                ops[c.op].name.to_string(),
                BACKENDS[c.backend].name.to_string(),
                format!(
                    "op={} backend={} w={} h={} fill={:?} src={:?} dst={:?} place={:?} pre={} range={} matrix={} mode={} bo={} premul={} depth={} aux={}",
                    ops[c.op].name, BACKENDS[c.backend].name, c.w, c.h, c.fill, c.src_layout, c.dst_layout, c.place, c.pre,
                    c.p.range, c.p.matrix, c.p.mode, c.p.bo, c.p.premul as u8, c.p.depth, c.p.aux
                ),
            )
        } else {
            let s = String::from_utf8_lossy(&sh.slots[slot][..sl & 0xffff_ffff]).to_string();
            let g = |k: &str| s.split(' ').find_map(|t| t.strip_prefix(k)).unwrap_or("?").to_string();
            (g("op="), g("backend="), s.clone())
        };
        sh.report(&format!("op={opn} backend={be} kind=crash"), &case, &format!("process died inside the call: {how}"));
        deaths += 1;
        if deaths < 60 {
            pids.push((spawn(slot), slot));
        }
    }
}

pub fn mk(c: &Case, ops: &[Op], need_exp: bool) -> (Comps, Option<Exp>) {
    let op = ops[c.op];
    let (sf, _) = op.fmts(&c.p);
    let s = fill(&sf, c.w, c.h, c.fill);
    let e = need_exp.then(|| expect(&op, &c.p, &s, c.w, c.h));
    (s, e)
}
