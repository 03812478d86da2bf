//! C29: the library built in other configurations, and under every schedule of its parallel loops,
//! returns bit for bit what the sequential, all-features build returns.
//!
//! The main binary writes the hash of every result into a table; the variant binaries, built from the
//! same sources with other features, enumerate the same space and compare.
use crate::engine::*;
use crate::explore::*;
use crate::fmt::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;

pub const SLOTS: usize = 1 << 24;
/// Schedules tried per call at most (all of them when there are no more).
pub const SCHEDULES: usize = 720;

#[derive(Clone, Copy, PartialEq, Eq)]
enum Role {
    Write,
    Compare,
}
struct Table {
    role: Role,
    mem: *const [AtomicU64; 2],
    file: String,
}
unsafe impl Sync for Table {}
unsafe impl Send for Table {}
static TABLE: OnceLock<Table> = OnceLock::new();

/// Open the table before the workers are forked.
pub fn open(path: &str, write: bool) {
    let c = std::ffi::CString::new(path).unwrap();
    let mem = unsafe {
        let fd = libc::open(c.as_ptr(), if write { libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC } else { libc::O_RDWR }, 0o600);
        assert!(fd >= 0, "cannot open {path}");
        if write {
            assert_eq!(libc::ftruncate(fd, (SLOTS * 16) as libc::off_t), 0);
        }
        let p = libc::mmap(std::ptr::null_mut(), SLOTS * 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(p != libc::MAP_FAILED);
        libc::close(fd);
        p as *const [AtomicU64; 2]
    };
    let _ = TABLE.set(Table { role: if write { Role::Write } else { Role::Compare }, mem, file: path.to_string() });
}

fn mix(h: &mut u64, v: u64) {
    *h = (*h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    *h ^= *h >> 29;
}
fn key(ctx: &Ctx, c: &Case) -> u64 {
    let mut h = 0x1234_5678_9ABC_DEF1u64;
    for b in ctx.stage.bytes().chain(ctx.ops[c.op].name.bytes()) {
        mix(&mut h, b as u64);
    }
    for b in format!("{:?}", (c.w, c.h, c.fill, c.p, c.backend)).bytes() {
        mix(&mut h, b as u64);
    }
    h | 1
}
fn digest(f: &Option<Finding>, got: &Comps) -> u64 {
    let mut h = 77u64;
    match f {
        // what exactly a failing call reports is not compared
        Some(f) => f.kind.bytes().for_each(|b| mix(&mut h, b as u64)),
        None => {
            for c in &got.v {
                mix(&mut h, c.len() as u64);
                for &x in c {
                    mix(&mut h, x as u32 as u64);
                }
            }
        }
    }
    h
}
impl Table {
    fn slot(&self, i: usize) -> &[AtomicU64; 2] {
        unsafe { &*self.mem.add(i % SLOTS) }
    }
    fn put(&self, k: u64, v: u64) {
        let mut i = (k >> 20) as usize;
        loop {
            let s = self.slot(i);
            let o = s[0].compare_exchange(0, k, SeqCst, SeqCst);
            if o.is_ok() || o == Err(k) {
                s[1].store(v, SeqCst);
                return;
            }
            i += 1;
        }
    }
    fn get(&self, k: u64) -> Option<u64> {
        let mut i = (k >> 20) as usize;
        loop {
            let s = self.slot(i);
            match s[0].load(SeqCst) {
                0 => return None,
                x if x == k => return Some(s[1].load(SeqCst)),
                _ => i += 1,
            }
        }
    }
}

pub fn variant() -> &'static str {
    if cfg!(feature = "par") {
        "rayon"
    } else if cfg!(feature = "f16") {
        "all-features"
    } else if cfg!(feature = "simd") {
        "stable"
    } else {
        "scalar-only"
    }
}

/// Paths the build can reach: the others would only repeat one of these.
fn reachable(b: usize) -> bool {
    let on: &[bool] = &crate::cpu::BACKENDS[b].on;
    if cfg!(feature = "f16") {
        true
    } else if cfg!(feature = "simd") {
        !on[3] && !on[4]
    } else {
        !on[0]
    }
}

pub fn vary(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let t = TABLE.get().expect("table");
    let mut sp = sp.clone();
    if !cfg!(feature = "fast") {
        sp.modes.retain(|&m| m != 0);
    }
    if !cfg!(feature = "prof") {
        sp.modes.retain(|&m| m != 2);
    }
    let bs: Vec<usize> = ctx.cpu.backends().into_iter().filter(|&b| reachable(b)).collect();
    sp.each(ctx, op, w, false, &mut |ctx, c, s, _| {
        for &b in &bs {
            let mut c = *c;
            c.backend = b;
            let k = key(ctx, &c);
            if t.role == Role::Write {
                let f = ctx.run(&c, s, None, &|_, _, _, _| ANY, false);
                let d = digest(&f, &ctx.got);
                t.put(k, d);
                continue;
            }
            let want = t.get(k);
            let mut choices: Vec<usize> = vec![];
            let all = ctx.stage == "schedules";
            for _n in 0..if all { SCHEDULES } else { 1 } {
                #[cfg(feature = "par")]
                match all {
                    true => rayon::mc::begin(&choices),
                    false => rayon::mc::begin_reverse(),
                }
                let f = ctx.run(&c, s, None, &|_, _, _, _| ANY, false);
                let d = digest(&f, &ctx.got);
                ctx.sh.compared.fetch_add(1, SeqCst);
                if want != Some(d) {
                    let cs = format!("{} variant={} schedule={choices:?}", ctx.case_str(&c), variant());
                    let n = ctx.ops[op].name;
                    let m = match (want, &f) {
                        (None, _) => "no reference result".to_string(),
                        (_, Some(f)) => format!("{}: {}", f.kind, f.detail),
                        _ => "the result differs from that of the sequential all-features build".to_string(),
                    };
                    ctx.violation(n, b, variant(), &cs, &m);
                    break;
                }
                #[cfg(feature = "par")]
                {
                    // depth-first search: next choice vector
                    let o = rayon::mc::end().options;
                    if !all {
                        continue;
                    }
                    choices.resize(o.len(), 0);
                    let mut k = o.len();
                    loop {
                        if k == 0 {
                            choices.clear();
                            break;
                        }
                        k -= 1;
                        choices[k] += 1;
                        if choices[k] < o[k] {
                            choices.truncate(k + 1);
                            break;
                        }
                        choices[k] = 0;
                    }
                }
                if choices.is_empty() {
                    break;
                }
            }
        }
    });
}

pub const ANY: crate::model::Tol = crate::model::Tol { abs: f32::INFINITY, rel: 0.0 };

/// Run one variant binary over the same space; its findings join ours.
pub fn run_variant(exe: &str, tier: &str, sh: &Shared) -> String {
    let t = TABLE.get().expect("table");
    let out = std::process::Command::new(exe).args(["vary", &t.file, tier]).stderr(std::process::Stdio::inherit()).output().expect("run variant");
    let s = String::from_utf8_lossy(&out.stdout).to_string();
    if !out.status.success() {
        eprintln!("variant {exe} failed: {:?}", out.status);
        std::process::exit(3);
    }
    let mut sum = String::new();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("SUM ") {
            let v: Vec<&str> = r.split(' ').collect();
            sum = format!("{}: {} states, {} executions", v[0], v[1], v[2]);
            sh.states.fetch_add(v[1].parse().unwrap(), SeqCst);
            sh.execs.fetch_add(v[2].parse().unwrap(), SeqCst);
            sh.compared.fetch_add(v[3].parse().unwrap(), SeqCst);
            continue;
        }
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() == 3 {
            sh.report(f[0], f[1], f[2]);
        }
    }
    assert!(!sum.is_empty(), "variant printed no summary");
    println!("{sum}");
    sum
}

pub fn main(table: &str, tier: &str) -> i32 {
    open(table, false);
    let ps = crate::props::props(tier == "thorough");
    let pr = ps.iter().find(|p| p.id == "C29").unwrap();
    let sh = shared();
    crate::check::explore(pr, sh, 1);
    for (k, c, d) in sh.records() {
        println!("{k}\t{c}\t{d}");
    }
    println!("SUM {} {} {} {}", variant(), sh.states.load(SeqCst), sh.execs.load(SeqCst), sh.compared.load(SeqCst));
    0
}
