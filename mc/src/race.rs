//! Two calls at the same time, on two threads, under a scheduler that decides where the first one is
//! preempted. The static memory of the program is write-protected while the first call runs: a call
//! that writes none shares nothing with another one but what its caller passed, so that all
//! interleavings of the two are equivalent to one. A call that does write some is run again once per
//! write (and once per point of a grid over its instructions), preempted right after it, with the
//! other call running to its end there; both results are compared with those of the calls alone.
use crate::engine::*;
use crate::explore::*;
use crate::fill::Fill;
use crate::fmt::*;
use crate::model::Tol;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

const ANY: Tol = Tol { abs: f32::INFINITY, rel: 0.0 };

#[repr(C)]
struct State {
    lo: usize,
    len: usize,
    /// preempt after this write; 0: never
    k: u32,
    /// preempt after this many instructions; 0: do not count instructions
    grid: u64,
    tid: i64,
    n: AtomicU32,
    steps: AtomicU64,
    stepping: AtomicU32,
    on: AtomicU32,
    go: AtomicU32,
    /// thread B has been started and waits for `go`
    ready: AtomicU32,
    b_done: AtomicU32,
    /// the other call could not finish where it was let in: it waits for the first
    blocked: AtomicU32,
    a: AtomicU64,
    b: AtomicU64,
}
static mut ST: *mut State = std::ptr::null_mut();

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

unsafe fn protect(on: bool) {
    let s = &*ST;
    libc::mprotect(s.lo as *mut _, s.len, if on { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE });
}
unsafe fn now() -> i64 {
    let mut t: libc::timespec = std::mem::zeroed();
    libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
    t.tv_sec * 1_000_000_000 + t.tv_nsec
}
/// Let the other call run; false when it did not end within the time given.
unsafe fn let_b(limit: i64) -> bool {
    let s = &*ST;
    s.go.store(1, SeqCst);
    let t = now();
    while s.b_done.load(SeqCst) == 0 {
        if now() - t > limit {
            return false;
        }
        libc::sched_yield();
    }
    true
}
unsafe fn preempt() {
    if !let_b(30_000_000) {
        (*ST).blocked.store(1, SeqCst);
    }
}
const TF: i64 = 0x100;
/// Calls of more instructions are preempted at their writes only.
const LONG: u64 = 100_000;
unsafe extern "C" fn on_segv(_: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let s = &*ST;
    let a = (*info).si_addr() as usize;
    if a < s.lo || a >= s.lo + s.len {
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
        return;
    }
    protect(false);
    if libc::syscall(libc::SYS_gettid) != s.tid {
        s.on.store(0, SeqCst);
        return;
    }
    s.n.fetch_add(1, SeqCst);
    s.stepping.store(1, SeqCst);
    (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] |= TF;
}
unsafe extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let s = &*ST;
    let efl = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize];
    if s.on.load(SeqCst) == 0 && s.grid == 0 {
        *efl &= !TF;
        return;
    }
    let st = s.steps.fetch_add(1, SeqCst) + 1;
    // counting stops here: stepping through more costs too much
    let mut done = s.grid == u64::MAX && st > LONG;
    if s.stepping.swap(0, SeqCst) == 1 {
        if s.n.load(SeqCst) == s.k {
            preempt();
            done = true;
        } else if s.on.load(SeqCst) == 1 {
            protect(true);
        }
    }
    if s.grid != 0 && st == s.grid {
        preempt();
        done = true;
    }
    if done {
        // one preemption per execution: from here on nothing needs to be watched
        protect(false);
        s.on.store(0, SeqCst);
    }
    if done || s.grid == 0 {
        *efl &= !TF;
    }
}
#[inline(never)]
fn guard(on: bool) {
    unsafe {
        let s = &*ST;
        if on {
            s.on.store(1, SeqCst);
            protect(true);
            if s.grid != 0 {
                std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            }
        } else {
            if s.grid != 0 {
                std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            }
            s.on.store(0, SeqCst);
            protect(false);
        }
    }
}
fn digest(v: &[Vec<i32>]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in v.iter().flat_map(|c| c.iter().copied().chain([c.len() as i32])) {
        h = (h ^ x as u32 as u64).wrapping_mul(0x1_0000_0001_b3);
    }
    h | 1
}
#[derive(Clone, Copy, Default, Debug)]
struct Outcome {
    a: u64,
    b: u64,
    writes: u32,
    steps: u64,
    blocked: bool,
    dead: bool,
    status: i32,
}
/// Run a call, and a second one on another thread, in a process of their own.
fn schedule(ctx: &mut Ctx, a: (Case, &Comps), b: Option<(Case, &Comps)>, k: u32, grid: u64) -> Outcome {
    unsafe {
        let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut State;
        assert!(m as isize != -1);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            child(ctx, m, a, b, k, grid);
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        let s = &*m;
        let o = Outcome {
            a: s.a.load(SeqCst),
            b: s.b.load(SeqCst),
            writes: s.n.load(SeqCst),
            steps: s.steps.load(SeqCst),
            blocked: s.blocked.load(SeqCst) == 1,
            dead: libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 9,
            status: st,
        };
        libc::munmap(m as *mut _, 4096);
        ctx.sh.execs.fetch_add(1, SeqCst);
        o
    }
}
struct Other(*mut Ctx, Case, *const Comps);
unsafe impl Send for Other {}
unsafe fn child(ctx: &mut Ctx, m: *mut State, a: (Case, &Comps), b: Option<(Case, &Comps)>, k: u32, grid: u64) {
    let lo = std::ptr::addr_of!(__data_start) as usize / 4096 * 4096;
    let hi = (std::ptr::addr_of!(_end) as usize).div_ceil(4096) * 4096;
    ST = m;
    *m = std::mem::zeroed();
    (*m).lo = lo;
    (*m).len = hi - lo;
    (*m).k = k;
    (*m).grid = grid;
    (*m).tid = libc::syscall(libc::SYS_gettid);
    for (sig, h) in [(libc::SIGSEGV, on_segv as usize), (libc::SIGTRAP, on_trap as usize)] {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = h;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER | libc::SA_ONSTACK;
        libc::sigaction(sig, &sa, std::ptr::null_mut());
    }
    let s = &*m;
    let mut ctx2;
    if let Some((cb, sb)) = b {
        ctx2 = Box::new(Ctx::new(ctx.sh, ctx.slot, &ctx.prop, ctx.seed));
        // both select the same features: the processor is not part of what is shared
        ctx2.cpu.select(cb.backend);
        let o = Other(&mut *ctx2, cb, sb);
        std::mem::forget(std::thread::spawn(move || {
            let o = o;
            let s = &*ST;
            s.ready.store(1, SeqCst);
            while s.go.load(SeqCst) == 0 {
                libc::sched_yield();
            }
            let c2 = &mut *o.0;
            if c2.run(&o.1, &*o.2, None, &|_, _, _, _| ANY, false).is_none() {
                s.b.store(digest(&c2.got.v), SeqCst);
            }
            s.b_done.store(1, SeqCst);
            loop {
                libc::pause();
            }
        }));
        while s.ready.load(SeqCst) == 0 {
            libc::sched_yield();
        }
        std::mem::forget(ctx2);
    }
    ctx.guard = Some(guard);
    if ctx.run(&a.0, a.1, None, &|_, _, _, _| ANY, false).is_none() {
        s.a.store(digest(&ctx.got.v), SeqCst);
    }
    if b.is_some() && !let_b(10_000_000_000) {
        libc::_exit(9);
    }
}

/// See the head of this file.
pub fn races(ctx: &mut Ctx, sp: &Space, op: usize, w: usize) {
    let bs = ctx.cpu.backends();
    let thorough = sp.auxs.len() > 1;
    let sel: Vec<usize> = if thorough { bs } else { vec![bs[0], bs[bs.len() / 2], bs[bs.len() - 1]] };
    let l = LAYS_ALL[0];
    let ps = sp.params(&ctx.ops[op]);
    for &h in &sp.hs {
        for &backend in &sel {
            for (i, &p) in ps.iter().enumerate() {
                let mk = |ctx: &Ctx, p, fill| {
                    let c = Case { op, backend, w, h, fill, p, src_layout: l.0, dst_layout: l.1, place: l.2, pre: l.3 };
                    let (sf, _) = ctx.ops[op].fmts(&p);
                    (c, crate::fill::fill(&sf, w, h, fill))
                };
                let (ca, sa) = mk(ctx, p, Fill::Hash(31));
                ctx.sh.states.fetch_add(1, SeqCst);
                let alone = schedule(ctx, (ca, &sa), None, 0, 0);
                if alone.a == 0 {
                    continue; // other checks report that
                }
                if alone.writes == 0 && !thorough {
                    ctx.sh.compared.fetch_add(1, SeqCst);
                    continue;
                }
                let steps = schedule(ctx, (ca, &sa), None, 0, u64::MAX).steps;
                for (q, fill) in [(p, Fill::Ext(37)), (ps[(i + 1) % ps.len()], Fill::Hash(41))] {
                    let (cb, sb) = mk(ctx, q, fill);
                    let want_b = schedule(ctx, (cb, &sb), None, 0, 0).a;
                    if want_b == 0 {
                        continue;
                    }
                    // of more than 400 writes the first and the last, and points between them
                    let n = alone.writes;
                    let at: Vec<u32> = if n <= 400 { (1..=n).collect() } else { (1..=150).chain((1..=100).map(|i| 150 + (n - 300) / 101 * i)).chain(n - 149..=n).collect() };
                    let grid: u64 = if steps > LONG { 0 } else if alone.writes > 0 { 24 } else { 2 };
                    let points = at.into_iter().map(|k| (k, 0)).chain((1..=grid).map(|g| (0, (steps * g / (grid + 1)).max(1))));
                    let mut blocked = 0;
                    for (k, g) in points {
                        // a call that waits for the other holds a lock there: the points up to its release are alike
                        if k > 0 && blocked >= 6 && k % 16 != 0 {
                            continue;
                        }
                        ctx.sh.states.fetch_add(1, SeqCst);
                        ctx.sh.compared.fetch_add(1, SeqCst);
                        let o = schedule(ctx, (ca, &sa), Some((cb, &sb)), k, g);
                        blocked += o.blocked as u32;
                        let at = if k > 0 { format!("after its write {k} to static memory") } else { format!("after {g} instructions") };
                        let m = if o.dead {
                            "two calls at the same time never end".to_string()
                        } else if o.a == alone.a && o.b == want_b {
                            continue;
                        } else if o.status != 0 {
                            format!("a process running two calls at the same time dies (wait status {})", o.status)
                        } else if o.a != alone.a {
                            "the result is another than that of the call alone".to_string()
                        } else {
                            "the other call's result is another than that of the other call alone".to_string()
                        };
                        let cs = ctx.case_str(&ca);
                        let n = ctx.ops[op].name;
                        ctx.violation(n, backend, "race", &cs, &format!("{m}, when a second call with {:?} and content {:?} runs {at}", cb.p, cb.fill));
                        break;
                    }
                }
            }
        }
    }
}
