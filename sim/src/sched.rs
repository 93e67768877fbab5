//! The simulator core: real threads, one of which runs at a time, handed on by a seeded scheduler.
//!
//! Every source of nondeterminism pic-scale and rayon depend on is interposed at the libc boundary:
//! thread creation and joining, futexes, yielding, the CPU count, clocks, sleeping and randomness.
//! Preemption points are the basic blocks of pic-scale, rayon, rayon-core and the crossbeam crates
//! (compiled with LLVM's trace-pc-guard instrumentation) plus every interposed call.
use crate::rng::{mix, Rng};
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 1100;
pub const MAXCOV: usize = 1 << 18;

#[derive(Copy, Clone, PartialEq, Debug)]
enum St {
    Free,
    Run,
    Futex,
    Join,
    Sleep,
    Quiesce,
    Done,
}
#[derive(Copy, Clone)]
struct Th {
    st: St,
    op: u32,       // request this thread currently works for (0: none)
    born_for: u32, // request that created it
    global: bool,  // belongs to the process-wide rayon pool
    past: bool,    // belongs to an earlier round of that request
    addr: usize,
    bits: u32,
    deadline: u64, // u64::MAX: none
    res: i64,
    prio: u64,
    f: usize,
    arg: usize,
    real: usize,
    iter: u32,
    mark: bool,
}
const TH0: Th = Th {
    st: St::Free,
    op: 0,
    born_for: 0,
    global: false,
    past: false,
    addr: 0,
    bits: 0,
    deadline: u64::MAX,
    res: 0,
    prio: 0,
    f: 0,
    arg: 0,
    real: 0,
    iter: 0,
    mark: false,
};
static mut TH: [Th; MAXT] = [TH0; MAXT];
static GO: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static mut N: usize = 0;
static mut CUR: usize = 0;
pub static mut ACTIVE: bool = false;

// --- step accounting: `LEFT` guards until the slow path; steps so far = BASE - LEFT
static mut LEFT: u64 = u64::MAX / 2;
static mut BASE: u64 = u64::MAX / 2;
static mut COV: *mut u8 = std::ptr::addr_of_mut!(COV0) as *mut u8;
static mut COV0: [u8; MAXCOV] = [0; MAXCOV];
/// basic blocks executed that count as work, and which do
static mut WORK: u64 = 0;
static mut WEIGHT: [u8; MAXCOV] = [1; MAXCOV];
pub fn work() -> u64 {
    unsafe { WORK }
}
pub fn no_work(g: usize) {
    unsafe { WEIGHT[g] = 0 }
}
static mut NGUARD: u32 = 0;
static mut PCS: (usize, usize) = (0, 0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    *COV.add(*g as usize) = 1;
    WORK += WEIGHT[*g as usize] as u64;
    LEFT -= 1;
    if LEFT == 0 {
        slow();
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        if (NGUARD as usize) < MAXCOV - 1 {
            NGUARD += 1;
        }
        *a = NGUARD;
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(a: *const usize, b: *const usize) {
    PCS = (a as usize, b as usize);
}
pub fn guards() -> usize {
    unsafe { NGUARD as usize }
}
/// address and flags (bit 0: function entry) of the basic block with coverage index `i` (1-based)
pub fn guard_pc(i: usize) -> (usize, usize) {
    unsafe {
        let p = PCS.0 as *const usize;
        if i == 0 || PCS.0 + i * 16 > PCS.1 {
            return (0, 0);
        }
        (*p.add((i - 1) * 2), *p.add((i - 1) * 2 + 1))
    }
}
pub fn set_cov(p: *mut u8) {
    unsafe { COV = p }
}

// --- what a run is told
#[derive(Clone, Debug, PartialEq)]
pub enum Sched {
    /// uniformly random next thread, geometric quanta with this mean
    Random(u64),
    /// probabilistic concurrency testing: random priorities, `d` change points in `horizon` steps
    Pct(u32, u64),
    /// run each thread until it blocks or yields; random choice then
    Block,
    RoundRobin(u64),
    /// thread `victim` gets nothing for the first `span` steps while anyone else can run
    Starve(u64, u32, u64),
    /// run-to-block, lowest thread first, except for the listed switches
    Replay,
}
pub struct Params {
    pub seed: u64,
    pub sched: Sched,
    pub ncpu: usize,
    /// probability (per 2^16) that a futex wait returns spuriously
    pub spurious: u32,
    /// ordinals (1-based) of worker-thread creations to refuse
    pub spawn_fail: Vec<u32>,
    pub spawn_fail_all: bool,
    pub max_steps: u64,
    pub overrides: Vec<(u64, u32)>,
    /// time jump (ns) added at every clock reading with small probability
    pub record: bool,
}
static mut P: Option<Params> = None;
static mut RNG: Rng = Rng { s: [1, 2, 3, 4] };
/// decisions that are not scheduling choices (wake order, spurious wakes); same stream when replaying
static mut AUX: Rng = Rng { s: [1, 2, 3, 4] };
static mut PCT_POINTS: [u64; 16] = [0; 16];
static mut PCT_N: usize = 0;
static mut PCT_LOW: u64 = 1 << 20;
static mut OVR: usize = 0;
static mut NEXT_PREEMPT: u64 = 0;
pub static mut CLOCK: u64 = 0;
static mut SPAWN_ORD: u32 = 0;
static mut RR_LAST: usize = 0;
static mut ALL_DONE: bool = false;

/// Results, in memory shared with the checker.
#[repr(C)]
pub struct Out {
    pub verdict: u32, // 0 not finished, 1 finished, 2 deadlock, 3 step limit, 4 too many threads, 5 harness trouble
    pub nthreads: u32,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub yields: u64,
    pub spawns: u32,
    pub spawn_failed: u32,
    pub spurious: u32,
    pub clock: u64,
    pub hash: u64,
    pub max_runnable: u32,
    pub left_threads: u32,
    pub left_first: u32,
    pub alloc_seen: u32,
    pub alloc_failed: u32,
    pub alloc_failed_ops: u64,
    pub alloc_failed_size: u64,
    pub heap_smashed: u32,
    pub store_changed: u32,
    pub heap_smashed_size: u64,
    pub arena_used: u64,
    pub nrec: u32,
    pub starved: u32,
    pub stuck: [u32; 8],
    pub fault_addr: u64,
    pub op_threads: [u32; 64],
    pub op_alive: [u32; 64],
    pub op_status: [i32; 64],
    pub op_leak: [i64; 64],
    /// a later round gave another answer or other bytes than the first: request + 1, round
    pub round_differs: [u32; 2],
    /// bytes a request holds now, held at most, and asked for altogether
    pub op_held: [i64; 64],
    pub op_peak: [i64; 64],
    pub op_asked: [i64; 64],
    /// bytes of stack the caller's thread and the hungriest worker used (when measured)
    pub caller_stack: u32,
    pub worker_stack: u32,
    /// basic blocks executed during a request, the thread pool's own waiting and searching left out
    pub op_work: [u64; 64],
    pub op_begin: [u64; 64],
    pub op_end: [u64; 64],
    pub panic_msg: [u8; 512],
}
static mut OUT: *mut Out = std::ptr::null_mut();
static mut REC: *mut (u64, u32) = std::ptr::null_mut();
static mut RECCAP: usize = 0;

pub fn steps() -> u64 {
    unsafe { BASE - LEFT }
}
unsafe fn set_next(at: u64) {
    // arrange for slow() to be called at step `at`
    let s = BASE - LEFT;
    let at = at.max(s + 1);
    LEFT = at - s;
    BASE = at;
}
unsafe fn tick() {
    // an event costs one step and never lets the countdown run out by itself
    if LEFT > 1 {
        LEFT -= 1;
    } else {
        LEFT += 1;
        BASE += 2;
    }
}

// --- raw system calls (leave errno alone)
#[inline(always)]
pub unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn wait_baton(id: usize) {
    let w = &GO[id];
    while w.load(Ordering::Acquire) == 0 {
        raw(libc::SYS_futex, w as *const _ as usize, 128, 0, 0, 0, 0);
    }
    w.store(0, Ordering::Relaxed);
}
unsafe fn hand_to(id: usize) {
    GO[id].store(1, Ordering::Release);
    raw(libc::SYS_futex, &GO[id] as *const _ as usize, 129, 1, 0, 0, 0);
}

unsafe fn finish(verdict: u32) -> ! {
    let o = &mut *OUT;
    o.verdict = verdict;
    seal();
    let mut k = 0;
    for i in 0..N {
        if TH[i].st != St::Done && k < 8 {
            o.stuck[k] = (i as u32) << 8 | TH[i].st as u32;
            k += 1;
        }
    }
    raw(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    loop {}
}
unsafe fn seal() {
    let o = &mut *OUT;
    o.steps = steps();
    o.clock = CLOCK + steps();
    o.nthreads = N as u32;
}

#[inline(never)]
unsafe fn slow() {
    if !ACTIVE {
        set_next(steps() + (1 << 60));
        return;
    }
    point(0);
}
/// scheduling point. kind 0: preemption by the countdown, 1: event (thread may stay), 2: yield, 3: current thread cannot continue
unsafe fn point(kind: u32) {
    if kind != 0 {
        // no two points at the same step
        tick();
    }
    let o = &mut *OUT;
    let p = P.as_ref().unwrap_unchecked();
    let s = steps();
    if s > p.max_steps {
        finish(3);
    }
    let me = CUR;
    let mut run = [0usize; MAXT];
    let mut n;
    loop {
        n = 0;
        for i in 0..N {
            if TH[i].st == St::Run {
                run[n] = i;
                n += 1;
            }
        }
        if n > 0 {
            break;
        }
        // nobody can run: let time pass, then let the waiting main thread through
        let mut best = usize::MAX;
        for i in 0..N {
            if TH[i].deadline != u64::MAX
                && matches!(TH[i].st, St::Futex | St::Sleep)
                && (best == usize::MAX || TH[i].deadline < TH[best].deadline)
            {
                best = i;
            }
        }
        if best != usize::MAX {
            let now = CLOCK + s;
            if TH[best].deadline > now {
                CLOCK += TH[best].deadline - now;
            }
            TH[best].res = if TH[best].st == St::Futex { -(libc::ETIMEDOUT as i64) } else { 0 };
            TH[best].deadline = u64::MAX;
            TH[best].st = St::Run;
            continue;
        }
        if TH[0].st == St::Quiesce {
            TH[0].st = St::Run;
            continue;
        }
        finish(2);
    }
    if n as u32 > o.max_runnable {
        o.max_runnable = n as u32;
    }
    if p.spurious > 0 && kind != 0 && AUX.below(65536) < p.spurious as u64 {
        // wake some futex waiter for no reason
        let mut c = 0;
        let mut v = 0;
        for i in 0..N {
            if TH[i].st == St::Futex {
                c += 1;
                if AUX.below(c) == 0 {
                    v = i;
                }
            }
        }
        if c > 0 {
            TH[v].st = St::Run;
            TH[v].res = 0;
            TH[v].deadline = u64::MAX;
            o.spurious += 1;
            run[n] = v;
            n += 1;
            run[..n].sort_unstable();
        }
    }
    let runnable = &run[..n];
    let next = choose(kind, s, me, runnable, p);
    if next != me {
        o.hash = mix(o.hash, s ^ (next as u64) << 48);
        o.switches += 1;
        if kind == 0 {
            o.preempts += 1;
        }
    }
    if p.record {
        let dflt = default_choice(kind, me, runnable);
        if next != dflt && (o.nrec as usize) < RECCAP {
            *REC.add(o.nrec as usize) = (s, next as u32);
            o.nrec += 1;
        }
    }
    if next != me {
        CUR = next;
        hand_to(next);
        if TH[me].st != St::Done {
            wait_baton(me);
        }
    }
}
fn default_choice(kind: u32, me: usize, run: &[usize]) -> usize {
    match kind {
        0 | 1 => {
            if run.contains(&me) {
                me
            } else {
                run[0]
            }
        }
        2 => *run.iter().find(|x| **x > me).unwrap_or(&run[0]),
        _ => run[0],
    }
}
unsafe fn choose(kind: u32, s: u64, me: usize, run: &[usize], p: &Params) -> usize {
    let pick = match &p.sched {
        Sched::Random(q) => {
            if kind == 0 || s >= NEXT_PREEMPT {
                NEXT_PREEMPT = s + 1 + RNG.geom(*q as f64);
            }
            if kind == 1 && RNG.below(4) != 0 && run.contains(&me) {
                me
            } else if kind == 2 && run.len() > 1 {
                other(me, run)
            } else {
                run[RNG.below(run.len() as u64) as usize]
            }
        }
        Sched::Pct(..) => {
            NEXT_PREEMPT = s + (1 << 50);
            for i in 0..PCT_N {
                if PCT_POINTS[i] != 0 {
                    if PCT_POINTS[i] <= s {
                        PCT_POINTS[i] = 0;
                        PCT_LOW -= 1;
                        TH[me].prio = PCT_LOW;
                    } else {
                        NEXT_PREEMPT = NEXT_PREEMPT.min(PCT_POINTS[i]);
                    }
                }
            }
            if kind == 2 {
                PCT_LOW -= 1;
                TH[me].prio = PCT_LOW;
            }
            *run.iter().max_by_key(|i| TH[**i].prio).unwrap_unchecked()
        }
        Sched::Block => {
            NEXT_PREEMPT = s + (1 << 50);
            match kind {
                0 | 1 if run.contains(&me) => me,
                2 if run.len() > 1 => other(me, run),
                _ => run[RNG.below(run.len() as u64) as usize],
            }
        }
        Sched::RoundRobin(q) => {
            if kind == 1 && run.contains(&me) && s < NEXT_PREEMPT {
                me
            } else {
                NEXT_PREEMPT = s + 1 + q;
                let last = me;
                *run.iter().find(|x| **x > last).unwrap_or(&run[0])
            }
        }
        Sched::Starve(q, v, span) => {
            if kind == 0 || s >= NEXT_PREEMPT {
                NEXT_PREEMPT = s + 1 + RNG.geom(*q as f64);
            }
            if s < *span {
                let mut k = 0;
                let mut r2 = [0usize; MAXT];
                for &i in run {
                    if i != *v as usize {
                        r2[k] = i;
                        k += 1;
                    }
                }
                if k < run.len() {
                    (*OUT).starved += 1;
                }
                if k > 0 {
                    let r2 = &r2[..k];
                    if kind == 2 && k > 1 {
                        other(me, r2)
                    } else {
                        r2[RNG.below(k as u64) as usize]
                    }
                } else {
                    run[0]
                }
            } else if kind == 2 && run.len() > 1 {
                other(me, run)
            } else {
                run[RNG.below(run.len() as u64) as usize]
            }
        }
        Sched::Replay => {
            let mut want = usize::MAX;
            while OVR < p.overrides.len() && p.overrides[OVR].0 <= s {
                if p.overrides[OVR].0 == s {
                    want = p.overrides[OVR].1 as usize;
                }
                OVR += 1;
            }
            NEXT_PREEMPT = if OVR < p.overrides.len() { p.overrides[OVR].0 } else { s + (1 << 50) };
            if run.contains(&want) {
                want
            } else {
                default_choice(kind, me, run)
            }
        }
    };
    set_next(NEXT_PREEMPT.min(p.max_steps + 1));
    pick
}
unsafe fn other(me: usize, run: &[usize]) -> usize {
    loop {
        let k = run[RNG.below(run.len() as u64) as usize];
        if k != me {
            return k;
        }
    }
}

// --- public interface for the harness
pub fn me() -> usize {
    unsafe { CUR }
}
/// set the request the current thread works for; returns the previous one
pub fn set_op(op: u32) -> u32 {
    unsafe { std::mem::replace(&mut TH[CUR].op, op) }
}
/// is this a caller's thread (as opposed to one a request created)?
pub fn on_client() -> bool {
    unsafe { TH[CUR].born_for == 0 }
}
pub fn cur_op() -> u32 {
    unsafe { TH[CUR].op }
}
pub fn out() -> &'static mut Out {
    unsafe { &mut *OUT }
}
pub unsafe fn start(p: Params, out: *mut Out, rec: *mut (u64, u32), reccap: usize) {
    RNG = Rng::new(mix(p.seed, 0xa11ce));
    AUX = Rng::new(mix(p.seed, 0xa0a));
    OUT = out;
    REC = rec;
    RECCAP = reccap;
    TH = [TH0; MAXT];
    N = 1;
    CUR = 0;
    TH[0].st = St::Run;
    TH[0].prio = mix(RNG.next(), 0) | 1 << 40;
    CLOCK = 1_000_000_000;
    SPAWN_ORD = 0;
    OVR = 0;
    NEXT_PREEMPT = match &p.sched {
        Sched::Random(q) | Sched::Starve(q, ..) => 1 + RNG.geom(*q as f64),
        Sched::RoundRobin(q) => 1 + q,
        Sched::Pct(d, h) => {
            PCT_N = (*d as usize).min(16);
            let mut m = 1 << 50;
            for i in 0..PCT_N {
                PCT_POINTS[i] = 1 + RNG.below(*h);
                m = m.min(PCT_POINTS[i]);
            }
            m
        }
        Sched::Block => 1 << 50,
        Sched::Replay => p.overrides.first().map(|x| x.0).unwrap_or(1 << 50),
    };
    P = Some(p);
    BASE = u64::MAX / 2;
    LEFT = BASE;
    set_next(NEXT_PREEMPT);
    init_real();
    ACTIVE = true;
}
/// Let every other thread run until nothing moves, then record what is left.
pub unsafe fn quiesce() {
    TH[0].st = St::Quiesce;
    tick();
    point(3);
    let o = &mut *OUT;
    o.left_threads = 0;
    for i in 1..N {
        if TH[i].st != St::Done && TH[i].born_for != 0 && !TH[i].global {
            if o.left_threads == 0 {
                o.left_first = TH[i].born_for;
            }
            o.left_threads += 1;
        }
    }
}
/// how deep the stacks of the threads created so far were used
pub unsafe fn deepest_stack() -> usize {
    let mut most = 0;
    let mut there = [0u8; STACK / 4096];
    for i in 1..N {
        let base = STACKS + i * STACK;
        libc::mincore((base + 4096) as *mut _, STACK - 4096, there.as_mut_ptr());
        if let Some(k) = there.iter().position(|x| x & 1 == 1) {
            most = most.max(STACK - 4096 - k * 4096);
        }
    }
    most
}
/// the request is made once more: what an earlier one left behind is not its own
pub fn next_round(op: u32) {
    unsafe { (1..N).filter(|i| TH[*i].born_for == op).for_each(|i| TH[i].past = true) }
}
/// threads still alive that request `op` started
pub unsafe fn alive_for(op: u32) -> u32 {
    (1..N).filter(|i| TH[*i].st != St::Done && TH[*i].born_for == op && !TH[*i].global && !TH[*i].past).count() as u32
}
pub unsafe fn stop() {
    seal();
    ACTIVE = false;
}
/// threads the current thread creates from now on belong to the process-wide pool
pub fn mark_global(on: bool) {
    unsafe { TH[CUR].mark = on }
}

// --- interposed libc functions
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
static mut KEY: libc::pthread_key_t = 0;
pub unsafe fn init_real() {
    if REAL_CREATE.is_some() {
        return;
    }
    REAL_CREATE = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()));
    REAL_JOIN = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()));
    libc::pthread_key_create(std::ptr::addr_of_mut!(KEY), Some(key_dtor));
    let a = libc::mmap(
        STACKS as *mut _,
        STACK * MAXT,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
        -1,
        0,
    );
    assert!(a as usize == STACKS);
}
const STACKS: usize = 0x5000_0000_0000;
const STACK: usize = 4 << 20;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    if !ACTIVE {
        init_real();
        return REAL_CREATE.unwrap()(t, attr, f, arg);
    }
    tick();
    let o = &mut *OUT;
    let p = P.as_ref().unwrap();
    let op = TH[CUR].op;
    if op != 0 {
        SPAWN_ORD += 1;
        o.spawns += 1;
        if (op as usize) <= 64 && !TH[CUR].mark {
            o.op_threads[op as usize - 1] += 1;
        }
        if p.spawn_fail_all || p.spawn_fail.contains(&SPAWN_ORD) {
            o.spawn_failed += 1;
            point(1);
            return libc::EAGAIN;
        }
    }
    if N >= MAXT {
        finish(4);
    }
    let id = N;
    N += 1;
    TH[id] = TH0;
    TH[id].st = St::Run;
    TH[id].op = op;
    TH[id].born_for = op;
    TH[id].global = TH[CUR].mark;
    TH[id].prio = (RNG.next() >> 20) | 1 << 44;
    if op != 0 && op <= 64 && !TH[CUR].mark {
        let alive = alive_for(op);
        if alive > o.op_alive[op as usize - 1] {
            o.op_alive[op as usize - 1] = alive;
        }
    }
    TH[id].f = f as usize;
    TH[id].arg = arg as usize;
    GO[id].store(0, Ordering::Relaxed);
    let base = STACKS + id * STACK;
    libc::mprotect(base as *mut _, 4096, libc::PROT_NONE);
    let mut a: libc::pthread_attr_t = std::mem::zeroed();
    libc::pthread_attr_init(&mut a);
    libc::pthread_attr_setstack(&mut a, (base + 4096) as *mut _, STACK - 4096);
    let rc = REAL_CREATE.unwrap()(t, &a, tramp, id as *mut c_void);
    if rc != 0 {
        finish(5);
    }
    TH[id].real = *t as usize;
    point(1);
    0
}
extern "C" fn tramp(id: *mut c_void) -> *mut c_void {
    unsafe {
        let id = id as usize;
        wait_baton(id);
        libc::pthread_setspecific(KEY, (id + 1) as *const c_void);
        let f: extern "C" fn(*mut c_void) -> *mut c_void = std::mem::transmute(TH[id].f);
        f(TH[id].arg as *mut c_void)
    }
}
unsafe extern "C" fn key_dtor(v: *mut c_void) {
    let id = v as usize - 1;
    if !ACTIVE {
        return;
    }
    TH[id].iter += 1;
    if TH[id].iter < 3 {
        libc::pthread_setspecific(KEY, v);
        return;
    }
    TH[id].st = St::Done;
    for i in 0..N {
        if TH[i].st == St::Join && TH[i].addr == id {
            TH[i].st = St::Run;
        }
    }
    tick();
    point(3);
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if !ACTIVE {
        init_real();
        return REAL_JOIN.unwrap()(t, r);
    }
    let mut id = usize::MAX;
    for i in 1..N {
        if TH[i].real == t as usize {
            id = i;
        }
    }
    if id == usize::MAX {
        finish(5);
    }
    tick();
    if TH[id].st != St::Done {
        TH[CUR].st = St::Join;
        TH[CUR].addr = id;
        point(3);
    } else {
        point(1);
    }
    REAL_JOIN.unwrap()(t, r)
}
unsafe fn futex_wait(addr: *const u32, val: u32, bits: u32, deadline: u64) -> i64 {
    let o = &mut *OUT;
    tick();
    o.futex_waits += 1;
    point(1);
    if std::ptr::read_volatile(addr) != val {
        return -(libc::EAGAIN as i64);
    }
    let p = P.as_ref().unwrap_unchecked();
    if p.spurious > 0 && AUX.below(65536) < p.spurious as u64 {
        o.spurious += 1;
        return -(libc::EINTR as i64);
    }
    let me = CUR;
    TH[me].st = St::Futex;
    TH[me].addr = addr as usize;
    TH[me].bits = bits;
    TH[me].deadline = deadline;
    TH[me].res = 0;
    point(3);
    TH[me].res
}
unsafe fn futex_wake(addr: *const u32, n: i32, bits: u32) -> i64 {
    let o = &mut *OUT;
    tick();
    o.futex_wakes += 1;
    let mut k = 0;
    // which waiters are woken first is the scheduler's choice
    let mut w = [0usize; MAXT];
    let mut c = 0;
    for i in 0..N {
        if TH[i].st == St::Futex && TH[i].addr == addr as usize && TH[i].bits & bits != 0 {
            w[c] = i;
            c += 1;
        }
    }
    while k < n && c > 0 {
        let j = if (n as usize) < c { AUX.below(c as u64) as usize } else { 0 };
        let i = w[j];
        w.copy_within(j + 1..c, j);
        c -= 1;
        TH[i].st = St::Run;
        TH[i].res = 0;
        TH[i].deadline = u64::MAX;
        k += 1;
    }
    point(1);
    k as i64
}
unsafe fn ts_ns(p: *const libc::timespec) -> u64 {
    (*p).tv_sec as u64 * 1_000_000_000 + (*p).tv_nsec as u64
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let r: i64 = if ACTIVE && n == libc::SYS_futex {
        let cmd = (b as i32) & 0x7f;
        let now = CLOCK + steps();
        match cmd {
            0 => {
                let dl = if d == 0 { u64::MAX } else { now + ts_ns(d as *const _) };
                futex_wait(a as *const u32, c as u32, u32::MAX, dl)
            }
            9 => {
                let dl = if d == 0 { u64::MAX } else { ts_ns(d as *const _) };
                futex_wait(a as *const u32, c as u32, f as u32, dl)
            }
            1 => futex_wake(a as *const u32, c as i32, u32::MAX),
            10 => futex_wake(a as *const u32, c as i32, f as u32),
            _ => finish(5),
        }
    } else if ACTIVE && n == libc::SYS_getrandom {
        fill_random(a as *mut u8, b);
        b as i64
    } else {
        raw(n, a, b, c, d, e, f) as i64
    };
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r as c_long
    }
}
unsafe fn fill_random(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = AUX.next() as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: usize, fl: u32) -> isize {
    if ACTIVE {
        fill_random(p as *mut u8, n);
        return n as isize;
    }
    raw(libc::SYS_getrandom, p as usize, n, fl as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if ACTIVE {
        tick();
        (*OUT).yields += 1;
        point(2);
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, size: usize, mask: *mut u8) -> c_int {
    if ACTIVE {
        std::ptr::write_bytes(mask, 0, size);
        let n = P.as_ref().unwrap_unchecked().ncpu;
        if n == 0 {
            // the system does not say
            *libc::__errno_location() = libc::EPERM;
            return -1;
        }
        for i in 0..n.min(size * 8) {
            *mask.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = raw(libc::SYS_sched_getaffinity, pid as usize, size, mask as usize, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    let r = r as usize;
    if r < size {
        std::ptr::write_bytes(mask.add(r), 0, size - r);
    }
    0
}
extern "C" {
    fn __sysconf(name: c_int) -> libc::c_long;
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> libc::c_long {
    if ACTIVE && (name == libc::_SC_NPROCESSORS_ONLN || name == libc::_SC_NPROCESSORS_CONF) {
        let n = P.as_ref().unwrap_unchecked().ncpu;
        if n == 0 {
            *libc::__errno_location() = libc::EINVAL;
            return -1;
        }
        return n as libc::c_long;
    }
    __sysconf(name)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if ACTIVE {
        let s = CStr::from_ptr(path).to_bytes();
        if s.starts_with(b"/proc/self/cgroup") || s.starts_with(b"/sys/fs/cgroup") {
            *libc::__errno_location() = libc::ENOENT;
            return -1;
        }
    }
    let r = raw(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut libc::timespec) -> c_int {
    if ACTIVE {
        tick();
        let n = CLOCK + steps();
        (*t).tv_sec = (n / 1_000_000_000) as i64;
        (*t).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw(libc::SYS_clock_gettime, id as usize, t as usize, 0, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    0
}
unsafe fn sim_sleep(ns: u64) {
    tick();
    TH[CUR].st = St::Sleep;
    TH[CUR].deadline = CLOCK + steps() + ns;
    point(3);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if ACTIVE {
        sim_sleep(ts_ns(t));
        return 0;
    }
    raw(libc::SYS_nanosleep, t as usize, rem as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if ACTIVE {
        let now = CLOCK + steps();
        let ns = ts_ns(t);
        sim_sleep(if fl & 1 != 0 { ns.saturating_sub(now) } else { ns });
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, id as usize, fl as usize, t as usize, rem as usize, 0, 0) as c_int
}
/// our stacks have a guard page the C library does not know of; std insists on hearing of one
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(_a: *const libc::pthread_attr_t, n: *mut usize) -> c_int {
    *n = 4096;
    0
}
