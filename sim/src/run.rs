//! Executing a plan in a fresh forked child and reading back what happened.
use crate::alloc;
use crate::cpu;
use crate::ops::*;
use crate::plan::*;
use crate::rng::*;
use crate::sched::{self, Out, Params};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

const REGION: usize = 0x4000_0000_0000;
const REGION_SIZE: usize = 1 << 30;
const OFF_REC: usize = 1 << 16;
const RECCAP: usize = 1 << 18;
const OFF_COV: usize = 8 << 20;
const OFF_BUF: usize = 16 << 20;
const PG: usize = 4096;

pub fn out() -> &'static mut Out {
    unsafe { &mut *(REGION as *mut Out) }
}
pub fn rec() -> &'static [(u64, u32)] {
    unsafe { std::slice::from_raw_parts((REGION + OFF_REC) as *const (u64, u32), (out().nrec as usize).min(RECCAP)) }
}
pub fn cov() -> &'static mut [u8] {
    unsafe { std::slice::from_raw_parts_mut((REGION + OFF_COV) as *mut u8, sched::guards() + 1) }
}
pub fn init() {
    unsafe {
        let a = libc::mmap(
            REGION as *mut _,
            REGION_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert!(a as usize == REGION);
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Buf {
    pub page0: usize, // first mapped page
    pub pages: usize,
    pub at: usize,
    pub len: usize, // bytes
}
/// Where every request's buffers sit. `variant` gives the reference run other positions.
pub fn layout(p: &Plan, variant: u64) -> (Vec<Buf>, Vec<Buf>) {
    let l = layout4(p, variant);
    (l.s, l.d)
}
pub struct Layout {
    /// where contents are kept before and after the requests
    pub s: Vec<Buf>,
    pub d: Vec<Buf>,
    /// the memory the requests really use, where it is shared one after another
    pub ws: Vec<Buf>,
    pub wd: Vec<Buf>,
}
pub fn layout4(p: &Plan, variant: u64) -> Layout {
    let mut top = REGION + OFF_BUF;
    let mut r = Rng::new(mix(p.seed, 0x1a70 + variant));
    let flat = p.flat();
    let n = flat.len();
    let need = |len: usize| (len + PG - 1) / PG + 1;
    let bytes = |k: usize, w: usize| (if w == 0 { flat[k].op.slen() } else { flat[k].op.dlen() }) * flat[k].op.esz();
    let group: Vec<[usize; 2]> = (0..n).map(|k| [p.memory(k, 0), p.memory(k, 1)]).collect();
    let pages_of = |k: usize, w: usize| (0..n).filter(|j| group[*j][w] == group[k][w]).map(|j| need(bytes(j, w))).max().unwrap();
    let mut place = |len: usize, pages: usize, mode: u32, align: usize| {
        let page0 = top + PG;
        let room = pages * PG - len;
        let mode = if variant == 0 { mode } else { 2 };
        let off = match mode & 3 {
            0 => room / align * align,
            1 => 0,
            _ => r.us(0, room / align) * align,
        };
        // element sizes divide a page, so an end-flush buffer really ends at the page end
        top = page0 + pages * PG;
        Buf { page0, pages, at: page0 + off, len }
    };
    let mut s = vec![];
    let mut d = vec![];
    for k in 0..n {
        let e = flat[k].op.esz();
        s.push(place(bytes(k, 0), pages_of(k, 0), flat[group[k][0]].place, e));
        d.push(place(bytes(k, 1), pages_of(k, 1), flat[group[k][1]].place >> 2, e));
    }
    let (mut ws, mut wd) = (s.clone(), d.clone());
    for w in 0..2 {
        let v = if w == 0 { &mut ws } else { &mut wd };
        for g in 0..n {
            let m: Vec<usize> = (0..n).filter(|j| group[*j][w] == g).collect();
            if m.len() < 2 {
                continue;
            }
            let page0 = top + PG;
            for k in m {
                v[k].at = v[k].at - v[k].page0 + page0;
                v[k].page0 = page0;
                top = page0 + v[k].pages * PG;
            }
        }
    }
    assert!(top + PG < REGION + OFF_REF);
    Layout { s, d, ws, wd }
}
pub fn pattern_seed(p: &Plan, variant: u64) -> u64 {
    mix(p.seed, 0xfeed + variant)
}
pub fn clear_cov() {
    cov().fill(0);
}
/// what an address belongs to
pub fn describe(a: usize, p: &Plan) -> String {
    let Layout { s, d, ws, wd } = layout4(p, 0);
    for (name, v) in [("source", &s), ("destination", &d), ("rewritten source", &ws), ("reused destination", &wd)] {
        for (k, b) in v.iter().enumerate() {
            if a >= b.page0 - PG && a < b.page0 + (b.pages + 1) * PG {
                return format!("{} buffer of request {}: {} bytes from its start, length {}", name, k, a as i64 - b.at as i64, b.len);
            }
        }
    }
    if a >= alloc::ARENA && a < alloc::ARENA + (8 << 30) {
        return "heap".into();
    }
    "elsewhere".into()
}
pub fn pattern(seed: u64, k: usize, i: usize) -> u8 {
    (mix(seed ^ (k as u64) << 40, (i / 8) as u64) >> (8 * (i % 8))) as u8
}
unsafe fn fill_pattern(b: &Buf, seed: u64, k: usize) {
    let base = b.page0 as *mut u64;
    for i in 0..b.pages * PG / 8 {
        *base.add(i) = mix(seed ^ (k as u64) << 40, i as u64);
    }
}
pub unsafe fn bytes(b: &Buf) -> &'static [u8] {
    std::slice::from_raw_parts(b.at as *const u8, b.len)
}

#[derive(Clone, Debug, Default)]
pub struct End {
    pub signal: i32,
    pub exit: i32,
    pub timeout: bool,
}
/// Run the plan. Results are left in the shared region (`out()`, buffers).
pub fn run(p: &Plan, variant: u64, record: bool, wall_s: u64) -> End {
    unsafe {
        std::ptr::write_bytes(REGION as *mut u8, 0, std::mem::size_of::<Out>());
        let Layout { s, d, ws, wd } = layout4(p, variant);
        let flat = p.flat();
        let pseed = pattern_seed(p, variant);
        for (k, c) in flat.iter().enumerate() {
            if p.solo.map(|q| q != k).unwrap_or(false) {
                continue;
            }
            if c.src_of == k || p.solo == Some(k) {
                fill_pattern(&s[k], pseed, 2 * k);
                fill_src(&flat[c.src_of].op, s[k].at as *mut u8, pseed);
            }
            fill_pattern(&d[k], pseed, 2 * k + 1);
        }
        for st in out().op_status.iter_mut() {
            *st = ST_NOTRUN;
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(wall_s as u32);
            child(p, [&s, &d, &ws, &wd], record);
        }
        let mut status = 0;
        let mut e = End::default();
        if pid < 0 {
            e.exit = 98;
            return e;
        }
        let _ = wall_s;
        while libc::waitpid(pid, &mut status, 0) != pid {}
        if libc::WIFSIGNALED(status) {
            e.signal = libc::WTERMSIG(status);
            if e.signal == libc::SIGALRM {
                e.timeout = true;
            }
        } else {
            e.exit = libc::WEXITSTATUS(status);
        }
        e
    }
}

const OFF_REF: usize = 768 << 20;
/// Evaluate the colour-space reference in a process of its own (it starts rayon's global pool).
pub fn ref_color(op: &Op, px: &[f64], cpu: usize) -> Option<(Vec<f64>, Vec<f64>, Vec<bool>)> {
    let n = op.dw * op.dh * op.ch;
    unsafe {
        let base = (REGION + OFF_REF) as *mut f64;
        *base = 0.;
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(60);
            std::env::set_var("RAYON_NUM_THREADS", "1");
            // (the conversions themselves may differ from one CPU to another)
            cpu::apply(cpu);
            let (lo, hi, ok) = crate::color::expect(op, px);
            for i in 0..n {
                *base.add(1 + 3 * i) = lo[i];
                *base.add(2 + 3 * i) = hi[i];
                *base.add(3 + 3 * i) = if ok[i] { 1. } else { 0. };
            }
            *base = 1.;
            libc::_exit(0);
        }
        if pid < 0 {
            return None;
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        if *base != 1. {
            return None;
        }
        let g = |k: usize, i: usize| *base.add(1 + k + 3 * i);
        Some((
            (0..n).map(|i| g(0, i)).collect(),
            (0..n).map(|i| g(1, i)).collect(),
            (0..n).map(|i| g(2, i) != 0.).collect(),
        ))
    }
}

struct Ctx {
    plan: Plan,
    s: Vec<Buf>,
    d: Vec<Buf>,
    ws: Vec<Buf>,
    wd: Vec<Buf>,
    first: Vec<usize>,
    /// what every request left in its destination pages the first time
    first_time: Vec<AtomicU64>,
    round: AtomicU64,
    scalers: Vec<Option<pic_scale::Scaler>>,
    pool: Option<rayon::ThreadPool>,
}
static CTX: AtomicPtr<Ctx> = AtomicPtr::new(std::ptr::null_mut());
fn ctx() -> &'static Ctx {
    unsafe { &*CTX.load(Ordering::Relaxed) }
}

/// measure stacks (set before forking)
pub static mut STACKS_TOO: bool = false;
const PAINTED: usize = 384 << 10;
const PAINT: u64 = 0xa5c3_5a3c_9669_0ff1;
/// fill what lies below the caller's frame
#[inline(never)]
unsafe fn paint() -> usize {
    let x = 0u64;
    let top = (&x as *const u64 as usize - 4096) & !7;
    for a in (top - PAINTED..top).step_by(8).rev() {
        std::ptr::write_volatile(a as *mut u64, PAINT);
    }
    top
}
#[inline(never)]
unsafe fn unpainted(top: usize) -> usize {
    let low = (top - PAINTED..top).step_by(8).find(|a| std::ptr::read_volatile(*a as *const u64) != PAINT);
    low.map(|a| top + 4096 - a).unwrap_or(0)
}
unsafe fn sum(b: &Buf) -> u64 {
    let base = b.page0 as *const u64;
    (0..b.pages * PG / 8).fold(1, |h, i| mix(h, *base.add(i))) | 1
}
fn perform(k: usize, op: &Op, src_of: usize, sc: Option<&pic_scale::Scaler>) {
    let c = ctx();
    let alone = c.plan.solo.is_some();
    let again = !alone && c.plan.rounds > 1 && out().op_begin[k] != 0;
    if again {
        // the same bytes as the first time lie there
        unsafe { fill_pattern(&c.d[k], pattern_seed(&c.plan, 0), 2 * k + 1) };
        sched::next_round(k as u32 + 1);
    }
    let before = out().op_status[k];
    // memory used by requests one after another: new content first
    let rewritten = !alone && c.ws[k].page0 != c.s[k].page0;
    let reused = !alone && c.wd[k].page0 != c.d[k].page0;
    unsafe {
        if rewritten {
            let (h, w) = (&c.s[k], &c.ws[k]);
            libc::mprotect(w.page0 as *mut _, w.pages * PG, libc::PROT_READ | libc::PROT_WRITE);
            std::ptr::copy_nonoverlapping(h.page0 as *const u8, w.page0 as *mut u8, w.pages * PG);
            libc::mprotect(w.page0 as *mut _, w.pages * PG, libc::PROT_READ);
        }
        if reused {
            std::ptr::copy_nonoverlapping(c.d[k].page0 as *const u8, c.wd[k].page0 as *mut u8, c.wd[k].pages * PG);
        }
    }
    let prev = sched::set_op(k as u32 + 1);
    let o = out();
    if !again {
        o.op_begin[k] = sched::steps() + 1;
    }
    let work = sched::work();
    let src = if rewritten { c.ws[k].at } else { c.s[if alone { k } else { src_of }].at } as *const u8;
    let dst = if reused { c.wd[k].at } else { c.d[k].at } as *mut u8;
    let top = unsafe { if STACKS_TOO { paint() } else { 0 } };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        exec(op, src, dst, sc)
    }));
    if top != 0 {
        o.caller_stack = unsafe { unpainted(top) } as u32;
    }
    sched::set_op(prev);
    o.op_end[k] = sched::steps();
    o.op_work[k] = sched::work() - work;
    if reused {
        unsafe { std::ptr::copy_nonoverlapping(c.wd[k].page0 as *const u8, c.d[k].page0 as *mut u8, c.wd[k].pages * PG) };
    }
    let status = match r {
        Ok(st) => st,
        Err(_) => ST_PANIC,
    };
    if !alone && c.plan.rounds > 1 && status != ST_PANIC {
        let h = unsafe { sum(&c.d[k]) };
        if !again {
            c.first_time[k].store(h, Ordering::Relaxed);
        } else if o.round_differs[0] == 0 && (status != before || c.first_time[k].load(Ordering::Relaxed) != h) {
            o.round_differs = [k as u32 + 1, c.round.load(Ordering::Relaxed) as u32];
        }
    }
    // (an unwinding is not made good by a later round)
    if !again || before != ST_PANIC {
        o.op_status[k] = status;
    }
}
fn one_call(k: usize, call: &Call, own: &mut Option<(u32, pic_scale::Scaler)>) {
    let c = ctx();
    let op = &call.op;
    let sc = match call.shared {
        0 => None,
        255 => {
            if own.as_ref().map(|x| x.0 != op.filter).unwrap_or(true) {
                *own = Some((op.filter, pic_scale::Scaler::new(pic_scale::ResamplingFunction::from(op.filter))));
            }
            let s = &mut own.as_mut().unwrap().1;
            use pic_scale::Scaling;
            s.set_threading_policy(policy(op.pol));
            s.set_workload_strategy(if op.quality {
                pic_scale::WorkloadStrategy::PreferQuality
            } else {
                pic_scale::WorkloadStrategy::PreferSpeed
            });
            own.as_ref().map(|x| &x.1)
        }
        g => c.scalers[g].as_ref(),
    };
    if call.nested && c.pool.is_some() {
        c.pool.as_ref().unwrap().install(|| perform(k, op, call.src_of, sc));
    } else {
        perform(k, op, call.src_of, sc);
    }
}
fn client(i: usize) {
    let c = ctx();
    let mut own = None;
    let rounds = if c.plan.rounds > 1 { c.plan.rounds as u64 } else { 1 };
    for q in 0..rounds {
        c.round.store(q, Ordering::Relaxed);
        client_round(i, &mut own);
    }
}
fn client_round(i: usize, own: &mut Option<(u32, pic_scale::Scaler)>) {
    let c = ctx();
    // consecutive nested requests of one client go to the pool together
    let calls = &c.plan.clients[i];
    let mut j = 0;
    while j < calls.len() {
        if calls[j].nested && c.pool.is_some() && j + 1 < calls.len() && calls[j + 1].nested && calls[j].shared != 255 {
            let end = (j..calls.len()).take_while(|q| calls[*q].nested && calls[*q].shared != 255).count() + j;
            c.pool.as_ref().unwrap().scope(|sc| {
                // may run on a thread that waits in the middle of another request
                let other = sched::set_op(0);
                for q in j..end {
                    sc.spawn(move |_| {
                        let c = ctx();
                        let call = &c.plan.clients[i][q];
                        let g = if call.shared == 0 { None } else { c.scalers[call.shared].as_ref() };
                        perform(c.first[i] + q, &call.op, call.src_of, g);
                    });
                }
                sched::set_op(other);
            });
            j = end.max(j + 1);
        } else {
            one_call(c.first[i] + j, &calls[j], own);
            j += 1;
        }
    }
}

unsafe extern "C" fn on_fault(_s: i32, info: *mut libc::siginfo_t, _c: *mut libc::c_void) {
    out().fault_addr = (*info).si_addr() as u64;
    // returning repeats the instruction, now with the default action
}
unsafe fn child(p: &Plan, l: [&[Buf]; 4], record: bool) -> ! {
    let [s, d, ws, wd] = l;
    cpu::apply(p.cpu);
    sched::set_cov((REGION + OFF_COV) as *mut u8);
    std::panic::set_hook(Box::new(|info| {
        let o = out();
        if o.panic_msg[0] == 0 {
            let m = info.to_string();
            let n = m.len().min(500);
            o.panic_msg[..n].copy_from_slice(&m.as_bytes()[..n]);
        }
    }));
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_fault as *const () as usize;
    sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_RESETHAND;
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL] {
        libc::sigaction(s, &sa, std::ptr::null_mut());
    }
    std::alloc::set_alloc_error_hook(|l| panic!("simulated allocation failure of {} bytes", l.size()));
    let flat = p.flat();
    let mut first = vec![];
    let mut n = 0;
    for c in &p.clients {
        first.push(n);
        n += c.len();
    }
    let mut scalers: Vec<Option<pic_scale::Scaler>> = (0..201).map(|_| None).collect();
    for (k, c) in flat.iter().enumerate() {
        if c.shared > 0 && c.shared < 201 && scalers[c.shared].is_none() {
            scalers[c.shared] = Some(mk_scaler(&c.op));
        }
        let live = p.solo.map(|q| q == k).unwrap_or(true);
        // unmapped pages around the buffers, sources read-only
        for b in [&s[k], &d[k], &ws[k], &wd[k]] {
            libc::mprotect((b.page0 - PG) as *mut _, PG, libc::PROT_NONE);
            libc::mprotect((b.page0 + b.pages * PG) as *mut _, PG, libc::PROT_NONE);
        }
        if live {
            libc::mprotect(s[k].page0 as *mut _, s[k].pages * PG, libc::PROT_READ);
        } else {
            libc::mprotect(s[k].page0 as *mut _, s[k].pages * PG, libc::PROT_NONE);
            libc::mprotect(d[k].page0 as *mut _, d[k].pages * PG, libc::PROT_NONE);
        }
    }
    let ctx_box = Box::new(Ctx { plan: p.clone(), s: s.to_vec(), d: d.to_vec(), ws: ws.to_vec(), wd: wd.to_vec(), first, first_time: (0..n).map(|_| AtomicU64::new(0)).collect(), round: AtomicU64::new(0), scalers, pool: None });
    let cp = Box::into_raw(ctx_box);
    CTX.store(cp, Ordering::Relaxed);
    sched::start(
        Params {
            seed: p.seed,
            sched: p.sched.clone(),
            ncpu: p.ncpu,
            spurious: p.spurious,
            spawn_fail: p.spawn_fail.clone(),
            spawn_fail_all: p.spawn_fail_all,
            max_steps: p.max_steps,
            overrides: p.overrides.clone(),
            record,
        },
        out(),
        (REGION + OFF_REC) as *mut (u64, u32),
        RECCAP,
    );
    alloc::start(alloc::Mode {
        poison: p.poison,
        guard: p.heap_guard,
        reuse: p.heap_reuse,
        fail_at: p.alloc_fail,
        fail_every: p.alloc_every,
        fail_min: if p.alloc_fail > 0 { p.alloc_min } else { usize::MAX },
    });
    if !p.lazy_global && flat.iter().any(|c| c.op.color != 0) {
        // the process-wide rayon pool belongs to the process, not to a request
        sched::mark_global(true);
        let _ = rayon::current_num_threads();
        sched::mark_global(false);
    }
    if let Some(k) = p.solo {
        let mut call = flat[k].clone();
        call.op.api = 0;
        if !p.solo_own {
            call.op.pol = Pol::Single;
        }
        perform(k, &call.op, k, None);
    } else {
        if p.user_pool > 0 {
            (*cp).pool = rayon::ThreadPoolBuilder::new().num_threads(p.user_pool).build().ok();
        }
        if p.clients.len() == 1 {
            client(0);
        } else {
            let hs: Vec<_> = (0..p.clients.len())
                .map(|i| std::thread::Builder::new().stack_size(2 << 20).spawn(move || client(i)).unwrap())
                .collect();
            for h in hs {
                let _ = h.join();
            }
        }
        (*cp).pool = None;
    }
    sched::quiesce();
    let o = out();
    if STACKS_TOO {
        o.worker_stack = sched::deepest_stack() as u32;
    }
    alloc::audit(&mut o.op_leak);
    alloc::stop();
    sched::stop();
    o.verdict = 1;
    libc::_exit(0);
}
