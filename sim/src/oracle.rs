//! Oracles: what a finished (or broken) execution is checked against.
use crate::model;
use crate::ops::*;
use crate::plan::*;
use crate::rng::mix;
use crate::run::{self, Buf};
use crate::sched::Out;

#[derive(Clone, Debug)]
pub struct Fail {
    pub class: &'static str,
    /// flat index of the request concerned, -1 for the whole execution
    pub k: i64,
    pub detail: String,
}
#[derive(Clone, Copy, Default, Debug)]
pub struct Checks {
    /// compare with the request executed alone, single-threaded, on other memory
    pub solo: bool,
    /// ... keeping the request's own threading policy in the comparison
    pub solo_own: bool,
    /// compare with the mathematical model
    pub model: bool,
    /// compare with convert-resample-convert (colour-space scalers)
    pub color: bool,
    /// thread counts, left-over threads, memory growth, step bound
    pub resources: bool,
    /// work and memory in proportion to the pictures
    pub cost: bool,
    /// instruction sets used against the simulated CPU
    pub isa: bool,
}
pub struct Eval {
    pub fails: Vec<Fail>,
    pub out: Box<Out>,
    pub rec: Vec<(u64, u32)>,
    pub solo_steps: u64,
    pub compared: u64,
    pub modelled: u64,
    pub skipped: u64,
    pub worst: f64,
    /// of everything observable: schedule, answers, memory
    pub digest: u64,
    pub stack: u64,
}
pub static mut ISA: Option<crate::isa::Isa> = None;
pub fn harness_trouble(e: &Eval) -> bool {
    e.fails.iter().any(|f| f.class == "harness")
}

fn grab(b: &Buf) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(b.page0 as *const u8, b.pages * 4096).to_vec() }
}
/// byte offsets (in the grabbed pages) of visible destination row `y`
fn row(op: &Op, b: &Buf, y: usize) -> (usize, usize) {
    let e = op.esz();
    let s = b.at - b.page0 + y * op.dstride() * e;
    (s, s + op.dw * op.epp() * e)
}
fn untouched(pages: &[u8], from: usize, to: usize, seed: u64, salt: usize) -> Option<usize> {
    (from..to).find(|i| pages[*i] != run::pattern(seed, salt, *i))
}
/// accuracy tolerance in units of the last place (integers) or of the relative scale below
pub fn tolerance(op: &Op) -> (f64, f64) {
    // (absolute allowance, scale)
    match op.fmt {
        Fmt::F32 => (if op.premul && op.ch == 4 { 100.0 } else { 20.0 }, 1e-6),
        Fmt::F16 => (if op.premul && op.ch == 4 { 8.0 } else { 3.0 }, 1e-3),
        Fmt::Ar30 | Fmt::Ra30 => (2.0, 1.0),
        _ => (2.4, 1.0),
    }
}
pub struct Acc {
    pub worst: f64,
    pub n: u64,
    pub skipped: u64,
    pub first: Option<String>,
}
pub fn accuracy(op: &Op, src_px: &[f64], out: &[f64]) -> Acc {
    let ex = model::expect(op, src_px);
    let (tol, unit) = tolerance(op);
    let c = op.epp();
    let scale = if op.is_float() { unit * ex.mag.max(1e-3) } else { unit };
    let mut a = Acc { worst: 0., n: 0, skipped: 0, first: None };
    for j in 0..out.len() {
        // the two alpha bits of packed pixels are not specified
        if op.is30() && j % 4 == 3 {
            continue;
        }
        if ex.skip[j] {
            a.skipped += 1;
            // still: in range
            if !op.is_float() && out[j] > op.maxv() && a.first.is_none() {
                a.worst = f64::INFINITY;
                a.first = Some(format!("({},{}) channel {}: {} above the format's maximum", j / c % op.dw, j / c / op.dw, j % c, out[j]));
            }
            continue;
        }
        a.n += 1;
        let up = ex.add[j] + ex.gain * ex.hi[j].abs();
        let down = ex.add[j] + if op.premul { ex.gain * ex.hi[j].abs() } else { 0. };
        let d = if out[j].is_nan() {
            f64::INFINITY
        } else {
            (ex.lo[j] - down - out[j]).max(out[j] - ex.hi[j] - up).max(0.)
        };
        let mut d = d / scale / ex.amp[j].max(1.0);
        if !op.is_float() && out[j] > op.maxv() {
            d = f64::INFINITY;
        }
        if d > a.worst {
            a.worst = d;
        }
        if d > tol && a.first.is_none() {
            a.first = Some(format!(
                "({},{}) channel {}: got {} want {:.4}..{:.4} (x{:.2} of the allowance)",
                j / c % op.dw,
                j / c / op.dw,
                j % c,
                out[j],
                ex.lo[j],
                ex.hi[j],
                d / tol
            ));
        }
    }
    a
}
pub fn src_pixels(op: &Op) -> (Vec<u64>, Vec<f64>) {
    let mut v = vec![0u64; op.slen() * op.esz() / 8 + 2];
    fill_src(op, v.as_mut_ptr() as *mut u8, 0);
    let px = read_px(op, v.as_ptr() as *const u8, op.sw, op.sh, op.sstride());
    (v, px)
}
fn signame(s: i32) -> &'static str {
    match s {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGBUS => "SIGBUS",
        libc::SIGABRT => "SIGABRT",
        libc::SIGILL => "SIGILL",
        libc::SIGALRM => "SIGALRM",
        _ => "signal",
    }
}
pub fn short(op: &Op) -> String {
    let f = FMTS.iter().find(|x| x.0 == op.fmt).unwrap().1;
    format!(
        "{}x{}{}{} {}x{}->{}x{} {:?} {:?}{}{}{}{}{}",
        f,
        op.epp(),
        if op.fmt == Fmt::U16 { format!("@{}", op.depth) } else { String::new() },
        if op.color != 0 { format!(" {}", COLORS[op.color]) } else { String::new() },
        op.sw,
        op.sh,
        op.dw,
        op.dh,
        pic_scale::ResamplingFunction::from(op.filter),
        op.pol,
        if op.quality { " quality" } else { "" },
        if op.premul { " alpha" } else { "" },
        if op.api > 0 { [" constructed", " owned", " allocated", " copied"][op.api as usize % 5 - 1] } else { "" },
        if op.spad + op.dpad > 0 { format!(" pad {}/{}", op.spad, op.dpad) } else { String::new() },
        if op.malform > 0 { format!(" malformed:{}", MALFORMS[op.malform]) } else { String::new() },
    )
}

/// the same request with both pictures twice as long along one axis or both
/// The axes (bit 0: width, bit 1: height) along which twice as long ought to mean twice the work: those
/// that hold the whole kernel, and that are long enough for the kernels' main loops (what is left over at
/// the end of a row may go through other code, at other prices)
fn fit_to_double(op: &Op) -> u64 {
    let fits = |s: usize, d: usize, n: usize| s.min(d) >= n && s >= 2 * model::taps(op.filter, s, d);
    fits(op.sw, op.dw, 64) as u64 | (fits(op.sh, op.dh, 16) as u64) << 1
}

fn doubled(p: &Plan) -> (Plan, u64) {
    let mut q = p.clone();
    let op = &mut q.clients[0][0].op;
    let fit = fit_to_double(op);
    let axes = match (1 + p.seed % 3) & fit {
        0 => fit,
        a => a,
    };
    if axes & 1 != 0 {
        op.sw *= 2;
        op.dw *= 2;
    }
    if axes & 2 != 0 {
        op.sh *= 2;
        op.dh *= 2;
    }
    q.overrides.clear();
    q.max_steps = p.max_steps * 5;
    (q, axes)
}

pub fn evaluate(p: &Plan, ck: &Checks, record: bool) -> Eval {
    let mut fails: Vec<Fail> = vec![];
    let flat: Vec<Call> = p.flat().into_iter().cloned().collect();
    run::clear_cov();
    let end = run::run(p, 0, record, 60);
    let out: Box<Out> = unsafe { Box::new(std::ptr::read(run::out())) };
    let rec = if record { run::rec().to_vec() } else { vec![] };
    let mut ev = Eval { fails: vec![], out, rec, solo_steps: 0, compared: 0, modelled: 0, skipped: 0, worst: 0., digest: 0, stack: 0 };
    let o = &ev.out;
    let msg = {
        let n = o.panic_msg.iter().position(|b| *b == 0).unwrap_or(512);
        String::from_utf8_lossy(&o.panic_msg[..n]).replace('\n', " ")
    };
    let running = |o: &Out| -> String {
        let v: Vec<String> = (0..flat.len().min(64))
            .filter(|k| o.op_begin[*k] != 0 && o.op_status[*k] == ST_NOTRUN)
            .map(|k| short(&flat[k].op))
            .collect();
        v.join("; ")
    };
    let mut f = |class: &'static str, k: i64, detail: String| fails.push(Fail { class, k, detail });
    let (sb, db) = run::layout(p, 0);
    let _ = sb;
    let pseed = run::pattern_seed(p, 0);
    if end.exit == 98 || o.verdict == 5 || end.exit == 97 {
        f("harness", -1, format!("exit {} verdict {}", end.exit, o.verdict));
    } else if end.timeout {
        f("hang", -1, format!("no answer in real time while running {}", running(o)));
    } else if end.signal != 0 {
        let hex = if o.fault_addr != 0 { format!(" at {:#x} ({})", o.fault_addr, run::describe(o.fault_addr as usize, p)) } else { String::new() };
        f(
            if end.signal == libc::SIGABRT { "abort" } else { "fault" },
            -1,
            format!("{}{} while running {} {}", signame(end.signal), hex, running(o), msg),
        );
    } else if o.verdict == 2 {
        f("deadlock", -1, format!("every thread blocked after {} steps while running {}", o.steps, running(o)));
    } else if o.verdict == 3 {
        f("steps", -1, format!("not finished after {} steps: {}", o.steps, running(o)));
    } else if o.verdict == 4 {
        f("threads", -1, format!("more than {} threads", crate::sched::MAXT));
    } else if o.verdict != 1 {
        f("exit", -1, format!("the process ended with code {} while running {}", end.exit, running(o)));
    }
    if o.heap_smashed > 0 {
        f("heap", -1, format!("{} heap blocks damaged (size {})", o.heap_smashed, o.heap_smashed_size));
    }
    if o.store_changed > 0 {
        f("store", -1, "a request left the destination store with another buffer, size, stride or depth".into());
    }
    if o.round_differs[0] > 0 && p.alloc_fail == 0 {
        let k = o.round_differs[0] as usize - 1;
        f("mismatch", k as i64, format!("round {} gave another answer or other bytes than the first: {}", o.round_differs[1], short(&flat[k].op)));
    }
    let finished = o.verdict == 1 && end.signal == 0 && !end.timeout;
    // --- memory outside the visible destination, on every run that got anywhere
    let mut pages = vec![];
    for (k, c) in flat.iter().enumerate() {
        let g = grab(&db[k]);
        let b = &db[k];
        let op = &c.op;
        let (s0, s1) = (b.at - b.page0, b.at - b.page0 + b.len);
        let salt = 2 * k + 1;
        if let Some(i) = untouched(&g, 0, s0, pseed, salt).or_else(|| untouched(&g, s1, g.len(), pseed, salt)) {
            f("outside", k as i64, format!("byte {} relative to the destination buffer changed: {}", i as i64 - s0 as i64, short(op)));
        }
        let st = ev.out.op_status[k.min(63)];
        if op.malform != 0 || (st > 0 && st < ST_PANIC) || ev.out.op_begin[k.min(63)] == 0 {
            if let Some(i) = untouched(&g, s0, s1, pseed, salt) {
                f("touched", k as i64, format!("destination byte {} of a refused request changed: {}", i - s0, short(op)));
            }
        } else {
            for y in 0..op.dh {
                let (_, r1) = row(op, b, y);
                let next = (s0 + (y + 1) * op.dstride() * op.esz()).min(s1);
                if let Some(i) = untouched(&g, r1, next, pseed, salt) {
                    f("padding", k as i64, format!("row {} padding byte {} changed: {}", y, i - r1, short(op)));
                    break;
                }
            }
        }
        pages.push(g);
    }
    {
        let o = &ev.out;
        let mut h = mix(mix(o.hash, o.steps), mix(o.switches, o.clock));
        for k in 0..flat.len().min(64) {
            h = mix(h, o.op_status[k] as u64 ^ o.op_end[k] << 8);
        }
        for g in &pages {
            for c in g.chunks(8) {
                h = mix(h, u64::from_le_bytes(c.try_into().unwrap_or([0; 8])));
            }
        }
        ev.digest = mix(h, o.verdict as u64);
    }
    // --- answers
    for (k, c) in flat.iter().enumerate() {
        let st = ev.out.op_status[k];
        let op = &c.op;
        if st == ST_NOTRUN {
            if finished {
                f("status", k as i64, format!("request never ran: {}", short(op)));
            }
            continue;
        }
        let may_unwind = p.alloc_fail > 0 && ev.out.alloc_failed_ops >> k.min(63) & 1 == 1;
        if st == ST_PANIC {
            if !may_unwind {
                f("panic", k as i64, format!("panicked: {} [{}]", short(op), msg));
            }
        } else if op.malform != 0 {
            if st == ST_OK {
                f("accepted", k as i64, format!("malformed request accepted: {}", short(op)));
            }
        } else if st != ST_OK {
            f("refused", k as i64, format!("well-formed request refused with error {}: {}", st, short(op)));
        }
    }
    // --- instructions
    if ck.isa {
        if let Some(isa) = unsafe { ISA.as_ref() } {
            if let Some((name, lack)) = isa.offences(run::cov(), crate::cpu::mask(p.cpu)) {
                f(
                    "isa",
                    -1,
                    format!("{} entered on a {} CPU, which has no {}: {}", name, crate::cpu::MODELS[p.cpu].0, lack.join(", "), short(&flat[0].op)),
                );
            }
        }
    }
    // --- cost
    if finished && ck.cost && ev.out.op_status[0] == ST_OK {
        let o = &ev.out;
        let op = &flat[0].op;
        let (work, peak, asked, threads) = (o.op_work[0] as f64, o.op_peak[0] as f64, o.op_asked[0] as f64, o.nthreads as f64);
        // taps on both axes, pixels read and written, weights
        let (kh, kv) = (model::taps(op.filter, op.sw, op.dw), model::taps(op.filter, op.sh, op.dh));
        let sums = (op.sw * op.dh * kv.min(op.sh) + op.dw * op.dh * kh.min(op.sw) + op.sw * op.sh + op.dw * op.dh) * op.epp();
        let weights = kh * op.dw + kv * op.dh;
        let lim = 16. * (sums + 10 * weights) as f64 + 8000. * (threads + 1.);
        if work > lim {
            f("work", 0, format!("{work} basic blocks executed, at most {lim} expected: {}", short(op)));
        }
        let held = 4 * (op.slen() + op.dlen() + op.sw * op.dh * op.epp()) + 16 * weights;
        let lim = 3. * held as f64 + 16384. * (threads + 4.);
        if peak > lim {
            f("memory", 0, format!("{peak} bytes held at once, at most {lim} expected: {}", short(op)));
        }
        ev.worst = (work / (16 * (sums + 10 * weights)) as f64).min(0.99);
        ev.stack = o.caller_stack.max(o.worker_stack) as u64;
        for (who, used) in [("the caller", ev.out.caller_stack), ("a worker thread", ev.out.worker_stack)] {
            if used > 256 << 10 {
                f("stack", 0, format!("{}{} bytes of stack used by {who}: {}", if used >= 384 << 10 { "at least " } else { "" }, used, short(op)));
            }
        }
        ev.digest = mix(mix(ev.digest, o.op_peak[0] as u64), o.op_asked[0] as u64);
        // twice as long: twice as much
        let (q, axes) = doubled(p);
        if axes != 0 {
            let times = if axes == 3 { 4. } else { 2. };
            let e2 = run::run(&q, 1, false, 60);
            let o2 = run::out();
            ev.solo_steps += o2.steps;
            let (work2, peak2, asked2) = (o2.op_work[0] as f64, o2.op_peak[0] as f64, o2.op_asked[0] as f64);
            let threads = threads.max(o2.nthreads as f64);
            let what = format!("{} -> {}", short(op), short(&q.clients[0][0].op));
            if e2.signal != 0 || e2.timeout || o2.verdict != 1 || o2.op_status[0] != ST_OK {
                f("work", 0, format!("the larger one ended with signal {} verdict {} status {}: {what}", e2.signal, o2.verdict, o2.op_status[0]));
            } else {
                ev.modelled += 3;
                let slack = 4000. * (threads + 1.);
                if work2 > 1.25 * times * work + slack {
                    f("work", 0, format!("{work} basic blocks executed, {work2} for {times} times the picture: {what}"));
                }
                let slack = 10240. * threads;
                // (how many threads hold their scratch rows at once is up to the schedule)
                if op.pol == Pol::Single && peak2 > 1.15 * times * peak + slack {
                    f("memory", 0, format!("{peak} bytes held at once, {peak2} for {times} times the picture: {what}"));
                }
                if asked2 > 1.15 * times * asked + slack {
                    f("memory", 0, format!("{asked} bytes asked for, {asked2} for {times} times the picture: {what}"));
                }
            }
        }
    }
    // --- resources
    if finished && ck.resources {
        let o = &ev.out;
        if o.left_threads > 0 {
            let k = o.left_first as usize;
            f("leftover", k as i64 - 1, format!("{} worker threads never ended: {}", o.left_threads, short(&flat[k.max(1) - 1].op)));
        }
        for (k, c) in flat.iter().enumerate() {
            let lim = match c.op.pol {
                Pol::Single => 0,
                Pol::Fixed(n) => n.max(1),
                Pol::Adaptive => p.ncpu.max(1),
            };
            if o.op_alive[k] as usize > lim {
                f("threads", k as i64, format!("{} worker threads at once, {} allowed: {}", o.op_alive[k], lim, short(&c.op)));
            }
            // the first request may fill tables kept for later ones; rayon and its epoch collector keep a
            // few kilobytes for every worker thread that ever lived
            let again = flat[..k].iter().any(|e| Op { pol: c.op.pol, dseed: c.op.dseed, ..e.op.clone() } == c.op);
            // (nor does it clean up when memory runs out while it builds its pool)
            let rayon_unwound = o.op_status[k] == ST_PANIC && c.op.pol != Pol::Single;
            let base = if again && p.clients.len() == 1 && p.user_pool == 0 { if o.op_threads[k] > 0 || rayon_unwound { 8192 } else { 0 } } else { 16 << 10 };
            if o.op_leak[k] > base + 6144 * o.op_threads[k] as i64 {
                f("leak", k as i64, format!("{} bytes still allocated: {}", o.op_leak[k], short(&c.op)));
            }
        }
    }
    // --- pictures
    let mut per_op_solo = vec![0u64; flat.len()];
    if finished || ck.solo {
        for (k, c) in flat.iter().enumerate() {
            let op = &c.op;
            if ev.out.op_status[k] != ST_OK || op.malform != 0 {
                continue;
            }
            let b = &db[k];
            let g = &pages[k];
            let (s0, _) = (b.at - b.page0, 0);
            if ck.model && op.color == 0 {
                let (_keep, px) = src_pixels(&flat[c.src_of].op);
                // aligned copy
                let mut al = vec![0u64; b.len / 8 + 2];
                unsafe { std::ptr::copy_nonoverlapping(g.as_ptr().add(s0), al.as_mut_ptr() as *mut u8, b.len) };
                let got = read_px(op, al.as_ptr() as *const u8, op.dw, op.dh, op.dstride());
                let a = accuracy(op, &px, &got);
                ev.modelled += a.n;
                ev.skipped += a.skipped;
                if a.worst.is_finite() {
                    ev.worst = ev.worst.max(a.worst / tolerance(op).0);
                }
                if let Some(m) = a.first {
                    f("accuracy", k as i64, format!("{} : {}", short(op), m));
                }
            }
            if ck.color && op.color != 0 {
                let (_keep, px) = src_pixels(&flat[c.src_of].op);
                let got = read_px(op, g[s0..].as_ptr(), op.dw, op.dh, op.dstride());
                match run::ref_color(op, &px, p.cpu) {
                    None => f("harness", k as i64, format!("no colour reference for {}", short(op))),
                    Some((lo, hi, ok)) => {
                        for i in 0..got.len() {
                            if !ok[i] {
                                ev.skipped += 1;
                                continue;
                            }
                            ev.modelled += 1;
                            ev.worst = ev.worst.max(((got[i] - (lo[i] + hi[i]) / 2.).abs() / ((hi[i] - lo[i]) / 2.)).min(9.));
                            if got[i] < lo[i] || got[i] > hi[i] {
                                let n = op.ch;
                                f(
                                    "accuracy",
                                    k as i64,
                                    format!(
                                        "{} : ({},{}) channel {}: got {} want {:.2}..{:.2}",
                                        short(op),
                                        i / n % op.dw,
                                        i / n / op.dw,
                                        i % n,
                                        got[i],
                                        lo[i],
                                        hi[i]
                                    ),
                                );
                                break;
                            }
                        }
                    }
                }
            }
            if ck.solo || (ck.color && op.color != 0) {
                let mut q = p.clone();
                q.solo = Some(k);
                q.solo_own = ck.solo_own;
                q.sched = crate::sched::Sched::Block;
                q.overrides.clear();
                q.spurious = 0;
                q.spawn_fail.clear();
                q.spawn_fail_all = false;
                q.alloc_fail = 0;
                q.poison = mix(p.poison, 99);
                q.heap_guard = false;
                q.heap_reuse = false;
                q.max_steps = 4_000_000_000;
                let e2 = run::run(&q, 1 + k as u64, false, 60);
                let o2 = run::out();
                ev.solo_steps += o2.steps;
                per_op_solo[k] = o2.steps;
                if e2.signal != 0 || e2.timeout || o2.verdict != 1 || o2.op_status[k] != ST_OK {
                    f(
                        "mismatch",
                        k as i64,
                        format!("succeeded here but alone ended with signal {} status {}: {}", e2.signal, o2.op_status[k], short(op)),
                    );
                    continue;
                }
                let (_, d2) = run::layout(&q, 1 + k as u64);
                let g2 = unsafe { run::bytes(&d2[k]) };
                let e = op.esz();
                'rows: for y in 0..op.dh {
                    let (r0, r1) = row(op, b, y);
                    let a = &g[r0..r1];
                    let z = &g2[r0 - s0..r1 - s0];
                    ev.compared += (a.len() / e) as u64;
                    if a != z {
                        let i = (0..a.len()).find(|i| a[*i] != z[*i]).unwrap() / e;
                        f(
                            "mismatch",
                            k as i64,
                            format!(
                                "differs from the same request alone at ({},{}) component {}: bytes {:02x?} vs {:02x?}: {}",
                                i / op.epp(),
                                y,
                                i % op.epp(),
                                &a[i * e..i * e + e],
                                &z[i * e..i * e + e],
                                short(op)
                            ),
                        );
                        break 'rows;
                    }
                }
            }
        }
    }
    ev.fails = fails;
    ev
}
