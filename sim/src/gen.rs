//! What is simulated for each property: one plan per (property, seed, index).
use crate::cpu;
use crate::ops::*;
use crate::oracle::Checks;
use crate::plan::*;
use crate::rng::*;
use crate::sched::Sched;

pub const PROPS: [&str; 16] = [
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16",
];

pub fn checks(prop: &str) -> Checks {
    let n = Checks::default();
    match prop {
        "P01" => Checks { solo: true, ..n },
        "P02" => Checks { solo: true, solo_own: true, ..n },
        "P03" => Checks { solo: true, solo_own: true, ..n },
        "P04" => Checks { solo: true, solo_own: true, ..n },
        "P05" | "P06" | "P07" | "P08" | "P09" => Checks { model: true, ..n },
        "P10" => Checks { color: true, ..n },
        "P11" => Checks { model: true, ..n },
        "P12" => Checks { solo: true, resources: true, ..n },
        "P13" => Checks { solo: true, solo_own: true, resources: true, ..n },
        "P14" => Checks { resources: true, ..n },
        "P16" => Checks { cost: true, ..n },
        _ => Checks { model: true, isa: true, ..n },
    }
}
/// number of simulated executions of the quick check; the thorough one is bounded by time
pub fn budget(prop: &str) -> u64 {
    match prop {
        "P01" => 40000,
        "P02" => 20000,
        "P03" => 60000,
        "P04" => 32000,
        "P05" => 90000,
        "P06" | "P07" => 70000,
        "P08" | "P09" => 60000,
        "P10" => 32000,
        "P11" => 80000,
        "P12" => 26000,
        "P13" => 30000,
        "P14" => 26000,
        "P16" => 20000,
        _ => 100000,
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub fmts: Vec<Fmt>,
    pub ch: &'static [usize],
    pub max: usize,
    pub pads: f64,
    pub premul: f64,
    pub color: f64,
    pub malform: f64,
    pub store_api: f64,
    pub shortcut: f64, // nearest / same size
    pub filters: &'static [u32],
}
const ALL: [Fmt; 9] = [Fmt::U8, Fmt::U8, Fmt::U8, Fmt::U16, Fmt::U16, Fmt::F32, Fmt::F16, Fmt::Ar30, Fmt::Ra30];
impl Cfg {
    pub fn all() -> Cfg {
        Cfg {
            fmts: ALL.to_vec(),
            ch: &[1, 2, 3, 4],
            max: 140,
            pads: 0.3,
            premul: 0.4,
            color: 0.0,
            malform: 0.0,
            store_api: 0.06,
            shortcut: 0.06,
            filters: &[],
        }
    }
}
fn depth(r: &mut Rng) -> usize {
    if r.chance(0.12) {
        r.us(1, 7)
    } else {
        r.us(8, 16)
    }
}
fn size(r: &mut Rng, max: usize) -> usize {
    let v = match r.below(12) {
        0..=2 => r.us(1, 8),
        3..=5 => r.us(9, 40),
        6..=8 => r.us(20, 64),
        9 => *r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
        _ => r.us(40, 140),
    };
    v.min(max).max(1)
}
pub fn gen_op(r: &mut Rng, c: &Cfg) -> Op {
    let mut op = Op::base();
    op.fmt = *r.pick(&c.fmts);
    op.ch = *r.pick(c.ch);
    op.dseed = r.next();
    if op.is30() {
        op.ch = 4;
        op.net = r.chance(0.5);
    }
    op.filter = if !c.filters.is_empty() { *r.pick(c.filters) } else { r.below(49) as u32 };
    op.sw = size(r, c.max);
    op.sh = size(r, c.max);
    op.dw = size(r, c.max);
    op.dh = size(r, c.max);
    // sometimes gentle ratios, sometimes long and thin
    match r.below(10) {
        0 => op.dw = op.sw,
        1 => op.dh = op.sh,
        2 => {
            op.dw = (op.sw + r.us(0, 6)).saturating_sub(3).max(1);
            op.dh = (op.sh + r.us(0, 6)).saturating_sub(3).max(1);
        }
        3 => {
            op.sh = r.us(1, 3);
            op.dh = r.us(1, 9);
            op.sw = r.us(1, c.max * 3);
            op.dw = r.us(1, c.max * 3);
        }
        4 => {
            op.sw = r.us(1, 3);
            op.dw = r.us(1, 9);
            op.sh = r.us(1, c.max * 3);
            op.dh = r.us(1, c.max * 3);
        }
        _ => {}
    }
    if r.chance(c.shortcut) {
        if r.chance(0.5) {
            op.filter = 1;
        } else {
            op.dw = op.sw;
            op.dh = op.sh;
        }
    }
    if op.fmt == Fmt::U16 {
        op.depth = depth(r);
    }
    op.quality = r.chance(0.5);
    op.premul = op.ch == 4 && !op.is30() && r.chance(c.premul);
    op.pattern = pick_pattern(r, op.is_float());
    if op.premul {
        op.pattern = *r.pick(&[0, 0, 2, 3, 5, 6, 6, 7, 8, 9, 13, 13, 14, 15]);
    }
    if r.chance(c.pads) {
        let m = *r.pick(&[1usize, 4, 17, 64]);
        if r.chance(0.7) {
            op.spad = r.us(0, m);
        }
        if r.chance(0.7) {
            op.dpad = r.us(0, m);
        }
    }
    if !op.is30() && r.chance(0.08) {
        op.stride0 = true;
    }
    if !op.is30() && r.chance(c.store_api) {
        op.store_api = true;
    }
    if !op.is30() && r.chance(0.12) {
        op.api = r.us(1, 4) as u32;
    }
    if r.chance(c.color) {
        make_color(r, &mut op);
    }
    if r.chance(c.malform) {
        malform(r, &mut op);
    }
    op
}
pub fn make_color(r: &mut Rng, op: &mut Op) {
    op.fmt = Fmt::U8;
    op.depth = 8;
    op.net = false;
    op.ch = *r.pick(&[3, 4]);
    op.color = r.us(1, COLORS.len() - 1);
    op.tf = r.below(7) as u32;
    op.store_api = false;
    op.premul = op.ch == 4 && r.chance(0.4);
    op.sw = op.sw.min(48);
    op.sh = op.sh.min(48);
    op.dw = op.dw.min(48);
    op.dh = op.dh.min(48);
}
pub fn malform(r: &mut Rng, op: &mut Op) {
    loop {
        let m = r.us(1, MALFORMS.len() - 1);
        if (m == 11 || m == 12) && op.fmt != Fmt::U16 {
            continue;
        }
        if (m == 9 && op.sw * op.epp() < 2) || (m == 10 && op.dw * op.epp() < 2) {
            continue;
        }
        if (m == 15 && op.sh < 2) || (m == 16 && op.dh < 2) || (m >= 17 && op.is30()) {
            continue;
        }
        if (m == 5 || m == 7) && (op.sstride() == 0 || op.dstride() == 0) {
            continue;
        }
        op.malform = m;
        return;
    }
}
pub fn est(op: &Op) -> u64 {
    ((op.sw * op.dh + op.dw * op.dh + op.sw * op.sh / 2) * op.epp() / 3 + 500) as u64
}
fn policy(r: &mut Rng) -> Pol {
    match r.below(12) {
        0 => Pol::Single,
        1 => Pol::Adaptive,
        2 => Pol::Fixed(0),
        3 => Pol::Fixed(1),
        4..=6 => Pol::Fixed(2),
        7..=8 => Pol::Fixed(3),
        9 => Pol::Fixed(4),
        10 => Pol::Fixed(r.us(5, 9)),
        _ => Pol::Fixed(r.us(2, 24)),
    }
}
/// adaptive threading needs at least 131072 destination pixels
fn big_adaptive(r: &mut Rng, op: &mut Op, prop: &str) {
    op.pol = Pol::Adaptive;
    op.malform = 0;
    op.color = 0;
    // now and then enough for 4 to 16 threads
    let vast = r.chance(0.15);
    let px = if vast { 131072 + r.us(0, 950000) } else { 131072 + r.us(0, 90000) };
    op.dw = r.us(200, 700);
    op.dh = px / op.dw + 1;
    op.sw = r.us(2, 24);
    op.sh = r.us(2, 24);
    if prop == "P11" && op.filter != 1 {
        op.sw = op.dw;
        op.sh = op.dh;
    }
    if op.fmt != Fmt::U8 && prop != "P09" && r.chance(0.6) {
        op.ch = op.ch.min(2);
        op.premul = false;
    }
    if vast && !op.is30() && prop != "P09" {
        op.ch = 1;
        op.premul = false;
    }
}
/// thousands of pixels along one axis
fn long(r: &mut Rng, op: &mut Op) {
    op.malform = 0;
    op.color = 0;
    // beyond 65536 now and then, where narrow counters end
    let huge = r.chance(0.1);
    let a = if huge { r.us(60000, 140000) } else { r.logu(400, 20000) as usize };
    let b = match r.below(4) {
        0 => a,
        1 => (a + r.us(0, 6) - 3).max(1),
        2 => (a as f64 * (0.3 + 2.0 * r.f())) as usize,
        _ => (a as f64 / (1.0 + 30.0 * r.f())) as usize,
    }
    .max(1);
    let (a, b) = if r.chance(0.5) { (a, b) } else { (b, a) };
    let most = if huge { 2 } else { 5 };
    let (c, d) = (r.us(1, most), r.us(1, most));
    if r.chance(0.15) {
        // wide from tall, or tall from wide, through a small picture
        (op.sw, op.dw, op.sh, op.dh) = (c, a, b, d);
    } else if r.chance(0.5) {
        (op.sw, op.dw, op.sh, op.dh) = (a, b, c, d);
    } else {
        (op.sh, op.dh, op.sw, op.dw) = (a, b, c, d);
    }
}
fn adaptive(r: &mut Rng, prop: &str) -> Call {
    let mut op = gen_op(r, &Cfg::all());
    big_adaptive(r, &mut op, prop);
    call(op, 0, r)
}
fn sched(r: &mut Rng, total: u64, threads: usize) -> Sched {
    let qmin = (total / 30000).max(4);
    match r.below(20) {
        0..=8 => Sched::Random(r.logu(qmin, 20000.max(qmin * 2))),
        9..=12 => Sched::Pct(r.us(1, 14) as u32, total.max(1000) * 2),
        13..=14 => Sched::Block,
        15..=16 => Sched::RoundRobin(r.logu(qmin, 20000.max(qmin * 2))),
        _ => Sched::Starve(r.logu(qmin, 20000.max(qmin * 2)), r.us(1, threads.max(2)) as u32, total * 4),
    }
}
fn finish(r: &mut Rng, p: &mut Plan) {
    if p.rounds > 1 {
        let f = p.flat();
        let threads: usize = f.iter().map(|c| match c.op.pol {
            Pol::Single => 0,
            Pol::Fixed(n) => n.max(1),
            Pol::Adaptive => p.ncpu.max(1),
        }).sum();
        let cost: u64 = f.iter().map(|c| est(&c.op)).sum();
        let most = (1000 / threads.max(1)).min((8_000_000 / cost.max(1)) as usize).clamp(1, 700);
        p.rounds = if p.alloc_fail > 0 { 1 } else { p.rounds.min(most as u32) };
    }
    let total: u64 = p.flat().iter().map(|c| est(&c.op)).sum();
    let threads: usize = p.clients.len() + 3;
    let total = total * p.rounds as u64;
    p.sched = sched(r, total, threads);
    // half precision is emulated on CPUs without it
    let soft = if p.flat().iter().any(|c| c.op.fmt == Fmt::F16) { 400 } else { 60 };
    // taps per pixel grow with the ratio
    let taps = |o: &Op| (o.sh * o.sw.max(o.dw) + o.dw * o.sh.max(o.dh)) as u64 * o.epp() as u64;
    let taps: u64 = p.flat().iter().map(|c| taps(&c.op)).sum();
    p.max_steps = 60_000_000 + (total + taps * p.rounds as u64) * soft;
}
fn env(r: &mut Rng, p: &mut Plan) {
    p.ncpu = *r.pick(&[0, 1, 2, 3, 4, 4, 8, 8, 16]);
    p.poison = r.next();
    p.heap_guard = r.chance(0.3);
    p.heap_reuse = !p.heap_guard && r.chance(0.5);
    if r.chance(0.25) {
        p.spurious = r.logu(30, 6000) as u32;
    }
}
fn call(op: Op, k: usize, r: &mut Rng) -> Call {
    Call { op, shared: 0, src_of: k, nested: false, place: r.below(16) as u32, src_at: k, dst_at: k }
}
fn cpu_mix(r: &mut Rng, p: &mut Plan, share: f64) {
    if r.chance(share) {
        p.cpu = r.us(1, cpu::MODELS.len() - 1);
    }
}

pub fn plan(prop: &str, seed: u64, i: u64) -> Plan {
    let tag = prop.bytes().fold(0u64, |a, b| a * 257 + b as u64) + ((1 - cfg!(feature = "full") as u64 + !cfg!(feature = "standard") as u64) << 60);
    let mut rr = Rng::new(mix(mix(seed, tag), i));
    let r = &mut rr;
    let mut p = Plan::new(r.next());
    env(r, &mut p);
    match prop {
        "P01" => {
            let mut c = Cfg::all();
            c.color = 0.04;
            if i % 3 != 0 {
                c.max = 64;
            }
            let n = if i % 4 == 0 { r.us(2, 3) } else { 1 };
            let mut v = vec![];
            for k in 0..n {
                let mut op = gen_op(r, &c);
                op.pol = match policy(r) {
                    Pol::Single => Pol::Fixed(2),
                    x => x,
                };
                if i % 50 == 7 {
                    big_adaptive(r, &mut op, prop);
                } else if i % 60 == 11 {
                    long(r, &mut op);
                }
                v.push(call(op, k, r));
            }
            cpu_mix(r, &mut p, 0.3);
            p.clients.push(v);
        }
        "P02" => {
            history(r, &mut p, i, 0.12, 0.04);
            if r.chance(0.1) {
                refuse_memory(r, &mut p);
            }
        }
        "P03" => {
            let mut c = Cfg::all();
            c.pads = 0.6;
            c.color = 0.05;
            c.max = if i % 4 == 0 { 140 } else { 70 };
            let mut op = gen_op(r, &c);
            op.pol = policy(r);
            if i % 60 == 11 {
                long(r, &mut op);
            }
            let mut k = call(op, 0, r);
            k.place = *r.pick(&[0, 0, 1, 4, 5, 5, 2, 8, 10]);
            p.clients.push(vec![k]);
            p.heap_guard = r.chance(0.6);
            p.heap_reuse = !p.heap_guard && r.chance(0.5);
            cpu_mix(r, &mut p, 0.6);
        }
        "P04" => {
            // a history of mostly malformed requests with valid ones between them
            cpu_mix(r, &mut p, 0.3);
            let nc = r.us(1, 3);
            let mut k = 0;
            for _ in 0..nc {
                let mut v = vec![];
                for _ in 0..r.us(1, 4) {
                    let mut c = Cfg::all();
                    c.max = 24;
                    c.color = 0.25;
                    c.malform = 0.65;
                    c.shortcut = 0.15;
                    let mut op = gen_op(r, &c);
                    op.pol = policy(r);
                    if r.chance(0.01) {
                        long(r, &mut op);
                    }
                    v.push(call(op, k, r));
                    k += 1;
                }
                p.clients.push(v);
            }
        }
        "P05" | "P06" | "P07" | "P08" | "P09" | "P11" => {
            let mut c = Cfg::all();
            c.fmts = match prop {
                "P05" => vec![Fmt::U8],
                "P06" => vec![Fmt::U16],
                "P07" => vec![Fmt::F32, Fmt::F16],
                "P08" => vec![Fmt::Ar30, Fmt::Ra30],
                "P09" => vec![Fmt::U8, Fmt::U8, Fmt::U16, Fmt::U16, Fmt::F32, Fmt::F16],
                _ => ALL.to_vec(),
            };
            c.premul = 0.0;
            if prop == "P09" {
                c.ch = &[4];
                c.premul = 0.85;
            }
            if prop == "P11" {
                c.premul = 0.3;
                c.shortcut = 1.0;
                c.pads = 0.6;
            }
            c.max = if i % 5 == 0 { 220 } else { 140 };
            let mut op = gen_op(r, &c);
            op.pol = if r.chance(0.55) { Pol::Single } else { policy(r) };
            if i % 90 == 7 {
                big_adaptive(r, &mut op, prop);
            }
            if i % 45 == 3 {
                long(r, &mut op);
            }
            p.clients.push(vec![call(op, 0, r)]);
            cpu_mix(r, &mut p, 0.5);
        }
        "P10" => {
            let c = Cfg::all();
            let mut op = gen_op(r, &c);
            make_color(r, &mut op);
            op.pol = if r.chance(0.5) { Pol::Single } else { policy(r) };
            p.clients.push(vec![call(op, 0, r)]);
            cpu_mix(r, &mut p, 0.4);
        }
        "P12" => {
            history(r, &mut p, i, 0.03, 0.04);
            threads_everywhere(r, &mut p);
            if i % 200 == 7 {
                p.clients = vec![vec![adaptive(r, prop)]];
                p.user_pool = 0;
            }
            refuse_threads(r, &mut p);
        }
        "P13" => {
            history(r, &mut p, i, 0.03, 0.04);
            if r.chance(0.6) {
                threads_everywhere(r, &mut p);
            }
            refuse_memory(r, &mut p);
            if r.chance(0.12) {
                refuse_threads(r, &mut p);
            }
        }
        "P14" => {
            if i % 60 == 7 {
                p.clients.push(vec![adaptive(r, prop)]);
            } else if i % 4 == 1 {
                // the same requests over and over: nothing may pile up
                let mut c = Cfg::all();
                c.max = 40;
                c.malform = 0.04;
                let ops: Vec<Op> = (0..r.us(1, 2))
                    .map(|_| {
                        let mut o = gen_op(r, &c);
                        o.pol = if r.chance(0.6) { Pol::Single } else { policy(r) };
                        o
                    })
                    .collect();
                let n = r.us(3, 7);
                let mut v: Vec<Call> = vec![];
                for j in 0..n * ops.len() {
                    let mut q = call(ops[j % ops.len()].clone(), j, r);
                    q.src_of = j % ops.len();
                    v.push(q);
                }
                p.clients.push(v);
                p.heap_reuse = false;
            } else {
                history(r, &mut p, i, 0.05, 0.04);
                if r.chance(0.1) {
                    refuse_memory(r, &mut p);
                }
                if r.chance(0.08) {
                    refuse_threads(r, &mut p);
                }
            }
        }
        "P16" => {
            let mut c = Cfg::all();
            c.color = 0.08;
            let mut op = gen_op(r, &c);
            match r.below(3) {
                0 => long(r, &mut op),
                1 => {
                    for x in [&mut op.sw, &mut op.sh, &mut op.dw, &mut op.dh] {
                        *x = r.us(50, 260);
                    }
                }
                _ => {}
            }
            if op.premul {
                // both pictures with varying alpha, or both without
                op.pattern = *r.pick(&[0, 0, 5]);
            }
            op.pol = if r.chance(0.6) { Pol::Single } else { policy(r) };
            p.ncpu = p.ncpu.min(4);
            p.spurious = 0;
            p.clients.push(vec![call(op, 0, r)]);
            cpu_mix(r, &mut p, 0.6);
        }
        _ => {
            let mut c = Cfg::all();
            c.max = if i % 6 == 0 { 140 } else { 72 };
            let mut op = gen_op(r, &c);
            op.pol = if r.chance(0.7) { Pol::Single } else { policy(r) };
            if i / 11 % 60 == 11 {
                long(r, &mut op);
            }
            p.clients.push(vec![call(op, 0, r)]);
            p.cpu = 1 + (i as usize % (cpu::MODELS.len() - 1));
        }
    }
    if !cfg!(feature = "full") {
        // no half precision there
        p.clients.iter_mut().flatten().filter(|c| c.op.fmt == Fmt::F16).for_each(|c| c.op.fmt = Fmt::F32);
    }
    if !cfg!(feature = "standard") {
        p.clients.iter_mut().flatten().for_each(|c| c.op.color = 0);
    }
    finish(r, &mut p);
    p
}
/// one allocation fails, or one and then every n-th
fn refuse_memory(r: &mut Rng, p: &mut Plan) {
    p.alloc_fail = r.geom(6.0) as u32;
    p.alloc_min = *r.pick(&[16, 16, 200, 1024]);
    if r.chance(0.5) {
        p.alloc_every = r.logu(1, 40) as u32;
    }
}
fn refuse_threads(r: &mut Rng, p: &mut Plan) {
    match r.below(4) {
        0 => p.spawn_fail_all = true,
        1 => p.spawn_fail = vec![r.us(1, 3) as u32],
        2 => p.spawn_fail = vec![r.us(1, 12) as u32],
        _ => {
            for _ in 0..r.us(2, 6) {
                p.spawn_fail.push(r.us(1, 16) as u32);
            }
        }
    }
}
fn threads_everywhere(r: &mut Rng, p: &mut Plan) {
    let mut groups: std::collections::BTreeMap<usize, Pol> = Default::default();
    for cl in p.clients.iter_mut() {
        for c in cl.iter_mut() {
            let x = Pol::Fixed(r.us(1, 5));
            c.op.pol = if c.shared > 0 && c.shared < 200 { *groups.entry(c.shared).or_insert(x) } else { x };
        }
    }
}
/// the same request but for one or two things
fn sibling(r: &mut Rng, of: &Op) -> Op {
    let mut op = of.clone();
    op.pol = policy(r);
    for _ in 0..r.us(1, 2) {
        match r.below(11) {
            0 | 1 => op.filter = r.below(49) as u32,
            2 => op.quality = !op.quality,
            3 => op.premul = op.ch == 4 && !op.is30() && !op.premul,
            4 | 5 => {
                op.dseed = r.next();
                op.pattern = pick_pattern(r, false);
            }
            6 => {
                if op.fmt == Fmt::U16 {
                    op.depth = depth(r);
                }
            }
            7 => {
                if !op.is30() {
                    op.ch = r.us(1, 4);
                    op.premul &= op.ch == 4;
                }
            }
            8 => {
                op.spad = r.us(0, 17);
                op.dpad = r.us(0, 17);
            }
            9 => {
                // the other way round, or one more or less
                if r.chance(0.5) {
                    std::mem::swap(&mut op.dw, &mut op.dh);
                } else if r.chance(0.5) {
                    op.dw += 1;
                } else {
                    op.sh = (op.sh - 1).max(1);
                }
            }
            _ => {
                if !op.is30() {
                    op.fmt = *r.pick(&[Fmt::U8, Fmt::U16, Fmt::F32, Fmt::F16]);
                    op.depth = if op.fmt == Fmt::U16 { r.us(8, 16) } else { 8 };
                    if FLOAT_ONLY.contains(&op.pattern) {
                        op.pattern = 0;
                    }
                }
            }
        }
    }
    op
}
/// several clients, shared scalers and sources, nested pools, repeats, refused requests in between
/// a few tiny requests over and over: what wraps, fills up or adds up only after many requests
fn rounds(r: &mut Rng, p: &mut Plan, bad: f64) {
    let mut k = 0;
    for _ in 0..r.us(1, 2) {
        let mut v = vec![];
        let own = r.chance(0.3);
        for _ in 0..r.us(1, 3) {
            let mut c = Cfg::all();
            c.max = 10;
            c.malform = bad;
            let mut op = gen_op(r, &c);
            op.pol = if r.chance(0.5) { Pol::Single } else { policy(r) };
            let mut cl = call(op, k, r);
            if own {
                cl.shared = 255;
            }
            v.push(cl);
            k += 1;
        }
        p.clients.push(v);
    }
    p.rounds = if r.chance(0.3) { 700 } else { r.logu(2, 700) as u32 };
    cpu_mix(r, p, 0.35);
}
fn history(r: &mut Rng, p: &mut Plan, i: u64, bad: f64, color: f64) {
    if i % 60 == 18 {
        return rounds(r, p, bad);
    }
    // now and then many small requests
    let crowd = i % 60 == 42;
    let nc = if crowd { r.us(1, 3) } else { *r.pick(&[1, 2, 2, 2, 3, 3, 4]) };
    cpu_mix(r, p, 0.35);
    let mut c = Cfg::all();
    c.max = if i % 5 == 0 { 64 } else { 36 };
    if crowd {
        c.max = 12;
    }
    c.malform = bad;
    c.color = color;
    // a few scaler values shared by everybody
    let groups: Vec<(u32, Pol, bool)> = (0..2).map(|_| (r.below(49) as u32, policy(r), r.chance(0.5))).collect();
    if r.chance(0.3) {
        p.user_pool = r.us(1, 4);
    }
    let own: Vec<bool> = (0..nc).map(|_| r.chance(0.25)).collect();
    let mut made: Vec<Op> = vec![];
    let mut roots: Vec<usize> = vec![];
    for q in 0..nc {
        let mut v: Vec<Call> = vec![];
        for _ in 0..if crowd { r.us(5, 60 / nc) } else { r.us(1, 4) } {
            let k = made.len();
            let mut op = gen_op(r, &c);
            op.pol = policy(r);
            let mut src_of = k;
            if !made.is_empty() && r.chance(0.35) {
                // somebody's source image again: same geometry and content, maybe another destination
                let j = r.us(0, made.len() - 1);
                if made[j].malform == 0 && made[j].color == 0 {
                    let m = made[j].clone();
                    op.fmt = m.fmt;
                    op.ch = m.ch;
                    op.net = m.net;
                    op.depth = m.depth;
                    op.sw = m.sw;
                    op.sh = m.sh;
                    op.spad = m.spad;
                    op.pattern = m.pattern;
                    op.dseed = m.dseed;
                    op.malform = 0;
                    op.color = 0;
                    op.premul = op.ch == 4 && !op.is30() && r.chance(0.4);
                    op.store_api &= !op.is30();
                    if r.chance(0.4) {
                        // exactly the same request
                        let pol = op.pol;
                        op = m;
                        op.pol = pol;
                    }
                    src_of = roots[j];
                }
            }
            // something close to an earlier request: what was computed for one must not serve the other
            let mut twin = None;
            if src_of == k && !made.is_empty() && r.chance(0.3) {
                let j = r.us(0, made.len() - 1);
                if made[j].malform == 0 && made[j].color == 0 {
                    op = sibling(r, &made[j]);
                    twin = Some(j);
                }
            }
            op.stride0 &= !op.is30();
            let mut cl = call(op, k, r);
            cl.src_of = src_of;
            // the client's own memory again
            let first = k - v.len();
            if !v.is_empty() {
                let near = twin.filter(|j| *j >= first);
                for w in 0..2 {
                    if r.chance(if near.is_some() { 0.7 } else { 0.3 }) {
                        let j = near.unwrap_or_else(|| r.us(0, v.len() - 1) + first) - first;
                        if w == 0 && src_of == k && v[j].src_of == first + j {
                            cl.src_at = v[j].src_at;
                        } else if w == 1 {
                            cl.dst_at = v[j].dst_at;
                        }
                    }
                }
            }
            if own[q] {
                cl.shared = 255;
            } else if r.chance(0.45) {
                let g = r.us(0, groups.len() - 1);
                cl.shared = g + 1;
                cl.op.filter = groups[g].0;
                cl.op.pol = groups[g].1;
                cl.op.quality = groups[g].2;
            }
            if p.user_pool > 0 && r.chance(0.5) {
                cl.nested = true;
            }
            made.push(cl.op.clone());
            roots.push(cl.src_of);
            v.push(cl);
        }
        p.clients.push(v);
    }
}

/// fixed executions that meet the listed known findings
pub fn probes(prop: &str) -> Vec<Plan> {
    let mut v = vec![];
    let mut op = Op::base();
    op.color = 5;
    op.ch = 3;
    op.sw = 12;
    op.sh = 9;
    op.dw = 7;
    op.dh = 11;
    op.filter = 0;
    let mk = |op: Op| {
        let mut p = Plan::new(0xc0105);
        p.clients.push(vec![Call { op, shared: 0, src_of: 0, nested: false, place: 0, src_at: 0, dst_at: 0 }]);
        p.lazy_global = true;
        p
    };
    match prop {
        "P12" => {
            op.pol = Pol::Fixed(2);
            let mut p = mk(op);
            p.spawn_fail_all = true;
            v.push(p);
        }
        "P14" => {
            op.pol = Pol::Single;
            v.push(mk(op));
        }
        _ => {}
    }
    v
}
