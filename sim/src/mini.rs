//! Shrinking a failing execution: fewer requests, fewer faults, simpler requests, fewer context
//! switches; every step is re-run and kept only if the same kind of violation remains.
use crate::oracle::{evaluate, Checks, Fail};
use crate::ops::*;
use crate::plan::*;
use crate::sched::Sched;
use std::time::Instant;

pub struct Mini<'a> {
    pub ck: Checks,
    pub accept: &'a dyn Fn(&Plan, &Fail) -> bool,
    pub class: &'static str,
    pub until: Instant,
    pub tried: u64,
}
impl Mini<'_> {
    fn fails(&mut self, p: &Plan) -> bool {
        if Instant::now() > self.until || p.flat().is_empty() {
            return false;
        }
        self.tried += 1;
        let e = evaluate(p, &self.ck, false);
        e.fails.iter().any(|f| f.class == self.class && (self.accept)(p, f))
    }
    fn attempt(&mut self, p: &mut Plan, q: Plan) -> bool {
        if q != *p && self.fails(&q) {
            *p = q;
            return true;
        }
        false
    }
    pub fn run(&mut self, p0: &Plan) -> Plan {
        let mut p = p0.clone();
        // 1. whole clients, then single requests
        let mut again = true;
        while again {
            again = false;
            let mut c = 0;
            while c < p.clients.len() && p.clients.len() > 1 {
                let q = without(&p, |ci, _| ci == c);
                if self.attempt(&mut p, q) {
                    again = true;
                } else {
                    c += 1;
                }
            }
            let mut c = 0;
            while c < p.clients.len() {
                let mut j = 0;
                while c < p.clients.len() && j < p.clients[c].len() {
                    let q = without(&p, |ci, ji| ci == c && ji == j);
                    if self.attempt(&mut p, q) {
                        again = true;
                    } else {
                        j += 1;
                    }
                }
                c += 1;
            }
        }
        // 2. environment and faults
        let mut q = p.clone();
        q.rounds = 1;
        if !self.attempt(&mut p, q) {
            // the fewest rounds, by bisection
            let (mut bad, mut good) = (p.rounds, 1);
            while bad > good + 1 {
                let mut q = p.clone();
                q.rounds = (bad + good) / 2;
                if self.attempt(&mut p, q) {
                    bad = p.rounds;
                } else {
                    good = (bad + good) / 2;
                }
            }
        }
        let mut q = p.clone();
        q.spurious = 0;
        self.attempt(&mut p, q);
        if p.spawn_fail_all || !p.spawn_fail.is_empty() {
            let mut q = p.clone();
            q.spawn_fail.clear();
            q.spawn_fail_all = false;
            self.attempt(&mut p, q);
            let mut i = 0;
            while i < p.spawn_fail.len() {
                let mut q = p.clone();
                q.spawn_fail.remove(i);
                if !self.attempt(&mut p, q) {
                    i += 1;
                }
            }
        }
        let mut q = p.clone();
        q.alloc_every = 0;
        self.attempt(&mut p, q);
        let mut q = p.clone();
        q.alloc_fail = 0;
        self.attempt(&mut p, q);
        let mut q = p.clone();
        q.heap_guard = false;
        q.heap_reuse = false;
        self.attempt(&mut p, q);
        let mut q = p.clone();
        q.user_pool = 0;
        for c in q.clients.iter_mut().flatten() {
            c.nested = false;
        }
        self.attempt(&mut p, q);
        for k in 0..p.flat().len() {
            let mut q = p.clone();
            edit(&mut q, k, &|c: &mut Call| c.src_at = k);
            self.attempt(&mut p, q);
            let mut q = p.clone();
            edit(&mut q, k, &|c: &mut Call| c.dst_at = k);
            self.attempt(&mut p, q);
        }
        let mut q = p.clone();
        q.cpu = 0;
        self.attempt(&mut p, q);
        let mut q = p.clone();
        q.ncpu = 4;
        self.attempt(&mut p, q);
        let mut q = p.clone();
        q.poison = 0;
        self.attempt(&mut p, q);
        // 3. schedule: does it matter at all?
        let mut q = p.clone();
        q.sched = Sched::Block;
        self.attempt(&mut p, q);
        // 4. the requests themselves
        let n = p.flat().len();
        for _ in 0..3 {
            let before = p.clone();
            for k in 0..n {
                for f in SIMPLER {
                    let mut q = p.clone();
                    edit(&mut q, k, &|c: &mut Call| f(c));
                    self.attempt(&mut p, q);
                }
                for d in 0..4 {
                    // halve, then decrement a dimension
                    for step in [2usize, 0] {
                        loop {
                            let mut q = p.clone();
                            edit(&mut q, k, &|c: &mut Call| {
                                let o = &mut c.op;
                                let x = match d {
                                    0 => &mut o.sw,
                                    1 => &mut o.sh,
                                    2 => &mut o.dw,
                                    _ => &mut o.dh,
                                };
                                *x = if step == 2 { (*x / 2).max(1) } else { (*x - 1).max(1) };
                            });
                            if !self.attempt(&mut p, q) {
                                break;
                            }
                        }
                    }
                }
            }
            if p == before || Instant::now() > self.until {
                break;
            }
        }
        // 5. the schedule as an explicit list of deviations from run-to-block
        if p.sched != Sched::Block && p.sched != Sched::Replay {
            let e = evaluate(&p, &self.ck, true);
            let mut q = p.clone();
            q.overrides = e.rec.clone();
            q.sched = Sched::Replay;
            if e.rec.len() < 200_000 && self.fails(&q) {
                p = q;
                self.ddmin(&mut p);
            }
        }
        p
    }
    fn ddmin(&mut self, p: &mut Plan) {
        let mut n = 2;
        while !p.overrides.is_empty() {
            let len = p.overrides.len();
            let size = (len + n - 1) / n;
            let mut any = false;
            let mut i = 0;
            while i < p.overrides.len() {
                let mut q = p.clone();
                let e = (i + size).min(q.overrides.len());
                q.overrides.drain(i..e);
                if self.attempt(p, q) {
                    any = true;
                } else {
                    i += size;
                }
                if Instant::now() > self.until {
                    return;
                }
            }
            if !any {
                if size <= 1 {
                    return;
                }
                n = (n * 2).min(len);
            } else {
                n = n.max(2) - 1;
                n = n.max(2);
            }
        }
    }
}
/// Apply an edit to request k and, where the source image is shared, keep all users consistent.
fn edit(p: &mut Plan, k: usize, f: &dyn Fn(&mut Call)) {
    let mut i = 0;
    let mut src = None;
    let root = p.flat()[k].src_of;
    for c in p.clients.iter_mut().flatten() {
        if i == k {
            f(c);
            src = Some(c.op.clone());
        }
        i += 1;
    }
    if let Some(s) = src {
        for c in p.clients.iter_mut().flatten() {
            if c.src_of == root {
                c.op.sw = s.sw;
                c.op.sh = s.sh;
                c.op.spad = s.spad;
                c.op.pattern = s.pattern;
                c.op.dseed = s.dseed;
            }
            // scalers shared by group keep their settings
        }
    }
}
const SIMPLER: [fn(&mut Call); 13] = [
    |c| c.shared = 0,
    |c| c.op.store_api = false,
    |c| c.op.api = 0,
    |c| c.op.premul = false,
    |c| c.op.spad = 0,
    |c| c.op.dpad = 0,
    |c| c.op.stride0 = false,
    |c| c.op.pattern = 1,
    |c| c.op.pattern = 0,
    |c| c.op.quality = false,
    |c| {
        if c.shared == 0 {
            c.op.pol = Pol::Single
        }
    },
    |c| {
        if c.shared == 0 && c.op.pol != Pol::Single {
            c.op.pol = Pol::Fixed(2)
        }
    },
    |c| c.place = 2 | 2 << 2,
];
/// The plan without the requests selected by `drop`.
fn without(p: &Plan, drop: impl Fn(usize, usize) -> bool) -> Plan {
    let mut q = p.clone();
    let mut map: Vec<Option<usize>> = vec![];
    let mut n = 0;
    for (ci, c) in p.clients.iter().enumerate() {
        for (ji, _) in c.iter().enumerate() {
            if drop(ci, ji) {
                map.push(None);
            } else {
                map.push(Some(n));
                n += 1;
            }
        }
    }
    // a source whose owner goes away passes to its first remaining user
    let mut heir: std::collections::BTreeMap<usize, usize> = Default::default();
    let mut sheir = heir.clone();
    let mut dheir = heir.clone();
    let mut clients = vec![];
    let mut old = 0;
    for c in &q.clients {
        let mut v = vec![];
        for call in c {
            if let Some(me) = map[old] {
                let mut x = call.clone();
                x.src_of = match map[call.src_of] {
                    Some(r) => r,
                    None => *heir.entry(call.src_of).or_insert(me),
                };
                x.src_at = match map[call.src_at.min(old)] {
                    Some(r) => r,
                    None => *sheir.entry(call.src_at).or_insert(me),
                };
                x.dst_at = match map[call.dst_at.min(old)] {
                    Some(r) => r,
                    None => *dheir.entry(call.dst_at).or_insert(me),
                };
                v.push(x);
            }
            old += 1;
        }
        if !v.is_empty() {
            clients.push(v);
        }
    }
    q.clients = clients;
    q
}
