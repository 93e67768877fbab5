//! Searching, reporting, replaying.
use crate::cpu;
use crate::gen;
use crate::isa;
use crate::mini::Mini;
use crate::ops::*;
use crate::oracle::{self, Checks, Eval, Fail};
use crate::plan::Plan;
use crate::rng::mix;
use crate::run;
use crate::sched::{self, Sched};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Conf {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub evidence: Option<String>,
    pub replays: String,
    pub known: Option<String>,
    pub runs: Option<u64>,
    pub secs: Option<u64>,
    pub workers: usize,
    pub shrink: u64,
    /// evidence file of a run of the other build, to be extended
    pub into: Option<String>,
    /// divides the number of runs
    pub share: u64,
}
/// the features pic-scale was built with
pub const BUILD: &str = if cfg!(feature = "full") {
    "nightly features"
} else if cfg!(feature = "standard") {
    "default features"
} else {
    "no features"
};

// ---------------------------------------------------------------- known findings
#[derive(Clone, Debug)]
pub struct Known {
    class: String,
    color: bool,
    contains: String,
    pub text: String,
}
pub fn known(path: &Option<String>, prop: &str) -> Vec<Known> {
    let mut v = vec![];
    let Some(p) = path else { return v };
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        let Some(l) = l.strip_prefix("open: ") else { continue };
        let Some((spec, text)) = l.split_once(" -- ") else { continue };
        let get = |k: &str| -> Option<String> {
            let q = format!("{k}=\"");
            if let Some(i) = spec.find(&q) {
                return spec[i + q.len()..].split('"').next().map(|s| s.to_string());
            }
            let q = format!("{k}=");
            spec.find(&q).map(|i| spec[i + q.len()..].split(' ').next().unwrap_or("").to_string())
        };
        if get("property").as_deref() != Some(prop) {
            continue;
        }
        v.push(Known {
            class: get("class").unwrap_or_default(),
            color: get("color").as_deref() == Some("yes"),
            contains: get("contains").unwrap_or_default(),
            text: text.to_string(),
        });
    }
    v
}
impl Known {
    fn covers(&self, p: &Plan, f: &Fail) -> bool {
        let c = f.k >= 0 && p.flat().get(f.k as usize).map(|c| c.op.color != 0).unwrap_or(false);
        f.class == self.class && (!self.color || c) && (!self.contains.is_empty() && f.detail.contains(&self.contains))
    }
}

// ---------------------------------------------------------------- statistics
const KEYS: [&str; 37] = [
    "runs", "requests", "requests_in_later_rounds", "requests_ok", "requests_refused", "requests_unwound", "steps", "reference_steps", "sim_ns",
    "switches", "preemptions", "futex_waits", "futex_wakes", "yields", "worker_threads", "fault_spawn_refused",
    "fault_runs_with_refused_spawn", "fault_spurious_wakeups", "fault_alloc_failed", "fault_runs_starved",
    "fault_malformed_requests", "fault_heap_guarded_runs", "fault_heap_stale_runs", "fault_poisoned_runs",
    "components_compared_with_reference_run", "components_compared_with_model", "components_undecided",
    "multithreaded_runs", "runs_with_overlapping_requests", "nested_in_user_pool", "shared_source_requests", "rewritten_source_buffers", "reused_destination_buffers",
    "shared_scaler_requests", "reused_scaler_requests", "repeated_for_determinism", "buffers_at_page_edge",
];
struct Stats {
    n: BTreeMap<&'static str, u64>,
    hist: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    cov: Vec<u8>,
    worst: f64,
    max_threads: u64,
    max_ratio: f64,
    stack: u64,
}
impl Stats {
    fn new() -> Stats {
        Stats { n: KEYS.iter().map(|k| (*k, 0)).collect(), hist: Default::default(), hashes: vec![], cov: vec![0; sched::guards() + 1], worst: 0., max_threads: 0, max_ratio: 0., stack: 0 }
    }
    fn add(&mut self, k: &'static str, v: u64) {
        *self.n.get_mut(k).unwrap() += v;
    }
    fn h(&mut self, k: String) {
        *self.hist.entry(k).or_insert(0) += 1;
    }
    fn count(&mut self, p: &Plan, e: &Eval) {
        let o = &e.out;
        let flat = p.flat();
        let fc = flat.len().min(64);
        self.add("runs", 1);
        self.add("requests", fc as u64);
        self.add("requests_in_later_rounds", fc as u64 * (p.rounds.max(1) as u64 - 1));
        let mut good = false;
        for k in 0..fc {
            match o.op_status[k] {
                ST_OK => {
                    good = true;
                    self.add("requests_ok", 1)
                }
                ST_PANIC => self.add("requests_unwound", 1),
                ST_NOTRUN => {}
                _ => self.add("requests_refused", 1),
            }
            let c = flat[k];
            if c.op.malform != 0 {
                self.add("fault_malformed_requests", 1);
                self.h(format!("malformed/{}", MALFORMS[c.op.malform]));
            }
            self.h(format!("format/{}x{}", FMTS.iter().find(|x| x.0 == c.op.fmt).unwrap().1, c.op.epp()));
            if c.op.color != 0 {
                self.h(format!("colour/{}", COLORS[c.op.color]));
            }
            self.h(format!("policy/{}", match c.op.pol {
                Pol::Single => "single".into(),
                Pol::Adaptive => "adaptive".into(),
                Pol::Fixed(n) => format!("fixed-{}", if n > 4 { "many".into() } else { n.to_string() }),
            }));
            self.h(format!("filter/{:?}", pic_scale::ResamplingFunction::from(c.op.filter)));
            if c.nested {
                self.add("nested_in_user_pool", 1);
            }
            if c.src_of != k {
                self.add("shared_source_requests", 1);
            }
            if p.memory(k, 0) != k {
                self.add("rewritten_source_buffers", 1);
            }
            if p.memory(k, 1) != k {
                self.add("reused_destination_buffers", 1);
            }
            if c.shared == 255 {
                self.add("reused_scaler_requests", 1);
            } else if c.shared > 0 {
                self.add("shared_scaler_requests", 1);
            }
            if c.place & 3 < 2 {
                self.add("buffers_at_page_edge", 1);
            }
            if c.place >> 2 & 3 < 2 {
                self.add("buffers_at_page_edge", 1);
            }
        }
        self.add("steps", o.steps);
        self.add("reference_steps", e.solo_steps);
        self.add("sim_ns", o.clock);
        self.add("switches", o.switches);
        self.add("preemptions", o.preempts);
        self.add("futex_waits", o.futex_waits);
        self.add("futex_wakes", o.futex_wakes);
        self.add("yields", o.yields);
        self.add("worker_threads", o.spawns as u64);
        self.add("fault_spawn_refused", o.spawn_failed as u64);
        self.add("fault_runs_with_refused_spawn", (o.spawn_failed > 0) as u64);
        self.add("fault_spurious_wakeups", o.spurious as u64);
        self.add("fault_alloc_failed", o.alloc_failed as u64);
        self.add("fault_runs_starved", (o.starved > 0) as u64);
        self.add("fault_heap_guarded_runs", p.heap_guard as u64);
        self.add("fault_heap_stale_runs", p.heap_reuse as u64);
        self.add("fault_poisoned_runs", (p.poison % 4 != 0) as u64);
        self.add("components_compared_with_reference_run", e.compared);
        self.add("components_compared_with_model", e.modelled);
        self.add("components_undecided", e.skipped);
        self.add("multithreaded_runs", (o.nthreads > 1 && o.switches > 1) as u64);
        let over = (0..fc).any(|a| (0..fc).any(|b| a != b && o.op_begin[a] != 0 && o.op_begin[b] > o.op_begin[a] && o.op_begin[b] < o.op_end[a]));
        self.add("runs_with_overlapping_requests", over as u64);
        self.h(format!("cpu/{}", cpu::MODELS[p.cpu].0));
        self.h(format!("scheduler/{}", match p.sched {
            Sched::Random(_) => "random",
            Sched::Pct(..) => "pct",
            Sched::Block => "run-to-block",
            Sched::RoundRobin(_) => "round-robin",
            Sched::Starve(..) => "starve",
            Sched::Replay => "replay",
        }));
        self.h(format!("ncpu/{}", p.ncpu));
        self.worst = self.worst.max(e.worst);
        self.max_threads = self.max_threads.max(o.nthreads as u64);
        if e.solo_steps > 0 {
            self.max_ratio = self.max_ratio.max(o.steps as f64 / e.solo_steps as f64);
        }
        self.stack = self.stack.max(e.stack);
        let judged = good || o.op_status[..fc].iter().any(|s| *s > 0);
        if judged {
            let mut h = o.hash;
            for c in &flat {
                h = mix(h, c.op.dseed ^ (c.op.sw * 7919 + c.op.dw * 31 + c.op.sh * 131071 + c.op.dh) as u64);
            }
            self.hashes.push(h);
        }
        let cov = run::cov();
        for i in 0..self.cov.len() {
            self.cov[i] |= cov[i];
        }
    }
    fn json(&self) -> Value {
        let cov: Vec<usize> = (0..self.cov.len()).filter(|i| self.cov[*i] != 0).collect();
        json!({"n": self.n, "hist": self.hist, "hashes": self.hashes, "cov": cov, "worst": self.worst, "max_threads": self.max_threads, "max_ratio": self.max_ratio, "stack": self.stack})
    }
    fn merge(&mut self, v: &Value) {
        for k in KEYS {
            self.add(k, v["n"][k].as_u64().unwrap_or(0));
        }
        for (k, x) in v["hist"].as_object().into_iter().flatten() {
            *self.hist.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
        }
        for x in v["hashes"].as_array().into_iter().flatten() {
            self.hashes.push(x.as_u64().unwrap_or(0));
        }
        for x in v["cov"].as_array().into_iter().flatten() {
            self.cov[x.as_u64().unwrap_or(0) as usize] = 1;
        }
        self.worst = self.worst.max(v["worst"].as_f64().unwrap_or(0.));
        self.max_ratio = self.max_ratio.max(v["max_ratio"].as_f64().unwrap_or(0.));
        self.stack = self.stack.max(v["stack"].as_u64().unwrap_or(0));
        self.max_threads = self.max_threads.max(v["max_threads"].as_u64().unwrap_or(0));
    }
}

// ---------------------------------------------------------------- workers
fn pin(w: usize) {
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&have), &mut have as *mut _ as *mut _) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &have)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[w % cpus.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}
fn shared_u64s(n: usize) -> &'static [AtomicU64] {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        std::slice::from_raw_parts(p as *const AtomicU64, n)
    }
}
/// run `work` in `n` forked processes, collecting what each writes
fn fan(n: usize, work: &dyn Fn(usize) -> Value) -> Vec<Option<Value>> {
    let mut kids = vec![];
    for w in 0..n {
        unsafe {
            let mut fd = [0; 2];
            if libc::pipe(fd.as_mut_ptr()) != 0 {
                continue;
            }
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fd[0]);
                pin(w);
                run::init();
                let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| work(w)));
                use std::os::fd::FromRawFd;
                let mut f = std::fs::File::from_raw_fd(fd[1]);
                if let Ok(v) = v {
                    let _ = f.write_all(v.to_string().as_bytes());
                }
                drop(f);
                libc::_exit(0);
            }
            libc::close(fd[1]);
            kids.push((pid, fd[0]));
        }
    }
    let mut out = vec![];
    for (pid, fd) in kids {
        use std::os::fd::FromRawFd;
        let mut s = String::new();
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let _ = f.read_to_string(&mut s);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        out.push(serde_json::from_str(&s).ok());
    }
    out
}
fn fail_json(i: u64, f: &Fail) -> Value {
    json!({"i": i, "class": f.class, "k": f.k, "detail": f.detail})
}
fn load_isa(ck: &Checks) -> bool {
    if ck.cost {
        unsafe { run::STACKS_TOO = true };
        return isa::idle_is_no_work();
    }
    if ck.isa {
        unsafe { oracle::ISA = isa::load() };
        return unsafe { oracle::ISA.is_some() };
    }
    true
}

pub fn check(c: &Conf) -> i32 {
    let t0 = Instant::now();
    let prop = c.prop.as_str();
    if !gen::PROPS.contains(&prop) {
        eprintln!("unknown property {prop}");
        return 3;
    }
    let ck = gen::checks(prop);
    if !load_isa(&ck) {
        eprintln!("pssim: objdump or nm gave nothing useful");
        return 3;
    }
    let known = known(&c.known, prop);
    let runs = c.runs.unwrap_or(if c.thorough { u64::MAX / 2 } else { gen::budget(prop) / c.share.max(1) });
    let wall = Duration::from_secs(c.secs.unwrap_or(if c.thorough { 1500 } else { 75 }));
    println!("property {prop} ({BUILD}) seed {} workers {} runs {}", c.seed, c.workers, if c.thorough { "until the time is up".to_string() } else { runs.to_string() });
    // deterministic probes of the listed findings
    let probes = fan(1, &|_| {
        let mut hit = vec![];
        let probes = if c.into.is_some() { vec![] } else { gen::probes(prop) };
        for p in probes {
            let e = oracle::evaluate(&p, &ck, false);
            for f in &e.fails {
                match known.iter().position(|k| k.covers(&p, f)) {
                    Some(i) => hit.push(json!({"known": i, "detail": f.detail})),
                    None => hit.push(json!({"plan": p.json(), "class": f.class, "k": f.k, "detail": f.detail})),
                }
            }
        }
        json!(hit)
    });
    let mut seen = HashSet::new();
    let mut probe_bad = None;
    for h in probes.iter().flatten().flat_map(|v| v.as_array().cloned().unwrap_or_default()) {
        match h["known"].as_u64() {
            Some(i) => {
                seen.insert(i as usize);
            }
            None => {
                if probe_bad.is_none() {
                    probe_bad = Some(h.clone());
                }
            }
        }
    }
    let first = shared_u64s(2);
    first[0].store(u64::MAX, Ordering::SeqCst);
    let until = t0 + wall;
    let nw = c.workers as u64;
    let parts = fan(c.workers, &|w| {
        let mut st = Stats::new();
        let mut fails = vec![];
        let mut trouble: Vec<String> = vec![];
        let mut kn: BTreeMap<usize, (u64, String)> = Default::default();
        let mut samples = vec![];
        let mut i = w as u64;
        let mut more = 0;
        while i < runs && Instant::now() < until {
            let worst = first[0].load(Ordering::SeqCst);
            if i > worst {
                break;
            }
            let p = gen::plan(prop, c.seed, i);
            let e = oracle::evaluate(&p, &ck, false);
            st.count(&p, &e);
            if oracle::harness_trouble(&e) {
                trouble.push(format!("run {i}: {:?}", e.fails.iter().find(|f| f.class == "harness")));
                more += 1;
                if more > 5 {
                    break;
                }
            }
            let mut bad = false;
            for f in &e.fails {
                if f.class == "harness" {
                    continue;
                }
                if let Some(k) = known.iter().position(|k| k.covers(&p, f)) {
                    let x = kn.entry(k).or_insert((0, f.detail.clone()));
                    x.0 += 1;
                    continue;
                }
                if fails.len() < 20 {
                    fails.push(fail_json(i, f));
                }
                bad = true;
            }
            if bad {
                first[0].fetch_min(i, Ordering::SeqCst);
                break;
            }
            if i % 61 == 7 {
                let e2 = oracle::evaluate(&p, &ck, false);
                st.add("repeated_for_determinism", 1);
                if e2.digest != e.digest || e2.fails.len() != e.fails.len() {
                    trouble.push(format!("run {i} did not repeat: {:x} {:x}", e.digest, e2.digest));
                }
            }
            if w == 0 && samples.len() < 3 && e.out.nthreads > 1 {
                samples.push(json!({"run": i, "plan": p.json(), "steps": e.out.steps, "switches": e.out.switches, "schedule_hash": format!("{:x}", e.out.hash), "answers": e.out.op_status[..p.flat().len().min(64)].to_vec()}));
            }
            i += nw;
        }
        json!({"st": st.json(), "fails": fails, "trouble": trouble, "samples": samples,
            "known": kn.iter().map(|(k, x)| json!({"known": k, "n": x.0, "detail": x.1})).collect::<Vec<_>>()})
    });
    let mut st = Stats::new();
    let mut fails: Vec<Value> = vec![];
    let mut trouble: Vec<String> = vec![];
    let mut samples = vec![];
    let mut known_hits = BTreeMap::new();
    for p in &parts {
        match p {
            None => trouble.push("a worker process died".into()),
            Some(v) => {
                st.merge(&v["st"]);
                fails.extend(v["fails"].as_array().cloned().unwrap_or_default());
                trouble.extend(v["trouble"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("").to_string()));
                samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
                for k in v["known"].as_array().into_iter().flatten() {
                    let i = k["known"].as_u64().unwrap_or(0) as usize;
                    seen.insert(i);
                    *known_hits.entry(i).or_insert(0) += k["n"].as_u64().unwrap_or(0);
                }
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut sk: Vec<usize> = seen.iter().cloned().collect();
    sk.sort();
    for i in sk.into_iter().filter(|_| c.into.is_none()) {
        println!("KNOWN-FINDING: property={prop} {}", known[i].text);
    }
    // --- the first violation, minimised
    let mut violation = None;
    fails.sort_by_key(|f| f["i"].as_u64());
    let found: Option<(Plan, Fail, i64)> = if let Some(f) = fails.first() {
        let i = f["i"].as_u64().unwrap();
        Some((gen::plan(prop, c.seed, i), to_fail(f), i as i64))
    } else {
        probe_bad.map(|h| (Plan::from_json(&h["plan"]).unwrap(), to_fail(&h), -1))
    };
    if let Some((p, f, i)) = found {
        println!("run {i}: {} {}", f.class, f.detail);
        let t1 = Instant::now();
        let class = f.class;
        let known2 = known.clone();
        let (ck2, shrink) = (ck, c.shrink);
        let r = fan(1, &|_| {
            let accept = |p: &Plan, f: &Fail| !known2.iter().any(|k| k.covers(p, f));
            let mut m = Mini { ck: ck2, accept: &accept, class, until: Instant::now() + Duration::from_secs(shrink), tried: 0 };
            let q = m.run(&p);
            let e = oracle::evaluate(&q, &ck2, false);
            let d = e.fails.iter().find(|f| f.class == class && accept(&q, f)).map(|f| f.detail.clone());
            json!({"plan": q.json(), "detail": d, "tried": m.tried, "digest": e.digest.to_string(), "steps": e.out.steps, "switches": e.out.switches})
        });
        let (mut q, mut detail, mut extra) = (p.clone(), f.detail.clone(), json!({}));
        if let Some(Some(v)) = r.first() {
            if let (Some(x), Some(d)) = (Plan::from_json(&v["plan"]), v["detail"].as_str()) {
                q = x;
                detail = d.to_string();
                extra = v.clone();
            }
        }
        let _ = std::fs::create_dir_all(&c.replays);
        let path = format!("{}/{}-seed{}-run{}-{}{}.json", c.replays, prop, c.seed, i, class, ["", "-default", "-bare"][1 - cfg!(feature = "full") as usize + !cfg!(feature = "standard") as usize]);
        let v = json!({
            "property": prop, "build": BUILD, "seed": c.seed, "run": i, "class": class, "violation": detail, "found_as": f.detail,
            "minimiser_executions": extra["tried"], "minimise_s": t1.elapsed().as_secs_f64(), "digest": extra["digest"],
            "steps": extra["steps"], "switches": extra["switches"],
            "context_switches_forced": q.overrides.len(), "probe": i < 0,
            "plan": q.json(), "found_plan": p.json(),
        });
        if std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).is_err() {
            eprintln!("cannot write {path}");
        }
        // the file must reproduce it in a fresh process
        let again = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &path]).output();
        let ok = again.map(|o| o.status.code() == Some(1)).unwrap_or(false);
        println!("minimised to: {detail}");
        println!("replay in a fresh process: {}", if ok { "same violation" } else { "NOT reproduced" });
        violation = Some((path, ok));
    }
    if let Some(e) = &c.into {
        extend(e, &st, search_s, violation.is_some());
    } else if let Some(e) = &c.evidence {
        evidence(c, e, &st, search_s, t0.elapsed().as_secs_f64(), violation.is_some(), samples, &trouble, &known_hits);
    }
    let n = |k: &str| st.n[k];
    println!(
        "{} runs, {} requests, {} steps, {} switches, {} threads, {} distinct executions, {:.1}s; spawn refused {}, spurious {}, alloc failed {}, worst error {:.3}",
        n("runs"), n("requests"), n("steps"), n("switches"), n("worker_threads"),
        st.hashes.iter().collect::<HashSet<_>>().len(), search_s,
        n("fault_spawn_refused"), n("fault_spurious_wakeups"), n("fault_alloc_failed"), st.worst
    );
    if let Some((path, _)) = violation {
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    if !trouble.is_empty() {
        for t in trouble.iter().take(5) {
            eprintln!("harness trouble: {t}");
        }
        return 3;
    }
    println!("held on everything explored");
    0
}
const CLASSES: [&str; 24] = [
    "hang", "abort", "fault", "deadlock", "steps", "threads", "exit", "heap", "outside", "touched", "padding", "status",
    "panic", "accepted", "refused", "store", "leftover", "leak", "accuracy", "mismatch", "isa", "work", "memory", "stack",
];
fn to_fail(v: &Value) -> Fail {
    let c = v["class"].as_str().unwrap_or("");
    Fail {
        class: CLASSES.iter().find(|x| **x == c).copied().unwrap_or("other"),
        k: v["k"].as_i64().unwrap_or(-1),
        detail: v["detail"].as_str().unwrap_or("").to_string(),
    }
}

/// add what this build explored to the evidence of the other
fn extend(path: &str, st: &Stats, search_s: f64, bad: bool) {
    let Some(mut v) = std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) else {
        eprintln!("cannot extend {path}");
        return;
    };
    let n = |k: &str| st.n[k];
    let distinct = st.hashes.iter().collect::<HashSet<_>>().len() as u64;
    let add = |x: &mut Value, d: u64| *x = json!(x.as_u64().unwrap_or(0) + d);
    add(&mut v["violations"], bad as u64);
    add(&mut v["coverage"]["evaluations"], n("runs"));
    add(&mut v["coverage"]["distinct_nontrivial"], distinct);
    v["wall_s"] = json!(v["wall_s"].as_f64().unwrap_or(0.) + search_s);
    v["coverage"][format!("of_these_in_the_build_with_{}", BUILD.replace(" ", "_"))] = json!({
        "evaluations": n("runs"), "distinct_nontrivial": distinct,
        "simulated_runs_per_hour": (n("runs") as f64 / search_s * 3600.0) as u64,
        "simulated_time": format!("{:.3} s", n("sim_ns") as f64 * 1e-9),
        "faults_injected": st.n.iter().filter(|(k, _)| k.starts_with("fault_")).map(|(k, v)| (&k[6..], *v)).collect::<BTreeMap<_, _>>(),
        "formats": st.hist.iter().filter_map(|(k, v)| k.strip_prefix("format/").map(|x| (x.to_string(), *v))).collect::<BTreeMap<_, _>>(),
        "cpu_models": st.hist.iter().filter_map(|(k, v)| k.strip_prefix("cpu/").map(|x| (x.to_string(), *v))).collect::<BTreeMap<_, _>>(),
        "worst_error_as_share_of_allowance": st.worst,
    });
    if std::fs::write(path, serde_json::to_string_pretty(&v).unwrap()).is_err() {
        eprintln!("cannot write {path}");
    }
}
#[allow(clippy::too_many_arguments)]
fn evidence(c: &Conf, path: &str, st: &Stats, search_s: f64, wall: f64, bad: bool, samples: Vec<Value>, trouble: &[String], known: &BTreeMap<usize, u64>) {
    let n = |k: &str| st.n[k];
    let distinct = st.hashes.iter().collect::<HashSet<_>>().len();
    let hist = |pre: &str| -> Value {
        json!(st.hist.iter().filter_map(|(k, v)| k.strip_prefix(pre).map(|x| (x.to_string(), *v))).collect::<BTreeMap<_, _>>())
    };
    let faults: BTreeMap<&str, u64> = st.n.iter().filter(|(k, _)| k.starts_with("fault_")).map(|(k, v)| (&k[6..], *v)).collect();
    let counts: BTreeMap<&str, u64> = st.n.iter().filter(|(k, _)| !k.starts_with("fault_") && **k != "runs").map(|(k, v)| (*k, *v)).collect();
    let v = json!({
        "property": c.prop, "tier": if c.thorough { "thorough" } else { "quick" }, "seed": c.seed, "level": "exploration",
        "wall_s": wall, "violations": bad as u64,
        "coverage": {
            "evaluations": n("runs"),
            "distinct_nontrivial": distinct,
            "rule": "One evaluation is one simulated execution: the clients, requests, images, CPU model, CPU count, scheduler, faults and memory contents all follow from (property, seed, run number). It is non-trivial if at least one request got as far as an answer that was judged; distinct executions differ in the hash of their context-switch sequence (step, thread) together with the requests' data and sizes.",
            "samples": samples.into_iter().take(3).collect::<Vec<_>>(),
            "simulated_runs_per_hour": (n("runs") as f64 / search_s * 3600.0) as u64,
            "seeds_per_hour": (n("runs") as f64 / search_s * 3600.0) as u64,
            "simulated_time": format!("{:.3} s (1 step = 1 ns of simulated time, plus clock jumps to the next deadline)", n("sim_ns") as f64 * 1e-9),
            "faults_injected": faults,
            "counts": counts,
            "scheduler": hist("scheduler/"), "cpu_models": hist("cpu/"), "reported_cpus": hist("ncpu/"),
            "formats": hist("format/"), "colour_scalers": hist("colour/"), "policies": hist("policy/"), "filters": hist("filter/"),
            "malformed": hist("malformed/"),
            "basic_blocks_reached": st.cov.iter().filter(|x| **x != 0).count(),
            "basic_blocks_instrumented": sched::guards(),
            "worst_error_as_share_of_allowance": st.worst,
            "largest_steps_ratio_to_single_threaded_run": st.max_ratio,
            "deepest_stack_bytes": st.stack,
            "largest_number_of_threads": st.max_threads,
            "cpu_models_not_fully_available_on_this_machine": (1..cpu::MODELS.len()).filter(|m| !cpu::faithful(*m)).map(|m| cpu::MODELS[m].0).collect::<Vec<_>>(),
            "known_findings_met": known.values().sum::<u64>(),
            "harness_trouble": trouble,
            "real_code": ["pic-scale (all of it, instrumented)", "rayon and rayon-core", "crossbeam deque/epoch/utils", "colorutils-rs", "std's thread, sync and feature-detection code"],
            "simulated": ["thread scheduling, thread creation and joining, futexes, sched_yield", "number of CPUs, CPU features", "clock, sleeping, randomness", "heap", "caller threads and the caller's own thread pool"],
            "stubbed": []
        },
        "assumptions": [
            "Threads are interleaved at basic-block granularity under sequential consistency; weak-memory reorderings are not simulated.",
            "Only the x86-64 code paths can run here; NEON and wasm code is not built.",
            "A clean batch is evidence, not proof."
        ]
    });
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if std::fs::write(path, serde_json::to_string_pretty(&v).unwrap()).is_err() {
        eprintln!("cannot write {path}");
    }
}

pub fn replay(path: &str, verbose: bool) -> i32 {
    let Some(v) = std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) else {
        eprintln!("cannot read {path}");
        return 3;
    };
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let Some(p) = Plan::from_json(&v["plan"]) else {
        eprintln!("{path} holds no plan");
        return 3;
    };
    if v["build"].as_str().unwrap_or("nightly features") != BUILD {
        eprintln!("{path} was recorded with pic-scale's {}", v["build"]);
        return 3;
    }
    let ck = gen::checks(&prop);
    if !load_isa(&ck) {
        return 3;
    }
    let class = v["class"].as_str().unwrap_or("").to_string();
    let digest = v["digest"].as_str().unwrap_or("").to_string();
    let r = fan(1, &|_| {
        let e = oracle::evaluate(&p, &ck, false);
        json!({"fails": e.fails.iter().map(|f| fail_json(0, f)).collect::<Vec<_>>(), "digest": e.digest.to_string(), "steps": e.out.steps, "switches": e.out.switches})
    });
    let Some(Some(r)) = r.first() else { return 3 };
    let fs = r["fails"].as_array().cloned().unwrap_or_default();
    if verbose {
        println!("{}", serde_json::to_string_pretty(&p.json()).unwrap());
    }
    println!("steps {} switches {} digest {} (recorded {})", r["steps"], r["switches"], r["digest"].as_str().unwrap_or(""), digest);
    for f in &fs {
        println!("{}: {}", f["class"].as_str().unwrap_or(""), f["detail"].as_str().unwrap_or(""));
    }
    if fs.iter().any(|f| f["class"] == class.as_str()) {
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    println!("not reproduced");
    0
}
/// digests of many runs, for comparing processes and worker counts
pub fn digests(prop: &str, seed: u64, runs: u64, workers: usize) -> i32 {
    let ck = gen::checks(prop);
    load_isa(&ck);
    let parts = fan(workers, &|w| {
        let mut m = vec![];
        let mut i = w as u64;
        while i < runs {
            let p = gen::plan(prop, seed, i);
            let e = oracle::evaluate(&p, &ck, false);
            m.push(json!([i, format!("{:x} {} {} {}", e.digest, e.out.steps, e.out.switches, e.fails.len())]));
            i += workers as u64;
        }
        json!(m)
    });
    let mut all = BTreeMap::new();
    for p in parts.iter().flatten() {
        for x in p.as_array().into_iter().flatten() {
            all.insert(x[0].as_u64().unwrap_or(0), x[1].as_str().unwrap_or("").to_string());
        }
    }
    for (i, d) in all {
        println!("{prop} {i} {d}");
    }
    0
}
pub fn try_(prop: &str, from: u64, n: u64) -> i32 {
    run::init();
    let ck = gen::checks(prop);
    load_isa(&ck);
    let t = Instant::now();
    let mut st = Stats::new();
    let mut bad = 0;
    let group = std::env::var("G").is_ok();
    let mut groups: BTreeMap<String, (f64, String)> = Default::default();
    for i in from..from + n {
        let p = gen::plan(prop, 1, i);
        let e = oracle::evaluate(&p, &ck, false);
        st.count(&p, &e);
        if group {
            let op = &p.flat()[0].op;
            let g = format!("{:?}x{} d{} q{} a{} cpu {}", op.fmt, op.epp(), op.depth, op.quality as u8, op.premul as u8, cpu::MODELS[p.cpu].0);
            let x = groups.entry(g).or_insert((0., String::new()));
            if e.worst > x.0 {
                *x = (e.worst, oracle::short(op));
            }
        }
        if std::env::var("V").is_ok() {
            let o = &e.out;
            println!("{i} steps {} solo {} sw {} thr {} hash {:x} {:?} leak {:?}", o.steps, e.solo_steps, o.switches, o.nthreads, o.hash, p.sched, o.op_leak.iter().filter(|x| **x != 0).collect::<Vec<_>>());
        }
        for f in &e.fails {
            bad += 1;
            if bad < 30 {
                println!("{i} {} k{} {} [cpu {} {:?}]", f.class, f.k, f.detail, cpu::MODELS[p.cpu].0, p.sched);
            }
        }
        if std::env::var("J").is_ok() && !e.fails.is_empty() {
            println!("{}", p.json());
        }
    }
    for (g, x) in &groups {
        println!("{g}: {:.3} {}", x.0, x.1);
    }
    println!("{prop}: {n} runs {:.2}s steps {} switches {} worst {:.3} fails {bad} ratio {:.2}", t.elapsed().as_secs_f64(), st.n["steps"], st.n["switches"], st.worst, st.max_ratio);
    0
}

/// basic blocks never reached by `runs` executions of every property: link-time addresses
pub fn coverage(props: &[String], seed: u64, runs: u64, workers: usize) -> i32 {
    let parts = fan(workers, &|w| {
        let mut st = Stats::new();
        for q in props {
            let ck = gen::checks(q);
            let mut i = w as u64;
            while i < runs {
                let p = gen::plan(q, seed, i);
                let e = oracle::evaluate(&p, &ck, false);
                st.count(&p, &e);
                i += workers as u64;
            }
        }
        st.json()
    });
    let mut st = Stats::new();
    for p in parts.iter().flatten() {
        st.merge(p);
    }
    let anchor = cpu::pssim_anchor as *const () as usize;
    println!("anchor {anchor:x}");
    for g in 1..=sched::guards() {
        let (pc, flags) = sched::guard_pc(g);
        println!("{} {} {:x}", st.cov[g], flags & 1, pc);
    }
    0
}
