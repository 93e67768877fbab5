//! A simulated execution: clients, their requests, the environment, the faults. Fully determined by
//! its JSON form (and, before minimisation, by (property, seed, index)).
use crate::ops::*;
use crate::sched::Sched;
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub op: Op,
    /// 0: private scaler; 1..200: scaler value shared by all clients; 255: the client's own scaler, reconfigured
    pub shared: usize,
    /// index (in flat order) of the request whose source buffer is used
    pub src_of: usize,
    /// run inside the user's own rayon pool
    pub nested: bool,
    /// how source and destination sit in memory: bits 0-1 source, 2-3 destination
    /// (0: ends at an unmapped page, 1: starts right after one, 2-3: anywhere)
    pub place: u32,
    /// index of the earlier request of the same client whose memory holds this request's source image
    /// (new content in the same place) or its destination; its own index: memory of its own
    pub src_at: usize,
    pub dst_at: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub seed: u64,
    pub cpu: usize,
    pub ncpu: usize,
    pub sched: Sched,
    pub spurious: u32,
    pub spawn_fail: Vec<u32>,
    pub spawn_fail_all: bool,
    pub alloc_fail: u32,
    pub alloc_min: usize,
    /// after the first failure every so many allocations another one (0: none)
    pub alloc_every: u32,
    pub poison: u64,
    pub heap_guard: bool,
    pub heap_reuse: bool,
    pub user_pool: usize,
    /// let the first request that needs rayon's process-wide pool start it
    pub lazy_global: bool,
    pub clients: Vec<Vec<Call>>,
    /// how often every client goes through its requests
    pub rounds: u32,
    pub overrides: Vec<(u64, u32)>,
    /// execute only this request, alone, single-threaded (the pristine reference)
    pub solo: Option<usize>,
    /// the solo run uses the request's own threading policy
    pub solo_own: bool,
    pub max_steps: u64,
}
impl Plan {
    pub fn new(seed: u64) -> Plan {
        Plan {
            seed,
            cpu: 0,
            ncpu: 4,
            sched: Sched::Block,
            spurious: 0,
            spawn_fail: vec![],
            spawn_fail_all: false,
            alloc_fail: 0,
            alloc_min: 1024,
            alloc_every: 0,
            poison: 0,
            heap_guard: false,
            heap_reuse: false,
            user_pool: 0,
            lazy_global: false,
            clients: vec![],
            rounds: 1,
            overrides: vec![],
            solo: None,
            solo_own: false,
            max_steps: 400_000_000,
        }
    }
    /// the memory group of request k, for the source (0) or the destination (1): only requests one
    /// client makes one after another can use the same memory
    pub fn memory(&self, k: usize, which: usize) -> usize {
        let mut owner = vec![];
        for (i, c) in self.clients.iter().enumerate() {
            owner.extend(c.iter().map(|_| i));
        }
        let f = self.flat();
        let at = if which == 0 { f[k].src_at } else { f[k].dst_at };
        if at >= f.len() || owner[at] != owner[k] || f[k].nested || f[at].nested || (which == 0 && (f[k].src_of != k || f[at].src_of != at)) {
            k
        } else {
            at
        }
    }
    pub fn flat(&self) -> Vec<&Call> {
        self.clients.iter().flatten().collect()
    }
    pub fn json(&self) -> Value {
        let sched = match &self.sched {
            Sched::Random(q) => json!(["random", q]),
            Sched::Pct(d, h) => json!(["pct", d, h]),
            Sched::Block => json!(["block"]),
            Sched::RoundRobin(q) => json!(["rr", q]),
            Sched::Starve(q, v, s) => json!(["starve", q, v, s]),
            Sched::Replay => json!(["replay"]),
        };
        json!({
            "seed": self.seed.to_string(), "cpu": crate::cpu::MODELS[self.cpu].0, "ncpu": self.ncpu, "sched": sched,
            "spurious": self.spurious, "spawn_fail": self.spawn_fail, "spawn_fail_all": self.spawn_fail_all,
            "alloc_fail": self.alloc_fail, "alloc_min": self.alloc_min, "alloc_every": self.alloc_every, "poison": self.poison.to_string(),
            "heap_guard": self.heap_guard, "heap_reuse": self.heap_reuse, "user_pool": self.user_pool, "lazy_global": self.lazy_global, "rounds": self.rounds,
            "overrides": self.overrides, "solo": self.solo, "max_steps": self.max_steps,
            "clients": self.clients.iter().map(|c| c.iter().map(|k| json!({
                "op": k.op.json(), "shared": k.shared, "src_of": k.src_of, "nested": k.nested, "place": k.place,
                "src_at": k.src_at, "dst_at": k.dst_at
            })).collect::<Vec<_>>()).collect::<Vec<_>>(),
        })
    }
    pub fn from_json(v: &Value) -> Option<Plan> {
        let s = &v["sched"];
        let n = |i: usize| s[i].as_u64();
        let sched = match s[0].as_str()? {
            "random" => Sched::Random(n(1)?),
            "pct" => Sched::Pct(n(1)? as u32, n(2)?),
            "block" => Sched::Block,
            "rr" => Sched::RoundRobin(n(1)?),
            "starve" => Sched::Starve(n(1)?, n(2)? as u32, n(3)?),
            _ => Sched::Replay,
        };
        let u = |k: &str| v[k].as_u64().map(|x| x as usize);
        let mut clients = vec![];
        let mut count = 0;
        for c in v["clients"].as_array()? {
            let mut cl = vec![];
            for k in c.as_array()? {
                let at = |n: &str| k[n].as_u64().map(|x| x as usize).unwrap_or(count);
                cl.push(Call {
                    src_at: at("src_at"),
                    dst_at: at("dst_at"),
                    op: Op::from_json(&k["op"])?,
                    shared: k["shared"].as_u64()? as usize,
                    src_of: k["src_of"].as_u64()? as usize,
                    nested: k["nested"].as_bool()?,
                    place: k["place"].as_u64()? as u32,
                });
                count += 1;
            }
            clients.push(cl);
        }
        Some(Plan {
            seed: v["seed"].as_str()?.parse().ok()?,
            cpu: crate::cpu::MODELS.iter().position(|m| Some(m.0) == v["cpu"].as_str())?,
            ncpu: u("ncpu")?,
            sched,
            spurious: u("spurious")? as u32,
            spawn_fail: v["spawn_fail"].as_array()?.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect(),
            spawn_fail_all: v["spawn_fail_all"].as_bool()?,
            alloc_fail: u("alloc_fail")? as u32,
            alloc_min: u("alloc_min")?,
            alloc_every: u("alloc_every").unwrap_or(0) as u32,
            poison: v["poison"].as_str()?.parse().ok()?,
            heap_guard: v["heap_guard"].as_bool()?,
            heap_reuse: v["heap_reuse"].as_bool()?,
            user_pool: u("user_pool")?,
            lazy_global: v["lazy_global"].as_bool().unwrap_or(false),
            rounds: u("rounds").unwrap_or(1).max(1) as u32,
            overrides: v["overrides"]
                .as_array()?
                .iter()
                .map(|x| (x[0].as_u64().unwrap_or(0), x[1].as_u64().unwrap_or(0) as u32))
                .collect(),
            solo: u("solo"),
            solo_own: false,
            max_steps: u("max_steps")? as u64,
            clients,
        })
    }
}
