//! Plans (everything that determines a run), verdicts, and helpers shared by the scenarios.
use crate::exec::{self, Proc, Res};
use crate::os::{self, Fault, Sched};
use crate::rng::{hash_bytes, mix, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub kind: String,
    pub seed: u64,
    pub work: Value,
    pub faults: Vec<Fault>,
    pub sched: Sched,
    /// replay: scheduling decisions per simulated process
    pub forced: Option<Vec<Vec<(u64, u64)>>>,
}

impl Plan {
    pub fn new(kind: &str, work: Value, faults: Vec<Fault>, sched: Sched) -> Plan {
        Plan { prop: String::new(), kind: kind.into(), seed: 0, work, faults, sched, forced: None }
    }
    pub fn to_json(&self) -> Value {
        json!({"prop": self.prop, "kind": self.kind, "seed": self.seed, "work": self.work,
            "faults": self.faults.iter().map(|f| f.to_json()).collect::<Vec<_>>(), "sched": self.sched.to_json(), "forced": self.forced})
    }
    pub fn from_json(v: &Value) -> Plan {
        Plan {
            prop: v["prop"].as_str().unwrap().to_string(),
            kind: v["kind"].as_str().unwrap().to_string(),
            seed: v["seed"].as_u64().unwrap(),
            work: v["work"].clone(),
            faults: v["faults"].as_array().unwrap().iter().map(Fault::from_json).collect(),
            sched: Sched::from_json(&v["sched"]),
            forced: v["forced"].as_array().map(|a| a.iter().map(|l| l.as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap(), p[1].as_u64().unwrap())).collect()).collect()),
        }
    }
    pub fn proc(&self) -> Proc {
        Proc { sched: self.sched.clone(), faults: self.faults.clone(), vfs: crate::vfs::Vfs::new() }
    }
    pub fn strs(&self, k: &str) -> Vec<String> {
        strs(&self.work[k])
    }
    pub fn u(&self, k: &str) -> u64 {
        self.work[k].as_u64().unwrap_or(0)
    }
}

pub fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Ok,
    /// nothing could be concluded from this run
    Skip(String),
    Bad(String, String),
}

pub fn bad<T>(class: &str, detail: impl Into<String>) -> Result<T, Verdict> {
    Err(Verdict::Bad(class.to_string(), detail.into()))
}
pub fn skip<T>(why: &str) -> Result<T, Verdict> {
    Err(Verdict::Skip(why.to_string()))
}

/// Collects what the simulated processes of one run did.
#[derive(Default)]
pub struct Drive {
    pub stats: Vec<Value>,
    pub trace: Value,
    pub probes: BTreeMap<String, u64>,
    pub harness: Option<String>,
    pub forced: Option<Vec<Vec<(u64, u64)>>>,
    /// the work of this scenario is small: using up the CPU allowance means it never ends
    pub small: bool,
}

impl Drive {
    pub fn proc(&mut self, p: &Proc, f: impl FnOnce() -> Value) -> Result<Res, Verdict> {
        let mut q = Proc { sched: p.sched.clone(), faults: p.faults.clone(), vfs: p.vfs.clone() };
        if let Some(f) = &self.forced {
            q.sched.forced = Some(f.get(self.stats.len()).cloned().unwrap_or_default());
        }
        let r = exec::run(&q, f);
        self.stats.push(r.stats.clone());
        if !r.trace.is_null() {
            self.trace = r.trace.clone();
        }
        match &r.status[..] {
            "done" | "crashed" => Ok(r),
            "stuck" if r.out["class"] == "hang" && !self.small => Err(Verdict::Skip("too much work".into())),
            "stuck" if r.out["class"] == "memory" && !self.small => Err(Verdict::Skip("too much memory".into())),
            "stuck" | "died" => Err(Verdict::Bad(
                r.out["class"].as_str().unwrap_or("died").to_string(),
                r.out["detail"].as_str().unwrap_or("").to_string(),
            )),
            _ => {
                self.harness = Some(r.out.to_string());
                Err(Verdict::Skip("harness".into()))
            }
        }
    }
    /// A run that is one process whose closure judges itself.
    pub fn judge(&mut self, p: &Proc, f: impl FnOnce() -> Result<(), Verdict>) -> Verdict {
        let r = self.proc(p, || {
            let v = f();
            os::outside(|| match v {
                Ok(()) | Err(Verdict::Ok) => json!({"v": "ok"}),
                Err(Verdict::Skip(s)) => json!({"v": "skip", "why": s}),
                Err(Verdict::Bad(c, d)) => json!({"v": "bad", "class": c, "detail": d}),
            })
        });
        match r {
            Err(v) => v,
            Ok(r) => match r.out["v"].as_str() {
                Some("ok") => Verdict::Ok,
                Some("skip") => Verdict::Skip(r.out["why"].as_str().unwrap().to_string()),
                Some("bad") => Verdict::Bad(r.out["class"].as_str().unwrap().to_string(), r.out["detail"].as_str().unwrap().to_string()),
                _ => Verdict::Skip("no verdict".into()),
            },
        }
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
    }
    /// Identity of the explored execution(s).
    pub fn key(&self) -> u64 {
        let mut h = 0;
        for s in &self.stats {
            h = mix(&[h, hash_bytes(0, s["hash"].as_str().unwrap_or("").as_bytes())]);
        }
        h
    }
}

/// Swarm: every run gets its own scheduler policy, machine size and clock speed.
pub fn gen_sched(r: &mut Rng) -> Sched {
    let policy = *r.pick(&[0, 1, 1, 2, 2]);
    Sched {
        seed: r.next() >> 12,
        cpus: r.range(1, 6),
        policy,
        param: match policy {
            1 => *r.pick(&[20, 100, 300, 700]),
            2 => r.range(1, 8),
            _ => 0,
        },
        preempt: if r.chance(1, 3) { 0 } else { r.logu(10, 3000) },
        tick: r.logu(10, 200_000),
        work_ns: r.logu(20, 1500),
        random_wake: r.chance(1, 3),
        forced: None,
    }
}
/// A single-threaded scenario still varies clock speed and CPU count.
pub fn gen_sched_light(r: &mut Rng) -> Sched {
    let mut s = gen_sched(r);
    s.cpus = r.range(1, 3);
    if r.chance(2, 3) {
        s.policy = 0;
        s.preempt = 0;
    }
    s
}
/// Faults of the thread scheduler.
pub fn gen_thread_faults(r: &mut Rng, out: &mut Vec<Fault>) {
    if r.chance(1, 3) {
        out.push(Fault::new("spurious", r.logu(1, 60) - 1, false, 0));
    }
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            out.push(Fault::new("stall", r.logu(1, 2000), false, r.next() >> 12));
        }
    }
}
/// Solver time-outs and delays among the first `n` queries.
pub fn gen_solver_faults(r: &mut Rng, n: u64, out: &mut Vec<Fault>, with_panic: bool) {
    match r.below(6) {
        0 => {}
        1 => out.push(Fault::new("unknown", r.logu(1, n.max(2)) - 1, true, 1_000_000_000)),
        _ => {
            for _ in 0..r.range(1, 5) {
                out.push(Fault::new("unknown", r.below(n.max(1)), false, 1_000_000_000));
            }
        }
    }
    if r.chance(1, 4) {
        // one slow answer, or a solver that stays slow
        out.push(Fault::new("latency", r.below(n.max(1)), r.chance(1, 3), r.logu(1_000_000, 400_000_000_000)));
    }
    if with_panic && r.chance(1, 8) {
        out.push(Fault::new("vpanic", r.below(n.max(1)), false, 0));
    }
}
/// A clock jump past the time budget at some read.
pub fn gen_clock_cut(r: &mut Rng, reads: u64, out: &mut Vec<Fault>) {
    for _ in 0..r.range(1, 2) {
        out.push(Fault::new("jump", r.logu(1, reads), false, r.range(601, 4000) * 1_000_000_000));
    }
}
pub const BUDGET_NS: u64 = 600_000_000_000;
