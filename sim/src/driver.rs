//! Seeded search: runs many plans in parallel worker processes, minimises and confirms
//! failures, writes replay files and evidence.
use crate::common::*;
use crate::os::{self, Fault, Sched};
use crate::rng::{hash_bytes, mix, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::io::FromRawFd;
use std::time::Instant;

/// What a binary knows about a property.
pub struct Spec {
    pub id: &'static str,
    pub gen: fn(&mut Rng) -> Plan,
    pub drive: fn(&mut Drive, &Plan) -> Verdict,
    /// runs in the quick and in the thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    /// probes that must fire in a healthy search (reported, not enforced)
    pub wants: &'static [&'static str],
}

pub const NWORKERS: u64 = 8;

/// Runs `f` in a fork of this pristine process and returns its JSON result.
pub fn in_fork(f: impl FnOnce() -> Value) -> Option<Value> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = libc::fork();
        if pid < 0 {
            return None;
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(Value::Null);
            os::raw_write_all(fds[1], v.to_string().as_bytes());
            os::raw_exit(0);
        }
        libc::close(fds[1]);
        let mut buf = vec![];
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let _ = std::io::Read::read_to_end(&mut f, &mut buf);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        serde_json::from_slice::<Value>(&buf).ok().filter(|v| !v.is_null())
    }
}

pub fn make_plan(s: &Spec, seed: u64) -> Option<Plan> {
    in_fork(|| {
        let mut r = Rng::new(seed);
        let mut p = (s.gen)(&mut r);
        p.prop = s.id.to_string();
        p.seed = seed;
        p.to_json()
    })
    .map(|v| Plan::from_json(&v))
}

fn verdict_json(v: &Verdict) -> Value {
    match v {
        Verdict::Ok => json!(["ok"]),
        Verdict::Skip(s) => json!(["skip", s]),
        Verdict::Bad(c, d) => json!(["bad", c, d]),
    }
}
fn verdict_of(v: &Value) -> Verdict {
    let s = |i: usize| v[i].as_str().unwrap_or("").to_string();
    match v[0].as_str() {
        Some("ok") => Verdict::Ok,
        Some("skip") => Verdict::Skip(s(1)),
        _ => Verdict::Bad(s(1), s(2)),
    }
}

/// One run, in a fork: verdict, statistics, identity.
pub fn run_plan(s: &Spec, p: &Plan, trace: bool) -> Value {
    let r = in_fork(|| {
        unsafe { crate::exec::WITH_TRACE = trace };
        let mut d = Drive { forced: p.forced.clone(), ..Default::default() };
        let v = (s.drive)(&mut d, p);
        let v = match &d.harness {
            Some(h) => json!(["harness", h]),
            None => verdict_json(&v),
        };
        json!({"verdict": v, "key": format!("{:016x}", d.key()), "stats": d.stats, "probes": d.probes, "trace": d.trace})
    });
    r.unwrap_or_else(|| json!({"verdict": ["harness", "the run's own process failed"], "key": "", "stats": [], "probes": {}, "trace": null}))
}

fn bad_of(v: &Value) -> Option<(String, String)> {
    match verdict_of(&v["verdict"]) {
        Verdict::Bad(c, d) if v["verdict"][0] == "bad" => Some((c, d)),
        _ => None,
    }
}

// ---------------------------------------------------------------------------------------
// minimisation

fn shrink_steps(v: &Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, Value)>) {
    match v {
        Value::Array(a) => {
            let n = a.len();
            let mut size = n;
            while size >= 1 {
                let mut i = 0;
                while i < n {
                    let mut b = a.clone();
                    b.drain(i..(i + size).min(n));
                    out.push((path.clone(), Value::Array(b)));
                    i += size;
                }
                size /= 2;
            }
            for (i, x) in a.iter().enumerate() {
                if x.is_array() || x.is_object() {
                    path.push(i.to_string());
                    shrink_steps(x, path, out);
                    path.pop();
                }
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                if k == "world" || k == "seed" {
                    continue;
                }
                path.push(k.clone());
                shrink_steps(x, path, out);
                path.pop();
            }
        }
        Value::Number(n) => {
            if let Some(u) = n.as_u64() {
                if u > 0 && u < 1 << 20 {
                    out.push((path.clone(), json!(u / 2)));
                    if u > 2 {
                        out.push((path.clone(), json!(u - 1)));
                    }
                }
            }
        }
        _ => {}
    }
}
fn put(root: &mut Value, path: &[String], v: Value) {
    let mut cur = root;
    for k in path {
        cur = match cur {
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            Value::Object(o) => o.get_mut(k).unwrap(),
            _ => return,
        };
    }
    *cur = v;
}

pub fn minimise(s: &Spec, p0: &Plan, first: &Value, class: &str, budget_s: u64) -> (Plan, Value, u64) {
    let t = Instant::now();
    let mut tries = 0;
    let mut best = (p0.clone(), first.clone());
    let same = |p: &Plan, tries: &mut u64| -> Option<Value> {
        *tries += 1;
        let v = run_plan(s, p, false);
        bad_of(&v).filter(|b| b.0 == class).map(|_| v)
    };
    let over = |t: &Instant| t.elapsed().as_secs() >= budget_s;
    // without any scheduling deviation at all?
    let mut calm = best.0.clone();
    calm.sched.policy = 0;
    calm.sched.preempt = 0;
    calm.sched.random_wake = false;
    calm.forced = None;
    if let Some(v) = same(&calm, &mut tries) {
        best = (calm, v);
    } else {
        // explicit decisions instead of the seeded scheduler
        let taken: Vec<Vec<(u64, u64)>> = first["stats"].as_array().unwrap().iter().map(|s| {
            s["taken"].as_array().map(|a| a.iter().map(|x| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap())).collect()).unwrap_or_default()
        }).collect();
        let mut q = best.0.clone();
        q.forced = Some(taken);
        if let Some(v) = same(&q, &mut tries) {
            best = (q, v);
        }
    }
    for _round in 0..6 {
        let before = best.0.to_json().to_string().len();
        // faults
        let mut i = 0;
        while i < best.0.faults.len() && !over(&t) {
            let mut q = best.0.clone();
            q.faults.remove(i);
            if let Some(v) = same(&q, &mut tries) {
                best = (q, v);
            } else {
                i += 1;
            }
        }
        // work
        'again: loop {
            if over(&t) {
                break;
            }
            let mut steps = vec![];
            shrink_steps(&best.0.work, &mut vec![], &mut steps);
            for (path, val) in steps {
                if over(&t) {
                    break 'again;
                }
                let mut q = best.0.clone();
                put(&mut q.work, &path, val);
                if let Some(v) = same(&q, &mut tries) {
                    best = (q, v);
                    continue 'again;
                }
            }
            break;
        }
        // scheduling decisions
        if let Some(f) = best.0.forced.clone() {
            for k in 0..f.len() {
                let mut size = best.0.forced.as_ref().unwrap()[k].len();
                while size >= 1 && !over(&t) {
                    let mut i = 0;
                    while i < best.0.forced.as_ref().unwrap()[k].len() && !over(&t) {
                        let mut q = best.0.clone();
                        let l = &mut q.forced.as_mut().unwrap()[k];
                        let e = (i + size).min(l.len());
                        l.drain(i..e);
                        if let Some(v) = same(&q, &mut tries) {
                            best = (q, v);
                        } else {
                            i += size;
                        }
                    }
                    size /= 2;
                }
            }
        }
        if over(&t) || best.0.to_json().to_string().len() >= before {
            break;
        }
    }
    (best.0, best.1, tries)
}

// ---------------------------------------------------------------------------------------
// known findings

/// Lines "known: property=<id> class=<class> match=<text>"; anything else is ignored.
fn known_findings(root: &str, prop: &str) -> Vec<(String, String, String)> {
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", root)) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix(&format!("known: property={} class=", prop)) {
                if let Some((class, m)) = rest.split_once(" match=") {
                    out.push((class.to_string(), m.to_string(), l.to_string()));
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------------------------------
// the check

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}
pub fn run_seed(vseed: u64, prop: &str, i: u64) -> u64 {
    mix(&[vseed, hash_bytes(0, prop.as_bytes()), i]) >> 11
}

fn pin(w: u64) {
    unsafe {
        let mut cur: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut cur) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &cur)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[w as usize % cpus.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

pub fn check(root: &str, s: &Spec, extra: Option<Value>) -> i32 {
    let t0 = Instant::now();
    let vseed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let runs = env_u64("SIM_RUNS", if thorough { s.thorough } else { s.quick });
    let wall = env_u64("SIM_WALL", if thorough { 3000 } else { 240 });
    println!("property {} tier {} seed {} runs {}", s.id, tier, vseed, runs);
    let slow = env_u64("SIM_SLOW", 0);
    let known = known_findings(root, s.id);

    // workers
    let mut pipes = vec![];
    let mut pids = vec![];
    for w in 0..NWORKERS {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                pin(w);
                let mut bad = 0;
                let mut i = w;
                while i < runs && t0.elapsed().as_secs() < wall && bad < 2 {
                    let seed = run_seed(vseed, s.id, i);
                    let v = match make_plan(s, seed) {
                        Some(p) => {
                            let t = Instant::now();
                            let mut v = run_plan(s, &p, false);
                            if slow > 0 && t.elapsed().as_millis() as u64 >= slow {
                                eprintln!("slow run {} (seed {}, {}): {} ms, {}", i, seed, p.kind, t.elapsed().as_millis(), v["verdict"]);
                            }
                            if let Some(b) = bad_of(&v) {
                                if !known.iter().any(|k| k.0 == b.0 && b.1.contains(&k.1)) {
                                    bad += 1;
                                }
                            }
                            if i < 3 || bad_of(&v).is_some() {
                                v["plan"] = p.to_json();
                            } else {
                                for st in v["stats"].as_array_mut().unwrap() {
                                    st["taken"] = Value::Null;
                                }
                            }
                            v["kind"] = json!(p.kind);
                            v
                        }
                        None => json!({"verdict": ["harness", "plan generation failed"], "key": "", "stats": [], "probes": {}, "trace": null}),
                    };
                    let mut v = v;
                    v["i"] = json!(i);
                    v["run_seed"] = json!(seed);
                    let mut line = v.to_string();
                    line.push('\n');
                    os::raw_write_all(fds[1], line.as_bytes());
                    i += NWORKERS;
                }
                os::raw_exit(0);
            }
            libc::close(fds[1]);
            pipes.push(BufReader::new(std::fs::File::from_raw_fd(fds[0])));
            pids.push(pid);
        }
    }
    // collect: one reader thread per worker would do; results are merged in run order
    let handles: Vec<_> = pipes.into_iter().map(|p| std::thread::spawn(move || {
        p.lines().filter_map(|l| l.ok()).filter_map(|l| serde_json::from_str::<Value>(&l).ok()).collect::<Vec<Value>>()
    })).collect();
    let mut all: Vec<Value> = handles.into_iter().flat_map(|h| h.join().unwrap()).collect();
    for p in pids {
        unsafe {
            let mut st = 0;
            libc::waitpid(p, &mut st, 0);
        }
    }
    all.sort_by_key(|v| v["i"].as_u64().unwrap());

    let mut agg = Agg::default();
    let mut bads = vec![];
    let mut harness = vec![];
    let mut knowns: BTreeSet<String> = BTreeSet::new();
    for v in &all {
        agg.add(v);
        match v["verdict"][0].as_str() {
            Some("bad") => {
                let b = bad_of(v).unwrap();
                match known.iter().find(|k| k.0 == b.0 && b.1.contains(&k.1)) {
                    Some(k) => {
                        knowns.insert(k.2.clone());
                    }
                    None => bads.push(v.clone()),
                }
            }
            Some("harness") => harness.push(v.clone()),
            _ => {}
        }
    }
    for k in &knowns {
        println!("KNOWN-FINDING: property={} {}", s.id, k);
    }
    let mut violations = 0;
    let mut rc = 0;
    let mut replay = String::new();
    let mut unrepro = 0;
    for v in bads.iter().take(6) {
        let (class, detail) = bad_of(v).unwrap();
        println!("violation in run {} (seed {}): {}: {}", v["i"], v["run_seed"], class, detail);
        let plan = Plan::from_json(&v["plan"]);
        // it must happen again
        let again = run_plan(s, &plan, false);
        if bad_of(&again).map(|b| b.0) != Some(class.clone()) {
            println!("run {} did not fail again in the same way: {}", v["i"], again["verdict"]);
            unrepro += 1;
            continue;
        }
        let (mp, mv, tries) = minimise(s, &plan, &again, &class, if thorough { 240 } else { 60 });
        let fin = run_plan(s, &mp, true);
        let (p, r) = if bad_of(&fin).map(|b| b.0) == Some(class.clone()) { (mp, fin) } else { (plan.clone(), run_plan(s, &plan, true)) };
        let _ = mv;
        let dir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.json", dir, s.id, v["run_seed"]);
        let file = json!({"property": s.id, "verif_seed": vseed, "run": v["i"], "run_seed": v["run_seed"],
            "violation": {"class": bad_of(&r).map(|b| b.0), "detail": bad_of(&r).map(|b| b.1)},
            "original": {"class": class, "detail": detail}, "minimiser_runs": tries,
            "key": r["key"], "plan": p.to_json(), "trace": r["trace"], "original_plan": plan.to_json()});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap());
        // and once more, from the file, in a fresh process
        let exe = std::env::current_exe().unwrap();
        let ok = std::process::Command::new(exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).status();
        let code = ok.ok().and_then(|c| c.code()).unwrap_or(-1);
        println!("minimised in {} runs: {}", tries, bad_of(&r).map(|b| b.1).unwrap_or_default());
        println!("replay in a fresh process: {}", if code == 1 { "same violation" } else { "NOT REPRODUCED" });
        if code != 1 {
            unrepro += 1;
            continue;
        }
        violations = bads.len() as u64;
        replay = path;
        rc = 1;
        break;
    }
    if rc == 0 && unrepro > 0 {
        println!("harness error: a violation could not be reproduced");
        rc = 2;
    }
    if rc == 0 && (harness.len() as u64) * 50 > all.len() as u64 || all.is_empty() {
        println!("harness error in {} of {} runs: {}", harness.len(), all.len(), harness.get(0).map(|h| h["verdict"].to_string()).unwrap_or_default());
        rc = 2;
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let mut cov = agg.coverage(s, &all, wall_s);
    if let Some(x) = extra {
        cov["selftest"] = x;
    }
    let ev = json!({"property": s.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": vseed, "level": s.level, "coverage": cov,
        "assumptions": ["the simulated scheduler interleaves at futex, yield, thread, file, solver and (seeded) allocation points; shared-memory races between such points are not interleaved further",
            "sequentially consistent memory", "the filesystem model is ordered-metadata with data made durable by fsync"],
        "wall_s": wall_s, "violations": violations});
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root, s.id), serde_json::to_string_pretty(&ev).unwrap()) {
        println!("cannot write evidence: {}", e);
        rc = 2;
    }
    println!("{} runs in {:.1} s, {} distinct executions, verdicts {:?}, faults {:?}, probes {:?}", all.len(), wall_s, agg.keys.len(), agg.verdicts, agg.fired, agg.probes);
    for w in s.wants {
        if !agg.probes.contains_key(*w) {
            println!("note: probe {} never fired", w);
        }
    }
    if rc == 1 {
        println!("VIOLATION property={} replay={}", s.id, replay);
    } else if rc == 0 {
        println!("OK property={}", s.id);
    }
    rc
}

#[derive(Default)]
struct Agg {
    verdicts: BTreeMap<String, u64>,
    skips: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    fired: BTreeMap<String, u64>,
    runs_with: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    sum: BTreeMap<String, u64>,
    keys: BTreeSet<String>,
    nontrivial: BTreeSet<String>,
    procs: u64,
}
impl Agg {
    fn add(&mut self, v: &Value) {
        let verdict = v["verdict"][0].as_str().unwrap_or("?").to_string();
        if verdict == "skip" {
            *self.skips.entry(v["verdict"][1].as_str().unwrap_or("").to_string()).or_insert(0) += 1;
        }
        *self.verdicts.entry(verdict.clone()).or_insert(0) += 1;
        *self.kinds.entry(v["kind"].as_str().unwrap_or("?").to_string()).or_insert(0) += 1;
        let mut active = false;
        for (k, n) in v["probes"].as_object().into_iter().flatten() {
            *self.probes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
        let mut seen: BTreeSet<String> = BTreeSet::new();
        for st in v["stats"].as_array().into_iter().flatten() {
            self.procs += 1;
            for k in ["decisions", "switches", "clock_reads", "io_ops", "solver", "waits", "allocs", "threads", "sim_ns"] {
                *self.sum.entry(k.to_string()).or_insert(0) += st[k].as_u64().unwrap_or(0);
            }
            for (k, n) in st["fired"].as_object().into_iter().flatten() {
                *self.fired.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                seen.insert(k.clone());
            }
            for (k, n) in st["probes"].as_object().into_iter().flatten() {
                *self.probes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            }
            if st["switches"].as_u64().unwrap_or(0) > 0 || st["io_ops"].as_u64().unwrap_or(0) > 0 || st["solver"].as_u64().unwrap_or(0) > 0 || st["clock_reads"].as_u64().unwrap_or(0) > 4 {
                active = true;
            }
        }
        for k in seen {
            *self.runs_with.entry(k).or_insert(0) += 1;
        }
        let key = v["key"].as_str().unwrap_or("").to_string();
        if !key.is_empty() {
            self.keys.insert(key.clone());
            if active && (verdict == "ok" || verdict == "bad") {
                self.nontrivial.insert(key);
            }
        }
    }
    fn coverage(&self, s: &Spec, all: &[Value], wall: f64) -> Value {
        let samples: Vec<Value> = all.iter().filter(|v| !v["plan"].is_null()).take(3).map(|v| {
            let mut p = v["plan"].clone();
            if p.to_string().len() > 6000 {
                p["work"] = json!(p["work"].to_string().chars().take(3000).collect::<String>());
            }
            json!({"run_seed": v["run_seed"], "plan": p, "verdict": v["verdict"], "trace_hash": v["key"], "processes": v["stats"].as_array().map(|a| a.len())})
        }).collect();
        json!({
            "evaluations": all.len(),
            "distinct_nontrivial": self.nontrivial.len(),
            "rule": format!("one evaluation = one seeded run (plan + schedule + faults); distinct = different hash of the complete event trace (scheduling switches, futex, clock jumps, solver queries, file operations with results, faults); non-trivial = the run ended with a verdict (not skipped) and reached at least one of: a thread switch, a file operation, a solver query, more than 4 clock reads. {}", s.rule),
            "samples": samples,
            "verdicts": self.verdicts,
            "skipped_why": self.skips,
            "scenario_kinds": self.kinds,
            "simulated_processes": self.procs,
            "runs_per_hour": (all.len() as f64 / wall.max(0.001) * 3600.0) as u64,
            "seeds_per_run": 1,
            "simulated_seconds": self.sum.get("sim_ns").copied().unwrap_or(0) as f64 / 1e9,
            "distinct_traces": self.keys.len(),
            "faults_fired": self.fired,
            "runs_with_fault": self.runs_with,
            "probes": self.probes,
            "totals": self.sum,
            "components_real": s.real,
            "components_stubbed": s.stub,
        })
    }
}

/// Runs a replay file; exit 1 if the recorded violation happens again, identically.
pub fn replay(specs: &[Spec], path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let v: Value = serde_json::from_str(&t).unwrap();
    let p = Plan::from_json(&v["plan"]);
    let s = specs.iter().find(|s| s.id == p.prop).expect("property");
    let r = run_plan(s, &p, true);
    println!("{}", serde_json::to_string_pretty(&json!({"verdict": r["verdict"], "key": r["key"], "trace": r["trace"]})).unwrap());
    match bad_of(&r) {
        Some(b) if Some(&b.0[..]) == v["violation"]["class"].as_str() => {
            println!("REPRODUCED property={} class={} trace_identical={}", s.id, b.0, r["key"] == v["key"]);
            if r["key"] == v["key"] { 1 } else { 3 }
        }
        _ => {
            println!("NOT REPRODUCED");
            0
        }
    }
}

/// Every run of a list of seeds: index, trace hash, verdict. For determinism comparisons.
pub fn hashes(s: &Spec, vseed: u64, n: u64) {
    let out = std::io::stdout();
    for i in 0..n {
        let seed = run_seed(vseed, s.id, i);
        let p = make_plan(s, seed).expect("plan");
        let v = run_plan(s, &p, false);
        let ks: Vec<String> = v["stats"].as_array().unwrap().iter().map(|s| s.to_string()).collect();
        writeln!(out.lock(), "{} {} {} {} {:016x}", s.id, i, v["key"], v["verdict"][0], hash_bytes(0, ks.join("").as_bytes())).unwrap();
    }
}

#[allow(dead_code)]
pub fn unused(_: &Fault, _: &Sched) {}
