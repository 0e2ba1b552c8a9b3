//! Files: saved rulesets and workloads, nightly report, recipe line counts
//! (C11, C12, C13, C14, C15, C16, C19).
use crate::alg::{self, Alg, Ctx, Gen};
use crate::common::*;
use crate::exec::{call, Proc};
use crate::os::{self, outside, Fault};
use crate::p_min::{gen_rules, limits, ruleset, sched_of};
use crate::rng::Rng;
use crate::vfs::Vfs;
use ruler::enumo::{Filter, Metric, Ruleset, Workload};
use ruler::{DeriveType, Limits, Phase};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

pub const HARD: &[&str] = &["eio_read", "eio_write", "enospc", "open_fail", "sync_fail", "meta_fail"];
pub const SOFT: &[&str] = &["short_read", "short_write", "eintr"];

fn hard_fired() -> u64 {
    HARD.iter().map(|k| os::fired(k)).sum()
}

/// Short, interrupted and (with `hard`) failing operations among the first `ops`.
pub fn gen_io_faults(r: &mut Rng, ops: u64, hard: bool, out: &mut Vec<Fault>) {
    if r.chance(3, 4) {
        let n = r.logu(1, 12);
        for _ in 0..n {
            out.push(Fault::new(*r.pick(SOFT), r.logu(1, ops) - 1, r.chance(1, 12), r.next() >> 20));
        }
        // an operation that is always interrupted never ends: only single interruptions
        for f in out.iter_mut() {
            if f.kind == "eintr" {
                f.sticky = false;
            }
        }
    }
    if hard {
        for _ in 0..r.range(1, 2) {
            out.push(Fault::new(*r.pick(HARD), r.logu(1, ops) - 1, r.chance(1, 4), r.next() >> 20));
        }
    }
}

fn lines_of(b: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(b).lines().map(|s| s.to_string()).collect()
}
fn enc_faults(f: &[Fault]) -> Value {
    json!(f.iter().map(|f| f.to_json()).collect::<Vec<_>>())
}
fn dec_faults(v: &Value) -> Vec<Fault> {
    v.as_array().map(|a| a.iter().map(Fault::from_json).collect()).unwrap_or_default()
}

/// A small domain for file scenarios.
pub fn gen_lang(r: &mut Rng) -> Value {
    let mut w = alg::gen_world(r);
    w["m"] = json!(2);
    w["nvars"] = json!(r.range(1, 3));
    w["ops"] = json!(r.range(1, 255));
    w
}
pub fn gen_names(r: &mut Rng, w: &Value, max: u64) -> Vec<String> {
    let c = Ctx::from_json(w);
    let g = Gen::from_json(w);
    let n = r.logu(1, max + 1) - 1;
    let mut out: BTreeSet<String> = BTreeSet::new();
    let mut list = vec![];
    if n <= 30 {
        for x in gen_rules(&g, &c, r, n, true, 2) {
            list.push(x);
        }
    } else {
        for _ in 0..4 * n {
            if list.len() as u64 >= n {
                break;
            }
            let d = r.range(1, 3) as usize;
            let (a, b) = (g.term(r, d), g.term(r, 2));
            if alg::bound(&a, &b) {
                let s = crate::p_min::canon_name(&alg::rule_str(&a, &b));
                if out.insert(s.clone()) {
                    list.push(s);
                }
            }
            if out.len() > 20 && r.chance(1, 300) {
                break;
            }
        }
    }
    list
}
const PATHS: [&str; 4] = ["x.rules", "out/deep/y.rules", "/tmp/z.rules", "out/w.rules"];

// ---------------------------------------------------------------------------------------
// C11, C12: round trips

pub fn gen_roundtrip(prop: &str, r: &mut Rng) -> Plan {
    let w = gen_lang(r);
    let hard = r.chance(1, 2);
    let old = match r.below(3) {
        0 => Value::Null,
        _ => json!(gen_names(r, &w, 40)),
    };
    let path = r.pick(&PATHS).to_string();
    let mut work = json!({"world": w, "path": path, "old": old, "twice": r.below(2), "restart": r.below(2)});
    if prop == "C11" {
        let max = *r.pick(&[4, 40, 700]);
        work["rules"] = json!(gen_names(r, &w, max));
    } else {
        work["wkl"] = gen_workload(r, &w, 2);
    }
    let mut faults = vec![];
    gen_io_faults(r, 30, hard, &mut faults);
    Plan::new(if prop == "C11" { "rules" } else { "terms" }, work, faults, gen_sched_light(r))
}

/// A workload expression: plugs, filters and unions of term sets.
pub fn gen_workload(r: &mut Rng, w: &Value, depth: u64) -> Value {
    let g = Gen::from_json(w);
    if depth == 0 || r.chance(1, 3) {
        let n = if r.chance(1, 8) { r.logu(100, 900) } else { r.logu(1, 12) };
        let n = if r.chance(1, 12) { 0 } else { n };
        let terms: Vec<String> = (0..n)
            .map(|_| {
                let d = r.range(0, 3) as usize;
                let t = g.term(r, d);
                if r.chance(1, 4) { t.replacen(" a", " EXPR", 1) } else { t }
            })
            .collect();
        return json!({"set": terms});
    }
    match r.below(3) {
        0 => json!({"plug": [gen_workload(r, w, depth - 1), "EXPR", gen_workload(r, w, 0)]}),
        1 => json!({"append": [gen_workload(r, w, depth - 1), gen_workload(r, w, depth - 1)]}),
        _ => json!({"filter": [gen_workload(r, w, depth - 1), r.range(1, 6)]}),
    }
}
pub fn workload(v: &Value) -> Workload {
    if let Some(a) = v["plug"].as_array() {
        if a.len() == 3 {
            return workload(&a[0]).plug(a[1].as_str().unwrap(), &workload(&a[2]));
        }
    }
    if let Some(a) = v["append"].as_array() {
        return a.iter().map(workload).fold(Workload::empty(), |x, y| if x.force().is_empty() { y } else { x.append(y) });
    }
    if let Some(a) = v["filter"].as_array() {
        if a.len() == 2 {
            return workload(&a[0]).filter(Filter::MetricLt(Metric::Atoms, a[1].as_u64().unwrap_or(3) as usize));
        }
    }
    Workload::new(strs(&v["set"]))
}

enum Saved {
    R(Ruleset<Alg>),
    W(Workload),
}
impl Saved {
    fn list(&self) -> Vec<String> {
        match self {
            Saved::R(r) => r.to_str_vec(),
            Saved::W(w) => w.force().iter().map(|s| s.to_string()).collect(),
        }
    }
    fn save(&self, path: &str) {
        match self {
            Saved::R(r) => r.to_file(path),
            Saved::W(w) => w.to_file(path),
        }
    }
    /// Loads the same kind of thing; a ruleset is checked to be what its names say.
    fn load(&self, path: &str) -> Vec<String> {
        match self {
            Saved::R(_) => {
                let r = Ruleset::<Alg>::from_file(path);
                outside(|| {
                    r.0.iter()
                        .map(|(k, v)| {
                            let s = format!("{} ==> {}", v.lhs, v.rhs);
                            if **k == *v.name && s == **k && v.rewrite.name.to_string() == s { s } else { format!("{} (holds {} / {})", k, s, v.rewrite.name) }
                        })
                        .collect()
                })
            }
            Saved::W(_) => {
                let w = Workload::from_file(path);
                outside(|| w.force().iter().map(|s| s.to_string()).collect())
            }
        }
    }
}

fn diff(a: &[String], b: &[String]) -> String {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            return format!("entry {}: expected {:?}, found {:?} (lengths {} and {})", i, x, y, a.len(), b.len());
        }
    }
    format!("lengths differ: expected {}, found {}", a.len(), b.len())
}

pub fn drive_roundtrip(d: &mut Drive, p: &Plan) -> Verdict {
    d.small = true;
    let path = p.work["path"].as_str().unwrap().to_string();
    let mut pr = p.proc();
    prepare_dirs(&mut pr.vfs);
    let old: Option<Vec<String>> = p.work["old"].as_array().map(|_| p.strs("old"));
    if let Some(o) = &old {
        let text: String = o.iter().map(|s| format!("{}\n", s)).collect();
        pr.vfs.put_durable(&path, text.as_bytes());
    }
    let restart = p.u("restart") == 1;
    let kind = p.kind.clone();
    let work = p.work.clone();
    let build = move |ctx: bool| {
        outside(|| {
            if ctx {
                alg::set_ctx(Ctx::from_json(&work["world"]));
            }
            if kind == "rules" { Saved::R(ruleset(&strs(&work["rules"]))) } else { Saved::W(workload(&work["wkl"])) }
        })
    };
    let twice = p.u("twice") == 1;
    let session = |save: bool| -> Result<Value, Verdict> {
        let x = build(true);
        let want = outside(|| x.list());
        if save {
            let h0 = hard_fired();
            let res = call(|| x.save(&path));
            let hard = hard_fired() > h0;
            outside(|| {
                let now = os::state().vfs.file(&path).map(|b| lines_of(&b));
                match &res {
                    Ok(()) => {
                        if hard { os::probe("saved-despite-fault") }
                        match now {
                            Some(l) if l == want => Ok(()),
                            Some(l) => bad("wrong-file", format!("saving returned normally but the file is wrong: {}", diff(&want, &l))),
                            None => bad("wrong-file", "saving returned normally but there is no file"),
                        }
                    }
                    Err(m) if !hard => bad("panic", format!("saving failed although no operation failed: {}", m)),
                    Err(_) => {
                        os::probe("save-reported-fault");
                        if now == old || now.as_ref() == Some(&want) { Ok(()) } else { bad("half-saved", "saving failed and left neither the old nor the new contents") }
                    }
                }
            })?;
            if res.is_err() {
                return Ok(json!(null));
            }
        }
        if save && restart {
            return Ok(outside(|| os::state().vfs.to_json()));
        }
        for _ in 0..if twice { 2 } else { 1 } {
            let h0 = hard_fired();
            let got = call(|| x.load(&path));
            let hard = hard_fired() > h0;
            outside(|| match got {
                Ok(l) if l == want => {
                    os::probe("round-trip-exact");
                    if want.iter().map(|s| s.len() + 1).sum::<usize>() > 8192 { os::probe("larger-than-buffer") }
                    Ok(())
                }
                Ok(l) => bad("wrong-load", format!("loading returned normally but: {}", diff(&want, &l))),
                Err(_) if hard => {
                    os::probe("load-reported-fault");
                    Ok(())
                }
                Err(m) => bad("panic", format!("loading failed although no operation failed: {}", m)),
            })?;
        }
        Ok(json!(null))
    };
    let mut image = Value::Null;
    let v = judged(d, &pr, || session(true), &mut image);
    if v != Verdict::Ok || image.is_null() {
        return v;
    }
    // the other half in a new process
    let mut p2 = p.proc();
    p2.sched.seed ^= 0x5555;
    p2.vfs = Vfs::from_json(&image);
    judged(d, &p2, || session(false), &mut image)
}

/// Like Drive::judge, for closures that also return a value.
pub fn judged(d: &mut Drive, p: &Proc, f: impl FnOnce() -> Result<Value, Verdict>, out: &mut Value) -> Verdict {
    let r = d.proc(p, || {
        let v = f();
        outside(|| match v {
            Ok(x) => json!({"v": "ok", "x": x}),
            Err(Verdict::Ok) => json!({"v": "ok", "x": null}),
            Err(Verdict::Skip(s)) => json!({"v": "skip", "why": s}),
            Err(Verdict::Bad(c, e)) => json!({"v": "bad", "class": c, "detail": e}),
        })
    });
    match r {
        Err(v) => v,
        Ok(r) if r.status == "crashed" => {
            *out = json!({"crashed": r.out, "image": r.image, "model": r.model});
            Verdict::Ok
        }
        Ok(r) => match r.out["v"].as_str() {
            Some("ok") => {
                *out = r.out["x"].clone();
                Verdict::Ok
            }
            Some("skip") => Verdict::Skip(r.out["why"].as_str().unwrap().to_string()),
            Some("bad") => Verdict::Bad(r.out["class"].as_str().unwrap().to_string(), r.out["detail"].as_str().unwrap().to_string()),
            _ => Verdict::Skip("no verdict".into()),
        },
    }
}

pub fn prepare_dirs(v: &mut Vfs) {
    for d in ["out", "out/deep", "tests", "tests/recipes"] {
        v.mkdir_durable(d);
    }
}

// ---------------------------------------------------------------------------------------
// C13: crashes and failures while saving

pub fn gen_crash_save(r: &mut Rng) -> Plan {
    let w = gen_lang(r);
    let nproc = r.range(1, 3);
    let mut procs = vec![];
    let mut init = json!({});
    for path in PATHS.iter() {
        if r.chance(1, 2) {
            init[*path] = json!(gen_names(r, &w, 60));
        }
    }
    for _ in 0..nproc {
        let nthreads = *r.pick(&[1, 1, 1, 2, 3]);
        let mut threads = vec![];
        for t in 0..nthreads {
            let mut calls = vec![];
            for _ in 0..r.range(1, 3) {
                // distinct files per thread
                let path = if nthreads == 1 { *r.pick(&PATHS) } else { PATHS[t] };
                if r.chance(1, 3) {
                    let g = Gen::from_json(&w);
                    let terms: Vec<String> = (0..r.logu(1, 60)).map(|_| g.term(r, 2)).collect();
                    calls.push(json!({"path": path, "terms": terms}));
                } else {
                    let max = *r.pick(&[4, 40, 300]);
                    calls.push(json!({"path": path, "rules": gen_names(r, &w, max)}));
                }
            }
            threads.push(json!(calls));
        }
        let ops = 8 * nthreads as u64 * 3;
        let mut f = vec![];
        match r.below(5) {
            0 => gen_io_faults(r, ops, true, &mut f),
            1 | 2 => f.push(Fault::new("crash", r.range(0, ops), false, r.next() >> 20)),
            _ => f.push(Fault::new("power", r.range(0, ops), false, r.next() >> 20)),
        }
        if r.chance(1, 3) {
            gen_io_faults(r, ops, false, &mut f);
        }
        procs.push(json!({"threads": threads, "faults": enc_faults(&f), "end_power": r.below(3)}));
    }
    Plan::new("crashsave", json!({"world": w, "init": init, "procs": procs}), vec![], gen_sched(r))
}

fn saved_of(c: &Value) -> Saved {
    if c["terms"].is_array() { Saved::W(Workload::new(strs(&c["terms"]))) } else { Saved::R(ruleset(&strs(&c["rules"]))) }
}

pub fn drive_crash_save(d: &mut Drive, p: &Plan) -> Verdict {
    d.small = true;
    let mut vfs = Vfs::new();
    prepare_dirs(&mut vfs);
    // per path: contents that a crash may bring back, the current one last
    let mut hist: BTreeMap<String, Vec<Option<Vec<String>>>> = PATHS.iter().map(|p| (p.to_string(), vec![None])).collect();
    for path in PATHS.iter() {
        if p.work["init"][*path].is_array() {
            let l = strs(&p.work["init"][*path]);
            vfs.put_durable(path, l.iter().map(|s| format!("{}\n", s)).collect::<String>().as_bytes());
            hist.insert(path.to_string(), vec![Some(l)]);
        }
    }
    let empty = vec![];
    for (k, pv) in p.work["procs"].as_array().unwrap_or(&empty).iter().enumerate() {
        let mut sched = p.sched.clone();
        sched.seed = sched.seed.wrapping_add(k as u64 * 977);
        let pr = Proc { sched, faults: dec_faults(&pv["faults"]), vfs: vfs.clone() };
        let start: BTreeMap<String, Value> = hist.iter().map(|(k, h)| (k.clone(), json!({"cur": h.last().unwrap(), "next": null, "all": h}))).collect();
        let world = p.work["world"].clone();
        let threads = pv["threads"].clone();
        let mut out = Value::Null;
        let v = judged(d, &pr, move || {
            outside(|| {
                alg::set_ctx(Ctx::from_json(&world));
                os::set_model(json!(start));
            });
            let lists: Vec<Value> = threads.as_array().cloned().unwrap_or_default();
            if lists.len() <= 1 {
                save_all(lists.get(0).unwrap_or(&Value::Null))?;
            } else {
                let hs: Vec<_> = lists.into_iter().map(|l| std::thread::spawn(move || save_all(&l))).collect();
                for h in hs {
                    h.join().unwrap_or_else(|_| bad("panic", "thread panicked"))?;
                }
            }
            Ok(outside(|| json!({"image": os::state().vfs.to_json(), "model": os::state().model.clone()})))
        }, &mut out);
        if v != Verdict::Ok {
            return v;
        }
        let crashed = !out["crashed"].is_null();
        let mut power = out["crashed"]["power"] == true;
        vfs = Vfs::from_json(&out["image"]);
        if !crashed && pv["end_power"] == 1 {
            // the machine loses power some time after the process has ended
            let mut r = Rng::new(p.sched.seed ^ 0xabcd ^ k as u64);
            vfs = vfs.after_power_loss(&mut |n| r.below(n));
            power = true;
            d.probe("power-lost-after-end");
        }
        if crashed { d.probe(if power { "power-lost-while-saving" } else { "killed-while-saving" }) }
        for path in PATHS.iter() {
            let m = &out["model"][*path];
            let opt = |v: &Value| -> Option<Vec<String>> { v.as_array().map(|_| strs(v)) };
            let cur = opt(&m["cur"]);
            let found = vfs.file(path).map(|b| lines_of(&b));
            let mut all: Vec<Option<Vec<String>>> = m["all"].as_array().unwrap().iter().map(&opt).collect();
            let inflight = m["next"].is_array();
            if inflight {
                d.probe("interrupted-save");
                all.push(opt(&m["next"]));
            }
            let ok = if power { all.contains(&found) } else { found == cur || (inflight && found == opt(&m["next"])) };
            if !ok {
                return Verdict::Bad("torn-file".into(), format!("after {} the file {} holds neither its old nor its new contents: {:?} (before {:?})",
                    if power { "a power loss" } else if crashed { "a kill" } else { "a failed save" }, path, brief(&found), brief(&cur)));
            }
            if power && inflight && found == opt(&m["next"]) { d.probe("new-contents-survived") }
            // a kill leaves the state of the disk itself open until the next save is complete
            all.retain(|x| x != &found);
            all.push(found.clone());
            hist.insert(path.to_string(), if power { vec![found] } else { all });
        }
        // restart: loading gives exactly what is there, saving works again
        let mut pr = Proc::calm(p.sched.seed ^ 77);
        pr.vfs = vfs.clone();
        let want: Vec<(String, Option<Vec<String>>)> = hist.iter().map(|(k, v)| (k.clone(), v.last().unwrap().clone())).collect();
        let world = p.work["world"].clone();
        let v = judged(d, &pr, move || {
            outside(|| alg::set_ctx(Ctx::from_json(&world)));
            for (path, l) in want {
                let is_rules = outside(|| l.as_ref().map_or(true, |l| l.iter().all(|s| s.contains("==>"))));
                let kind = outside(|| if is_rules { Saved::R(Ruleset::default()) } else { Saved::W(Workload::empty()) });
                let got = call(|| kind.load(&path));
                outside(|| match (got, &l) {
                    (Ok(g), Some(l)) if &g == l => Ok(()),
                    (Ok(g), Some(l)) => bad("wrong-load", format!("after the restart {} loads wrongly: {}", path, diff(l, &g))),
                    (Ok(_), None) => bad("wrong-load", format!("{} does not exist but loads", path)),
                    (Err(m), Some(_)) => bad("panic", format!("{} exists but cannot be loaded: {}", path, m)),
                    (Err(_), None) => Ok(()),
                })?;
            }
            let again = outside(|| Saved::R(ruleset(&["(f ?a) ==> ?a".to_string()])));
            let res = call(|| again.save("out/w.rules"));
            outside(|| match (res, os::state().vfs.file("out/w.rules").map(|b| lines_of(&b))) {
                (Ok(()), Some(l)) if l == again.list() => Ok(()),
                (Ok(()), l) => bad("wrong-file", format!("saving after the restart wrote {:?}", l)),
                (Err(m), _) => bad("panic", format!("saving after the restart failed: {}", m)),
            })?;
            Ok(Value::Null)
        }, &mut Value::Null);
        if v != Verdict::Ok {
            return v;
        }
    }
    Verdict::Ok
}
fn brief(o: &Option<Vec<String>>) -> String {
    match o {
        None => "absent".into(),
        Some(l) => format!("{} entries {:?}", l.len(), l.iter().take(2).collect::<Vec<_>>()),
    }
}

fn save_all(calls: &Value) -> Result<(), Verdict> {
    let calls: Vec<Value> = outside(|| calls.as_array().cloned().unwrap_or_default());
    for c in &calls {
        let (x, path, want) = outside(|| {
            let x = saved_of(c);
            let want = x.list();
            let path = c["path"].as_str().unwrap().to_string();
            os::state().model[&path]["next"] = json!(want);
            (x, path, want)
        });
        let res = call(|| x.save(&path));
        outside(|| {
            let found = os::state().vfs.file(&path).map(|b| lines_of(&b));
            let m = &mut os::state().model[&path];
            let cur = m["cur"].as_array().map(|_| strs(&m["cur"]));
            if !(found.as_ref() == Some(&want) || (res.is_err() && found == cur)) {
                return bad("torn-file", format!("after {} the file {} holds neither its old nor its new contents: {}", if res.is_err() { "a failed save" } else { "saving" }, path, brief(&found)));
            }
            if res.is_err() {
                if hard_fired() == 0 {
                    return bad("panic", format!("saving failed although no operation failed: {}", res.unwrap_err()));
                }
                os::probe("save-reported-fault");
            }
            m["cur"] = json!(found);
            m["next"] = Value::Null;
            m["all"].as_array_mut().unwrap().push(json!(found));
            Ok(())
        })?;
        outside(move || drop((x, path, want)));
    }
    outside(move || drop(calls));
    Ok(())
}

// ---------------------------------------------------------------------------------------
// the nightly report

const NIGHTLY: &str = "nightly/data/output.json";

/// Equal up to floating-point rounding.
pub fn same_value(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if x == y {
                return true;
            }
            if x.is_f64() || y.is_f64() {
                let (x, y) = (x.as_f64().unwrap_or(0.0), y.as_f64().unwrap_or(1.0));
                return (x - y).abs() <= 1e-12 * x.abs().max(y.abs());
            }
            false
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_value(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same_value(v, w))),
        _ => a == b,
    }
}
fn has_text(v: &Value, t: &str) -> bool {
    match v {
        Value::String(s) => s.contains(t),
        Value::Array(a) => a.iter().any(|x| has_text(x, t)),
        Value::Object(o) => o.values().any(|x| has_text(x, t)),
        _ => false,
    }
}
fn old_rows(r: &mut Rng) -> Value {
    let n = r.logu(1, 8) - 1;
    let rows: Vec<Value> = (0..n)
        .map(|i| match r.below(5) {
            0 => json!({"TYPE": "ff_phases", "phase1": format!("eqsat (old{})", i), "time": 0.1 + i as f64 / 7.0, "rules": ["(f ?a) ==> ?a"]}),
            1 => json!({"TYPE": "bv", "n": [1, 2.5e-9, -3, 18446744073709551615u64], "t": 1e300, "deep": {"a": {"b": [[], {}]}}}),
            2 => json!({"old": i, "text": "uni \u{e9}\u{4e2d} \"quoted\" \\ \n newline", "x": null, "y": true}),
            3 => json!(format!("row {}", i)),
            _ => json!({"old": i, "time": std::f64::consts::PI * (i + 1) as f64, "rules": (0..r.logu(1, 200)).map(|k| format!("(+ ?a {}) ==> ?a", k)).collect::<Vec<_>>()}),
        })
        .collect();
    json!(rows)
}
/// The nightly file before the run: null (absent), or text.
fn gen_initial(r: &mut Rng) -> (Value, Value) {
    let rows = if r.chance(1, 12) {
        // the rows of a year of nights
        let n = r.logu(100, 2500);
        json!((0..n).map(|i| json!({"old": i, "t": i as f64 / 3.0})).collect::<Vec<_>>())
    } else {
        old_rows(r)
    };
    let text = match r.below(7) {
        0 => return (Value::Null, json!([])),
        1 => return (json!(""), json!([])),
        2 => return (json!("[]"), json!([])),
        3 => rows.to_string(),
        _ => serde_json::to_string_pretty(&rows).unwrap(),
    };
    (json!(text), rows)
}

fn gen_report(r: &mut Rng, w: &Value, tag: &str, heavy: bool) -> Value {
    let rules = gen_names(r, w, 20);
    match r.below(if heavy { 8 } else { 12 }) {
        0 => {
            let (a, b) = (small_rules(r, w, 3), small_rules(r, w, 2));
            json!({"op": "bv", "tag": tag, "gen": a, "ported": b, "ns": r.logu(1, 1 << 50)})
        }
        1 => {
            let (a, b) = (small_rules(r, w, 2), small_rules(r, w, 2));
            json!({"op": "base", "tag": tag, "rules": a, "base": b, "ns": r.logu(1, 1 << 50), "spec": tag, "bname": "base"})
        }
        _ => json!({"op": "ff", "tag": tag, "rules": rules, "ns": r.logu(1, 1 << 50), "s": [r.below(3), r.below(3), r.below(3)],
            "names": [tag, *r.pick(&["all", "a b", "\u{e9}\u{4e2d}", "\"q\"", ""]), "prior"]}),
    }
}
/// Few and simple rules, so that derivability is cheap.
fn small_rules(r: &mut Rng, w: &Value, n: u64) -> Vec<String> {
    let c = Ctx::from_json(w);
    let g = Gen::from_json(w);
    let k = r.range(0, n);
    let mut v = gen_rules(&g, &c, r, k, true, 1);
    v.retain(|s| s.len() < 40);
    v
}

fn do_report(c: &Value) {
    let s = |k: &str| outside(|| c[k].as_str().unwrap_or("").to_string());
    let t = Duration::from_nanos(c["ns"].as_u64().unwrap_or(1));
    let rs = |k: &str| outside(|| ruleset(&strs(&c[k])));
    match &s("op")[..] {
        "bv" => ruler::logger::write_bv_derivability(&s("tag"), rs("gen"), t, rs("ported")),
        "base" => ruler::logger::write_baseline(&rs("rules"), &s("spec"), &rs("base"), &s("bname"), t),
        _ => {
            let ph = |i: usize| {
                outside(|| Phase { rules: Ruleset::<Alg>::default(), rules_name: c["names"][i].as_str().unwrap_or("").to_string(), scheduler: sched_of(c["s"][i].as_u64().unwrap_or(0), limits(&json!({}))) })
            };
            ruler::logger::write_ff_phase(ph(0), ph(1), ph(2), t, &rs("rules"))
        }
    }
}

fn read_rows(vfs: &Vfs) -> Result<Vec<Value>, String> {
    match vfs.file(NIGHTLY) {
        None => Ok(vec![]),
        Some(b) if b.is_empty() => Ok(vec![]),
        Some(b) => match serde_json::from_slice::<Value>(&b) {
            Ok(Value::Array(a)) => Ok(a),
            Ok(_) => Err("the file is not an array".into()),
            Err(e) => Err(format!("the file is not well-formed: {} (length {})", e, b.len())),
        },
    }
}
/// rows must be `before`, plus (if `tag` is given) optionally or necessarily the row of `tag`.
fn check_rows(rows: &[Value], before: &[Value], tag: Option<&str>, must: bool) -> Result<(), Verdict> {
    for (i, b) in before.iter().enumerate() {
        match rows.get(i) {
            None => return bad("lost-row", format!("{} rows were recorded, only {} are left", before.len(), rows.len())),
            Some(x) if !same_value(b, x) => return bad("changed-row", format!("row {} was {} and is now {}", i, clip(b), clip(x))),
            _ => {}
        }
    }
    let extra = &rows[before.len()..];
    match (extra.len(), tag) {
        (0, _) if !must => Ok(()),
        (0, t) => bad("missing-row", format!("no row was added by {}", t.unwrap_or("?"))),
        (1, Some(t)) if has_text(&extra[0], t) => Ok(()),
        (1, Some(t)) => bad("wrong-row", format!("the added row is not that of {}: {}", t, clip(&extra[0]))),
        (n, _) => bad("extra-rows", format!("{} unexpected rows, first {}", n, clip(&extra[0]))),
    }
}
fn clip(v: &Value) -> String {
    v.to_string().chars().take(160).collect()
}

pub fn gen_history(r: &mut Rng) -> Plan {
    let mut w = gen_lang(r);
    w["nlits"] = json!(1);
    let (init, rows) = gen_initial(r);
    let mut procs = vec![];
    let mut n = 0;
    for _ in 0..r.range(1, 4) {
        let mut calls = vec![];
        for _ in 0..r.range(1, 4) {
            n += 1;
            calls.push(gen_report(r, &w, &format!("tag-{}-", n), false));
        }
        let ops = 14 * calls.len() as u64;
        let mut f = vec![];
        match r.below(6) {
            0 => gen_io_faults(r, ops, false, &mut f),
            1 | 2 => gen_io_faults(r, ops, true, &mut f),
            3 | 4 => f.push(Fault::new("crash", r.range(0, ops), false, r.next() >> 20)),
            _ => f.push(Fault::new("power", r.range(0, ops), false, r.next() >> 20)),
        }
        procs.push(json!({"calls": calls, "faults": enc_faults(&f), "end_power": r.below(3)}));
    }
    Plan::new("history", json!({"world": w, "init": init, "rows": rows, "procs": procs}), vec![], gen_sched(r))
}

pub fn drive_history(d: &mut Drive, p: &Plan) -> Verdict {
    let mut vfs = Vfs::new();
    prepare_dirs(&mut vfs);
    if let Some(t) = p.work["init"].as_str() {
        vfs.put_durable(NIGHTLY, t.as_bytes());
    }
    let mut rows: Vec<Value> = match read_rows(&vfs) {
        Ok(r) => r,
        Err(_) => return Verdict::Skip("initial file".into()),
    };
    // so many of the last rows may not be on the disk itself yet (their call was killed or
    // an operation failed during it, and no call completed since)
    let mut soft = 0;
    let empty = vec![];
    let mut all = p.work["procs"].as_array().unwrap_or(&empty).clone();
    // after the history, a healthy call must succeed
    all.push(json!({"calls": [{"op": "ff", "tag": "tag-last-", "rules": [], "ns": 5, "s": [0, 0, 0], "names": ["tag-last-", "x", "y"]}], "faults": []}));
    for (k, pv) in all.iter().enumerate() {
        let mut sched = p.sched.clone();
        sched.seed = sched.seed.wrapping_add(k as u64 * 977);
        let pr = Proc { sched, faults: dec_faults(&pv["faults"]), vfs: vfs.clone() };
        let world = p.work["world"].clone();
        let calls = pv["calls"].clone();
        let start = rows.clone();
        let mut out = Value::Null;
        let v = judged(d, &pr, move || {
            outside(|| {
                alg::set_ctx(Ctx::from_json(&world));
                os::set_model(json!({"rows": start, "inflight": null, "soft": soft}));
            });
            let calls: Vec<Value> = outside(|| calls.as_array().cloned().unwrap_or_default());
            for c in &calls {
                let h0 = hard_fired();
                outside(|| os::state().model["inflight"] = c["tag"].clone());
                let res = call(|| do_report(c));
                outside(|| {
                    let hard = hard_fired() > h0;
                    if let (Err(m), false) = (&res, hard) {
                        return bad("report-failed", format!("a report call failed although no operation failed during it: {}", m));
                    }
                    if res.is_err() { os::probe("report-reported-fault") }
                    let now = match read_rows(&os::state().vfs) {
                        Ok(r) => r,
                        Err(e) => return bad("malformed-file", format!("after a {} call: {}", if res.is_ok() { "successful" } else { "failed" }, e)),
                    };
                    let before = os::state().model["rows"].as_array().unwrap().clone();
                    check_rows(&now, &before, c["tag"].as_str(), res.is_ok())?;
                    if before.len() > 0 { os::probe("appended-to-existing-rows") }
                    let soft = if res.is_ok() && !hard { 0 } else { os::state().model["soft"].as_u64().unwrap_or(0) + (now.len() - before.len()) as u64 };
                    os::state().model = json!({"rows": now, "inflight": null, "soft": soft});
                    Ok(())
                })?;
            }
            Ok(outside(|| json!({"image": os::state().vfs.to_json(), "model": os::state().model.clone(), "hard": hard_fired()})))
        }, &mut out);
        if v != Verdict::Ok {
            return v;
        }
        vfs = Vfs::from_json(&out["image"]);
        let mut what = if out["crashed"]["power"] == true { "a power loss" } else if !out["crashed"].is_null() { "a kill" } else { "the end of the process" };
        if out["crashed"].is_null() && pv["end_power"] == 1 {
            let mut r = Rng::new(p.sched.seed ^ 0xabcd ^ k as u64);
            vfs = vfs.after_power_loss(&mut |n| r.below(n));
            what = "a later power loss";
            d.probe("power-lost-after-end");
        }
        if what != "the end of the process" { d.probe(&format!("history-{}", what.replace(' ', "-"))) }
        let now = match read_rows(&vfs) {
            Ok(r) => r,
            Err(e) => return Verdict::Bad("malformed-file".into(), format!("after {}: {}", what, e)),
        };
        let before = out["model"]["rows"].as_array().unwrap().clone();
        let power = what.contains("power");
        soft = out["model"]["soft"].as_u64().unwrap_or(0) as usize;
        // a power loss may take the rows that were not on the disk yet, the newest first
        let upto = if power { now.len().clamp(before.len().saturating_sub(soft), before.len()) } else { before.len() };
        if let Err(Verdict::Bad(c, e)) = check_rows(&now, &before[..upto], out["model"]["inflight"].as_str(), false) {
            return Verdict::Bad(c, format!("after {}: {}", what, e));
        }
        soft = if power { 0 } else { soft + now.len() - before.len() };
        if now.len() > before.len() { d.probe("interrupted-row-kept") }
        rows = now;
    }
    Verdict::Ok
}

// C15
pub fn gen_conc_report(r: &mut Rng) -> Plan {
    let w = gen_lang(r);
    let (init, rows) = gen_initial(r);
    let mut threads = vec![];
    for t in 0..r.range(2, 6) {
        let calls: Vec<Value> = (0..r.range(1, 3)).map(|k| gen_report(r, &w, &format!("tag-{}-{}-", t, k), false)).collect();
        threads.push(json!(calls));
    }
    let mut faults = vec![];
    gen_thread_faults(r, &mut faults);
    if r.chance(1, 2) {
        gen_io_faults(r, 60, false, &mut faults);
    }
    let mut s = gen_sched(r);
    if s.policy == 0 {
        s.policy = 1;
        s.param = 300;
    }
    Plan::new("concreport", json!({"world": w, "init": init, "rows": rows, "threads": threads}), faults, s)
}

pub fn drive_conc_report(d: &mut Drive, p: &Plan) -> Verdict {
    let mut pr = p.proc();
    prepare_dirs(&mut pr.vfs);
    if let Some(t) = p.work["init"].as_str() {
        pr.vfs.put_durable(NIGHTLY, t.as_bytes());
    }
    let before = match read_rows(&pr.vfs) {
        Ok(r) => r,
        Err(_) => return Verdict::Skip("initial file".into()),
    };
    let world = p.work["world"].clone();
    let lists: Vec<Value> = p.work["threads"].as_array().cloned().unwrap_or_default();
    d.judge(&pr, move || {
        outside(|| alg::set_ctx(Ctx::from_json(&world)));
        let hs: Vec<_> = lists
            .into_iter()
            .map(|l| {
                std::thread::spawn(move || {
                    let calls: Vec<Value> = outside(|| l.as_array().cloned().unwrap_or_default());
                    let mut log: Vec<(String, u64, u64, Option<String>)> = outside(Vec::new);
                    for c in &calls {
                        let a = os::event_seq();
                        let res = call(|| do_report(c));
                        let b = os::event_seq();
                        outside(|| log.push((c["tag"].as_str().unwrap_or("?").to_string(), a, b, res.err())));
                    }
                    log
                })
            })
            .collect();
        let mut log: Vec<(String, u64, u64, Option<String>)> = vec![];
        for h in hs {
            match h.join() {
                Ok(l) => log.extend(l),
                Err(_) => return bad("panic", "a reporting thread died"),
            }
        }
        outside(|| {
            if let Some(e) = log.iter().find(|e| e.3.is_some()) {
                return bad("report-failed", format!("the report call {} failed although no operation failed: {}", e.0, e.3.as_ref().unwrap()));
            }
            let rows = match read_rows(&os::state().vfs) {
                Ok(r) => r,
                Err(e) => return bad("malformed-file", e),
            };
            check_rows(&rows[..before.len().min(rows.len())], &before, None, false)?;
            let new = &rows[before.len()..];
            let mut pos: BTreeMap<String, usize> = BTreeMap::new();
            for e in &log {
                let at: Vec<usize> = (0..new.len()).filter(|&i| has_text(&new[i], &e.0)).collect();
                match at.len() {
                    0 => return bad("lost-row", format!("the row of call {} is missing: {} calls, {} new rows", e.0, log.len(), new.len())),
                    1 => {
                        pos.insert(e.0.clone(), at[0]);
                    }
                    n => return bad("duplicate-row", format!("the row of call {} is there {} times", e.0, n)),
                }
            }
            if new.len() != log.len() {
                return bad("extra-rows", format!("{} calls but {} new rows", log.len(), new.len()));
            }
            let mut overlapped = false;
            for a in &log {
                for b in &log {
                    if a.2 < b.1 && pos[&a.0] > pos[&b.0] {
                        return bad("order", format!("call {} returned before call {} began, but its row comes later", a.0, b.0));
                    }
                    if a.0 != b.0 && a.1 < b.2 && b.1 < a.2 { overlapped = true }
                }
            }
            if overlapped { os::probe("overlapping-calls") }
            Ok(())
        })
    })
}

// C16
pub fn gen_truth(r: &mut Rng) -> Plan {
    let mut w = alg::gen_world(r);
    w["nvars"] = json!(r.range(1, 2));
    w["latency"] = json!(r.logu(1_000_000, 200_000_000));
    let mut c = match r.below(5) {
        0 | 1 => {
            let (a, b) = (rules_for_derive(r, &w, 5), rules_for_derive(r, &w, 6));
            json!({"op": "bv", "tag": *r.pick(&["BV8", "BV128", "x\u{e9}"]), "gen": a, "ported": b, "ns": r.logu(1, 1 << 50)})
        }
        2 => gen_report(r, &w, "tag", true),
        _ => {
            let (a, b) = (rules_for_derive(r, &w, 4), rules_for_derive(r, &w, 4));
            let names = ["herbie", "rational_replicate", "rational_best", "bool", "halide", "tag", "herbie "];
            json!({"op": "base", "tag": "t", "rules": a, "base": b, "ns": r.logu(1, 1 << 50), "spec": *r.pick(&names), "bname": *r.pick(&names)})
        }
    };
    if c["op"] == "base" && r.chance(1, 2) {
        let pair = *r.pick(&[("herbie", "rational_replicate"), ("herbie", "rational_best"), ("rational_replicate", "herbie"), ("rational_best", "herbie")]);
        c["spec"] = json!(pair.0);
        c["bname"] = json!(pair.1);
    }
    let recipe = if r.chance(2, 3) { json!(gen_text(r, 3000)) } else { Value::Null };
    let mut faults = vec![];
    gen_thread_faults(r, &mut faults);
    gen_io_faults(r, 30, false, &mut faults);
    for _ in 0..r.below(3) {
        faults.push(Fault::new("wjump", r.logu(1, 300), false, r.range(1, 150) * 1_000_000_000));
    }
    if r.chance(1, 3) {
        gen_solver_faults(r, 4, &mut faults, false);
    }
    Plan::new("truth", json!({"world": w, "call": c, "recipe": recipe}), faults, gen_sched(r))
}
/// Rules of a few related kinds, so that some derive others.
pub fn rules_for_derive(r: &mut Rng, w: &Value, n: u64) -> Vec<String> {
    let c = Ctx::from_json(w);
    let g = Gen::from_json(w);
    let k = r.range(0, n);
    let depth = *r.pick(&[1, 1, 2]);
    let bad = r.chance(1, 3);
    let mut v = gen_rules(&g, &c, r, k, bad, depth);
    v.truncate(n as usize + 1);
    v
}
pub fn gen_text(r: &mut Rng, max: u64) -> String {
    // bytes, one per char (latin-1), mostly text with line ends
    let n = r.logu(1, max + 1) - 1;
    let mut s = String::new();
    for _ in 0..n {
        match r.below(14) {
            0 | 1 => s.push('\n'),
            2 => s.push_str("\r\n"),
            3 => s.push((128 + r.below(128) as u8) as char),
            4 => s.push('\0'),
            _ => s.push((32 + r.below(90) as u8) as char),
        }
    }
    if r.chance(1, 3) {
        s.push('\n');
    }
    s
}
pub fn bytes(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}
pub fn count(b: &[u8]) -> usize {
    b.iter().filter(|c| **c == b'\n').count() + (!b.is_empty() && *b.last().unwrap() != b'\n') as usize
}

pub fn drive_truth(d: &mut Drive, p: &Plan) -> Verdict {
    let mut pr = p.proc();
    prepare_dirs(&mut pr.vfs);
    let c = p.work["call"].clone();
    if c["op"].is_null() {
        return Verdict::Skip("empty".into());
    }
    let mut loc = "-".to_string();
    if let (Some(t), Some(spec)) = (p.work["recipe"].as_str(), c["spec"].as_str()) {
        let b = bytes(t);
        loc = count(&b).to_string();
        pr.vfs.put_durable(&format!("tests/recipes/{}.rs", spec), &b);
    }
    let world = p.work["world"].clone();
    d.judge(&pr, move || {
        outside(|| {
            alg::set_ctx(Ctx::from_json(&world));
            os::state().reads = Some(vec![]);
        });
        let t0 = os::now_ns();
        let res = call(|| do_report(&c));
        let t1 = os::now_ns();
        let reads = outside(|| os::state().reads.take().unwrap());
        let jumped: u64 = outside(|| p.faults.iter().filter(|f| f.kind == "wjump").map(|f| f.arg).sum::<u64>());
        let all_jumped = outside(|| os::fired("wjump") == p.faults.iter().filter(|f| f.kind == "wjump").count() as u64);
        outside(|| {
            if let Err(m) = &res {
                return bad("report-failed", format!("the report call failed although no operation failed: {}", m));
            }
            os::calm();
            let log = alg::take_log();
            let rows = match read_rows(&os::state().vfs) {
                Ok(r) => r,
                Err(e) => return bad("malformed-file", e),
            };
            if rows.len() != 1 {
                return bad("missing-row", format!("{} rows", rows.len()));
            }
            let row = &rows[0];
            let text = |v: &Value, want: &str, what: &str| if v == want { Ok(()) } else { bad("wrong-field", format!("{} is {} instead of {:?}", what, v, want)) };
            let list = |v: &Value, want: &[String], what: &str| -> Result<(), Verdict> {
                if v.is_array() && strs(v) == want { Ok(()) } else { bad("wrong-field", format!("{} is {} instead of {:?}", what, clip(v), want)) }
            };
            let dur = Duration::from_nanos(c["ns"].as_u64().unwrap_or(1)).as_secs_f64();
            let time = |v: &Value, what: &str| match v.as_f64() {
                Some(t) if (t - dur).abs() <= 1e-12 * dur.abs() => Ok(()),
                _ => bad("wrong-time", format!("{} is {} instead of {}", what, v, dur)),
            };
            // measured times: differences of clock readings made during the call
            let mut total = 0f64;
            let mut measured = |v: &Value, what: &str| -> Result<f64, Verdict> {
                let t = match v.as_f64() {
                    Some(t) => t,
                    None => return bad("wrong-time", format!("{} is {}", what, v)),
                };
                let ns = (t * 1e9).round() as i128;
                let ok = reads.iter().enumerate().any(|(i, a)| reads[i..].binary_search_by(|b| {
                    let dlt = *b as i128 - *a as i128 - ns;
                    if dlt < -1 { std::cmp::Ordering::Less } else if dlt > 1 { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }
                }).is_ok());
                if !ok {
                    return bad("wrong-time", format!("{} is {} s, which is not a time between two clock readings", what, t));
                }
                total += t;
                Ok(t)
            };
            let names = |k: &str| ruleset(&strs(&c[k])).to_str_vec();
            match c["op"].as_str().unwrap() {
                "ff" => {
                    os::probe("row-ff");
                    text(&row["TYPE"], "ff_phases", "TYPE")?;
                    for i in 0..3 {
                        let k = ["eqsat", "sat", "compress"][c["s"][i].as_u64().unwrap_or(0).min(2) as usize];
                        let want = format!("{} ({})", k, c["names"][i].as_str().unwrap_or(""));
                        text(&row[&format!("phase{}", i + 1)], &want, "phase")?;
                    }
                    list(&row["rules"], &names("rules"), "rules")?;
                    time(&row["time"], "time")
                }
                "bv" => {
                    os::probe("row-bv");
                    text(&row["TYPE"], "bv", "TYPE")?;
                    text(&row["domain"], c["tag"].as_str().unwrap(), "domain")?;
                    list(&row["direct_gen"]["rules"], &names("gen"), "direct_gen.rules")?;
                    time(&row["direct_gen"]["time"], "direct_gen.time")?;
                    // as the validator answered while the row was made
                    let ported = names("ported");
                    let sound: Vec<String> = ported.iter().filter(|n| log.iter().any(|e| &e.0 == *n && e.1 == 0)).cloned().collect();
                    list(&row["from_bv4"]["rules"], &sound, "from_bv4.rules")?;
                    let vt = measured(&row["from_bv4"]["time"], "from_bv4.time")?;
                    let lat: u64 = log.len() as u64 * alg::ctx().latency;
                    if vt * 1e9 + 1.0 < lat as f64 {
                        return bad("wrong-time", format!("validation took at least {} s but {} is reported", lat as f64 / 1e9, vt));
                    }
                    let (s, g) = (ruleset(&sound), ruleset(&strs(&c["gen"])));
                    let mut dt = 0.0;
                    for (k, ty) in [("lhs", DeriveType::Lhs), ("lhs_rhs", DeriveType::LhsAndRhs)] {
                        verdicts(&row["derivability"][k], &s, &g, ty, k)?;
                        dt += measured(&row["derivability"][k]["time"], k)?;
                    }
                    times_fit(total, dt, t1 - t0, jumped, all_jumped)
                }
                _ => {
                    os::probe("row-baseline");
                    let (spec, bname) = (c["spec"].as_str().unwrap(), c["bname"].as_str().unwrap());
                    text(&row["TYPE"], "baseline", "TYPE")?;
                    text(&row["spec_name"], spec, "spec_name")?;
                    text(&row["baseline_name"], bname, "baseline_name")?;
                    text(&row["loc"], &loc, "loc")?;
                    list(&row["rules"], &names("rules"), "rules")?;
                    time(&row["time"], "time")?;
                    let (a, b) = (ruleset(&strs(&c["rules"])), ruleset(&strs(&c["base"])));
                    let skip = |x: &str, y: &str| x == "herbie" && (y == "rational_replicate" || y == "rational_best");
                    for (k, x, y, off) in [("enumo_derives_baseline", &a, &b, skip(spec, bname)), ("baseline_derives_enumo", &b, &a, skip(bname, spec))] {
                        let v = &row["derivability"][k];
                        if off {
                            os::probe("excluded-direction");
                            if v != &json!({}) {
                                return bad("wrong-field", format!("{} should be empty for {} / {}: {}", k, spec, bname, clip(v)));
                            }
                            continue;
                        }
                        for (t, ty) in [("lhs", DeriveType::Lhs), ("lhs_rhs", DeriveType::LhsAndRhs)] {
                            verdicts(&v[t], x, y, ty, &format!("{}.{}", k, t))?;
                            text(&v[t]["derive_type"], &format!("{:?}", ty), "derive_type")?;
                            measured(&v[t]["time"], t)?;
                        }
                    }
                    let dt = total;
                    times_fit(total, dt, t1 - t0, jumped, all_jumped)
                }
            }
        })
    })
}
fn times_fit(total: f64, derive: f64, elapsed: u64, jumped: u64, all_jumped: bool) -> Result<(), Verdict> {
    if total * 1e9 > elapsed as f64 + 10.0 {
        return bad("wrong-time", format!("phases of {} s in a call of {} s", total, elapsed as f64 / 1e9));
    }
    if all_jumped && jumped > 0 {
        os::probe("slow-check-timed");
        if derive * 1e9 + 10.0 < jumped as f64 {
            return bad("wrong-time", format!("the derivability checks took at least {} s but {} s are reported", jumped as f64 / 1e9, derive));
        }
    }
    Ok(())
}
/// The two lists partition `y` in order and agree with each rule's own verdict.
fn verdicts(v: &Value, x: &Ruleset<Alg>, y: &Ruleset<Alg>, ty: DeriveType, what: &str) -> Result<(), Verdict> {
    if !v["can"].is_array() || !v["cannot"].is_array() {
        return bad("wrong-field", format!("{} has no lists: {}", what, clip(v)));
    }
    let (mut can, mut cannot) = (vec![], vec![]);
    for rule in y.iter() {
        if os::inside(|| x.can_derive(ty, rule, Limits::deriving())) { can.push(rule.name.to_string()) } else { cannot.push(rule.name.to_string()) }
    }
    if !can.is_empty() && !cannot.is_empty() { os::probe("mixed-verdicts") }
    if strs(&v["can"]) != can || strs(&v["cannot"]) != cannot {
        return bad("wrong-lists", format!("{}: can {} cannot {} instead of {:?} / {:?}", what, clip(&v["can"]), clip(&v["cannot"]), can, cannot));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C19

pub fn gen_count(r: &mut Rng) -> Plan {
    let mut steps = vec![];
    let names = ["bool", "sub/deep", "x.y", "a b"];
    for _ in 0..*r.pick(&[1, 1, 2, 3, 5]) {
        let name = if r.chance(1, 2) { names[0] } else { *r.pick(&names) };
        // before the call the file is (re)written, removed, replaced by a directory, or kept
        let what = *r.pick(&["file", "file", "file", "file", "file", "keep", "dir", "missing"]);
        let max = *r.pick(&[20, 500, 30_000]);
        let text = if what == "file" { gen_text(r, max) } else { String::new() };
        steps.push(json!({"name": name, "what": what, "text": text}));
    }
    let ops = 6 * steps.len() as u64 + 6;
    let mut faults = vec![];
    let hard = r.chance(1, 3);
    gen_io_faults(r, ops, false, &mut faults);
    if hard {
        let k = *r.pick(&["eio_read", "eio_read", "open_fail"]);
        faults.push(Fault::new(k, r.logu(1, ops) - 1, r.chance(1, 3), 0));
    }
    Plan::new("count", json!({"steps": steps, "threads": r.chance(1, 6) as u64}), faults, gen_sched_light(r))
}
pub fn drive_count(d: &mut Drive, p: &Plan) -> Verdict {
    d.small = true;
    let mut pr = p.proc();
    prepare_dirs(&mut pr.vfs);
    let steps: Vec<Value> = p.work["steps"].as_array().cloned().unwrap_or_default();
    let other_thread = p.u("threads") == 1;
    d.judge(&pr, move || {
        // what is at each path: none, a directory, or these bytes
        let mut now: BTreeMap<String, Option<Vec<u8>>> = BTreeMap::new();
        for (k, st) in steps.iter().enumerate() {
            let name = outside(|| st["name"].as_str().unwrap_or("bool").to_string());
            outside(|| {
                let path = format!("tests/recipes/{}.rs", name);
                let vfs = &mut os::state().vfs;
                let remove = |vfs: &mut Vfs| {
                    let pre = format!("{}/", path);
                    vfs.names.retain(|k, _| k != &path && !k.starts_with(&pre));
                };
                match st["what"].as_str().unwrap_or("keep") {
                    "dir" => {
                        remove(vfs);
                        vfs.put_durable(&format!("{}/inner", path), b"x");
                        now.insert(name.clone(), None);
                    }
                    "missing" => {
                        remove(vfs);
                        now.insert(name.clone(), None);
                    }
                    "file" => {
                        remove(vfs);
                        let data = bytes(st["text"].as_str().unwrap_or(""));
                        vfs.put_durable(&path, &data);
                        now.insert(name.clone(), Some(data));
                    }
                    _ => {}
                }
            });
            let h0 = hard_fired();
            let n2 = outside(|| name.clone());
            let got = if other_thread && k % 2 == 1 {
                os::probe("counted-on-another-thread");
                std::thread::spawn(move || call(|| ruler::count_lines(&n2))).join().unwrap_or_else(|_| Err("thread panicked".into()))
            } else {
                call(|| ruler::count_lines(&n2))
            };
            outside(|| {
                let hard = hard_fired() > h0;
                let exact = now.get(&name).cloned().flatten().map(|b| count(&b));
                if k > 0 { os::probe("counted-again") }
                match (exact, got) {
                    (_, Err(m)) => bad("panic", m),
                    (None, Ok(None)) => {
                        os::probe("absent");
                        Ok(())
                    }
                    (None, Ok(Some(n))) => bad("wrong-count", format!("counted {} lines of something that cannot be read", n)),
                    (Some(_), Ok(None)) if hard => {
                        os::probe("failed-read-reported");
                        Ok(())
                    }
                    (Some(n), Ok(None)) => bad("wrong-count", format!("reported absent, but the file has {} lines and no operation failed", n)),
                    (Some(a), Ok(Some(n))) if n == a => {
                        os::probe("exact-count");
                        Ok(())
                    }
                    (Some(a), Ok(Some(n))) => bad("wrong-count", format!("counted {} lines of {}", n, a)),
                }
            })?;
        }
        Ok(())
    })
}
