//! Rule selection: minimisation, workloads, recursive construction, fast-forwarding, ported
//! rules (C01, C02, C03 query bound, C17, C21).
use crate::alg::{self, Alg, Ctx, Gen};
use crate::common::*;
use crate::exec::call;
use crate::os::{self, outside, Fault};
use crate::refeg::{self, ground, RefEg, RRule};
use crate::rng::Rng;
use ruler::enumo::{Metric, Ruleset, Scheduler, Workload};
use ruler::recipe_utils::{recursive_rules, run_fast_forwarding, run_workload, Lang};
use ruler::Limits;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

pub fn limits(v: &Value) -> Limits {
    let u = |k: &str| v[k].as_u64().unwrap_or(1) as usize;
    Limits { iter: u("iter"), node: u("node"), match_: u("match") }
}
pub fn sched_of(kind: u64, l: Limits) -> Scheduler {
    match kind {
        0 => Scheduler::Simple(l),
        1 => Scheduler::Saturating(l),
        _ => Scheduler::Compress(l),
    }
}
pub fn gen_limits(r: &mut Rng, cut: bool) -> Value {
    if cut && r.chance(1, 2) {
        json!({"iter": r.range(0, 4), "node": r.logu(1, 200), "match": 20_000})
    } else if cut {
        json!({"iter": r.range(0, 4), "node": 20_000, "match": r.logu(1, 30)})
    } else {
        json!({"iter": r.range(1, 4), "node": 20_000, "match": 20_000})
    }
}
pub fn roomy(l: &Limits) -> bool {
    l.node >= 20_000 && l.match_ >= 20_000
}
pub fn ruleset(names: &[String]) -> Ruleset<Alg> {
    Ruleset::new(names)
}
pub fn rrules(names: &[String]) -> Vec<RRule> {
    names.iter().map(|n| refeg::rrule(n)).collect()
}
/// The name ruler gives a rule.
pub fn canon_name(s: &str) -> String {
    Ruleset::<Alg>::new([s]).to_str_vec()[0].clone()
}
pub fn reverse_name(s: &str) -> String {
    let (l, r) = s.split_once("==>").unwrap();
    format!("{} ==> {}", r.trim(), l.trim())
}

/// Sound rules, and unsound ones, over the world's operators.
pub fn gen_rules(g: &Gen, c: &Ctx, r: &mut Rng, n: u64, unsound: bool, depth: usize) -> Vec<String> {
    let (terms, pairs) = g.pairs(c, r, 120, depth);
    let mut out: Vec<String> = vec![];
    for _ in 0..n {
        if unsound && r.chance(2, 5) || pairs.is_empty() {
            if !unsound {
                break;
            }
            let (l, x) = (r.pick(&terms).clone(), r.pick(&terms).clone());
            if l != x && alg::bound(&l, &x) {
                out.push(alg::rule_str(&l, &x));
            }
        } else {
            let k = r.logu(1, pairs.len() as u64) as usize - 1;
            let (l, x) = pairs[k].clone();
            out.push(alg::rule_str(&l, &x));
            if r.chance(1, 2) && alg::bound(&x, &l) {
                out.push(alg::rule_str(&x, &l));
            }
        }
    }
    // ruler's own names (a pattern may print differently)
    let mut seen = BTreeSet::new();
    out.into_iter().map(|s| canon_name(&s)).filter(|s| seen.insert(s.clone())).collect()
}

pub fn gen_min(prop: &str, r: &mut Rng, big: bool) -> Plan {
    let mut w = alg::gen_world(r);
    w["full"] = json!(1);
    let c = Ctx::from_json(&w);
    let g = Gen::from_json(&w);
    let n = if big { r.logu(2, 40) } else { r.logu(1, 14) };
    let depth = r.range(1, 2) as usize;
    let mut cands = gen_rules(&g, &c, r, n, true, depth);
    let np = *r.pick(&[0, 0, 1, 2, 4]);
    let prior = gen_rules(&g, &c, r, np, false, depth);
    if r.chance(1, 5) && !prior.is_empty() {
        cands.push(prior[0].clone());
    }
    if r.chance(1, 12) {
        // a rule that is its own reverse
        let t = g.term(r, 2);
        cands.push(canon_name(&alg::rule_str(&t, &t)));
    }
    let mut seen = BTreeSet::new();
    cands.retain(|c| seen.insert(c.clone()));
    r.shuffle(&mut cands);
    let cut = prop == "C02" && r.chance(1, 4);
    let mut faults = vec![];
    let nc = cands.len() as u64;
    gen_solver_faults(r, (nc * 3 / 2).max(1), &mut faults, prop == "C01");
    if prop != "C21" && r.chance(1, 5) {
        gen_clock_cut(r, 400, &mut faults);
    }
    let kind = if r.chance(1, 6) { r.below(2) } else { 2 };
    let mut lim = gen_limits(r, cut);
    let mut kind = kind;
    if prop == "C03" {
        // little work, so that any run that takes long never ends
        lim = json!({"iter": r.range(0, 3), "node": r.logu(10, 400), "match": r.logu(10, 200)});
        if kind == 1 {
            kind = 2;
        }
    }
    let work = json!({"world": w, "cands": cands, "prior": prior, "limits": lim, "strategy": kind});
    Plan::new("min", work, faults, gen_sched_light(r))
}

fn log_names(log: &[(String, u8)], ans: impl Fn(u8) -> bool) -> BTreeSet<String> {
    log.iter().filter(|e| ans(e.1)).map(|e| e.0.clone()).collect()
}

/// Is this a rule that really holds (independently of what the validator was heard saying)?
pub fn truly_valid(name: &str) -> bool {
    let (l, r) = name.split_once("==>").unwrap();
    let strip = |s: &str| alg::expr(&s.replace('?', ""));
    alg::ctx().valid(strip(l).as_ref(), strip(r).as_ref())
}

fn check_affirmed(learned: &[String], log: &[(String, u8)]) -> Result<(), Verdict> {
    let valid = log_names(log, |a| a == 0);
    for n in learned {
        if !valid.contains(n) {
            let answers: Vec<u8> = log.iter().filter(|e| &e.0 == n).map(|e| e.1).collect();
            return bad("unaffirmed-rule", format!("learned {} but the validator's answers for it were {:?} (0 valid, 1 invalid, 2 unknown)", n, answers));
        }
        if !truly_valid(n) {
            return bad("unsound-rule", format!("learned {} which does not hold", n));
        }
    }
    Ok(())
}

pub fn drive_min(d: &mut Drive, p: &Plan) -> Verdict {
    d.judge(&p.proc(), || {
        let (mut cands, prior, cand_names, prior_names, lim, strat) = outside(|| {
            alg::set_ctx(Ctx::from_json(&p.work["world"]));
            let c = ruleset(&p.strs("cands"));
            let pr = ruleset(&p.strs("prior"));
            let (cn, pn) = (c.to_str_vec(), pr.to_str_vec());
            (c, pr, cn, pn, limits(&p.work["limits"]), p.u("strategy"))
        });
        let t0 = os::now_ns();
        let res = call(|| cands.minimize(prior, sched_of(strat, lim)));
        outside(|| {
            let elapsed = os::now_ns() - t0;
            let log = alg::take_log();
            let bound = 2 * cand_names.len();
            if p.prop == "C03" && log.len() > bound {
                return bad("too-many-queries", format!("{} validator queries for {} candidates", log.len(), cand_names.len()));
            }
            let (learned, rejected) = match res {
                Ok((a, b)) => (a.to_str_vec(), b.to_str_vec()),
                Err(m) if os::fired("vpanic") > 0 => {
                    os::probe("solver-failure-surfaced");
                    return if m.contains("injected") { Ok(()) } else { bad("wrong-panic", m) };
                }
                Err(m) => return bad("panic", m),
            };
            if os::fired("vpanic") > 0 && log.iter().any(|e| e.1 == 3) {
                if p.prop == "C01" {
                    return bad("swallowed-failure", "the validator failed but inference returned normally");
                }
                return skip("validator failed");
            }
            if !learned.is_empty() { os::probe("learned-some") }
            if !rejected.is_empty() { os::probe("rejected-some") }
            if log.iter().any(|e| e.1 == 2) { os::probe("solver-gave-up") }
            if elapsed > BUDGET_NS { os::probe("time-budget-exceeded") }
            match &p.prop[..] {
                "C01" => check_affirmed(&learned, &log),
                "C02" => check_accounting(&cand_names, &prior_names, &learned, &rejected, &log, &lim, strat),
                "C21" => {
                    // the time the solver takes is no part of any saturation's budget
                    if elapsed - os::solver_ns().min(elapsed) > BUDGET_NS / 2 || !roomy(&lim) || strat != 2 {
                        return skip("cut off");
                    }
                    check_redundancy(&prior_names, &learned, &log, &lim)
                }
                _ => Ok(()),
            }
        })
    })
}

fn check_accounting(cands: &[String], prior: &[String], learned: &[String], rejected: &[String], log: &[(String, u8)], lim: &Limits, strat: u64) -> Result<(), Verdict> {
    let cs: BTreeSet<&String> = cands.iter().collect();
    let ps: BTreeSet<&String> = prior.iter().collect();
    let declined = log_names(log, |a| a != 0);
    for n in learned {
        if !cs.contains(n) {
            return bad("invented-rule", format!("learned {} was not a candidate", n));
        }
        if ps.contains(n) {
            return bad("prior-relearned", format!("learned {} is a prior rule", n));
        }
    }
    for n in rejected {
        if !cs.contains(n) {
            return bad("rejected-noncandidate", format!("{} is reported rejected but was never a candidate", n));
        }
        if !declined.contains(n) {
            return bad("rejected-unvalidated", format!("{} is reported rejected but the validator never declined it", n));
        }
    }
    let known: BTreeSet<&String> = learned.iter().chain(rejected).collect();
    let left: Vec<&String> = cands.iter().filter(|c| !known.contains(c)).collect();
    if left.is_empty() {
        return Ok(());
    }
    os::probe("dropped-as-derivable");
    let rules = rrules(&[prior, learned].concat());
    let mut g = RefEg::new();
    let mut ids = vec![];
    for c in cands {
        let r = refeg::rrule(c);
        ids.push((g.add_term(&ground(&r.l)), g.add_term(&ground(&r.r))));
    }
    let big = match strat {
        1 => g.saturating(&rules, lim.iter, 2500),
        _ => g.simple(&rules, lim.iter, 2500),
    };
    for (c, (l, r)) in cands.iter().zip(ids) {
        if known.contains(c) {
            continue;
        }
        if prior.contains(c) {
            continue;
        }
        if !truly_valid(c) {
            return bad("lost-candidate", format!("unsound candidate {} is neither learned nor rejected, and cannot follow from sound rules", c));
        }
        if big.is_ok() && g.find(l) != g.find(r) {
            return bad("lost-candidate", format!("candidate {} is neither learned nor rejected, and prior and learned rules do not derive it: prior {:?} learned {:?}", c, prior, learned));
        }
    }
    Ok(())
}

fn check_redundancy(prior: &[String], learned: &[String], log: &[(String, u8)], lim: &Limits) -> Result<(), Verdict> {
    let mut order: Vec<String> = vec![];
    for (n, a) in log {
        if *a == 0 && learned.contains(n) && !order.contains(n) {
            order.push(n.clone());
        }
    }
    let first = match order.first() {
        Some(n) => n.clone(),
        None => return Ok(()),
    };
    for (i, n) in order.iter().enumerate() {
        let rev = reverse_name(n);
        if *n == first || rev == first {
            continue;
        }
        let known: Vec<String> = prior.iter().chain(order[..i].iter()).filter(|x| **x != rev).cloned().collect();
        let rule = refeg::rrule(n);
        let mut g = RefEg::new();
        let (l, r) = (g.add_term(&ground(&rule.l)), g.add_term(&ground(&rule.r)));
        if g.simple(&rrules(&known), lim.iter, 2500).is_ok() {
            os::probe("redundancy-checked");
            if g.find(l) == g.find(r) {
                return bad("redundant-rule", format!("learned {} although it follows within {} iterations from {:?}", n, lim.iter, known));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------
// whole inferences: workloads, recursion, fast-forwarding

pub fn gen_wkl(prop: &str, r: &mut Rng) -> Plan {
    let mut w = alg::gen_world(r);
    let c = Ctx::from_json(&w);
    let g = Gen::from_json(&w);
    let which = *r.pick(&["wkl", "wkl", "rec", "ff"]);
    let depth = 2;
    let mut work;
    let np = *r.pick(&[0, 0, 1, 3]);
    match which {
        "rec" => {
            let uops: Vec<&str> = g.ops.iter().filter(|o| alg::OPS[**o].1 == 1).map(|o| alg::OPS[*o].0).collect();
            let bops: Vec<&str> = g.ops.iter().filter(|o| alg::OPS[**o].1 == 2).map(|o| alg::OPS[*o].0).collect();
            let prior = gen_rules(&g, &c, r, np, false, 1);
            w["nvars"] = json!(r.range(1, 2));
            work = json!({"world": w, "n": r.range(1, 3), "uops": uops, "bops": bops, "prior": prior,
                "vals": g.lits.iter().take(1).map(|l| l.to_string()).collect::<Vec<_>>(),
                "vars": g.vars.iter().take(2).collect::<Vec<_>>(), "metric": r.below(2)});
        }
        _ => {
            let n = r.logu(3, 30);
            let mut terms: Vec<String> = (0..n).map(|_| g.term(r, depth)).collect();
            if r.chance(1, 3) {
                for v in &g.vars {
                    terms.push(v.to_string());
                }
            }
            let prior = gen_rules(&g, &c, r, np, false, depth);
            work = json!({"world": w, "terms": terms, "prior": prior, "fast": r.below(2),
                "plimits": {"iter": r.range(1, 3), "node": 20_000, "match": 20_000}, "mlimits": {"iter": r.range(1, 3), "node": 20_000, "match": 20_000}});
        }
    }
    if which == "ff" {
        add_ff(&mut work, r);
    }
    let mut faults = vec![];
    gen_solver_faults(r, 12, &mut faults, true);
    if r.chance(1, 5) {
        gen_clock_cut(r, 600, &mut faults);
    }
    gen_thread_faults(r, &mut faults);
    Plan::new(which, work, faults, gen_sched(r))
}

/// Picks forbidden operators and exploratory rules that connect them to the allowed ones.
pub fn add_ff(work: &mut Value, r: &mut Rng) {
    let c = Ctx::from_json(&work["world"]);
    let g = Gen::from_json(&work["world"]);
    let mut g2 = g.clone();
    let extra = r.idx(8);
    if !g2.ops.contains(&extra) {
        g2.ops.push(extra);
    }
    let forbidden = if r.chance(4, 5) { 1u64 << extra } else { 0 };
    let n = r.range(1, 6);
    let mut ff = gen_rules(&g2, &c, r, n, false, 2);
    if r.chance(1, 4) {
        // rules into the forbidden operator and back
        let (t, u) = (g2.term(r, 1), g2.term(r, 2));
        if c.valid(alg::expr(&t).as_ref(), alg::expr(&u).as_ref()) && alg::bound(&t, &u) {
            ff.push(canon_name(&alg::rule_str(&t, &u)));
        }
    }
    if forbidden != 0 && r.chance(2, 3) {
        // allowed terms that are equal by way of a forbidden one
        let has = format!("({} ", alg::OPS[extra].0);
        let (_, pairs) = g2.pairs(&c, r, 150, 2);
        let mut by: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (l, x) in pairs {
            if !l.contains(&has) && x.contains(&has) {
                by.entry(x).or_default().push(l);
            }
        }
        let mut hops: Vec<(String, Vec<String>)> = by.into_iter().filter(|x| x.1.len() > 1).collect();
        r.shuffle(&mut hops);
        let mut terms = strs(&work["terms"]);
        for (x, ls) in hops.into_iter().take(r.range(1, 3) as usize) {
            let (l1, l2) = (&ls[0], &ls[1 + r.idx(ls.len() - 1)]);
            ff.push(canon_name(&alg::rule_str(l1, &x)));
            if alg::bound(&x, l2) {
                ff.push(canon_name(&alg::rule_str(&x, l2)));
            }
            if alg::bound(l2, &x) && r.chance(1, 2) {
                ff.push(canon_name(&alg::rule_str(l2, &x)));
            }
            for t in [l1, l2] {
                if !terms.contains(t) {
                    terms.push(t.clone());
                }
            }
        }
        work["terms"] = json!(terms);
    }
    work["world"]["allowed"] = json!(0xffu64 & !forbidden);
    work["world"]["ff_rules"] = json!(ff);
}

pub fn prior_of(p: &Plan) -> Ruleset<Alg> {
    ruleset(&p.strs("prior"))
}

/// Runs the inference a plan describes (inside the simulation); returns ordered rule names.
pub fn infer(p: &Plan) -> Result<Vec<String>, String> {
    let (prior, wk) = outside(|| (prior_of(p), p.strs("terms")));
    let r = match &p.kind[..] {
        "wkl" => {
            let (pl, ml, fast) = (limits(&p.work["plimits"]), limits(&p.work["mlimits"]), p.u("fast") == 1);
            call(move || run_workload::<Alg>(Workload::new(&wk), prior, pl, ml, fast))
        }
        "ff" => {
            let (pl, ml) = (limits(&p.work["plimits"]), limits(&p.work["mlimits"]));
            call(move || run_fast_forwarding::<Alg>(Workload::new(&wk), prior, pl, ml))
        }
        "rec" => {
            let lang = outside(|| Lang { vals: p.strs("vals"), vars: p.strs("vars"), ops: vec![p.strs("uops"), p.strs("bops")] });
            let (n, m) = (p.u("n") as usize, if p.u("metric") == 0 { Metric::Atoms } else { Metric::Depth });
            let n = if p.u("metric") == 0 { n } else { n.min(2) };
            call(move || recursive_rules::<Alg>(m, n, lang, prior))
        }
        "min" => {
            let (mut c, lim) = outside(|| (ruleset(&p.strs("cands")), limits(&p.work["limits"])));
            let strat = p.u("strategy");
            call(move || {
                let (mut a, b) = c.minimize(prior, sched_of(strat, lim));
                a.extend(b);
                a
            })
        }
        k => panic!("no such inference {}", k),
    };
    match r {
        Ok(rs) => Ok(outside(|| rs.to_str_vec())),
        Err(m) => Err(m),
    }
}

/// Panics that the inference documents or that follow from an empty input.
pub fn benign_panic(m: &str) -> bool {
    m.contains("Didn't learn any rules")
}

pub fn drive_wkl(d: &mut Drive, p: &Plan) -> Verdict {
    d.judge(&p.proc(), || {
        outside(|| alg::set_ctx(Ctx::from_json(&p.work["world"])));
        let res = infer(p);
        outside(|| {
            let log = alg::take_log();
            let failed = log.iter().any(|e| e.1 == 3);
            let names = match res {
                Ok(n) => n,
                Err(m) if failed => return if m.contains("injected") { Ok(()) } else { bad("wrong-panic", m) },
                Err(m) if benign_panic(&m) => return skip("nothing learned"),
                Err(m) => return bad("panic", m),
            };
            if failed {
                return bad("swallowed-failure", "the validator failed but inference returned normally");
            }
            let prior: BTreeSet<String> = prior_of(p).to_str_vec().into_iter().collect();
            let learned: Vec<String> = names.into_iter().filter(|n| !prior.contains(n)).collect();
            if !learned.is_empty() { os::probe("learned-some") }
            if log.iter().any(|e| e.1 == 2) { os::probe("solver-gave-up") }
            if log.iter().any(|e| e.1 == 1) { os::probe("solver-refuted") }
            os::probe(&format!("inference-{}", p.kind));
            check_affirmed(&learned, &log)
        })
    })
}

/// Ported rules in a bit-vector report.
pub fn gen_bvrow(prop: &str, r: &mut Rng) -> Plan {
    let mut w = alg::gen_world(r);
    w["full"] = json!(1);
    let c = Ctx::from_json(&w);
    let g = Gen::from_json(&w);
    let np = r.range(1, 24);
    let ported = gen_rules(&g, &c, r, np, true, 2);
    let ng = r.range(0, 3);
    let gen = gen_rules(&g, &c, r, ng, false, 1);
    let mut faults = vec![];
    gen_solver_faults(r, ported.len() as u64, &mut faults, true);
    gen_thread_faults(r, &mut faults);
    Plan::new("bvrow", json!({"world": w, "ported": ported, "gen": gen}), faults, gen_sched(r))
}

pub fn drive_bvrow(d: &mut Drive, p: &Plan) -> Verdict {
    d.judge(&p.proc(), || {
        let (ported, gen) = outside(|| {
            alg::set_ctx(Ctx::from_json(&p.work["world"]));
            (ruleset(&p.strs("ported")), ruleset(&p.strs("gen")))
        });
        let res = call(|| ruler::logger::write_bv_derivability("BV8", gen, Duration::from_secs(3), ported));
        outside(|| {
            let log = alg::take_log();
            let failed = log.iter().any(|e| e.1 == 3);
            match res {
                Err(m) if failed => return if m.contains("injected") { Ok(()) } else { bad("wrong-panic", m) },
                Err(m) => return bad("panic", m),
                Ok(()) if failed => return bad("swallowed-failure", "the validator failed but the report was written"),
                Ok(()) => {}
            }
            let text = os::state().vfs.file("nightly/data/output.json").unwrap_or_default();
            let v: Value = serde_json::from_slice(&text).unwrap_or(Value::Null);
            let listed = match v[0]["from_bv4"]["rules"].as_array() {
                Some(a) => a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect::<Vec<_>>(),
                None => return bad("no-row", "the report row has no from_bv4 rules"),
            };
            if log.iter().any(|e| e.1 == 2) { os::probe("solver-gave-up") }
            check_affirmed(&listed, &log)
        })
    })
}

// ---------------------------------------------------------------------------------------
// C17

pub fn gen_ff(r: &mut Rng) -> Plan {
    let mut p = gen_wkl("C17", r);
    while p.kind != "ff" {
        p = gen_wkl("C17", r);
    }
    p.faults.retain(|f| f.kind != "vpanic");
    if r.chance(1, 2) {
        p.faults.clear();
    }
    if r.chance(1, 4) {
        p.work["plimits"] = json!({"iter": r.range(0, 3), "node": r.logu(5, 300), "match": r.logu(1, 100)});
    } else {
        p.work["plimits"]["node"] = json!(20_000);
        p.work["plimits"]["match"] = json!(20_000);
        p.work["mlimits"]["node"] = json!(20_000);
        p.work["mlimits"]["match"] = json!(20_000);
    }
    p
}

pub fn drive_ff(d: &mut Drive, p: &Plan) -> Verdict {
    d.judge(&p.proc(), || {
        outside(|| alg::set_ctx(Ctx::from_json(&p.work["world"])));
        let t0 = os::now_ns();
        let res = infer(p);
        outside(|| {
            let elapsed = os::now_ns() - t0;
            let log = alg::take_log();
            let learned = match res {
                Ok(n) => n,
                Err(m) => return bad("panic", m),
            };
            check_affirmed(&learned, &log)?;
            let c = alg::ctx();
            let prior = prior_of(p).to_str_vec();
            for n in &learned {
                let rule = refeg::rrule(n);
                for side in [&rule.l, &rule.r] {
                    if let Some(op) = forbidden_op(side, c.allowed) {
                        return bad("forbidden-operator", format!("learned {} which uses {}", n, op));
                    }
                }
                if prior.contains(n) {
                    return bad("prior-relearned", format!("learned {} is a prior rule", n));
                }
            }
            if !learned.is_empty() { os::probe("learned-some") }
            if c.allowed != 0xff { os::probe("forbidden-operators-present") }
            let (pl, ml) = (limits(&p.work["plimits"]), limits(&p.work["mlimits"]));
            if elapsed - os::solver_ns().min(elapsed) > BUDGET_NS / 2 || !roomy(&pl) || !roomy(&ml) {
                return Ok(());
            }
            let declined = log.iter().filter(|e| e.1 != 0).map(|e| e.0.clone()).collect();
            check_ff_complete(p, &prior, &learned, &declined, &pl, &ml)
        })
    })
}

fn forbidden_op(t: &refeg::PTerm, allowed: u64) -> Option<String> {
    match t {
        refeg::PTerm::Var(_) => None,
        refeg::PTerm::App(o, k) => {
            if let Some(i) = alg::OPS.iter().position(|x| x.0 == o && x.1 == k.len()) {
                if allowed >> i & 1 == 0 {
                    return Some(o.clone());
                }
            }
            k.iter().find_map(|x| forbidden_op(x, allowed))
        }
    }
}

/// Workload terms over allowed operators that the exploratory rules prove equal must be equal
/// by prior and learned rules, unless the validator declined that.
fn check_ff_complete(p: &Plan, prior: &[String], learned: &[String], declined: &BTreeSet<String>, pl: &Limits, ml: &Limits) -> Result<(), Verdict> {
    let c = alg::ctx();
    let terms: Vec<refeg::PTerm> = p.strs("terms").iter().map(|t| refeg::parse(t)).collect();
    let mut vars = vec![];
    for t in p.strs("terms") {
        alg::vars_of(alg::expr(&t).as_ref(), &mut vars);
    }
    let ok: Vec<usize> = (0..terms.len()).filter(|&i| forbidden_op(&terms[i], c.allowed).is_none()).collect();
    let allowed_prior: Vec<String> = prior.iter().filter(|n| { let r = refeg::rrule(n); forbidden_op(&r.l, c.allowed).is_none() && forbidden_op(&r.r, c.allowed).is_none() }).cloned().collect();
    let mut g = RefEg::new();
    g.samples = c.samples(&vars);
    for v in &vars {
        g.add_term(&refeg::PTerm::App(v.clone(), vec![]));
    }
    let ids: Vec<usize> = terms.iter().map(|t| g.add_term(t)).collect();
    // compressed by the allowed prior rules
    let mut full = g.clone();
    if full.simple(&rrules(&allowed_prior), pl.iter, 1500).is_err() {
        return Ok(());
    }
    let nodes: Vec<usize> = g.memo.values().cloned().collect();
    for a in &nodes {
        for b in &nodes {
            if full.find(*a) == full.find(*b) {
                g.union(*a, *b);
            }
        }
    }
    g.rebuild();
    let compressed = g.clone();
    // explored by the growing phase
    let ffr = Ruleset::<Alg>::new(&c.ff_rules).to_str_vec();
    if g.simple(&rrules(&ffr), pl.iter, 1500).is_err() {
        return Ok(());
    }
    let mut pairs = vec![];
    for &i in &ok {
        for &j in &ok {
            if i < j && g.find(ids[i]) == g.find(ids[j]) && compressed.find(ids[i]) != compressed.find(ids[j]) {
                pairs.push((i, j));
            }
        }
    }
    if pairs.is_empty() {
        return Ok(());
    }
    // candidates may be stepping stones: the same public calls produce them
    let eg_allowed = Scheduler::Compress(*pl).run(&Workload::new(p.strs("terms")).to_egraph::<Alg>(), &ruleset(&allowed_prior));
    let eg_denote = Scheduler::Simple(*pl).run(&eg_allowed, &ruleset(&ffr));
    let eg_final = Scheduler::Compress(*pl).run(&eg_denote, &ruleset(&[prior, &ffr[..]].concat()));
    let mut cands = Ruleset::extract_candidates(&eg_allowed, &eg_denote).to_str_vec();
    cands.extend(Ruleset::extract_candidates(&eg_denote, &eg_final).to_str_vec());
    let known: Vec<String> = prior.iter().chain(learned).cloned().collect();
    let acc = match crate::p_miss::accounted(&known, declined, &cands, ml.iter) {
        Some(a) => a,
        None => return Ok(()),
    };
    match crate::p_miss::missed(&terms, &pairs, prior, pl.iter, &acc) {
        Ok(Some((i, j))) => bad("missed-equality", format!("exploratory rules prove {} = {} but neither learned nor prior rules do; learned {:?}", p.strs("terms")[i], p.strs("terms")[j], learned)),
        _ => Ok(()),
    }
}

