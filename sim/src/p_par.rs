//! Parallel checks, failures inside them, reproducibility, concurrent calls
//! (C07, C08, C09, C10, C20).
use crate::alg::{self, Alg, Ctx, Gen};
use crate::common::*;
use crate::exec::{call, Proc};
use crate::os::{self, outside, Fault, Sched};
use crate::p_io;
use crate::p_min::{self, gen_limits, gen_rules, limits, rrules, ruleset, sched_of, truly_valid};
use crate::p_sat;
use crate::refeg::{self, ground, RefEg};
use crate::rng::{hash_bytes, mix, Rng};
use ruler::enumo::{Ruleset, Scheduler, Workload};
use ruler::{DeriveType, Limits};
use serde_json::{json, Value};

// ---------------------------------------------------------------------------------------
// C07

/// Rules to derive from, rules to derive: some follow in a few steps, some do not.
fn gen_targets(r: &mut Rng, w: &Value, max: u64) -> (Vec<String>, Vec<String>) {
    let mut rules = p_io::rules_for_derive(r, w, max);
    let mut targets = p_io::rules_for_derive(r, w, max + 2);
    for x in &rules {
        if r.chance(1, 3) {
            targets.push(x.clone());
        }
        if r.chance(1, 3) {
            // in the other direction
            let y = p_min::reverse_name(x);
            let q = refeg::rrule(&y);
            if alg::bound(&show(&ground(&q.l)), &show(&ground(&q.r))) {
                targets.push(p_min::canon_name(&y));
            }
        }
        // an instance, or a consequence inside a context
        if r.chance(1, 2) {
            let g = Gen::from_json(w);
            let q = refeg::rrule(x);
            let (a, b) = (show(&ground(&q.l)), show(&ground(&q.r)));
            let t = g.term(r, 1);
            let (a, b) = if r.chance(1, 2) { (subst(&a, "a", &t), subst(&b, "a", &t)) } else {
                let (o, ar) = alg::OPS[*r.pick(&g.ops)];
                let pad: Vec<String> = (1..ar).map(|_| g.leaf(r)).collect();
                (format!("({} {} {})", o, a, pad.join(" ")), format!("({} {} {})", o, b, pad.join(" ")))
            };
            if alg::bound(&a, &b) {
                targets.push(p_min::canon_name(&alg::rule_str(&a, &b)));
            }
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    targets.retain(|t| seen.insert(t.clone()));
    r.shuffle(&mut targets);
    r.shuffle(&mut rules);
    (rules, targets)
}
fn valid_in(c: &Ctx, name: &str) -> bool {
    let q = refeg::rrule(name);
    c.valid(alg::expr(&show(&ground(&q.l))).as_ref(), alg::expr(&show(&ground(&q.r))).as_ref())
}
fn show(t: &refeg::PTerm) -> String {
    match t {
        refeg::PTerm::Var(v) => v.clone(),
        refeg::PTerm::App(o, k) if k.is_empty() => o.clone(),
        refeg::PTerm::App(o, k) => format!("({} {})", o, k.iter().map(show).collect::<Vec<_>>().join(" ")),
    }
}
fn subst(t: &str, v: &str, by: &str) -> String {
    fn go(t: &refeg::PTerm, v: &str, by: &str) -> String {
        match t {
            refeg::PTerm::App(o, k) if k.is_empty() && o == v => by.to_string(),
            refeg::PTerm::App(o, k) if !k.is_empty() => format!("({} {})", o, k.iter().map(|c| go(c, v, by)).collect::<Vec<_>>().join(" ")),
            x => show(x),
        }
    }
    go(&refeg::parse(t), v, by)
}

pub fn gen_derive(r: &mut Rng) -> Plan {
    let mut w = alg::gen_world(r);
    let (rules, targets) = gen_targets(r, &w, 5);
    let c = Ctx::from_json(&w);
    if r.chance(1, 4) && rules.iter().all(|n| valid_in(&c, n)) {
        w["fold"] = json!(1);
    }
    let cut = r.chance(1, 4);
    let lim = gen_limits(r, cut);
    let mut faults = vec![];
    match r.below(5) {
        0 | 1 => {
            for _ in 0..r.range(1, 3) {
                faults.push(Fault::new(*r.pick(&["jump", "wjump"]), r.logu(1, 600), false, r.range(601, 4000) * 1_000_000_000));
            }
        }
        2 => {
            for _ in 0..r.range(1, 3) {
                faults.push(Fault::new(*r.pick(&["jump", "wjump"]), r.logu(1, 600), false, r.range(1, 190) * 1_000_000_000));
            }
        }
        _ => {}
    }
    gen_thread_faults(r, &mut faults);
    Plan::new("derive", json!({"world": w, "rules": rules, "targets": targets, "dtype": r.below(2), "limits": lim}), faults, gen_sched(r))
}
fn dtype(n: u64) -> DeriveType {
    if n == 0 { DeriveType::Lhs } else { DeriveType::LhsAndRhs }
}

pub fn drive_derive(d: &mut Drive, p: &Plan) -> Verdict {
    d.judge(&p.proc(), || {
        let (rules, targets, names, tnames, lim) = outside(|| {
            alg::set_ctx(Ctx::from_json(&p.work["world"]));
            let (a, b) = (ruleset(&p.strs("rules")), ruleset(&p.strs("targets")));
            let (an, bn) = (a.to_str_vec(), b.to_str_vec());
            (a, b, an, bn, limits(&p.work["limits"]))
        });
        let ty = p.u("dtype");
        let t0 = os::now_ns();
        let res = call(|| rules.derive(dtype(ty), &targets, lim));
        let elapsed = os::now_ns() - t0;
        let (can, cannot) = match res {
            Ok((a, b)) => outside(|| (a.to_str_vec(), b.to_str_vec())),
            Err(m) => return bad("panic", m),
        };
        outside(|| {
            os::calm();
            if rules.to_str_vec() != names || targets.to_str_vec() != tnames {
                return bad("input-changed", "derive changed a ruleset it was given");
            }
            let intime = elapsed <= BUDGET_NS;
            if !intime { os::probe("time-budget-exceeded") }
            for t in &tnames {
                match (can.contains(t), cannot.contains(t)) {
                    (true, true) => return bad("both", format!("{} is reported both derivable and not derivable", t)),
                    (false, false) => return bad("neither", format!("{} is reported neither derivable nor not derivable", t)),
                    _ => {}
                }
            }
            let order = |part: &[String]| tnames.iter().filter(|t| part.contains(t)).cloned().collect::<Vec<_>>() == part;
            if !order(&can) || !order(&cannot) {
                return bad("order", format!("the parts {:?} and {:?} are not in the order of {:?}", can, cannot, tnames));
            }
            let sound = names.iter().all(|n| truly_valid(n));
            let rr = rrules(&names);
            for (name, rule) in tnames.iter().zip(targets.iter()) {
                let got = can.contains(name);
                // the same check on its own, undisturbed
                let alone = match os::inside(|| call(|| rules.can_derive(dtype(ty), rule, lim))) {
                    Ok(b) => b,
                    Err(m) => return bad("panic", m),
                };
                if got && !alone {
                    // skipping work may help where node or match limits bind; it must still be provable
                    os::probe("positive-only-when-cut");
                    if intime {
                        return bad("schedule-dependent", format!("{} is reported derivable from {:?}, but not when checked on its own", name, names));
                    }
                    reference(name, true, &rr, &names, ty, &lim, sound, p.work["world"]["fold"] == 1)?;
                }
                if !got && alone && intime {
                    return bad("wrong-negative", format!("{} is reported not derivable from {:?} although no time limit was reached and it is derivable when checked on its own", name, names));
                }
                reference(name, alone, &rr, &names, ty, &lim, sound, p.work["world"]["fold"] == 1)?;
            }
            Ok(())
        })
    })
}

/// Compares a verdict reached without clock faults with the reference e-graph's.
fn reference(name: &str, got: bool, rr: &[refeg::RRule], names: &[String], ty: u64, lim: &Limits, sound: bool, fold: bool) -> Result<(), Verdict> {
    if got { os::probe("derivable") } else { os::probe("not-derivable") }
    if got && sound && !truly_valid(name) {
        return bad("wrong-positive", format!("{} does not hold but is reported derivable from {:?}, which do", name, names));
    }
    if fold {
        return Ok(());
    }
    let q = refeg::rrule(name);
    let (l, r) = (ground(&q.l), ground(&q.r));
    let mut g = RefEg::new();
    g.add_term(&l);
    if ty != 0 {
        g.add_term(&r);
    }
    let most = match g.saturating(rr, lim.iter, 1500) {
        Ok(m) => m,
        Err(_) => return Ok(()),
    };
    let want = g.lookup(&r).is_some() && g.lookup(&r) == g.lookup(&l);
    if got && !want {
        return bad("wrong-positive", format!("{} is reported derivable from {:?} within {} iterations ({}), which it is not", name, names, lim.iter, dt(ty)));
    }
    // merging stops the run early, so only what was there before the merge counts against limits
    let exact = 4 * g.ever + 50 < lim.node && 2 * most + 10 < lim.match_;
    if exact {
        os::probe("exact-compared");
        if want && !got {
            return bad("wrong-negative", format!("{} is reported not derivable from {:?} within {} iterations ({}), which it is", name, names, lim.iter, dt(ty)));
        }
    }
    Ok(())
}
fn dt(ty: u64) -> &'static str {
    if ty == 0 { "starting from its left side" } else { "starting from both sides" }
}

// ---------------------------------------------------------------------------------------
// C08

pub fn gen_partition(r: &mut Rng) -> Plan {
    let mut w = p_io::gen_lang(r);
    w["ops"] = json!(w["ops"].as_u64().unwrap() | 0x31);
    let max = *r.pick(&[3, 12, 60, 400]);
    let rules = p_io::gen_names(r, &w, max);
    let nt = *r.pick(&[1, 1, 1, 2, 3]);
    let small = p_io::gen_names(r, &w, 6);
    let threads: Vec<Value> = (0..nt)
        .map(|_| {
            let calls: Vec<Value> = (0..r.range(1, 2)).map(|_| gen_pred(r)).collect();
            json!(calls)
        })
        .collect();
    let mut faults = vec![];
    gen_thread_faults(r, &mut faults);
    let mut s = gen_sched(r);
    s.cpus = r.range(1, 16);
    if s.policy == 0 && s.cpus > 1 && r.chance(2, 3) {
        s.policy = 1;
        s.param = 200;
    }
    Plan::new("partition", json!({"world": w, "rules": rules, "small": small, "threads": threads}), faults, s)
}
fn gen_pred(r: &mut Rng) -> Value {
    json!({"salt": r.below(1 << 20), "density": *r.pick(&[0, 2, 30, 50, 70, 98, 100]), "points": r.below(4), "slow": r.logu(1, 1 << 30) - 1, "nest": *r.pick(&[0, 0, 0, 1, 2])})
}
fn answer(name: &str, c: &Value) -> bool {
    mix(&[hash_bytes(0, name.as_bytes()), c["salt"].as_u64().unwrap_or(0)]) % 100 < c["density"].as_u64().unwrap_or(50)
}

/// One partition call with a predicate that takes its time; every evaluation is recorded.
fn partition_call(rs: &Ruleset<Alg>, small: &Ruleset<Alg>, c: &Value, strike: u64) -> Result<(Vec<String>, Vec<String>, Vec<String>), String> {
    let calls: std::sync::Mutex<Vec<String>> = outside(|| std::sync::Mutex::new(Vec::with_capacity(1024)));
    let (points, slow, nest) = outside(|| (c["points"].as_u64().unwrap_or(0), c["slow"].as_u64().unwrap_or(0), c["nest"].as_u64().unwrap_or(0)));
    let res = call(|| {
        rs.partition(|rule| {
            let (ans, k) = outside(|| {
                calls.lock().unwrap().push(rule.name.to_string());
                (answer(&rule.name, c), hash_bytes(7, rule.name.as_bytes()))
            });
            if slow > 0 && k % 5 == 0 {
                os::pass_time(slow);
            }
            for _ in 0..points {
                os::point();
            }
            if strike > 0 && os::strike("ppanic", strike * 1_000_000 + outside(|| rs.iter().position(|x| x.name == rule.name).unwrap_or(0) as u64)) {
                panic!("injected predicate failure");
            }
            match nest {
                1 if k % 7 == 0 => {
                    let (y, n) = small.partition(|x| {
                        os::point();
                        outside(|| answer(&x.name, c))
                    });
                    let ok = outside(|| {
                        let want: Vec<String> = small.iter().filter(|x| answer(&x.name, c)).map(|x| x.name.to_string()).collect();
                        y.to_str_vec() == want && y.len() + n.len() == small.len()
                    });
                    if !ok {
                        panic!("nested partition went wrong");
                    }
                }
                2 if k % 11 == 0 => {
                    // the rule itself is always derivable from a set that has it
                    let one = outside(|| {
                        let mut o = Ruleset::default();
                        o.add(rule.clone());
                        o
                    });
                    if !one.can_derive(DeriveType::LhsAndRhs, rule, Limits { iter: 1, node: 1000, match_: 1000 }) {
                        panic!("a rule does not derive itself");
                    }
                }
                _ => {}
            }
            ans
        })
    });
    match res {
        Ok((y, n)) => Ok(outside(|| (y.to_str_vec(), n.to_str_vec(), calls.into_inner().unwrap()))),
        Err(m) => {
            outside(move || drop(calls));
            Err(m)
        }
    }
}
fn check_partition(all: &[String], c: &Value, y: &[String], n: &[String], calls: &[String]) -> Result<(), Verdict> {
    let mut counts: std::collections::BTreeMap<&str, usize> = Default::default();
    for x in calls {
        *counts.entry(x).or_insert(0) += 1;
    }
    for x in all {
        match counts.get(&x[..]) {
            Some(1) => {}
            k => return bad("evaluations", format!("the predicate was evaluated {} times on {}", k.unwrap_or(&0), x)),
        }
    }
    if counts.len() != all.len() {
        return bad("evaluations", "the predicate was evaluated on a rule that is not in the ruleset");
    }
    for (part, want, what) in [(y, true, "accepted"), (n, false, "rejected")] {
        let right: Vec<String> = all.iter().filter(|x| answer(x, c) == want).cloned().collect();
        if part != &right[..] {
            let (a, b): (std::collections::BTreeSet<&String>, std::collections::BTreeSet<&String>) = (part.iter().collect(), right.iter().collect());
            if a == b && part.len() == right.len() {
                return bad("order", format!("the {} rules are out of order: {:?} instead of {:?}", what, part, right));
            }
            return bad("wrong-part", format!("the {} rules lack {:?} and wrongly have {:?} ({} in all)", what, b.difference(&a).take(3).collect::<Vec<_>>(), a.difference(&b).take(3).collect::<Vec<_>>(), part.len()));
        }
    }
    Ok(())
}

pub fn drive_partition(d: &mut Drive, p: &Plan) -> Verdict {
    d.judge(&p.proc(), || {
        let (rs, small, all, threads) = outside(|| {
            alg::set_ctx(Ctx::from_json(&p.work["world"]));
            let a = ruleset(&p.strs("rules"));
            let n = a.to_str_vec();
            (std::sync::Arc::new(a), std::sync::Arc::new(ruleset(&p.strs("small"))), n, p.work["threads"].as_array().cloned().unwrap_or_default())
        });
        let one = |rs: &Ruleset<Alg>, small: &Ruleset<Alg>, all: &[String], list: &Value| -> Result<(), Verdict> {
            let calls: Vec<Value> = outside(|| list.as_array().cloned().unwrap_or_default());
            for c in &calls {
                match partition_call(rs, small, c, 0) {
                    Ok((y, n, k)) => outside(|| check_partition(all, c, &y, &n, &k))?,
                    Err(m) => return outside(|| bad("panic", m)),
                }
            }
            Ok(())
        };
        if threads.len() <= 1 {
            let t = outside(|| threads.get(0).cloned().unwrap_or(Value::Null));
            one(&rs, &small, &all, &t)?;
        } else {
            let hs: Vec<_> = threads
                .into_iter()
                .map(|t| {
                    let (rs, small, all) = (rs.clone(), small.clone(), outside(|| all.clone()));
                    std::thread::spawn(move || one(&rs, &small, &all, &t))
                })
                .collect();
            for h in hs {
                h.join().unwrap_or_else(|_| bad("panic", "a thread died"))?;
            }
            os::probe("concurrent-partitions");
        }
        outside(|| {
            if rs.to_str_vec() != all {
                return bad("input-changed", "partition changed the ruleset");
            }
            if all.len() > 50 { os::probe("many-rules") }
            Ok(())
        })
    })
}

// ---------------------------------------------------------------------------------------
// calls of any kind, described by JSON (C09, C10, C20)

pub fn gen_call(r: &mut Rng, base: &Value, op: &str, k: u64) -> Value {
    let w = &base["world"];
    let c = Ctx::from_json(w);
    let g = Gen::from_json(w);
    let np = *r.pick(&[0, 0, 1, 3]);
    let lim = |r: &mut Rng| json!({"iter": r.range(1, 3), "node": 20_000, "match": 20_000});
    match op {
        "min" => {
            let n = r.logu(2, 16);
            let cands = gen_rules(&g, &c, r, n, true, 2);
            json!({"op": op, "cands": cands, "prior": gen_rules(&g, &c, r, np, false, 1), "limits": lim(r), "strategy": 2})
        }
        "wkl" | "ff" => {
            let n = r.logu(3, 20);
            let terms: Vec<String> = (0..n).map(|_| g.term(r, 2)).collect();
            json!({"op": op, "terms": terms, "prior": gen_rules(&g, &c, r, np, false, 2), "fast": r.below(2), "plimits": lim(r), "mlimits": lim(r)})
        }
        "rec" => {
            let ops = |n: usize| -> Vec<&str> { g.ops.iter().filter(|o| alg::OPS[**o].1 == n).map(|o| alg::OPS[*o].0).take(2).collect() };
            json!({"op": op, "n": r.range(1, 2), "uops": ops(1), "bops": ops(2), "prior": gen_rules(&g, &c, r, np, false, 1),
                "vals": g.lits.iter().take(1).map(|l| l.to_string()).collect::<Vec<_>>(), "vars": g.vars.iter().take(2).collect::<Vec<_>>(), "metric": r.below(2)})
        }
        "cand" => {
            let n = r.logu(3, 20);
            let terms: Vec<String> = (0..n).map(|_| g.term(r, 2)).collect();
            json!({"op": op, "which": r.below(3), "terms": terms, "rules": gen_rules(&g, &c, r, 3, false, 2), "limits": lim(r)})
        }
        "derive" => {
            let (mut a, b) = gen_targets(r, w, 4);
            if w["fold"] == 1 {
                // constant folding refutes unsound rules by panicking
                a.retain(|n| valid_in(&c, n));
            }
            json!({"op": op, "rules": a, "targets": b, "dtype": r.below(2), "limits": lim(r)})
        }
        "partition" => {
            let mut c = gen_pred(r);
            c["op"] = json!(op);
            if w["fold"] == 1 && c["nest"] == 2 {
                c["nest"] = json!(1);
            }
            c["rules"] = json!(p_io::gen_names(r, w, 40));
            c["small"] = json!(p_io::gen_names(r, w, 5));
            c["strike"] = json!(k + 1);
            c
        }
        "save" => json!({"op": op, "path": format!("{}s{}.rules", r.pick(&["", "out/", "out/deep/"]), k), "rules": p_io::gen_names(r, w, 30), "old": r.below(2), "rounds": r.range(1, 3)}),
        "wsave" => json!({"op": op, "path": format!("{}w{}.terms", r.pick(&["", "out/", "out/deep/"]), k), "wkl": p_io::gen_workload(r, w, 1), "rounds": r.range(1, 2)}),
        "count" => json!({"op": op, "name": format!("r{}", k), "text": p_io::gen_text(r, 400)}),
        "egraph" => {
            let n = r.logu(1, 25);
            let terms: Vec<String> = (0..n).map(|_| g.term(r, 3)).collect();
            json!({"op": op, "terms": terms})
        }
        _ => {
            let n = r.logu(1, 12);
            let terms: Vec<String> = (0..n).map(|_| g.term(r, 2)).collect();
            json!({"op": "sat", "wkl": 1, "terms": terms, "rules": gen_rules(&g, &c, r, 3, false, 2), "strategy": r.below(3), "limits": lim(r)})
        }
    }
}
/// Files a call expects to find.
fn prepare(c: &Value, vfs: &mut crate::vfs::Vfs) {
    match c["op"].as_str() {
        Some("count") => vfs.put_durable(&format!("tests/recipes/{}.rs", c["name"].as_str().unwrap()), &p_io::bytes(c["text"].as_str().unwrap_or(""))),
        Some("save") if c["old"] == 1 => vfs.put_durable(c["path"].as_str().unwrap(), b"(f ?a) ==> ?a\n"),
        _ => {}
    }
}

/// Performs one call inside the simulation; a panic becomes an Err.
pub fn perform(c: &Value) -> Result<Value, String> {
    let op = outside(|| c["op"].as_str().unwrap_or("").to_string());
    let lim = |k: &str| outside(|| limits(&c[k]));
    let u = |k: &str| outside(|| c[k].as_u64().unwrap_or(0));
    let changed = || -> Result<Value, String> { Ok(json!("an input was changed")) };
    match &op[..] {
        "min" | "wkl" | "ff" | "rec" => {
            let p = outside(|| Plan::new(&op, c.clone(), vec![], Sched::calm(0)));
            let r = p_min::infer(&p);
            outside(|| {
                drop(p);
                r.map(|n| json!(n))
            })
        }
        "cand" => {
            let (wk, rules) = outside(|| (Workload::new(strs(&c["terms"])), ruleset(&strs(&c["rules"]))));
            let (l, which) = (lim("limits"), u("which"));
            let r = call(|| {
                let eg = wk.to_egraph::<Alg>();
                match which {
                    0 => Ruleset::cvec_match(&eg),
                    1 => Ruleset::fast_cvec_match(&eg),
                    _ => {
                        let out = Scheduler::Simple(l).run(&eg, &rules);
                        Ruleset::extract_candidates(&eg, &out)
                    }
                }
            });
            outside(|| r.map(|n| json!(n.to_str_vec())))
        }
        "derive" => {
            let (a, b) = outside(|| (ruleset(&strs(&c["rules"])), ruleset(&strs(&c["targets"]))));
            let (an, bn) = outside(|| (a.to_str_vec(), b.to_str_vec()));
            let (ty, l) = (u("dtype"), lim("limits"));
            let r = call(|| a.derive(dtype(ty), &b, l));
            outside(|| {
                if a.to_str_vec() != an || b.to_str_vec() != bn {
                    return changed();
                }
                r.map(|(x, y)| json!([x.to_str_vec(), y.to_str_vec()]))
            })
        }
        "partition" => {
            let (a, s) = outside(|| (ruleset(&strs(&c["rules"])), ruleset(&strs(&c["small"]))));
            let an = outside(|| a.to_str_vec());
            let r = partition_call(&a, &s, c, u("strike"));
            outside(|| {
                if a.to_str_vec() != an {
                    return changed();
                }
                r.map(|(x, y, _)| json!([x, y]))
            })
        }
        "save" => {
            let (a, path, rounds) = outside(|| (ruleset(&strs(&c["rules"])), c["path"].as_str().unwrap().to_string(), c["rounds"].as_u64().unwrap_or(1)));
            let r = call(|| {
                let mut b: Ruleset<Alg> = Default::default();
                for _ in 0..rounds {
                    a.to_file(&path);
                    b = Ruleset::from_file(&path);
                }
                b
            });
            outside(|| r.map(|b| json!([a.to_str_vec(), b.to_str_vec(), String::from_utf8_lossy(&os::state().vfs.file(&path).unwrap_or_default())])))
        }
        "wsave" => {
            let (a, path, rounds) = outside(|| (p_io::workload(&c["wkl"]), c["path"].as_str().unwrap().to_string(), c["rounds"].as_u64().unwrap_or(1)));
            let r = call(|| {
                let mut b = vec![];
                for _ in 0..rounds {
                    a.to_file(&path);
                    b = Workload::from_file(&path).force();
                }
                b
            });
            outside(|| r.map(|b| json!([b.iter().map(|s| s.to_string()).collect::<Vec<_>>(), String::from_utf8_lossy(&os::state().vfs.file(&path).unwrap_or_default())])))
        }
        "count" => {
            let name = outside(|| c["name"].as_str().unwrap_or("").to_string());
            let r = call(|| ruler::count_lines(&name));
            outside(|| r.map(|n| json!(n)))
        }
        "egraph" => {
            let wk = outside(|| Workload::new(strs(&c["terms"])));
            let r = call(|| (wk.to_egraph::<Alg>(), wk.force()));
            outside(|| r.map(|(e, f)| json!([p_sat::dump(&e), f.iter().map(|s| s.to_string()).collect::<Vec<_>>()])))
        }
        "sat" => {
            let ((eg, _), rules) = outside(|| (p_sat::build(c), ruleset(&strs(&c["rules"]))));
            let before = outside(|| p_sat::dump(&eg));
            let (l, s) = (lim("limits"), u("strategy"));
            let r = call(|| sched_of(s, l).run(&eg, &rules));
            outside(|| {
                if before != p_sat::dump(&eg) {
                    return changed();
                }
                r.map(|e| json!(p_sat::dump(&e)))
            })
        }
        x => Err(format!("harness: no such call {}", x)),
    }
}
fn encode(r: &Result<Value, String>) -> Value {
    match r {
        Ok(v) => json!({"ok": v}),
        // positions in panic messages carry nothing
        Err(m) => json!({"panic": m}),
    }
}
fn brief(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 400 {
        format!("{}... ({} characters)", s.chars().take(400).collect::<String>(), s.len())
    } else {
        s
    }
}
/// What the call does in a fresh, undisturbed process of its own.
fn alone(d: &mut Drive, world: &Value, c: &Value) -> Result<Value, Verdict> {
    let mut pr = Proc::calm(7);
    p_io::prepare_dirs(&mut pr.vfs);
    prepare(c, &mut pr.vfs);
    let r = d.proc(&pr, || {
        outside(|| alg::set_ctx(Ctx::from_json(world)));
        let v = perform(c);
        outside(|| json!({"r": encode(&v), "ns": os::now_ns()}))
    })?;
    Ok(r.out["r"].clone())
}

/// A world shared by all calls of a run.
fn gen_base(r: &mut Rng) -> Value {
    let mut base = json!({"world": alg::gen_world(r)});
    if r.chance(1, 2) {
        p_min::add_ff(&mut base, r);
    }
    if r.chance(1, 3) {
        base["world"]["unk"] = json!(r.range(2, 9));
    }
    if r.chance(1, 5) {
        base["world"]["fold"] = json!(1);
    }
    base
}

// ---------------------------------------------------------------------------------------
// C09

pub fn gen_failure(r: &mut Rng) -> Plan {
    let mut base = gen_base(r);
    let op = *r.pick(&["partition", "partition", "derive", "min", "wkl", "ff", "rec", "sat", "cand"]);
    let c = gen_call(r, &base, op, 0);
    let mut faults = vec![];
    let kind = match op {
        "partition" => "ppanic",
        "min" => "vpanic",
        "wkl" | "ff" | "rec" => *r.pick(&["vpanic", "epanic"]),
        _ => "epanic",
    };
    let n = c["rules"].as_array().map_or(1, |a| a.len().max(1)) as u64;
    for _ in 0..*r.pick(&[1, 1, 2, 4]) {
        let at = match kind {
            "ppanic" => 1_000_000 + r.below(n),
            "vpanic" => r.logu(1, 12) - 1,
            _ => r.logu(1, 400) - 1,
        };
        faults.push(Fault::new(kind, at, false, 0));
    }
    if kind == "ppanic" && r.chance(1, 2) {
        let other = *r.pick(&["partition", "derive", "sat"]);
        let cc = gen_call(r, &base, other, 5);
        base["companion"] = cc;
    }
    gen_thread_faults(r, &mut faults);
    base["call"] = c;
    base["rounds"] = json!(r.range(1, 2));
    Plan::new("failure", base, faults, gen_sched(r))
}

pub fn drive_failure(d: &mut Drive, p: &Plan) -> Verdict {
    let (world, c, comp) = (p.work["world"].clone(), p.work["call"].clone(), p.work["companion"].clone());
    if c["op"].is_null() {
        return Verdict::Skip("empty".into());
    }
    let fresh = match alone(d, &world, &c) {
        Ok(v) => v,
        Err(v) => return v,
    };
    let fresh_comp = if comp.is_null() { Value::Null } else {
        match alone(d, &world, &comp) {
            Ok(v) => v,
            Err(v) => return v,
        }
    };
    d.judge(&p.proc(), move || {
        outside(|| alg::set_ctx(Ctx::from_json(&world)));
        let t0 = os::now_ns();
        let h = if comp.is_null() { None } else {
            let comp = outside(|| comp.clone());
            Some(std::thread::spawn(move || {
                let r = perform(&comp);
                outside(|| encode(&r))
            }))
        };
        for round in 0..p.u("rounds").max(1) {
            let before = outside(injected);
            let first = perform(&c);
            let done = outside(|| -> Result<bool, Verdict> {
                let fired = injected() > before;
                if os::now_ns() - t0 > BUDGET_NS {
                    return skip("time budget");
                }
                match &first {
                    Ok(v) if v == "an input was changed" => bad("input-changed", "the call changed its inputs"),
                    Ok(_) if fired => bad("swallowed-failure", "a rule check panicked, but the call returned normally"),
                    Err(m) if fired && !m.contains("injected") => bad("wrong-panic", m.clone()),
                    Err(_) if fired => {
                        os::probe("failure-surfaced");
                        Ok(true)
                    }
                    r if encode(r) != fresh => bad("differs", format!("without any failure in round {} the call gives {} instead of {}", round, brief(&encode(r)), brief(&fresh))),
                    _ => Ok(false),
                }
            })?;
            if !done {
                break;
            }
        }
        if let Some(h) = h {
            let r = h.join();
            outside(|| match r {
                Ok(v) if v == fresh_comp => {
                    os::probe("companion-undisturbed");
                    Ok(())
                }
                Ok(v) => bad("companion-disturbed", format!("a concurrent call gives {} instead of {}", brief(&v), brief(&fresh_comp))),
                Err(_) => bad("companion-disturbed", "a concurrent call's thread died"),
            })?;
        }
        outside(|| os::calm());
        let again = perform(&c);
        outside(|| {
            if os::now_ns() - t0 > BUDGET_NS {
                return skip("time budget");
            }
            let e = encode(&again);
            if e != fresh {
                return bad("not-contained", format!("after the failure the call gives {} instead of {}", brief(&e), brief(&fresh)));
            }
            Ok(())
        })
    })
}
/// How often an injected panic fired.
fn injected() -> u64 {
    ["ppanic", "epanic", "vpanic"].iter().map(|k| os::fired(k)).sum()
}

// ---------------------------------------------------------------------------------------
// C10

pub fn gen_repro(r: &mut Rng) -> Plan {
    let mut base = gen_base(r);
    let op = *r.pick(&["wkl", "wkl", "wkl", "ff", "ff", "rec", "min", "min", "derive", "partition", "cand", "cand", "sat", "egraph"]);
    base["call"] = gen_call(r, &base, op, 0);
    base["shift"] = json!(r.below(2000));
    let mut faults = vec![];
    for _ in 0..r.below(4) {
        faults.push(Fault::new("jump", r.logu(1, 600) - 1, false, r.range(1, 120) * 1_000_000_000));
    }
    for _ in 0..r.below(3) {
        faults.push(Fault::new("latency", r.logu(1, 20) - 1, false, r.logu(1_000_000, 50_000_000_000)));
    }
    gen_thread_faults(r, &mut faults);
    let mut s = gen_sched(r);
    s.cpus = r.range(1, 12);
    Plan::new("repro", base, faults, s)
}

pub fn drive_repro(d: &mut Drive, p: &Plan) -> Verdict {
    let (world, c) = (p.work["world"].clone(), p.work["call"].clone());
    if c["op"].is_null() {
        return Verdict::Skip("empty".into());
    }
    let first = match alone(d, &world, &c) {
        Ok(v) => v,
        Err(v) => return v,
    };
    if first["panic"].is_string() {
        d.probe("panics-alike");
    }
    let shift = p.u("shift");
    let mut pr = p.proc();
    p_io::prepare_dirs(&mut pr.vfs);
    d.judge(&pr, move || {
        outside(|| alg::set_ctx(Ctx::from_json(&world)));
        // other addresses than in the first process
        let mut junk: Vec<Vec<u8>> = vec![];
        let mut k = shift;
        while k > 0 {
            junk.push(vec![0; (k * 37 % 1900) as usize + 1]);
            k /= 3;
        }
        let t0 = os::now_ns();
        let a = perform(&c);
        let t1 = os::now_ns();
        let b = perform(&c);
        let t2 = os::now_ns();
        drop(junk);
        outside(|| {
            for (i, (r, ns)) in [(a, t1 - t0), (b, t2 - t1)].iter().enumerate() {
                if *ns > BUDGET_NS {
                    return skip("time budget");
                }
                let e = encode(r);
                if e != first {
                    let what = if i == 0 { "another schedule, clock and solver speed" } else { "a repetition in the same process" };
                    return bad(if i == 0 { "differs" } else { "repeat-differs" }, format!("{}: {} instead of {}", what, brief(&e), brief(&first)));
                }
            }
            let n = first["ok"].as_array().map_or(0, |a| a.len());
            if n > 1 { os::probe("rules-compared") }
            Ok(())
        })
    })
}

// ---------------------------------------------------------------------------------------
// C20

/// The same call with one thing about it changed: calls that are alike are the ones a cache or
/// shared table could mix up.
fn vary(r: &mut Rng, call: &Value, k: u64) -> Value {
    let mut c = call.clone();
    if !c["path"].is_null() {
        c["path"] = json!(format!("out/v{}.txt", k));
    }
    if !c["name"].is_null() {
        c["name"] = json!(format!("v{}", k));
    }
    if !c["strike"].is_null() {
        c["strike"] = json!(k + 1);
    }
    let mut ways: Vec<(&str, u64)> = vec![];
    for f in ["limits", "plimits", "mlimits"] {
        if c[f].is_object() {
            ways.push((f, 0));
            ways.push((f, 0));
        }
    }
    for f in ["dtype", "fast", "strategy", "which", "n", "rounds"] {
        if c[f].is_u64() {
            ways.push((f, 1));
        }
    }
    for f in ["rules", "targets", "prior", "cands", "terms"] {
        if c[f].as_array().map_or(false, |a| !a.is_empty()) {
            ways.push((f, 2));
            ways.push((f, 2));
        }
    }
    if ways.is_empty() {
        return c;
    }
    let (f, how) = *r.pick(&ways);
    match how {
        0 => {
            let g = *r.pick(&["iter", "iter", "node", "match"]);
            c[f][g] = match g {
                "iter" => json!((c[f][g].as_u64().unwrap_or(1) + r.range(1, 3)) % 4),
                _ => json!(r.logu(1, 60)),
            };
        }
        1 => {
            let top = match f { "strategy" | "which" => 3, "n" | "rounds" => 0, _ => 2 };
            if top > 0 {
                c[f] = json!((c[f].as_u64().unwrap_or(0) + 1 + r.below(top - 1)) % top);
            }
        }
        _ => {
            let a = c[f].as_array_mut().unwrap();
            let i = r.idx(a.len());
            if r.chance(1, 2) {
                a.remove(i);
            } else {
                let x = a.remove(i);
                let j = r.idx(a.len() + 1);
                a.insert(j, x);
            }
        }
    }
    c
}

pub fn gen_many(r: &mut Rng) -> Plan {
    let mut base = gen_base(r);
    let n = r.range(2, 4);
    let theme: &[&str] = match r.below(4) {
        0 => &["save", "wsave", "count", "egraph"],
        1 => &["derive", "partition", "sat"],
        2 => &["wkl", "ff", "min", "cand", "rec"],
        _ => &["wkl", "ff", "min", "cand", "derive", "partition", "save", "wsave", "count", "egraph", "sat"],
    };
    let mut k = 0;
    let alike = r.chance(1, 2);
    let mut made: Vec<Value> = vec![];
    let threads: Vec<Value> = (0..n)
        .map(|_| {
            let m = r.range(1, 2);
            let l: Vec<Value> = (0..m)
                .map(|_| {
                    k += 1;
                    let c = if alike && !made.is_empty() && r.chance(3, 4) {
                        let c = r.pick(&made).clone();
                        vary(r, &c, k)
                    } else {
                        let op = *r.pick(theme);
                        gen_call(r, &base, op, k)
                    };
                    made.push(c.clone());
                    c
                })
                .collect();
            json!(l)
        })
        .collect();
    let mut faults = vec![];
    gen_thread_faults(r, &mut faults);
    if r.chance(1, 3) {
        p_io::gen_io_faults(r, 60, false, &mut faults);
    }
    if r.chance(1, 3) {
        faults.push(Fault::new("latency", r.logu(1, 20) - 1, false, r.logu(1_000_000, 50_000_000_000)));
    }
    base["threads"] = json!(threads);
    let mut s = gen_sched(r);
    if s.policy == 0 {
        s.policy = 1;
        s.param = *r.pick(&[50, 300]);
    }
    Plan::new("many", base, faults, s)
}

pub fn drive_many(d: &mut Drive, p: &Plan) -> Verdict {
    let world = p.work["world"].clone();
    let lists: Vec<Vec<Value>> = p.work["threads"].as_array().map(|a| a.iter().map(|l| l.as_array().cloned().unwrap_or_default()).collect()).unwrap_or_default();
    let mut want: Vec<Vec<Value>> = vec![];
    let mut pr = p.proc();
    p_io::prepare_dirs(&mut pr.vfs);
    for l in &lists {
        let mut row = vec![];
        for c in l {
            if c["op"].is_null() {
                return Verdict::Skip("empty".into());
            }
            prepare(c, &mut pr.vfs);
            match alone(d, &world, c) {
                Ok(v) => row.push(v),
                Err(v) => return v,
            }
        }
        want.push(row);
    }
    d.judge(&pr, move || {
        outside(|| alg::set_ctx(Ctx::from_json(&world)));
        let t0 = os::now_ns();
        let hs: Vec<_> = lists
            .into_iter()
            .map(|l| {
                std::thread::spawn(move || {
                    let mut out = outside(|| Vec::with_capacity(8));
                    for c in &l {
                        let a = os::event_seq();
                        let r = perform(c);
                        let b = os::event_seq();
                        outside(|| out.push((encode(&r), c["op"].as_str().unwrap_or("").to_string(), a, b)));
                    }
                    out
                })
            })
            .collect();
        let mut got = outside(Vec::new);
        for h in hs {
            match h.join() {
                Ok(v) => outside(|| got.push(v)),
                Err(_) => return bad("panic", "a calling thread died"),
            }
        }
        outside(|| {
            if os::now_ns() - t0 > BUDGET_NS {
                return skip("time budget");
            }
            let mut spans: Vec<(usize, u64, u64)> = vec![];
            for (t, (g, w)) in got.iter().zip(&want).enumerate() {
                for ((v, op, a, b), x) in g.iter().zip(w) {
                    spans.push((t, *a, *b));
                    if v != x {
                        return bad("disturbed", format!("the {} call of thread {} gives {} instead of {} when others run at the same time", op, t, brief(v), brief(x)));
                    }
                }
            }
            if spans.iter().any(|x| spans.iter().any(|y| x.0 != y.0 && x.1 < y.2 && y.1 < x.2)) { os::probe("overlapping-calls") }
            Ok(())
        })
    })
}
