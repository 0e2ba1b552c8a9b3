//! Equality saturation under every strategy, cut off anywhere (C03, C04, C05, C06, C18).
use crate::alg::{self, Alg, Ctx, Gen};
use crate::common::*;
use crate::exec::call;
use crate::os::{self, outside, Fault};
use crate::p_min::{gen_limits, gen_rules, limits, roomy, rrules, ruleset, sched_of};
use crate::refeg::{self, RefEg, TooBig};
use crate::rng::Rng;
use egg::{Analysis, CostFunction, Id};
use ruler::enumo::Workload;
use ruler::{EGraph, ExtractableAstSize, Limits, SynthAnalysis};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub type Eg = EGraph<Alg, SynthAnalysis>;

/// A starting e-graph: terms, equalities already known, rules.
pub fn gen_start(r: &mut Rng, unsound_ok: bool, weak: bool) -> Value {
    let mut w = alg::gen_world(r);
    if weak {
        w["weak"] = json!(1);
        w["nsamples"] = json!(r.range(1, 4));
    }
    let unsound = unsound_ok && r.chance(1, 3);
    let wkl = !unsound && r.chance(2, 3);
    if wkl && r.chance(1, 3) {
        w["fold"] = json!(1);
    }
    if r.chance(1, 5) {
        w["allowed"] = json!(0xff & !(1 << r.below(8)));
    }
    let c = Ctx::from_json(&w).truth().clone();
    let g = Gen::from_json(&w);
    let n = r.logu(1, 16);
    let depth = r.range(1, 3) as usize;
    let mut terms: Vec<String> = (0..n).map(|_| g.term(r, depth)).collect();
    let nr = r.logu(1, 9);
    let rdepth = r.range(1, 2) as usize;
    let rules = gen_rules(&g, &c, r, nr, unsound, rdepth);
    // terms in which the rules match
    for x in &rules {
        if r.chance(1, 2) {
            let rr = refeg::rrule(x);
            let side = if r.chance(1, 2) { rr.l } else { rr.r };
            terms.push(fill(&side, r, &g));
        }
    }
    let mut unions = vec![];
    if r.chance(1, 2) {
        let vars: Vec<String> = g.vars.iter().map(|s| s.to_string()).collect();
        let vecs: Vec<Vec<Option<u8>>> = terms.iter().map(|t| c.vector(alg::expr(t).as_ref(), &vars)).collect();
        for i in 0..terms.len() {
            for j in 0..i {
                if (vecs[i] == vecs[j] && r.chance(1, 2)) || (unsound && r.chance(1, 12)) {
                    unions.push(json!([i, j]));
                }
            }
        }
    }
    json!({"world": w, "wkl": wkl as u64, "terms": terms, "unions": unions, "rules": rules, "sound": !unsound as u64, "rebuild": r.below(2)})
}
/// A pattern with its variables replaced by small terms.
fn fill(p: &refeg::PTerm, r: &mut Rng, g: &Gen) -> String {
    fn vars(p: &refeg::PTerm, out: &mut BTreeSet<String>) {
        match p {
            refeg::PTerm::Var(v) => {
                out.insert(v.clone());
            }
            refeg::PTerm::App(_, k) => k.iter().for_each(|c| vars(c, out)),
        }
    }
    fn go(p: &refeg::PTerm, m: &BTreeMap<String, String>) -> String {
        match p {
            refeg::PTerm::Var(v) => m[v].clone(),
            refeg::PTerm::App(o, k) if k.is_empty() => o.clone(),
            refeg::PTerm::App(o, k) => format!("({} {})", o, k.iter().map(|c| go(c, m)).collect::<Vec<_>>().join(" ")),
        }
    }
    let mut vs = BTreeSet::new();
    vars(p, &mut vs);
    let m = vs.into_iter().map(|v| { let d = r.below(2) as usize; (v, g.term(r, d)) }).collect();
    go(p, &m)
}

pub fn gen_sat(prop: &str, r: &mut Rng) -> Plan {
    let weak = matches!(prop, "C18" | "C05") && r.chance(1, 2);
    let mut w = gen_start(r, prop != "C18", weak);
    if prop == "C18" {
        w["wkl"] = json!(1);
    }
    let strat = match prop {
        "C04" => 2,
        _ => r.below(3),
    };
    w["strategy"] = json!(strat);
    let cut = r.chance(2, 5);
    w["limits"] = gen_limits(r, cut);
    let mut faults = vec![];
    match r.below(5) {
        0 | 1 => gen_clock_cut(r, 250, &mut faults),
        2 => {
            // the clock moves a lot, but stays inside the budget
            for _ in 0..r.range(1, 3) {
                faults.push(Fault::new("jump", r.logu(1, 250), false, r.range(1, 190) * 1_000_000_000));
            }
        }
        _ => {}
    }
    if strat == 1 {
        gen_thread_faults(r, &mut faults);
    }
    Plan::new("sat", w, faults, if strat == 1 { gen_sched(r) } else { gen_sched_light(r) })
}

/// Builds the starting e-graph the way a user does.
pub fn build(w: &Value) -> (Eg, Vec<(String, Id)>) {
    let terms = strs(&w["terms"]);
    let mut eg: Eg = if w["wkl"] == 1 {
        Workload::new(&terms).to_egraph()
    } else {
        let mut eg: Eg = Default::default();
        for t in &terms {
            eg.add_expr(&alg::expr(t));
        }
        eg
    };
    if w["rebuild"] == 1 {
        eg.rebuild();
    }
    let mut clean = eg.clone();
    clean.rebuild();
    let mut handles = vec![];
    for t in &terms {
        handles.push((t.clone(), clean.lookup_expr(&alg::expr(t)).expect("a term just added")));
    }
    for u in w["unions"].as_array().cloned().unwrap_or_default() {
        let (i, j) = (u[0].as_u64().unwrap_or(0) as usize, u[1].as_u64().unwrap_or(0) as usize);
        if i < handles.len() && j < handles.len() {
            eg.union(handles[i].1, handles[j].1);
            eg.rebuild();
        }
    }
    (eg, handles)
}

/// Everything a caller can see of an e-graph.
pub fn dump(eg: &Eg) -> Vec<String> {
    let mut v: Vec<String> = eg.classes().map(|c| format!("{} {:?} {:?} {} {:?}", c.id, c.nodes, c.data.cvec, c.data.simplest, c.data.interval)).collect();
    v.sort();
    v
}

pub fn drive_sat(d: &mut Drive, p: &Plan) -> Verdict {
    d.judge(&p.proc(), || {
        let (input, handles, rules, lim, strat) = outside(|| {
            alg::set_ctx(Ctx::from_json(&p.work["world"]));
            let (eg, h) = build(&p.work);
            (eg, h, ruleset(&p.strs("rules")), limits(&p.work["limits"]), p.u("strategy"))
        });
        let before = outside(|| dump(&input));
        outside(|| os::state().reads = Some(vec![]));
        let t0 = os::now_ns();
        let res = call(|| sched_of(strat, lim).run(&input, &rules));
        let elapsed = os::now_ns() - t0;
        let reads = outside(|| os::state().reads.take().unwrap());
        let out = match res {
            Ok(o) => o,
            Err(m) => return bad("panic", m),
        };
        let after = outside(|| dump(&input));
        outside(|| os::calm());
        let intime = elapsed <= BUDGET_NS;
        if !intime { os::probe("time-budget-exceeded") }
        let v = match &p.prop[..] {
            "C04" => {
                // the same saturation without compression; if the time budget ended the run, this
                // one gets a little less time, so that what it merges had to be merged
                const LESS: usize = 8;
                let cut = reads.iter().position(|x| *x > t0 + BUDGET_NS).unwrap_or(0);
                // (a jump at the very start would pass before the budget starts to count)
                let comparable = intime || cut > LESS + 4;
                if !intime && comparable {
                    outside(|| {
                        let at = os::clock_reads() + (cut - LESS) as u64;
                        os::state().faults.push(Fault::new("jump", at, false, 2 * BUDGET_NS));
                        os::state().has_clock = true;
                        os::probe("cut-runs-compared");
                    });
                }
                let plain = call(|| sched_of(0, lim).run(&input, &rules));
                outside(|| match plain {
                    Ok(plain) => check_compress(p, &input, &out, &plain, comparable),
                    Err(m) => bad("panic", m),
                })
            }
            "C05" => outside(|| check_sound(p, &input, &out, strat, &lim)),
            "C06" => outside(|| check_exact(p, &input, &handles, &out, strat, &lim, intime)),
            "C18" => outside(|| check_facts(p, &out)),
            "C03" => outside(|| check_iterations(p, &input, &out, strat, &lim, intime)),
            _ => Ok(()),
        };
        v?;
        outside(|| {
            if matches!(&p.prop[..], "C04" | "C06") && before != after {
                let i = (0..before.len().min(after.len())).find(|i| before[*i] != after[*i]).unwrap_or(0);
                return bad("input-changed", format!("the input e-graph was changed: {:?} became {:?}", before.get(i), after.get(i)));
            }
            Ok(())
        })
    })
}

fn clean(eg: &Eg) -> Eg {
    let mut c = eg.clone();
    c.rebuild();
    c
}
fn folding(p: &Plan) -> bool {
    p.work["world"]["fold"] == 1
}

// C04
fn check_compress(p: &Plan, input: &Eg, out: &Eg, plain: &Eg, comparable: bool) -> Result<(), Verdict> {
    let inp = clean(input);
    if out.number_of_classes() > inp.number_of_classes() {
        return bad("grew", format!("{} classes became {}", inp.number_of_classes(), out.number_of_classes()));
    }
    let ids: Vec<Id> = inp.classes().map(|c| c.id).collect();
    let images: BTreeSet<usize> = ids.iter().map(|i| usize::from(out.find(*i))).collect();
    let classes: BTreeSet<usize> = out.classes().map(|c| usize::from(out.find(c.id))).collect();
    if images != classes {
        return bad("foreign-class", format!("classes {:?} of the result are no unions of input classes", classes.symmetric_difference(&images).collect::<Vec<_>>()));
    }
    if !folding(p) {
        let canon = |eg: &Eg| -> BTreeSet<(String, Vec<usize>, usize)> {
            eg.classes().flat_map(|c| c.nodes.iter().map(move |n| (n, c.id)))
                .map(|(n, id)| (n.to_string(), egg::Language::children(n).iter().map(|k| usize::from(out.find(*k))).collect(), usize::from(out.find(id)))).collect()
        };
        let (a, b) = (canon(&inp), canon(out));
        if let Some(n) = b.difference(&a).next() {
            return bad("grew", format!("the result has the e-node {:?}, which the input does not have", n));
        }
        if let Some(n) = a.difference(&b).next() {
            return bad("lost-node", format!("the e-node {:?} of the input is gone", n));
        }
    }
    if out.number_of_classes() < inp.number_of_classes() { os::probe("compressed") }
    if !comparable {
        return Ok(());
    }
    // (deterministic cuts by iterations, nodes and matches strike both runs alike)
    let mut merged = false;
    let mut rep: BTreeMap<usize, Id> = BTreeMap::new();
    for i in &ids {
        let s = usize::from(plain.find(*i));
        match rep.get(&s) {
            None => {
                rep.insert(s, *i);
            }
            Some(j) => {
                merged = true;
                if out.find(*i) != out.find(*j) {
                    return bad("missed-merge", format!("plain saturation merges {} and {}, compression does not", inp[*i].data.simplest, inp[*j].data.simplest));
                }
            }
        }
    }
    if merged { os::probe("merges-compared") }
    Ok(())
}

fn start_ref(p: &Plan, input: &Eg) -> (RefEg, BTreeMap<usize, usize>) {
    let inp = clean(input);
    let (mut g, map) = RefEg::of_egg(&inp);
    if p.work["wkl"] == 1 {
        let mut vars = vec![];
        for t in p.strs("terms") {
            alg::vars_of(alg::expr(&t).as_ref(), &mut vars);
        }
        g.with_samples(alg::ctx().samples(&vars));
    }
    (g, map)
}
fn reference(g: &RefEg, p: &Plan, strat: u64, iters: usize) -> Result<(RefEg, usize), TooBig> {
    let mut h = g.clone();
    let rules = rrules(&ruleset(&p.strs("rules")).to_str_vec());
    let most = if strat == 1 { h.saturating(&rules, iters, 1500)? } else { h.simple(&rules, iters, 1500)? };
    Ok((h, most))
}
fn all_vars(p: &Plan) -> Vec<String> {
    let mut vars = vec![];
    for t in p.strs("terms") {
        alg::vars_of(alg::expr(&t).as_ref(), &mut vars);
    }
    vars
}

// C05
fn check_sound(p: &Plan, input: &Eg, out: &Eg, strat: u64, lim: &Limits) -> Result<(), Verdict> {
    let (o, _) = RefEg::of_egg(out);
    if p.u("sound") == 1 {
        os::probe("semantics-checked");
        if let Err(e) = o.consistent(alg::ctx().truth(), &all_vars(p)) {
            return bad("unsound-merge", format!("in a class of the result: {}", e));
        }
    }
    if folding(p) || alg::ctx().whole.is_some() {
        return Ok(());
    }
    let (g, _) = start_ref(p, input);
    // two terms equal in the result must be equal by the rules; a few more rounds than allowed
    // to the run, as only the equalities matter here
    let r = match reference(&g, p, 1, lim.iter + 2) {
        Ok(r) => Some(r.0),
        Err(_) => reference(&g, p, strat, lim.iter).ok().map(|r| r.0),
    };
    if let Some(r) = r {
        os::probe("derivations-checked");
        if let Err(e) = o.extra_equality(&r) {
            return bad("unsound-merge", format!("{}, which does not follow from the rules {:?}", e, p.strs("rules")));
        }
    }
    Ok(())
}

// C06
fn check_exact(p: &Plan, input: &Eg, handles: &[(String, Id)], out: &Eg, strat: u64, lim: &Limits, intime: bool) -> Result<(), Verdict> {
    // same handles
    for (t, id) in handles {
        match out.lookup_expr(&alg::expr(t)) {
            None => return bad("lost-term", format!("the term {} of the starting e-graph is gone", t)),
            Some(c) if c != out.find(*id) => return bad("lost-handle", format!("the handle of {} now denotes another class", t)),
            _ => {}
        }
    }
    let inp = clean(input);
    for c in inp.classes() {
        for n in &c.nodes {
            match out.lookup(n.clone()) {
                Some(x) if x == out.find(c.id) => {}
                _ => return bad("lost-term", format!("the e-node {} of the starting e-graph is no longer in its class", n)),
            }
        }
    }
    if folding(p) || strat == 2 {
        return Ok(());
    }
    let (g, _) = start_ref(p, input);
    let (r, most) = match reference(&g, p, strat, lim.iter) {
        Ok(r) => r,
        Err(_) => return Ok(()),
    };
    let (o, _) = RefEg::of_egg(out);
    if o.nodes() > g.nodes() { os::probe("grew") }
    let uncut = intime && 4 * r.ever + 50 < lim.node && 2 * most + 10 < lim.match_;
    if uncut {
        os::probe("exact-compared");
        if let Err(e) = r.included_in(&o) {
            return bad("incomplete", format!("no limit was reached, but {} (reference has it); strategy {} with {:?}", e, strat, p.strs("rules")));
        }
        if let Err(e) = o.included_in(&r) {
            return bad("overdone", format!("the result has more than the strategy is documented to find: {}; strategy {} with {:?}", e, strat, p.strs("rules")));
        }
    } else {
        os::probe("cut-off");
    }
    Ok(())
}

// C03: never more iterations than allowed, and not fewer unless a limit strikes
fn check_iterations(p: &Plan, input: &Eg, out: &Eg, strat: u64, lim: &Limits, intime: bool) -> Result<(), Verdict> {
    if folding(p) || strat == 2 {
        return Ok(());
    }
    let (g, _) = start_ref(p, input);
    let (o, _) = RefEg::of_egg(out);
    let (r, most) = match reference(&g, p, strat, lim.iter) {
        Ok(r) => r,
        Err(_) => return Ok(()),
    };
    os::probe("iterations-checked");
    if let Err(e) = o.included_in(&r) {
        return bad("too-many-iterations", format!("more than {} iterations were run: {}; strategy {} with {:?}", lim.iter, e, strat, p.strs("rules")));
    }
    if intime && 4 * r.ever + 50 < lim.node && 2 * most + 10 < lim.match_ {
        if let Err(e) = r.included_in(&o) {
            return bad("cut-short", format!("the run stopped early although no limit was reached: {}; strategy {}", e, strat));
        }
    }
    Ok(())
}

// C18
fn check_facts(p: &Plan, out: &Eg) -> Result<(), Verdict> {
    let c = alg::ctx();
    let (g, map) = RefEg::of_egg(out);
    let vars = all_vars(p);
    let exact = match g.consistent(c.truth(), &vars) {
        Ok(v) => v,
        Err(_) => return skip("unsound"),
    };
    let samples = c.samples(&vars);
    let sampled = if c.whole.is_some() {
        os::probe("partly-defined");
        g.joined_at(c, &samples)
    } else {
        g.values_at(c, &samples)
    };
    let sampled = match sampled {
        Ok(v) => v,
        Err(_) => return skip("unsound"),
    };
    let cost = |e: &egg::RecExpr<Alg>| ExtractableAstSize.cost_rec(e);
    let len = out.analysis.cvec_len;
    if len != c.samples(&vars).len() {
        return bad("cvec-length", format!("the e-graph's vectors are {} long instead of {}", len, c.samples(&vars).len()));
    }
    let mut probe = out.clone();
    for cl in out.classes() {
        let id = out.find(cl.id);
        let data = &cl.data;
        let what = || format!("{} (class {})", data.simplest, id);
        if data.cvec.len() != len {
            return bad("cvec-length", format!("the vector of {} has length {} instead of {}", what(), data.cvec.len(), len));
        }
        let want = match sampled.get(&map[&usize::from(id)]) {
            Some(w) => w,
            None => return bad("empty-class", format!("{} has no finite term", what())),
        };
        for (i, (x, y)) in data.cvec.iter().zip(want).enumerate() {
            if x.map(|v| v.0) != *y {
                return bad("wrong-cvec", format!("position {} of the vector of {} is {:?}, evaluation gives {:?}", i, what(), x, y));
            }
        }
        match out.lookup_expr(&data.simplest) {
            Some(x) if x == id => {}
            x => return bad("wrong-simplest", format!("{} is the simplest term of class {} but is in {:?}", data.simplest, id, x)),
        }
        let vals = &exact[&map[&usize::from(id)]];
        for v in vals.iter().flatten() {
            let iv = &data.interval;
            if iv.low.map_or(false, |l| *v < l.0 % c.m as u8) || iv.high.map_or(false, |h| *v > h.0 % c.m as u8) {
                return bad("wrong-interval", format!("{} can be {} but its interval is {:?}", what(), v, iv));
            }
        }
        // up to date with the children
        for n in &cl.nodes {
            if alg::op_index(n).is_none() && matches!(n, Alg::Var(_)) {
                continue;
            }
            let made = SynthAnalysis::make(&mut probe, n);
            if cost(&data.simplest) > cost(&made.simplest) {
                return bad("stale-simplest", format!("{} is not simplest: {} is in the class, too", what(), made.simplest));
            }
            let lo_ok = match (data.interval.low, made.interval.low) { (_, None) => true, (None, Some(_)) => false, (Some(a), Some(b)) => a >= b };
            let hi_ok = match (data.interval.high, made.interval.high) { (_, None) => true, (None, Some(_)) => false, (Some(a), Some(b)) => a <= b };
            if !lo_ok || !hi_ok {
                return bad("stale-interval", format!("{} has interval {:?}, its node {} gives {:?}", what(), data.interval, n, made.interval));
            }
        }
        if data.interval.low.is_some() && data.interval.low == data.interval.high {
            os::probe("constant-found");
            if !cl.nodes.iter().any(|n| matches!(n, Alg::Lit(v) if Some(*v) == data.interval.low)) {
                return bad("missing-constant", format!("{} can only be {:?} but that constant is not in its class", what(), data.interval.low));
            }
        }
    }
    os::probe("facts-checked");
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C03: the time budget

pub fn gen_budget(r: &mut Rng) -> Plan {
    // rules that grow for ever, slowly enough to reach many clock readings
    let slow = ["(f ?a) ==> (f (g ?a))", "(g ?a) ==> (f (g ?a))", "(~ ?a) ==> (~ (f ?a))", "(+ ?a ?b) ==> (+ ?a (f ?b))", "(f ?a) ==> (g (f (f ?a)))",
        "(* ?a ?b) ==> (* (g ?a) ?b)", "(+ ?a ?b) ==> (+ ?b ?a)", "(f (g ?a)) ==> (g (f ?a))", "(- ?a ?b) ==> (- (f ?a) (g ?b))"];
    let mut rules = vec![];
    for _ in 0..r.range(1, 3) {
        rules.push(crate::p_min::canon_name(*r.pick(&slow)));
    }
    rules.sort();
    rules.dedup();
    let strat = *r.pick(&[0, 0, 1, 2]);
    let iter = if strat == 1 { r.range(1, 3) } else { *r.pick(&[200, 100_000, 1 << 40]) };
    let terms = ["(f a)", "(+ (f a) (g b))", "(~ (~ a))", "(* a (- b (f a)))", "(g (f a))"];
    let n = r.range(1, 3);
    let picked: Vec<&str> = (0..n).map(|_| *r.pick(&terms)).collect();
    let mut faults = vec![];
    let reads = r.range(10, 220);
    let mut s = gen_sched_light(r);
    s.policy = 0;
    s.preempt = 0;
    if r.chance(1, 2) {
        // slow clock: every reading takes a part of the budget
        s.tick = BUDGET_NS / reads;
    } else {
        faults.push(Fault::new("jump", reads, false, r.range(601, 5000) * 1_000_000_000));
        s.tick = s.tick.min(1000);
    }
    let w = json!({"kind": 3, "m": 2, "seed": 1, "partial": 0, "nsamples": 1, "full": 0, "fold": 0, "ops": 255, "nvars": 2, "nlits": 0, "latency": 1000});
    Plan::new("budget", json!({"world": w, "terms": picked, "rules": rules, "strategy": strat, "limits": {"iter": iter, "node": 1u64 << 40, "match": 1u64 << 40}}), faults, s)
}

pub fn drive_budget(d: &mut Drive, p: &Plan) -> Verdict {
    d.small = true;
    d.judge(&p.proc(), || {
        let (input, rules, lim, strat) = outside(|| {
            alg::set_ctx(Ctx::from_json(&p.work["world"]));
            let mut eg: Eg = Default::default();
            for t in p.strs("terms") {
                eg.add_expr(&alg::expr(&t));
            }
            (eg, ruleset(&p.strs("rules")), limits(&p.work["limits"]), p.u("strategy"))
        });
        let phases = if strat == 1 { 2 * lim.iter as u64 + 1 } else { 1 };
        let expire = if p.faults.is_empty() { BUDGET_NS / p.sched.tick.max(1) + 1 } else { p.faults[0].at };
        // generous: a run that goes on needs thousands of readings
        let most = phases * (expire + 400) + 2000;
        outside(|| {
            os::state().reads = Some(vec![]);
            os::state().max_reads = most;
        });
        let t0 = os::now_ns();
        let res = call(|| sched_of(strat, lim).run(&input, &rules));
        let elapsed = os::now_ns() - t0;
        outside(|| {
            let reads = os::state().reads.take().unwrap();
            let out = match res {
                Ok(o) => o,
                Err(m) => return bad("panic", m),
            };
            if elapsed > BUDGET_NS { os::probe("time-budget-exceeded") }
            if lim.iter > 1000 || strat == 1 { os::probe("diverging") }
            if phases == 1 {
                // an expired budget is noticed at the next few looks at the clock
                let late = reads.iter().filter(|x| **x > t0 + BUDGET_NS + p.sched.tick).count();
                if late > 60 {
                    return bad("over-budget", format!("the clock was read {} times after the time budget had passed", late));
                }
                if lim.iter > 1000 && elapsed < BUDGET_NS && grows(&p.strs("rules"), &p.strs("terms")) {
                    return bad("cut-short", format!("a saturation that never ends was stopped after {} s although no limit was reached", elapsed / 1_000_000_000));
                }
            }
            let jump: u64 = p.faults.iter().map(|f| f.arg).sum();
            let cap = phases * (BUDGET_NS + 80 * p.sched.tick + 60_000_000_000) + jump;
            if elapsed > cap {
                return bad("over-budget", format!("{} s passed in {} phases", elapsed / 1_000_000_000, phases));
            }
            drop(out);
            Ok(())
        })
    })
}
/// Whether the reference is still changing after many rounds.
fn grows(rules: &[String], terms: &[String]) -> bool {
    let mut g = RefEg::new();
    for t in terms {
        g.add_term(&refeg::parse(t));
    }
    let rs = rrules(rules);
    for _ in 0..12 {
        match g.round(&rs, 3000) {
            Ok((false, _)) => return false,
            Err(_) => return true,
            _ => {}
        }
    }
    true
}

pub fn unused(l: &Limits) -> bool {
    roomy(l)
}
