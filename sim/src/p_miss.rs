//! Whole inferences miss nothing but what the validator declined (C26).
use crate::alg::{self, Alg, Ctx};
use crate::common::*;
use crate::exec::call;
use crate::os::{self, outside};
use crate::p_min::{gen_wkl, infer, limits, prior_of, rrules};
use crate::refeg::{self, ground, PTerm, RefEg};
use crate::rng::Rng;
use ruler::enumo::{Filter, Metric, Ruleset, Scheduler, Workload};
use ruler::recipe_utils::{base_lang, iter_metric, recursive_rules, Lang};
use ruler::Limits;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub fn gen_miss(r: &mut Rng) -> Plan {
    let mut p = gen_wkl("C26", r);
    while p.kind == "ff" {
        p = gen_wkl("C26", r);
    }
    p.faults.retain(|f| f.kind != "vpanic" && f.kind != "jump");
    // the clock moves, but stays inside the budget
    if r.chance(1, 3) {
        p.faults.push(crate::os::Fault::new("jump", r.logu(1, 600), false, r.range(1, 250) * 1_000_000_000));
    }
    if p.kind == "rec" {
        // smaller sizes are inferred anew by the check, so the answers must be the same
        p.faults.retain(|f| f.kind != "unknown");
        let few = |v: &serde_json::Value, n: usize| json!(strs(v).into_iter().take(n).collect::<Vec<_>>());
        p.work["uops"] = few(&p.work["uops"], 2);
        p.work["bops"] = few(&p.work["bops"], 1);
    } else {
        p.faults.iter_mut().filter(|f| f.kind == "unknown").for_each(|f| f.sticky = f.sticky && f.at % 3 == 0);
        if r.chance(1, 2) {
            p.work["prior"] = json!([]);
        }
    }
    p
}

/// The rules, given or shown by `known` among the candidates, that an inference accounts for.
/// None if the reference gave up.
pub fn accounted(known: &[String], declined: &BTreeSet<String>, cands: &[String], iters: usize) -> Option<Vec<String>> {
    let mut h = RefEg::new();
    let mut sides = vec![];
    for n in known.iter().chain(cands) {
        let r = refeg::rrule(n);
        sides.push((h.add_term(&ground(&r.l)), h.add_term(&ground(&r.r))));
    }
    let mut out: BTreeSet<String> = known.iter().chain(declined).cloned().collect();
    if cands.iter().all(|c| out.contains(c)) {
        return Some(out.into_iter().collect());
    }
    h.simple(&rrules(known), iters, 4000).ok()?;
    for (c, (l, r)) in cands.iter().zip(&sides[known.len()..]) {
        if h.find(*l) == h.find(*r) {
            out.insert(c.clone());
        }
    }
    Some(out.into_iter().collect())
}

/// The first of `pairs` (of terms) that can be stated as a rule, but is neither accounted for
/// nor follows from the prior rules. Err if the reference gave up.
pub fn missed(terms: &[PTerm], pairs: &[(usize, usize)], prior: &[String], iters: usize, accounted: &[String]) -> Result<Option<(usize, usize)>, ()> {
    let mut g = RefEg::new();
    let ids: Vec<usize> = terms.iter().map(|t| g.add_term(t)).collect();
    g.simple(&rrules(prior), iters, 2500).map_err(|_| ())?;
    let vs = g.var_sets(|v| alg::VARS.contains(&v));
    let statable = |i: usize, j: usize| {
        let (a, b) = (&vs[&g.find(ids[i])], &vs[&g.find(ids[j])]);
        a.0 == a.1 && b.0 == b.1 && (a.0.is_subset(&b.0) || b.0.is_subset(&a.0))
    };
    let open: Vec<(usize, usize)> = pairs.iter().filter(|(i, j)| g.find(ids[*i]) != g.find(ids[*j]) && statable(*i, *j)).cloned().collect();
    if open.is_empty() {
        return Ok(None);
    }
    let rules = rrules(accounted);
    for _ in 0..3 {
        if !g.merge_round(&rules).map_err(|_| ())? {
            break;
        }
    }
    for (i, j) in open {
        os::probe("equality-checked");
        if g.find(ids[i]) != g.find(ids[j]) {
            return Ok(Some((i, j)));
        }
    }
    Ok(None)
}

pub fn drive_miss(d: &mut Drive, p: &Plan) -> Verdict {
    d.judge(&p.proc(), || {
        outside(|| alg::set_ctx(Ctx::from_json(&p.work["world"])));
        let t0 = os::now_ns();
        let res = infer(p);
        let names = outside(|| {
            let elapsed = os::now_ns() - t0;
            let log = alg::take_log();
            let names = match res {
                Ok(n) => n,
                // nothing learned: everything there is to see must have been declined or be known
                Err(m) if crate::p_min::benign_panic(&m) => vec![],
                Err(m) => return bad("panic", m),
            };
            if elapsed - os::solver_ns().min(elapsed) > BUDGET_NS / 2 {
                return skip("cut off");
            }
            Ok((names, log))
        });
        let (names, log) = names?;
        outside(|| os::calm());
        // what the inference started from
        let (terms, prior, iters, fast) = outside(|| {
            let prior = prior_of(p);
            if p.kind == "rec" { (vec![], prior, 3, true) } else { (p.strs("terms"), prior, limits(&p.work["plimits"]).iter, p.u("fast") == 1) }
        });
        let (terms, prior, pl, ml) = if p.kind == "rec" {
            let lang = outside(|| Lang { vals: p.strs("vals"), vars: p.strs("vars"), ops: vec![p.strs("uops"), p.strs("bops")] });
            let (n, m) = outside(|| (p.u("n") as usize, if p.u("metric") == 0 { Metric::Atoms } else { Metric::Depth }));
            let n = if p.u("metric") == 0 { n } else { n.min(2) };
            let (l2, p2) = outside(|| (lang.clone(), prior.clone()));
            let smaller = match call(move || recursive_rules::<Alg>(m, n - 1, l2, p2)) {
                Ok(r) => r,
                Err(_) => return skip("smaller size"),
            };
            outside(|| {
                for x in smaller.to_str_vec().iter().chain(&prior.to_str_vec()) {
                    if !names.contains(x) && !names.is_empty() {
                        return bad("lost-rule", format!("{} of the smaller size or the prior rules is not in the result", x));
                    }
                }
                Ok(())
            })?;
            let terms = outside(|| {
                let mut w = iter_metric(base_lang(2), "EXPR", m, n)
                    .filter(Filter::Contains("VAR".parse().unwrap()))
                    .plug("VAR", &Workload::new(lang.vars.clone()))
                    .plug("VAL", &Workload::new(lang.vals.clone()));
                for (i, ops) in lang.ops.iter().enumerate() {
                    w = w.plug(format!("OP{}", i + 1), &Workload::new(ops));
                }
                w.force().iter().map(|t| t.to_string()).collect::<Vec<_>>()
            });
            let known = outside(|| {
                let mut k = smaller.clone();
                k.extend(prior.clone());
                k
            });
            outside(|| drop((smaller, lang, prior)));
            (terms, known, Limits::synthesis(), Limits::minimize())
        } else {
            outside(|| (terms, prior, limits(&p.work["plimits"]), limits(&p.work["mlimits"])))
        };
        if terms.is_empty() || terms.len() > 150 {
            return skip("size");
        }
        // the candidates the domain's samples suggest: they may be stepping stones
        let cands = {
            let wk = outside(|| Workload::new(&terms));
            let pr = outside(|| prior.clone());
            match call(move || {
                let eg = Scheduler::Compress(pl).run(&wk.to_egraph::<Alg>(), &pr);
                if fast { Ruleset::fast_cvec_match(&eg) } else { Ruleset::cvec_match(&eg) }
            }) {
                Ok(c) => outside(|| c.to_str_vec()),
                Err(m) => return bad("panic", m),
            }
        };
        outside(|| {
            if cands.len() > 500 {
                return skip("size");
            }
            let prior = prior.to_str_vec();
            let mut known = prior.clone();
            known.extend(names.iter().filter(|n| !prior.contains(n)).cloned());
            let declined: BTreeSet<String> = log.iter().filter(|e| e.1 != 0).map(|e| e.0.clone()).collect();
            let acc = match accounted(&known, &declined, &cands, ml.iter) {
                Some(a) => a,
                None => return skip("reference too big"),
            };
            let c = alg::ctx();
            let mut vars = vec![];
            for t in &terms {
                alg::vars_of(alg::expr(t).as_ref(), &mut vars);
            }
            let samples = c.samples(&vars);
            let vecs: Vec<Vec<Option<u8>>> = terms.iter().map(|t| { let e = alg::expr(t); samples.iter().map(|s| c.eval_expr(e.as_ref(), s)).collect() }).collect();
            let mut alike: BTreeMap<&Vec<Option<u8>>, Vec<usize>> = BTreeMap::new();
            for (i, v) in vecs.iter().enumerate() {
                if !v.is_empty() && v.iter().all(|x| x.is_some()) {
                    alike.entry(v).or_default().push(i);
                }
            }
            let mut pairs = vec![];
            for g in alike.values() {
                for (k, i) in g.iter().enumerate() {
                    for j in &g[k + 1..] {
                        pairs.push((*i, *j));
                    }
                }
            }
            let parsed: Vec<PTerm> = terms.iter().map(|t| refeg::parse(t)).collect();
            if log.iter().any(|e| e.1 == 2) { os::probe("solver-gave-up") }
            os::probe(&format!("inference-{}", p.kind));
            match missed(&parsed, &pairs, &prior, pl.iter.max(iters), &acc) {
                Err(()) => skip("reference too big"),
                Ok(None) => Ok(()),
                Ok(Some((i, j))) => bad("missed-equality", format!("{} and {} look alike and the validator was never heard to decline that, but neither prior nor learned rules equate them; learned {:?}", terms[i], terms[j], names)),
            }
        })
    })
}
