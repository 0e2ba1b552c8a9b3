//! The bit-vector domains: ruler's own interpreter and validator with the real Z3, in which
//! a seeded choice of checks gives up (C01).
use crate::common::*;
use crate::exec::call;
use crate::os::{self, outside};
use crate::p_min::{benign_panic, limits};
use crate::rng::Rng;
use ruler::enumo::{Ruleset, Scheduler, Workload};
use ruler::recipe_utils::run_workload;
use ruler::{SynthLanguage, ValidationResult};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::time::Duration;

pub mod bv4 {
    ruler::impl_bv!(4);
}
pub mod bv8 {
    ruler::impl_bv!(8);
}

// ---------------------------------------------------------------------------------------
// the solver seam: every check of every solver object, below the z3 crate

extern "C" {
    fn __real_Z3_solver_check(c: *mut c_void, s: *mut c_void) -> c_int;
    fn __real_Z3_solver_check_assumptions(c: *mut c_void, s: *mut c_void, n: u32, a: *const *mut c_void) -> c_int;
    fn __real_Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn __real_Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn __real_Z3_params_set_uint(c: *mut c_void, p: *mut c_void, k: *mut c_void, v: u32);
    fn Z3_solver_to_string(c: *mut c_void, s: *mut c_void) -> *const c_char;
    fn Z3_get_symbol_string(c: *mut c_void, s: *mut c_void) -> *const c_char;
    fn Z3_get_symbol_kind(c: *mut c_void, s: *mut c_void) -> c_int;
}

/// The queries and answers (-1 unsat, 0 gave up, 1 sat) in the order the solver saw them.
static mut LOG: Vec<(String, c_int)> = Vec::new();
static mut FAULTS: bool = true;
fn log() -> &'static mut Vec<(String, c_int)> {
    unsafe { &mut *std::ptr::addr_of_mut!(LOG) }
}

unsafe fn check(c: *mut c_void, s: *mut c_void, real: impl FnOnce() -> c_int) -> c_int {
    let fault = if FAULTS { os::solver_enter(2_000_000) } else { os::SolverFault::None };
    let ans = outside(|| {
        let text = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().to_string();
        let a = match fault {
            os::SolverFault::None => real(),
            _ => 0,
        };
        log().push((text, a));
        a
    });
    if FAULTS {
        os::note((101 + ans) as u64, 0);
        os::point();
    }
    ans
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_Z3_solver_check(c: *mut c_void, s: *mut c_void) -> c_int {
    check(c, s, || __real_Z3_solver_check(c, s))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_Z3_solver_check_assumptions(c: *mut c_void, s: *mut c_void, n: u32, a: *const *mut c_void) -> c_int {
    check(c, s, || __real_Z3_solver_check_assumptions(c, s, n, a))
}
/// Real time must not decide anything: the solver gives up when the simulator says so.
unsafe fn timed(k: *const c_char) -> bool {
    let k = CStr::from_ptr(k).to_string_lossy().to_lowercase();
    k.contains("timeout") || k == "rlimit"
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char) {
    if !timed(k) {
        __real_Z3_set_param_value(c, k, v)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_Z3_global_param_set(k: *const c_char, v: *const c_char) {
    if !timed(k) {
        __real_Z3_global_param_set(k, v)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_Z3_params_set_uint(c: *mut c_void, p: *mut c_void, k: *mut c_void, v: u32) {
    if Z3_get_symbol_kind(c, k) != 1 || !timed(Z3_get_symbol_string(c, k)) {
        __real_Z3_params_set_uint(c, p, k, v)
    }
}

/// Which checks validating this rule takes, and whether each may count as an affirmation.
fn queries<L: SynthLanguage>(name: &str) -> Vec<String> {
    let rs: Ruleset<L> = Ruleset::new([name]);
    let old = std::mem::take(log());
    unsafe { FAULTS = false };
    for r in rs.0.values() {
        let _ = L::validate(&r.lhs, &r.rhs);
    }
    unsafe { FAULTS = true };
    std::mem::replace(log(), old).into_iter().map(|e| e.0).collect()
}

// ---------------------------------------------------------------------------------------
// exact meaning of terms

#[derive(Clone, Debug, PartialEq)]
enum T {
    Var(String),
    Lit(u64),
    Op(String, Vec<T>),
}
fn parse(s: &str) -> T {
    fn go(t: &mut std::iter::Peekable<std::vec::IntoIter<String>>) -> T {
        let x = t.next().expect("term");
        if x == "(" {
            let op = t.next().expect("operator");
            let mut kids = vec![];
            while t.peek().map(|x| x != ")").unwrap_or(false) {
                kids.push(go(t));
            }
            t.next();
            T::Op(op, kids)
        } else if x.starts_with("#b") {
            T::Lit(u64::from_str_radix(&x[2..], 2).unwrap())
        } else if let Ok(n) = x.parse::<u64>() {
            T::Lit(n)
        } else {
            T::Var(x.trim_start_matches('?').to_string())
        }
    }
    let toks: Vec<String> = s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
    go(&mut toks.into_iter().peekable())
}
fn vars(t: &T, out: &mut BTreeSet<String>) {
    match t {
        T::Var(v) => {
            out.insert(v.clone());
        }
        T::Lit(_) => {}
        T::Op(_, k) => k.iter().for_each(|x| vars(x, out)),
    }
}
fn eval(t: &T, n: u64, env: &BTreeMap<String, u64>) -> u64 {
    let m = (1u64 << n) - 1;
    let v = match t {
        T::Var(v) => env[v],
        T::Lit(c) => *c,
        T::Op(o, k) => {
            let a = eval(&k[0], n, env);
            let b = k.get(1).map(|x| eval(x, n, env)).unwrap_or(0);
            match (&o[..], k.len()) {
                ("-", 1) => a.wrapping_neg(),
                ("~", 1) => !a,
                ("+", 2) => a.wrapping_add(b),
                ("--", 2) => a.wrapping_sub(b),
                ("*", 2) => a.wrapping_mul(b),
                ("<<", 2) => if b >= n { 0 } else { a << b },
                (">>", 2) => if b >= n { 0 } else { a >> b },
                ("&", 2) => a & b,
                ("|", 2) => a | b,
                ("^", 2) => a ^ b,
                o => panic!("operator {:?}", o),
            }
        }
    };
    v & m
}
/// A valuation on which the sides differ. Exhaustive up to 16 bits of input, else sampled.
fn counterexample(name: &str, n: u64) -> Option<BTreeMap<String, u64>> {
    let (l, r) = name.split_once("==>").unwrap();
    let (l, r) = (parse(l), parse(r));
    let mut vs = BTreeSet::new();
    vars(&l, &mut vs);
    vars(&r, &mut vs);
    let bits = n * vs.len() as u64;
    let total = if bits <= 16 { 1u64 << bits } else { 1 << 12 };
    for i in 0..total {
        let mut x = if bits <= 16 { i } else { crate::rng::mix(&[i, 77]) };
        let mut env = BTreeMap::new();
        for v in &vs {
            env.insert(v.clone(), x & ((1 << n) - 1));
            x >>= n;
        }
        if eval(&l, n, &env) != eval(&r, n, &env) {
            return Some(env);
        }
    }
    None
}

// ---------------------------------------------------------------------------------------
// plans

const BIN: [&str; 8] = ["+", "--", "*", "<<", ">>", "&", "|", "^"];
fn term(r: &mut Rng, d: usize, ops: &[&str], vs: &[&str]) -> String {
    if d == 0 || r.chance(1, 4) {
        if r.chance(1, 4) { r.below(3).to_string() } else { r.pick(vs).to_string() }
    } else if r.chance(1, 3) {
        format!("({} {})", r.pick(&["-", "~"]), term(r, d - 1, ops, vs))
    } else {
        format!("({} {} {})", r.pick(ops), term(r, d - 1, ops, vs), term(r, d - 1, ops, vs))
    }
}
/// Rules: true ones (found by evaluation), ones that hold on few values only, and random ones.
fn rules(r: &mut Rng, n: u64, width: u64, ops: &[&str], false_too: bool) -> Vec<String> {
    let vs = ["a", "b"];
    let mut by: BTreeMap<Vec<u64>, Vec<String>> = BTreeMap::new();
    let mut all = vec![];
    for _ in 0..60 {
        let t = term(r, 2, ops, &vs);
        let e = parse(&t);
        let key = (0..24u64).map(|i| {
            let x = if i < 16 { (i % 4) + ((i / 4) << 8) } else { crate::rng::mix(&[i, 3]) };
            let env = vs.iter().enumerate().map(|(k, v)| (v.to_string(), (x >> (8 * k)) & ((1 << width) - 1))).collect();
            eval(&e, width, &env)
        }).collect::<Vec<_>>();
        let l = by.entry(key).or_default();
        if !l.contains(&t) {
            l.push(t.clone());
        }
        all.push(t);
    }
    let groups: Vec<&Vec<String>> = by.values().filter(|g| g.len() > 1).collect();
    let pv = |t: &str| t.replace('a', "?a").replace('b', "?b");
    let bound = |l: &str, x: &str| vs.iter().all(|v| !x.contains(v) || l.contains(v));
    let mut out = vec![];
    for _ in 0..n {
        let (l, x) = if false_too && r.chance(1, 3) || groups.is_empty() {
            (r.pick(&all).clone(), r.pick(&all).clone())
        } else {
            let g = *r.pick(&groups);
            (r.pick(g).clone(), r.pick(g).clone())
        };
        if l == x || !bound(&l, &x) {
            continue;
        }
        let name = format!("{} ==> {}", pv(&l), pv(&x));
        if !false_too && counterexample(&name, width).is_some() {
            continue;
        }
        if !out.contains(&name) {
            out.push(name);
        }
        if r.chance(1, 2) && bound(&x, &l) {
            let rev = format!("{} ==> {}", pv(&x), pv(&l));
            if !out.contains(&rev) {
                out.push(rev);
            }
        }
    }
    out
}

pub fn gen(r: &mut Rng) -> Plan {
    let width = *r.pick(&[4u64, 4, 8]);
    let mut ops: Vec<&str> = BIN.to_vec();
    r.shuffle(&mut ops);
    ops.truncate(r.range(1, 3) as usize);
    let kind = *r.pick(&["bv-min", "bv-min", "bv-row", "bv-wkl"]);
    let mut faults = vec![];
    let work = match kind {
        "bv-min" => {
            let n = r.range(1, 8);
            let cands = rules(r, n, width, &ops, true);
            let np = r.below(3);
            let prior = rules(r, np, width, &ops, false);
            json!({"width": width, "cands": cands, "prior": prior})
        }
        "bv-row" => {
            let n = r.range(1, 8);
            let ported = rules(r, n, width, &ops, true);
            json!({"width": width, "cands": ported, "prior": []})
        }
        _ => {
            let n = r.range(3, 9);
            // (the bit-vector domains need a variable to sample)
            let mut terms: Vec<String> = (0..n).map(|_| term(r, 2, &ops, &["a", "b"])).collect();
            terms.push("a".into());
            let np = r.below(2);
            let prior = rules(r, np, width, &ops, false);
            json!({"width": width, "terms": terms, "prior": prior, "fast": r.below(2)})
        }
    };
    gen_solver_faults(r, 10, &mut faults, false);
    gen_thread_faults(r, &mut faults);
    Plan::new(kind, work, faults, gen_sched(r))
}

pub fn drive(d: &mut Drive, p: &Plan) -> Verdict {
    if p.u("width") == 4 {
        go::<bv4::Bv>(d, p, 4)
    } else {
        go::<bv8::Bv>(d, p, 8)
    }
}

fn go<L: SynthLanguage>(d: &mut Drive, p: &Plan, width: u64) -> Verdict {
    d.judge(&p.proc(), || {
        let lim = limits(&json!({"iter": 2, "node": 2000, "match": 2000}));
        let (cands, prior, terms) = outside(|| (Ruleset::<L>::new(p.strs("cands")), Ruleset::<L>::new(p.strs("prior")), p.strs("terms")));
        let pnames: Vec<String> = outside(|| prior.to_str_vec());
        let cnames: Vec<String> = outside(|| cands.to_str_vec());
        let listed = match &p.kind[..] {
            "bv-min" => call(move || {
                let mut c = cands;
                c.minimize(prior, Scheduler::Compress(lim)).0
            }).map(|r| outside(|| r.to_str_vec())),
            "bv-wkl" => {
                let fast = p.u("fast") == 1;
                call(move || run_workload::<L>(Workload::new(&terms), prior, lim, lim, fast)).map(|r| outside(|| r.to_str_vec()))
            }
            _ => call(|| ruler::logger::write_bv_derivability("BV", Ruleset::<L>::default(), Duration::from_secs(3), cands)).map(|_| outside(|| {
                let text = os::state().vfs.file("nightly/data/output.json").unwrap_or_default();
                let v: Value = serde_json::from_slice(&text).unwrap_or(Value::Null);
                strs(&v[0]["from_bv4"]["rules"])
            })),
        };
        outside(|| {
            let listed = match listed {
                Ok(l) => l,
                Err(m) if benign_panic(&m) => return skip("nothing learned"),
                Err(m) => return bad("panic", m),
            };
            if os::fired("unknown") > 0 { os::probe("z3-gave-up") }
            let seen = log().clone();
            if seen.iter().any(|e| e.1 == 1) { os::probe("z3-refuted") }
            for n in &listed {
                if pnames.contains(n) && !cnames.contains(n) {
                    continue;
                }
                os::probe("z3-affirmed");
                if let Some(e) = counterexample(n, width) {
                    return bad("unsound-rule", format!("learned {} which does not hold for {:?} at {} bits", n, e, width));
                }
                let qs = queries::<L>(n);
                for q in &qs {
                    let answers: Vec<c_int> = seen.iter().filter(|e| &e.0 == q).map(|e| e.1).collect();
                    if !answers.contains(&-1) && qs.len() == 1 || qs.iter().all(|q| seen.iter().all(|e| &e.0 != q || e.1 != -1)) {
                        return bad("unaffirmed-rule", format!("learned {} but the solver's answers for it were {:?} (-1 proved, 0 gave up, 1 refuted)", n, answers));
                    }
                }
            }
            Ok(())
        })
    })
}

#[allow(dead_code)]
fn unused(_: ValidationResult) {}
