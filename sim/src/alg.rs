//! The simulated domain: a configurable finite (possibly partial) algebra behind ruler's
//! own `SynthLanguage` seam. Its interpreter, interval analysis and validator are exact and
//! tiny, so every verdict of ruler can be compared with the truth. The validator stands in
//! for the SMT solver: it goes through the simulator (latency, time-outs, failures).
use crate::os;
use crate::rng::{hash_bytes, mix, Rng};
use egg::{define_language, ENodeOrVar, Id, RecExpr, Symbol};
use ruler::enumo::Ruleset;
use ruler::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt;
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Val(pub u8);
impl fmt::Display for Val {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl FromStr for Val {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        s.parse::<u8>().map(Val)
    }
}

define_language! {
    pub enum Alg {
        "+" = Add([Id; 2]),
        "*" = Mul([Id; 2]),
        "-" = Sub([Id; 2]),
        "/" = Div([Id; 2]),
        "~" = Neg(Id),
        "f" = F(Id),
        "g" = G(Id),
        "h" = H([Id; 3]),
        Lit(Val),
        Var(Symbol),
    }
}

pub const OPS: [(&str, usize); 8] = [("+", 2), ("*", 2), ("-", 2), ("/", 2), ("~", 1), ("f", 1), ("g", 1), ("h", 3)];
pub const VARS: [&str; 5] = ["a", "b", "c", "d", "e"];

/// One operator of the algebra: a table over m^arity arguments, 255 = undefined.
#[derive(Clone, Debug)]
pub struct Table {
    pub arity: usize,
    pub t: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Ctx {
    pub m: usize,
    pub tabs: Vec<Table>,
    pub total: bool,
    pub nsamples: usize,
    pub full: bool,
    pub fold: bool,
    pub seed: u64,
    pub allowed: u64,
    pub ff_rules: Vec<String>,
    pub latency: u64,
    /// Set in a weak world: the total algebra of which this one is a restriction. Rules hold in
    /// that one, so that their sides agree wherever both are defined here.
    pub whole: Option<Box<Ctx>>,
    /// the solver gives up on rules whose name's hash is divisible by this (0: on none)
    pub unk: u64,
}

static mut CTX: Option<Ctx> = None;
static mut LOG: Vec<(String, u8)> = Vec::new();

pub fn ctx() -> &'static Ctx {
    unsafe { (*std::ptr::addr_of!(CTX)).as_ref().expect("no algebra") }
}
pub fn set_ctx(c: Ctx) {
    unsafe { *std::ptr::addr_of_mut!(CTX) = Some(c) }
}
/// Validator answers so far: (rule, 0 valid / 1 invalid / 2 unknown / 3 panic).
pub fn log() -> &'static mut Vec<(String, u8)> {
    unsafe { &mut *std::ptr::addr_of_mut!(LOG) }
}
pub fn take_log() -> Vec<(String, u8)> {
    std::mem::take(log())
}

/// Interpreter calls so far in this simulated process.
fn evals() -> u64 {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}

impl Ctx {
    /// The algebra described by a world parameter object.
    pub fn from_json(w: &Value) -> Ctx {
        let u = |k: &str| w[k].as_u64().unwrap_or(0);
        let m = (u("m").clamp(2, 5)) as usize;
        let kind = u("kind");
        let seed = u("seed");
        let partial = u("partial") == 1;
        let mut rng = Rng::new(mix(&[seed, 77]));
        let m = if kind == 2 { 4 } else { m };
        let mm = m as i64;
        let md = |x: i64| -> u8 { (((x % mm) + mm) % mm) as u8 };
        let mut tabs = vec![];
        for (oi, (_, ar)) in OPS.iter().enumerate() {
            let n = m.pow(*ar as u32);
            let rnd: Vec<u8> = (0..n).map(|_| rng.below(m as u64) as u8).collect();
            let k1 = rng.below(m as u64) as i64;
            let k2 = rng.below(m as u64) as i64;
            let t = (0..n)
                .map(|i| {
                    let a = (i % m) as i64;
                    let b = (i / m % m) as i64;
                    let c = (i / m / m) as i64;
                    match (kind, oi) {
                        // modular ring
                        (0, 0) => md(a + b),
                        (0, 1) => md(a * b),
                        (0, 2) => md(a - b),
                        (0, 3) => (0..mm).find(|q| md(q * b) == md(a) && gcd(b, mm) == 1).map_or(255, |q| q as u8),
                        (0, 4) => md(-a),
                        (0, 5) => md(a * k1 + k2),
                        (0, 6) => md(a * a),
                        (0, 7) => if a != 0 { b as u8 } else { c as u8 },
                        // lattice
                        (1, 0) => a.max(b) as u8,
                        (1, 1) => a.min(b) as u8,
                        (1, 2) => (a - b).max(0) as u8,
                        (1, 3) => if b == 0 { 255 } else { (a / b) as u8 },
                        (1, 4) => (mm - 1 - a) as u8,
                        (1, 5) => (a + 1).min(mm - 1) as u8,
                        (1, 6) => (a - 1).max(0) as u8,
                        (1, 7) => { let mut v = [a, b, c]; v.sort(); v[1] as u8 }
                        // two-bit vectors
                        (2, 0) => (a ^ b) as u8,
                        (2, 1) => (a & b) as u8,
                        (2, 2) => (a | b) as u8,
                        (2, 3) => if b >= 2 { 255 } else { ((a << b) & 3) as u8 },
                        (2, 4) => (3 ^ a) as u8,
                        (2, 5) => ((a << 1) & 3) as u8,
                        (2, 6) => (a >> 1) as u8,
                        (2, 7) => ((a & b) | (!a & 3 & c)) as u8,
                        // random magma: commutative +, idempotent *, projection -, partial /
                        (_, 0) => rnd[(a.min(b) + mm * a.max(b)) as usize],
                        (_, 1) => if a == b { a as u8 } else { rnd[i] },
                        (_, 2) => if k1 % 2 == 0 { a as u8 } else { rnd[i] },
                        (_, 3) => if b == k1 { 255 } else { rnd[i] },
                        (_, 4) => md(mm - 1 - a),
                        (_, 5) => rnd[i],
                        (_, 6) => if k2 % 2 == 0 { k1 as u8 } else { rnd[i] },
                        _ => rnd[i],
                    }
                })
                .map(|v| if v == 255 && !partial { 0 } else { v })
                .collect();
            tabs.push(Table { arity: *ar, t });
        }
        let mut whole = None;
        if u("weak") == 1 {
            let mut w2 = w.clone();
            w2["weak"] = json!(0);
            w2["partial"] = json!(0);
            let full = Ctx::from_json(&w2);
            tabs = full.tabs.clone();
            let mut holes = Rng::new(mix(&[seed, 78]));
            for t in tabs.iter_mut() {
                let every = holes.range(1, 6);
                if holes.chance(1, 2) {
                    for v in t.t.iter_mut() {
                        if holes.chance(1, 1 + every) {
                            *v = 255;
                        }
                    }
                }
            }
            whole = Some(Box::new(full));
        }
        let total = tabs.iter().all(|t| t.t.iter().all(|v| *v != 255));
        Ctx {
            whole,
            m,
            tabs,
            total,
            nsamples: u("nsamples").max(1) as usize,
            full: u("full") == 1,
            fold: u("fold") == 1,
            seed,
            allowed: w["allowed"].as_u64().unwrap_or(!0),
            ff_rules: w["ff_rules"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
            latency: u("latency"),
            unk: u("unk"),
        }
    }
    /// The algebra in which sound rules hold.
    pub fn truth(&self) -> &Ctx {
        self.whole.as_deref().unwrap_or(self)
    }
    pub fn op(&self, oi: usize, args: &[Option<u8>]) -> Option<u8> {
        let mut i = 0;
        for (k, a) in args.iter().enumerate() {
            let v = (*a)? as usize % self.m;
            i += v * self.m.pow(k as u32);
        }
        let r = self.tabs[oi].t[i];
        if r == 255 {
            None
        } else {
            Some(r)
        }
    }
    pub fn eval_expr(&self, e: &[Alg], env: &BTreeMap<String, u8>) -> Option<u8> {
        let mut buf: Vec<Option<u8>> = Vec::with_capacity(e.len());
        for n in e {
            let v = match n {
                Alg::Lit(c) => Some(c.0 % self.m as u8),
                Alg::Var(s) => env.get(s.as_str()).copied().or(Some(0)).filter(|v| *v != 255),
                n => {
                    let args: Vec<Option<u8>> = egg::Language::children(n).iter().map(|c| buf[usize::from(*c)]).collect();
                    self.op(op_index(n).unwrap(), &args)
                }
            };
            buf.push(v);
        }
        *buf.last().unwrap()
    }
    /// All assignments to the variables. In a partial algebra a variable may also stand for an
    /// undefined term (255), so that valid rules are valid wherever they match.
    pub fn assignments(&self, vars: &[String]) -> Vec<BTreeMap<String, u8>> {
        let mut vals: Vec<u8> = (0..self.m as u8).collect();
        if !self.total {
            vals.push(255);
        }
        Self::product(vars, &vals)
    }
    fn product(vars: &[String], vals: &[u8]) -> Vec<BTreeMap<String, u8>> {
        let mut out = vec![BTreeMap::new()];
        for v in vars {
            let mut next = vec![];
            for e in &out {
                for x in vals {
                    let mut e2 = e.clone();
                    e2.insert(v.clone(), *x);
                    next.push(e2);
                }
            }
            out = next;
        }
        out
    }
    /// Value vector of a term over all assignments to `vars`.
    pub fn vector(&self, e: &[Alg], vars: &[String]) -> Vec<Option<u8>> {
        self.assignments(vars).iter().map(|a| self.eval_expr(e, a)).collect()
    }
    pub fn valid(&self, l: &[Alg], r: &[Alg]) -> bool {
        let mut vars: Vec<String> = vec![];
        for n in l.iter().chain(r) {
            if let Alg::Var(s) = n {
                if !vars.contains(&s.to_string()) {
                    vars.push(s.to_string());
                }
            }
        }
        self.assignments(&vars).iter().all(|a| self.eval_expr(l, a) == self.eval_expr(r, a))
    }
    /// Variable assignments used for characteristic vectors.
    pub fn samples(&self, vars: &[String]) -> Vec<BTreeMap<String, u8>> {
        let all = self.m.pow(vars.len() as u32);
        if self.full && all <= 150 {
            return Self::product(vars, &(0..self.m as u8).collect::<Vec<u8>>());
        }
        let mut rng = Rng::new(mix(&[self.seed, 5]));
        (0..self.nsamples)
            .map(|_| vars.iter().map(|v| (v.clone(), rng.below(self.m as u64) as u8)).collect())
            .collect()
    }
}

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

pub fn op_index(n: &Alg) -> Option<usize> {
    Some(match n {
        Alg::Add(_) => 0,
        Alg::Mul(_) => 1,
        Alg::Sub(_) => 2,
        Alg::Div(_) => 3,
        Alg::Neg(_) => 4,
        Alg::F(_) => 5,
        Alg::G(_) => 6,
        Alg::H(_) => 7,
        _ => return None,
    })
}

pub fn expr(s: &str) -> RecExpr<Alg> {
    s.parse().unwrap_or_else(|e| panic!("bad term {}: {:?}", s, e))
}
pub fn inst(p: &Pattern<Alg>) -> RecExpr<Alg> {
    // independent of ruler's instantiate
    let nodes: Vec<Alg> = p
        .ast
        .as_ref()
        .iter()
        .map(|n| match n {
            ENodeOrVar::ENode(n) => n.clone(),
            ENodeOrVar::Var(v) => Alg::Var(v.to_string()[1..].into()),
        })
        .collect();
    RecExpr::from(nodes)
}
pub fn vars_of(e: &[Alg], out: &mut Vec<String>) {
    for n in e {
        if let Alg::Var(s) = n {
            if !out.contains(&s.to_string()) {
                out.push(s.to_string());
            }
        }
    }
}

impl SynthLanguage for Alg {
    type Constant = Val;

    fn eval<'a, F>(&'a self, cvec_len: usize, mut get: F) -> CVec<Self>
    where
        F: FnMut(&'a Id) -> &'a CVec<Self>,
    {
        match self {
            Alg::Lit(c) => vec![Some(*c); cvec_len],
            Alg::Var(_) => vec![],
            n => {
                let kids: Vec<&CVec<Self>> = egg::Language::children(n).iter().map(|c| get(c)).collect();
                let len = kids.iter().map(|k| k.len()).min().unwrap_or(0);
                let oi = op_index(n).unwrap();
                if os::active() {
                    let k = evals();
                    if os::strike("epanic", k) {
                        panic!("injected interpreter failure");
                    }
                }
                (0..len)
                    .map(|i| {
                        let args: Vec<Option<u8>> = kids.iter().map(|k| k[i].as_ref().map(|v| v.0)).collect();
                        ctx().op(oi, &args).map(Val)
                    })
                    .collect()
            }
        }
    }

    fn mk_interval<'a, F>(&'a self, mut get: F) -> Interval<Val>
    where
        F: FnMut(&'a Id) -> &'a Interval<Val>,
    {
        let c = ctx();
        if !c.fold {
            return Interval::default();
        }
        match self {
            Alg::Lit(v) => Interval::new(Some(*v), Some(*v)),
            Alg::Var(_) => Interval::default(),
            n => {
                let kids: Vec<(Option<u8>, Option<u8>)> = egg::Language::children(n)
                    .iter()
                    .map(|k| {
                        let i = get(k);
                        (i.low.map(|v| v.0), i.high.map(|v| v.0))
                    })
                    .collect();
                interval_of(c.truth(), op_index(n).unwrap(), &kids)
            }
        }
    }

    fn initialize_vars(egraph: &mut EGraph<Self, SynthAnalysis>, vars: &[String]) {
        let samples = ctx().samples(vars);
        egraph.analysis.cvec_len = samples.len();
        for v in vars {
            let id = egraph.add(Alg::Var(Symbol::from(v.clone())));
            egraph[id].data.cvec = samples.iter().map(|s| Some(Val(s[v]))).collect();
        }
    }

    fn to_var(&self) -> Option<Symbol> {
        match self {
            Alg::Var(s) => Some(*s),
            _ => None,
        }
    }
    fn mk_var(sym: Symbol) -> Self {
        Alg::Var(sym)
    }
    fn is_constant(&self) -> bool {
        matches!(self, Alg::Lit(_))
    }
    fn mk_constant(c: Val, _: &mut EGraph<Self, SynthAnalysis>) -> Self {
        Alg::Lit(c)
    }
    fn is_fast_forwarding() -> bool {
        true
    }
    fn get_exploratory_rules() -> Ruleset<Self> {
        Ruleset::new(&ctx().ff_rules)
    }
    fn is_allowed_op(&self) -> bool {
        match op_index(self) {
            Some(i) => ctx().allowed >> i & 1 == 1,
            None => true,
        }
    }

    fn validate(lhs: &Pattern<Self>, rhs: &Pattern<Self>) -> ValidationResult {
        let name = os::outside(|| format!("{} ==> {}", lhs, rhs));
        let h = hash_bytes(0, name.as_bytes());
        let f = os::solver_enter(ctx().latency * (1 + h % 7));
        os::note(h & 0xffff_ffff, 0);
        let ans = os::outside(|| {
            let a = match f {
                os::SolverFault::Panic => 3,
                os::SolverFault::Unknown => 2,
                os::SolverFault::None => {
                    if ctx().unk > 0 && h % ctx().unk == 0 {
                        2
                    } else if ctx().truth().valid(inst(lhs).as_ref(), inst(rhs).as_ref()) {
                        0
                    } else {
                        1
                    }
                }
            };
            log().push((name.clone(), a));
            a
        });
        os::point();
        os::outside(move || drop(name));
        match ans {
            0 => ValidationResult::Valid,
            1 => ValidationResult::Invalid,
            2 => ValidationResult::Unknown,
            _ => panic!("injected solver failure"),
        }
    }
}

/// Sound interval analysis: exact hull over the box of arguments in total algebras,
/// constant folding only in partial ones.
pub fn interval_of(c: &Ctx, oi: usize, kids: &[(Option<u8>, Option<u8>)]) -> Interval<Val> {
    let singles = kids.iter().all(|k| k.0.is_some() && k.0 == k.1);
    if singles {
        let args: Vec<Option<u8>> = kids.iter().map(|k| k.0).collect();
        return match c.op(oi, &args) {
            Some(v) => Interval::new(Some(Val(v)), Some(Val(v))),
            None => Interval::default(),
        };
    }
    if !c.total {
        return Interval::default();
    }
    let (mut lo, mut hi) = (255u8, 0u8);
    let n = c.tabs[oi].t.len();
    for i in 0..n {
        let mut x = i;
        let mut inside = true;
        for k in kids {
            let v = (x % c.m) as u8;
            x /= c.m;
            if k.0.map_or(false, |l| v < l % c.m as u8) || k.1.map_or(false, |h| v > h % c.m as u8) {
                inside = false;
            }
        }
        if inside {
            lo = lo.min(c.tabs[oi].t[i]);
            hi = hi.max(c.tabs[oi].t[i]);
        }
    }
    if lo > hi {
        return Interval::default();
    }
    let low = if lo == 0 { None } else { Some(Val(lo)) };
    let high = if hi as usize == c.m - 1 { None } else { Some(Val(hi)) };
    Interval::new(low, high)
}

// ---------------------------------------------------------------------------------------
// generation

#[derive(Clone, Debug)]
pub struct Gen {
    pub ops: Vec<usize>,
    pub vars: Vec<&'static str>,
    pub lits: Vec<u8>,
}

impl Gen {
    pub fn from_json(w: &Value) -> Gen {
        let mask = w["ops"].as_u64().unwrap_or(0xff);
        let nv = w["nvars"].as_u64().unwrap_or(2).clamp(1, 4) as usize;
        let nl = w["nlits"].as_u64().unwrap_or(1) as u8;
        let m = w["m"].as_u64().unwrap_or(2) as u8;
        let ops: Vec<usize> = (0..8).filter(|i| mask >> i & 1 == 1).collect();
        Gen { ops: if ops.is_empty() { vec![0] } else { ops }, vars: VARS[..nv].to_vec(), lits: (0..nl.min(m)).collect() }
    }
    pub fn leaf(&self, r: &mut Rng) -> String {
        if !self.lits.is_empty() && r.chance(1, 4) {
            r.pick(&self.lits).to_string()
        } else {
            r.pick(&self.vars).to_string()
        }
    }
    pub fn term(&self, r: &mut Rng, depth: usize) -> String {
        if depth == 0 || r.chance(1, 5) {
            return self.leaf(r);
        }
        let oi = *r.pick(&self.ops);
        let (name, ar) = OPS[oi];
        let kids: Vec<String> = (0..ar).map(|_| self.term(r, depth - 1)).collect();
        format!("({} {})", name, kids.join(" "))
    }
    /// Pools of distinct terms and of sound term pairs (rules hold for all assignments).
    pub fn pairs(&self, c: &Ctx, r: &mut Rng, n: usize, depth: usize) -> (Vec<String>, Vec<(String, String)>) {
        let vars: Vec<String> = self.vars.iter().map(|s| s.to_string()).collect();
        let mut terms: Vec<String> = vec![];
        let mut by: BTreeMap<Vec<Option<u8>>, Vec<String>> = BTreeMap::new();
        for v in self.vars.iter().map(|s| s.to_string()).chain(self.lits.iter().map(|l| l.to_string())) {
            terms.push(v);
        }
        for _ in 0..n {
            let d = 1 + r.idx(depth);
            let t = self.term(r, d);
            if !terms.contains(&t) {
                terms.push(t);
            }
        }
        for t in &terms {
            by.entry(c.vector(expr(t).as_ref(), &vars)).or_default().push(t.clone());
        }
        let mut pairs = vec![];
        for ts in by.values() {
            for i in 0..ts.len() {
                for j in 0..ts.len() {
                    if i != j && bound(&ts[i], &ts[j]) {
                        pairs.push((ts[i].clone(), ts[j].clone()));
                    }
                }
            }
        }
        r.shuffle(&mut pairs);
        (terms, pairs)
    }
}

/// Whether every variable of `r` occurs in `l` (so that l => r is a rewrite).
pub fn bound(l: &str, r: &str) -> bool {
    let (mut a, mut b) = (vec![], vec![]);
    vars_of(expr(l).as_ref(), &mut a);
    vars_of(expr(r).as_ref(), &mut b);
    b.iter().all(|v| a.contains(v))
}

/// Turns a ground term into a pattern: variables get a '?'.
pub fn pat(t: &str) -> String {
    let mut out = String::new();
    for tok in t.split_inclusive(|c: char| c == ' ' || c == '(' || c == ')') {
        let body = tok.trim_end_matches(|c: char| c == ' ' || c == '(' || c == ')');
        let tail = &tok[body.len()..];
        // operators are always preceded by '('
        let is_op = out.ends_with('(');
        if !body.is_empty() && !is_op && VARS.contains(&body) {
            out.push('?');
        }
        out.push_str(body);
        out.push_str(tail);
    }
    out
}
pub fn rule_str(l: &str, r: &str) -> String {
    format!("{} ==> {}", pat(l), pat(r))
}

/// A seeded world: algebra, operators, variables. All fields are small integers.
pub fn gen_world(r: &mut Rng) -> Value {
    let kind = r.below(4);
    let nops = r.range(2, 4);
    let mut mask = 0u64;
    while (mask.count_ones() as u64) < nops {
        mask |= 1 << r.below(8);
    }
    json!({"kind": kind, "m": r.range(2, 4), "seed": r.below(1 << 30), "partial": r.below(2), "nsamples": r.range(1, 9),
        "full": r.below(2), "fold": 0, "ops": mask, "nvars": r.range(1, 3), "nlits": r.range(0, 2), "latency": r.logu(1_000, 50_000_000)})
}
