//! A small, slow, independent reference for equality saturation: congruence closure by
//! fixpoint, e-matching by plain backtracking, the documented strategies on top.
use crate::alg::*;
use egg::{ENodeOrVar, Language};
use ruler::{EGraph, Pattern, SynthAnalysis};
use std::collections::{BTreeMap, BTreeSet};

pub type Node = (String, Vec<usize>);

#[derive(Clone, Debug, Default)]
pub struct RefEg {
    uf: Vec<usize>,
    pub memo: BTreeMap<Node, usize>,
    unions: usize,
    pub ever: usize,
    /// classes whose characteristic vector is entirely undefined (rules do not touch them)
    pub undefined: BTreeSet<usize>,
    pub samples: Vec<BTreeMap<String, u8>>,
    vals: Vec<Vec<Option<u8>>>,
    used: std::cell::Cell<u64>,
}
/// matching steps after which the reference gives up
const FUEL: u64 = 400_000;

#[derive(Clone, Debug)]
pub struct RRule {
    pub name: String,
    pub l: PTerm,
    pub r: PTerm,
}

#[derive(Clone, Debug, PartialEq)]
pub enum PTerm {
    Var(String),
    App(String, Vec<PTerm>),
}

pub fn pterm(p: &Pattern<Alg>) -> PTerm {
    fn go(ns: &[ENodeOrVar<Alg>], i: usize) -> PTerm {
        match &ns[i] {
            ENodeOrVar::Var(v) => PTerm::Var(v.to_string()),
            ENodeOrVar::ENode(n) => PTerm::App(n.to_string(), n.children().iter().map(|c| go(ns, usize::from(*c))).collect()),
        }
    }
    let ns = p.ast.as_ref();
    go(ns, ns.len() - 1)
}
/// Reads "(op kid ...)"; names starting with '?' are pattern variables.
pub fn parse(s: &str) -> PTerm {
    fn go(t: &[&str], i: &mut usize) -> PTerm {
        if t[*i] == "(" {
            *i += 1;
            let op = t[*i].to_string();
            *i += 1;
            let mut k = vec![];
            while t[*i] != ")" {
                k.push(go(t, i));
            }
            *i += 1;
            PTerm::App(op, k)
        } else {
            let x = t[*i];
            *i += 1;
            if x.starts_with('?') { PTerm::Var(x.to_string()) } else { PTerm::App(x.to_string(), vec![]) }
        }
    }
    let sp = s.replace('(', " ( ").replace(')', " ) ");
    let toks: Vec<&str> = sp.split_whitespace().collect();
    go(&toks, &mut 0)
}
pub fn rrule(name: &str) -> RRule {
    let (l, r) = name.split_once("==>").expect("rule name");
    RRule { name: name.to_string(), l: parse(l), r: parse(r) }
}
/// Pattern variables become ground names, as ruler instantiates them.
pub fn ground(p: &PTerm) -> PTerm {
    match p {
        PTerm::Var(v) => PTerm::App(v[1..].to_string(), vec![]),
        PTerm::App(o, k) => PTerm::App(o.clone(), k.iter().map(ground).collect()),
    }
}

/// The reference gave up (too big): nothing can be concluded.
pub struct TooBig;

impl RefEg {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn find(&self, mut a: usize) -> usize {
        while self.uf[a] != a {
            a = self.uf[a];
        }
        a
    }
    pub fn classes(&self) -> usize {
        (0..self.uf.len()).filter(|&i| self.uf[i] == i).count()
    }
    pub fn nodes(&self) -> usize {
        self.memo.len()
    }
    fn canon(&self, n: &Node) -> Node {
        (n.0.clone(), n.1.iter().map(|c| self.find(*c)).collect())
    }
    fn value(&self, n: &Node) -> Vec<Option<u8>> {
        let c = ctx();
        (0..self.samples.len())
            .map(|i| {
                if let Some(oi) = OPS.iter().position(|o| o.0 == n.0 && o.1 == n.1.len()) {
                    let args: Vec<Option<u8>> = n.1.iter().map(|k| self.vals[*k][i]).collect();
                    c.op(oi, &args)
                } else if let Ok(v) = n.0.parse::<u8>() {
                    Some(v % c.m as u8)
                } else {
                    self.samples[i].get(&n.0).copied()
                }
            })
            .collect()
    }
    pub fn add(&mut self, n: Node) -> usize {
        let n = self.canon(&n);
        if let Some(i) = self.memo.get(&n) {
            return self.find(*i);
        }
        let id = self.uf.len();
        self.uf.push(id);
        let v = self.value(&n);
        if !self.samples.is_empty() && v.iter().all(|x| x.is_none()) {
            self.undefined.insert(id);
        }
        self.vals.push(v);
        self.memo.insert(n, id);
        self.ever += 1;
        id
    }
    fn defined(&self, id: usize) -> bool {
        self.samples.is_empty() || !self.undefined.contains(&self.find(id))
    }
    pub fn add_term(&mut self, t: &PTerm) -> usize {
        match t {
            PTerm::Var(v) => panic!("ground term expected, got {}", v),
            PTerm::App(o, k) => {
                let kids = k.iter().map(|x| self.add_term(x)).collect();
                self.add((o.clone(), kids))
            }
        }
    }
    pub fn lookup(&self, t: &PTerm) -> Option<usize> {
        match t {
            PTerm::Var(_) => None,
            PTerm::App(o, k) => {
                let mut kids = vec![];
                for x in k {
                    kids.push(self.lookup(x)?);
                }
                self.lookup_node(&(o.clone(), kids))
            }
        }
    }
    pub fn lookup_node(&self, n: &Node) -> Option<usize> {
        self.memo.get(&self.canon(n)).map(|i| self.find(*i))
    }
    pub fn union(&mut self, a: usize, b: usize) -> bool {
        let (a, b) = (self.find(a), self.find(b));
        if a == b {
            return false;
        }
        let (lo, hi) = (a.min(b), a.max(b));
        self.uf[hi] = lo;
        self.unions += 1;
        if self.undefined.contains(&hi) != self.undefined.contains(&lo) {
            self.undefined.remove(&lo);
        }
        true
    }
    pub fn rebuild(&mut self) {
        loop {
            let mut changed = false;
            let mut memo: BTreeMap<Node, usize> = BTreeMap::new();
            let old: Vec<(Node, usize)> = self.memo.iter().map(|(n, i)| (n.clone(), *i)).collect();
            for (n, i) in old {
                let n = self.canon(&n);
                let i = self.find(i);
                match memo.get(&n).copied() {
                    Some(j) => {
                        if self.union(i, j) {
                            changed = true;
                        }
                    }
                    None => {
                        memo.insert(n, i);
                    }
                }
            }
            for v in memo.values_mut() {
                *v = {
                    let mut a = *v;
                    while self.uf[a] != a {
                        a = self.uf[a];
                    }
                    a
                };
            }
            self.memo = memo;
            if !changed {
                return;
            }
        }
    }
    fn by_class(&self) -> BTreeMap<usize, Vec<Node>> {
        let mut m: BTreeMap<usize, Vec<Node>> = BTreeMap::new();
        for (n, i) in &self.memo {
            m.entry(self.find(*i)).or_default().push(n.clone());
        }
        m
    }
    fn ematch(&self, by: &BTreeMap<usize, Vec<Node>>, p: &PTerm, class: usize, env: &BTreeMap<String, usize>, out: &mut Vec<BTreeMap<String, usize>>) {
        self.used.set(self.used.get() + 1);
        if self.used.get() > FUEL {
            return;
        }
        match p {
            PTerm::Var(v) => match env.get(v) {
                Some(c) if *c != class => {}
                _ => {
                    let mut e = env.clone();
                    e.insert(v.clone(), class);
                    out.push(e);
                }
            },
            PTerm::App(o, k) => {
                for n in by.get(&class).map(|v| &v[..]).unwrap_or(&[]) {
                    if &n.0 != o || n.1.len() != k.len() {
                        continue;
                    }
                    let mut envs = vec![env.clone()];
                    for (kp, kc) in k.iter().zip(&n.1) {
                        let mut next = vec![];
                        for e in &envs {
                            self.ematch(by, kp, self.find(*kc), e, &mut next);
                        }
                        envs = next;
                    }
                    out.extend(envs);
                }
            }
        }
    }
    fn subst(&mut self, p: &PTerm, env: &BTreeMap<String, usize>) -> usize {
        match p {
            PTerm::Var(v) => self.find(env[v]),
            PTerm::App(o, k) => {
                let kids = k.iter().map(|x| self.subst(x, env)).collect();
                self.add((o.clone(), kids))
            }
        }
    }
    /// One round: match all rules on the current graph, then apply all matches.
    /// Returns (changed, largest number of matches of one rule).
    pub fn round(&mut self, rules: &[RRule], cap: usize) -> Result<(bool, usize), TooBig> {
        let by = self.by_class();
        let mut todo: Vec<(usize, usize, BTreeMap<String, usize>)> = vec![];
        let mut most = 0;
        for (ri, r) in rules.iter().enumerate() {
            let mut n = 0;
            for &c in by.keys() {
                let mut out = vec![];
                self.ematch(&by, &r.l, c, &BTreeMap::new(), &mut out);
                out.sort();
                out.dedup();
                n += out.len();
                for e in out {
                    todo.push((ri, c, e));
                }
            }
            most = most.max(n);
            if todo.len() > 30 * cap || self.used.get() > FUEL {
                return Err(TooBig);
            }
        }
        let before = (self.unions, self.ever);
        for (ri, c, e) in todo {
            if !self.defined(c) {
                continue;
            }
            let id = self.subst(&rules[ri].r, &e);
            if !self.defined(id) {
                continue;
            }
            self.union(id, c);
            if self.ever > cap {
                return Err(TooBig);
            }
        }
        self.rebuild();
        Ok((before != (self.unions, self.ever), most))
    }
    /// One round that merges what the rules equate among the terms there are, and adds none.
    pub fn merge_round(&mut self, rules: &[RRule]) -> Result<bool, TooBig> {
        let by = self.by_class();
        let mut todo = vec![];
        for r in rules {
            for &c in by.keys() {
                let mut out = vec![];
                self.ematch(&by, &r.l, c, &BTreeMap::new(), &mut out);
                for e in out {
                    if let Some(d) = self.find_inst(&r.r, &e) {
                        todo.push((c, d));
                    }
                }
            }
            if self.used.get() > FUEL {
                return Err(TooBig);
            }
        }
        let before = self.unions;
        for (a, b) in todo {
            self.union(a, b);
        }
        self.rebuild();
        Ok(before != self.unions)
    }
    fn find_inst(&self, p: &PTerm, env: &BTreeMap<String, usize>) -> Option<usize> {
        match p {
            PTerm::Var(v) => env.get(v).map(|c| self.find(*c)),
            PTerm::App(o, k) => {
                let mut kids = vec![];
                for x in k {
                    kids.push(self.find_inst(x, env)?);
                }
                self.lookup_node(&(o.clone(), kids))
            }
        }
    }
    /// Per class, the variables in every of its terms and those in any of them.
    pub fn var_sets(&self, is_var: impl Fn(&str) -> bool) -> BTreeMap<usize, (BTreeSet<String>, BTreeSet<String>)> {
        let by = self.by_class();
        let all: BTreeSet<String> = self.memo.keys().filter(|n| n.1.is_empty() && is_var(&n.0)).map(|n| n.0.clone()).collect();
        let mut m: BTreeMap<usize, (BTreeSet<String>, BTreeSet<String>)> = by.keys().map(|c| (*c, (all.clone(), BTreeSet::new()))).collect();
        loop {
            let mut changed = false;
            for (c, ns) in &by {
                let (mut every, mut any) = (all.clone(), BTreeSet::new());
                for n in ns {
                    let (mut e, mut a) = (BTreeSet::new(), BTreeSet::new());
                    if n.1.is_empty() && is_var(&n.0) {
                        e.insert(n.0.clone());
                        a.insert(n.0.clone());
                    }
                    for k in &n.1 {
                        let s = &m[&self.find(*k)];
                        e.extend(s.0.iter().cloned());
                        a.extend(s.1.iter().cloned());
                    }
                    every = every.intersection(&e).cloned().collect();
                    any.extend(a);
                }
                if m[c] != (every.clone(), any.clone()) {
                    changed = true;
                    m.insert(*c, (every, any));
                }
            }
            if !changed {
                return m;
            }
        }
    }
    pub fn simple(&mut self, rules: &[RRule], iters: usize, cap: usize) -> Result<usize, TooBig> {
        let mut most = 0;
        for _ in 0..iters {
            let (ch, m) = self.round(rules, cap)?;
            most = most.max(m);
            if !ch {
                break;
            }
        }
        Ok(most)
    }
    pub fn saturate(&mut self, rules: &[RRule], cap: usize) -> Result<usize, TooBig> {
        let mut most = 0;
        for _ in 0..200 {
            let (ch, m) = self.round(rules, cap)?;
            most = most.max(m);
            if !ch {
                return Ok(most);
            }
        }
        Err(TooBig)
    }
    /// The saturating strategy as documented: growing rules advance one round at a time,
    /// between full saturations of the non-growing ones.
    pub fn saturating(&mut self, rules: &[RRule], iters: usize, cap: usize) -> Result<usize, TooBig> {
        let (mut sat, mut other) = (vec![], vec![]);
        for r in rules {
            if is_saturating(r) { sat.push(r.clone()) } else { other.push(r.clone()) }
        }
        let mut most = 0;
        for _ in 0..iters {
            most = most.max(self.saturate(&sat, cap)?);
            most = most.max(self.round(&other, cap)?.1);
        }
        most = most.max(self.saturate(&sat, cap)?);
        Ok(most)
    }

    /// Copy of a real e-graph; returns it with the map from its class ids.
    pub fn of_egg(eg: &EGraph<Alg, SynthAnalysis>) -> (RefEg, BTreeMap<usize, usize>) {
        let mut g = RefEg::new();
        let mut map: BTreeMap<usize, usize> = BTreeMap::new();
        for c in eg.classes() {
            let id = g.uf.len();
            g.uf.push(id);
            g.vals.push(vec![]);
            map.insert(usize::from(eg.find(c.id)), id);
        }
        for c in eg.classes() {
            for n in &c.nodes {
                let kids = n.children().iter().map(|k| map[&usize::from(eg.find(*k))]).collect();
                g.memo.insert((n.to_string(), kids), map[&usize::from(eg.find(c.id))]);
            }
        }
        g.ever = g.memo.len();
        (g, map)
    }
    /// Gives every class its sampled values so that undefined classes are known.
    pub fn with_samples(&mut self, samples: Vec<BTreeMap<String, u8>>) {
        self.samples = samples;
        let n = self.uf.len();
        self.vals = vec![vec![]; n];
        let mut known = vec![false; n];
        loop {
            let mut ch = false;
            let nodes: Vec<(Node, usize)> = self.memo.iter().map(|(n, i)| (n.clone(), *i)).collect();
            for (nd, i) in nodes {
                let i = self.find(i);
                if !known[i] && nd.1.iter().all(|k| known[self.find(*k)]) {
                    let v = self.value(&nd);
                    if v.iter().all(|x| x.is_none()) {
                        self.undefined.insert(i);
                    }
                    self.vals[i] = v;
                    known[i] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
    }
    /// Is everything in `self` also in `other`? Each term of self must exist in other, and terms
    /// equal in self must be equal in other. Returns the class map, or the first difference.
    pub fn included_in(&self, other: &RefEg) -> Result<BTreeMap<usize, usize>, String> {
        self.compare(other, true)
    }
    /// Terms that both have and that are equal in self must be equal in other.
    pub fn extra_equality(&self, other: &RefEg) -> Result<(), String> {
        self.compare(other, false).map(|_| ())
    }
    fn compare(&self, other: &RefEg, all: bool) -> Result<BTreeMap<usize, usize>, String> {
        let mut map: BTreeMap<usize, usize> = BTreeMap::new();
        let mut why: BTreeMap<usize, String> = BTreeMap::new();
        let mut done: BTreeSet<Node> = BTreeSet::new();
        loop {
            let mut ch = false;
            for (n, i) in &self.memo {
                if done.contains(n) {
                    continue;
                }
                let i = self.find(*i);
                let kids: Option<Vec<usize>> = n.1.iter().map(|k| map.get(&self.find(*k)).copied()).collect();
                if let Some(kids) = kids {
                    let text = {
                        let ks: Vec<String> = n.1.iter().map(|k| why[&self.find(*k)].clone()).collect();
                        if ks.is_empty() { n.0.clone() } else { format!("({} {})", n.0, ks.join(" ")) }
                    };
                    match other.lookup_node(&(n.0.clone(), kids)) {
                        None if all => return Err(format!("term {} is missing", text)),
                        None => {}
                        Some(c) => match map.get(&i) {
                            Some(d) if *d != c => return Err(format!("{} = {} on one side only", why[&i], text)),
                            Some(_) => {}
                            None => {
                                map.insert(i, c);
                                why.insert(i, text);
                            }
                        },
                    }
                    done.insert(n.clone());
                    ch = true;
                }
            }
            if !ch {
                return Ok(map);
            }
        }
    }
    /// Checks that every class has one value vector under all assignments to `vars`.
    pub fn consistent(&self, c: &Ctx, vars: &[String]) -> Result<BTreeMap<usize, Vec<Option<u8>>>, String> {
        self.values_at(c, &c.assignments(vars))
    }
    /// The same for the given assignments only.
    pub fn values_at(&self, c: &Ctx, asg: &[BTreeMap<String, u8>]) -> Result<BTreeMap<usize, Vec<Option<u8>>>, String> {
        let mut vals: BTreeMap<usize, Vec<Option<u8>>> = BTreeMap::new();
        let mut why: BTreeMap<usize, String> = BTreeMap::new();
        let mut done: BTreeSet<&Node> = BTreeSet::new();
        loop {
            let mut ch = false;
            for (n, i) in &self.memo {
                if done.contains(n) {
                    continue;
                }
                let i = self.find(*i);
                if !n.1.iter().all(|k| vals.contains_key(&self.find(*k))) {
                    continue;
                }
                let v: Vec<Option<u8>> = (0..asg.len())
                    .map(|x| {
                        if let Some(oi) = OPS.iter().position(|o| o.0 == n.0 && o.1 == n.1.len()) {
                            let args: Vec<Option<u8>> = n.1.iter().map(|k| vals[&self.find(*k)][x]).collect();
                            c.op(oi, &args)
                        } else if let Ok(l) = n.0.parse::<u8>() {
                            Some(l % c.m as u8)
                        } else {
                            asg[x].get(&n.0).copied().filter(|v| *v != 255)
                        }
                    })
                    .collect();
                let ks: Vec<String> = n.1.iter().map(|k| why[&self.find(*k)].clone()).collect();
                let text = if ks.is_empty() { n.0.clone() } else { format!("({} {})", n.0, ks.join(" ")) };
                match vals.get(&i) {
                    None => {
                        vals.insert(i, v);
                        why.insert(i, text);
                    }
                    Some(w) if *w != v => return Err(format!("{} = {} does not hold", why[&i], text)),
                    _ => {}
                }
                done.insert(n);
                ch = true;
            }
            if !ch {
                return Ok(vals);
            }
        }
    }
}

impl RefEg {
    /// Per class, the values its terms have at the given assignments: undefined where no term
    /// of the class is defined.
    pub fn joined_at(&self, c: &Ctx, asg: &[BTreeMap<String, u8>]) -> Result<BTreeMap<usize, Vec<Option<u8>>>, String> {
        let mut vals: BTreeMap<usize, Vec<Option<u8>>> = BTreeMap::new();
        for i in self.memo.values() {
            vals.insert(self.find(*i), vec![None; asg.len()]);
        }
        loop {
            let mut ch = false;
            for (n, i) in &self.memo {
                let i = self.find(*i);
                for (x, a) in asg.iter().enumerate() {
                    let v = if let Some(oi) = OPS.iter().position(|o| o.0 == n.0 && o.1 == n.1.len()) {
                        let args: Vec<Option<u8>> = n.1.iter().map(|k| vals[&self.find(*k)][x]).collect();
                        c.op(oi, &args)
                    } else if let Ok(l) = n.0.parse::<u8>() {
                        Some(l % c.m as u8)
                    } else {
                        a.get(&n.0).copied()
                    };
                    let old = vals[&i][x];
                    match (old, v) {
                        (None, Some(_)) => {
                            vals.get_mut(&i).unwrap()[x] = v;
                            ch = true;
                        }
                        (Some(p), Some(q)) if p != q => return Err(format!("{} is both {} and {}", n.0, p, q)),
                        _ => {}
                    }
                }
            }
            if !ch {
                return Ok(vals);
            }
        }
    }
}

pub fn is_saturating(r: &RRule) -> bool {
    let mut g = RefEg::new();
    let l = g.add_term(&ground(&r.l));
    let before = g.classes();
    let x = g.add_term(&ground(&r.r));
    g.union(l, x);
    g.rebuild();
    before >= g.classes()
}
