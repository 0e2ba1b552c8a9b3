//! The simulated operating system.
//!
//! The code under test (ruler, egg, rayon, std) runs unmodified. It reaches the operating
//! system only through the libc symbols defined in this file, which take precedence over
//! libc's own. While a simulation is active and the calling thread is a simulated one:
//!  * only one thread runs at a time; a seeded scheduler chooses which one at every futex
//!    operation, yield, sleep, thread creation and exit, file operation, solver call and at
//!    seeded preemption points inside memory allocations;
//!  * time is a simulated clock that moves with clock reads, allocation traffic (the amount
//!    of work done), solver latencies and injected jumps;
//!  * all file operations go to an in-memory filesystem that can inject errors, short and
//!    torn operations, kills and power losses;
//!  * randomness (getrandom) comes from the seed.
//! Otherwise the calls go straight to the kernel.
use crate::rng::{hash_bytes, mix, Rng};
use crate::vfs::{norm, parent, Meta, Vfs};
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicPtr, Ordering};

pub const MAXT: usize = 48;

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static GUARD: Cell<u32> = const { Cell::new(0) };
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static SIM: AtomicPtr<Sim> = AtomicPtr::new(std::ptr::null_mut());

// ---------------------------------------------------------------------------------------
// raw system calls (never intercepted)

pub unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as c_int;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: c_int) -> isize {
    *libc::__errno_location() = e;
    -1
}
unsafe fn gate_wait(g: &AtomicI32) {
    loop {
        if g.compare_exchange(1, 0, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            return;
        }
        raw6(libc::SYS_futex, g as *const _ as usize, libc::FUTEX_WAIT as usize, 0, 0, 0, 0);
    }
}
unsafe fn gate_open(g: &AtomicI32) {
    g.store(1, Ordering::SeqCst);
    raw6(libc::SYS_futex, g as *const _ as usize, libc::FUTEX_WAKE as usize, 1, 0, 0, 0);
}
pub fn raw_write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { raw6(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0) };
        if r == -(libc::EINTR as isize) {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}
pub fn raw_exit(code: i32) -> ! {
    unsafe {
        raw6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

// ---------------------------------------------------------------------------------------
// configuration and state

#[derive(Clone, Debug)]
pub struct Fault {
    pub kind: String,
    pub at: u64,
    pub sticky: bool,
    pub arg: u64,
    pub done: bool,
}

impl Fault {
    pub fn new(kind: &str, at: u64, sticky: bool, arg: u64) -> Fault {
        Fault { kind: kind.to_string(), at, sticky, arg, done: false }
    }
    pub fn to_json(&self) -> Value {
        json!({"kind": self.kind, "at": self.at, "sticky": self.sticky, "arg": self.arg})
    }
    pub fn from_json(v: &Value) -> Fault {
        Fault::new(v["kind"].as_str().unwrap(), v["at"].as_u64().unwrap(), v["sticky"].as_bool().unwrap(), v["arg"].as_u64().unwrap())
    }
}

#[derive(Clone, Debug)]
pub struct Sched {
    pub seed: u64,
    /// simulated CPUs (size of rayon's default pool)
    pub cpus: u64,
    /// 0 = no deviations, 1 = random, 2 = priorities (PCT)
    pub policy: u64,
    /// deviation probability in 1/1000 for policy 1, number of change points for policy 2
    pub param: u64,
    /// mean number of allocations between preemption points, 0 = none
    pub preempt: u64,
    /// ns per clock read / ns per 1024 allocated bytes
    pub tick: u64,
    pub work_ns: u64,
    pub random_wake: bool,
    /// replay: decisions forced at these indices (all others take the default)
    pub forced: Option<Vec<(u64, u64)>>,
}

impl Sched {
    pub fn calm(seed: u64) -> Sched {
        Sched { seed, cpus: 2, policy: 0, param: 0, preempt: 0, tick: 50, work_ns: 400, random_wake: false, forced: None }
    }
    pub fn to_json(&self) -> Value {
        json!({"seed": self.seed, "cpus": self.cpus, "policy": self.policy, "param": self.param, "preempt": self.preempt,
               "tick": self.tick, "work_ns": self.work_ns, "random_wake": self.random_wake, "forced": self.forced})
    }
    pub fn from_json(v: &Value) -> Sched {
        let u = |k: &str| v[k].as_u64().unwrap();
        Sched { seed: u("seed"), cpus: u("cpus"), policy: u("policy"), param: u("param"), preempt: u("preempt"), tick: u("tick"),
            work_ns: u("work_ns"), random_wake: v["random_wake"].as_bool().unwrap(),
            forced: v["forced"].as_array().map(|a| a.iter().map(|p| (p[0].as_u64().unwrap(), p[1].as_u64().unwrap())).collect()) }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Free,
    Ready,
    Futex(usize),
    Join(usize),
    Sleep,
    Exited,
}

struct Thread {
    st: St,
    deadline: Option<u64>,
    timed_out: bool,
    seq: u64,
    prio: u64,
    stalled: u64,
    pth: libc::pthread_t,
    gate: AtomicI32,
}

struct OpenFile {
    ino: usize,
    pos: usize,
    append: bool,
    readable: bool,
    writable: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub decisions: u64,
    pub switches: u64,
    pub clock_reads: u64,
    pub solver_ns: u64,
    pub io_ops: u64,
    pub solver: u64,
    pub waits: u64,
    pub allocs: u64,
    pub threads: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
}

pub struct Sim {
    threads: Vec<Thread>,
    current: usize,
    rng: Rng,     // scheduling decisions
    arng: Rng,    // preemption instants
    rrng: Rng,    // getrandom
    frng: Rng,    // power-loss choices
    cfg: Sched,
    pub faults: Vec<Fault>,
    has_io: bool,
    pub has_clock: bool,
    has_sched: bool,
    now: u64,
    real_skew: i64,
    alloc_rem: u64,
    countdown: u64,
    seqno: u64,
    changes: Vec<u64>,
    pub vfs: Vfs,
    fds: Vec<Option<OpenFile>>,
    cwd: String,
    pub stats: Stats,
    pub hash: u64,
    pub taken: Vec<(u64, u64)>,
    ring: Vec<(u8, u8, u64, u64)>,
    ring_pos: usize,
    futex_ids: Vec<usize>,
    pub model: Value,
    out_fd: i32,
    live: i64,
    max_steps: u64,
    pending_crash: Option<(bool, u64)>,
    full: bool,
    locks: BTreeMap<usize, c_int>,
    yields: u64,
    /// clock readings, if asked for
    pub reads: Option<Vec<u64>>,
    /// simulated instant of the first file operation after this was cleared
    pub first_io: Option<u64>,
    /// so many clock readings mean that nothing stops any more
    pub max_reads: u64,
}

fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM.load(Ordering::Relaxed) }
}
#[inline]
fn on() -> bool {
    if !ACTIVE.load(Ordering::Relaxed) {
        return false;
    }
    TID.try_with(|t| t.get() >= 0).unwrap_or(false) && GUARD.try_with(|g| g.get() == 0).unwrap_or(false)
}
struct G;
impl G {
    fn new() -> G {
        GUARD.with(|g| g.set(g.get() + 1));
        G
    }
}
impl Drop for G {
    fn drop(&mut self) {
        GUARD.with(|g| g.set(g.get() - 1));
    }
}
/// Runs harness code: its system calls and allocations are real and invisible to the simulation.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let _g = G::new();
    f()
}
/// Calls back into simulated code from within `outside`.
pub fn inside<R>(f: impl FnOnce() -> R) -> R {
    let old = GUARD.with(|g| g.replace(0));
    struct Back(u32);
    impl Drop for Back {
        fn drop(&mut self) {
            GUARD.with(|g| g.set(self.0 as _));
        }
    }
    let _b = Back(old as u32);
    f()
}
/// No further faults from here on.
pub fn calm() {
    sim().faults.clear();
}
/// Whether this thread is currently a simulated one (even inside harness code).
pub fn in_sim() -> bool {
    ACTIVE.load(Ordering::Relaxed) && TID.try_with(|t| t.get() >= 0).unwrap_or(false)
}
pub fn active() -> bool {
    on()
}

pub fn set_cwd_dir(d: &str) {
    unsafe {
        let c = std::ffi::CString::new(d).unwrap();
        libc::chdir(c.as_ptr());
    }
}

/// Starts the simulation in this (single-threaded) process; the caller becomes thread 0.
pub fn start(cfg: Sched, faults: Vec<Fault>, vfs: Vfs, cwd: &str, out_fd: i32) {
    let s = cfg.seed;
    let mut rng = Rng::new(mix(&[s, 1]));
    let changes = if cfg.policy == 2 { (0..cfg.param).map(|_| rng.logu(1, 4000)).collect() } else { vec![] };
    let mut st = Sim {
        threads: (0..MAXT)
            .map(|_| Thread { st: St::Free, deadline: None, timed_out: false, seq: 0, prio: 0, stalled: 0, pth: 0, gate: AtomicI32::new(0) })
            .collect(),
        current: 0,
        rng,
        arng: Rng::new(mix(&[s, 2])),
        rrng: Rng::new(mix(&[s, 3])),
        frng: Rng::new(mix(&[s, 4])),
        has_io: faults.iter().any(|f| !matches!(&f.kind[..], "jump" | "wjump" | "back" | "unknown" | "vpanic" | "latency" | "spurious" | "stall" | "epanic" | "ppanic")),
        has_clock: faults.iter().any(|f| matches!(&f.kind[..], "jump" | "wjump" | "back")),
        has_sched: faults.iter().any(|f| matches!(&f.kind[..], "stall")),
        faults,
        now: 1_000_000_000 + (s % 1_000_000_007) * 1000,
        real_skew: 0,
        alloc_rem: 0,
        countdown: 0,
        seqno: 0,
        changes,
        vfs,
        fds: Vec::new(),
        cwd: cwd.to_string(),
        stats: Stats::default(),
        hash: 0,
        taken: vec![],
        ring: vec![(0, 0, 0, 0); 512],
        ring_pos: 0,
        futex_ids: vec![],
        model: Value::Null,
        out_fd,
        live: 0,
        max_steps: 4_000_000,
        pending_crash: None,
        full: false,
        locks: BTreeMap::new(),
        yields: 0,
        reads: None,
        first_io: None,
        max_reads: u64::MAX,
        cfg,
    };
    st.countdown = st.next_countdown();
    st.threads[0].st = St::Ready;
    st.threads[0].prio = 1 << 20;
    st.stats.threads = 1;
    SIM.store(Box::into_raw(Box::new(st)), Ordering::SeqCst);
    TID.with(|t| t.set(0));
    ACTIVE.store(true, Ordering::SeqCst);
}

/// Ends the simulation: from here on this thread's calls are real; all others stay parked for ever.
pub fn stop() {
    ACTIVE.store(false, Ordering::SeqCst);
    TID.with(|t| t.set(-1));
}
pub fn state() -> &'static mut Sim {
    sim()
}
pub fn set_model(v: Value) {
    let _g = G::new();
    sim().model = v;
}
pub fn now_ns() -> u64 {
    sim().now
}
pub fn clock_reads() -> u64 {
    sim().stats.clock_reads
}
/// Time spent waiting for the solver, over all threads.
pub fn solver_ns() -> u64 {
    sim().stats.solver_ns
}
pub fn fired(kind: &str) -> u64 {
    *sim().stats.fired.get(kind).unwrap_or(&0)
}
pub fn fired_any(kinds: &[&str]) -> bool {
    kinds.iter().any(|k| fired(k) > 0)
}
/// Lets simulated time pass without doing anything (a slow node).
pub fn pass_time(ns: u64) {
    if on() {
        sim().now += ns;
    }
}
/// A rare or interesting situation was reached.
pub fn probe(name: &str) {
    let _g = G::new();
    *sim().stats.probes.entry(name.to_string()).or_insert(0) += 1;
}
pub fn mark(kind: &str) {
    let _g = G::new();
    *sim().stats.fired.entry(kind.to_string()).or_insert(0) += 1;
}

fn latin(b: &[u8]) -> String {
    b.iter().map(|x| *x as char).collect()
}

impl Sim {
    fn next_countdown(&mut self) -> u64 {
        if self.cfg.preempt == 0 {
            u64::MAX
        } else {
            self.arng.logu(1, self.cfg.preempt * 3)
        }
    }
    pub fn ev(&mut self, code: u8, a: u64, b: u64) {
        let tid = self.current as u8;
        self.hash = mix(&[self.hash, code as u64, tid as u64, a, b]);
        let n = self.ring.len();
        self.ring[self.ring_pos % n] = (code, tid, a, b);
        self.ring_pos += 1;
    }
    pub fn trace(&self) -> Vec<String> {
        let n = self.ring.len();
        let from = self.ring_pos.saturating_sub(160);
        (from..self.ring_pos)
            .map(|i| {
                let (c, t, a, b) = self.ring[i % n];
                let name = match c {
                    1 => "switch-to",
                    2 => "futex-wait",
                    3 => "futex-wake",
                    4 => "thread-create",
                    5 => "thread-exit",
                    6 => "sleep",
                    7 => "clock-jump",
                    8 => "solver-query",
                    10 => "open",
                    11 => "read",
                    12 => "write",
                    13 => "close",
                    14 => "mkdir",
                    15 => "rename",
                    16 => "unlink",
                    17 => "fsync",
                    18 => "truncate",
                    19 => "fault",
                    20 => "note",
                    21 => "stat",
                    _ => "ev",
                };
                format!("t{} {} {} {}", t, name, a, b as i64)
            })
            .collect()
    }
    fn fire(&mut self, i: usize) -> u64 {
        let k = self.faults[i].kind.clone();
        if !self.faults[i].sticky {
            self.faults[i].done = true;
        }
        *self.stats.fired.entry(k.clone()).or_insert(0) += 1;
        self.ev(19, hash_bytes(0, k.as_bytes()) & 0xffff, self.faults[i].at);
        self.faults[i].arg
    }
    fn find_fault(&mut self, idx: u64, ok: impl Fn(&str) -> bool) -> Option<usize> {
        (0..self.faults.len()).find(|&i| {
            let f = &self.faults[i];
            !f.done && f.at <= idx && ok(&f.kind)
        })
    }
    fn refresh(&mut self) {
        let now = self.now;
        for t in self.threads.iter_mut() {
            if let Some(d) = t.deadline {
                if d <= now && matches!(t.st, St::Futex(_) | St::Sleep) {
                    t.st = St::Ready;
                    t.deadline = None;
                    t.timed_out = true;
                }
            }
        }
    }
    /// Chooses the next thread. `yielding`: the caller prefers others to run.
    fn choose(&mut self, yielding: bool) -> usize {
        let me = self.current;
        self.refresh();
        loop {
            if self.threads.iter().any(|t| t.st == St::Ready) {
                break;
            }
            let next = self.threads.iter().filter(|t| matches!(t.st, St::Futex(_) | St::Sleep)).filter_map(|t| t.deadline).min();
            match next {
                Some(d) => {
                    self.now = self.now.max(d);
                    self.refresh();
                }
                None => die("deadlock", "no thread can run: every simulated thread is blocked"),
            }
        }
        if self.has_sched {
            let idx = self.stats.decisions;
            if let Some(i) = self.find_fault(idx, |k| k == "stall") {
                let n = self.threads.iter().filter(|t| t.st != St::Free).count() as u64;
                let arg = self.fire(i);
                self.threads[(arg % n) as usize].stalled = 100 + (arg >> 8) % 3000;
            }
        }
        for t in self.threads.iter_mut() {
            t.stalled = t.stalled.saturating_sub(1);
        }
        let mut ready: Vec<usize> = (0..MAXT).filter(|&i| self.threads[i].st == St::Ready && self.threads[i].stalled == 0).collect();
        if ready.is_empty() {
            ready = (0..MAXT).filter(|&i| self.threads[i].st == St::Ready).collect();
        }
        let me_ready = ready.contains(&me);
        let after = |r: &Vec<usize>| *r.iter().find(|&&i| i > me).unwrap_or(&r[0]);
        let default = if me_ready && !yielding { me } else { after(&ready) };
        if ready.len() == 1 {
            return ready[0];
        }
        let idx = self.stats.decisions;
        self.stats.decisions += 1;
        if idx > self.max_steps {
            die("livelock", "no progress: too many scheduling steps");
        }
        let choice = if let Some(f) = &self.cfg.forced {
            match f.binary_search_by(|p| p.0.cmp(&idx)) {
                Ok(i) if ready.contains(&(f[i].1 as usize)) => f[i].1 as usize,
                _ => default,
            }
        } else {
            match self.cfg.policy {
                1 => {
                    if self.rng.chance(self.cfg.param, 1000) {
                        *self.rng.pick(&ready)
                    } else {
                        default
                    }
                }
                2 => {
                    if yielding || self.changes.contains(&idx) {
                        let low = self.threads.iter().map(|t| t.prio).min().unwrap();
                        self.threads[me].prio = low.saturating_sub(1);
                        if low == 0 {
                            for t in self.threads.iter_mut() {
                                t.prio += 1 << 20;
                            }
                            self.threads[me].prio = 0;
                        }
                    }
                    // a long run of the same thread without blocking loses its priority
                    *ready.iter().max_by_key(|&&i| (self.threads[i].prio, i)).unwrap()
                }
                _ => default,
            }
        };
        if choice != default {
            self.taken.push((idx, choice as u64));
        }
        choice
    }
    /// Gives up the processor; returns when this thread is chosen again.
    unsafe fn switch(&mut self, yielding: bool) {
        let me = self.current;
        let next = self.choose(yielding);
        if next != me {
            self.stats.switches += 1;
            self.ev(1, next as u64, 0);
            self.current = next;
            gate_open(&self.threads[next].gate);
            gate_wait(&self.threads[me].gate);
        }
    }
    fn wake_joiners(&mut self, tid: usize) {
        for t in self.threads.iter_mut() {
            if t.st == St::Join(tid) {
                t.st = St::Ready;
            }
        }
    }
    fn fid(&mut self, addr: usize) -> u64 {
        if let Some(i) = self.futex_ids.iter().position(|a| *a == addr) {
            i as u64
        } else {
            self.futex_ids.push(addr);
            self.futex_ids.len() as u64 - 1
        }
    }
    pub fn stats_json(&self) -> Value {
        json!({"decisions": self.stats.decisions, "switches": self.stats.switches, "clock_reads": self.stats.clock_reads,
            "io_ops": self.stats.io_ops, "solver": self.stats.solver, "waits": self.stats.waits, "allocs": self.stats.allocs,
            "threads": self.stats.threads, "sim_ns": self.now, "fired": self.stats.fired, "hash": format!("{:016x}", self.hash),
            "probes": self.stats.probes, "taken": self.taken})
    }
}

/// Ends this process with a result for the parent.
pub fn finish(status: &str, out: Value, with_trace: bool) -> ! {
    GUARD.with(|g| g.set(g.get() + 1));
    let s = sim();
    let mut v = json!({"status": status, "out": out, "stats": s.stats_json()});
    if status == "crashed" {
        v["image"] = s.vfs.to_json();
        v["model"] = s.model.clone();
    }
    if with_trace {
        v["trace"] = json!(s.trace());
    }
    raw_write_all(s.out_fd, v.to_string().as_bytes());
    raw_exit(0)
}
/// Ends this process because the simulator saw a violation of progress or of memory bounds.
pub fn die(class: &str, detail: &str) -> ! {
    finish("stuck", json!({"class": class, "detail": detail}), true)
}

// ---------------------------------------------------------------------------------------
// allocator: counts work, moves the clock, preempts

pub struct Alloc;
#[inline(always)]
fn on_alloc(size: usize) {
    if ACTIVE.load(Ordering::Relaxed) && on() {
        alloc_hook(size)
    }
}
#[inline(never)]
fn alloc_hook(size: usize) {
    let s = sim();
    s.stats.allocs += 1;
    s.live += size as i64;
    s.alloc_rem += size as u64 * s.cfg.work_ns;
    s.now += s.alloc_rem >> 10;
    s.alloc_rem &= 1023;
    if s.live > 2_200_000_000 {
        die("memory", "more than 2.2 GB of live memory");
    }
    if s.countdown != u64::MAX {
        s.countdown -= 1;
        if s.countdown == 0 {
            let _g = G::new();
            s.countdown = s.next_countdown();
            unsafe { s.switch(false) };
        }
    }
}
#[inline(always)]
fn on_free(size: usize) {
    if ACTIVE.load(Ordering::Relaxed) && on() {
        sim().live -= size as i64;
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        on_alloc(n.saturating_sub(l.size()));
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

// ---------------------------------------------------------------------------------------
// solver seam (called by the domains' validators)

pub enum SolverFault {
    None,
    Unknown,
    Panic,
}
/// A query reaches the solver: time passes, other threads may run, faults may strike.
pub fn solver_enter(base_ns: u64) -> SolverFault {
    if !on() {
        return SolverFault::None;
    }
    let _g = G::new();
    let s = sim();
    let idx = s.stats.solver;
    s.stats.solver += 1;
    s.ev(8, idx, 0);
    let t0 = s.now;
    s.now += base_ns;
    if let Some(i) = s.find_fault(idx, |k| k == "latency") {
        let a = s.fire(i);
        s.now += a;
    }
    s.stats.solver_ns += s.now - t0;
    unsafe { s.switch(false) };
    if let Some(i) = s.find_fault(idx, |k| k == "vpanic") {
        s.fire(i);
        return SolverFault::Panic;
    }
    // time-outs strike exactly the indexed query (or all from there on, if sticky)
    let hit = (0..s.faults.len()).find(|&i| {
        let f = &s.faults[i];
        !f.done && f.kind == "unknown" && (f.at == idx || (f.sticky && f.at <= idx))
    });
    if let Some(i) = hit {
        let a = s.fire(i);
        s.now += a;
        s.stats.solver_ns += a;
        return SolverFault::Unknown;
    }
    SolverFault::None
}
/// Whether a fault of this kind strikes at the harness' own event number `idx`.
pub fn strike(kind: &str, idx: u64) -> bool {
    if !on() {
        return false;
    }
    let _g = G::new();
    let s = sim();
    if s.faults.is_empty() {
        return false;
    }
    let hit = (0..s.faults.len()).find(|&i| {
        let f = &s.faults[i];
        !f.done && f.kind == kind && (f.at == idx || (f.sticky && f.at <= idx))
    });
    match hit {
        Some(i) => {
            s.fire(i);
            true
        }
        None => false,
    }
}
/// A scheduling point placed by harness callbacks (predicates and the like).
pub fn point() {
    if on() {
        let _g = G::new();
        unsafe { sim().switch(false) };
    }
}
pub fn note(a: u64, b: u64) {
    if on() {
        let _g = G::new();
        sim().ev(20, a, b);
    }
}
pub fn event_seq() -> u64 {
    let s = sim();
    s.seqno += 1;
    s.seqno
}

// ---------------------------------------------------------------------------------------
// threads

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot {
    f: Start,
    arg: *mut c_void,
    tid: usize,
}
static mut EXIT_KEY: libc::pthread_key_t = 0;
static mut EXIT_KEY_SET: bool = false;

unsafe extern "C" fn on_exit(v: *mut c_void) {
    // Runs after Rust's thread-local destructors: the last thing the thread does.
    if !ACTIVE.load(Ordering::SeqCst) {
        loop {
            libc::pause();
        }
    }
    GUARD.with(|g| g.set(g.get() + 1));
    let tid = v as usize - 1;
    let s = sim();
    s.ev(5, tid as u64, 0);
    s.threads[tid].st = St::Exited;
    s.wake_joiners(tid);
    let next = s.choose(false);
    s.stats.switches += 1;
    s.ev(1, next as u64, 0);
    s.current = next;
    TID.with(|t| t.set(-1));
    gate_open(&s.threads[next].gate);
}

extern "C" fn boot(p: *mut c_void) -> *mut c_void {
    unsafe {
        let b = &*(p as *const Boot);
        let (f, arg, tid) = (b.f, b.arg, b.tid);
        gate_wait(&sim().threads[tid].gate);
        GUARD.with(|g| g.set(1));
        drop(Box::from_raw(p as *mut Boot));
        libc::pthread_setspecific(EXIT_KEY, (tid + 1) as *const c_void);
        TID.with(|t| t.set(tid as i32));
        GUARD.with(|g| g.set(0));
        f(arg)
    }
}

unsafe fn next_sym(name: &[u8]) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    assert!(!p.is_null());
    p
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    let real: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int =
        std::mem::transmute(next_sym(b"pthread_create\0"));
    if !on() {
        return real(t, attr, f, arg);
    }
    let _g = G::new();
    if !EXIT_KEY_SET {
        libc::pthread_key_create(std::ptr::addr_of_mut!(EXIT_KEY), Some(on_exit));
        EXIT_KEY_SET = true;
    }
    let s = sim();
    let tid = match (0..MAXT).find(|&i| s.threads[i].st == St::Free) {
        Some(i) => i,
        None => return libc::EAGAIN,
    };
    let b = Box::into_raw(Box::new(Boot { f, arg, tid }));
    let r = real(t, attr, boot, b as *mut c_void);
    if r != 0 {
        return r;
    }
    s.threads[tid].st = St::Ready;
    s.threads[tid].pth = *t;
    s.threads[tid].prio = if s.cfg.policy == 2 { s.rng.below(1 << 20) } else { 0 };
    s.stats.threads += 1;
    s.ev(4, tid as u64, 0);
    s.switch(false);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, v: *mut *mut c_void) -> c_int {
    let real: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(next_sym(b"pthread_join\0"));
    if on() {
        let _g = G::new();
        let s = sim();
        if let Some(tid) = (0..MAXT).find(|&i| s.threads[i].st != St::Free && s.threads[i].pth == t && i != 0) {
            while s.threads[tid].st != St::Exited {
                let me = s.current;
                s.threads[me].st = St::Join(tid);
                s.switch(false);
            }
            s.threads[tid].pth = 0;
        }
        return real(t, v);
    }
    real(t, v)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if on() {
        let _g = G::new();
        sim().now += 100;
        sim().switch(true);
        return 0;
    }
    ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn do_sleep(ns: u64) {
    let _g = G::new();
    let s = sim();
    let me = s.current;
    s.ev(6, ns, 0);
    s.threads[me].st = St::Sleep;
    s.threads[me].deadline = Some(s.now + ns);
    s.switch(true);
    s.threads[me].timed_out = false;
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if on() {
        do_sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if on() {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let ns = if flags == 1 { t.saturating_sub(sim().now) } else { t };
        do_sleep(ns);
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int)
}

unsafe fn futex(a: *const AtomicI32, op: usize, val: usize, ts: usize) -> isize {
    let cmd = (op & 0x7f) as c_int;
    // Harness code may need a lock (egg's table of names) whose owner has been preempted:
    // waiting for it is simulated, too, but it makes no other scheduling point.
    let quiet = !on();
    let _g = G::new();
    let s = sim();
    let me = s.current;
    let id = s.fid(a as usize);
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            if !quiet {
                s.switch(false); // a preemption point right before blocking
            }
            let idx = s.stats.waits;
            s.stats.waits += 1;
            if (*a).load(Ordering::SeqCst) != val as i32 {
                return fail(libc::EAGAIN);
            }
            if let Some(i) = s.find_fault(idx, |k| k == "spurious") {
                s.fire(i);
                return 0;
            }
            let t = ts as *const libc::timespec;
            s.threads[me].deadline = if t.is_null() {
                None
            } else {
                let ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
                Some(if cmd == libc::FUTEX_WAIT { s.now + ns } else { ns })
            };
            s.ev(2, id, 0);
            s.seqno += 1;
            s.threads[me].seq = s.seqno;
            s.threads[me].timed_out = false;
            s.threads[me].st = St::Futex(a as usize);
            s.switch(false);
            s.threads[me].deadline = None;
            if std::mem::take(&mut s.threads[me].timed_out) {
                return fail(libc::ETIMEDOUT);
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut n = 0;
            while n < val as i32 as i64 as isize || (val as i32 == i32::MAX) {
                let mut w: Vec<usize> = (0..MAXT).filter(|&i| s.threads[i].st == St::Futex(a as usize)).collect();
                if w.is_empty() {
                    break;
                }
                w.sort_by_key(|&i| s.threads[i].seq);
                let k = if s.cfg.random_wake && w.len() > 1 { s.arng.idx(w.len()) } else { 0 };
                s.threads[w[k]].st = St::Ready;
                n += 1;
            }
            s.ev(3, id, n as u64);
            if !quiet {
                s.switch(false);
            }
            n
        }
        _ => fail(libc::ENOSYS),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex && in_sim() {
        return futex(a as *const AtomicI32, b, c, d) as c_long;
    }
    if on() {
        return match n {
            libc::SYS_futex => futex(a as *const AtomicI32, b, c, d) as c_long,
            libc::SYS_getrandom => getrandom(a as *mut c_void, b, c as u32) as c_long,
            libc::SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as c_long,
            libc::SYS_gettid => sim().current as c_long + 1000,
            libc::SYS_clock_gettime => clock_gettime(a as c_int, b as *mut libc::timespec) as c_long,
            libc::SYS_sched_yield => sched_yield() as c_long,
            libc::SYS_renameat2 => renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as u32) as c_long,
            _ => fail(libc::ENOSYS) as c_long,
        };
    }
    ret(raw6(n, a, b, c, d, e, f)) as c_long
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if on() {
        let n = sim().cfg.cpus as usize;
        std::ptr::write_bytes(set as *mut u8, 0, size);
        for i in 0..n {
            libc::CPU_SET(i, &mut *set);
        }
        return 0;
    }
    let r = raw6(libc::SYS_sched_getaffinity, pid as usize, size, set as usize, 0, 0, 0);
    if r > 0 {
        if (r as usize) < size {
            std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, size - r as usize);
        }
        return 0;
    }
    ret(r) as c_int
}

// ---------------------------------------------------------------------------------------
// clock and randomness

pub const EPOCH_NS: u64 = 1_700_000_000_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if on() {
        let s = sim();
        s.stats.clock_reads += 1;
        s.now += s.cfg.tick;
        if s.stats.clock_reads > s.max_reads {
            let _g = G::new();
            die("hang", "saturation goes on long after its time budget has passed");
        }
        if s.has_clock {
            let _g = G::new();
            let idx = s.stats.clock_reads;
            let worker = s.current != 0;
            while let Some(i) = s.find_fault(idx, |k| k == "jump" || k == "back" || (k == "wjump" && worker)) {
                let kind = s.faults[i].kind.clone();
                let a = s.fire(i);
                if kind != "back" {
                    s.now += a;
                    s.ev(7, a, 0);
                } else {
                    s.real_skew -= a as i64;
                }
                if s.faults[i].sticky {
                    break;
                }
            }
        }
        if s.reads.is_some() {
            let _g = G::new();
            let now = s.now;
            s.reads.as_mut().unwrap().push(now);
        }
        let t = if clk == libc::CLOCK_REALTIME { (EPOCH_NS + s.now).wrapping_add(s.real_skew as u64) } else { s.now };
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> ssize_t {
    if on() {
        let _g = G::new();
        let s = sim();
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for x in b.iter_mut() {
            *x = s.rrng.next() as u8;
        }
        return len as ssize_t;
    }
    // the harness's own randomness (hash keys of the thread that becomes simulated thread 0)
    // is the same in every process, so that a replay sees what the search saw
    let _ = flags;
    static mut X: u64 = 0x9e3779b97f4a7c15;
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for x in b.iter_mut() {
        X = mix(&[X, 7]);
        *x = X as u8;
    }
    len as ssize_t
}

// ---------------------------------------------------------------------------------------
// files

const FD0: c_int = 1000;

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Open,
    Read,
    Write,
    Sync,
    Meta,
    Other,
}

enum Eff {
    Go,
    Err(c_int),
    Short(u64),
    /// write this many bytes, then fail with ENOSPC
    PartialFull(u64),
}

impl Sim {
    /// Every file operation passes here: a scheduling point and a place for faults.
    unsafe fn io(&mut self, op: Op, len: usize) -> Eff {
        self.switch(false);
        let idx = self.stats.io_ops;
        self.stats.io_ops += 1;
        if self.first_io.is_none() {
            self.first_io = Some(self.now);
        }
        self.now += 20_000;
        if idx > 400_000 {
            die("hang", "no end of file operations");
        }
        if !self.has_io {
            return Eff::Go;
        }
        let hit = self.find_fault(idx, |k| match k {
            "eintr" => matches!(op, Op::Open | Op::Read | Op::Write),
            "short_read" => op == Op::Read && len > 1,
            "short_write" => op == Op::Write && len > 1,
            "eio_read" => op == Op::Read,
            "eio_write" | "enospc" => op == Op::Write,
            "open_fail" => op == Op::Open,
            "sync_fail" => op == Op::Sync,
            "meta_fail" => op == Op::Meta,
            "crash" | "power" => op != Op::Other,
            _ => false,
        });
        let i = match hit {
            None => return Eff::Go,
            Some(i) => i,
        };
        let kind = self.faults[i].kind.clone();
        let arg = self.fire(i);
        match &kind[..] {
            "eintr" => Eff::Err(libc::EINTR),
            "short_read" | "short_write" => Eff::Short(1 + arg % (len as u64 - 1)),
            "eio_read" | "eio_write" | "sync_fail" => Eff::Err(libc::EIO),
            "enospc" => {
                if arg % 2 == 1 && len > 1 {
                    Eff::PartialFull(1 + (arg / 2) % (len as u64 - 1))
                } else {
                    Eff::Err(libc::ENOSPC)
                }
            }
            "open_fail" => Eff::Err(libc::EMFILE),
            "meta_fail" => Eff::Err(libc::EIO),
            _ => {
                // crash / power: before the operation, or in the middle / after it
                self.pending_crash = Some((kind == "power", arg));
                if arg % 3 == 0 || !matches!(op, Op::Write) && arg % 3 == 1 {
                    self.crash_now();
                }
                if op == Op::Write && arg % 3 == 1 {
                    Eff::Short((arg / 3) % (len as u64 + 1))
                } else {
                    Eff::Go
                }
            }
        }
    }
    /// Called at the end of every file operation.
    fn io_done(&mut self) {
        if self.pending_crash.is_some() {
            self.crash_now();
        }
    }
    fn crash_now(&mut self) -> ! {
        let (power, _) = self.pending_crash.unwrap();
        if power {
            let mut r = self.frng.clone();
            self.vfs = self.vfs.after_power_loss(&mut |n| r.below(n));
        }
        finish("crashed", json!({"power": power}), false)
    }
    fn fd(&mut self, fd: c_int) -> Option<&mut OpenFile> {
        if fd < FD0 {
            return None;
        }
        self.fds.get_mut((fd - FD0) as usize).and_then(|f| f.as_mut())
    }
    fn path(&self, p: *const c_char) -> String {
        let b = unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes();
        norm(&self.cwd, &latin(b))
    }
    fn check_parent(&self, p: &str) -> Result<(), c_int> {
        let d = parent(p);
        match self.vfs.get(&d) {
            Some(i) if i.dir => Ok(()),
            Some(_) => Err(libc::ENOTDIR),
            None => Err(libc::ENOENT),
        }
    }
}

unsafe fn vopen(p: *const c_char, flags: c_int) -> c_int {
    let _g = G::new();
    let s = sim();
    let path = s.path(p);
    let r = vopen_in(s, &path, flags);
    s.ev(10, hash_bytes(0, path.as_bytes()), r as u64);
    s.io_done();
    r
}
unsafe fn vopen_in(s: &mut Sim, path: &str, flags: c_int) -> c_int {
    match s.io(Op::Open, 0) {
        Eff::Err(e) => return fail(e) as c_int,
        _ => {}
    }
    let acc = flags & libc::O_ACCMODE;
    let wr = acc != libc::O_RDONLY;
    let ino = match s.vfs.names.get(path).copied() {
        Some(i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return fail(libc::EEXIST) as c_int;
            }
            if s.vfs.inodes[i].dir && wr {
                return fail(libc::EISDIR) as c_int;
            }
            if !s.vfs.inodes[i].dir && flags & libc::O_DIRECTORY != 0 {
                return fail(libc::ENOTDIR) as c_int;
            }
            if flags & libc::O_TRUNC != 0 && wr {
                s.vfs.inodes[i].data.clear();
            }
            i
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return fail(libc::ENOENT) as c_int;
            }
            if let Err(e) = s.check_parent(path) {
                return fail(e) as c_int;
            }
            let i = s.vfs.inodes.len();
            s.vfs.inodes.push(Default::default());
            s.vfs.meta(Meta::Link(path.to_string(), i));
            i
        }
    };
    let of = OpenFile { ino, pos: 0, append: flags & libc::O_APPEND != 0, readable: acc != libc::O_WRONLY, writable: wr };
    let slot = match s.fds.iter().position(|f| f.is_none()) {
        Some(i) => i,
        None => {
            s.fds.push(None);
            s.fds.len() - 1
        }
    };
    s.fds[slot] = Some(of);
    FD0 + slot as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if on() {
        return vopen(p, flags);
    }
    ret(raw6(libc::SYS_openat, libc::AT_FDCWD as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if on() {
        return vopen(p, flags);
    }
    ret(raw6(libc::SYS_openat, d as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    openat(d, p, flags, mode)
}

unsafe fn vread(fd: c_int, parts: &mut [&mut [u8]], at: Option<usize>) -> isize {
    let _g = G::new();
    let s = sim();
    let len: usize = parts.iter().map(|p| p.len()).sum();
    let r = vread_in(s, fd, parts, len, at);
    s.ev(11, fd as u64, r as u64);
    s.io_done();
    r
}
unsafe fn vread_in(s: &mut Sim, fd: c_int, parts: &mut [&mut [u8]], len: usize, at: Option<usize>) -> isize {
    let eff = s.io(Op::Read, len);
    let (ino, pos) = match s.fd(fd) {
        Some(f) if f.readable => (f.ino, at.unwrap_or(f.pos)),
        _ => return fail(libc::EBADF),
    };
    if s.vfs.inodes[ino].dir {
        return fail(libc::EISDIR);
    }
    let max = match eff {
        Eff::Err(e) => return fail(e),
        Eff::Short(k) => k as usize,
        _ => len,
    };
    let data = &s.vfs.inodes[ino].data;
    let avail = data.len().saturating_sub(pos).min(max);
    let mut src = &data[pos.min(data.len())..pos.min(data.len()) + avail];
    for p in parts.iter_mut() {
        let k = src.len().min(p.len());
        p[..k].copy_from_slice(&src[..k]);
        src = &src[k..];
    }
    if at.is_none() {
        s.fd(fd).unwrap().pos = pos + avail;
    }
    avail as isize
}
unsafe fn vwrite(fd: c_int, parts: &[&[u8]], at: Option<usize>) -> isize {
    let _g = G::new();
    let s = sim();
    let all: Vec<u8> = parts.concat();
    let r = vwrite_in(s, fd, &all, at);
    s.ev(12, fd as u64, r as u64);
    s.io_done();
    r
}
unsafe fn vwrite_in(s: &mut Sim, fd: c_int, all: &[u8], at: Option<usize>) -> isize {
    let eff = s.io(Op::Write, all.len());
    let (ino, pos) = match s.fd(fd) {
        Some(f) if f.writable => (f.ino, if f.append { usize::MAX } else { at.unwrap_or(f.pos) }),
        _ => return fail(libc::EBADF),
    };
    let (n, err) = match eff {
        Eff::Err(e) => {
            if e != libc::EINTR {
                s.full = false;
            }
            return fail(e);
        }
        Eff::Short(k) => (k as usize, None),
        Eff::PartialFull(k) => {
            // like a real disk: a short write first, the error on the next attempt
            s.full = true;
            (k as usize, None)
        }
        Eff::Go => (all.len(), if s.full { Some(libc::ENOSPC) } else { None }),
    };
    if let Some(e) = err {
        s.full = false;
        // the second half of a fault that began in an earlier call counts in this one, too
        *s.stats.fired.entry("enospc".to_string()).or_insert(0) += 1;
        return fail(e);
    }
    let data = &mut s.vfs.inodes[ino].data;
    let pos = if pos == usize::MAX { data.len() } else { pos };
    if data.len() < pos + n {
        data.resize(pos + n, 0);
    }
    data[pos..pos + n].copy_from_slice(&all[..n]);
    if at.is_none() {
        s.fd(fd).unwrap().pos = pos + n;
    }
    n as isize
}

unsafe fn iovs<'a>(iov: *const libc::iovec, n: c_int) -> Vec<&'a mut [u8]> {
    (0..n as usize)
        .map(|i| {
            let v = &*iov.add(i);
            std::slice::from_raw_parts_mut(v.iov_base as *mut u8, v.iov_len)
        })
        .collect()
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if on() {
        return vread(fd, &mut [std::slice::from_raw_parts_mut(buf as *mut u8, n)], None);
    }
    ret(raw6(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if on() {
        if fd == 1 || fd == 2 {
            return n as ssize_t; // console output of the code under test is swallowed
        }
        return vwrite(fd, &[std::slice::from_raw_parts(buf as *const u8, n)], None);
    }
    ret(raw6(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if on() {
        return vread(fd, &mut iovs(iov, n), None);
    }
    ret(raw6(libc::SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if on() {
        let v = iovs(iov, n);
        if fd == 1 || fd == 2 {
            return v.iter().map(|p| p.len()).sum::<usize>() as ssize_t;
        }
        let w: Vec<&[u8]> = v.iter().map(|p| &**p).collect();
        return vwrite(fd, &w, None);
    }
    ret(raw6(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if on() {
        return vread(fd, &mut [std::slice::from_raw_parts_mut(buf as *mut u8, n)], Some(off as usize));
    }
    ret(raw6(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    if on() {
        return vwrite(fd, &[std::slice::from_raw_parts(buf as *const u8, n)], Some(off as usize));
    }
    ret(raw6(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if on() && fd >= FD0 {
        let _g = G::new();
        let s = sim();
        s.switch(false);
        s.ev(13, fd as u64, 0);
        s.locks.retain(|_, h| *h != fd);
        return match s.fds.get_mut((fd - FD0) as usize) {
            Some(f) if f.is_some() => {
                *f = None;
                0
            }
            _ => fail(libc::EBADF) as c_int,
        };
    }
    ret(raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if on() && fd >= FD0 {
        let _g = G::new();
        let s = sim();
        let (ino, pos) = match s.fd(fd) {
            Some(f) => (f.ino, f.pos),
            None => return fail(libc::EBADF) as i64,
        };
        let base = match wh {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => pos as i64,
            _ => s.vfs.inodes[ino].data.len() as i64,
        };
        if base + off < 0 {
            return fail(libc::EINVAL) as i64;
        }
        s.fd(fd).unwrap().pos = (base + off) as usize;
        return base + off;
    }
    ret(raw6(libc::SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0)) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
    lseek64(fd, off, wh)
}

unsafe fn fill(st: *mut libc::stat64, s: &Sim, ino: usize) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*st).st_mode = if s.vfs.inodes[ino].dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    (*st).st_size = s.vfs.inodes[ino].data.len() as i64;
    (*st).st_ino = ino as u64 + 1;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
}
unsafe fn lookup_path(p: *const c_char) -> Option<usize> {
    let s = sim();
    s.switch(false);
    let path = s.path(p);
    let r = s.vfs.names.get(&path).copied();
    s.ev(21, hash_bytes(0, path.as_bytes()), r.is_some() as u64);
    r
}
unsafe fn vstat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    let _g = G::new();
    match lookup_path(p) {
        Some(i) => {
            fill(st, sim(), i);
            0
        }
        None => fail(libc::ENOENT) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if on() {
        return vstat(p, st);
    }
    ret(raw6(libc::SYS_newfstatat, libc::AT_FDCWD as usize, p as usize, st as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if on() {
        return vstat(p, st);
    }
    ret(raw6(libc::SYS_newfstatat, libc::AT_FDCWD as usize, p as usize, st as usize, libc::AT_SYMLINK_NOFOLLOW as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if on() && fd >= FD0 {
        let _g = G::new();
        let s = sim();
        return match s.fd(fd).map(|f| f.ino) {
            Some(i) => {
                fill(st, s, i);
                0
            }
            None => fail(libc::EBADF) as c_int,
        };
    }
    ret(raw6(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: u32, st: *mut libc::statx) -> c_int {
    if on() {
        let _g = G::new();
        let empty = p.is_null() || *p == 0;
        if st.is_null() {
            return fail(libc::EFAULT) as c_int; // std's availability probe
        }
        let ino = if empty { sim().fd(d).map(|f| f.ino) } else { lookup_path(p) };
        return match ino {
            Some(i) => {
                let mut t: libc::stat64 = std::mem::zeroed();
                fill(&mut t, sim(), i);
                std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
                (*st).stx_mask = 0x7ff;
                (*st).stx_mode = t.st_mode as u16;
                (*st).stx_size = t.st_size as u64;
                (*st).stx_ino = t.st_ino;
                (*st).stx_nlink = 1;
                (*st).stx_blksize = 4096;
                0
            }
            None => fail(if empty { libc::EBADF } else { libc::ENOENT }) as c_int,
        };
    }
    ret(raw6(libc::SYS_statx, d as usize, p as usize, flags as usize, mask as usize, st as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if on() {
        let mut t: libc::stat64 = std::mem::zeroed();
        return vstat(p, &mut t);
    }
    ret(raw6(libc::SYS_access, p as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: libc::mode_t) -> c_int {
    if on() {
        let _g = G::new();
        let s = sim();
        let path = s.path(p);
        let r = match s.io(Op::Meta, 0) {
            Eff::Err(e) => fail(e),
            _ => {
                if s.vfs.names.contains_key(&path) {
                    fail(libc::EEXIST)
                } else if let Err(e) = s.check_parent(&path) {
                    fail(e)
                } else {
                    let i = s.vfs.inodes.len();
                    s.vfs.inodes.push(crate::vfs::Inode { dir: true, ..Default::default() });
                    s.vfs.meta(Meta::Link(path.clone(), i));
                    0
                }
            }
        };
        s.ev(14, hash_bytes(0, path.as_bytes()), r as u64);
        s.io_done();
        return r as c_int;
    }
    ret(raw6(libc::SYS_mkdir, p as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
unsafe fn vrename(a: *const c_char, b: *const c_char, noreplace: bool) -> c_int {
    let _g = G::new();
    let s = sim();
    let (pa, pb) = (s.path(a), s.path(b));
    let r = match s.io(Op::Meta, 0) {
        Eff::Err(e) => fail(e),
        _ => {
            if !s.vfs.names.contains_key(&pa) {
                fail(libc::ENOENT)
            } else if noreplace && s.vfs.names.contains_key(&pb) {
                fail(libc::EEXIST)
            } else if s.vfs.is_dir(&pb) && !s.vfs.is_dir(&pa) {
                fail(libc::EISDIR)
            } else if let Err(e) = s.check_parent(&pb) {
                fail(e)
            } else {
                if pa != pb {
                    s.vfs.meta(Meta::Rename(pa.clone(), pb.clone()));
                }
                0
            }
        }
    };
    s.ev(15, hash_bytes(0, pb.as_bytes()), r as u64);
    s.io_done();
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if on() {
        return vrename(a, b, false);
    }
    ret(raw6(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, flags: u32) -> c_int {
    if on() {
        return vrename(a, b, flags & 1 != 0);
    }
    ret(raw6(libc::SYS_renameat2, d as usize, a as usize, e as usize, b as usize, flags as usize, 0)) as c_int
}
unsafe fn vunlink(p: *const c_char, dir: bool) -> c_int {
    let _g = G::new();
    let s = sim();
    let path = s.path(p);
    let r = match s.io(Op::Meta, 0) {
        Eff::Err(e) => fail(e),
        _ => match s.vfs.get(&path).map(|i| i.dir) {
            None => fail(libc::ENOENT),
            Some(true) if !dir => fail(libc::EISDIR),
            Some(false) if dir => fail(libc::ENOTDIR),
            _ => {
                s.vfs.meta(Meta::Unlink(path.clone()));
                0
            }
        },
    };
    s.ev(16, hash_bytes(0, path.as_bytes()), r as u64);
    s.io_done();
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if on() {
        return vunlink(p, false);
    }
    ret(raw6(libc::SYS_unlink, p as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if on() {
        return vunlink(p, true);
    }
    ret(raw6(libc::SYS_rmdir, p as usize, 0, 0, 0, 0, 0)) as c_int
}
unsafe fn vsync(fd: c_int) -> c_int {
    let _g = G::new();
    let s = sim();
    let r = match s.io(Op::Sync, 0) {
        Eff::Err(e) => fail(e),
        _ => match s.fd(fd).map(|f| f.ino) {
            Some(i) => {
                s.vfs.fsync(i);
                0
            }
            None => fail(libc::EBADF),
        },
    };
    s.ev(17, fd as u64, r as u64);
    s.io_done();
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if on() {
        return vsync(fd);
    }
    ret(raw6(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if on() {
        return vsync(fd);
    }
    ret(raw6(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if on() {
        let _g = G::new();
        let s = sim();
        let r = match s.io(Op::Meta, 0) {
            Eff::Err(e) => fail(e),
            _ => match s.fd(fd).map(|f| f.ino) {
                Some(i) => {
                    s.vfs.inodes[i].data.resize(len as usize, 0);
                    0
                }
                None => fail(libc::EBADF),
            },
        };
        s.ev(18, fd as u64, len as u64);
        s.io_done();
        return r as c_int;
    }
    ret(raw6(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if on() && fd >= FD0 {
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                let _g = G::new();
                let s = sim();
                let of = match s.fd(fd) {
                    Some(f) => OpenFile { ino: f.ino, pos: f.pos, append: f.append, readable: f.readable, writable: f.writable },
                    None => return fail(libc::EBADF) as c_int,
                };
                s.fds.push(Some(of));
                FD0 + s.fds.len() as c_int - 1
            }
            _ => 0,
        };
    }
    ret(raw6(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if on() && fd >= FD0 {
        let _g = G::new();
        let s = sim();
        s.switch(false);
        let ino = match s.fd(fd) {
            Some(f) => f.ino,
            None => return fail(libc::EBADF) as c_int,
        };
        if op & libc::LOCK_UN != 0 {
            s.locks.retain(|i, h| !(*i == ino && *h == fd));
            return 0;
        }
        // shared locks are treated as exclusive ones
        loop {
            match s.locks.get(&ino) {
                Some(h) if *h != fd => {
                    if op & libc::LOCK_NB != 0 {
                        return fail(libc::EWOULDBLOCK) as c_int;
                    }
                    s.now += 1000;
                    s.yields += 1;
                    if s.yields > 1_000_000 {
                        die("deadlock", "a file lock is never released");
                    }
                    s.switch(true);
                }
                _ => {
                    s.locks.insert(ino, fd);
                    return 0;
                }
            }
        }
    }
    ret(raw6(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: libc::mode_t) -> c_int {
    if on() {
        return 0;
    }
    ret(raw6(libc::SYS_fchmod, fd as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: libc::mode_t) -> c_int {
    if on() {
        return 0;
    }
    ret(raw6(libc::SYS_chmod, p as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: size_t, fl: u32) -> ssize_t {
    if on() {
        return fail(libc::ENOSYS);
    }
    ret(raw6(libc::SYS_copy_file_range, a as usize, ao as usize, b as usize, bo as usize, n, fl as usize))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: size_t) -> ssize_t {
    if on() {
        return fail(libc::ENOSYS);
    }
    ret(raw6(libc::SYS_sendfile, o as usize, i as usize, off as usize, n, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let real: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(next_sym(b"realpath\0"));
    if !on() {
        return real(p, out);
    }
    let _g = G::new();
    if lookup_path(p).is_none() {
        fail(libc::ENOENT);
        return std::ptr::null_mut();
    }
    let s = sim();
    let n = s.path(p);
    let abs = if n.starts_with('/') { n } else if n == "." { s.cwd.clone() } else { format!("{}/{}", s.cwd, n) };
    let c = std::ffi::CString::new(abs).unwrap();
    if out.is_null() {
        libc::strdup(c.as_ptr())
    } else {
        libc::strcpy(out, c.as_ptr())
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, size: size_t) -> *mut c_char {
    if on() && !buf.is_null() {
        let c = &sim().cwd;
        if c.len() + 1 > size {
            fail(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(c.as_ptr() as *const c_char, buf, c.len());
        *buf.add(c.len()) = 0;
        return buf;
    }
    let r = raw6(libc::SYS_getcwd, buf as usize, size, 0, 0, 0, 0);
    if r < 0 {
        fail((-r) as c_int);
        return std::ptr::null_mut();
    }
    buf
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if on() {
        return 4242;
    }
    raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t
}
