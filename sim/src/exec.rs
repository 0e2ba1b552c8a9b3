//! Runs one simulated process: a fork of the (single-threaded) worker.
use crate::os::{self, Fault, Sched};
use crate::vfs::Vfs;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Proc {
    pub sched: Sched,
    pub faults: Vec<Fault>,
    pub vfs: Vfs,
}

impl Proc {
    pub fn calm(seed: u64) -> Proc {
        Proc { sched: Sched::calm(seed), faults: vec![], vfs: Vfs::new() }
    }
}

#[derive(Clone, Debug)]
pub struct Res {
    /// done | crashed | stuck | died | harness
    pub status: String,
    pub out: Value,
    pub stats: Value,
    pub trace: Value,
    pub image: Value,
    pub model: Value,
}

impl Res {
    pub fn fired(&self, k: &str) -> u64 {
        self.stats["fired"][k].as_u64().unwrap_or(0)
    }
    pub fn any_fired(&self, ks: &[&str]) -> bool {
        ks.iter().any(|k| self.fired(k) > 0)
    }
}

static mut LAST_PANIC: String = String::new();

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        os::outside(|| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            if !os::in_sim() {
                eprintln!("harness panic: {}{}", msg, loc);
            }
            unsafe { *std::ptr::addr_of_mut!(LAST_PANIC) = format!("{}{}", msg, loc) };
        })
    }));
}

/// Calls into the code under test; a panic becomes an Err with its message.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            // the payload is dropped outside, like any caller would do
            let m = os::outside(|| {
                let s = if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else {
                    unsafe { (*std::ptr::addr_of!(LAST_PANIC)).clone() }
                };
                s
            });
            drop(p);
            Err(m)
        }
    }
}

pub const CPU_LIMIT_S: u64 = 25;
pub static mut WITH_TRACE: bool = false;

/// Forks, runs `f` as simulated thread 0 of a new simulated process, and returns what happened.
pub fn run(p: &Proc, f: impl FnOnce() -> Value) -> Res {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT_S, rlim_max: CPU_LIMIT_S + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let cwd = crate::start::CWD;
            // A new thread, so that its thread-local state (above all the keys of std's hash
            // maps, which are drawn from the simulated getrandom) does not depend on what
            // this process did before. It is waited for by never returning.
            struct Any<T>(T);
            unsafe impl<T> Send for Any<T> {}
            let fd = fds[1];
            let job = Any(Box::new(move || {
                os::start(p.sched.clone(), p.faults.clone(), p.vfs.clone(), cwd, fd);
                let r = catch_unwind(AssertUnwindSafe(f));
                match r {
                    Ok(v) => os::finish("done", v, WITH_TRACE),
                    Err(_) => os::finish("harness", json!((*std::ptr::addr_of!(LAST_PANIC)).clone()), true),
                }
            }) as Box<dyn FnOnce()>);
            let job: Any<Box<dyn FnOnce() + 'static>> = std::mem::transmute(job);
            let _t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let job = job;
                (job.0)()
            });
            loop {
                libc::pause();
            }
        }
        libc::close(fds[1]);
        let mut buf: Vec<u8> = vec![];
        let mut chunk = vec![0u8; 65536];
        let mut waited_ms = 0u64;
        let mut killed = false;
        loop {
            let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut pf, 1, 1000);
            if r == 0 {
                waited_ms += 1000;
                if waited_ms > 200_000 && !killed {
                    libc::kill(pid, libc::SIGKILL);
                    killed = true;
                }
                continue;
            }
            let n = libc::read(fds[0], chunk.as_mut_ptr() as *mut libc::c_void, chunk.len());
            if n < 0 {
                continue;
            }
            if n == 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let mut res = Res { status: "died".into(), out: Value::Null, stats: json!({}), trace: Value::Null, image: Value::Null, model: Value::Null };
        if let Ok(v) = serde_json::from_slice::<Value>(&buf) {
            res.status = v["status"].as_str().unwrap().to_string();
            res.out = v["out"].clone();
            res.stats = v["stats"].clone();
            res.trace = v["trace"].clone();
            res.image = v["image"].clone();
            res.model = v["model"].clone();
            return res;
        }
        if killed {
            res.status = "harness".into();
            res.out = json!("simulated process did not finish within 200 s of real time without using its CPU allowance");
        } else if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGXCPU {
                res.status = "stuck".into();
                res.out = json!({"class": "hang", "detail": format!("no termination within {} s of CPU time", CPU_LIMIT_S)});
            } else if s == libc::SIGKILL {
                res.status = "harness".into();
                res.out = json!("simulated process was killed from outside (memory?)");
            } else {
                res.out = json!({"class": format!("signal{}", s), "detail": format!("process died of signal {}", s)});
            }
        } else {
            res.out = json!({"class": "exit", "detail": format!("process exited with status {}", libc::WEXITSTATUS(st))});
        }
        res
    }
}
