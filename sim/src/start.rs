//! Command line shared by the two binaries.
use crate::driver::{self, Spec};
use crate::{exec, os};

pub const CWD: &str = "/work";

/// Address-space randomisation is the one thing a simulated libc cannot hide: turn it off.
fn no_aslr() {
    unsafe {
        const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
        if std::env::var("RULERSIM_REEXEC").is_ok() {
            return;
        }
        let cur = libc::personality(0xffffffff);
        if cur < 0 || cur as libc::c_ulong & ADDR_NO_RANDOMIZE != 0 {
            return;
        }
        if libc::personality(cur as libc::c_ulong | ADDR_NO_RANDOMIZE) < 0 {
            return;
        }
        std::env::set_var("RULERSIM_REEXEC", "1");
        let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
        let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        ptrs.push(std::ptr::null());
        libc::execv(b"/proc/self/exe\0".as_ptr() as *const libc::c_char, ptrs.as_ptr());
    }
}

pub fn main(specs: Vec<Spec>) {
    no_aslr();
    // from here on this thread makes no hash map of its own: see exec::run
    let _ = std::collections::hash_map::RandomState::new();
    exec::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let path = |i: usize| -> String {
        let p = args.get(i).cloned().unwrap_or_default();
        std::fs::canonicalize(&p).map(|c| c.to_string_lossy().to_string()).unwrap_or(p)
    };
    let file = path(2);
    // an empty real directory, in case any call should reach the real filesystem after all
    let tmp = format!("/tmp/rulersim.{}", std::process::id());
    let _ = std::fs::create_dir_all(&tmp);
    os::set_cwd_dir(&tmp);
    preintern();
    let find = |id: &str| -> &Spec {
        specs.iter().find(|s| s.id == id).unwrap_or_else(|| {
            eprintln!("no such property here: {}", id);
            std::process::exit(2)
        })
    };
    let n = |i: usize, d: u64| -> u64 { args.get(i).and_then(|s| s.parse().ok()).unwrap_or(d) };
    let rc = match args.get(1).map(|s| &s[..]) {
        Some("check") => driver::check(&root, find(&args[2]), None),
        Some("replay") => driver::replay(&specs, &file),
        Some("hashes") => {
            driver::hashes(find(&args[2]), n(3, 1), n(4, 50));
            0
        }
        Some("seed") => {
            let s = find(&args[2]);
            let p = driver::make_plan(s, n(3, 1)).expect("plan");
            println!("{}", serde_json::to_string_pretty(&p.to_json()).unwrap());
            let r = driver::run_plan(s, &p, true);
            println!("{}", serde_json::to_string_pretty(&r).unwrap());
            0
        }
        Some("list") => {
            for s in &specs {
                println!("{}", s.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|hashes|seed|list ...");
            2
        }
    };
    os::set_cwd_dir("/");
    let _ = std::fs::remove_dir(&tmp);
    std::process::exit(rc)
}

/// egg interns names process-wide and orders them by first use; the same names get the same
/// order in every simulated process.
fn preintern() {
    for c in "abcdefghijklmnopqrstuvwxyz".chars() {
        let _ = egg::Symbol::from(c.to_string());
        let _: egg::Var = format!("?{}", c).parse().unwrap();
    }
}
