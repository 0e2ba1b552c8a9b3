//! Deterministic simulation of ruler: see ../../DESIGN.md.
mod alg;
mod common;
mod driver;
mod exec;
mod os;
mod p_bv;
mod p_io;
mod p_min;
mod p_miss;
mod p_par;
mod p_sat;
mod refeg;
mod rng;
mod vfs;
mod start;

use driver::Spec;

const REAL: &[&str] = &["ruler (all of src/, unmodified)", "egg", "rayon", "std threads, channels, files and clocks above libc", "serde_json"];
const STUB: &[&str] = &["kernel: futex/threads/clock/randomness/files (simulated libc)", "SMT solver: exact finite-algebra validator behind SynthLanguage::validate"];

pub fn specs() -> Vec<Spec> {
    vec![
        Spec { id: "C01", gen: |r| match r.below(20) { 0..=7 => p_min::gen_min("C01", r, true), 8..=14 => p_min::gen_wkl("C01", r), 15..=17 => p_min::gen_bvrow("C01", r), _ => p_bv::gen(r) },
            drive: |d, p| match &p.kind[..] { "min" => p_min::drive_min(d, p), "bvrow" => p_min::drive_bvrow(d, p), "bv-min" | "bv-wkl" | "bv-row" => p_bv::drive(d, p), _ => p_min::drive_wkl(d, p) },
            quick: 24000, thorough: 2400000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["learned-some", "solver-gave-up", "solver-failure-surfaced", "z3-gave-up", "z3-affirmed", "z3-refuted"] },
        Spec { id: "C02", gen: |r| p_min::gen_min("C02", r, true), drive: p_min::drive_min,
            quick: 24000, thorough: 2400000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &[] },
        Spec { id: "C21", gen: |r| p_min::gen_min("C21", r, false), drive: p_min::drive_min,
            quick: 24000, thorough: 2400000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &[] },
        Spec { id: "C03", gen: |r| match r.below(10) { 0..=3 => p_sat::gen_sat("C03", r), 4..=6 => p_sat::gen_budget(r), _ => p_min::gen_min("C03", r, true) },
            drive: |d, p| match &p.kind[..] { "sat" => p_sat::drive_sat(d, p), "budget" => p_sat::drive_budget(d, p), _ => { d.small = true; p_min::drive_min(d, p) } },
            quick: 30000, thorough: 3000000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["diverging", "time-budget-exceeded", "solver-gave-up"] },
        Spec { id: "C04", gen: |r| p_sat::gen_sat("C04", r), drive: p_sat::drive_sat,
            quick: 30000, thorough: 3000000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["compressed", "merges-compared", "time-budget-exceeded"] },
        Spec { id: "C05", gen: |r| p_sat::gen_sat("C05", r), drive: p_sat::drive_sat,
            quick: 30000, thorough: 3000000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["semantics-checked", "derivations-checked", "time-budget-exceeded"] },
        Spec { id: "C06", gen: |r| p_sat::gen_sat("C06", r), drive: p_sat::drive_sat,
            quick: 30000, thorough: 3000000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["exact-compared", "cut-off", "time-budget-exceeded"] },
        Spec { id: "C18", gen: |r| p_sat::gen_sat("C18", r), drive: p_sat::drive_sat,
            quick: 30000, thorough: 3000000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["facts-checked", "constant-found", "time-budget-exceeded"] },
        Spec { id: "C17", gen: p_min::gen_ff, drive: p_min::drive_ff,
            quick: 20000, thorough: 2000000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["equality-checked", "learned-some", "forbidden-operators-present"] },
        Spec { id: "C26", gen: p_miss::gen_miss, drive: p_miss::drive_miss,
            quick: 20000, thorough: 2000000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["equality-checked", "solver-gave-up", "inference-rec"] },
        Spec { id: "C11", gen: |r| p_io::gen_roundtrip("C11", r), drive: p_io::drive_roundtrip,
            quick: 18000, thorough: 1800000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["round-trip-exact", "larger-than-buffer", "save-reported-fault", "load-reported-fault"] },
        Spec { id: "C12", gen: |r| p_io::gen_roundtrip("C12", r), drive: p_io::drive_roundtrip,
            quick: 9000, thorough: 900000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["round-trip-exact", "larger-than-buffer", "save-reported-fault", "load-reported-fault"] },
        Spec { id: "C13", gen: p_io::gen_crash_save, drive: p_io::drive_crash_save,
            quick: 7000, thorough: 700000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &[] },
        Spec { id: "C14", gen: p_io::gen_history, drive: p_io::drive_history,
            quick: 7000, thorough: 700000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &[] },
        Spec { id: "C15", gen: p_io::gen_conc_report, drive: p_io::drive_conc_report,
            quick: 6000, thorough: 600000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &[] },
        Spec { id: "C16", gen: p_io::gen_truth, drive: p_io::drive_truth,
            quick: 24000, thorough: 2400000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &[] },
        Spec { id: "C19", gen: p_io::gen_count, drive: p_io::drive_count,
            quick: 60000, thorough: 6000000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &[] },
        Spec { id: "C07", gen: p_par::gen_derive, drive: p_par::drive_derive,
            quick: 24000, thorough: 2400000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["derivable", "not-derivable", "exact-compared", "time-budget-exceeded"] },
        Spec { id: "C08", gen: p_par::gen_partition, drive: p_par::drive_partition,
            quick: 24000, thorough: 2400000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["concurrent-partitions", "many-rules"] },
        Spec { id: "C09", gen: p_par::gen_failure, drive: p_par::drive_failure,
            quick: 20000, thorough: 2000000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["failure-surfaced", "companion-undisturbed"] },
        Spec { id: "C10", gen: p_par::gen_repro, drive: p_par::drive_repro,
            quick: 24000, thorough: 2400000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["rules-compared"] },
        Spec { id: "C20", gen: p_par::gen_many, drive: p_par::drive_many,
            quick: 9000, thorough: 900000, level: "exploration", rule: "", real: REAL, stub: STUB, wants: &["overlapping-calls"] },
    ]
}

fn main() {
    start::main(specs())
}
