#!/usr/bin/env python3
"""Writes MANIFEST.json. The checks listed here are the ones that are built."""
import json, os
CHECKS = {}
def c(pid, technique, level, note, tool="tools/check.sh"):
    CHECKS[pid] = dict(property=pid, quick_cmd=f"bash {tool} {pid}", thorough_cmd=f"bash {tool} {pid}",
                       evidence_file=f"evidence/{pid}.json", technique=technique, level=level, level_note=note)
COMMON = (" Real: all of ruler, egg, rayon, std and serde_json; simulated: everything below libc (threads, futexes, clock, randomness, files)"
          " and, except in the bit-vector runs, the solver. Sampled, not exhaustive; threads interleave at synchronisation, file, solver, clock and (seeded) allocation points.")
D = "deterministic simulation with fault injection: "
c("C01", D + "seeded solver time-outs, solver failures, clock jumps and schedules over whole inferences; learned rules compared with the simulated validator's answer log and with exact semantics", "exploration",
  "No unaffirmed rule in any explored inference." + COMMON)
c("C02", D + "seeded solver time-outs and saturation cut-offs over minimisations; every candidate accounted for against a reference e-graph", "exploration",
  "No candidate lost, invented or wrongly reported in any explored minimisation." + COMMON)
c("C17", D + "growing phase cut off by limits, clock and solver; operators and completeness against a reference e-graph", "exploration",
  "Fast-forwarding kept its promises in every explored run; completeness is judged for uncut runs that fit the reference e-graph." + COMMON)
c("C21", D + "seeded solver answers and latencies over minimisations; redundancy judged by a reference e-graph in learning order", "exploration",
  "No redundant rule in any explored uncut minimisation that fits the reference e-graph." + COMMON)
c("C26", D + "seeded solver time-outs and latencies, clocks inside the budget and schedules over whole inferences; every pair of workload terms that look alike accounted for against the validator's answer log and a reference e-graph", "exploration",
  "Nothing missed in any explored uncut inference that fits the reference e-graph." + COMMON)
c("C11", D + "short, interrupted and failing file operations while saving and loading rulesets, restarts; bytes and loaded rules compared with the ruleset", "exploration",
  "Every explored save/load round trip was exact or reported the failure." + COMMON)
c("C12", D + "short, interrupted and failing file operations while saving and loading workloads, restarts; bytes and loaded terms compared with the workload", "exploration",
  "Every explored save/load round trip was exact or reported the failure." + COMMON)
c("C13", D + "process kills, power losses and failing file operations at seeded points of save histories over a volatile/durable file-system model", "exploration",
  "Old or new contents after every explored crash." + COMMON)
c("C14", D + "histories of report calls with kills, power losses, failing file operations and restarts; rows checked against a reference list after every step", "exploration",
  "No recorded row lost or changed in any explored history." + COMMON)
c("C15", D + "concurrent report calls under a seeded scheduler with stalls and short I/O; rows checked against the call history (conservation and real-time order)", "exploration",
  "Every explored concurrent history left each row exactly once, in an order that respects real time." + COMMON)
c("C16", D + "report calls under a simulated clock with jumps and slow solvers; row contents recomputed and times matched against the recorded clock readings", "exploration",
  "Rows told the truth in every explored call." + COMMON)
c("C19", D + "short, interrupted and failing reads while counting lines; result compared with the bytes on the simulated disk", "exploration",
  "Exact count or reported failure in every explored call; no endless reading." + COMMON)
c("C03", D + "saturations and minimisations under a simulated clock that runs slowly, stalls or jumps, and under solver time-outs; iterations, clock readings, queries and results compared with a reference e-graph", "exploration",
  "Every explored run kept its budgets and was not cut short." + COMMON)
c("C04", D + "compression cut off by limits and by the simulated clock; classes and merges compared with the input and with plain saturation", "exploration",
  "Compression kept its promises in every explored run." + COMMON)
c("C05", D + "saturation cut off by limits and by the simulated clock at seeded readings; every equality judged by exact semantics and by a reference e-graph", "exploration",
  "No unsound merge in any explored run." + COMMON)
c("C06", D + "saturation under seeded clocks, limits and worker schedules; the result compared with the input and with a reference e-graph", "exploration",
  "Nothing lost or overdone in any explored run; completeness is judged for uncut runs that fit the reference e-graph." + COMMON)
c("C07", D + "parallel derivability checks under seeded worker schedules, stalls and clock jumps; verdicts compared with undisturbed single checks, a reference e-graph and exact semantics", "exploration",
  "Right verdicts in every explored run." + COMMON)
c("C08", D + "partition over the real work-stealing pool under a seeded scheduler with stalls, spurious wake-ups and nested calls; evaluations and parts compared with the predicate", "exploration",
  "Exact and ordered in every explored schedule." + COMMON)
c("C09", D + "panics injected into predicates, interpreter and validator at seeded points under seeded schedules; the same call repeated and compared with a fresh process", "exploration",
  "Every explored failure surfaced and was contained." + COMMON)
c("C10", D + "the same call in processes that differ in schedule, worker count, clock, solver latency, hash seeds and addresses; ordered results compared", "exploration",
  "Same results in every explored pair of executions." + COMMON)
c("C18", D + "e-graphs built and saturated under seeded clock cut-offs and limits; facts of every class judged by exact evaluation", "exploration",
  "True facts in every explored e-graph." + COMMON)
c("C20", D + "concurrent calls of all kinds under a seeded scheduler with stalls, short I/O and solver delays; each compared with itself running alone", "exploration",
  "Undisturbed in every explored interleaving." + COMMON)
NA = {}
for pid, why in [
    ("C22", "Pure function of its inputs: no concurrency, time, I/O, randomness or failure can influence Workload::force, so there is nothing for a simulator to control (workloads are exercised as input data by other checks)."),
    ("C23", "Pure function of its inputs: printing and parsing involve no nondeterminism or fault (rule and term files under faulty I/O are C11 and C12)."),
    ("C24", "Agreement of two pure evaluators for every bit-vector width is a question of input coverage or proof; no schedule, clock, crash or I/O fault is involved (solver time-outs are C01)."),
    ("C25", "Pure function of an e-graph: no nondeterminism or fault is involved in matching characteristic vectors."),
]: NA[pid] = why
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash tools/build.sh", "checks": [CHECKS[i] for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in CHECKS],
     "notes": "No hooks in /repo are needed: the simulator replaces libc below the unmodified code, and the domain plugs in through ruler's SynthLanguage trait. Exit 2 means the machinery itself failed. VERIF_SEED selects the runs; SIM_RUNS and SIM_WALL override the number of runs and the time limit in seconds."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [n["property"] for n in m["not_applicable"]])
