#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))

RS, SC, RU, WL = "src/enumo/ruleset.rs", "src/enumo/scheduler.rs", "src/enumo/rule.rs", "src/enumo/workload.rs"
LA, LO, UT, RE, BV, LI = "src/language.rs", "src/logger.rs", "src/util.rs", "src/recipe_utils.rs", "src/bv.rs", "src/lib.rs"

prop("C01", "Only rules the validator affirmed are ever learned",
 "Every rule that rule inference returns as newly learned (by minimising candidates, by running a workload, by fast-forwarding, or by recursive rule construction) was answered 'valid' by the domain's validator during that inference; a rule answered 'invalid' or 'unknown' (for example because the solver timed out) is never learned. The same holds for bit-vector domains when the SMT solver gives up on any query, and for the ported rules that a bit-vector report lists as sound. A validator failure (a panic) surfaces to the caller and never turns into a learned rule.",
 ["inputs", "fault_sequences", "schedules"],
 "all candidate sets, priors and workloads of a domain; all sequences of solver answers, delays, time-outs and failures; all schedules of the worker threads that evaluate rules",
 "The tests run each domain with one healthy, fast solver; none makes the solver time out or fail in the middle of an inference, so the 'unknown' path of selection is never executed.",
 [RS, RU, RE, BV, LO],
 [("select() keeps only rules with is_valid()", RS), ("is_valid() accepts only ValidationResult::Valid", RU), ("SatResult::Unknown maps to ValidationResult::Unknown", BV), ("sound_bv4 partition", LO)],
 ["return values of minimize/run_workload/run_fast_forwarding/recursive_rules", "from_bv4 list of a bv report row", "validator call log"])

prop("C02", "Minimisation accounts for every candidate",
 "When a candidate set is minimised against prior rules, every candidate ends up learned, or reported as rejected, or its two sides are provably equal using the prior and learned rules (as those of a candidate that is itself a prior rule are); none disappears. Learned rules are candidates and are not prior rules, and the rejected set contains only candidates whose validation did not succeed. This holds for every pattern of solver time-outs and wherever saturation is cut off by a resource or time limit.",
 ["inputs", "fault_sequences"],
 "all candidate and prior sets; all solver answer sequences; all points at which saturation is cut off by iteration, node, match or time limits",
 "Tests check the size of a few final rulesets for healthy solvers and generous limits; they never look at the rejected set, nor cut saturation off midway.",
 [RS, SC], [("select() / invalid set", RS), ("shrink() drops only merged candidates", RS), ("Compress scheduler", SC)],
 ["return value (learned, rejected) of minimize", "validator call log"])

prop("C03", "Saturation and inference stop within their budgets and not early",
 "Rule inference terminates with at most two validator queries per candidate, however the solver answers. Every phase of equality saturation stops once ten minutes have passed on the clock since it began, even with rules that never saturate, and never exceeds its iteration limit; as long as the clock stays inside the budget and no other limit is reached, it is not cut short and its result does not depend on the clock.",
 ["inputs", "fault_sequences", "configurations"],
 "all rulesets (including ones that grow forever), limits, solver answers, and clock behaviours (slow, stalled, jumping forwards)",
 "No test controls the clock: the ten-minute limit is never reached in the suite, and tests cannot observe that a limit was ignored except by hanging.",
 [SC, RS], [("get_runner with_time_limit/with_iter_limit/with_node_limit", SC), ("minimize loop pops at least one candidate per round", RS)],
 ["number of clock reads and simulated time consumed by Scheduler::run", "validator call log", "resulting e-graph"])

prop("C04", "Compression merges classes without growing the e-graph",
 "Compressing an e-graph with a ruleset never adds an e-class or (other than the domain's own constant folding) an e-node: every class of the result is a union of classes of the input, the input e-graph is left unchanged, and two input classes are merged whenever plain equality saturation with the same rules and limits would merge them. This holds wherever the underlying saturation is cut off by an iteration, node, match or time limit.",
 ["inputs", "fault_sequences", "configurations"],
 "all e-graphs, rulesets and limits; all instants at which the time limit strikes",
 "The suite only sees compression indirectly, through counts of rules learned with default limits that are never hit.",
 [SC], [("Scheduler::Compress: run on a clone, then union the input ids", SC)],
 ["e-graph returned by Scheduler::Compress(..).run", "input e-graph afterwards"])

prop("C05", "Saturation is sound wherever it is cut off",
 "With every scheduling strategy, two terms end up in the same class only if their equality follows from the equalities of the starting e-graph and the rules that were run (plus the domain's own constant folding). This holds for every combination of iteration, node and match limits and for every instant at which the time limit strikes, including between or inside the phases of a multi-phase schedule.",
 ["inputs", "fault_sequences", "configurations", "schedules"],
 "all starting e-graphs, rulesets sound in some algebra, strategies, limits, time-limit instants and worker schedules",
 "Tests run sound rule sets to completion on a few workloads; a wrong merge that happens only when a run is interrupted between phases is invisible to them.",
 [SC, RU, LA], [("Rhs applier unions matched class and instantiated rhs", RU), ("Scheduler::run_internal", SC)],
 ["e-graph returned by Scheduler::run"])

prop("C06", "Saturation never loses terms or equalities and respects its limits' meaning",
 "With every scheduling strategy, each term represented in the starting e-graph is still represented in the result and terms equal before are equal after, for the same handles; the input e-graph itself is never modified. When no limit is reached the result contains exactly the consequences that the strategy is documented to find: plain saturation applies every rule once per iteration, and the saturating strategy alternates full saturation of the non-growing rules with single rounds of the others.",
 ["inputs", "fault_sequences", "configurations", "schedules"],
 "all starting e-graphs, rulesets, strategies and limits; all time-limit instants; all worker schedules while rules are classified",
 "Existing tests compare sizes of final rulesets; nothing compares the saturated e-graph against what the strategy must produce, nor looks at interrupted runs.",
 [SC, RU], [("Scheduler::Simple / Saturating / Compress", SC), ("is_saturating()", RU)],
 ["e-graph returned by Scheduler::run", "lookup of every starting term"])

prop("C07", "Derivability verdicts are right",
 "If a ruleset is reported to derive a rule, then the rule's two sides are provably equal from that ruleset; and without a clock fault, a rule is reported derivable exactly when the documented procedure (instantiate left, or left and right side, run the saturating schedule within the given limits, compare) merges both sides. A slow machine or an expired time budget can only turn a positive verdict into a negative one, never the reverse (unless a node or match limit is what made the verdict negative; a positive one is provable even then), and verdicts do not depend on how the per-rule checks are spread over worker threads.",
 ["inputs", "fault_sequences", "schedules"],
 "all pairs of rulesets, both derivability types, all limits; all clock behaviours; all worker counts and schedules",
 "Tests compare counts of derivable rules for a handful of recipes on a machine that is fast enough; they cannot tell a wrong 'derivable' from a right one.",
 [RS, SC], [("can_derive / derive", RS), ("run_derive stop hook", SC)],
 ["return values of can_derive and derive"])

prop("C08", "Parallel partition is exact, ordered and schedule-independent",
 "Partitioning a ruleset by a predicate evaluates the predicate exactly once on every rule, puts each rule into precisely the part its answer calls for, and keeps the original relative order in both parts. The outcome is the same for every number of worker threads and every way their work is scheduled or stalled.",
 ["schedules", "inputs", "configurations"],
 "all rulesets and predicates; all worker counts, schedules, preemption points, stalls and spurious wake-ups",
 "A test sees whichever schedule the machine happens to produce; a rule lost or reordered only under a rare steal order will not show up.",
 [RS], [("Ruleset::partition over rayon", RS)],
 ["return value of partition", "predicate call log"])

prop("C09", "A failure inside one rule check is contained",
 "If the predicate or validator panics on some rule while rules are processed in parallel or inference runs, the call neither hangs nor returns a partial result: the panic reaches the caller. Inputs passed by shared reference are unchanged, and repeating the call afterwards in the same process gives the result a fresh process would give.",
 ["fault_sequences", "schedules"],
 "all sets of rules on which the predicate, validator, interpreter or solver panics; all schedules of the workers at that moment",
 "No test makes a rule check fail.",
 [RS, RE, LO], [("rayon panic propagation in partition", RS), ("no partially updated shared state in minimize / run_workload", RE)],
 ["outcome (return or panic) of partition, derive, minimize, run_workload and of a repeated call"])

prop("C10", "Rule inference is reproducible",
 "Running the same inference, derivability, partition or candidate-generation call on the same inputs yields the same rules in the same order, regardless of the number of worker threads, how they are scheduled, the values the clock shows within the time budget, how fast the solver answers, or the per-process random seeds of hash maps. Repeating the call in the same process yields the same result as well.",
 ["schedules", "configurations", "histories"],
 "all workloads, priors and limits not cut off by time; all worker counts, schedules, clock readings within budget, solver latencies, hash seeds",
 "A unit test runs once per process with the machine's schedule and clock, so it cannot compare two executions that differ only in those.",
 [RE, RS, SC, LI], [("deterministic FxHash/IndexMap containers", LI), ("order-preserving partition", RS), ("stable sort by score in select", RS)],
 ["ordered rule names returned by run_workload, run_fast_forwarding, recursive_rules, minimize, derive, cvec_match, extract_candidates"])

prop("C11", "A saved ruleset loads back exactly, or the failure is reported",
 "Saving a ruleset and loading it returns the same rules in the same order, also when reads and writes are short or interrupted. If an I/O error (disk full, failed open, failed write, failed read) affects the call, the call reports it by panicking; it never returns normally with rules missing, altered or invented.",
 ["inputs", "fault_sequences"],
 "all rulesets; all sequences of short, interrupted or failing file operations during save and load",
 "The tests write two small files on a healthy disk; no short write, EINTR, ENOSPC or EIO ever happens.",
 [RS], [("Ruleset::to_file / from_file", RS)],
 ["file contents after to_file", "return value or panic of to_file / from_file"])

prop("C12", "A saved workload loads back exactly, or the failure is reported",
 "Saving a workload and loading it returns the same terms in the same order as the workload denotes, also when reads and writes are short or interrupted. If an I/O error affects the call, the call reports it by panicking; it never returns normally with terms missing, altered or invented.",
 ["inputs", "fault_sequences"],
 "all workloads; all sequences of short, interrupted or failing file operations during save and load",
 "The tests never exercise a failing or interrupted file operation for workloads.",
 [WL], [("Workload::to_file / from_file", WL)],
 ["file contents after to_file", "return value or panic of to_file / from_file"])

prop("C13", "A crash during save leaves the old or the new file",
 "If the process is killed, the machine loses power, or the disk fails at any point while a ruleset or workload is being saved, then afterwards the file of that name is exactly what it was before (absent if it did not exist) or exactly the complete new contents. Loading it therefore never yields a mixture, a truncated list or a rule that was in neither version.",
 ["crash_points", "fault_sequences", "histories"],
 "all rulesets and workloads, all previous file contents, all crash points (including in the middle of a write) and power losses, all failing file operations, repeated saves and restarts",
 "No test kills the process in the middle of a save.",
 [RS, WL], [("to_file replaces the file atomically", RS), ("to_file replaces the file atomically", WL)],
 ["file contents after restart", "from_file after restart"])

prop("C14", "The nightly report never loses a recorded row",
 "Each report call appends exactly one row to the nightly data file, which stays a well-formed JSON array with all earlier rows unchanged (times up to floating-point rounding) and in order. If the call fails (disk full, I/O error), is killed, or power is lost at any point, the file afterwards still contains every earlier row and at most the one new row in addition; the report call that follows succeeds once the fault is gone. (The row of a call that failed or was killed may be there or not, also after a later power loss, until a later call has completed.)",
 ["crash_points", "fault_sequences", "histories"],
 "all histories of report calls interleaved with process kills (in the middle of any file operation), power losses, failing, short and interrupted file operations, and restarts",
 "No test calls the logger at all.",
 [LO], [("add_json_to_file: read, append, replace", LO)],
 ["nightly/data/output.json after each call and after each restart"])

prop("C15", "Concurrent report calls each add exactly one row",
 "When several threads of a process report results at the same time, every call returns normally and afterwards the file is a well-formed JSON array that holds all earlier rows and exactly one row per call, in an order consistent with the calls' real-time order. This holds for every interleaving of their file operations.",
 ["schedules", "histories"],
 "all numbers of threads and report calls, all interleavings at file operations and preemption points, spurious wake-ups, interrupted and short file operations",
 "No test calls the logger, and no test owns the thread schedule.",
 [LO], [("add_json_to_file is serialised within the process", LO)],
 ["nightly/data/output.json after all threads finish", "return or panic of each call"])

prop("C16", "Report rows tell the truth",
 "A report row records exactly what was measured: the names given, every rule of the given ruleset in order, derivable and non-derivable lists that are an exact, ordered partition of the rules tested and agree with separately computed verdicts for that direction and derivability type, the line count of the recipe (or '-'), and times equal to what the clock showed over the measured phase. Values from the caller are stored unchanged, and pairs excluded from derivability testing have empty entries in that direction only.",
 ["inputs", "schedules", "fault_sequences"],
 "all rulesets, names and durations; all worker schedules, clock jumps and solver delays during the report; both directions and both derivability types",
 "No test calls the logger; the nightly data is only looked at by people and a web page.",
 [LO, UT], [("write_baseline / write_bv_derivability / write_ff_phase", LO), ("get_derivability", LO), ("count_lines", UT)],
 ["the last row of nightly/data/output.json"])

prop("C17", "Fast-forwarded rules only use allowed operators",
 "Fast-forwarding returns only rules both of whose sides are built from allowed operators and have been validated, whatever limits or time-outs cut the growing phase short. Every returned rule follows from the prior, exploratory and previously returned rules together with the workload's terms; with no cut-off, equalities between workload terms that the exploratory rules establish, and that can be stated as a rule because both sides have the same variables, are learned or follow from what is returned plus the prior rules.",
 ["inputs", "fault_sequences", "configurations"],
 "all workloads, priors, exploratory rules and sets of allowed operators; all limits and time-limit instants; all solver answers",
 "Tests run two recipes to completion and compare rule counts; the solver never times out and the growing phase is never interrupted by the clock.",
 [RE, RS, LI], [("extract_candidates skips classes without an allowed term", RS), ("ExtractableAstSize", LI), ("is_allowed_rewrite filter of prior", RE)],
 ["return value of run_fast_forwarding"])

prop("C18", "E-class facts stay true wherever a run is cut off",
 "After building or saturating an e-graph by any strategy, and wherever limits or the clock cut it off, each class's characteristic vector has the right length and agrees at every defined position with evaluating any term of the class at that sample, its representative simplest term is a term of that class, and its interval contains every value the class can take. Parent facts are up to date with their children's facts.",
 ["inputs", "fault_sequences", "configurations"],
 "all workloads and rulesets sound in the domain, all strategies, limits and time-limit instants, with and without constant folding",
 "Tests look at the facts of a few hand-built e-graphs at most; an interrupted run's facts are never inspected although candidates are computed from them.",
 [LA, SC, WL], [("SynthAnalysis make/merge/modify", LA), ("runner.egraph.rebuild() after each strategy", SC), ("initialize_vars before terms", WL)],
 ["analysis data of each class in the returned e-graph"])

prop("C19", "Recipe line counts are exact or absent and never hang",
 "Counting the lines of a recipe returns the file's exact number of lines, also when reads are short or interrupted, and reports absence if the file cannot be opened or read. It always terminates, even if the storage device keeps returning errors.",
 ["inputs", "fault_sequences"],
 "all file contents and all sequences of short, interrupted, failing and persistently failing reads",
 "No test lets a read fail; a persistent read error is needed.",
 [UT], [("count_lines", UT)],
 ["return value and termination of count_lines"])

prop("C20", "Independent calls in one process do not disturb each other",
 "When several threads of a process run inferences, saturations, derivability checks, saves and loads of different files, or workload materialisations at the same time, each call returns exactly what it returns when it runs alone. No interleaving makes one of them hang, panic, or see another's rules, validator answers or files.",
 ["schedules", "histories"],
 "all sets of concurrent calls with distinct inputs and files; all interleavings at synchronisation points, file operations, allocations and solver calls; shared and contended worker pools",
 "Cargo runs some tests in parallel, but the schedule is whatever the machine does, results are compared only by size and each test has its own inputs.",
 [RS, SC, RE, WL], [("no shared mutable state besides the interner and the worker pool", LI), ("work-stealing pool used by partition", RS)],
 ["return value of each concurrent call"])

prop("C21", "Learned rules are not redundant",
 "Each rule learned by minimisation was not already provable, within the minimisation limits, from the prior rules and the rules learned before it at the time it was chosen, except for the first rule chosen and for a rule learned together with its own reverse. This holds when no time-out interrupts the minimisation, whatever the solver answered for other candidates and however long it took.",
 ["inputs", "fault_sequences"],
 "all candidate sets, priors and limits; all solver answer sequences and latencies that stay inside the time budget",
 "Tests compare the number of learned rules for a few domains with a healthy solver; a rule that slips through only after a solver time-out is not seen.",
 [RS, SC], [("shrink() removes candidates merged by chosen rules", RS), ("minimize() accumulates chosen rules", RS)],
 ["learned rules of minimize", "validator call log (selection order)"])

prop("C26", "Inference misses nothing but what the validator declined",
 "With no cut-off by a resource or time limit, any two terms of the workload that are defined at all of the domain's samples, that the samples do not tell apart, and whose equality can be stated as a rule are, after the inference, provably equal from the prior and the learned rules together with the equalities the validator was heard to decline (answered invalid or unknown). A time-out of the solver thus costs at most the candidates it was asked about. This holds for plain inference with either way of finding candidates and, size by size, for recursive rule construction, whose result also contains the prior rules and everything learned at smaller sizes; it holds for every schedule, solver latency and clock inside the time budget.",
 ["inputs", "fault_sequences", "configurations", "schedules"],
 "all workloads, prior rules and grammars; all solver answer sequences and latencies; all clocks inside the budget",
 "Tests compare rule counts for a few domains with a healthy solver; they cannot tell whether a missing rule was redundant, declined or lost.",
 [RE, RS], [("run_workload, recursive_rules: compress, match, minimise", RE), ("cvec_match and fast_cvec_match propose candidates", RS), ("select() and shrink() dispose of candidates", RS)],
 ["rules returned by run_workload and recursive_rules", "validator answer log"])

prop("C22", "Workload algebra denotes the right set of terms",
 "Combining workloads by plugging, appending and filtering denotes exactly the terms that substituting, concatenating and testing each term one by one would give, including when filters are pushed down.",
 ["inputs"], "all workload expressions and filters",
 "Tests sample a few workloads.", [WL, "src/enumo/filter.rs", "src/enumo/sexp.rs"],
 [("push-down of monotonic filters", WL)], ["Workload::force"])
prop("C23", "Printing and parsing rules, terms and patterns are inverse",
 "Every rule, term, pattern and filter that can be printed parses back to an equal one.",
 ["inputs"], "all rules, terms and patterns", "Tests sample a few strings.",
 ["src/enumo/sexp.rs", "src/enumo/pattern.rs", RU], [("FromStr / Display", "src/enumo/sexp.rs")], ["parse and to_string"])
prop("C24", "Bit-vector interpreter and validator agree",
 "For every width, a rule the bit-vector validator accepts holds for all values under the interpreter, and one it refutes has a counterexample under the interpreter.",
 ["inputs"], "all bit-vector rules, widths and values", "Tests check a handful of operations for one width.",
 [BV], [("impl_bv eval and egg_to_z3", BV)], ["validate, eval"])
prop("C25", "Characteristic-vector matching proposes every matching pair",
 "Every pair of classes whose characteristic vectors agree as documented is proposed as a candidate in both directions, and no other pair is.",
 ["inputs"], "all e-graphs with characteristic vectors", "Tests see only final rule counts.",
 [RS], [("cvec_match / fast_cvec_match", RS)], ["candidates returned"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
