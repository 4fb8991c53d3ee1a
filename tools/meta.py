#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state))

TEST = "The regression suite runs a fixed set of hand-written designs with one expected output each; "

prop("C01", "Drivers follow the projected-waveform rules",
     "For every sequence of inertial, rejecting, transport, multi-element and null waveform assignments that the drivers of a signal execute, every value the signal takes and the time and delta cycle at which it takes it are those of the LRM's projected output waveform rules. A preempted transaction never takes effect and a surviving transaction takes effect exactly once.",
     ["histories", "programs"], "all histories of assignments (delays, pulse rejection limits, waveform elements, times and delta cycles at which they execute) on scalars, whole composites, elements and slices of every storage width",
     TEST + "the rule depends on the whole history of a driver, of which it samples a few dozen", ["src/rt/model.c", "src/rt/heap.c"],
     [("transaction queue editing", "src/rt/model.c insert_transaction, sched_driver"), ("nexus splitting with transactions in flight", "src/rt/model.c split_nexus, clone_nexus")],
     ["value and time of every event of a signal, printed by processes of the design"],
     "runtime trace monitor against a reference driver model", "Exploration: seeded random assignment histories executed by the real kernel; every event compared with an independent per-element driver model.")
prop("C02", "Resolution and port connections compute the LRM's values",
     "For every network of drivers, resolution functions, port connections (whole, by element, slice, record field, with conversions, any mode, any depth), the driving and the effective value of every connected signal at every instant is what the LRM's propagation rules give. It does not depend on whether ports are collapsed into one signal.",
     ["programs", "histories", "configurations"], "all hierarchies, driver sets, resolution functions, port association forms and driver histories; port collapsing on and off",
     TEST + "the number of combinations of association forms, splits and driver histories is unbounded", ["src/rt/model.c", "src/lower.c", "src/elab.c"],
     [("resolution memoisation and fast paths", "src/rt/model.c memo_resolution_fn, call_resolution"), ("port conversion and collapsing", "src/rt/model.c map_signal, src/lower.c lower_port_map")],
     ["events printed by monitors on every level of the hierarchy", "nvc -e --no-collapse"],
     "runtime trace monitor against a reference network model, differential over collapsing", "Exploration: random networks and driver histories; events on every level of the hierarchy compared with a reference propagation and between collapsing modes.")
prop("C03", "The simulation cycle resumes processes exactly when due",
     "Every process resumes exactly in the cycles in which its wait statement, sensitivity list, condition or timeout requires it, all processes of a delta cycle see the same signal values, postponed processes run once in the last delta cycle of a time point, and time and delta counters never go backwards or skip an activity. The outcome does not depend on the order in which processes of a cycle execute.",
     ["schedules", "programs", "histories"], "all sets of processes with any mixture of wait forms, postponed processes, zero and non-zero delays",
     TEST + "a lost or duplicated wake-up appears only for particular interleavings of timeouts and events", ["src/rt/model.c", "src/rt/heap.c", "src/lower.c"],
     [("wake-up and sensitivity lists", "src/rt/model.c wakeup_one, sched_event, clear_event"), ("event heap and delta queues", "src/rt/model.c model_cycle, src/rt/heap.c"), ("fused trigger conditions", "src/rt/model.c x_function_trigger, x_or_trigger, x_cmp_trigger")],
     ["time, delta cycle, and values seen at every resumption of every process"],
     "runtime trace monitor against a reference scheduler", "Exploration: random process networks; complete resumption logs compared with a reference implementation of the LRM simulation cycle.")
prop("C04", "Signal attributes report the true history of a signal",
     "For every signal, element, slice or composite and every history, 'event, 'active, 'last_event, 'last_active, 'last_value, 'driving, 'driving_value and the implicit signals 'delayed, 'stable, 'quiet and 'transaction have, at every point of the simulation, the values the LRM defines from that history.",
     ["histories", "programs"], "all driver histories and all observation points, for scalar and composite prefixes",
     TEST + "most attributes are tested on one scalar with a handful of transitions", ["src/rt/model.c", "src/lower.c"],
     [("last value and event bookkeeping per nexus", "src/rt/model.c x_last_event, x_last_active, update_driving, nexus_last_value"), ("implicit signals", "src/rt/model.c update_implicit_signal, x_implicit_signal")],
     ["attribute values printed at chosen instants"],
     "runtime trace monitor against a reference signal history", "Exploration: attribute values sampled by processes at random instants against values computed from the reference history.")
prop("C05", "Force and release override exactly while forced",
     "While a signal or a part of it is forced its effective value is the forced value regardless of drivers, releasing restores the value its drivers give at that time, forcing a part never changes another part, and a driving-value force is distinguished from an effective-value force as the LRM requires.",
     ["histories"], "all interleavings of force, release and driver assignments on scalars, elements and composites",
     TEST + "three fixed designs use force", ["src/rt/model.c", "src/lower.c"],
     [("forcing pseudo sources", "src/rt/model.c x_force, x_release, sched_force")],
     ["events of the forced signals printed by monitors"],
     "runtime trace monitor against a reference signal model", "Exploration: random interleavings of force, release and assignment compared with a reference model of forced signals.")
prop("C06", "Scalar expressions evaluate to the LRM's values",
     "For every operand value and every composition of operators, the value of an integer, enumeration, physical or floating-point expression is that of the mathematical definition in the LRM, in every place where it may occur and however the compiler folds, narrows or reorders its evaluation.",
     ["programs", "inputs"], "all types (ranges, bases, widths), operators, operand values, constant and variable operands",
     TEST + "faults of constant folding and type narrowing need a particular operator, width and operand value together", ["src/vcode.c", "src/simp.c", "src/eval.c", "src/lower.c", "src/mir/mir-node.c", "src/jit/jit-interp.c", "src/jit/jit-irgen.c", "src/jit/jit-optim.c", "src/vhdl/vhdl-predef.c"],
     [("constant folding", "src/simp.c, src/vcode.c, src/mir/mir-node.c"), ("value range inference", "src/vcode.c, src/mir/mir-type.c")],
     ["values printed by the running design"], "random programs with a reference interpreter as runtime oracle",
     "Exploration: thousands of random programs a run; every printed value compared with an independent reference interpreter.")
prop("C07", "Arrays, records and strings keep the LRM's values",
     "Indexing, slicing, assignment (also overlapping), aggregates, concatenation, comparison, logical and shift operations, conversions and attributes of arrays and records of any shape produce exactly the elements the LRM defines, for every bound, direction, null range and nesting.",
     ["programs", "inputs"], "all array and record shapes, bounds, directions and operations",
     TEST + "bounds, directions and element layouts combine without limit", ["src/lower.c", "src/vcode.c", "src/vhdl/vhdl-predef.c", "src/jit/jit-irgen.c", "src/simp.c"],
     [("array layout and copies", "src/lower.c lower_array_aggregate, lower_coerce_arrays; src/jit/jit-irgen.c"), ("predefined operators", "src/vhdl/vhdl-predef.c")],
     ["values printed by the running design"], "random programs with a reference interpreter as runtime oracle",
     "Exploration: random programs over random composite types compared element by element with the reference interpreter.")
prop("C08", "Constraint violations stop the simulation, and only they do",
     "Whenever execution would give an object a value outside its subtype, index outside an array, combine arrays of unequal length, divide by zero or overflow, the run ends with an error at that statement, naming the offending value and before any later effect. No run without such a violation is stopped.",
     ["programs", "inputs"], "all constraint kinds, positions, values and the statements leading there",
     TEST + "each check is tested with a constant or two, while the compiler removes checks according to inferred ranges", ["src/lower.c", "src/vcode.c", "src/bounds.c", "src/jit/jit-exits.c", "src/mir/mir-node.c"],
     [("check elision", "src/vcode.c emit_range_check, emit_index_check; src/lower.c lower_check_scalar_bounds"), ("overflow traps", "src/vcode.c emit_trap_add; src/jit/jit-irgen.c")],
     ["exit status, diagnostic, its line and value, output before it"], "random programs with a reference interpreter as runtime oracle",
     "Exploration: random programs with possibly violating statements; the reference decides whether, where, and with which value the run must stop. Copy-back of out parameters, aggregate elements and two overflow cases are known findings.")
prop("C09", "Statements and subprograms execute in the LRM's order",
     "Control flow (if, case of any selector, loops with exit and next, return), subprogram calls with every parameter class and mode, recursion, overloading, nested scopes and suspension inside procedures execute exactly the statements, with exactly the bindings, that the LRM prescribes.",
     ["programs", "inputs"], "all statement nestings, selector types and values, parameter modes and call depths",
     TEST + "case lowering picks among several encodings by the shape of the choices", ["src/lower.c", "src/simp.c", "src/mir/mir-node.c", "src/jit/jit-irgen.c", "src/jit/jit-optim.c"],
     [("case statement encodings", "src/lower.c lower_case_array, lower_case_scalar"), ("procedures that suspend", "src/lower.c lower_pcall, src/jit")],
     ["trace of executed statements and values"], "random programs with a reference interpreter as runtime oracle",
     "Exploration: random control-flow programs print a trace that must equal the reference interpreter's.")
prop("C10", "All execution engines give the same result",
     "A design produces the same output, the same diagnostics and the same exit status whether it is interpreted, compiled just in time synchronously or in the background, compiled ahead of time at any optimisation level, or run with garbage collection at any frequency.",
     ["configurations", "programs", "schedules"], "all programs, all engines and thresholds, all points at which background code or the collector cuts in",
     TEST + "the suite runs each design with one engine setting", ["src/jit/jit-core.c", "src/jit/jit-llvm.c", "src/jit/jit-interp.c", "src/jit/jit-code.c", "src/jit/jit-optim.c", "src/rt/mspace.c", "src/jit/jit-pack.c", "src/cgen.c"],
     [("tier-up and code installation", "src/jit/jit-core.c jit_tier_up"), ("code generation", "src/jit/jit-llvm.c"), ("conservative collector", "src/rt/mspace.c")],
     ["output, diagnostics and exit status of every engine"], "differential execution with a reference interpreter as runtime oracle",
     "Exploration: the programs of the other checks run under every engine, each compared with the reference and so with one another.")
prop("C11", "IEEE library operations match the packages' definition",
     "Every function of std_logic_1164, numeric_std, numeric_bit and the unsigned arithmetic packages returns what the IEEE standard's package defines for every operand, length, direction and metavalue, whether it runs as VHDL source or as a built-in replacement.",
     ["inputs", "configurations"], "all operand values, lengths, directions, metavalues, with built-in replacements on and off",
     TEST + "built-in replacements are exercised on a few operands each", ["src/jit/jit-intrin.c", "lib/ieee"],
     [("built-in replacements of package functions", "src/jit/jit-intrin.c")],
     ["values printed by the running design"], "runtime monitor comparing built-in and source execution with a reference",
     "Exploration: random operands; a Python reference for the nine-valued logic and arithmetic, and the two implementations against each other.")
prop("C12", "Heap objects live exactly as long as they are reachable",
     "Objects created by allocators and reached through access values, protected types, lines and strings keep their identity and contents until deallocated or unreachable, under any heap size and any timing of garbage collection, and a null dereference is always reported.",
     ["histories", "schedules", "configurations"], "all mutation histories of heap graphs, all collection points",
     TEST + "few tests allocate enough to collect more than once", ["src/rt/mspace.c", "src/lower.c", "src/jit/jit-exits.c"],
     [("conservative mark and sweep", "src/rt/mspace.c mspace_gc"), ("roots on stacks and in the anchor chain", "src/jit/jit-core.c, src/jit/jit-interp.c")],
     ["values printed by the running design", "collector statistics"], "random heap mutation programs with a reference heap as runtime oracle",
     "Exploration: random linked structures mutated under stress collection and small heaps; printed contents compared with a reference heap.")
prop("C13", "Text and file operations round-trip values",
     "'image, 'value, to_string, justify, read, write and the file operations convert and transfer every value as the LRM defines: what one writes the other reads back, and malformed input is rejected without disturbing other objects.",
     ["inputs", "histories"], "all values, formats, field widths, malformed strings and file operation sequences",
     TEST + "formatting and parsing of numbers is sampled on a few constants", ["lib/std", "lib/nvc", "src/rt/fileio.c", "src/vhdl/vhdl-predef.c", "src/rt/standard.c"],
     [("text I/O packages", "lib/std/textio-body.vhd"), ("file operations", "src/rt/fileio.c")],
     ["strings and values printed by the design", "bytes of the files it writes"], "runtime monitor against a reference formatter, parser and file model",
     "Exploration: random values, strings and operation sequences against reference implementations in Python.")
prop("C14", "Elaboration builds the described hierarchy",
     "For every design, elaboration creates exactly the instances, generate branches and iterations, generic values, port and default bindings, configurations and constants that the source describes, and names them as the LRM prescribes.",
     ["programs", "configurations"], "all hierarchies of entities, components, configurations, generates, blocks, packages and generics",
     TEST + "sharing and caching of elaborated instances depends on the combination of generics", ["src/elab.c", "src/simp.c", "src/names.c"],
     [("instance copying and simplification per generic value", "src/elab.c elab_architecture, elab_copy"), ("binding", "src/elab.c elab_default_binding")],
     ["instance names, generic values and connections printed by every instance"], "runtime self-report of every instance compared with a reference elaborator",
     "Exploration: random hierarchies; each instance reports its path and generics and the multiset must equal the reference's.")
prop("C15", "Waveform dumps record exactly the simulated history",
     "For every design, the dump written in FST or VCD contains, for every selected signal, exactly the changes of value that happened during the simulation, at their times and with the final value of each time point, in the right scope, and no other.",
     ["histories", "programs"], "all signal types and histories, both formats, any selection",
     TEST + "the tests compare a few dumps with stored ones", ["src/rt/wave.c", "thirdparty/fstapi.c"],
     [("per-type formatters and last-value filters", "src/rt/wave.c")],
     ["dump files, decoded"], "offline trace checker comparing dumps with events logged by the design",
     "Exploration: dumps of random designs are decoded independently and compared with the events the design itself logged.")
prop("C16", "Coverage counts what was executed",
     "Coverage data says of every statement, branch, expression, toggle and state whether and how often it was exercised in the runs it covers; merging databases adds counts, in any order, and neither collecting nor merging changes the behaviour of the simulation.",
     ["programs", "histories"], "all designs, runs, coverage kinds and merge orders",
     TEST + "stored reports cover a few designs", ["src/cov/cov-data.c", "src/cov/cov-report.c", "src/rt/cover.c", "src/lower.c"],
     [("counter instrumentation", "src/lower.c lower_stmt_coverage, lower_branch_coverage"), ("database merge", "src/cov/cov-data.c merge_coverage")],
     ["exported coverage data", "output of the covered design"], "runtime counters compared with a reference execution trace",
     "Exploration: counts of random programs compared with those of the reference interpreter; merges checked for addition and commutation.")
prop("C17", "PSL assertions fire exactly on violating traces",
     "For every property of the supported PSL subset and every clocked trace, an assert directive reports a failure exactly at the cycles at which the trace violates the property and a cover directive reports exactly its matches.",
     ["programs", "histories"], "all properties of the subset and all traces",
     TEST + "a handful of properties with one trace each", ["src/psl/psl-fsm.c", "src/psl/psl-lower.c"],
     [("automaton construction", "src/psl/psl-fsm.c"), ("monitor lowering", "src/psl/psl-lower.c")],
     ["messages and their times"], "runtime PSL monitors compared with a reference trace semantics",
     "Exploration: random properties on random traces; report times compared with a direct evaluation of the PSL trace semantics.")
prop("C18", "A design library survives crashes and concurrent use",
     "After any interruption of an analysis or elaboration at any point, and under any concurrent use by several processes, a library is either as before or as after each completed unit: later commands work on it, no unit is half written, and every unit whose analysis succeeded is found again unchanged.",
     ["crash_points", "schedules", "fault_sequences"], "all interruption points between system calls, write failures, and interleavings of processes",
     TEST + "no test interrupts nvc or runs two at once", ["src/lib.c", "src/fbuf.c", "src/object.c"],
     [("index lock and atomic replacement", "src/lib.c lib_save, lib_save_index; src/fbuf.c fbuf_close")],
     ["contents of the library directory and the result of commands that use it"], "fault injection at system calls with a recovery oracle",
     "Fault enumeration: the process is killed, or a call fails, at every system call that changes the library, then later commands are judged.")
prop("C19", "Any input text gets an orderly verdict",
     "For every input text, analysis ends with acceptance or with diagnostics that name a place in the source and a non-zero exit status; it never crashes, hangs, or reports an internal error.",
     ["inputs"], "all source texts in every language and standard revision",
     TEST + "the parser tests use a fixed set of wrong inputs", ["src/parse.c", "src/names.c", "src/sem.c", "src/bounds.c", "src/simp.c", "src/vlog/vlog-parse.c", "src/scan.c", "src/lexer.l"],
     [("error recovery", "src/parse.c, src/names.c")],
     ["exit status, diagnostics, sanitizer reports"], "mutation workload under AddressSanitizer and UBSan",
     "Exploration: token-level mutants of the corpus; crashes already known are listed as findings.")
prop("C20", "Memory is used correctly and no undefined behaviour occurs",
     "While processing any legal input, in any mode, nvc never reads or writes outside live memory, never uses freed or uninitialised-by-contract memory, and never executes undefined arithmetic.",
     ["inputs", "programs", "configurations"], "all inputs and commands",
     TEST + "an ordinary build does not notice an out-of-bounds read", ["src/rt/model.c", "src/lower.c", "src/elab.c", "src/jit", "src/vlog", "src/object.c", "src/util.c", "src/hash.c"],
     [("arena and object allocation", "src/object.c"), ("signal storage", "src/rt/model.c")],
     ["sanitizer reports"], "AddressSanitizer and UBSan over all generated workloads",
     "Exploration: generated designs of all kinds run through a sanitized nvc, reports classified by site; known sites are listed.")
prop("C21", "Concurrent threads share compiler data without races",
     "Worker threads that compile, intern identifiers, collect garbage or look up shared tables never race on shared data, never lose an update, never return two results for one key, and never deadlock, for every interleaving.",
     ["schedules"], "all interleavings of the worker threads and the main thread",
     TEST + "an interleaving that loses an update is not reproduced by running once", ["src/thread.c", "src/ident.c", "src/hash.c", "src/jit/jit-core.c", "src/rt/mspace.c", "src/mir/mir-unit.c"],
     [("locks and work queues", "src/thread.c"), ("lock-free tables", "src/hash.c chash_t, src/ident.c")],
     ["race reports; multiset of results from all threads"], "ThreadSanitizer and stress harness with exactly-once and linearizability oracles",
     "Exploration: native stress programs on the real primitives and whole designs with many threads under ThreadSanitizer.")
prop("C22", "Verilog constructs simulate as IEEE 1364 defines",
     "For the supported subset, Verilog expressions over four-valued vectors, procedural and continuous assignments and non-blocking updates produce the values IEEE 1364 defines for every width, sign and x/z operand.",
     ["programs", "inputs"], "all expressions, widths, signs and four-valued operands",
     TEST + "the Verilog tests check a few constants per operator", ["src/vlog/vlog-lower.c", "src/vlog/vlog-number.c", "lib/nvc/verilog-body.vhd", "src/vlog/vlog-simp.c", "src/vlog/vlog-parse.c"],
     [("lowering of packed arithmetic", "src/vlog/vlog-lower.c"), ("constant arithmetic", "src/vlog/vlog-number.c")],
     ["values displayed by the running design"], "random Verilog programs with a reference evaluator as runtime oracle",
     "Exploration: random expressions of the supported subset compared with a four-valued reference evaluator.")
prop("C23", "The foreign interfaces show the true simulation state",
     "Through VHPI and VPI a plug-in sees the elaborated hierarchy, reads the current value of every object in every format, is called back exactly once for every event it registered for, and its puts take effect as specified.",
     ["histories", "programs"], "all designs, object kinds, value formats and callback registrations",
     TEST + "each interface test walks one small design", ["src/vhpi/vhpi-model.c", "src/vpi/vpi-model.c", "src/rt/model.c"],
     [("callback registration and dispatch", "src/vhpi/vhpi-model.c, src/rt/model.c model_set_event_cb")],
     ["log written by a plug-in"], "runtime monitor plug-in comparing callbacks with the design's own log",
     "Exploration: a plug-in logs values and callbacks on random designs; its log must agree with the design's.")
prop("C24", "A run ends when, how and with the status it should",
     "A simulation ends exactly at the requested stop time, at the first message at or above the exit severity, at finish or stop, or when nothing is left to do; its exit status, message counts and every message printed before that point reflect what happened, and nothing after it is executed.",
     ["programs", "configurations"], "all stop times, severities, delta limits and message sequences",
     TEST + "options are tested singly", ["src/nvc.c", "src/rt/model.c", "src/rt/assert.c", "src/common.c"],
     [("stop conditions", "src/rt/model.c model_run, src/rt/assert.c")],
     ["messages, exit status, last activity"], "runtime monitor of messages and exit status against a reference run controller",
     "Exploration: random message schedules and option sets against a small reference model.")
prop("C25", "Results are reproducible and independent of irrelevant order",
     "Running the same commands on the same sources yields byte-identical output, waveform dumps and library contents apart from recorded times, whatever the memory layout, thread timing, file order allowed by dependencies, or working directory name.",
     ["schedules", "configurations"], "all repetitions, address layouts, environments and legal analysis orders",
     TEST + "each test runs once", ["src/lib.c", "src/object.c", "src/ident.c", "src/elab.c", "src/jit/jit-pack.c"],
     [("deterministic serialisation", "src/object.c object_write")],
     ["bytes of outputs and library files"], "repeated runs under perturbed layout and timing with byte comparison",
     "Exploration: designs processed repeatedly under different address layouts, thread counts, directories and orders; every output compared.")
prop("C26", "Units stored in a library are read back unchanged",
     "A unit analysed in one process and used in another behaves exactly as when everything is done in one process, and reanalysis invalidates exactly the units that depend on what changed.",
     ["programs", "histories"], "all units, dependency graphs and orders of reanalysis",
     TEST + "most tests run in a single process", ["src/object.c", "src/lib.c", "src/tree.c", "src/type.c", "src/vlog/vlog-node.c"],
     [("serialisation and cross-library locators", "src/object.c object_read, object_write"), ("staleness checks", "src/lib.c lib_get_check_stale")],
     ["output of the design, diagnostics, exit status"], "differential execution of split and single-process flows, with a reference dependency model",
     "Exploration: the same designs through one and through several processes, and random edit and reanalysis histories judged by a dependency model.")


WHY = {
    "C19": "Mutated input makes this development version of the front end fail its own assertions at many different places; a check that is "
           "silent on the unchanged tree would have to list failures that keep appearing. Memory errors of the same inputs are checked by C20.",
    "C21": "ThreadSanitizer does not see generated code and reports the runtime's deliberate unsynchronised accesses; no workload and "
           "annotation set that is silent on the unchanged tree was built in this work. The effects of concurrency on results are checked by C10, C18 and C25.",
    "C22": "The Verilog front end is unfinished at this commit: a prototype failed in nearly every case (missing operators, most x and z results), "
           "so the property does not hold here in any way that could be listed.",
    "C23": "No foreign plugin workload was built in this work.",
}


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "checks")) if f.startswith("c") and f.endswith(".py")}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m vf.build plain asan", "checks": [], "not_applicable": [],
         "notes": "All checks run the real nvc, rebuilt from /repo's working tree, on generated workloads. "
                  "Known findings and repairs are in known_findings.txt. No hooks are needed in /repo."}
    for p in P:
        if p["id"] in have:
            m["checks"].append({
                "property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                "level": "fault_enumeration" if p["id"] == "C18" else "exploration", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": WHY[p["id"]]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
