#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks_conf import CHECKS
T = {
 "C01": "deterministic simulation: seeded search over instants at which the time limit passes; exact cover and cost oracle",
 "C02": "deterministic simulation: seeded search over instants at which the time limit passes; bounded-steps oracle in simulated work",
 "C03": "deterministic simulation: replays under perturbed clocks, heap and stack contents, addresses and pasts compared bit for bit",
 "C04": "deterministic simulation: one call under many expiry instants and warm-start chains; order oracle over the history",
 "C05": "deterministic simulation: seeded expiry instants; returned bounds against dynamic-programming optimum",
 "C06": "deterministic simulation: seeded cooperative thread scheduler; each thread refined against its run alone",
 "C07": "deterministic simulation: histories of calls on one object with failing allocations and expiries; refinement against a fresh object",
 "C08": "deterministic simulation: allocation failures and memory caps injected at drawn points; error-or-undisturbed-result oracle",
 "C09": "deterministic simulation: simulated disk with write, close and open faults; file compared with an independent rendering and read back",
 "C10": "deterministic simulation: simulated disk with short, interrupted, failing and truncated reads; independent reference reader as model",
 "C11": "deterministic simulation: stored-file damage on the simulated disk, memory errors made visible by AddressSanitizer; containment oracle",
 "C12": "deterministic simulation: campaigns of program runs with crashes, lost writes, disk, memory and time faults; durable-state oracle after every step",
 "C13": "deterministic simulation: histories of calls on the Python object with time and allocation faults; reference model of the object",
 "C14": "deterministic simulation: frozen, crawling, stalling and jumping clocks; progress within a bounded number of steps",
 "C15": "deterministic simulation: the whole program against the library under simulated clock, disk and stream noise",
 "C17": "deterministic simulation: the build with assertions against the build without, under the same simulated clock, disk and history",
 "C18": "deterministic simulation: simulated allocator accounts for every byte while long searches are cut at drawn clock readings; bounded-memory oracle",
 "C16": "deterministic simulation: the Python object against the C++ library under the same simulated clock",
}
N = {
 "C01": "Every result returned by run, ThreePhase and Greedy in the explored runs is checked exactly; runs are sampled.",
 "C02": "Overrun past the limit is measured in executed basic blocks; the bound is about twice the largest overrun ever seen on the correct code, so only gross lateness is reported.",
 "C03": "Bit-for-bit comparison within one build; sampled disturbances.",
 "C04": "Sampled expiry instants per call; the order is checked between all of them.",
 "C05": "Exact optimum for up to 16 rows, best known cover otherwise; tolerance of a few rounding errors.",
 "C06": "Real threads, of which one runs at a time, switched at drawn basic blocks; interleavings finer than a basic block are not produced.",
 "C07": "Sampled histories of 2-7 calls per object.",
 "C08": "Sampled failure points, biased to early ones; allocation through operator new and malloc of the code under test.",
 "C09": "Sampled sizes and fault sequences; simulated disk and real iostreams and fmt.",
 "C10": "Sampled files and faults; the reference reader is independent of the code under test.",
 "C11": "Sampled damage; memory errors are seen as far as AddressSanitizer and UBSan see them.",
 "C12": "Sampled campaigns of 1-5 program runs on one simulated disk.",
 "C13": "Sampled histories; real CPython and pybind11 bindings built from the working tree, clock and allocator simulated.",
 "C14": "Work budget far above what is ever used; sampled clock behaviours.",
 "C15": "Sampled option lists; the program's main runs in-process on the simulated disk.",
 "C17": "Both builds are linked into one simulator and run one after the other; sampled instances of up to 130 rows.",
 "C18": "The bound is about twice the largest use measured on the correct code: slow growth shows only in the long searches explored (up to 80000 clock readings).",
 "C16": "Sampled instances and parameters; bindings built from the working tree.",
}
NA = {
 "N01": "A pure function of its input: no schedule, clock, fault or interleaving enters it, so simulation with fault injection has nothing to decide (its effect on results is covered by C01, C05).",
 "N02": "A pure function of its input, without clock, I/O or concurrency (its effect on results is covered by C01, C04, C14).",
 "N03": "A pure function of its state, without clock, I/O or concurrency (its repeatability is covered by C03).",
 "N04": "Pure functions of their inputs, without clock, I/O or concurrency (number parsing is covered through files by C10, C11).",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 vf.py setup", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "python3 vf.py check " + p,
                            "thorough_cmd": "VERIF_TIER=thorough python3 vf.py check " + p,
                            "technique": T[p], "level": "exploration", "level_note": N[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "No check yet.")})
m["notes"] = ("No hooks in /repo: clock, allocator, files, streams and threads are intercepted at link level and by trace-pc "
              "instrumentation of a separate build. VERIF_SEED selects the seeds; VERIF_TIER the depth. vf.py replay FILE executes a replay file.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
