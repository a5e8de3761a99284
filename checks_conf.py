"""Per-property configuration of the simulation checks."""
LEVEL = "exploration"
A4 = {"f32": 900, "f64": 350, "small": 350, "large": 250}
CHECKS = {
    "C01": {"variants": A4, "secs": (60, 780),
            "rule": "One evaluation = one seeded plan: a generated instance, parameters and 4-10 calls of run, 3-phase or greedy with the time limit passing at drawn instants. Non-trivial: in at least one call the limit passed while the call was running."},
    "C02": {"variants": {"f32": 6000, "f64": 2000, "small": 2000, "large": 2000}, "secs": (60, 780), "slice": 200,
            "rule": "One evaluation = one seeded plan of 2-6 calls whose search loops are made long and whose limit passes at a drawn instant. Non-trivial: the limit passed before the call ended, so the overrun was measured."},
    "C03": {"variants": A4, "secs": (60, 780),
            "rule": "One evaluation = one seeded plan: an undisturbed run and 2-6 repetitions under other clocks, heap and stack contents, addresses, verbosity and pasts. Non-trivial: at least one repetition was disturbed."},
    "C04": {"variants": {"f32": 600, "f64": 220, "small": 220, "large": 120}, "secs": (50, 780), "slice": 20,
            "rule": "One evaluation = one seeded plan: the same call with 3-12 different expiry instants, and chains of warm starts. Non-trivial: some limited run ended with a worse solution than the unlimited one (the order was really tested)."},
    "C05": {"variants": A4, "secs": (60, 780),
            "rule": "One evaluation = one seeded plan: 3-9 calls with drawn expiry instants, bounds compared with the optimum by dynamic programming (up to 16 rows) or the best known cover. Non-trivial: a positive lower bound was returned."},
    "C06": {"variants": {"f32": 2400, "f64": 800, "small": 600, "large": 400}, "secs": (60, 780), "slice": 100,
            "rule": "One evaluation = one seeded plan: 2-4 threads with drawn preemption points, each result compared with the run alone. Non-trivial: at least two thread switches happened."},
    "C07": {"variants": {"f32": 2400, "f64": 800, "small": 800, "large": 600}, "secs": (60, 780), "slice": 100,
            "rule": "One evaluation = one seeded plan: 2-7 calls on one function object, some aborted by failing allocations or cut by the limit, each compared with a fresh object. Non-trivial: a call was compared after an earlier call on the same object."},
    "C08": {"variants": {"f32": 1200, "f64": 400, "small": 400, "large": 250}, "secs": (50, 780), "slice": 40,
            "rule": "One evaluation = one seeded plan: 3-10 calls of run, 3-phase, greedy, a parser, the writer or the whole program in which one allocation, every allocation from some point on, or everything beyond a memory cap fails, each followed by an undisturbed repetition. Non-trivial: at least one call really ended with an error."},
    "C09": {"variants": {"f32": 9000, "f64": 4500, "small": 2400, "large": 4500}, "secs": (40, 780), "slice": 100, "mult": 20,
            "rule": "One evaluation = one seeded plan: 2-6 solutions written through short, interrupted and failing opens, writes and closes and full disks, each file read back and by an independent reader. Non-trivial: writing was disturbed."},
    "C10": {"variants": {"f32": 12000, "f64": 5000, "small": 5000, "large": 5000}, "secs": (40, 780), "slice": 100, "mult": 20,
            "rule": "One evaluation = one seeded plan: an instance or solution written in a drawn style and read 4-12 times, cut at drawn offsets, with failing, short and interrupted reads, compared with an independent reader. Non-trivial: the data really ended early or a read failed."},
    "C11": {"variants": {"f32": 4000, "asan": 3600, "f64": 1000, "small": 1500, "large": 1000}, "secs": (60, 780), "slice": 40,
            "rule": "One evaluation = one seeded plan: 1-4 damaged files given to the reader, the validating reader and the whole program. Non-trivial: at least one damaged file was accepted."},
    "C12": {"variants": {"f32": 4000, "f64": 1200, "small": 1000, "large": 600}, "secs": (60, 780), "slice": 60,
            "rule": "One evaluation = one seeded plan: a history of 2-6 runs of accft on one disk with crashes, power losses, disk, memory and stdout faults and damaged files between them. Non-trivial: a run was crashed or a fault reached it."},
    "C13": {"variants": {"py": 24000}, "secs": (60, 780), "slice": 200, "mult": 14,
            "rule": "One evaluation = one seeded plan: a history of calls on one Python solver object (sets added, files loaded, solves with drawn options) with allocation failures and limits passing at drawn instants; the object is compared with a reference model after every call. Non-trivial: a call failed or was refused."},
    "C16": {"variants": {"py": 5000}, "secs": (60, 780), "slice": 40, "mult": 14,
            "rule": "One evaluation = one seeded plan: a history of Python calls, each solve repeated by the C++ library on the same data under the same clock. Non-trivial: a result was compared."},
    "C15": {"variants": {"f32": 2000, "f64": 700, "small": 700, "large": 400}, "secs": (60, 780), "slice": 30,
            "rule": "One evaluation = one seeded plan: 1-4 command lines with drawn spellings run as a program on the simulated disk and compared with the library call. Non-trivial: a solution file was compared."},
    "C14": {"variants": {"f32": 1200, "f64": 400, "small": 400, "large": 250}, "secs": (60, 780),
            "rule": "One evaluation = one seeded plan: 1-4 calls under no, frozen, crawling, stalling or brink-of-limit clocks with a work budget. Non-trivial: a call used more than a million steps."},
    "C17": {"variants": {"f32d": 1500, "f64d": 500, "smalld": 500, "larged": 350}, "secs": (60, 780), "slice": 30,
            "rule": "One evaluation = one seeded plan: 2-7 library calls (some on a reused object, with the limit passing at a drawn clock reading), or files read and programs run, each done by the build with assertions and by the build without. Non-trivial: a call of both builds was compared."},
    "C18": {"variants": {"f32": 4000, "f64": 1300, "small": 1300, "large": 800}, "secs": (45, 780), "slice": 60,
            "rule": "One evaluation = one seeded plan: 1-5 calls (long searches ended at a drawn clock reading, repeated calls on one function object) or readings of a file; the memory in use at a time and the memory kept by the object are measured by the simulated allocator. Non-trivial: a call read the clock more than a thousand times, or a file was read."},
}
PROBES = {30: "ended_inside_pybind11",
          2: "overruns_measured", 3: "finite_lower_bounds", 4: "aborts_that_completed", 5: "failures_absorbed", 6: "printed_best_costs_compared",
          20: "max_overrun_permille_of_allowed", 21: "max_work_ppm_of_budget", 22: "max_expired_call_permille_of_allowed",
          24: "max_memory_permille_of_allowed", 25: "max_reading_memory_permille_of_allowed",
          23: "max_call_permille_of_work_limit"}
ASSUME = {"*": ["Sampled executions: a clean run is evidence, not proof.",
                "Every row of an instance is covered by some column, there is at least one row, and costs are finite and not negative; alpha is above 1 and min_fixing above 0."]}
COMPONENTS_PY = {
    "real": ["CPython and pybind11", "src/pycft (bindings and package) and all of /repo/src below it, compiled from the working tree with step-counting instrumentation", "file system (a scratch folder)"],
    "simulated": ["monotonic clock", "operator new/delete (with faults and fill pattern)", "stored files (generated)", "history of calls"],
}
COMPONENTS = {
    "real": ["all of /repo/src (solver, parsers, command line, main.cpp) compiled from the working tree with step-counting instrumentation", "libstdc++ containers and iostreams", "libfmt"],
    "simulated": ["steady and wall clock", "operator new/delete (arena with faults, fill patterns, addresses)", "stack contents", "files below /simfs/ (open, read, write, close, sync, rename, unlink)", "stdout and stderr", "thread scheduling", "process crash and restart", "ambient randomness"],
}
