#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the source of truth for the property texts).
import json, sys, os
R='src/algorithms/Refinement.hpp'; T='src/algorithms/ThreePhase.hpp'; S='src/subgradient/Subgradient.hpp'
G='src/greedy/Greedy.hpp'; P='src/core/parsing.hpp'; PU='src/utils/parse_utils.hpp'; C='src/core/CliArgs.hpp'
CF='src/core/cft.hpp'; PY='src/pycft/set_cover_solver.py'; PB='src/pycft/_bindings.cpp'; M='src/main.cpp'
props=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    props.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","A feasible cover with its exact cost is returned wherever the time limit falls",
  "For every coverable instance with at least one row and non-negative costs, the full run, the 3-phase and the greedy entry points return a set of valid, pairwise distinct column indices that together cover every row, and the reported cost is exactly the sum of the costs of those columns. This holds for every instant at which the time limit expires (before the start, between any two steps, never), with or without a feasible warm start, for every parameter setting and every numeric type configuration.",
  ["inputs","schedules","configurations"],
  "all instances x parameters x seeds x warm starts x instants of time-limit expiry (in simulated ticks and between any two clock reads) x type configurations",
  "Tests run a few fixed instances to completion with the real clock; they never stop the algorithm at a chosen instant, and the interplay of pricing, column fixing, redundancy removal and refinement is only reached by particular inputs.",
  [R,T,S,G,'src/greedy/redundancy.hpp','src/fixing/FixingData.hpp','src/fixing/fix_columns.hpp','src/fixing/ColFixing.hpp','src/subgradient/Pricer.hpp'],
  [("best solution mapped back through core, fixing and refinement maps",T+" _from_core_to_unfixed_sol, "+R+" from_fixed_to_unfixed_sol"),
   ("time checks that only break out of loops after a consistent best solution exists",R+", "+T+", "+S)],
  ["CftResult.sol returned by cft::run and cft::ThreePhase","idxs and cost returned by cft::Greedy"],
  [("fixing","columns fixed so far and index maps to the original instance",'src/fixing/FixingData.hpp')])

p("C02","Once the time limit has expired the solver returns promptly",
  "When the clock passes the time limit, at whatever instant, the run and the 3-phase return after a bounded amount of further work: no more than a small multiple (growing at most linearly with the number of rows) of what the same call needs when its time limit has already expired at the start. A limit that has already expired at the start therefore also stops the search after its first steps.",
  ["inputs","schedules","configurations"],
  "all instances x parameters (any number of heuristic iterations) x instants of expiry, including clock jumps and stalls",
  "Tests set limits in wall-clock seconds on one or two instances and never bound the overrun; the clock is polled in only a few places, so whether a given instant is noticed promptly depends on where it falls.",
  [R,T,S,'src/utils/Chrono.hpp'],
  [("polling env.timer against env.time_limit in refinement, 3-phase, subgradient pricing and heuristic loops",R+", "+T+", "+S)],
  ["simulated work (basic blocks executed) between expiry and return"])

p("C03","One seed is one result: outcome independent of clock, heap, verbosity, past",
  "Two runs on the same instance with the same parameters, warm start and seed return bit-identical solutions, costs, lower bounds and multipliers, as long as neither reaches its time limit. Clock readings and their pace (including wall-clock jumps), addresses and contents of freshly allocated or stack memory, verbosity, a failing-free or noisy output stream, and earlier runs in the same process do not influence the result.",
  ["inputs","schedules","histories","configurations"],
  "all instances x seeds x parameters x clock behaviours x memory contents x verbosity levels x histories of earlier calls",
  "Tests never compare two runs of the algorithm; a read of uninitialised memory, of the clock or of a hidden global passes them whenever the answer is still a cover.",
  [R,T,S,G,'src/utils/random.hpp','src/utils/xoshiro_prng.hpp',CF,'src/utils/print.hpp'],
  [("all randomness drawn from env.rnd, seeded explicitly",CF+" Environment, "+T+" _perturb_lagr_multipliers"),("caches fully reset at each call",T+" _three_phase_setup")],
  ["CftResult of cft::run, bit by bit"])

p("C04","More time is never worse, and a warm start is never worsened",
  "With everything else equal, a run whose time limit expires later returns a solution of no greater cost than one whose limit expires earlier: the best solution found so far is never lost. A feasible warm start is never returned worsened: the result costs at most the warm start's cost at every expiry instant.",
  ["inputs","schedules","histories"],
  "all instances x seeds x warm starts (from terrible to optimal) x pairs of expiry instants, and chains in which each result warm-starts the next run",
  "Tests perform one run per instance and never compare runs stopped at different instants; keeping the incumbent across phases, fixings and refinements is only observable by stopping in between.",
  [R,T,S],
  [("incumbent replaced only by strictly cheaper solutions",R+" run, "+T+" operator(), "+S+" heuristic"),("warm start seeds the incumbent",R+" run")],
  ["CftResult.sol.cost over a family of expiry instants"],
  [("best_sol","incumbent of each phase",R+", "+T)])

p("C05","The reported lower bound and multipliers are valid wherever the run stops",
  "The lower bound returned with a solution never exceeds the optimal cost of the instance (and hence never the cost of the returned solution), whatever the instant at which the time limit stops the run and whatever columns were priced out or fixed. The returned multipliers are finite, non-negative and exactly one per row of the original instance.",
  ["inputs","schedules","configurations"],
  "all instances x parameters x seeds x instants of expiry",
  "The bound is asserted on one toy instance whose gap is zero; a bound taken from the core or from a fixed sub-instance is larger than the optimum only on particular inputs and stopping instants.",
  [T,S,'src/subgradient/Pricer.hpp','src/subgradient/utils.hpp',R],
  [("bound computed by pricing over all columns of the unfixed instance",'src/subgradient/Pricer.hpp'),("dual state frozen before the first fixing",T+" nofix_dual")],
  ["CftResult.dual.lb, CftResult.dual.mults"])

p("C06","Concurrent callers get what they would get alone",
  "Threads of one process that call the solver at the same time, each with its own environment and solver objects, on separate instances or on one shared constant instance, each obtain exactly the result the same call returns when it runs alone, and leave the shared instance unchanged. This holds under every interleaving of the threads.",
  ["schedules","inputs","histories"],
  "all preemptive interleavings of 2-4 caller threads at basic-block granularity x instances x parameters x expiry instants per caller",
  "No test starts a second thread; hidden shared state (a static cache, a global generator or buffer) is invisible to sequential tests.",
  [R,T,G,S,P,PU],
  [("all mutable state lives in the environment or in function objects owned by the caller",R+", "+T+", "+G)],
  ["CftResult per thread, the shared Instance"])

p("C07","Reused solver objects behave like fresh ones, also after an aborted call",
  "A 3-phase or greedy function object that has already been used on any sequence of other instances, including calls cut short by the time limit or aborted by an exception, returns on the next call exactly what a newly constructed object returns for the same arguments. Nothing of an earlier call is visible in a later result.",
  ["histories","fault_sequences","inputs"],
  "all histories of calls on one object (different sizes, parameters, expiry instants, allocation failures at any allocation) followed by a probe call",
  "Tests construct a new object per call; stale caches matter only for particular successions of instances or after an abort in mid-call.",
  [T,G,S,'src/fixing/ColFixing.hpp','src/subgradient/Pricer.hpp','src/greedy/scores.hpp','src/greedy/redundancy.hpp','src/utils/CoverCounters.hpp'],
  [("every cache member re-initialised at the start of a call",T+" _three_phase_setup, "+G+" operator()")],
  ["CftResult of the probe call on the used and on a fresh object"],
  [("caches","vectors kept between calls to avoid reallocation",T+", "+G)])

p("C08","Running out of memory surfaces as an error and damages nothing",
  "If any single allocation, or every allocation from some point on, fails during parsing, solving or writing, the call ends with an error (or returns exactly the result it returns without the failure); it does not crash, hang, leak memory, or return a wrong result. The caller's instance, warm start and environment parameters stay intact, a repeated call after memory is back gives the undisturbed result, and the command-line program exits with a failure status and an error message instead of dying.",
  ["fault_sequences","inputs","histories"],
  "all allocation sites reached by a call x one-shot or persistent failure x memory caps x instances x entry points",
  "Tests never make an allocation fail.",
  [R,T,G,P,PU,M,'src/utils/SparseBinMat.hpp'],
  [("RAII containers everywhere, no raw ownership",R+", "+T),("top-level exception handler",M)],
  ["exceptions thrown by cft::run, ThreePhase, Greedy, parse_* and write_solution; exit status of accft"])

p("C09","A solution file reported as written is complete and reads back exactly",
  "When writing a solution reports success, the file holds exactly that solution: reading it back yields the same columns in the same order and the same cost, bit for bit. Any failure to store the data (cannot open, disk full, I/O error on write or on close, partial writes that cannot be completed) is reported to the caller, while harmless short or interrupted writes are absorbed.",
  ["fault_sequences","inputs"],
  "all solutions (sizes around and far beyond buffer sizes, all cost values) x sequences of write/close/open outcomes at any byte",
  "The one test writes a small solution to a healthy file system; no test makes a write or close fail or checks large solutions.",
  [P],
  [("stream opened, written and closed with its state checked",P+" write_solution"),("shortest round-trip number formatting (fmt)",P+" write_solution")],
  ["bytes in the file after write_solution returns","parse_solution of the file"])

p("C10","Reading yields what the file says or an error, however the bytes arrive",
  "Reading a well-formed RAIL, SCP, CVRP or MPS instance or a solution file yields exactly the data the text describes, in whatever pieces the operating system delivers the bytes and however often it interrupts. If the data ends early or a read fails, the reader reports an error or returns exactly what the bytes it did receive say; it never invents, repeats or silently drops data, and never waits forever.",
  ["fault_sequences","inputs"],
  "all well-formed files of the four formats and solution files (line ends, blanks, wrapped lists) x chunkings and interruptions x truncation points x read errors at any offset",
  "Tests parse shipped files from a healthy disk; the line reader has no test, and end-of-file or read errors in mid-file are never simulated.",
  [PU,P],
  [("line iterator over an input stream",PU+" FileLineIterator"),("declared counts drive the parsing loops",P)],
  ["Instance / Solution returned by the parsers"])

p("C11","Damaged input files are contained",
  "Whatever bytes an instance or solution file contains (flipped, lost, duplicated or misplaced blocks, absurd counts, wrong format), reading it ends with an error or with a well-formed instance: indices in range, rows and columns consistent, one cost per column. It never crashes, accesses memory out of bounds, or fails to end, and the command-line program likewise never crashes on it or presents a result that is not a cover of the instance it accepted.",
  ["fault_sequences","inputs"],
  "all byte-level damage (bit flips, lost, duplicated, swapped or zeroed sectors, torn tails, wrong parser, huge or negative numbers) applied to files of all formats",
  "Tests only parse intact files and one or two missing files.",
  [P,PU,'src/utils/StringView.hpp',M],
  [("range checks on parsed indices and counts",P),("exceptions for malformed numbers",PU+" string_to")],
  ["Instance / Solution returned by the parsers, exit status of accft"])

p("C12","The command line never claims success without a correct solution file",
  "Whenever accft exits with success, the output file holds a feasible cover of the instance with exactly its stated cost, and that cost does not exceed the cost of a warm start it was given. This holds in any campaign of runs chained through solution files (a later run warm-starting from and overwriting an earlier file) in which runs are killed at arbitrary points, disks fill up, reads and writes fail, memory runs out, time limits expire or un-synced data is lost; a torn or foreign warm-start file is rejected or harmless.",
  ["crash_points","fault_sequences","histories"],
  "all campaigns of 1-5 program runs over shared files x crash points (any basic block or file operation) x loss of un-synced data x I/O, memory and time faults",
  "Tests never run the program, let alone kill it or feed it a file left behind by a killed run.",
  [M,P,PU,C],
  [("top-level error handling and exit status",M),("validation of the initial solution",P+" parse_inst_and_initsol")],
  ["exit status of accft, bytes of the output file"])

p("C13","The Python solver object stays truthful over any history of calls",
  "After any sequence of adding sets, loading files, solving with various parameters and time limits, and failed calls, the Python solver object reports either no solution or a cover of the sets it was actually given with the exact cost, a lower bound not above the optimum and matching multipliers. A rejected or failed call leaves the object as it was, repeated solving never worsens the solution for unchanged elements, and adding elements never leaves a stale solution behind.",
  ["histories","fault_sequences","inputs"],
  "all histories of add/load/solve/query calls x invalid arguments x expiry instants x allocation failures inside the native code",
  "The Python tests are short happy-path scripts of at most two solves; failed calls followed by further use are not exercised.",
  [PY,PB],
  [("result invalidated when new elements appear, warm start from the previous result",PY+" add_set, solve"),("instance consistency check before solving",PB+" check_and_fill_instance")],
  ["SetCoverSolver get_solution/get_cost/get_lower_bound/get_dual_multipliers"],
  [("_result/_initialized/_max_element","Python-side state machine",PY)])

p("C14","The solver terminates on its own, whatever the clock does",
  "Every run without a reachable time limit (no limit given, frozen or crawling clock) on a coverable instance ends after a bounded amount of work with a solution, for every seed and every parameter setting with a refinement growth factor above one. A clock that stalls, jumps or freezes right before the limit never turns the search into an endless loop.",
  ["schedules","inputs","configurations"],
  "all instances (including zero costs, duplicates, forced rows, single rows) x parameters x seeds x clock behaviours",
  "Tests cover a few instances with default parameters and a running clock; non-termination depends on rare numeric states such as stalled bounds or empty fixings.",
  [R,T,S,'src/subgradient/utils.hpp','src/greedy/redundancy.hpp','src/fixing/ColFixing.hpp'],
  [("iteration caps of the subgradient and heuristic phases",S),("at least one column fixed per 3-phase iteration; fixing fraction grows in refinement",'src/fixing/ColFixing.hpp, '+R)],
  ["simulated work until return"])

p("C15","The command line computes exactly what the library computes",
  "For every instance file and combination of command-line options, accft writes the same solution the library returns for that instance with the corresponding environment (seed, time limit, epsilon, iterations, beta, exit tolerances, unit costs, warm start), regardless of option order and spelling, verbosity, and benign noise on its files and output stream. The best cost it prints is the cost of the solution it writes.",
  ["inputs","configurations","fault_sequences"],
  "all option combinations in any order, short and long spellings x instances in the four formats x benign I/O noise x clock behaviour",
  "Tests check the option parser in isolation on a few fixed argument lists and never the program end to end.",
  [M,C,P],
  [("option parsing into the environment",C+" parse_cli_args"),("wiring of parser, solver and writer",M)],
  ["output file and standard output of accft"])

p("C16","The Python interface computes exactly what the library computes",
  "Solving through the Python solver object gives the same solution, cost, lower bound and multipliers as the C++ library run with the same sets, seed, parameters and time behaviour, with sets added one by one or loaded from a file. Every parameter of the solve call takes effect as documented, the seed included.",
  ["inputs","configurations","histories"],
  "all instances x parameters x seeds x clock behaviours x ways of supplying the instance",
  "The Python tests check optimal values on toy instances only; an ignored parameter or a lossy conversion does not change those.",
  [PY,PB,CF],
  [("environment and instance bindings",PB),("parameter forwarding",PY+" solve")],
  ["SetCoverSolver getters versus cft::run"])

p("C17","A build with assertions accepts the same inputs and computes the same results",
  "Built with assertions on, every library call on a coverable instance, every reading of a well-formed file and every run of accft gives exactly the result of the release build, whatever the parameters, the warm start, the past of the function object and the instant at which the time limit passes: no self-check of the code fires (row and column structures agree after every fixing, index maps, redundancy data, solutions and bounds are coherent) and no self-check changes the outcome.",
  ["inputs","configurations","histories","schedules"],
  "all instances x parameters x seeds x clock readings at which the limit passes x reused objects x files in the four formats",
  "The Debug build of the tests runs the same few instances; self-checks that fire only through rounding, after rare fixings or when the limit passes inside a phase are not reached, and the two builds are never compared.",
  [R,T,S,G,'src/fixing/fix_columns.hpp','src/core/utils.hpp',P],
  [("CFT_IF_DEBUG and assert",'src/core/cft.hpp, src/utils/assert.hpp'),("consistency checks after fixing",'src/fixing/fix_columns.hpp mappings_check'),("solution and redundancy checks",'src/core/utils.hpp check_inst_solution, src/greedy/redundancy.hpp check_redundancy_data')],
  ["results of run, ThreePhase, Greedy, parsers and accft; abort on a failed assertion"])

p("C18","Memory stays proportional to the instance, however long the search runs",
  "At every moment of a library call or of reading a file, the memory in use beyond the caller's data is at most a fixed multiple of the size of the instance (nonzeros, rows and columns), whatever the parameters, the number of iterations made before the time limit passes, the verbosity and the number of calls made before. A function object used again and again for equal calls stops growing after the first few.",
  ["inputs","configurations","histories","schedules"],
  "all instances x parameters x lengths of search (clock readings until the limit) x numbers of calls on one object x files in the four formats",
  "Unit tests neither measure memory nor run long; growth per iteration or per call shows only in runs of many thousand iterations, the ones users make with limits of hours.",
  [S,T,R,G,'src/subgradient/Pricer.hpp',P],
  [("buffers kept in function objects and cleared per use",T+", "+S+", "+G),("core instance rebuilt by pricing",'src/subgradient/Pricer.hpp')],
  ["bytes requested from the allocator at a time, and kept after a call"])

p("N01","Redundancy removal is optimal for up to ten redundant columns",
  "When a cover contains at most ten redundant columns, the redundancy removal step removes a subset of them that leaves a cheapest possible cover among the non-removable columns and any subset of the redundant ones, or reports that nothing below the cutoff exists.",
  ["inputs"],"all instances and covers with at most ten redundant columns",
  "Tests check a handful of examples of the enumeration.",['src/greedy/redundancy.hpp',G],
  [("compile-time bounded enumeration",'src/greedy/redundancy.hpp Enumerator')],["redundancy data after removal"])
p("N02","Column fixing yields an equivalent residual problem",
  "Fixing a set of columns yields a residual instance whose covers, together with the fixed columns, are exactly the covers of the original instance containing those columns, at the same cost.",
  ["inputs"],"all instances and sets of columns","Tests check a few fixed examples.",['src/fixing/fix_columns.hpp','src/fixing/FixingData.hpp'],
  [("old-to-new index maps",'src/fixing/fix_columns.hpp')],["instance and maps after fixing"])
p("N03","Random helpers stay in range and follow their reference generators",
  "Every random helper returns values within its stated range for every generator state, and each generator produces its published reference sequence for every seed.",
  ["inputs"],"all seeds, states and ranges","Tests sample a few seeds.",['src/utils/random.hpp','src/utils/xoshiro_prng.hpp'],
  [("xoshiro generators",'src/utils/xoshiro_prng.hpp')],["values returned"])
p("N04","String, span and bounded-heap utilities match their reference semantics",
  "String views, spans, the bounded sorted array and the number parser return exactly what the corresponding standard operations return on every input.",
  ["inputs"],"all inputs of the utility types","Tests sample a few inputs per operation.",
  ['src/utils/StringView.hpp','src/utils/Span.hpp','src/utils/SortedArray.hpp',PU],
  [("small value types",'src/utils')],["values returned"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in props))
