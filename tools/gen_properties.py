#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


W = "src/vfcwrapper/main.c.in"
PASS = "src/libvfcinstrument/libVFCInstrument.cpp"
FPASS = "src/libvfcfuncinstrument/libVFCFuncInstrument.cpp"
DRV = "verificarlo.in.in"
IEEE = "src/backends/interflop-backend-ieee/interflop_ieee.c"
MCA = "src/backends/interflop-backend-mcaquad/interflop_mca.c"
MCI = "src/backends/interflop-backend-mcaint/interflop_mca_int.c"
VP = "src/backends/interflop-backend-vprec/interflop_vprec.c"
VPT = "src/backends/interflop-backend-vprec/common/vprec_tools.c"
VFI = "src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c"
BM = "src/backends/interflop-backend-bitmask/interflop_bitmask.c"
CA = "src/backends/interflop-backend-cancellation/interflop_cancellation.c"
RNG = "src/interflop-stdlib/rng/vfc_rng.c"
FU = "src/interflop-stdlib/common/float_utils.h"
HM = "src/interflop-stdlib/hashmap/vfc_hashmap.c"

prop("C01", "A program run on the plain IEEE backend behaves as if not instrumented",
     "For every program and every compiler option set, the executable produced by the instrumenting compiler and run with the "
     "plain IEEE backend prints the same bytes and returns the same exit status as the same source built by the underlying "
     "compiler with the same options (options that let the compiler change floating point results, contraction included, being off). This covers scalar and vector arithmetic, fused multiply-add, double-to-float casts, "
     "comparisons, control flow depending on them, and special values, with any combination of the instrumentation options.",
     ["programs", "inputs", "configurations"],
     "all C programs, all inputs, all combinations of optimisation level and instrumentation options",
     "The test suite compiles a few dozen fixed programs at one or two option sets; the guarantee is over all programs and "
     "option sets, and instruction shapes produced by the optimiser are not enumerable by hand.",
     [PASS, W, IEEE, DRV],
     [("replacement of every arithmetic instruction by a wrapper call with the same operands", PASS),
      ("wrapper dispatch and vector lane loops", W), ("IEEE operations", IEEE)],
     ["stdout, exit status of paired executables"])

prop("C02", "Neutral settings of every backend give the exact IEEE result bit for bit",
     "Under the exact mode of each backend (IEEE backend; mode ieee of the MCA, integer MCA, bitmask and VPREC backends; VPREC at "
     "full precision and range; a cancellation tolerance no operation reaches), every add, subtract, multiply, divide, fused "
     "multiply-add and double-to-float cast returns the correctly rounded IEEE-754 result for all operands, signed zeros, "
     "subnormals, infinities and overflow boundaries included; NaN results are NaN. (A VPREC cast that underflows to zero may give either zero.)",
     ["inputs", "configurations"], "all operand bit patterns of both formats, all backends in their exact configuration",
     "Tests compare a handful of operand values; 2^128 operand pairs and every boundary of the format cannot be sampled by examples.",
     [MCA, MCI, VP, VPT, BM, CA, IEEE, "src/interflop-stdlib/fma/interflop_fma.c"],
     [("computation in a wider format, rounded once", MCA), ("rounding skipped in mode ieee", VP)],
     ["result bits of each operation"])

prop("C03", "Each executed floating point operation reaches the backend exactly once",
     "Every add, subtract, multiply and divide on float or double executed by instrumented code, scalar or inside a vector of two, "
     "four, eight or sixteen lanes, causes exactly one call to the backend per scalar lane with exactly the operands of the program in program order, and "
     "the program continues with exactly the value the backend returned. The same holds for fused multiply-add, double-to-float "
     "cast and comparison when their instrumentation is requested, and no backend call happens for them otherwise.",
     ["programs", "inputs", "configurations"],
     "all programs and option sets; all lanes; any value chosen by the backend",
     "Tests grep the emitted code or look at one value; a dropped lane, swapped operand or ignored result shows only for a shape and "
     "operand pattern they do not contain.",
     [PASS, W, DRV],
     [("opcode classification and call insertion", PASS), ("lane loops of the vector wrappers", W)],
     ["event log of a recording backend against the shadow log of the uninstrumented program"])

prop("C04", "Only the selected functions are instrumented, and all of them are",
     "When a function name, an inclusion file or an exclusion file (with wildcards on module and function) is given at compile time, the "
     "operations executed inside selected functions all reach the backend and those inside any other function never do and keep their "
     "native results. Inclusion has priority over exclusion, an inclusion file alone excludes everything it does not name, and without any filter every function is selected.",
     ["programs", "configurations"], "all call graphs, all lists of module/function patterns",
     "The tests use one fixed module list; pattern matching, precedence and name handling must hold for any list.",
     [PASS, DRV], [("function filter built from the pattern files", PASS)],
     ["backend events attributed to functions"])

prop("C05", "Instrumented comparisons decide every ordered and unordered relation",
     "When comparison instrumentation is requested, each of the sixteen floating point comparison relations on float, double and vectors of "
     "them yields the truth value IEEE-754 gives for the operands, NaNs, signed zeros, infinities and subnormals included, so branches "
     "go the same way as without instrumentation.",
     ["inputs", "programs"], "all operand pairs, all sixteen relations, scalar and vector",
     "The suite has one branch test with ordinary values.",
     [IEEE, W, PASS], [("predicate table", IEEE), ("predicate translation", PASS)], ["truth values"])

prop("C06", "Chained backends all see every event, in order, and the last one decides",
     "With several backends configured, each event of the program (arithmetic, cast, user call, function entry and exit, program end) is "
     "delivered exactly once to every backend that implements it, in the order of the configuration and with the program's own operands, and "
     "the value returned to the program is the one stored by the last backend implementing the operation. "
     "Each backend receives exactly its own options and is finalised exactly once.",
     ["configurations", "histories"], "all lists of 1..16 backends with options, all operation sequences",
     "Tests chain at most two backends.",
     [W], [("backend table and dispatch loops", W), ("configuration parsing", W)],
     ["event logs of recording backends"])

prop("C07", "Backend configuration is honoured exactly or rejected before the program runs",
     "Every documented option value of every backend is taken into account and reported as given; an unknown backend, unknown option or "
     "invalid value stops the process with an error and non-zero status before any user code runs. The configuration comes from the "
     "environment variable, else from the named file, is left intact in the environment for child processes, and silent loading and the "
     "logger switch affect only diagnostics.",
     ["configurations", "inputs"], "all option strings and values of all backends",
     "Tests pass a few valid option strings.",
     [W, MCA, MCI, VP, BM, CA, IEEE, "src/interflop-stdlib/iostream/logger.c"],
     [("option parsing and validation", "the backends' command line parsers"), ("environment parsing", W)],
     ["loading messages, exit status, environment of child processes"])

prop("C08", "MCA results stay inside the noise envelope of the virtual precision",
     "For every operation under the MCA backend, the result is the floating point rounding of an exact operation on operands, each perturbed by at most half a "
     "unit in the last place at the virtual precision of its type where the mode perturbs inputs, with the result perturbed by at most half a unit "
     "where the mode perturbs outputs (inputs in mode pb, output in rr, both in mca, none in ieee; a cast counts as an operation on double). "
     "Zero, infinite and NaN values are never perturbed, and in mode rr a result exactly representable at the virtual precision is returned "
     "unchanged.",
     ["inputs", "configurations"], "all operands, precisions, modes, seeds and operations",
     "Tests check a spread on a few fixed programs; the envelope must hold for every operand, precision and random draw, including the extreme ones.",
     [MCA, FU, RNG, "src/interflop-stdlib/common/options.h"],
     [("noise scaled by exponent and precision", MCA), ("representability test", FU)],
     ["result bits of each operation against an exact interval"])

prop("C09", "Integer MCA results stay inside the noise envelope of the virtual precision",
     "The integer variant of the MCA backend gives the same guarantee: results are roundings of the exact operation on operands and result "
     "perturbed by relative noise bounded by half a unit in the last place at the virtual precision (up to the change of unit when the noise crosses a power of two), with the same meaning of the "
     "modes, and zero, infinite, NaN and (in mode rr) exactly representable values are never perturbed.",
     ["inputs", "configurations"], "all operands, precisions, modes, seeds and operations",
     "Tests check a spread on a few fixed programs.",
     [MCI, FU, RNG], [("noise added to the integer image of the value", MCI)],
     ["result bits of each operation against an exact interval"])

prop("C10", "MCA noise is uniform, centred and independent",
     "Over many operations the relative noise added by the MCA backends at virtual precision t is uniformly distributed over the full "
     "half-unit interval on both sides of the exact value: mean zero, variance of the uniform law, no dead zone, no repetition and no "
     "correlation between successive operations or between threads. In mode rr a result with more bits than the precision is always perturbed. Each perturbation (of an operand or a result) takes place with a probability equal to the configured sparsity.",
     ["inputs", "configurations", "histories"], "all operations, precisions, seeds, threads",
     "Tests look at the output spread of a few programs; bias or truncated noise stays within their loose bounds.",
     [MCA, MCI, RNG, "src/interflop-stdlib/rng/xoroshiro128.c", "src/interflop-stdlib/rng/splitmix64.c",
      "src/interflop-stdlib/common/options.h"],
     [("uniform draw in (0,1)", RNG), ("sparsity draw", "src/interflop-stdlib/common/options.h")],
     ["normalised noise of each operation"])

prop("C11", "Absolute error, denormal flags and sparsity of MCA act exactly as documented",
     "In absolute-error mode the perturbation is bounded by half of two to the configured exponent, in combined mode by the sum of both noises; with the "
     "denormals-are-zero flag subnormal operands act as zero, with the flush-to-zero flag subnormal results become zero and nothing else "
     "changes.",
     ["inputs", "configurations"], "all operands, exponents, precisions and flag combinations, MCA, integer MCA and bitmask flags",
     "Tests use one program and one exponent.",
     [MCA, MCI, BM, FU], [("absolute noise", MCA), ("denormal tests", FU)], ["result bits"])

prop("C12", "A fixed seed reproduces a run; different seeds, runs and threads differ",
     "With the seed option every random backend gives bit-identical results on every run of the same single-threaded program, for every precision, mode and "
     "sparsity, and different seeds give different noise. Without it two runs use different noise; threads never share a noise stream.",
     ["configurations", "histories", "schedules"], "all seeds, backends, programs; thread counts",
     "One test fixes one seed on one backend.",
     [RNG, MCA, MCI, BM, CA], [("per-thread generator state and seeding", RNG)], ["result bits of repeated runs"])

prop("C13", "VPREC results are correctly rounded to the requested format",
     "Under the VPREC backend with an exponent of r bits and a pseudo-mantissa of p bits, every result in outbound mode is the native IEEE result rounded to the "
     "nearest value of that format, ties to even, with gradual underflow (an exact half of the smallest subnormal may go to either neighbour, and a result rounded to zero may have either sign) and overflow to infinity; "
     "infinities and NaN pass through. Inbound mode rounds the operands instead, full mode both, and rounding a value of the format changes nothing.",
     ["inputs", "configurations"], "all operands, all (range, precision) pairs of both types, all modes and operations",
     "Tests sample some values per precision against a reference; boundaries of all 176+510 formats are not covered.",
     [VP, VPT], [("rounding of the mantissa", VPT), ("range handling", VP)], ["result bits against an exact reference"])

prop("C14", "VPREC options, presets, flags and error modes act exactly as documented",
     "Presets select the documented format; where the mode rounds operands (results), denormals-are-zero (flush-to-zero) zeroes exactly those below the normal range of the simulated format; "
     "in absolute-error mode a finite in-range result differs from the native one by at most the configured power of two, and in combined mode it also has no more bits than the precision allows; "
     "binary32 and binary64 settings never influence each other.",
     ["inputs", "configurations"], "all operands, option combinations",
     "Tests use a few options.",
     [VP, VPT], [("preset table, absolute error handling", VP)], ["result bits"])

prop("C15", "The bitmask backend alters exactly the bits below the virtual precision",
     "Under the bitmask backend at virtual precision t, the operator zero (one) sets the mantissa bits beyond the first t significant bits to zero (one), and rand flips each of those bits at random and no other; "
     "sign, exponent, the first t significant bits and zero, infinite and NaN values are untouched, for normal and subnormal numbers, on operands and/or result as the mode says (a result already representable is left alone in mode ob).",
     ["inputs", "configurations"], "all operands, precisions, operators, modes",
     "One test with a few values.",
     [BM, FU], [("mask computation", BM)], ["result bits"])

prop("C16", "The cancellation backend perturbs cancelling additions only, by a bounded noise",
     "Additions and subtractions whose result exponent is lower than the larger operand exponent by at least the tolerance get a random noise no larger than the result's own leading bit shifted down by the number of cancelled bits; "
     "every other operation, and every non-finite result, is returned exactly as IEEE arithmetic gives it. With warnings on, one message per detected cancellation states its size.",
     ["inputs", "configurations"], "all operands, tolerances, seeds",
     "Tests check one program's spread.",
     [CA], [("exponent difference test and noise", CA)], ["result bits, messages"])

prop("C17", "Instrumented programs can be multi-threaded: no race, no lost or mixed result",
     "Any number of threads may execute instrumented operations concurrently under the re-entrant backends: no data race occurs in the wrapper or the backends, each thread's results "
     "satisfy the same guarantees as single-threaded, deterministic configurations give the same values whatever the schedule, and each thread draws its own noise stream.",
     ["schedules", "configurations"], "all thread counts and interleavings",
     "The suite has no concurrent test with an oracle; a race needs a schedule.",
     [W, RNG, MCA, MCI, BM, CA, VP, IEEE], [("thread-local generator state", "backends"), ("atomic thread numbering", RNG)],
     ["ThreadSanitizer reports, per-thread result logs"])

prop("C18", "No input or configuration makes the runtime corrupt memory or invoke UB",
     "For every operand, option string, configuration or filter file, sequence of user calls and amount of probes, backends, wrapper and support libraries neither access memory out of bounds or after "
     "free, nor decide on values nobody wrote, nor execute undefined shifts or integer overflow; bad configurations end in a reported error.",
     ["inputs", "configurations", "histories"], "all inputs, option strings and files",
     "Tests run without sanitizers on well-formed inputs.",
     [W, MCA, MCI, VP, VPT, VFI, BM, CA, IEEE, HM, "src/common/vfc_probes.c"],
     [("bounds and validation in parsers and tables", "backends and wrapper")], ["ASan and UBSan reports"])

prop("C19", "Calls from user code into the runtime do exactly what was asked",
     "Under the backends that implement user calls (MCA and VPREC), a program may change the virtual precision or range of a type or request noise on a value at any point: from that call on, and not before, operations of that type (only) follow the new setting, until the next change. "
     "A request for noise perturbs that variable only, within the requested precision (relative to the current one when zero or negative), leaves zero, infinite and NaN and exact mode alone, and reaches every loaded backend.",
     ["histories", "inputs"], "all sequences of calls and operations",
     "Two tests with one fixed sequence each.",
     [W, MCA, VP], [("user call dispatch", W), ("setting handlers", MCA)], ["result bits along random histories"])

prop("C20", "Function profiles list every call site with exact counts and argument ranges",
     "With function instrumentation and profile output, the profile of the run lists each executed call site of a function using floating point exactly once, with the exact number of calls, the types of its arguments and return values and integer bounds of "
     "the finite values each of them took (floor of the smallest, ceiling of the largest, saturated to the int range; the elements of local arrays passed by address included); the program's results are unchanged at default precision, and the profile is accepted back as input.",
     ["programs", "inputs"], "all call graphs (nesting, recursion, multiple sites) and argument values",
     "One fixed program.",
     [VFI, "src/vfcwrapper/funcinstr.c", FPASS], [("call-site table", VFI), ("call stack", "src/vfcwrapper/funcinstr.c")],
     ["profile file against a shadow profile"])

prop("C21", "Per-function precision applies to that call only and is restored after it",
     "When a profile assigns formats to a call site, its floating point arguments and return value are rounded to the formats given for them and the operations executed inside are rounded to the given internal format (as the selected instrumentation mode says); callers, callees with their own entry and "
     "other sites of the same function are unaffected, and on return the caller's format is in force again.",
     ["programs", "configurations"], "all call graphs and format assignments",
     "One fixed program.",
     [VFI, VP, FPASS], [("save and restore on entry and exit", VFI)], ["result bits against a shadow interpreter"])

prop("C22", "Delta-debug filters instrument exactly the listed operations",
     "In a delta-debug build, generation lists every instrumented operation site executed by any thread, once, under its source location; running with an inclusion list perturbs exactly the listed sites, running with an exclusion list all but the listed ones, every other operation keeping its exact native "
     "result; exclusion has priority, and the full list reproduces the unfiltered run.",
     ["programs", "configurations", "schedules"], "all programs, single- or multi-threaded, and all subsets of sites",
     "Tests use one program and whole lists; the guarantee is over all subsets.",
     [W, HM], [("address filters", W)], ["backend events per site"])

prop("C23", "The delta-debug search returns minimal failing sets that really fail",
     "For every deterministic failure predicate over operation sites, the search terminates, and each set it reports really fails when run alone and no longer fails when any single element is removed; the reported union covers a failing set whenever the full set fails, the complement it proposes passes, and nothing is reported when the full set passes; the maximising search returns a passing set to which no single element can be added. "
     "Each verdict rests on the requested number of runs.",
     ["inputs", "configurations"], "all failure predicates (monotone or not), numbers of samples, algorithms, parallelism",
     "Tests run two fixed programs.",
     ["src/tools/ddebug/DD.py", "src/tools/ddebug/DD_stoch.py", "src/tools/ddebug/dd_config.py"],
     [("ddmin variants", "src/tools/ddebug/DD.py"), ("sampled verdicts and caching", "src/tools/ddebug/DD_stoch.py")],
     ["result sets against an oracle predicate"])

prop("C24", "Probes record each variable exactly once with its exact value",
     "Every probe of a test and variable is written to the output exactly once with exactly the value given (all doubles round-trip), its accuracy threshold and check mode, in a well-formed file; a repeated or invalid probe is refused with an error and never silently overwrites another. "
     "This holds for any number of probes and any names of printable characters other than commas, quotes and line breaks.",
     ["inputs", "histories"], "all sequences of probe calls, names and values",
     "Tests write a few probes.",
     ["src/common/vfc_probes.c", "src/common/vfc_probes.h", HM], [("keyed table and dump", "src/common/vfc_probes.c")],
     ["dumped file against a model"])

prop("C25", "Continuous integration statistics and verdicts follow from the samples",
     "For every set of runs, the stored mean, standard deviation, quantiles, significant digits and bounds of each probe are those of the recorded samples, failed or missing probes never contaminate others, and each probe with an accuracy threshold passes exactly when the measured error (deviation from the IEEE reference run for a deterministic backend, standard deviation otherwise; divided by the reference or the mean when relative) is strictly below it. Runs that give no data are reported. "
     "The results file contains every declared test, probe and backend once.",
     ["inputs", "configurations"], "all sample sets and thresholds",
     "One fixed example is run and only its completion is checked.",
     ["src/tools/ci/test.py", "src/tools/ci/test_data_processing.py"], [("data processing", "src/tools/ci/test_data_processing.py")], ["result tables against recomputation"])

prop("C26", "Operation counts and traces report exactly the operations executed",
     "With counting on, the totals printed at the end equal the number of additions, subtractions, multiplications, divisions and fused multiply-adds executed, by any number of threads joined before the end on the way there; with tracing on, each operation "
     "prints one record in program order whose operands and result denote the values computed (exactly in binary, to six digits in decimal).",
     ["programs", "inputs"], "all operation sequences and values",
     "Tests count one program.",
     [IEEE, "src/interflop-stdlib/iostream/logger.c", "src/backends/interflop-backend-ieee/common/printf_specifier.c"],
     [("counters and printers", IEEE)], ["log records against the shadow log"])

prop("C27", "The keyed table behaves as a map for every history of operations",
     "After any sequence of insertions, replacements, removals and lookups the table answers membership, lookup, size and enumeration exactly as a mathematical map keyed by the same keys, including after growth and after many deletions; distinct keys never interfere.",
     ["histories", "inputs"], "all operation histories and keys",
     "It has no unit test.",
     [HM], [("open addressing with growth", HM)], ["answers against a model map"])

prop("C28", "The compiler driver compiles what the user asked and nothing else",
     "For every command line, the driver gives the underlying compiler the user's options, macros, paths and sources verbatim (spaces and quotes included), produces the requested outputs with the requested instrumentation (objects, shared objects, executables, bitcode and dependency files; preprocessed and assembly outputs are those of the plain compiler), "
     "fails with non-zero status and a message when the compilation fails, and leaves no temporary file behind unless asked to (without -o, the object of a source lies beside it).",
     ["configurations", "inputs"], "all command lines",
     "Tests cover two quoting cases.",
     [DRV, "verificarlo-c", "verificarlo-c++"], [("argument forwarding and quoting", DRV)], ["behaviour of the products, directory contents, status"])

prop("C29", "Precision search yields settings that keep the program acceptable",
     "The precision exploration tool terminates and the reduced formats it writes, applied to the program, still satisfy the user's acceptance criterion. When acceptability is monotone in the formats and each has its own threshold, the formats found are the least acceptable ones; the files of results list the profile's functions, arguments and formats faithfully. A trial that crashes, fails or exceeds the time limit is never accepted.",
     ["programs", "configurations"], "all programs, criteria and search options",
     "There is no test of it.",
     ["src/tools/vfc_precexp", "src/tools/optimize/precexp.py"], [("dichotomy on each format", "src/tools/vfc_precexp")], ["acceptance of the produced settings"])

prop("C30", "The CI report shows exactly what the recorded runs contain",
     "A run file produced by vfc_ci test carries the metadata of the commit it was made on, and the report opened by vfc_ci serve on any set of run files (several repositories, branches, variables, backends) shows, after any sequence of user actions, exactly the selected runs' data: every run of the selected repository within the limit of most recent runs, the values, bounds, checks and metadata recorded for the selected test, variable and backend, with failed checks marked as such and outliers removed only on request; the options of vfc_ci serve reach the report unchanged.",
     ["inputs", "histories"], "all sets of run files, options and sequences of user actions in the report",
     "The only tests of the CI tools are unit tests of data_processing; no report is ever opened.",
     ["src/tools/ci/serve.py", "src/tools/ci/test.py", "src/tools/ci/__main__.py", "src/tools/ci/vfc_ci_report"],
     [("the report's views", "src/tools/ci/vfc_ci_report/main.py")], ["contents of each widget, plot, tooltip and table"])

prop("C31", "VTK postprocessing reports the accuracy of every floating point array",
     "vfc_vtk, given the outputs of several runs, writes a copy of the reference output (the given one or the first run's) in which every floating point array has one accuracy array holding, value by value, the number of significant decimal digits common to the runs (-log10 |deviation/mean|, between 0 and 17) or, with --std, the standard deviation; with --mean the arrays hold the means. Everything else is unchanged, inputs are not modified, and an existing output is never overwritten.",
     ["inputs", "configurations"], "all sets of outputs and options",
     "There is no test of it.",
     ["src/tools/vtk/__main__.py", "src/tools/vfc-vtk.py"], [("statistics across the runs", "src/tools/vtk/__main__.py")], ["the files written"])

prop("C32", "The exploration report shows the results of the exploration",
     "vfc_report, run after vfc_precexp, shows every function and call site of the result files (only those of the functions named on the command line or called by them, when given) with their numbers of calls in decreasing order, and for each call site the argument formats, value intervals and operation formats found by the exploration the link names (arguments and operations together, arguments only, operations only); details are offered exactly where the results have them.",
     ["inputs", "configurations"], "all result files and selections of functions",
     "There is no test of it.",
     ["src/tools/vfc_report", "src/tools/optimize/report.py"], [("tables and drawings", "src/tools/vfc_report")], ["the page and the drawings"])

prop("C33", "vfc_ci setup adds the workflow and its result branch, and nothing else",
     "vfc_ci setup, on a clean branch in step with its remote, adds one commit with the workflow file only, pushes it, and creates and pushes the orphan branch vfc_ci_<branch> holding only its README, unless the remote has it, in which case its results stay; the work tree, current branch, ignored files and every other branch stay as they were, here and on the remote. "
     "The workflow runs for that branch only, and each run adds the result files of vfc_ci test to vfc_ci_<branch> of the remote, keeping the earlier ones. With local changes, untracked files it would publish, no upstream, or a branch behind or diverged from its remote, it fails and changes nothing; success is reported only when the remote took both branches.",
     ["histories", "configurations", "fault_sequences"], "all repository states, branch names, hosts, remote addresses and refused pushes",
     "There is no test of it.",
     ["src/tools/ci/setup.py", "src/tools/ci/workflow_templates"], [("setup", "src/tools/ci/setup.py")], ["refs, trees and work tree of both repositories", "effects of the workflow's scripts"])

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    try:
        import jsonschema
        sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in P:
            jsonschema.validate(p, sch)
    except ImportError:
        pass
    print(len(P), "properties")
