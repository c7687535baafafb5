#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "differential runtime monitoring of instrumented against plain executions of random programs",
    "C02": "result oracle (exact arithmetic) over executions of the real backends on hostile operands",
    "C03": "trace monitor backend + exact model of the random program",
    "C04": "trace monitor backend + model of the selection rules",
    "C05": "result oracle over executed comparisons, all predicates and operand classes",
    "C06": "trace monitors chained as backends, conservation and ordering checker",
    "C07": "runtime monitoring of configurations: effective-setting oracle and early-exit monitor",
    "C08": "online envelope oracle over executed operations",
    "C09": "online envelope oracle over executed operations",
    "C10": "statistical monitor over recorded noise",
    "C11": "envelope and frequency monitors over executed operations",
    "C12": "multi-run trace comparison (replay, seed, thread and run monitors)",
    "C13": "exact rounding oracle over executed operations",
    "C14": "exact rounding oracle over executed operations, option sweep",
    "C15": "bit-level oracle over executed operations and recorded random draws",
    "C16": "noise monitor over executed operations and recorded random draws",
    "C17": "ThreadSanitizer on runtime, wrapper and backends, plus per-thread conservation monitor",
    "C18": "AddressSanitizer + UBSan, and memcheck for uninitialised reads, on runtime, wrapper and backends under hostile configurations, files and operands",
    "C19": "monitor of user calls: state oracle over recorded effects",
    "C20": "profile checker against a model of the executed calls",
    "C21": "trace of values in called functions against a rounding model",
    "C22": "delta-debug executions under a perturbing monitor backend, per-site oracle",
    "C23": "monitored search: recorded oracle calls and results checked against the failing-set model",
    "C24": "offline checker of probe files against the recorded calls",
    "C25": "offline recomputation of statistics over random samples",
    "C26": "offline checker of counts and traces against the executed operations",
    "C27": "history checker (map model) under ASan",
    "C28": "monitored compiler-driver runs: results and files against plain compiler",
    "C29": "monitored search: recorded runs of the program and its settings",
    "C30": "monitored sessions of the real report: every view recomputed from the run files after each user action",
    "C31": "offline recomputation of the statistics from the runs' files, exact arithmetic",
    "C32": "recorded drawings and page of real reports against the result files",
    "C33": "git state before and after real setups, and after running the produced workflow, with refused pushes",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)):
        checks.append({"property": i, "quick_cmd": "python3 %s quick" % f, "thorough_cmd": "python3 %s thorough" % f,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
                       "level_note": "Holds on every execution the monitors observed (see the evidence file); inputs are sampled, not enumerated. Trusted: the host compiler, "
                                     "libm/glibc, and the oracle in /verif/lib, which is written from the documentation and independent of the code."})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 lib/vbuild.py std asan tsan", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hook is needed in /repo: monitors are backends, interposed libraries and sanitizer builds", "source_commits": []},
     "notes": "Known and repaired defects: known_findings.json. Method per property: DESIGN.md."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", len(na), "not claimed")
