#!/usr/bin/env python3
"""seedcheck.py ID...: apply seeded/ID/patch.diff to /repo, build, run its demo, the stable tests and the quick check of its property, then undo.
--notest skips the tests; --checks C01,C02 runs other checks."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
notest = "--notest" in args
other = [a.split("=")[1].split(",") for a in args if a.startswith("--checks=")]
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))


def sh(c, cwd="/repo", t=1800):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors="replace")


base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("passed") or base.get("stable") or base.get("tests") or base
for i in ids:
    d = os.path.join(V, "seeded", i)
    m = json.load(open(d + "/meta.json"))
    if subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True).stdout.strip():
        sys.exit("/repo is not clean")
    sh("bash /opt/vp/build.sh")
    r0, o0 = sh("bash %s/demo.sh" % d)
    rc, o = sh("git apply %s/patch.diff" % d)
    if rc:
        print(i, "DOES NOT APPLY", o)
        continue
    try:
        rb, ob = sh("bash /opt/vp/build.sh")
        if rb:
            print(i, "BUILD FAILS", ob[-2000:])
            continue
        r1, o1 = sh("bash %s/demo.sh" % d)
        t = ""
        if not notest:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            res = json.load(open("/tmp/seedtest.json"))
            miss = [x for x in stable if x not in res["passed"]]
            t = "tests ok" if not miss else "TESTS FAIL %s" % miss
        out = []
        for c in (other[0] if other else [m["property"]]):
            f = "%s/checks/%s.py" % (V, c.lower())
            if not os.path.exists(f):
                out.append("%s: none" % c)
                continue
            t0 = time.time()
            rk, ok = sh("VERIF_SEED=1 VERIF_TIER=quick python3 %s quick" % f, cwd=V)
            out.append("%s: rc %d %s (%.0fs)" % (c, rk, "CAUGHT" if rk == 1 and "VIOLATION property=" + c in ok else "missed", time.time() - t0))
            if "-v" in os.environ.get("SC", ""):
                print(ok[-1500:])
        print(i, m["property"], "demo clean %d mutant %d;" % (r0, r1), t, "; ".join(out), flush=True)
        if r0:
            print(o0[-800:])
    finally:
        sh("git checkout -- .")
sh("bash /opt/vp/build.sh")
