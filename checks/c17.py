#!/usr/bin/env python3
"""C17: instrumented operations of concurrent threads: no race, no lost or mixed result."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, workload as wl, bmoracle, vporacle as vp, mcacheck


def conf_mca(r):
    c = {"kind": "quad" if r.random() < 0.6 else "int", "mode": r.choice(("mca", "rr", "pb")), "p": (24, 53)}
    if c["kind"] == "quad":
        c["p"] = (r.randint(1, 30), r.randint(1, 60))
    if r.random() < 0.2:
        c["daz"] = True
    if r.random() < 0.2:
        c["ftz"] = True
    if r.random() < 0.3:
        c["seed"] = r.getrandbits(30)
    return c


def det_options(r):
    """configurations whose results do not depend on random draws"""
    out = ["libinterflop_ieee.so", "libinterflop_ieee.so --count-op", "libinterflop_mca.so --mode=ieee", "libinterflop_mca_int.so --mode=ieee --daz --ftz",
           "libinterflop_cancellation.so --tolerance=3000", "libinterflop_mca.so --precision-binary32=100 --precision-binary64=200",
           "libinterflop_ieee.so; libinterflop_vprec.so --precision-binary32=5 --precision-binary64=9; libinterflop_bitmask.so --operator=one --precision-binary64=40"]
    for m in ("ob", "ib", "full"):
        out.append("libinterflop_vprec.so --mode=%s --precision-binary32=%d --precision-binary64=%d --range-binary32=%d --range-binary64=%d" % (m, r.randint(1, 23), r.randint(1, 52), r.randint(2, 8), r.randint(2, 11)))
        out.append("libinterflop_bitmask.so --mode=%s --operator=%s --precision-binary32=%d --precision-binary64=%d" % (m, r.choice(("zero", "one")), r.randint(1, 23), r.randint(1, 52)))
    out.append("libinterflop_vprec.so --error-mode=all --max-abs-error-exponent=%d --precision-binary64=20" % r.randint(-60, 10))
    return out


def schedule(r):
    return (r.choice((2, 3, 8, 8, 16, 24)), r.choice((1, 1, 2, 5, 20)), r.choice((0, 0, 3, 40)))


def user(r, log, recs):
    """inexact user calls among the operations"""
    for _ in range(len(recs) // 20):
        t = r.getrandbits(1)
        i = r.randrange(len(recs))
        if recs[i][0] < VADD and recs[i][0] != INEXACT:
            recs[i] = rec(INEXACT, t, fpx.ONE[t] | r.getrandbits(fpx.MANT[t]), iarg=r.choice((0, 1, 5, 20, -1, -3)))
    return recs


def body(chk):
    pre = vbuild.build("std")
    tpre = vbuild.build("tsan")
    drv = build_drv(pre)
    tdrv = build_drv(pre, san=["-fsanitize=thread"], sanlib=tpre)
    r = chk.rng
    # 1. deterministic configurations: the results do not depend on the schedule
    base = [wl.records(r, 6000)[0] for _ in range(3)]
    for opt in det_options(r):
        recs = r.choice(base) * 4
        one, res = drive(chk, drv, pre, opt, recs, VFC_BACKENDS_LOGGER="True")
        if one is None:
            if res.timeout:
                raise Hang("driver timed out under " + opt)
            chk.violation("%s: the program died (status %s)" % (opt, res.rc), opt)
            continue
        c1 = re.findall(rb"operations count:\s*\n?|\b(mul|div|add|sub|fma)=(\d+)", res.err + res.out)
        for _ in range(chk.n(6, 40)):
            sch = schedule(r)
            many, res2 = drive(chk, drv, pre, opt, recs, threads=sch, VFC_BACKENDS_LOGGER="True")
            chk.observe(len(recs), ("same", opt.split(" -")[0], sch[0], sch[1] > 1, bool(sch[2])))
            chk.count("results compared with the single thread", len(recs))
            if many is None:
                if res2.timeout:
                    raise Hang("driver timed out under " + opt)
                chk.violation("[%s] threads %s: the program died (status %s) %s" % (opt, sch, res2.rc, res2.err[-200:]), opt)
                continue
            d = [i for i in range(len(recs)) if one[i] != many[i]]
            if d:
                i = d[0]
                chk.violation("[%s] threads %s: %d of %d results differ from the single thread; first %s: %#x, alone %#x" % (opt, sch, len(d), len(recs), OPNAME[recs[i][0]], many[i], one[i]),
                              {"backend": opt, "threads": sch, "record": [hex(x) for x in recs[i]]})
            if "count-op" in opt:
                c2 = re.findall(rb"operations count:\s*\n?|\b(mul|div|add|sub|fma)=(\d+)", res2.err + res2.out)
                if c1 != c2 or not [x for x in c1 if x[0]]:
                    chk.violation("[%s] threads %s: counts %s, alone %s" % (opt, sch, c2, c1), opt)
    # 2. the guarantees of each backend hold in every thread
    for k in range(chk.n(30, 300)):
        recs, log = wl.records(r, 2500)
        mcacheck.envelope_run(chk, drv, pre, conf_mca(r), recs, log, threads=schedule(r))
    for k in range(chk.n(5, 60)):
        conf = {"mode": r.choice(("ob", "ib", "full")), "p": (r.randint(1, 23), r.randint(1, 52)), "r": (r.randint(2, 8), r.randint(2, 11))}
        recs, log = wl.records(r, 2000, gen=vp.generator(conf))
        vp.run_conf(chk, drv, pre, conf, recs, log, threads=schedule(r))
        conf = {"mode": r.choice(("ob", "ib", "full")), "op": r.choice(("zero", "one", "rand")), "p": (r.randint(1, 23), r.randint(1, 52))}
        recs, log = wl.records(r, 2000)
        bmoracle.run_conf(chk, drv, pre, conf, recs, log, threads=schedule(r))
    # 3. ThreadSanitizer over wrapper, backends and support libraries
    opts = det_options(r) + ["libinterflop_bitmask.so --operator=rand --mode=%s" % m for m in ("ob", "full")] + ["libinterflop_cancellation.so", "libinterflop_cancellation.so --tolerance=0 --seed=4"]
    opts += [mcacheck.option(conf_mca(r)) for _ in range(chk.n(10, 60))]
    opts += ["libinterflop_mca.so --sparsity=0.3", "libinterflop_mca_int.so --sparsity=0.5", "libinterflop_mca.so --error-mode=all --max-abs-error-exponent=-20",
             "libinterflop_mca.so; libinterflop_mca_int.so; libinterflop_cancellation.so; libinterflop_bitmask.so --operator=rand"]
    seen = set()
    for rep in range(chk.n(2, 16)):
        for opt in opts:
            recs = user(r, None, wl.records(r, 3000)[0]) if "mca_int" not in opt else wl.records(r, 3000)[0]
            sch = schedule(r)
            outs, res = drive(chk, tdrv, tpre, opt, recs, threads=sch, VFC_BACKENDS_LOGGER="False", TSAN_OPTIONS="halt_on_error=0 exitcode=66 report_signal_unsafe=0")
            chk.observe(len(recs), ("tsan", opt.split(" -")[0], sch[0], sch[1] > 1, bool(sch[2])))
            chk.count("operations under ThreadSanitizer", len(recs))
            if res.timeout:
                raise Hang("driver timed out under ThreadSanitizer")
            if b"FATAL: ThreadSanitizer" in res.err:
                raise Inconclusive("ThreadSanitizer cannot run: %s" % res.err[-300:])
            w = re.findall(r"SUMMARY: ThreadSanitizer: (.*)", res.err.decode(errors="replace"))
            for x in sorted(set(w)):
                if x not in seen and len(seen) < 8:
                    seen.add(x)
                    i = res.err.decode(errors="replace").find(x)
                    chk.violation("[%s] threads %s: ThreadSanitizer: %s" % (opt, sch, x), {"backend": opt, "threads": sch, "report": res.err.decode(errors="replace")[max(0, i - 3500):i + 200]})
            if not w and outs is None:
                chk.violation("[%s] threads %s under ThreadSanitizer: status %s %s" % (opt, sch, res.rc, res.err[-300:]), opt)
            chk.sample({"config": opt, "threads x rounds x yield": sch, "reports": len(w)})


run_check("C17", "2..24 threads, up to 20 generations of them, started together, with and without injected yields, performing operations (scalar, vector, fma, cast, user calls) under every "
          "backend: results of deterministic configurations compared with the single thread, results of random ones with the backend's oracle, operation counts, and the same under "
          "ThreadSanitizer (wrapper, backends and support libraries instrumented); distinct = part x backend x threads x generations x yields", body,
          ["user calls that change the settings, function instrumentation and delta-debug generation are single-threaded by design"])
