#!/usr/bin/env python3
"""C02: exact configurations of every backend return the IEEE result, bit for bit."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, workload as wl

CONFIGS = [
    "libinterflop_ieee.so",
    "libinterflop_mca.so --mode=ieee",
    "libinterflop_mca.so --mode=ieee --precision-binary32=5 --precision-binary64=9 --seed=3 --error-mode=all --max-abs-error-exponent=0",
    "libinterflop_mca_int.so --mode=ieee",
    "libinterflop_mca_int.so --mode=ieee --seed=3 --sparsity=0.5",
    "libinterflop_bitmask.so --mode=ieee",
    "libinterflop_bitmask.so --mode=ieee --operator=rand --precision-binary32=5 --precision-binary64=9",
    "libinterflop_vprec.so --mode=ieee --precision-binary32=5 --precision-binary64=9 --range-binary32=4 --range-binary64=5",
    "libinterflop_vprec.so",
    "libinterflop_vprec.so --mode=full",
    "libinterflop_vprec.so --mode=ib --precision-binary32=23 --precision-binary64=52 --range-binary32=8 --range-binary64=11",
    "libinterflop_cancellation.so --tolerance=5000",
]


def body(chk):
    pre = vbuild.build("std")
    drv = build_drv(pre)
    n = chk.n(60000, 600000)
    for ci, conf in enumerate(CONFIGS):
        recs, log = wl.records(chk.rng, n)
        outs, r = drive(chk, drv, pre, conf, recs, threads=(4 if ci % 2 else 0))
        if outs is None:
            if r.timeout:
                raise Hang("driver timed out under " + conf)
            chk.violation("%s: the program died (status %s) %s" % (conf, r.rc, r.err[-300:]), conf)
            continue
        for (op, t, a, b, c), got in zip(log, outs):
            want = wl.exact(op, t, a, b, c)
            rt = wl.rtype(op, t)
            chk.observe(1, (ci, op, t, fpx.bucket(a, t), fpx.bucket(b, t)[:2], "n" if want == "nan" else fpx.bucket(want, rt)[:2]))
            if "vprec" in conf and op == CAST and want != "nan" and not fpx.same(got, want, rt):
                # C13: the sign of a result that underflows to zero and the tie at half of the smallest
                # subnormal are not specified for VPREC
                if fpx.is_zero(want, rt) and fpx.is_zero(got, rt):
                    continue
                if (a & ~fpx.SIGN[1]) == (1023 - 150) << 52 and (got & 0x7FFFFFFF) <= 1:
                    continue
            if not fpx.same(got, want, rt):
                chk.violation("%s: %s, IEEE gives %s" % (conf, wl.show(op, t, a, b, c, got), want if want == "nan" else fpx.show(want, rt)),
                              {"backend": conf, "op": OPNAME[op], "type": t, "a": hex(a), "b": hex(b), "c": hex(c), "got": hex(got)})
        chk.count("operations " + conf.split()[0][13:-3], len(log))
        chk.sample({"backend": conf, "op": wl.show(*log[len(log) // 2], got=outs[len(log) // 2])})


run_check("C02", "operands drawn from classes (zeros, subnormals, range limits, ties, few bits, cancelling pairs, any bits); every "
          "result compared with exact integer arithmetic; distinct = configuration x operation x type x operand and result classes",
          body, ["fpx.py implements IEEE-754 rounding with integers", "NaN payloads are not compared"])
