#!/usr/bin/env python3
"""C15: the bitmask backend alters exactly the bits below the virtual precision."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, workload as wl, bmoracle


def body(chk):
    pre = vbuild.build("std")
    drv = build_drv(pre)
    draws = build_draws(chk)
    r = chk.rng
    for mode in ("ob", "ib", "full"):
        for op in ("zero", "one", "rand"):
            for k in range(chk.n(5, 40)):
                p = [(23, 52), (1, 1), (22, 51)][k] if k < 3 else (r.randint(1, 23), r.randint(1, 52))
                conf = {"mode": mode, "op": op, "p": p}
                recs, log = wl.records(r, 2200)
                bmoracle.run_conf(chk, drv, pre, conf, recs, log, draws if op == "rand" and k % 2 else None, threads=3 if k == 3 else 0)
    # default precisions: the documented 24 / 53, where nothing is altered
    recs, log = wl.records(r, 2000)
    bmoracle.run_conf(chk, drv, pre, {"mode": "full", "op": "zero", "p": (24, 53), "popt": False}, recs, log)
    # denormal flags: flushed before the operands are altered and after the result is
    for mode in ("ob", "ib", "full"):
        for op in ("zero", "one", "rand"):
            for daz, ftz in ((1, 0), (0, 1), (1, 1)):
                conf = {"mode": mode, "op": op, "p": (r.randint(1, 23), r.randint(1, 52)), "daz": daz, "ftz": ftz}
                recs, log = wl.records(r, 900, gen=wl.gen_small)
                bmoracle.run_conf(chk, drv, pre, conf, recs, log)
    # rand: every alterable bit flips sometimes and stays sometimes, every other bit never flips
    for t in (0, 1):
        for mode in ("ob",):
            p = r.randint(1, fpx.MANT[t] - 3)
            n = 3000
            recs, want = [], []
            for _ in range(n):
                a = fpx.ONE[t] | r.getrandbits(fpx.MANT[t]) | 1
                recs.append(rec(ADD, t, a, 0))
                want.append(a)
            opt = bmoracle.option({"mode": mode, "op": "rand", "p": (p, p)})
            outs, res = drive(chk, drv, pre, opt, recs)
            if outs is None:
                chk.violation("%s: the program died (status %s)" % (opt, res.rc), opt)
                continue
            flips = [0] * fpx.W[t]
            for g, w in zip(outs, want):
                x = g ^ w
                for i in range(fpx.W[t]):
                    flips[i] += x >> i & 1
            low = fpx.MANT[t] + 1 - p
            chk.observe(n, ("flip", t, mode, p))
            for i in range(fpx.W[t]):
                bad = flips[i] != 0 if i >= low else not (0.35 * n < flips[i] < 0.65 * n)
                if bad:
                    chk.violation("[%s] bit %d of %s results flipped %d times out of %d" % (opt, i, ("float", "double")[t], flips[i], n),
                                  {"backend": opt, "flips": flips})
    for op in ("zero", "one", "rand"):
        # beyond the mantissa: nothing to alter
        recs, log = wl.records(r, 2000)
        bmoracle.run_conf(chk, drv, pre, {"mode": "full", "op": op, "p": (24, 53)}, recs, log)


run_check("C15", "operands as in C02; all modes and operators, precisions 1..24/1..53, extreme random masks; exact expected bits (operators zero and one, "
          "rand on the result) or exact interval (rand on operands); distinct = mode x operator x operation x type x classes", body)
