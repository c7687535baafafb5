#!/usr/bin/env python3
"""C11: absolute error mode, denormals-are-zero and flush-to-zero of the MCA backends."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, workload as wl, bmoracle
from mcacheck import envelope_run


def body(chk):
    pre = vbuild.build("std")
    drv = build_drv(pre)
    draws = build_draws(chk)
    r = chk.rng
    for k in range(chk.n(24, 240)):
        mode = ("mca", "rr", "pb")[k % 3]
        conf = {"kind": "quad", "mode": mode, "p": (r.randint(2, 40), r.randint(2, 80))}
        if k % 4 != 3:
            conf["abs"] = r.choice((-1, 0, 1, 10, -10, 30, -30, -60, -120, -149, 60, 100)) if k % 2 else r.randint(-140, 110)
            conf["rel"] = bool(r.getrandbits(1))
        conf["daz"] = bool(r.getrandbits(1))
        conf["ftz"] = bool(r.getrandbits(1))
        if k % 5 == 0:
            conf["spars"] = r.choice((0.5, 0.1))
        recs, log = wl.records(r, 2600, gen=wl.gen_small)
        envelope_run(chk, drv, pre, conf, recs, log, draws if r.getrandbits(1) else None)
    # flags alone, in exact mode and in the integer variant
    for kind in ("quad", "int"):
        for mode in ("ieee", "mca", "rr", "pb"):
            for daz, ftz in ((1, 0), (0, 1), (1, 1)):
                conf = {"kind": kind, "mode": mode, "p": (24, 53), "popt": False, "daz": daz, "ftz": ftz}
                recs, log = wl.records(r, chk.n(1500, 12000), gen=wl.gen_small)
                envelope_run(chk, drv, pre, conf, recs, log)
    # bitmask flags
    for mode in ("ieee", "ob", "ib", "full"):
        for daz, ftz in ((1, 0), (0, 1), (1, 1)):
            conf = {"mode": mode, "op": r.choice(("zero", "one", "rand")), "p": (r.randint(1, 23), r.randint(1, 52)), "daz": daz, "ftz": ftz}
            recs, log = wl.records(r, chk.n(1500, 12000), gen=wl.gen_small)
            bmoracle.run_conf(chk, drv, pre, conf, recs, log)


run_check("C11", "operands and results around the subnormal range and over it; random absolute error exponents, error modes, flags, modes, "
          "precisions; exact envelope oracle; distinct = mode x error mode x flags x operation x type x classes", body,
          ["a flushed value may be a zero of either sign"])
