#!/usr/bin/env python3
"""C09: every integer-MCA result lies in the exact envelope of its operands and mode."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import workload as wl
from mcacheck import envelope_run


def body(chk):
    pre = vbuild.build("std")
    drv = build_drv(pre)
    draws = build_draws(chk)
    r = chk.rng
    for mode in ("mca", "rr", "pb", "ieee"):
        for k in range(chk.n(6 if mode != "ieee" else 2, 60)):
            conf = {"kind": "int", "mode": mode, "p": (24, 53), "spars": 1 if k % 3 else r.choice((1, 0.5, 0.01))}
            recs, log = wl.records(r, 5500)
            envelope_run(chk, drv, pre, conf, recs, log, draws if k % 2 else None, threads=4 if k % 4 == 2 else 0)


run_check("C09", "operands as in C02, all four modes, sparsity, real and extreme random words, single and multi-threaded; every result is checked "
          "against the exact interval of possible results (noise added to the integer image of the working value); distinct = mode x "
          "operation x type x operand and result class x kind of draws", body,
          ["the integer variant supports only the default virtual precision (24/53), as the backend itself reports",
           "extreme draws are injected by interposing the generator with values it can produce"])
