#!/usr/bin/env python3
"""C08: every MCA result lies in the exact envelope of its operands, mode and virtual precision."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import workload as wl
from mcacheck import envelope_run


def body(chk):
    pre = vbuild.build("std")
    drv = build_drv(pre)
    draws = build_draws(chk)
    r = chk.rng
    for mode in ("mca", "rr", "pb", "ieee"):
        for k in range(chk.n(8 if mode != "ieee" else 2, 80)):
            if k == 0:
                p = (24, 53)
            elif k == 1:
                p = (1, 1)
            else:
                p = (r.randint(1, 70), r.randint(1, 130)) if r.random() < 0.5 else (r.randint(1, 26), r.randint(1, 55))
            conf = {"kind": "quad", "mode": mode, "p": p, "popt": k != 0}
            recs, log = wl.records(r, 4000)
            envelope_run(chk, drv, pre, conf, recs, log, draws if k % 2 else None, threads=4 if k % 4 == 2 else 0)


run_check("C08", "operands as in C02, precisions 1..70 / 1..130, all four modes, real and extreme random draws, single and multi-threaded; "
          "every result is checked against the exact interval of possible results; distinct = mode x operation x type x operand and result "
          "class x kind of draws", body,
          ["the working format of the backend is binary64 for float and binary128 for double, as documented",
           "extreme draws are injected by interposing the generator with values it can produce"])
