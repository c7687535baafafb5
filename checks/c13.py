#!/usr/bin/env python3
"""C13: every VPREC result is correctly rounded to the simulated format."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, workload as wl, vporacle as vp


def body(chk):
    pre = vbuild.build("std")
    drv = build_drv(pre)
    r = chk.rng
    confs = []
    fixed = [((23, 52), (8, 11)), ((1, 1), (2, 2)), ((10, 10), (5, 5)), ((7, 23), (8, 8)), ((23, 52), (2, 2)), ((1, 1), (8, 11)), ((22, 51), (8, 11)),
             ((23, 52), (7, 10))]
    for mode in ("ob", "ib", "full"):
        for p, rg in fixed:
            confs.append({"mode": mode, "p": p, "r": rg})
        for _ in range(chk.n(14, 250)):
            confs.append({"mode": mode, "p": (r.randint(1, 23), r.randint(1, 52)), "r": (r.randint(2, 8), r.randint(2, 11))})
    for i, conf in enumerate(confs):
        recs, log = wl.records(r, chk.n(2500, 5000), gen=vp.generator(conf))
        outs = vp.run_conf(chk, drv, pre, conf, recs, log, threads=0)
        # values of the format are fixed points: feed the results back
        if outs and conf["mode"] == "ob":
            back = [(ADD, wl.rtype(op, t), g, fpx.SIGN[wl.rtype(op, t)], 0) for (op, t, *_), g in zip(log, outs) if not fpx.is_nan(g, wl.rtype(op, t))][:600]
            outs2, rr = drive(chk, drv, pre, vp.option(conf), [rec(*x) for x in back])
            if outs2 is None:
                chk.violation("%s: the program died (status %s)" % (vp.option(conf), rr.rc), vp.option(conf))
                continue
            for (op, t, a, b, c), g in zip(back, outs2):
                chk.observe(1)
                if g != a and not (fpx.is_zero(a, t) and fpx.is_zero(g, t)):
                    chk.violation("[%s] rounding again changes %s into %s" % (vp.option(conf), fpx.show(a, t), fpx.show(g, t)), [vp.option(conf), hex(a), hex(g)])


run_check("C13", "operands at ties, one bit beside ties, around the smallest and largest numbers of the simulated format and over the whole range; precisions "
          "1..23/1..52, ranges 2..8/2..11, modes ob, ib, full; exact rounding oracle; distinct = mode x precision x range x operation x type x region of the result",
          body, ["the sign of a value rounded to zero and the direction of an exact half of the smallest subnormal are unspecified"])
