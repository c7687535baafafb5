#!/usr/bin/env python3
"""C14: VPREC presets, flags, error modes; independence of the two types."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, workload as wl, vporacle as vp

PRESETS = {"binary16": (10, 5), "binary32": (23, 8), "bfloat16": (7, 8), "tensorfloat": (10, 8), "fp24": (16, 7), "PXR24": (15, 8)}


def body(chk):
    pre = vbuild.build("std")
    drv = build_drv(pre)
    r = chk.rng
    n = chk.n(1800, 6000)
    def go(conf, opt=None):
        recs, log = wl.records(r, n, gen=vp.generator(conf))
        return vp.run_conf(chk, drv, pre, conf, recs, log, opt=opt)
    for name, (p, rg) in PRESETS.items():
        for mode in ("ob", "ib", "full"):
            go({"mode": mode, "p": (p, p), "r": (rg, rg), "preset": name, "opts": ()})
    # default options
    go({"mode": "ob", "p": (23, 52), "r": (8, 11), "opts": ()}, "libinterflop_vprec.so")
    # each option alone: the others keep their defaults
    for mode in ("ob", "ib", "full"):
        for o in ("p0", "p1", "r0", "r1"):
            p, rg = [23, 52], [8, 11]
            (p if o[0] == "p" else rg)[int(o[1])] = r.randint(1, (22, 51)[int(o[1])]) if o[0] == "p" else r.randint(2, (7, 10)[int(o[1])])
            go({"mode": mode, "p": tuple(p), "r": tuple(rg), "opts": (o,)})
    # flags
    for mode in ("ob", "ib", "full"):
        for daz, ftz in ((1, 0), (0, 1), (1, 1)):
            for k in range(chk.n(4, 24)):
                rg = (r.randint(2, 8), r.randint(2, 11)) if k > 1 else (8, 11)
                go({"mode": mode, "p": (r.randint(1, 23), r.randint(1, 52)) if k else (23, 52), "r": rg, "daz": daz, "ftz": ftz})
    # absolute and combined error modes
    for k in range(chk.n(30, 400)):
        rg = (r.randint(4, 8), r.randint(4, 11)) if k % 3 else (8, 11)
        conf = {"mode": ("ob", "ib", "full")[k % 3], "p": (r.randint(1, 23), r.randint(1, 52)), "r": rg, "rel": bool(k & 1),
                "abs": r.choice((-10, -3, -1, 0, 1, 4, -20, -30, -52, -60, -100, -130, -140, 20)) if k % 2 == 0 else r.randint(-160, 100),
                "daz": r.random() < 0.2, "ftz": r.random() < 0.2}
        if r.random() < 0.4:   # threshold inside the subnormal range of one simulated format
            t = r.randint(0, 1)
            conf["abs"] = 2 - (1 << (rg[t] - 1)) - r.randint(-2, conf["p"][t] + 1)
        go(conf)
    # error-mode rel ignores the exponent
    for mode in ("ob", "full"):
        conf = {"mode": mode, "p": (9, 20), "r": (6, 9)}
        go(conf, vp.option(conf) + " --error-mode=rel --max-abs-error-exponent=3")


run_check("C14", "presets, single options, denormal flags and absolute / combined error modes with operands at ties and limits of the simulated format; "
          "exact oracle; distinct = mode x error mode x flags x precision x range x operation x type x region of the result", body,
          ["flags act where the mode rounds (operands in ib and full, results in ob and full)",
           "in absolute mode with the threshold above the smallest normal, only the distance of subnormals is checked"])
