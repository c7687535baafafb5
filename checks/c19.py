#!/usr/bin/env python3
"""C19: user calls change exactly what they ask, from that point on."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, workload as wl, mcaoracle, vporacle as vp, mcacheck

POISON = 0xDEADDEADDEADDEAD


def inexact_why(a, t, prec, got, conf, chk):
    """envelope of a noise request at virtual precision prec"""
    if got == POISON:
        return "the request changed memory beside the variable"
    if conf["mode"] == "ieee" or not fpx.is_fin(a, t) or fpx.is_zero(a, t):
        return None if got == a or (fpx.is_nan(a, t) and fpx.is_nan(got, t)) else "must be left alone"
    d = fpx.dec(a, t)
    amp = (1, fpx.d_exp(d) - prec)
    lo, hi = fpx.d_add(d, fpx.d_neg(amp)), fpx.d_add(d, amp)
    lo, hi = mcaoracle.rw(lo, t), mcaoracle.rw(hi, t)
    if fpx.is_nan(got, t):
        return "NaN"
    k = mcaoracle.key(got, t)
    kl, kh = mcaoracle.key(fpx.rnd(lo, t), t), mcaoracle.key(fpx.rnd(hi, t), t)
    if kh - kl > 1 << 10:
        chk.count("requests with visible noise")
        if got == a:
            chk.count("of them, unchanged")
    return None if kl <= k <= kh else "outside [%s, %s] (precision %d)" % (fpx.show(fpx.rnd(lo, t), t), fpx.show(fpx.rnd(hi, t), t), prec)


def history(r, n, kind, conf, gen):
    """records and, for each, the configuration in force"""
    recs, meta = [], []
    cur = dict(conf)
    def add(rc, m):
        recs.append(rc)
        meta.append((m, dict(cur)))
    while len(recs) < n:
        k = r.random()
        if k < 0.06:
            t = r.randint(0, 1)
            v = r.randint(1, (23, 52)[t]) if kind != "mca" else r.randint(1, (60, 120)[t]) if r.random() < 0.3 else r.randint(1, (24, 53)[t])
            q = list(cur["p"])
            q[t] = v
            cur["p"] = tuple(q)
            add(rec(SETP32 + t, 0, iarg=v), None)
        elif k < 0.10 and kind != "mca":
            t = r.randint(0, 1)
            v = r.randint(2, (8, 11)[t])
            q = list(cur["r"])
            q[t] = v
            cur["r"] = tuple(q)
            add(rec(SETR32 + t, 0, iarg=v), None)
        elif k < 0.25 and kind != "vprec":
            t = r.randint(0, 1)
            a = fpx.gen_bits(r, t)
            p = r.randint(1, 60) if r.random() < 0.5 else r.randint(-min(20, cur["p"][t] - 1), 0)
            eff = p if p > 0 else cur["p"][t] + p
            add(rec(INEXACT, t, a, iarg=p), ("inexact", t, a, eff))
        else:
            rr, ll = wl.records(r, 1, gen=gen)
            for x, y in zip(rr, ll):
                add(x, y)
    return recs, meta


def body(chk):
    pre = vbuild.build("std")
    drv = build_drv(pre)
    draws = build_draws(chk)
    r = chk.rng
    n = chk.n(2500, 6000)
    jobs = []
    for mode in ("mca", "rr", "pb", "ieee"):
        for k in range(chk.n(5, 40)):
            jobs.append(("mca", mode, k))
    for mode in ("ob", "ib", "full", "ieee"):
        for k in range(chk.n(5, 40)):
            jobs.append(("vprec", mode, k))
    for k in range(chk.n(6, 40)):
        jobs.append(("chain-mca", r.choice(("mca", "rr", "pb")), k))
        jobs.append(("chain-vprec", r.choice(("ob", "full")), k))
    for kind, mode, k in jobs:
        last = kind.split("-")[-1]
        if last == "mca":
            conf = {"kind": "quad", "mode": mode, "p": (r.randint(1, 30), r.randint(1, 60)) if k else (24, 53), "r": (8, 11)}
            if k % 3 == 2:
                conf["spars"] = 0.3
            opt = mcacheck.option(conf)
            gen = wl.gen_op
        else:
            conf = {"mode": mode, "p": (r.randint(1, 23), r.randint(1, 52)), "r": (r.randint(2, 8), r.randint(2, 11))}
            opt = vp.option(conf)
            gen = vp.generator(conf)
        if kind == "chain-mca":       # both understand the calls; the last one decides
            opt = vp.option({"mode": "ob", "p": (23, 52), "r": (8, 11)}) + "; libinterflop_ieee.so; " + opt
        elif kind == "chain-vprec":
            opt = "libinterflop_mca.so --mode=mca ; libinterflop_cancellation.so;" + opt
        recs, meta = history(r, n, {"chain-mca": "chain", "chain-vprec": "chain"}.get(kind, kind), conf, gen)
        ext = "mca" in kind and k % 2 == 1
        outs, res = drive(chk, drv, pre, opt, recs, preload=draws if ext else None, **({"VERIF_DRAWS": str(k + 1)} if ext else {}))
        if outs is None:
            if res.timeout:
                raise Hang("driver timed out under " + opt)
            chk.violation("%s: the program died (status %s) %s" % (opt, res.rc, res.err[-300:]), opt)
            continue
        for i, ((m, cur), got) in enumerate(zip(meta, outs)):
            if m is None:
                chk.count("settings changed")
                continue
            if m[0] == "inexact":
                _, t, a, eff = m
                ref = dict(cur)
                if kind == "chain-vprec":
                    ref["mode"] = "mca"
                why = inexact_why(a, t, eff, got, ref, chk) if not (ext and got == a) else None
                what = "noise request on %s (%s) -> %s" % (fpx.show(a, t), ("float", "double")[t], fpx.show(got & ((1 << fpx.W[t]) - 1), t))
                chk.observe(1, (kind, mode, "inexact", t, fpx.bucket(a, t), eff))
            else:
                op, t, a, b, c = m
                why = mcaoracle.check(op, t, a, b, c, got, cur) if last == "mca" else vp.check(op, t, a, b, c, got, cur)
                what = wl.show(op, t, a, b, c, got)
                chk.observe(1, (kind, mode, op, t, cur["p"][t], cur["r"][t] if last == "vprec" else 0))
            if why:
                chk.violation("[%s] record %d, precisions now %s, ranges %s: %s: %s" % (opt, i, cur["p"], cur["r"], what, why),
                              {"backend": opt, "index": i, "p": cur["p"], "r": cur["r"], "what": what, "why": why})
        chk.sample({"config": opt, "records": len(recs)})
    v, u = chk.extra.get("requests with visible noise", 0), chk.extra.get("of them, unchanged", 0)
    if v and u > v * 0.03 + 10:
        chk.violation("%d of %d requests of noise left the value unchanged" % (u, v), {})


run_check("C19", "random histories of operations, changes of precision and range, and noise requests, under MCA, VPREC and chains of both; each result is checked against "
          "the exact oracle of the setting in force at that point; distinct = configuration kind x mode x operation x type x setting in force", body,
          ["only the MCA and VPREC backends implement user calls"])
