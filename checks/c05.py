#!/usr/bin/env python3
"""C05: instrumented comparisons decide the sixteen relations exactly."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx

PRED = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]


def order(a, b, t):
    if fpx.is_nan(a, t) or fpx.is_nan(b, t):
        return "U"
    ka = (a & ~fpx.SIGN[t]) * (-1 if fpx.sgn(a, t) else 1)
    kb = (b & ~fpx.SIGN[t]) * (-1 if fpx.sgn(b, t) else 1)
    return "E" if ka == kb else ("L" if ka < kb else "G")


SETS = {"false": "", "oeq": "E", "ogt": "G", "oge": "GE", "olt": "L", "ole": "LE", "one": "LG", "ord": "LGE", "uno": "U",
        "ueq": "UE", "ugt": "UG", "uge": "UGE", "ult": "UL", "ule": "ULE", "une": "ULG", "true": "ULGE"}


def gen(r, t):
    a = fpx.gen_bits(r, t)
    k = r.random()
    if k < 0.2:
        return a, a
    if k < 0.3:
        return a, a ^ fpx.SIGN[t]
    if k < 0.45:
        b = a + r.choice((-1, 1))
        return a, b & (fpx.SIGN[t] | (fpx.SIGN[t] - 1))
    if k < 0.55:
        n = fpx.INFB[t] | r.randint(1, (1 << fpx.MANT[t]) - 1) | (fpx.SIGN[t] if r.getrandbits(1) else 0)
        return (n, a) if r.getrandbits(1) else (a, n)
    if k < 0.62:
        z = r.choice((0, fpx.SIGN[t], fpx.INFB[t], fpx.INFB[t] | fpx.SIGN[t]))
        return (z, a) if r.getrandbits(1) else (a, z)
    return a, fpx.gen_bits(r, t)


def body(chk):
    pre = vbuild.build("std")
    drv = build_drv(pre, fcmp=True)
    native = build_drv(pre)
    n = chk.n(60000, 800000)
    for conf, exe in (("libinterflop_ieee.so", drv), ("libinterflop_ieee.so; libinterflop_mca.so", drv),
                      ("libinterflop_vprec.so --precision-binary32=2 --precision-binary64=2;libinterflop_ieee.so", drv),
                      ("libinterflop_mca.so", native)):
        recs = []
        while len(recs) < n:
            t = chk.rng.getrandbits(1)
            p = chk.rng.randrange(16)
            if chk.rng.random() < 0.05:
                aux = chk.rng.randint(0, 3)
                for _ in range(2 << aux):
                    recs.append(rec(VCMP, t, *gen(chk.rng, t), aux=aux | p << 4))
            else:
                recs.append(rec(CMP, t, *gen(chk.rng, t), aux=p))
        outs, r = drive(chk, exe, pre, conf, recs, threads=chk.rng.choice((0, 3)))
        if outs is None:
            if r.timeout:
                raise Hang("driver timed out")
            chk.violation("%s: the program died (status %s) %s" % (conf, r.rc, r.err[-300:]), conf)
            continue
        for (op, t, aux, _, a, b, _), got in zip(recs, outs):
            p = PRED[aux >> 4 if op == VCMP else aux]
            o = order(a, b, t)
            want = int(o in SETS[p])
            lanes = 2 << (aux & 3) if op == VCMP else 1
            chk.observe(1, (conf, p, t, lanes, o, fpx.bucket(a, t)[:2], fpx.bucket(b, t)[:2]))
            if got != want:
                chk.violation("%s %s (%d lane(s)) %s %s -> %d, must be %d [%s]" % (p, ("float", "double")[t], lanes, fpx.show(a, t), fpx.show(b, t), got, want, conf),
                              {"pred": p, "type": t, "lanes": lanes, "a": hex(a), "b": hex(b), "got": got, "want": want, "backend": conf})
        chk.count("comparisons", len(recs))
        chk.sample({"backend": conf, "pred": PRED[(recs[0][2] >> 4) if recs[0][0] == VCMP else recs[0][2]], "a": hex(recs[0][4]), "b": hex(recs[0][5]), "got": outs[0]})


run_check("C05", "pairs equal, opposite, adjacent, NaN (any payload), zero/infinite or random; all 16 LLVM relations, scalar and 2/4/8/16 "
          "lanes; distinct = relation x type x lanes x true order x operand classes", body,
          ["the IR functions of harness/opsu.ll.py exercise exactly one fcmp each"])
