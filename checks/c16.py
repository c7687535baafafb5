#!/usr/bin/env python3
"""C16: the cancellation backend perturbs cancelling additions and subtractions only, by a bounded noise."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, workload as wl, mcaoracle


def efield(x, t):
    return ((x & ~fpx.SIGN[t]) >> fpx.MANT[t]) - fpx.EMAX[t]


def gen(r, op, t):
    if op not in (ADD, SUB) or r.random() < 0.2:
        return wl.gen_op(r, op, t)
    M = fpx.MANT[t]
    lo = r.random()
    e = r.randint(1, 60) if lo < 0.2 else 2 * fpx.EMAX[t] - r.randint(0, 5) if lo < 0.25 else fpx.EMAX[t] + r.randint(-50, 50)
    a = (e << M) | r.getrandbits(M)
    b = a ^ r.getrandbits(r.randint(1, M)) if r.random() < 0.7 else a + r.randint(-5, 5)
    if r.random() < 0.15:  # borrow across a power of two
        b = ((e - 1) << M) | ((1 << M) - 1 - r.getrandbits(r.randint(1, M)))
        a = (e << M) | r.getrandbits(r.randint(1, M))
    if r.random() < 0.05:
        b = a
    if r.getrandbits(1):
        a |= fpx.SIGN[t]
    if r.random() < 0.9:
        b |= (a ^ (fpx.SIGN[t] if op == ADD else 0)) & fpx.SIGN[t]
    else:
        b |= (fpx.SIGN[t] if r.getrandbits(1) else 0)
    if r.getrandbits(1):
        a, b = b, a
    return a, b, 0


def body(chk):
    pre = vbuild.build("std")
    drv = build_drv(pre)
    draws = build_draws(chk)
    r = chk.rng
    norm = []
    moved = [0, 0]
    for k in range(chk.n(60, 300)):
        tol = [None, 0, 1, 2, 3, 24, 53][k] if k < 7 else r.choice((1, 1, 2, 5, 10, 20, 30, 60)) if k % 2 else r.randint(0, 60)
        warn = k % 2 == 0
        opt = "libinterflop_cancellation.so" + ("" if tol is None else " --tolerance=%d" % tol) + (" --warning=1" if warn else "")
        tol = 1 if tol is None else tol
        recs, log = wl.records(r, chk.n(3000, 5000), gen=gen)
        ext = k % 3 == 1
        threads = 4 if (k % 4 == 3) else 0
        kw = {"VERIF_DRAWS": str(r.getrandbits(30) + 1)} if ext else {}
        outs, res = drive(chk, drv, pre, opt, recs, preload=draws if ext else None, threads=threads, VFC_BACKENDS_LOGGER="True", **kw)
        if outs is None:
            if res.timeout:
                raise Hang("driver timed out under " + opt)
            chk.violation("%s: the program died (status %s) %s" % (opt, res.rc, res.err[-300:]), opt)
            continue
        expected = []
        for (op, t, a, b, c), got in zip(log, outs):
            z = wl.exact(op, t, a, b, c)
            rt = wl.rtype(op, t)
            size = None
            if op in (ADD, SUB):
                zf = fpx.QNAN[t] if z == "nan" else z
                size = max(efield(a, t), efield(b, t)) - efield(zf, t)
                if size >= tol:
                    expected.append(size)
            if size is None or size < tol or z == "nan" or not fpx.is_fin(z, t):
                why = None if fpx.same(got, z, rt) else "no cancellation: must be the IEEE result %s" % (z if z == "nan" else fpx.show(z, rt))
                chk.observe(1, ("plain", op, t, fpx.bucket(a, t)))
            else:
                ez = efield(z, t)
                amp = (1, ez - size)
                d = fpx.dec(z, t)
                lo, hi = fpx.d_add(d, fpx.d_neg(amp)), fpx.d_add(d, amp)
                if t == 0:
                    lo, hi = mcaoracle.rw(lo, 0), mcaoracle.rw(hi, 0)
                kl, kh = mcaoracle.key(fpx.rnd(lo, t), t), mcaoracle.key(fpx.rnd(hi, t), t)
                why = None if not fpx.is_nan(got, t) and kl <= mcaoracle.key(got, t) <= kh else \
                    "cancellation of %d bits: outside [%s, %s]" % (size, fpx.show(fpx.rnd(lo, t), t), fpx.show(fpx.rnd(hi, t), t))
                chk.observe(1, ("cancel", op, t, min(size, 64), fpx.bucket(z, t)[:2], ext))
                if not why and not ext and kh - kl > 1 << 12:
                    e = fpx.d_add(fpx.dec(got, t), fpx.d_neg(d))
                    norm.append(e[0] / 2.0 ** (amp[1] - e[1]))
                    moved[0] += 1
                    moved[1] += got == z
            if why:
                chk.violation("[%s]%s %s: %s" % (opt, " extreme draws" if ext else "", wl.show(op, t, a, b, c, got), why),
                              {"backend": opt, "op": OPNAME[op], "type": t, "a": hex(a), "b": hex(b), "got": hex(got), "why": why})
        msgs = [int(x) for x in re.findall(rb"cancellation of size (-?\d+) detected", res.err + res.out)]
        want = expected if warn else []
        if threads:
            msgs, want = sorted(msgs), sorted(want)
        chk.observe(1, ("messages", tol, warn))
        chk.count("cancellations", len(expected))
        chk.count("messages read", len(msgs))
        if msgs != want:
            i = next((i for i, (x, y) in enumerate(zip(msgs, want)) if x != y), min(len(msgs), len(want)))
            chk.violation("[%s] %d warnings for %d cancellations; first difference at %d: %s instead of %s" %
                          (opt, len(msgs), len(want), i, msgs[i:i + 3], want[i:i + 3]), {"backend": opt, "index": i})
        chk.sample({"config": opt, "op": wl.show(*log[0], got=outs[0])})
    # the noise really is there and spreads over the whole interval
    n = len(norm)
    chk.extra["noise samples"] = n
    if n < 2000:
        raise Inconclusive("only %d noise samples" % n)
    norm.sort()
    ks = max(max(abs((i + 1) / n - (x + 1) / 2), abs(i / n - (x + 1) / 2)) for i, x in enumerate(norm))
    chk.extra["KS distance to the uniform law"] = round(ks, 5)
    if ks * n ** 0.5 > 4.0 or moved[1] > 5 + moved[0] // 200:
        chk.violation("the noise of %d cancellations is not uniform over its interval (KS %.4f, %d unchanged)" % (n, ks, moved[1]), {"ks": ks})


run_check("C16", "cancelling additions (any number of cancelled bits, borrow across powers of two, subnormal and zero results, range limits) mixed with all the other "
          "operations; tolerances 0..60; real and extreme draws; exact envelope, exact IEEE result elsewhere, exact sequence of warnings; distinct = kind x operation x "
          "type x cancelled bits x class", body, ["exponents are those of the encoding: a zero or subnormal result counts as one below the smallest normal exponent"])
