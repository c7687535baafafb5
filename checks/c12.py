#!/usr/bin/env python3
"""C12: reproducibility by seed; different seeds, runs and threads differ."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, workload as wl


def confs(r, thorough):
    out = []
    for mode in ("mca", "rr", "pb"):
        for _ in range(4 if thorough else 2):
            out.append("libinterflop_mca.so --mode=%s --precision-binary32=%d --precision-binary64=%d" % (mode, r.randint(2, 20), r.randint(2, 45)))
        out.append("libinterflop_mca.so --mode=%s --precision-binary64=10 --sparsity=%s" % (mode, r.choice(("0.3", "0.7"))))
        out.append("libinterflop_mca.so --mode=%s --error-mode=%s --max-abs-error-exponent=%d" % (mode, r.choice(("abs", "all")), r.randint(-20, 10)))
        out.append("libinterflop_mca_int.so --mode=%s" % mode)
        out.append("libinterflop_mca_int.so --mode=%s --sparsity=0.4" % mode)
    for mode in ("ob", "ib", "full"):
        out.append("libinterflop_bitmask.so --operator=rand --mode=%s --precision-binary32=%d --precision-binary64=%d" % (mode, r.randint(2, 18), r.randint(2, 40)))
    out.append("libinterflop_cancellation.so")
    out.append("libinterflop_cancellation.so --tolerance=%d" % r.randint(0, 3))
    return out


def gen(r, op, t):
    """moderate operands: cancellations, inexact results"""
    M = fpx.MANT[t]
    e = fpx.EMAX[t] + r.randint(-8, 8)
    a = (e << M) | r.getrandbits(M)
    if op == CAST:
        return a, 0, 0
    b = (e << M) | r.getrandbits(M)
    if op in (ADD, SUB) and r.random() < 0.6:
        b = a ^ r.getrandbits(M - 2) | (fpx.SIGN[t] if op == ADD else 0)
    return a, b, a


def runs(chk, drv, pre, opt, recs, threads=0, **kw):
    outs, r = drive(chk, drv, pre, opt, recs, threads=threads, **kw)
    if outs is None:
        if r.timeout:
            raise Hang("driver timed out under " + opt)
        chk.violation("%s: the program died (status %s) %s" % (opt, r.rc, r.err[-300:]), opt)
        raise Dead()
    return outs


class Dead(Exception):
    pass


def body(chk):
    pre = vbuild.build("std")
    drv = build_drv(pre)
    r = chk.rng
    seeds = [0, 1, 2, 42, 2 ** 31, 2 ** 62 + 12345, 987654321]
    for opt in confs(r, chk.thorough):
        try:
            user = "mca_int" not in opt and "cancellation" not in opt
            recs, log = wl.records(r, 1500, gen=gen)
            if user:   # changes of precision and noise requests are part of the history
                for _ in range(40):
                    i = r.randint(0, len(recs))
                    while i < len(recs) and recs[i][0] >= VADD:
                        i += 1
                    recs.insert(i, r.choice((rec(INEXACT, 1, fpx.ONE[1] | r.getrandbits(52), iarg=r.randint(3, 40)),
                                             rec(SETP64, 0, iarg=r.randint(3, 40)), rec(SETP32, 0, iarg=r.randint(3, 20)))))
            byseed = {}
            # seeds apart by one bit, anywhere, are different seeds too
            base = r.getrandbits(62)
            near = [base] + [base ^ 1 << b for b in (r.randrange(32), r.randrange(32, 62), 61)] + [-base]
            for s in r.sample(seeds, 3) + near:
                o = "%s --seed=%d" % (opt, s)
                first = runs(chk, drv, pre, o, recs)
                byseed[s] = first
                for k in range(2 if s in seeds else 0):
                    again = runs(chk, drv, pre, o, recs, **({"VERIF_PAD": "x" * 777} if k else {}))
                    chk.observe(len(recs), ("same", opt, s))
                    if again != first:
                        i = next(i for i in range(len(recs)) if again[i] != first[i])
                        chk.violation("[%s] two runs with the same seed differ at operation %d: %x, %x" % (o, i, first[i], again[i]),
                                      {"backend": o, "index": i, "record": recs[i]})
            ks = sorted(byseed)
            for i in range(len(ks)):
                for j in range(i):
                    d = sum(x != y for x, y in zip(byseed[ks[i]], byseed[ks[j]]))
                    chk.observe(1, ("seeds", opt, ks[i], ks[j]))
                    if d < 12:
                        chk.violation("[%s] seeds %d and %d give the same noise (%d of %d results differ)" % (opt, ks[i], ks[j], d, len(recs)), opt)
            free = [runs(chk, drv, pre, opt, recs) for _ in range(3)]
            for i in range(3):
                for j in range(i):
                    d = sum(x != y for x, y in zip(free[i], free[j]))
                    chk.observe(1, ("free", opt))
                    if d < 12:
                        chk.violation("[%s] two runs without seed give the same noise (%d of %d results differ)" % (opt, d, len(recs)), opt)
        except Dead:
            continue
    # threads: each performs the same operations; a value of >= 40 random bits never comes twice
    jobs = []
    for o in ("libinterflop_mca.so --mode=rr --precision-binary64=8", "libinterflop_mca.so --mode=mca --precision-binary64=6",
              "libinterflop_mca.so --mode=pb --precision-binary64=5",
              "libinterflop_bitmask.so --operator=rand --mode=ob --precision-binary64=5", "libinterflop_cancellation.so"):
        for seed in (None, 0, 7):
            for nt in (2, 8, 16):
                jobs.append((o, seed, nt))
    reps = chk.n(8, 60)
    for o, seed, nt in jobs:
        for rep in range(reps if seed is None else 1):
            opt = o + ("" if seed is None else " --seed=%d" % seed)
            m = 300
            if "cancell" in o:   # 10 bits cancelled: the noise spans 43 bits
                one = [rec(SUB, 1, fpx.ONE[1] + (1 << 42) + 1, fpx.ONE[1])]
            elif "pb" in o:
                one = [rec(MUL, 1, fpx.ONE[1] + 0x5555555555555, fpx.ONE[1] + 0x3333333333333)]
            else:
                one = [rec(ADD, 1, fpx.ONE[1] + 0x5555555555555, (fpx.ONE[1] - (2 << 52)) + 0x3333333333333)]
            try:
                outs = runs(chk, drv, pre, opt, one * (m * nt), threads=nt)
            except Dead:
                break
            streams = [outs[i * m:(i + 1) * m] for i in range(nt)]
            chk.observe(m * nt, ("threads", o, seed, nt))
            chk.count("thread streams compared", nt)
            seen = {}
            dup = 0
            for ti, s in enumerate(streams):
                for v in s:
                    if v in seen:
                        dup += 1
                    seen[v] = ti
            bits = 40
            lim = 3 + 4 * (m * nt) ** 2 / 2 ** bits
            if dup > lim:
                same = [(i, j) for i in range(nt) for j in range(i) if streams[i] == streams[j]]
                chk.violation("[%s] %d threads: %d of %d noisy results repeat%s" % (opt, nt, dup, m * nt, "; equal streams %s" % same[:4] if same else ""),
                              {"backend": opt, "threads": nt, "duplicates": dup, "equal": same[:8]})
        chk.sample({"config": o, "threads": nt, "seed": seed, "first values": [hex(v) for v in outs[:3]]})


run_check("C12", "same operations (with user calls) run repeatedly under each random backend, with equal seeds, different seeds and no seed; and by 2..16 threads started "
          "together, each performing the same operations; distinct = configuration x seeds or threads", body,
          ["independent uniform values of 40 bits do not collide more often than chance allows (probability below 1e-12 per run)"])
