#!/usr/bin/env python3
"""C10: law of the MCA noise: uniform, centred, independent; fraction perturbed = sparsity."""
import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, workload as wl

Z = 6.5   # standard errors allowed: P(false alarm) ~ 1e-10 per statistic


def operands(r, op, t, kind):
    M = fpx.MANT[t]
    e = fpx.EMAX[t] + r.randint(-20, 20)
    a = (e << M) | r.getrandbits(M) | (fpx.SIGN[t] if r.getrandbits(1) else 0)
    if kind == "left":
        return a, 0, 0
    if kind == "right":
        return 0, a, 0
    if op == CAST:
        return a, 0, 0
    b = ((fpx.EMAX[t] + r.randint(-20, 20)) << M) | r.getrandbits(M)
    c = ((fpx.EMAX[t] + r.randint(-20, 20)) << M) | r.getrandbits(M)
    return a, b, c


def exactd(op, t, a, b, c):
    """exact result as a dyadic (enough bits for a division)"""
    da, db, dc = fpx.dec(a, t), fpx.dec(b, t), fpx.dec(c, t)
    if op == ADD:
        return fpx.d_add(da, db)
    if op == SUB:
        return fpx.d_add(da, fpx.d_neg(db))
    if op == MUL:
        return fpx.d_mul(da, db)
    if op == FMA:
        return fpx.d_add(fpx.d_mul(da, db), dc)
    if op == CAST:
        return da
    return fpx.divf(da, db)[0]


def ratio(x, unit_exp):
    """dyadic x / 2^unit_exp as a float"""
    m, e = x
    sh = m.bit_length() - 60
    if sh > 0:
        m >>= sh
        e += sh
    return math.ldexp(m, e - unit_exp)


def launch(chk, drv, pre, opt, recs, threads=0):
    outs, res = drive(chk, drv, pre, opt, recs, threads=threads)
    if outs is None:
        if res.timeout:
            raise Hang("driver timed out under " + opt)
        chk.violation("%s: the program died (status %s)" % (opt, res.rc), opt)
    return outs


def fail(chk, opt, what, **w):
    chk.violation("[%s] %s" % (opt, what), dict(w, backend=opt))


def corr(x, y):
    n = len(x)
    mx, my = sum(x) / n, sum(y) / n
    vx = sum((v - mx) ** 2 for v in x)
    vy = sum((v - my) ** 2 for v in y)
    return 0 if vx * vy == 0 else sum((p - mx) * (q - my) for p, q in zip(x, y)) / math.sqrt(vx * vy)


def law(chk, opt, tag, us, half, uniform=True, var=None):
    """us: normalised noises, support [-half, half]"""
    n = len(us)
    m = sum(us) / n
    v = sum(x * x for x in us) / n
    var = var if var is not None else half * half / 3
    if abs(m) > Z * math.sqrt(var / n):
        fail(chk, opt, "%s: the noise is not centred: mean %.4f over %d draws" % (tag, m, n))
    if abs(v - var) > Z * var * 1.2 / math.sqrt(n):
        fail(chk, opt, "%s: variance of the noise %.4f instead of %.4f over %d draws" % (tag, v, var, n))
    for lag in (1, 2, 3, 4, 7):
        c = corr(us[:-lag], us[lag:])
        if abs(c) > Z / math.sqrt(n - lag):
            fail(chk, opt, "%s: noises %d operations apart are correlated (%.3f over %d)" % (tag, lag, c, n))
        c = corr([abs(x) for x in us[:-lag]], [abs(x) for x in us[lag:]])
        if abs(c) > Z * 1.1 / math.sqrt(n - lag):
            fail(chk, opt, "%s: magnitudes of noises %d operations apart are correlated (%.3f over %d)" % (tag, lag, c, n))
    if uniform:
        s = sorted(us)
        ks = max(max(abs((i + 1) / n - (x + half) / (2 * half)), abs(i / n - (x + half) / (2 * half))) for i, x in enumerate(s))
        chk.extra["largest KS*sqrt(n)"] = max(chk.extra.get("largest KS*sqrt(n)", 0), round(ks * math.sqrt(n), 3))
        if ks * math.sqrt(n) > 4.2:
            fail(chk, opt, "%s: the noise is not uniform (KS %.4f over %d draws, extremes %.3f %.3f)" % (tag, ks, n, s[0], s[-1]))
        if s[0] < -half * 1.001 or s[-1] > half * 1.001:
            fail(chk, opt, "%s: noise beyond half a unit: %.4f %.4f" % (tag, s[0], s[-1]))
    chk.observe(n, (opt, tag))
    chk.count("noises measured", n)
    return m, v


def draw(r, t, lo, hi):
    """a value of [lo, hi) away from the powers of two, sign at random"""
    while True:
        x = r.uniform(lo, hi)
        f = math.frexp(x)[0] * 2
        if 1.1 < f < 1.9:
            break
    m = int(math.ldexp(x, fpx.MANT[t]))
    return encode(r.choice((-1, 1)) * m, -fpx.MANT[t], t)


def encode(m, e, t):
    import struct
    x = math.ldexp(m, e)
    return struct.unpack("<I", struct.pack("<f", x))[0] if t == 0 else struct.unpack("<Q", struct.pack("<d", x))[0]


def combined(chk, drv, pre, n):
    """variance of the results of one operation repeated, against that of the model: every noisy operand (pb, mca) and the
    result (mca, rr) contribute an independent uniform noise, relative and absolute"""
    r = chk.rng
    todo = []
    for lib in ("mca", "mca_int"):
        for mode in ("pb", "mca"):
            for t in (0, 1):
                for op in (ADD, SUB, MUL, DIV, FMA, FMA):
                    todo.append((lib, mode, t, op, None, None, r.choice((0, 1, -1))))
    for t in (0, 1):
        for op in (ADD, MUL, DIV, FMA):
            todo.append(("mca", r.choice(("rr", "pb", "mca")), t, op, r.choice(("abs", "all")), r.randint(-12, -8), 0))
        for sg in (1, -1):
            for em in ("abs", "all"):
                op = r.choice((ADD, SUB, MUL, DIV, FMA))
                todo.append(("mca", r.choice(("rr", "pb", "mca")) if op in (ADD, SUB) else "rr", t, op, em, r.randint(-12, -8), sg))
    for k, (lib, mode, t, op, em, ae, sg) in enumerate(todo):
        # operands and results of any magnitude
        S = sg * r.randint(10, (100, 400)[t])
        S1 = S if op in (ADD, SUB) else int(S * r.uniform(0.3, 0.7))
        if em:
            ae += S
        p = fpx.MANT[t] + 1 if lib == "mca_int" else r.randint(10, 13)
        opt = "libinterflop_%s.so --mode=%s" % (lib, mode)
        if lib == "mca":
            opt += " --precision-binary32=%d --precision-binary64=%d" % (p, p)
        if em:
            opt += " --error-mode=%s --max-abs-error-exponent=%d" % (em, ae)
        while True:
            a, b = draw(r, t, 1, 2), draw(r, t, 1, 2)
            c = draw(r, t, 2, 4) if k % 2 else draw(r, t, 1, 2)
            x = exactd(op, t, a, b, c)
            if x[0] == 0:
                continue
            e = fpx.d_exp(x)
            f = abs(ratio(x, e))
            if 1.08 < f < 1.92 and e >= -2:
                break
        a += S1 + (S if op == DIV else 0) - (2 * S1 if op == DIV else 0) << fpx.MANT[t]
        b += (S if op in (ADD, SUB) else S - S1 if op != DIV else -S1) << fpx.MANT[t]
        c += S << fpx.MANT[t]
        x, e = exactd(op, t, a, b, c), e + S
        outs = launch(chk, drv, pre, opt, [rec(op, t, a, b, c)] * n)
        if outs is None:
            continue
        va, vb, vc = (ratio(fpx.dec(v, t), 0) for v in (a, b, c))
        coef = {ADD: (1, 1), SUB: (1, 1), MUL: (vb, va), DIV: (1 / vb, va / vb ** 2), FMA: (vb, va, 1)}[op]
        amps = []

        def noise(scale, v_exp):
            if em != "abs":
                amps.append(scale * 2.0 ** (v_exp - p))
            if em:
                amps.append(scale * 2.0 ** (ae - 1))
        if mode != "rr":
            for cf, v in zip(coef, (va, vb, vc)):
                noise(abs(cf), math.frexp(v)[1] - 1)
        if mode != "pb":
            noise(1.0, e)
        q = e - fpx.MANT[t]
        fr = ratio(((x[0] << 200) % (1 << (q - x[1] + 200)) if q - x[1] + 200 > 0 else 0, x[1] - 200), q)   # fraction of an ulp
        q2 = 2.0 ** q
        ms = []
        for _ in range(20000):
            s = fr + sum(am * r.uniform(-1, 1) for am in amps) / q2
            ms.append(round(s) - fr)
        us = [ratio(fpx.d_add(fpx.dec(g, t), fpx.d_neg(x)), q) for g in outs if fpx.is_fin(g, t)]
        if len(us) < n:
            continue
        mm, mu = sum(ms) / len(ms), sum(us) / n
        vm, vu = sum(v * v for v in ms) / len(ms) - mm * mm, sum(v * v for v in us) / n - mu * mu
        tag = "%s %s(%r, %r%s)" % (("float", "double")[t], OPNAME[op], va, vb, ", %r" % vc if op == FMA else "")
        if abs(mu - mm) > Z * math.sqrt(max(vm, 0.01)) * math.sqrt(1 / n + 1 / 20000) + abs(mm) * 0.001 + 0.001 * math.sqrt(vm):
            fail(chk, opt, "%s: mean of the perturbations %.3f ulp, expected %.3f" % (tag, mu, mm), operands=[hex(a), hex(b), hex(c)])
        # fourth moments of both samples (a noise far below half an ulp makes rare jumps)
        fm, fu = sum((v - mm) ** 4 for v in ms) / len(ms), sum((v - mu) ** 4 for v in us) / n
        if abs(vu - vm) > Z * 1.1 * math.sqrt(max(fm, fu) * (1 / n + 1 / 20000)) + 40 / n:
            fail(chk, opt, "%s: variance of the perturbations %.4g ulp^2; independent noises of its operands and result make %.4g" % (tag, vu, vm),
                 operands=[hex(a), hex(b), hex(c)])
        chk.observe(n, ("combined", lib, mode, t, op, em))
        chk.count("repeated operations compared with the model of their noises", n)


def boundary(chk, drv, pre):
    """mode rr: an exact result with one significant bit more than the precision is perturbed; one that fits is not"""
    r = chk.rng
    REP = 48
    for lib in ("mca", "mca_int"):
        for t in (0, 1):
            full = fpx.MANT[t] + 1
            for p in ((full,) if lib == "mca_int" else (full, full - 1, r.randint(2, full - 2), r.randint(2, 12), 1)):
                opt = "libinterflop_%s.so --mode=rr" % lib
                if lib == "mca":
                    opt += " --precision-binary32=%d --precision-binary64=%d" % (p, p)
                cases, recs = [], []
                tries = 0
                while len(cases) < chk.n(60, 300) and tries < 20000:
                    tries += 1
                    want = r.choice((p, p + 1, p + 1, p + 2))
                    op = r.choice((ADD, SUB, MUL, DIV, FMA))
                    h = lambda k: (1 << (k - 1) | r.getrandbits(k) | 1) & ((1 << k) - 1) if k > 0 else 1
                    if op == DIV:
                        if want > full:
                            continue
                        y = h(r.randint(1, max(1, full - want)))
                        ia, ib, ic = h(want) * y, y, 0
                    elif op == MUL:
                        k = r.randint(1, max(1, min(full, want)))
                        ia, ib, ic = h(k), h(max(1, want - k + r.randint(0, 1))), 0
                    else:
                        R = h(want)
                        ib = h(r.randint(1, min(full, max(1, want))))
                        ia, ic = (R - ib if op == ADD else R + ib), 0
                        if op == FMA:
                            ic = R - ib
                            ia, ib = ib, 1
                    e = r.randint(-30, 30)
                    big = 1 << full
                    if max(abs(ia), abs(ib), abs(ic)) > big or 0 in (ia, ib):
                        continue
                    es = (e, e, 0) if op in (ADD, SUB) else (e, 0, e)
                    a, b, c = encode(ia, es[0], t), encode(ib, es[1], t), encode(ic, es[2], t)
                    if any(fpx.dec(v, t) != (0, 0) and fpx.d_add(fpx.dec(v, t), (-i, x))[0] != 0 for v, i, x in ((a, ia, es[0]), (b, ib, es[1]), (c, ic, es[2]))):
                        continue
                    x = exactd(op, t, a, b, c)
                    if op == DIV:
                        x = (ia // ib, e)
                    m = abs(x[0])
                    if m == 0:
                        continue
                    sig = m.bit_length() - ((m & -m).bit_length() - 1)
                    if sig not in (p, p + 1, p + 2) or (sig == p + 2 and p >= full):
                        continue
                    cases.append((op, a, b, c, sig))
                    recs += [rec(op, t, a, b, c)] * REP
                if not recs:
                    continue
                outs = launch(chk, drv, pre, opt, recs)
                if outs is None:
                    continue
                for i, (op, a, b, c, sig) in enumerate(cases):
                    seen = set(outs[i * REP:(i + 1) * REP])
                    chk.observe(REP, ("boundary", lib, t, p == full, op, sig - p))
                    w = dict(op=OPNAME[op], a=hex(a), b=hex(b), c=hex(c), significant_bits=sig, precision=p)
                    if sig > p and len(seen) == 1:
                        fail(chk, opt, "%s %s: the result has %d significant bits and is never perturbed in %d runs" % (("float", "double")[t], OPNAME[op], sig, REP), **w)
                    if sig <= p and len(seen) > 1:
                        fail(chk, opt, "%s %s: the result fits the precision (%d bits) and is perturbed" % (("float", "double")[t], OPNAME[op], sig), **w)
                chk.count("results at the boundary of the precision", len(cases))


def lowbits(chk, drv, pre, n):
    """at very small precisions every low bit of the results is random and balanced, also between neighbours"""
    r = chk.rng
    for lib in ("mca",):
        for t in (0, 1):
            for mode in ("rr", "mca", "pb"):
                p = 1
                opt = "libinterflop_%s.so --mode=%s --precision-binary32=%d --precision-binary64=%d" % (lib, mode, p, p)
                M = fpx.MANT[t]
                a = fpx.ONE[t] | (1 << (M - 1)) | r.getrandbits(M - 4) | 1
                outs = launch(chk, drv, pre, opt, [rec(ADD, t, a, 0)] * n)
                if outs is None:
                    continue
                got = [g & ((1 << M) - 1) for g in outs if g >> M == a >> M]
                k = len(got)
                if k < n / 8:
                    fail(chk, opt, "only %d of %d noisy results around %s keep its exponent" % (k, n, fpx.show(a, t)))
                    continue
                for b in range(M - 4):
                    c = sum(g >> b & 1 for g in got)
                    d = sum((g >> b ^ g >> (b + 1)) & 1 for g in got)
                    if abs(c - k / 2) > Z * math.sqrt(k) / 2 or abs(d - k / 2) > Z * math.sqrt(k) / 2:
                        fail(chk, opt, "bit %d of %d noisy results is set %d times and differs from bit %d %d times" % (b, k, c, b + 1, d))
                        break
                chk.observe(k, ("low bits", lib, t, mode, p))
                chk.count("results whose bits are counted", k)


def body(chk):
    pre = vbuild.build("std")
    drv = build_drv(pre)
    r = chk.rng
    n = chk.n(14000, 60000)
    boundary(chk, drv, pre)
    lowbits(chk, drv, pre, chk.n(4000, 40000))
    combined(chk, drv, pre, n)
    # --- mode rr: noise of the result, every operation and type
    for t in (0, 1):
        for op in (ADD, SUB, MUL, DIV, FMA) + ((CAST,) if t else ()):
            for p in ((3, 6) if t == 0 else (r.randint(2, 12), 28)) if op != CAST else (5, 8):
                opt = "libinterflop_mca.so --mode=rr --precision-binary32=%d --precision-binary64=%d" % (p, p)
                recs, log = [], []
                while len(recs) < n:
                    vec = r.random() < 0.05 and op <= DIV
                    k = r.randint(0, 3)
                    for _ in range(2 << k if vec else 1):
                        a, b, c = operands(r, op, t, "both")
                        recs.append(rec(op + VADD if vec else op, t, a, b, c, k if vec else 0))
                        log.append((a, b, c))
                outs = launch(chk, drv, pre, opt, recs)
                if outs is None:
                    continue
                us, rt = [], 0 if op == CAST else t
                for (a, b, c), g in zip(log, outs):
                    x = exactd(op, t, a, b, c)
                    if x[0] == 0 or not fpx.is_fin(g, rt):
                        continue
                    m = abs(x[0])
                    sig = m.bit_length() - ((m & -m).bit_length() - 1)
                    if sig <= p + 1 or not (-100 < fpx.d_exp(x) < 100):
                        continue
                    d = fpx.d_add(fpx.dec(g, rt), fpx.d_neg(x))
                    us.append(ratio(d, fpx.d_exp(x) - p))
                law(chk, opt, "%s %s" % (("float", "double")[t], OPNAME[op]), us, 1.0, var=(1 / 3.0))
                chk.sample({"config": opt, "op": OPNAME[op], "first noises (half units)": [round(u, 4) for u in us[:5]]})
    # --- mode pb: noise of each operand alone, and of both
    for t in (0, 1):
        p = 6 if t == 0 else r.choice((8, 20))
        opt = "libinterflop_mca.so --mode=pb --precision-binary32=%d --precision-binary64=%d" % (p, p)
        for op, kind in ((ADD, "left"), (ADD, "right"), (SUB, "left"), (SUB, "right")):
            log = [operands(r, op, t, kind) for _ in range(n)]
            outs = launch(chk, drv, pre, opt, [rec(op, t, *x) for x in log])
            if outs is None:
                continue
            us = []
            for (a, b, c), g in zip(log, outs):
                x = exactd(op, t, a, b, c)
                us.append(ratio(fpx.d_add(fpx.dec(g, t), fpx.d_neg(x)), fpx.d_exp(x) - p))
            law(chk, opt, "%s %s of the %s operand" % (("float", "double")[t], OPNAME[op], kind), us, 1.0)
        for op in (ADD, SUB):   # independent noises of the two operands of a sum and of a difference
            a = fpx.ONE[t] | r.getrandbits(fpx.MANT[t])
            b = fpx.ONE[t] | r.getrandbits(fpx.MANT[t])
            outs = launch(chk, drv, pre, opt, [rec(op, t, a, b)] * n)
            if outs is None:
                continue
            x = exactd(op, t, a, b, 0)
            us = [ratio(fpx.d_add(fpx.dec(g, t), fpx.d_neg(x)), -p) for g in outs]
            law(chk, opt, "%s %s of two noisy operands" % (("float", "double")[t], OPNAME[op]), us, 2.0, uniform=False, var=2 / 3.0)
    # --- mode mca: operand and result
    for t in (0, 1):
        p = 7 if t == 0 else 18
        opt = "libinterflop_mca.so --mode=mca --precision-binary32=%d --precision-binary64=%d" % (p, p)
        a = fpx.ONE[t] | 1 << (fpx.MANT[t] - 1) | r.getrandbits(fpx.MANT[t] - 1) >> 2
        outs = launch(chk, drv, pre, opt, [rec(ADD, t, a, 0)] * n)
        if outs:
            us = [ratio(fpx.d_add(fpx.dec(g, t), fpx.d_neg(fpx.dec(a, t))), -p) for g in outs]
            law(chk, opt, "%s operand and result" % ("float", "double")[t], us, 2.0, uniform=False, var=2 / 3.0)
    # --- absolute noise
    for t in (0, 1):
        opt = "libinterflop_mca.so --mode=rr --error-mode=abs --max-abs-error-exponent=-5"
        log = [(fpx.ONE[t] | r.getrandbits(fpx.MANT[t]), fpx.ONE[t] + (r.randint(1, 3) << fpx.MANT[t]) | r.getrandbits(fpx.MANT[t])) for _ in range(n)]
        outs = launch(chk, drv, pre, opt, [rec(MUL, t, a, b) for a, b in log])
        if outs:
            us = [ratio(fpx.d_add(fpx.dec(g, t), fpx.d_neg(exactd(MUL, t, a, b, 0))), -6) for (a, b), g in zip(log, outs)]
            law(chk, opt, "%s absolute noise" % ("float", "double")[t], us, 1.0)
    # --- full precision, quad and integer variants: the result is one of the two neighbours, up with probability = fraction
    for lib in ("mca", "mca_int"):
        opt = "libinterflop_%s.so --mode=rr" % lib
        for t in (0, 1):
            for op in (ADD, SUB, MUL, DIV, FMA):
                log = [operands(r, op, t, "both") for _ in range(n)]
                outs = launch(chk, drv, pre, opt, [rec(op, t, *x) for x in log])
                if outs is None:
                    continue
                bins = [[0, 0.0, 0, 0.0] for _ in range(8)]
                seq = []
                for (a, b, c), g in zip(log, outs):
                    x = exactd(op, t, a, b, c)
                    if x[0] == 0 or not fpx.is_fin(g, t) or abs(fpx.d_exp(x)) > 100:
                        continue
                    ue = fpx.d_exp(x) - fpx.MANT[t]
                    y = (abs(x[0]), x[1])
                    gd = fpx.dec(g, t)
                    gd = (gd[0] if x[0] > 0 else -gd[0], gd[1])
                    sh = ue - y[1]
                    if sh <= 0:
                        continue
                    k = y[0] >> sh
                    f = ratio((y[0] - (k << sh), y[1]), ue)
                    up = ratio(fpx.d_add(gd, (-k, ue)), ue)
                    if f == 0 or up not in (0.0, 1.0):
                        continue   # C08/C09 bound the result; the crossing of a power of two is excluded here
                    q = bins[min(7, int(f * 8))]
                    q[0] += 1
                    q[1] += f
                    q[2] += up
                    q[3] += f * (1 - f)
                    if f * (1 - f) > 0.01:
                        seq.append((up - f) / math.sqrt(f * (1 - f)))
                for i, (cnt, fs, ups, vs) in enumerate(bins):
                    if cnt >= 50 and abs(ups - fs) > Z * math.sqrt(vs) + 3:
                        fail(chk, opt, "%s %s: with a fraction of about %.3f, %d of %d results went up (expected %.1f)" % (
                            ("float", "double")[t], OPNAME[op], fs / cnt, ups, cnt, fs))
                if len(seq) > 1000:
                    for lag in (1, 2, 3):
                        c = corr(seq[:-lag], seq[lag:])
                        if abs(c) > Z * 1.3 / math.sqrt(len(seq)):
                            fail(chk, opt, "%s %s: roundings %d operations apart are correlated (%.3f over %d)" % (("float", "double")[t], OPNAME[op], lag, c, len(seq)))
                chk.observe(len(seq), (opt, t, op))
                chk.count("stochastic roundings", len(seq))
        # inbound: the noise of one operand moves it by at most half a unit: up or down symmetrically
        for t in (0, 1):
            for lib_kind in ("left", "right"):
                opt = "libinterflop_%s.so --mode=pb" % lib
                # x * 1024 + tiny keeps room: compare sums with a ten times smaller operand
                a = fpx.ONE[t] + (1 << (fpx.MANT[t] - 1)) + 5
                b = fpx.ONE[t] - (3 << fpx.MANT[t])          # 1/8: noise of b is negligible
                args = (a, b) if lib_kind == "left" else (b, a)
                outs = launch(chk, drv, pre, opt, [rec(ADD, t, *args)] * n)
                if outs is None:
                    continue
                x = exactd(ADD, t, args[0], args[1], 0)
                m = [ratio(fpx.d_add(fpx.dec(g, t), fpx.d_neg(x)), -fpx.MANT[t]) for g in outs]
                mean = sum(m) / n
                chk.observe(n, (opt, t, lib_kind))
                if abs(mean) > Z * 0.6 / math.sqrt(n):
                    fail(chk, opt, "%s: noise of an operand is not centred: mean %.4f ulp over %d" % (("float", "double")[t], mean, n))
    # --- threads
    for mode in ("rr", "pb"):
        opt = "libinterflop_mca.so --mode=%s --precision-binary64=12%s" % (mode, r.choice(("", " --seed=5")))
        nt = 8
        a = fpx.ONE[1] | 1 << 51 | r.getrandbits(49)
        outs = launch(chk, drv, pre, opt, [rec(ADD, 1, a, 0 if mode == "pb" else fpx.ONE[1] - (6 << 52) + 12345)] * (n * nt), threads=nt)
        if outs:
            x = fpx.dec(a, 1) if mode == "pb" else exactd(ADD, 1, a, fpx.ONE[1] - (6 << 52) + 12345, 0)
            S = [[ratio(fpx.d_add(fpx.dec(g, 1), fpx.d_neg(x)), fpx.d_exp(x) - 12) for g in outs[i * n:(i + 1) * n]] for i in range(nt)]
            for i in range(nt):
                law(chk, opt, "thread", S[i], 1.0)
                for j in range(i):
                    for lag in (0, 1):
                        c = corr(S[i][lag:], S[j][:n - lag])
                        chk.observe(1, (opt, i, j, lag))
                        if abs(c) > Z / math.sqrt(n - lag):
                            fail(chk, opt, "noises of two threads are correlated (%.3f, lag %d)" % (c, lag))
    # --- sparsity
    for lib in ("mca", "mca_int"):
        for s in (0.05, 0.25, 0.5, 0.9, 1.0, round(r.uniform(0.1, 0.95), 3)):
            for mode in ("rr", "pb", "mca") if lib == "mca" else ("rr",):
                t = r.randint(0, 1)
                if lib == "mca":
                    opt = "libinterflop_mca.so --mode=%s --precision-binary32=4 --precision-binary64=12 --sparsity=%r" % (mode, s)
                    a = fpx.ONE[t] | 1 << (fpx.MANT[t] - 1) | 0x155
                    b = 0
                    want = s if mode != "mca" else 1 - (1 - s) ** 2
                    loss = 2.0 ** (4 - 22) if t == 0 else 0
                else:   # fraction one half: a perturbed result moves half of the time
                    opt = "libinterflop_mca_int.so --mode=rr --sparsity=%r" % s
                    a = fpx.ONE[t]
                    b = fpx.ONE[t] - ((fpx.MANT[t] + 1) << fpx.MANT[t])   # 1 + half ulp: ties to even, so up = perturbed up
                    want = s / 2
                    loss = 0.0
                outs = launch(chk, drv, pre, opt, [rec(ADD, t, a, b)] * n)
                if outs is None:
                    continue
                base = fpx.ieee(ADD, t, a, b)
                k = sum(g != base for g in outs)
                chk.observe(n, ("sparsity", lib, mode, s))
                w = want * (1 - loss)
                if abs(k - n * w) > Z * math.sqrt(max(n * w * (1 - w), 1)) + (0 if want < 1 else 5) + n * loss:
                    fail(chk, opt, "%d of %d operations perturbed; the sparsity asks for %.1f" % (k, n, n * w))


run_check("C10", "normalised noise of every operation, operand and type (scalar and vector), absolute and relative; mean, variance, Kolmogorov-Smirnov distance to the uniform "
          "law, autocorrelation at five lags, correlation between operands and between threads; fraction of perturbed operations; distinct = configuration x observable",
          body, ["statistical thresholds: 6.5 standard errors, KS*sqrt(n) <= 4.2 (false alarm below 1e-8 per run)"])
