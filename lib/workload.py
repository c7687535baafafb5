"""Operation workloads for the driver and their exact results."""
import fpx
from vcommon import ADD, SUB, MUL, DIV, FMA, CAST, CMP, VADD, VDIV, OPNAME, rec


def gen_fma(r, t):
    a, b = fpx.gen_pair(r, t)
    k = r.random()
    if k < 0.55 and fpx.is_fin(a, t) and fpx.is_fin(b, t) and not fpx.is_zero(a, t) and not fpx.is_zero(b, t):
        # addend commensurate with the product: massive cancellation, ties of the single rounding
        p = fpx.d_mul(fpx.dec(a, t), fpx.dec(b, t))
        if k < 0.25:
            c = fpx.rnd(fpx.d_neg(p), t)
        else:
            sh = r.randint(-fpx.P[t] - 3, fpx.P[t] + 3)
            c = fpx.rnd((r.choice((-1, 1)) * (r.getrandbits(fpx.P[t]) | 1 << (fpx.P[t] - 1)),
                         fpx.d_exp(p) - fpx.P[t] + 1 + sh), t)
        if fpx.is_inf(c, t):
            c = fpx.gen_bits(r, t)
        return a, b, c
    return a, b, fpx.gen_bits(r, t)


def gen_addtie(r, t):
    """addition whose exact sum lies on or next to a rounding boundary"""
    M = fpx.MANT[t]
    ea = fpx.EMAX[t] + r.randint(-60, 60)
    a = (ea << M) | r.getrandbits(M)
    d = fpx.P[t] + r.randint(-2, 1)
    eb = ea - d
    if eb < 1:
        return a, 1
    b = (eb << M) | r.choice((0, 0, 1, (1 << M) - 1, 1 << (M - 1)))
    if r.getrandbits(1):
        b |= fpx.SIGN[t]
    if r.getrandbits(1):
        a |= fpx.SIGN[t]
    return (a, b) if r.getrandbits(1) else (b, a)


def gen_castval(r):
    """a double near binary32 boundaries"""
    k = r.random()
    if k < 0.5:
        f = fpx.gen_bits(r, 0)
        if fpx.is_fin(f, 0):
            m, e = fpx.dec(f, 0)
            v = fpx.enc(m, e, 1, neg_zero=bool(fpx.sgn(f, 0)))
            j = r.random()
            if j < 0.3:  # midway to the next float
                return fpx.enc(2 * m + (1 if m >= 0 else -1), e - 1, 1)
            if j < 0.6:  # and its neighbours
                return fpx.enc(2 * m + (1 if m >= 0 else -1), e - 1, 1) + r.choice((-1, 1, -2, 2))
            return v
    if k < 0.6:
        return (fpx.SIGN[1] if r.getrandbits(1) else 0) | ((1023 + r.randint(-155, -120)) << 52) | r.getrandbits(52)
    if k < 0.7:
        return (fpx.SIGN[1] if r.getrandbits(1) else 0) | ((1023 + r.randint(125, 130)) << 52) | r.getrandbits(52)
    return fpx.gen_bits(r, 1)


def gen_op(r, op, t):
    if op == FMA:
        return gen_fma(r, t)
    if op == CAST:
        return gen_castval(r), 0, 0
    if op in (ADD, SUB) and r.random() < 0.15:
        a, b = gen_addtie(r, t)
    else:
        a, b = fpx.gen_pair(r, t)
    return a, b, 0


def gen_small(r, op, t):
    """operands and results around the subnormal range"""
    if op == CAST:
        return gen_op(r, op, t)
    k = r.random()
    if k < 0.4:
        return gen_op(r, op, t)
    M = fpx.MANT[t]
    def s():
        j = r.random()
        if j < 0.4:
            v = r.getrandbits(r.randint(1, M))
        elif j < 0.7:
            v = (r.randint(0, 30) << M) | r.getrandbits(M)
        elif j < 0.8:
            v = r.choice((0, 1, fpx.MINN[t], fpx.MINN[t] - 1, fpx.MINN[t] + 1))
        else:
            return None
        return v | (fpx.SIGN[t] if r.getrandbits(1) else 0)
    a = s()
    if a is None:
        a = fpx.gen_bits(r, t)
    if op in (MUL, FMA):   # product in the subnormal range
        ex = max(1, (a & ~fpx.SIGN[t]) >> M)
        e = fpx.EMAX[t] + (1 - ex) + r.randint(-M - 3, 3) + (0 if ex > 1 else 0)
        b = (max(0, min(2 * fpx.EMAX[t], e)) << M) | r.getrandbits(M)
        if r.random() < 0.3:
            b = (max(1, min(2 * fpx.EMAX[t], fpx.EMAX[t] + r.randint(-4, 4))) << M) | r.getrandbits(M)
    elif op == DIV:
        b = (max(1, min(2 * fpx.EMAX[t], fpx.EMAX[t] + r.randint(-3, 30))) << M) | r.getrandbits(M)
    else:
        b = s()
        if b is None:
            b = fpx.gen_bits(r, t)
    c = s() or 0
    return a, b, c


def records(r, n, types=(0, 1), ops=(ADD, SUB, MUL, DIV, FMA, CAST), vec=0.1, gen=gen_op):
    """about n records; list of (op, t, a, b, c) with vector lanes as scalar entries, and the record list"""
    recs, log = [], []
    scal = [o for o in ops]
    vecs = [o for o in ops if o <= DIV]
    while len(recs) < n:
        t = r.choice(types)
        if vecs and r.random() < vec / 4:
            op = r.choice(vecs)
            aux = r.randint(0, 3)
            for _ in range(2 << aux):
                a, b, c = gen(r, op, t)
                recs.append(rec(op + VADD, t, a, b, 0, aux))
                log.append((op, t, a, b, 0))
            continue
        op = r.choice(scal)
        if op == CAST:
            if 1 not in types:
                continue
            t = 1
        a, b, c = gen(r, op, t)
        recs.append(rec(op, t, a, b, c))
        log.append((op, t, a, b, c))
    return recs, log


def exact(op, t, a, b, c):
    """IEEE result bits (type of the result: rtype)"""
    if op == CAST:
        return fpx.cast32(a)
    return fpx.ieee(op, t, a, b, c)


def rtype(op, t):
    return 0 if op == CAST else t


def show(op, t, a, b, c, got=None):
    s = "%s %s %s" % (("float", "double")[t], OPNAME[op], fpx.show(a, t))
    if op != CAST:
        s += " " + fpx.show(b, t)
    if op == FMA:
        s += " " + fpx.show(c, t)
    if got is not None:
        s += " -> " + fpx.show(got, rtype(op, t))
    return s
