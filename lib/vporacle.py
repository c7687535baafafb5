"""Oracle of the VPREC backend: set of acceptable results of each operation.

The specification is: round to the nearest value, ties to even, of the format with an exponent of r bits and a
pseudo-mantissa of p bits; gradual underflow; overflow to infinity.  Unspecified (all alternatives accepted):
the sign of a value rounded to zero, and the direction of the exact half of the smallest subnormal."""
import fpx
import workload as wl
from vcommon import *

MINP, MINR = (1, 1), (2, 2)


class Any:
    """only the distance to `x` is specified: at most 2^e"""

    def __init__(self, x, e):
        self.x, self.e = x, e


def near(x, q, t):
    """dyadic x to the nearest multiple of 2^q: candidates (bits of type t)"""
    m, e = x
    if e >= q:
        return {fpx.rnd(x, t)}
    k, rem = abs(m) >> (q - e), abs(m) & ((1 << (q - e)) - 1)
    half = 1 << (q - e - 1)
    s = 1 if m > 0 else -1
    ks = {k}
    if rem > half or (rem == half and k & 1):
        ks = {k + 1}
    elif rem == half and k == 0:
        ks = {0, 1}          # half of the smallest subnormal
    out = set()
    for k in ks:
        if k == 0:
            out |= {0, fpx.SIGN[t]}
        else:
            out.add(fpx.rnd((s * k, q), t))
    return out


def vround(x, t, r, p, conf, is_in):
    """acceptable roundings of the bits x of type t: set of bits, or Any"""
    if not fpx.is_fin(x, t):
        return {x}
    zeros = {0, fpx.SIGN[t]}
    emax = (1 << (r - 1)) - 1
    emin = 1 - emax
    flush = conf.get("daz") if is_in else conf.get("ftz")
    if fpx.is_zero(x, t):
        return zeros if flush else {x}
    d = fpx.dec(x, t)
    top = fpx.d_exp(d)
    E = conf.get("abs")
    if top >= emax:
        rr = fpx.rnd_fmt(d, p + 1, emin, emax)
        if top > emax or rr[0] == "i":
            return {fpx.INFB[t] | (x & fpx.SIGN[t])}
    if top < emin:
        if flush:
            return {fpx.SIGN[t] if fpx.sgn(x, t) else 0}
        if E is None:
            return near(d, emin - p, t)
        if E >= emin:
            return Any(d, E)
        q = min(emin - E, p if conf.get("rel", True) else fpx.MANT[t])
        return near(d, emin - q, t)
    if E is None:
        return near(d, top - p, t)
    diff = top - E
    if diff < -1:
        return zeros
    if diff == -1:
        return {fpx.rnd((1 if d[0] > 0 else -1, E), t)}
    q = min(diff, p if conf.get("rel", True) else fpx.MANT[t])
    if q == 0 and abs(d[0]) == 3 << (abs(d[0]).bit_length() - 2):   # direction of this tie is unspecified
        return near(d, top, t) | {fpx.rnd((1 if d[0] > 0 else -1, top), t)}
    return near(d, top - q, t)


def cands(op, t, a, b, c, conf):
    mode = conf["mode"]
    p, r = conf["p"], conf["r"]
    if op == CAST:
        if mode == "ieee":
            return {fpx.cast32(a)}
        if mode == "ib":
            s = vround(a, 1, min(r[1], 8), min(p[1], 23), conf, True)
        else:
            s = vround(a, 1, r[0], p[0], conf, False)
        if isinstance(s, Any):
            return s
        return {fpx.cast32(v) if not fpx.is_nan(v, 1) else "nan" for v in s}
    n = 3 if op == FMA else 2
    sets = [{x} for x in (a, b, c)[:n]]
    if mode in ("ib", "full"):
        sets = [vround(x, t, r[t], p[t], conf, True) if not fpx.is_nan(x, t) else {x} for x in (a, b, c)[:n]]
        if any(isinstance(s, Any) for s in sets):
            return None
    res = [()]
    for s in sets:
        res = [q + (v,) for q in res for v in s]
    outs = set()
    for v in res:
        w = fpx.ieee(op, t, v[0], v[1], v[2] if n == 3 else 0)
        if w == "nan" or mode not in ("ob", "full"):
            outs.add(w)
            continue
        s = vround(w, t, r[t], p[t], conf, False)
        if isinstance(s, Any):
            if len(res) == 1:
                return s
            return None
        outs |= s
    return outs


def check(op, t, a, b, c, got, conf):
    """None when acceptable; otherwise the reason"""
    rt = wl.rtype(op, t)
    s = cands(op, t, a, b, c, conf)
    if s is None:
        return None
    if isinstance(s, Any):
        if not fpx.is_fin(got, rt):
            return "must be finite"
        d = fpx.d_add(fpx.dec(got, rt), fpx.d_neg(s.x))
        return None if d[0] == 0 or fpx.d_cmp((abs(d[0]), d[1]), (1, s.e)) <= 0 else "further than 2^%d from the native result" % s.e
    if got in s or ("nan" in s and fpx.is_nan(got, rt)):
        return None
    return "must be %s" % " or ".join(sorted("NaN" if v == "nan" else fpx.show(v, rt) for v in s))


def option(conf):
    s = "libinterflop_vprec.so --mode=%s" % conf["mode"]
    if conf.get("preset"):
        s += " --preset=%s" % conf["preset"]
    for k in conf.get("opts", ("p0", "p1", "r0", "r1")):
        s += " --%s-binary%d=%d" % ({"p": "precision", "r": "range"}[k[0]], 32 << int(k[1]), conf[k[0]][int(k[1])])
    if conf.get("abs") is not None:
        s += " --error-mode=%s --max-abs-error-exponent=%d" % ("all" if conf.get("rel", True) else "abs", conf["abs"])
    if conf.get("daz"):
        s += " --daz"
    if conf.get("ftz"):
        s += " --ftz"
    return s


def gen_for(conf, t):
    """operands around the limits and the ties of the simulated format"""
    p, rr = conf["p"][t], conf["r"][t]
    emax = (1 << (rr - 1)) - 1
    emin = 1 - emax
    M = fpx.MANT[t]

    def val(r):
        k = r.random()
        s = r.choice((1, -1))
        if k < 0.35:    # near ties of the format
            e = r.randint(max(emin - p - 2, -40 if r.random() < 0.7 else -1100), min(emax + 1, 40 if r.random() < 0.7 else 1100))
            m = (r.getrandbits(p) | 1 << p)
            x = (s * ((m << 2) + r.choice((1, 2, 3, 0, 2))), e - p - 2)
            if r.random() < 0.4:
                x = fpx.d_add(x, (r.choice((1, -1)), e - M))
            v = fpx.rnd(x, t)
        elif k < 0.55:  # around the smallest numbers
            e = emin - p + r.randint(-3, 2) if r.random() < 0.5 else emin + r.randint(-p - 1, 1)
            m = r.choice((1, 1, 3, 5, 7)) if r.random() < 0.5 else r.getrandbits(M) | 1 << M
            v = fpx.rnd((s * m, e - m.bit_length() + 1), t)
        elif k < 0.7:   # around the largest
            m = (1 << (M + 1)) - r.choice((0, 1, 1 << max(0, M - p - 1), 1 << max(0, M - p), 3, r.getrandbits(M)))
            v = fpx.rnd((s * m, emax - M + r.choice((0, 0, 0, 1, -1))), t)
        else:
            return fpx.gen_bits(r, t)
        return v if fpx.is_fin(v, t) else fpx.gen_bits(r, t)
    return val


def generator(conf):
    v0, v1 = gen_for(conf, 0), gen_for(conf, 1)
    c32 = {"p": (0, conf["p"][0]), "r": (0, conf["r"][0])}
    vc = gen_for(c32, 1)

    def gen(r, op, t):
        if op == CAST:
            return (vc(r) if r.random() < 0.6 else wl.gen_op(r, op, t)[0]), 0, 0
        v = (v0, v1)[t]
        k = r.random()
        if k < 0.35:
            return wl.gen_op(r, op, t)
        a = v(r)
        one = fpx.ONE[t]
        if k < 0.75:   # the (almost) identity operation shows the rounding of one value
            if op in (ADD, SUB):
                return a, r.choice((0, 0, fpx.SIGN[t], 1)), 0
            if op in (MUL, DIV):
                return a, r.choice((one, one | fpx.SIGN[t], one + (1 << fpx.MANT[t]), one - (1 << fpx.MANT[t]))), 0
            return a, one, r.choice((0, v(r)))
        return a, v(r), v(r) if op == FMA else 0
    return gen


def run_conf(chk, drv, pre, conf, recs, log, threads=0, opt=None, env=None):
    opt = opt or option(conf)
    outs, r = drive(chk, drv, pre, opt, recs, threads=threads)
    if outs is None:
        if r.timeout:
            raise Hang("driver timed out under " + opt)
        chk.violation("%s: the program died (status %s) %s" % (opt, r.rc, r.err[-300:]), opt)
        return None
    for (op, t, a, b, c), got in zip(log, outs):
        why = check(op, t, a, b, c, got, conf)
        rt = wl.rtype(op, t)
        pos = "z" if fpx.is_zero(got, rt) else "n" if not fpx.is_fin(got, rt) else (
            "under" if fpx.d_exp(fpx.dec(got, rt)) < 2 - (1 << (conf["r"][rt] - 1)) else "norm")
        chk.observe(1, (conf["mode"], conf.get("abs") is not None, bool(conf.get("daz")), bool(conf.get("ftz")), conf["p"][t], conf["r"][t], op, t, pos))
        if why:
            chk.violation("[%s] %s: %s" % (opt, wl.show(op, t, a, b, c, got), why),
                          {"backend": opt, "op": OPNAME[op], "type": t, "a": hex(a), "b": hex(b), "c": hex(c), "got": hex(got), "why": why})
    chk.count("results checked in mode %s" % conf["mode"], len(log))
    chk.sample({"config": opt, "op": wl.show(*log[0], got=outs[0])})
    return outs
