"""Oracle of the bitmask backend."""
import fpx
import mcaoracle
import workload as wl
from vcommon import *


def keepmask(x, t, p):
    """bits of x that must survive: sign, exponent and the first p significant bits"""
    M = fpx.MANT[t]
    full = (1 << fpx.W[t]) - 1
    m = x & ((1 << M) - 1)
    if fpx.is_sub(x, t):
        nb = m.bit_length()      # significant bits of the subnormal
        drop = max(0, nb - p)
    else:
        drop = max(0, M + 1 - p)
    return full & ~((1 << drop) - 1)


def untouched(x, t, p, mode):
    if not fpx.is_fin(x, t) or fpx.is_zero(x, t):
        return True
    if mode == "ob":
        m = x & ((1 << fpx.MANT[t]) - 1)
        if m == 0:
            return True
        tz = (m & -m).bit_length() - 1
        return fpx.MANT[t] < p + tz
    return False


def ends(x, t, conf):
    """smallest and largest magnitude reachable from x through the operator"""
    p = conf["p"][t]
    if conf["mode"] == "ieee" or untouched(x, t, p, conf["mode"]):
        return x, x
    k = keepmask(x, t, p)
    full = (1 << fpx.W[t]) - 1
    z, o = x & k, x | (full & ~k)
    if conf["op"] == "zero":
        return z, z
    if conf["op"] == "one":
        return o, o
    return z, o


def order(iv, t):
    return iv if mcaoracle.key(iv[0], t) <= mcaoracle.key(iv[1], t) else (iv[1], iv[0])


def ieee_t(op, t, o):
    """result of the operation in type t (for a cast: the float value as a double)"""
    if op == CAST:
        f = fpx.cast32(o[0])
        if f == "nan":
            return "nan"
        if fpx.is_inf(f, 0):
            return fpx.INFB[1] | (fpx.SIGN[1] if fpx.sgn(f, 0) else 0)
        m, e = fpx.dec(f, 0)
        return fpx.enc(m, e, 1, neg_zero=bool(fpx.sgn(f, 0)))
    return fpx.ieee(op, t, o[0], o[1], o[2])


def check(op, t, a, b, c, got, conf):
    n = 1 if op == CAST else (3 if op == FMA else 2)
    o = [a, b, c][:n]
    mode = conf["mode"]
    if conf.get("daz"):
        o = [0 if fpx.is_sub(x, t) else x for x in o]
    ib, ob = mode in ("ib", "full"), mode in ("ob", "full")
    ivs = [order(ends(x, t, conf), t) if ib else (x, x) for x in o]
    sure = all(lo == hi for lo, hi in ivs)
    if sure:
        v = [lo for lo, _ in ivs] + [0, 0]
        r = ieee_t(op, t, v)
        if r == "nan":
            return None if fpx.is_nan(got, 0 if op == CAST else t) else "must be NaN"
        res = order(ends(r, t, conf), t) if ob else (r, r)
    else:
        if any(not fpx.is_fin(lo, t) for lo, _ in ivs) or (op == DIV and fpx.is_zero(ivs[1][0], t)):
            v = [lo for lo, _ in ivs] + [0, 0]
            r = ieee_t(op, t, v)
            if r == "nan":
                return None if fpx.is_nan(got, 0 if op == CAST else t) else "must be NaN"
            res = (r, r)
        else:
            if op == CAST:
                res = tuple(ieee_t(op, t, (x, 0, 0)) for x in ivs[0])
            else:
                iv = mcaoracle.apply(op, [(fpx.dec(lo, t), fpx.dec(hi, t)) for lo, hi in ivs])
                res = (fpx.rnd(iv[0], t), fpx.rnd(iv[1], t))
            if ob:
                lo, hi = res
                lo = order(ends(lo, t, conf), t)[0]
                hi = order(ends(hi, t, conf), t)[1]
                res = (lo, hi)
    rt = t
    lo, hi = res
    exact = lo == hi
    if conf.get("ftz"):
        if exact and fpx.is_sub(lo, t):
            return None if fpx.is_zero(got, 0 if op == CAST else t) else "flush-to-zero: must be zero"
        if op != CAST and fpx.is_sub(got, t):
            return "flush-to-zero: subnormal result"
    if op == CAST:
        lo, hi = fpx.cast32(lo), fpx.cast32(hi)
        rt = 0
    if exact:
        if got == lo or (sure is False and fpx.is_zero(got, rt) and fpx.is_zero(lo, rt)) or (conf.get("daz") and fpx.is_zero(got, rt) and fpx.is_zero(lo, rt)):
            return None
        return "must be %s" % fpx.show(lo, rt)
    if fpx.is_nan(got, rt):
        return "NaN from finite operands"
    if conf.get("ftz") and fpx.is_zero(got, rt):
        return None if mcaoracle.key(lo, rt) < fpx.MINN[rt] and mcaoracle.key(hi, rt) > -fpx.MINN[rt] else "flushed a normal result"
    # operator rand on the result alone: the kept bits are fixed
    if mcaoracle.key(lo, rt) <= mcaoracle.key(got, rt) <= mcaoracle.key(hi, rt):
        return None
    return "outside [%s, %s]" % (fpx.show(lo, rt), fpx.show(hi, rt))


def option(conf):
    s = "libinterflop_bitmask.so --mode=%s --operator=%s" % (conf["mode"], conf["op"])
    if conf.get("popt", True):
        s += " --precision-binary32=%d --precision-binary64=%d" % conf["p"]
    if conf.get("daz"):
        s += " --daz"
    if conf.get("ftz"):
        s += " --ftz"
    return s


def run_conf(chk, drv, pre, conf, recs, log, draws=None, threads=0):
    opt = option(conf)
    kw = {"VERIF_DRAWS": str(chk.rng.getrandbits(30) + 1)} if draws else {}
    outs, r = drive(chk, drv, pre, opt, recs, threads=threads, preload=draws, **kw)
    if outs is None:
        if r.timeout:
            raise Hang("driver timed out under " + opt)
        chk.violation("%s: the program died (status %s) %s" % (opt, r.rc, r.err[-300:]), opt)
        return
    for (op, t, a, b, c), got in zip(log, outs):
        why = check(op, t, a, b, c, got, conf)
        chk.observe(1, ("bm", conf["mode"], conf["op"], bool(conf.get("daz")), bool(conf.get("ftz")), op, t, fpx.bucket(a, t),
                        fpx.bucket(got, wl.rtype(op, t))[:2]))
        if why:
            chk.violation("[%s] %s: %s" % (opt, wl.show(op, t, a, b, c, got), why),
                          {"backend": opt, "op": OPNAME[op], "type": t, "a": hex(a), "b": hex(b), "c": hex(c), "got": hex(got), "why": why})
    chk.count("bitmask results", len(log))
    chk.sample({"config": opt, "op": wl.show(*log[0], got=outs[0])})
