"""Exact envelopes of Monte Carlo arithmetic operations.

Every step (perturbation by a bounded noise, the operation, the roundings) is monotone in its inputs, so
the set of possible results is the image of interval end points; all arithmetic is on exact dyadics."""
import fpx
from vcommon import ADD, SUB, MUL, DIV, FMA, CAST

# working formats of the backends: binary64 for binary32 operations, binary128 for binary64 ones
WP = (53, 113)
WEMIN = (-1022, -16382)
WEMAX = (1023, 16383)
ZERO = (0, 0)


def rw(x, t):
    r = fpx.rnd_fmt(x, WP[t], WEMIN[t], WEMAX[t])
    if r[0] == "i":
        return (r[1], WEMAX[t] + 1)
    return (r[1], r[2])


def pow2(k):
    return (1, k)


def noise_rel_hi(x, p, kind):
    """largest value reached from x (non-zero) with relative noise at precision p"""
    if x[0] == 0:
        return x
    e = fpx.d_exp(x)
    y = fpx.d_add(x, pow2(e - p))
    if kind == "int":
        if x[0] > 0:
            top = pow2(e + 1)
            if fpx.d_cmp(y, top) > 0:  # unit doubles beyond the power of two
                d = fpx.d_add(y, fpx.d_neg(top))
                y = fpx.d_add(top, (d[0] * 2, d[1]))
        else:
            bot = (-1, e)
            if fpx.d_cmp(y, bot) > 0:  # unit halves below the power of two
                d = fpx.d_add(y, fpx.d_neg(bot))
                y = fpx.d_add(bot, (d[0], d[1] - 1))
    return y


def noise_rel_lo(x, p, kind):
    return fpx.d_neg(noise_rel_hi(fpx.d_neg(x), p, kind))


def _cands(lo, hi):
    """end points plus the powers of two where the noise amplitude jumps"""
    c = [lo, hi]
    for s in (1, -1):
        a, b = (lo, hi) if s > 0 else (fpx.d_neg(hi), fpx.d_neg(lo))
        if b[0] <= 0:
            continue
        k = fpx.d_exp(b)
        for j in range(4):
            q = pow2(k - j)
            if fpx.d_cmp(q, a) >= 0 and fpx.d_cmp(q, b) <= 0:
                c.append(q if s > 0 else fpx.d_neg(q))
    return c


def perturb(iv, t, p, conf):
    """interval after _INEXACT in the working format"""
    lo, hi = iv
    if lo[0] == 0 and hi[0] == 0:
        return iv
    rel = conf.get("rel", True)
    if rel:
        cs = _cands(lo, hi)
        nlo = min_(noise_rel_lo(c, p, conf["kind"]) for c in cs)
        nhi = max_(noise_rel_hi(c, p, conf["kind"]) for c in cs)
        lo, hi = rw(nlo, t), rw(nhi, t)
    if conf.get("abs") is not None:
        d = pow2(conf["abs"] - 1)
        lo, hi = rw(fpx.d_add(lo, fpx.d_neg(d)), t), rw(fpx.d_add(hi, d), t)
    if conf.get("spars", 1) < 1:
        lo, hi = min_((lo, iv[0])), max_((hi, iv[1]))
    return lo, hi


def min_(it):
    b = None
    for x in it:
        if b is None or fpx.d_cmp(x, b) < 0:
            b = x
    return b


def max_(it):
    b = None
    for x in it:
        if b is None or fpx.d_cmp(x, b) > 0:
            b = x
    return b


ANY = "any"


def apply(op, ivs):
    if op == CAST:
        return ivs[0]
    (al, ah), (bl, bh) = ivs[0], ivs[1]
    if op == ADD:
        return fpx.d_add(al, bl), fpx.d_add(ah, bh)
    if op == SUB:
        return fpx.d_add(al, fpx.d_neg(bh)), fpx.d_add(ah, fpx.d_neg(bl))
    if op in (MUL, FMA):
        ps = [fpx.d_mul(x, y) for x in {al, ah} for y in {bl, bh}]
        lo, hi = min_(ps), max_(ps)
        if op == FMA:
            lo, hi = fpx.d_add(lo, ivs[2][0]), fpx.d_add(hi, ivs[2][1])
        return lo, hi
    if op == DIV:
        if bl[0] <= 0 <= bh[0]:
            return ANY
        qs = [fpx.divf(x, y) for x in {al, ah} for y in {bl, bh}]
        return min_(q[0] for q in qs), max_(q[1] for q in qs)


def sigbits(x):
    m = abs(x[0])
    if m == 0:
        return 0
    while m & 1 == 0:
        m >>= 1
    return m.bit_length()


def check(op, t, a, b, c, got, conf):
    """None if `got` is a possible result, else a description.
    conf: kind quad|int, mode ieee|mca|pb|rr, p (p32, p64), rel, abs (exponent or None), daz, ftz, spars"""
    rt = 0 if op == CAST else t
    p = conf["p"][t]
    daz, ftz = conf.get("daz"), conf.get("ftz")
    opnds = [a] + ([b] if op != CAST else []) + ([c] if op == FMA else [])
    if daz:
        opnds = [0 if fpx.is_sub(x, t) else x for x in opnds]
    if any(not fpx.is_fin(x, t) for x in opnds) or (op == DIV and fpx.is_zero(opnds[1], t)):
        if conf.get("abs") is not None and conf["mode"] in ("pb", "mca") and op in (MUL, DIV, FMA):
            # an absolute noise may change the sign of the finite operands
            if op != FMA and not any(fpx.is_nan(x, t) for x in opnds):
                w = fpx.ieee(op, t, opnds[0], opnds[1])
                if w != "nan" and (got & ~fpx.SIGN[t]) != (w & ~fpx.SIGN[t]) and not fpx.is_nan(got, t):
                    return "special operands: must be +-%s" % fpx.show(w, t)
            return None
        o = opnds + [0] * (3 - len(opnds))
        want = fpx.cast32(o[0]) if op == CAST else fpx.ieee(op, t, o[0], o[1], o[2])
        return None if fpx.same(got, want, rt) else "special operands: must be exactly %s" % (want if want == "nan" else fpx.show(want, rt))
    ivs = [(fpx.dec(x, t),) * 2 for x in opnds]
    mode = conf["mode"]
    noisy_in = mode in ("pb", "mca")
    noisy_out = mode in ("rr", "mca")
    if noisy_in:
        ivs = [perturb(iv, t, p, conf) for iv in ivs]
    iv = apply(op, ivs)
    if iv is ANY:
        return None
    exact_zero = iv[0][0] == 0 and iv[1][0] == 0
    point = iv[0] == iv[1]
    if op == CAST:
        iv = tuple(fpx.dec32(x) for x in iv)
        if iv[0] is None or iv[1] is None:  # overflow to infinity of the cast itself
            if iv[0] is None and iv[1] is None:
                return None if fpx.is_inf(got, 0) else "cast overflows: must be infinite"
            return None
        exact_zero = iv[0][0] == 0 and iv[1][0] == 0
        point = point and True
    if mode == "rr" and point and sigbits(iv[0]) <= p and not exact_zero:
        noisy_out = False
    if not (mode == "ieee" and op == FMA):
        iv = (rw(iv[0], t), rw(iv[1], t))
    if noisy_out and not exact_zero:
        iv = perturb(iv, t, p, conf)
    if exact_zero:
        if fpx.is_zero(got, rt):
            if any(fpx.is_zero(x, t) for x in opnds) and not daz and not ftz and mode in ("rr", "ieee") and op != CAST:
                o = opnds + [0] * (3 - len(opnds))
                want = fpx.ieee(op, t, o[0], o[1], o[2])
                if got != want:
                    return "zero result must have the IEEE sign: %s" % fpx.show(want, rt)
            return None
        return "an exact zero must not be perturbed"
    if fpx.is_nan(got, rt):
        return "NaN from finite operands"
    L, H = fpx.rnd(iv[0], rt), fpx.rnd(iv[1], rt)
    ko, kl, kh = key(got, rt), key(L, rt), key(H, rt)
    if ftz and op != CAST:
        if fpx.is_sub(got, rt):
            return "flush-to-zero: subnormal result"
        if ko == 0:
            return None if kl < fpx.MINN[rt] and kh > -fpx.MINN[rt] else "flushed a normal result [%s, %s]" % (fpx.show(L, rt), fpx.show(H, rt))
    if kl <= ko <= kh:
        return None
    return "outside the envelope [%s, %s]" % (fpx.show(L, rt), fpx.show(H, rt))


def key(b, t):
    m = b & ~fpx.SIGN[t]
    return -m if b & fpx.SIGN[t] else m
