"""Exact binary floating point on Python integers: the oracle side of the value checks.

A finite value is (m, e) = m * 2**e with m a signed int.  Types: 0 = binary32, 1 = binary64."""
import random
import struct

P = (24, 53)            # precision, implicit bit included
EMAX = (127, 1023)
EMIN = (-126, -1022)    # exponent of the smallest normal
W = (32, 64)
MANT = (23, 52)
EXPB = (8, 11)
INFB = (0x7F800000, 0x7FF0000000000000)
SIGN = (1 << 31, 1 << 63)
QNAN = (0x7FC00000, 0x7FF8000000000000)
MAXB = (0x7F7FFFFF, 0x7FEFFFFFFFFFFFFF)
ONE = (0x3F800000, 0x3FF0000000000000)
MINN = (0x00800000, 0x0010000000000000)


def is_nan(b, t):
    return (b & ~SIGN[t]) > INFB[t]


def is_inf(b, t):
    return (b & ~SIGN[t]) == INFB[t]


def is_zero(b, t):
    return (b & ~SIGN[t]) == 0


def is_fin(b, t):
    return (b & ~SIGN[t]) < INFB[t]


def is_sub(b, t):
    return 0 < (b & ~SIGN[t]) < MINN[t]


def sgn(b, t):
    return 1 if b & SIGN[t] else 0


def dec(b, t):
    """finite bits -> (m, e)"""
    mag = b & ~SIGN[t]
    ex = mag >> MANT[t]
    m = mag & ((1 << MANT[t]) - 1)
    if ex:
        m |= 1 << MANT[t]
    else:
        ex = 1
    return (-m if b & SIGN[t] else m, ex - (EMAX[t] + MANT[t]))


def f2b(x, t):
    return struct.unpack("<I", struct.pack("<f", x))[0] if t == 0 else struct.unpack("<Q", struct.pack("<d", x))[0]


def b2f(b, t):
    return struct.unpack("<f", struct.pack("<I", b & 0xFFFFFFFF))[0] if t == 0 else struct.unpack("<d", struct.pack("<Q", b))[0]


def show(b, t):
    return "%s(0x%0*x)" % (b2f(b, t).hex(), 8 if t == 0 else 16, b)


def d_add(x, y):
    (a, ea), (b, eb) = x, y
    if ea > eb:
        return ((a << (ea - eb)) + b, eb)
    return (a + (b << (eb - ea)), ea)


def d_neg(x):
    return (-x[0], x[1])


def d_mul(x, y):
    return (x[0] * y[0], x[1] + y[1])


def d_cmp(x, y):
    (a, ea), (b, eb) = x, y
    if ea > eb:
        a <<= ea - eb
    else:
        b <<= eb - ea
    return (a > b) - (a < b)


def d_exp(x):
    """floor(log2|x|) of a non-zero dyadic"""
    return abs(x[0]).bit_length() - 1 + x[1]


def divf(x, y, bits=240):
    """(lo, hi) dyadics with lo <= x/y <= hi, at least `bits` significant bits; equal when exact"""
    (a, ea), (b, eb) = x, y
    neg = (a < 0) != (b < 0)
    a, b = abs(a), abs(b)
    sh = max(0, bits - a.bit_length() + b.bit_length())
    q, r = divmod(a << sh, b)
    e = ea - eb - sh
    lo, hi = (q, e), ((q, e) if r == 0 else (q + 1, e))
    return (d_neg(hi), d_neg(lo)) if neg else (lo, hi)


def rnd_fmt(x, prec, emin, emax, mode="n", sticky=0):
    """rounds dyadic x (plus an infinitesimal of sign `sticky`) to a format of `prec` significand bits.
    mode n (nearest even), d (toward -inf), u (toward +inf).  Returns ('f', m, e) or ('i', sign)."""
    m, e = x
    if m == 0:
        if sticky == 0 or mode == "n":
            return ("f", 0, 0)
        if (mode == "u" and sticky > 0):
            return ("f", 1, emin - prec + 1)
        if (mode == "d" and sticky < 0):
            return ("f", -1, emin - prec + 1)
        return ("f", 0, 0)
    s = 1 if m > 0 else -1
    a = abs(m)
    st = sticky * s  # sign of the infinitesimal relative to magnitude
    top = a.bit_length() - 1 + e
    if st < 0 and a & (a - 1) == 0:
        top -= 1
    q = max(top, emin) - prec + 1  # exponent of the unit in the last place
    sh = q - e
    if sh <= 0:
        if st == 0:
            return _fin(s, a, e, prec, emax)
        # make room for the sticky part
        a <<= 2 - sh
        e -= 2 - sh
        sh = 2
    if st:
        a = (a << 2) + (1 if st > 0 else -1)
        e -= 2
        sh += 2
    k = a >> sh
    rem = a - (k << sh)
    half = 1 << (sh - 1)
    if mode == "n":
        if rem > half or (rem == half and k & 1):
            k += 1
    elif rem:
        if (mode == "u") == (s > 0):
            k += 1
    return _fin(s, k, q, prec, emax, mode)


def _fin(s, k, e, prec, emax, mode="n"):
    if k and k.bit_length() - 1 + e > emax:
        if mode == "n" or (mode == "u") == (s > 0):
            return ("i", s)
        return ("f", s * ((1 << prec) - 1), emax - prec + 1)
    return ("f", s * k, e)


def enc(m, e, t, neg_zero=False):
    """finite exactly representable (m, e) -> bits"""
    if m == 0:
        return SIGN[t] if neg_zero else 0
    s = SIGN[t] if m < 0 else 0
    a = abs(m)
    while a & 1 == 0:
        a >>= 1
        e += 1
    top = a.bit_length() - 1 + e
    if top < EMIN[t]:
        return s | (a << (e - (EMIN[t] - MANT[t])))
    a <<= MANT[t] - (a.bit_length() - 1)
    return s | ((top + EMAX[t]) << MANT[t]) | (a & ((1 << MANT[t]) - 1))


def rnd(x, t, mode="n", sticky=0, neg_zero=False):
    """dyadic -> bits of type t"""
    r = rnd_fmt(x, P[t], EMIN[t], EMAX[t], mode, sticky)
    if r[0] == "i":
        return INFB[t] | (SIGN[t] if r[1] < 0 else 0)
    if r[1] == 0 and (x[0] < 0 or (x[0] == 0 and sticky < 0)):
        neg_zero = True
    return enc(r[1], r[2], t, neg_zero)


NANV = "nan"


def ieee(op, t, a, b, c=0):
    """IEEE-754 round-to-nearest result bits of op (0 add,1 sub,2 mul,3 div,4 fma); NANV for NaN"""
    if op == 1:
        if is_nan(b, t):
            return NANV
        return ieee(0, t, a, b ^ SIGN[t])
    if is_nan(a, t) or is_nan(b, t) or (op == 4 and is_nan(c, t)):
        return NANV
    sa, sb = sgn(a, t), sgn(b, t)
    if op == 0:
        if is_inf(a, t):
            return NANV if is_inf(b, t) and sa != sb else a
        if is_inf(b, t):
            return b
        x, y = dec(a, t), dec(b, t)
        s = d_add(x, y)
        if s[0] == 0:
            return SIGN[t] if (x[0] == 0 and y[0] == 0 and sa and sb) else 0
        return rnd(s, t)
    if op == 2:
        sg = SIGN[t] if sa != sb else 0
        if is_inf(a, t) or is_inf(b, t):
            return NANV if is_zero(a, t) or is_zero(b, t) else INFB[t] | sg
        return rnd(d_mul(dec(a, t), dec(b, t)), t, neg_zero=bool(sg))
    if op == 3:
        sg = SIGN[t] if sa != sb else 0
        if is_inf(a, t):
            return NANV if is_inf(b, t) else INFB[t] | sg
        if is_inf(b, t):
            return sg
        if is_zero(b, t):
            return NANV if is_zero(a, t) else INFB[t] | sg
        if is_zero(a, t):
            return sg
        lo, hi = divf(dec(a, t), dec(b, t))
        return rnd(lo, t, sticky=0 if lo == hi else 1)
    if op == 4:
        sg = sa != sb
        sc = sgn(c, t)
        if is_inf(a, t) or is_inf(b, t):
            if is_zero(a, t) or is_zero(b, t):
                return NANV
            if is_inf(c, t) and bool(sc) != sg:
                return NANV
            return INFB[t] | (SIGN[t] if sg else 0)
        if is_inf(c, t):
            return c
        p = d_mul(dec(a, t), dec(b, t))
        z = dec(c, t)
        s = d_add(p, z)
        if s[0] == 0:
            return SIGN[t] if (p[0] == 0 and z[0] == 0 and sg and sc) else 0
        return rnd(s, t)
    raise ValueError(op)


def cast32(a):
    """binary64 bits -> binary32 bits (NANV for NaN)"""
    if is_nan(a, 1):
        return NANV
    if is_inf(a, 1):
        return INFB[0] | (SIGN[0] if sgn(a, 1) else 0)
    m = dec(a, 1)
    return rnd(m, 0, neg_zero=bool(sgn(a, 1)))


def same(got, want, t):
    return is_nan(got, t) if want == NANV else got == want


# ---------------------------------------------------------------- hostile operands
def gen_bits(r, t, kind=None):
    """one operand; returns bits"""
    k = r.random() if kind is None else kind
    s = SIGN[t] if r.getrandbits(1) else 0
    M = MANT[t]
    if k < 0.04:
        return s | r.choice((0, INFB[t], QNAN[t], MINN[t], MAXB[t], 1, ONE[t], MINN[t] - 1))
    if k < 0.10:  # subnormal
        return s | r.getrandbits(r.randint(1, M))
    if k < 0.16:  # near the smallest normals
        return s | ((r.randint(1, 60 if t else 30)) << M) | r.getrandbits(M)
    if k < 0.22:  # near overflow
        return s | ((2 * EMAX[t] - r.randint(0, 60 if t else 30)) << M) | r.getrandbits(M)
    if k < 0.40:  # few significant bits
        nb = r.randint(0, 8)
        m = (r.getrandbits(nb) << (M - nb)) if nb else 0
        return s | ((EMAX[t] + r.randint(-40, 40)) << M) | m
    if k < 0.50:  # all ones / almost power of two
        j = r.randint(0, M)
        m = ((1 << M) - 1) ^ ((1 << j) - 1) if r.getrandbits(1) else (1 << j) - 1
        return s | ((EMAX[t] + r.randint(-40, 40)) << M) | m
    if k < 0.85:  # moderate
        return s | ((EMAX[t] + r.randint(-30, 30)) << M) | r.getrandbits(M)
    return s | r.randint(0, INFB[t] - 1)  # any finite


def gen_pair(r, t):
    a = gen_bits(r, t)
    k = r.random()
    if k < 0.15 and is_fin(a, t) and not is_zero(a, t):  # close together: cancellation
        b = a + r.choice((-3, -2, -1, 0, 1, 2, 3)) if r.random() < 0.5 else a ^ r.getrandbits(r.randint(1, MANT[t]))
        b &= SIGN[t] | (SIGN[t] - 1)
        if r.random() < 0.5:
            b ^= SIGN[t]
        return a, b
    if k < 0.25 and is_fin(a, t):  # reciprocal-sized
        ex = (a & ~SIGN[t]) >> MANT[t]
        eb = max(0, min(2 * EMAX[t], 2 * EMAX[t] - ex + r.randint(-3, 3)))
        return a, (SIGN[t] if r.getrandbits(1) else 0) | (eb << MANT[t]) | r.getrandbits(MANT[t])
    return a, gen_bits(r, t)


def bucket(b, t):
    """coarse class of a value, for coverage"""
    mag = b & ~SIGN[t]
    if mag == 0:
        return "z"
    if mag > INFB[t]:
        return "nan"
    if mag == INFB[t]:
        return "inf"
    if mag < MINN[t]:
        return "sub"
    e = (mag >> MANT[t]) - EMAX[t]
    if e >= EMAX[t] - 2:
        return "huge"
    if e <= EMIN[t] + 2:
        return "tiny"
    return "e%d" % (e // (16 if t == 0 else 64)) + ("p" if mag & ((1 << MANT[t]) - 1) == 0 else "")


def dec32(x):
    """dyadic rounded to binary32, as a dyadic; None on overflow"""
    r = rnd_fmt(x, P[0], EMIN[0], EMAX[0])
    return None if r[0] == "i" else (r[1], r[2])
