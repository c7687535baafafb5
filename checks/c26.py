#!/usr/bin/env python3
"""C26: operation counts and traces of the IEEE backend against the operations executed."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, workload as wl
from fractions import Fraction

PRED = ["FALSE", "OEQ", "OGT", "OGE", "OLT", "OLE", "ONE", "ORD", "UNO", "UEQ", "UGT", "UGE", "ULT", "ULE", "UNE", "TRUE"]
SYM = {ADD: "+", SUB: "-", MUL: "*", DIV: "/"}
NUM = re.compile(r"([+-])([01])\.([01]+)$")
COUNT = re.compile(rb"operations count:\n\t mul=(-?\d+)\n\t div=(-?\d+)\n\t add=(-?\d+)\n\t sub=(-?\d+)\n\t fma=(-?\d+)\n")


def tok_value(bits, t, binary):
    """the tokens expected for a value are decided by the printed text, so this only tells what is allowed"""
    if binary:
        return 1 if (fpx.is_nan(bits, t) or fpx.is_inf(bits, t)) else 3
    return 1


def frac(bits, t):
    m, e = fpx.dec(bits, t)
    return Fraction(m) * (Fraction(2) ** e)


def value_ok(toks, bits, t, binary, norm):
    if not binary:
        s = toks[0]
        if fpx.is_nan(bits, t):
            return s.lstrip("+-") == "nan"
        if fpx.is_inf(bits, t):
            return s == ("-inf" if fpx.sgn(bits, t) else "inf")
        x = struct.unpack("<d", struct.pack("<Q", bits))[0] if t else struct.unpack("<f", struct.pack("<I", bits))[0]
        return s == "%g" % x
    if fpx.is_nan(bits, t):
        return toks[0].lstrip("+-") == "nan"
    sg = "-" if fpx.sgn(bits, t) else "+"
    if fpx.is_inf(bits, t):
        return toks[0] == sg + "inf"
    m = NUM.match(toks[0])
    if not m or toks[1] != "x" or not re.match(r"2\^-?\d+$", toks[2]) or m.group(1) != sg:
        return False
    e = int(toks[2][2:])
    if abs(e) > 1100:
        return False
    f = m.group(3)
    v = Fraction(int(m.group(2) + f, 2), 1 << len(f)) * Fraction(2) ** e
    if v != abs(frac(bits, t)):
        return False
    if fpx.is_zero(bits, t):
        return True
    lead = "0" if fpx.is_sub(bits, t) and not norm else "1"
    return m.group(2) == lead


def expect(op, t, aux, a, b, c, res):
    """sequence of literal strings and (bits, type) values"""
    if op in SYM:
        return [(a, t), SYM[op], (b, t), "->", (res, t)]
    if op == FMA:
        return [(a, t), "*", (b, t), "+", (c, t), "->", (res, t)]
    if op == CAST:
        return [(a, 1), "(float)", "->", (res, 0)]
    return [(a, t), "[FCMP_%s]" % PRED[aux], (b, t), "->", "true" if res else "false"]


def events(recs, outs):
    for (op, t, aux, _, a, b, c), o in zip(recs, outs):
        if VADD <= op <= VDIV:
            yield op - VADD, t, 0, a, b, c, o
        elif op == VCMP:
            yield CMP, t, aux >> 4, a, b, c, 1 if o else 0
        else:
            yield op, t, aux, a, b, c, o


def parse(chk, conf, toks, exps, name):
    """checks one token stream against the expected events; exps: list of (event, binary, norm, header)"""
    i = 0
    for k, (ev, binary, norm, header) in enumerate(exps):
        start = i
        ok = True
        if header:
            if toks[i:i + 3] == ["Info", "[interflop-ieee]:", "Binary" if binary else "Decimal"]:
                i += 3
            else:
                ok = False
        if ok:
            for e in expect(*ev):
                if isinstance(e, str):
                    if toks[i:i + 1] != [e]:
                        ok = False
                        break
                    i += 1
                else:
                    n = tok_value(e[0], e[1], binary)
                    if len(toks) < i + n or not value_ok(toks[i:i + n], e[0], e[1], binary, norm):
                        ok = False
                        break
                    i += n
        op, t, aux, a, b, c, res = ev
        chk.observe(1, (name, op, t, aux, binary, norm, fpx.bucket(a, t)[:2], fpx.bucket(res, 0 if op == CAST else t)[:2] if op != CMP else res))
        if not ok:
            chk.violation("%s: record %d is %r, the operation was %s %s %s %s %s -> %s" % (
                conf, k, " ".join(toks[start:start + 14]), ("float", "double")[t], OPNAME[op], hex(a), hex(b), hex(c), hex(res)),
                {"backend": conf, "record": k, "tokens": toks[start:start + 14], "op": OPNAME[op], "type": t, "a": hex(a), "b": hex(b), "c": hex(c), "res": hex(res)})
            return
    if i != len(toks):
        chk.violation("%s: %d records for %d operations; extra text %r" % (conf, k + 1, len(exps), " ".join(toks[i:i + 14])), conf)


def gen_recs(chk, n, cmp):
    recs = []
    while len(recs) < n:
        if cmp and chk.rng.random() < 0.25:
            t = chk.rng.getrandbits(1)
            p = chk.rng.randrange(16)
            if chk.rng.random() < 0.1:
                aux = chk.rng.randint(0, 3)
                for _ in range(2 << aux):
                    recs.append(rec(VCMP, t, fpx.gen_bits(chk.rng, t), fpx.gen_bits(chk.rng, t), aux=aux | p << 4))
            else:
                a = fpx.gen_bits(chk.rng, t)
                recs.append(rec(CMP, t, a, a if chk.rng.random() < 0.2 else fpx.gen_bits(chk.rng, t), aux=p))
        else:
            recs.extend(wl.records(chk.rng, 8, vec=0.3)[0])
    return recs


def trace_part(chk, pre, drv):
    for it in range(chk.n(26, 200)):
        nb = 1 if chk.rng.random() < 0.7 else 2
        conf, modes = [], []
        logger = chk.rng.random() < 0.4
        for _ in range(nb):
            binary = chk.rng.random() < 0.65
            norm = chk.rng.random() < 0.5
            opts = [chk.rng.choice(("--debug-binary", "-b") if binary else ("--debug", "-d"))]
            if not binary and chk.rng.random() < 0.2:
                opts.append("--debug-binary")   # decimal wins, as documented by its header
            if norm:
                opts.append(chk.rng.choice(("-p", "--print-subnormal-normalized")))
            if chk.rng.random() < 0.4:
                opts.append(chk.rng.choice(("-n", "--print-new-line")))
            name = True
            if chk.rng.random() < 0.4:
                opts.append(chk.rng.choice(("-s", "--no-backend-name")))
                name = False
            cnt = chk.rng.random() < 0.3
            if cnt:
                opts.append(chk.rng.choice(("-o", "--count-op")))
            chk.rng.shuffle(opts)
            conf.append("libinterflop_ieee.so " + " ".join(opts))
            modes.append((binary, norm, name and logger, cnt))
        recs = gen_recs(chk, chk.n(1500, 4000), True)
        cs = "; ".join(conf)
        outs, r = drive(chk, drv, pre, cs, recs, VFC_BACKENDS_LOGGER="True" if logger else "False")
        if outs is None:
            if r.timeout:
                raise Hang("driver timed out")
            chk.violation("%s: the program died (status %s) %s" % (cs, r.rc, r.err[-300:]), cs)
            continue
        exps = [(ev, b, nm, h) for ev in events(recs, outs) for b, nm, h, _ in modes]
        err = re.sub(rb"\x1b\[[0-9;]*m", b"", r.err)
        totals = COUNT.findall(err)
        check_counts(chk, cs, totals, recs, sum(1 for m in modes if m[3]))
        parse(chk, cs, COUNT.sub(b"", err).decode(errors="replace").split(), exps, "trace")
        chk.count("trace records", len(exps))
        if it < 2:
            chk.sample({"backends": cs, "first bytes": err[:160].decode(errors="replace")})


def check_counts(chk, cs, totals, recs, nb):
    c = [0] * 17
    for x in recs:
        c[x[0]] += 1
    want = tuple(c[o] + c[v] for o, v in ((MUL, VMUL), (DIV, VDIV), (ADD, VADD), (SUB, VSUB))) + (c[FMA],)
    if len(totals) != nb:
        chk.violation("%s: %d totals printed for %d counting backends" % (cs, len(totals), nb), cs)
    for tt in totals:
        got = tuple(int(x) for x in tt)
        if got != want:
            chk.violation("%s: counts (mul div add sub fma) %s, executed %s" % (cs, got, want), {"conf": cs, "got": got, "want": want})
    if nb:
        chk.observe(sum(want))
        chk.count("counted operations", sum(want) * nb)


def count_part(chk, pre, drvs):
    for it in range(chk.n(24, 150)):
        th = chk.rng.choice((0, 0, 1, 2, 3, 5, 8, 16))
        recs = gen_recs(chk, chk.n(3000, 20000), True)
        # one class may be absent, another dominating: a mixed up counter shows
        w = [chk.rng.choice((0, 1, 1, 2, 3)) for _ in range(6)]
        recs = [x for x in recs for _ in range(w[x[0]] if x[0] <= CAST else 1)] or recs
        reps = chk.rng.choice((1, 20)) if th else 1
        recs = recs * reps
        conf = chk.rng.choice(("libinterflop_ieee.so --count-op", "libinterflop_ieee.so -o; libinterflop_ieee.so --count-op",
                               "libinterflop_mca.so; libinterflop_ieee.so -o", "libinterflop_ieee.so -o; libinterflop_vprec.so --precision-binary64=3",
                               "libinterflop_ieee.so -o; libinterflop_ieee.so"))
        outs, r = drive(chk, drvs[th % 2], pre, conf, recs, threads=th)
        if outs is None:
            if r.timeout:
                raise Hang("driver timed out")
            chk.violation("%s: the program died (status %s) %s" % (conf, r.rc, r.err[-300:]), conf)
            continue
        totals = COUNT.findall(r.err)
        check_counts(chk, "%s (%d threads)" % (conf, th), totals, recs, len(re.findall(r"-o\b|--count-op", conf)))
        chk.distinct.add(("count", th, conf, tuple(w)))
        rest = COUNT.sub(b"", r.err).strip()
        if rest:
            chk.violation("%s: unexpected output %r" % (conf, rest[:200]), conf)


EXITP = r"""
#include <stdio.h>
#include <stdlib.h>
#include <pthread.h>
volatile double x = 1.0; volatile float y = 3.0f;
static void bye(void) { x = x * y; x = x + 1; }
__attribute__((destructor)) static void last(void) { for (int i = 0; i < 3; i++) x = x - y; }
static void *w(void *p) { volatile double z = 0; for (int i = 0; i < *(int *)p; i++) z = z + 1; return 0; }
static void *q(void *p) { volatile double z = 9; for (int i = 0; i < *(int *)p; i++) z = z / 3; exit(5); return 0; }
int main(int c, char **v) {
  int n = atoi(v[2]);
  if (*v[1] == 'h') atexit(bye);
  for (int i = 0; i < n; i++) x = x * 1.5;
  if (*v[1] == 't') { pthread_t t[4]; for (int i = 0; i < 4; i++) pthread_create(t + i, 0, w, &n); for (int i = 0; i < 4; i++) pthread_join(t[i], 0); }
  if (*v[1] == 'q') { pthread_t t; pthread_create(&t, 0, q, &n); pthread_join(t, 0); }
  if (*v[1] == 'e') exit(4);
  return n & 1;
}
"""


def exit_part(chk, pre):
    """the totals are printed however the program ends normally"""
    d = chk.tmp("ex")
    os.makedirs(d)
    open(d + "/p.c", "w").write(EXITP)
    vfc_must(pre, ["-O1", "p.c", "-o", "p", "-lpthread"], cwd=d)
    for mode in "rehtq":
        for n in (0, 1, 7, chk.rng.randint(50, 4000)):
            r = run([d + "/p", mode, str(n)], env=envof(pre, "libinterflop_ieee.so --count-op"), timeout=60)
            rc = {"e": 4, "q": 5}.get(mode, n & 1)
            chk.observe(1, ("exit", mode, min(n, 9)))
            # (mul, div, add, sub, fma); the destructor of the program may run after the totals are printed
            base = [n, 0, 0, 0, 0]
            if mode == "h":
                base[0] += 1
                base[2] += 1
            if mode == "t":
                base[2] += 4 * n
            if mode == "q":
                base[1] += n
            oks = {tuple(base), tuple(base[:3] + [3] + base[4:])}
            tt = [tuple(int(z) for z in x) for x in COUNT.findall(r.err)]
            if r.rc != rc or len(tt) != 1 or tt[0] not in oks:
                chk.violation("ending %s after %d operations: status %s (must be %s), totals %s, executed %s" % (mode, n, r.rc, rc, tt, base),
                              {"mode": mode, "n": n, "stderr": r.err[-500:].decode(errors="replace")})


LONGP = r"""
int main(void) { volatile float y = 1.0f; for (long i = 0; i < 4400000000L; i++) y = y * 1.0f; return 0; }
"""


def body(chk):
    pre = vbuild.build("std")
    drvs = [build_drv(pre, fcmp=True), build_drv(pre)]
    trace_part(chk, pre, drvs[0])
    count_part(chk, pre, drvs)
    exit_part(chk, pre)
    if chk.thorough:
        d = chk.tmp("lg")
        os.makedirs(d)
        open(d + "/p.c", "w").write(LONGP)
        vfc_must(pre, ["-O2", "p.c", "-o", "p"], cwd=d)
        r = run([d + "/p"], env=envof(pre, "libinterflop_ieee.so --count-op"), timeout=600)
        if not r.timeout and (b"mul=4400000000\n" not in r.err or r.rc != 0):
            chk.violation("4400000000 multiplications counted as %r" % r.err[-120:], "LONGP")
        chk.observe(1, "long")


run_check("C26", "every stderr record parsed and compared exactly (binary: value, sign and leading digit; decimal: %g) with the operation record and the "
          "result the program received, in order; totals compared with the executed records under 0..16 threads and several ends of the program; "
          "distinct = kind x operation x type x format x classes", body,
          ["records of operations that run concurrently may interleave, so order is checked single-threaded only"])
