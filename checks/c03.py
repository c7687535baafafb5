#!/usr/bin/env python3
"""C03: every executed operation reaches the backend exactly once, and its value is used."""
import sys, os, re
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, progen, monlog, random

INST = {"fma": "--inst-fma", "cast": "--inst-cast", "cmp": "--inst-fcmp"}


def comm(e):
    """operands of + and * may be exchanged by the optimiser"""
    return e[:3] + tuple(sorted(e[3:5], key=str)) + e[5:] if e[0] in (ADD, MUL, FMA) else e


def one(chk, pre, mon, seed, opt, kinds, lang="c"):
    """builds and runs one random program; returns (violations, nevents, keys)"""
    r = random.Random(seed)
    O0 = opt == "-O0"
    g = progen.Gen(r, nfun=r.randint(3, 6), volatile=not O0, consts=O0, neg=O0, vec=True, kinds=("fma", "cast", "cmp") if O0 else ("fma", "cast"),
                   size=7)
    inp = progen.inputs(r)
    salt = r.choice((1, 2, 5, 9, 12, 3))
    # at -O1 and above an unrequested comparison inside the model never changes, requested ones are normalised by the optimiser
    m = progen.Model(g, inp, salt, kinds)
    rounds = r.randint(1, 2)
    try:
        ev, out = m.run(rounds)
    except progen.Budget:
        return [], 0, [], None
    d = os.path.join(chk.work, "p%s" % seed)
    os.makedirs(d)
    with open(d + "/p.c", "w") as f:
        f.write(g.unit(g.funs))
    with open(d + "/main.c", "w") as f:
        f.write(g.main_text(inp, rounds))
    bad = []
    try:
        flags = [INST[k] for k in kinds] + [opt, "-ffp-contract=off", "-w", "-fno-math-errno"]
        if not O0:  # which adds lanes whose values are not used
            flags += ["-fno-slp-vectorize", "-fno-vectorize"]
        if r.random() < 0.4:
            flags.append("-march=native")
        if r.random() < 0.3:
            flags.append("-g")
        x = r.random()
        if x < 0.3:     # options that go together with those of the operations
            flags.append("--inst-func" if x < 0.15 else "--ddebug")
        vfc_must(pre, flags + ["-c", "p.c", "-o", "p.o"], cwd=d)
        must([CLANG, "-O0", "-w", "-c", "main.c", "-o", "main.o"], cwd=d)
        vfc_must(pre, flags + ["main.o", "p.o", "-o", "p", "-lm"], cwd=d)
        res = run([d + "/p"], env=envof(pre, "%s --salt=%d" % (mon, salt), VERIF_LOG=d + "/log"), timeout=60)
        cfg = " ".join(flags)
        w = {"seed": str(seed), "flags": flags, "program": g.unit(g.funs)[:6000]}
        if res.timeout:
            raise Hang("program timed out")
        if res.rc != 0:
            bad.append(("[%s] the program died with status %s: %s" % (cfg, res.rc, res.err[-200:]), w))
            return bad, 0, [], None
        got = monlog.arith(monlog.read(d + "/log")) if os.path.exists(d + "/log") else []
        want = monlog.canon_model(ev)
        if O0:
            if got != want:
                i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                bad.append(("[%s] event %d of %d (program has %d): backend saw %s, the program executes %s" %
                            (cfg, i, len(got), len(want), monlog.show_ev(got[i] if i < len(got) else None), monlog.show_ev(want[i] if i < len(want) else None)), w))
        else:
            a, b = Counter(map(comm, got)), Counter(map(comm, want))
            if a != b:
                x, y = list((a - b).items())[:1], list((b - a).items())[:1]
                bad.append(("[%s] %d backend calls for %d operations; extra %s, missing %s" % (
                    cfg, len(got), len(want), [(monlog.show_ev(e), n) for e, n in x], [(monlog.show_ev(e), n) for e, n in y]), w))
        if res.out.decode(errors="replace") != out:
            gl, wl_ = res.out.decode(errors="replace").split("\n"), out.split("\n")
            i = next((i for i in range(min(len(gl), len(wl_))) if gl[i] != wl_[i]), -1)
            bad.append(("[%s] output line %d is %s, the values returned by the backend lead to %s" % (cfg, i, gl[i], wl_[i]), w))
        keys = [(opt, tuple(kinds), e[0], e[1], e[2]) for e in want]
        vecs = [(opt, "vec", s[2], s[1][1], s[1][2]) for f in g.funs for s in f["body"] if s[0] == "vset"]
        return bad, len(want), keys + vecs, want[0] if want else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


KERNEL = """
typedef %(T)s T;
void k_add(T *a, const T *b, const T *c, int n) { for (int i = 0; i < n; i++) a[i] = b[i] + c[i]; }
void k_axpy(T *a, const T *b, T s, int n) { for (int i = 0; i < n; i++) a[i] = a[i] - s * b[i]; }
void k_div(T *a, const T *b, const T *c, int n) { for (int i = 0; i < n; i++) a[i] = b[i] / c[i]; }
T k_sum(const T *b, int n) { T s = 0; for (int i = 0; i < n; i++) s += b[i]; return s; }
void k_slp(T *a, const T *b) { a[0] = b[0] * b[4]; a[1] = b[1] * b[5]; a[2] = b[2] * b[6]; a[3] = b[3] * b[7]; }
"""
KMAIN = """#include <stdio.h>
#include <string.h>
#include <stdint.h>
typedef %(T)s T; typedef %(U)s U;
void k_add(T *, const T *, const T *, int), k_axpy(T *, const T *, T, int), k_div(T *, const T *, const T *, int), k_slp(T *, const T *); T k_sum(const T *, int);
static const U in[] = {%(vals)s};
static T b[64], c[64], a[64];
static void p(T x) { U u; memcpy(&u, &x, sizeof u); printf("%%llx\\n", (unsigned long long)u); }
int main(void) {
  memcpy(b, in, sizeof b); memcpy(c, in + 64, sizeof c); memcpy(a, in, sizeof a);
  int n = %(n)d;
  k_add(a, b, c, n); for (int i = 0; i < n; i++) p(a[i]);
  k_axpy(a, b, c[3], n); for (int i = 0; i < n; i++) p(a[i]);
  k_div(a, b, c, n); for (int i = 0; i < n; i++) p(a[i]);
  p(k_sum(b, n));
  k_slp(a, b); for (int i = 0; i < 4; i++) p(a[i]);
  return 0;
}
"""


def kernels(chk, pre, mon, seed, t, flags):
    """loops that the optimiser vectorises: multiset of lane operations and results"""
    r = random.Random(seed)
    n = r.choice((1, 3, 7, 8, 15, 16, 17, 31, 33, 47, 64))
    vals = [((fpx.EMAX[t] + r.randint(-3, 3)) << fpx.MANT[t]) | r.getrandbits(fpx.MANT[t]) | (fpx.SIGN[t] if r.random() < .3 else 0) for _ in range(128)]
    b, c, a = vals[:64], vals[64:], list(vals[:64])
    salt = r.choice((1, 2, 4, 7))
    ev, out = Counter(), []
    def op(o, x, y):
        res = progen.tweak(fpx.ieee(o, t, x, y), t, salt)
        ev[(o, t, 0, x, y, 0, res)] += 1
        return res
    for i in range(n):
        a[i] = op(ADD, b[i], c[i])
    out += a[:n]
    for i in range(n):
        a[i] = op(SUB, a[i], op(MUL, c[3], b[i]))
    out += a[:n]
    for i in range(n):
        a[i] = op(DIV, b[i], c[i])
    out += a[:n]
    s = 0
    for i in range(n):
        s = op(ADD, s, b[i])
    out.append(s)
    for i in range(4):
        a[i] = op(MUL, b[i], b[i + 4])
    out += a[:4]
    d = os.path.join(chk.work, "k%s" % seed)
    os.makedirs(d)
    sub = {"T": ("float", "double")[t], "U": ("uint32_t", "uint64_t")[t], "n": n, "vals": ", ".join("0x%x" % v for v in vals)}
    with open(d + "/k.c", "w") as f:
        f.write(KERNEL % sub)
    with open(d + "/main.c", "w") as f:
        f.write(KMAIN % sub)
    try:
        flags = flags + ["-ffp-contract=off", "-w"]
        vfc_must(pre, flags + ["-c", "k.c", "-o", "k.o"], cwd=d)
        must([CLANG, "-O0", "-w", "-c", "main.c", "-o", "main.o"], cwd=d)
        vfc_must(pre, flags + ["main.o", "k.o", "-o", "k"], cwd=d)
        res = run([d + "/k"], env=envof(pre, "%s --salt=%d" % (mon, salt), VERIF_LOG=d + "/log"), timeout=60)
        cfg = "kernels %s n=%d %s" % (sub["T"], n, " ".join(flags))
        w = {"seed": seed, "flags": flags}
        if res.timeout:
            raise Hang("program timed out")
        if res.rc != 0:
            return [("[%s] the program died with status %s" % (cfg, res.rc), w)], 0, [], None
        got = Counter(comm(e) for e in monlog.arith(monlog.read(d + "/log")))
        want = Counter()
        for e, k in ev.items():
            want[comm(e)] += k
        bad = []
        if got != want:
            x, y = list((got - want).items())[:1], list((want - got).items())[:1]
            bad.append(("[%s] %d backend calls for %d operations; extra %s, missing %s" % (
                cfg, sum(got.values()), sum(want.values()), [(monlog.show_ev(e), k) for e, k in x], [(monlog.show_ev(e), k) for e, k in y]), w))
        ol = [int(x, 16) for x in res.out.split()]
        if ol != out:
            i = next((i for i in range(min(len(ol), len(out))) if ol[i] != out[i]), -1)
            bad.append(("[%s] value %d printed is %x, the backend's values lead to %x" % (cfg, i, ol[i], out[i]), w))
        return bad, sum(want.values()), [(cfg,)], None
    finally:
        shutil.rmtree(d, ignore_errors=True)


FUSED = {"a * b + c": (0, 0), "c + a * b": (0, 0), "a * b - c": (0, 1), "c - a * b": (1, 0), "__builtin_fmaX(a, b, c)": (0, 0)}


def contracted(chk, pre, mon, seed, opt, use):
    """multiplications and additions that the compiler may contract (-ffp-contract=on): one fma each with --inst-fma"""
    r = random.Random(seed)
    d = os.path.join(chk.work, "f%s" % seed)
    os.makedirs(d)
    salt = r.choice((1, 2, 4, 7))
    ev, out, src, calls = [], [], [], []
    for i in range(24):
        t = r.getrandbits(1)
        T, U, X = ("float", "uint32_t", "f") if t == 0 else ("double", "uint64_t", "")
        e = r.choice(sorted(FUSED))
        na, nc = FUSED[e]
        a, b, c = [((fpx.EMAX[t] + r.randint(-3, 3)) << fpx.MANT[t]) | r.getrandbits(fpx.MANT[t]) | (fpx.SIGN[t] if r.random() < .5 else 0) for _ in range(3)]
        src.append("__attribute__((noinline)) %s f%d(%s a, %s b, %s c) { return %s; }" % (T, i, T, T, T, e.replace("X", X)))
        calls.append("{ %s u[3] = {0x%x, 0x%x, 0x%x}; volatile %s v[3]; memcpy((void *)v, u, sizeof u); %s x = f%d(v[0], v[1], v[2]); memcpy(u, &x, sizeof x); printf(\"%%llx\\n\", (unsigned long long)u[0]); }"
                     % (U, a, b, c, T, T, i))
        a ^= fpx.SIGN[t] * na
        c ^= fpx.SIGN[t] * nc
        res = progen.tweak(fpx.ieee(FMA, t, a, b, c), t, salt)
        ev.append((t, min(a & ~fpx.SIGN[t], b & ~fpx.SIGN[t]), max(a & ~fpx.SIGN[t], b & ~fpx.SIGN[t]), (a ^ b) & fpx.SIGN[t], c, res))
        out.append(res)
    with open(d + "/f.c", "w") as f:
        f.write("#include <stdio.h>\n#include <string.h>\n#include <stdint.h>\n" + "\n".join(src) + "\nint main(void) {\n" + "\n".join(calls) + "\nreturn 0; }\n")
    try:
        flags = ["--inst-fma", opt, "-ffp-contract=on", "-w", "-fno-math-errno"] + use
        vfc_must(pre, flags + ["f.c", "-o", "f"], cwd=d)
        res = run([d + "/f"], env=envof(pre, "%s --salt=%d" % (mon, salt), VERIF_LOG=d + "/log"), timeout=60)
        cfg = "contracted operations %s" % " ".join(flags)
        w = {"seed": seed, "flags": flags, "source": open(d + "/f.c").read()}
        if res.timeout:
            raise Hang("program timed out")
        if res.rc != 0:
            return [("[%s] the program died with status %s" % (cfg, res.rc), w)], 0, [], None
        got = [e for e in monlog.arith(monlog.read(d + "/log"))]
        g = Counter((e[1], min(e[3] & ~fpx.SIGN[e[1]], e[4] & ~fpx.SIGN[e[1]]), max(e[3] & ~fpx.SIGN[e[1]], e[4] & ~fpx.SIGN[e[1]]), (e[3] ^ e[4]) & fpx.SIGN[e[1]], e[5], e[6])
                    if e[0] == FMA else ("other", e) for e in got)
        bad = []
        if g != Counter(ev):
            bad.append(("[%s] %d operations, the backend saw %d of which %d other than fma; missing %s" % (
                cfg, len(ev), len(got), sum(k for e, k in g.items() if e[0] == "other"), list((Counter(ev) - g).items())[:1]), w))
        ol = [int(x, 16) for x in res.out.split()]
        if ol != out:
            bad.append(("[%s] values printed do not follow from those of the backend" % cfg, w))
        return bad, len(ev), [(cfg,)], None
    finally:
        shutil.rmtree(d, ignore_errors=True)


# shapes of code: (name, languages, only at -O0, declarations, body, model); T: the type, S: its suffix; model(op, cmp, x, y, z, w)
def b(t, v):
    return fpx.f2b(v, t)


def _cplx(t, op, cmp, x, y, z, w):
    ac, bd, ad, bc = op(MUL, x, z), op(MUL, y, w), op(MUL, x, w), op(MUL, y, z)
    re, im = op(SUB, ac, bd), op(ADD, ad, bc)
    cmp(8, re, re)
    return op(ADD, re, im)


def _cpladd(t, op, cmp, x, y, z, w):
    return op(MUL, op(ADD, x, z), op(ADD, y, w))


SHAPES = [
    ("same_div", "c+", 0, "", "return x / x;", lambda t, op, cmp, x, y, z, w: op(DIV, x, x)),
    ("same_mul", "c+", 0, "", "return x * x;", lambda t, op, cmp, x, y, z, w: op(MUL, x, x)),
    ("same_sub", "c+", 0, "", "return x - x;", lambda t, op, cmp, x, y, z, w: op(SUB, x, x)),
    ("add_zero", "c+", 0, "", "return x + 0.0S;", lambda t, op, cmp, x, y, z, w: op(ADD, x, 0)),
    ("zero_sub", "c+", 0, "", "return 0.0S - x;", lambda t, op, cmp, x, y, z, w: op(SUB, 0, x)),
    ("negzero_sub", "c+", 1, "", "return -0.0S - x;", lambda t, op, cmp, x, y, z, w: op(SUB, fpx.SIGN[t], x)),
    ("sub_zero", "c+", 1, "", "return x - 0.0S;", lambda t, op, cmp, x, y, z, w: op(SUB, x, 0)),
    ("add_negzero", "c+", 1, "", "return x + -0.0S;", lambda t, op, cmp, x, y, z, w: op(ADD, x, fpx.SIGN[t])),
    ("mul_one", "c+", 1, "", "return x * 1.0S;", lambda t, op, cmp, x, y, z, w: op(MUL, x, b(t, 1.0))),
    ("one_mul", "c+", 1, "", "return 1.0S * x;", lambda t, op, cmp, x, y, z, w: op(MUL, b(t, 1.0), x)),
    ("div_one", "c+", 1, "", "return x / 1.0S;", lambda t, op, cmp, x, y, z, w: op(DIV, x, b(t, 1.0))),
    ("mul_m1", "c+", 1, "", "return x * -1.0S;", lambda t, op, cmp, x, y, z, w: op(MUL, x, b(t, -1.0))),
    ("mul_two", "c+", 1, "", "return x * 2.0S;", lambda t, op, cmp, x, y, z, w: op(MUL, x, b(t, 2.0))),
    ("div_two", "c+", 1, "", "return x / 2.0S;", lambda t, op, cmp, x, y, z, w: op(DIV, x, b(t, 2.0))),
    ("mul_zero", "c+", 1, "", "return x * 0.0S;", lambda t, op, cmp, x, y, z, w: op(MUL, x, 0)),
    ("add_add", "c+", 1, "", "return x + x;", lambda t, op, cmp, x, y, z, w: op(ADD, x, x)),
    ("recip", "c+", 0, "", "return 1.0S / x;", lambda t, op, cmp, x, y, z, w: op(DIV, b(t, 1.0), x)),
    ("unused", "c+", 1, "", "(void)(x * y); x + z; return w;", lambda t, op, cmp, x, y, z, w: (op(MUL, x, y), op(ADD, x, z), w)[2]),
    ("incr", "c+", 0, "", "x++; --x; return x;", lambda t, op, cmp, x, y, z, w: op(ADD, op(ADD, x, b(t, 1.0)), b(t, -1.0))),
    ("noreturn", "c", 0, "static jmp_buf jb_N; static volatile T sv_N; __attribute__((noreturn, noinline)) static void leave_N(T v) { sv_N = v; longjmp(jb_N, 1); }\n"
     "__attribute__((noreturn, noinline)) static void die_N(T x, T y) { T z = x * y; leave_N(z - x); }", "if (!setjmp(jb_N)) die_N(x, y); return sv_N;",
     lambda t, op, cmp, x, y, z, w: op(SUB, op(MUL, x, y), x)),
    ("deadend", "c", 0, "static jmp_buf jb_N; static volatile T sv_N; __attribute__((noreturn, noinline)) static void leave_N(T v) { sv_N = v; longjmp(jb_N, 1); }\n"
     "__attribute__((noinline)) static T sw_N(int n, T x, T y) { switch (n) { case 1: return x + y; case 7: leave_N(x / y); default: __builtin_unreachable(); } }",
     "if (!setjmp(jb_N)) return sw_N(k7, x, y); return sv_N;", lambda t, op, cmp, x, y, z, w: op(DIV, x, y)),
    ("forever", "c", 0, "static jmp_buf jb_N; static volatile T sv_N; __attribute__((noreturn, noinline)) static void leave_N(T v) { sv_N = v; longjmp(jb_N, 1); }\n"
     "__attribute__((noreturn, noinline)) static void loop_N(T x, T y) { for (int i = 0;; i++) { x = x * y; if (i == k7 - 5) leave_N(x); } }", "if (!setjmp(jb_N)) loop_N(x, y); return sv_N;",
     lambda t, op, cmp, x, y, z, w: op(MUL, op(MUL, op(MUL, x, y), y), y)),
    ("cplx", "c+", 0, "", "T _Complex a, c; __real__ a = x; __imag__ a = y; __real__ c = z; __imag__ c = w; a = a * c; return __real__ a + __imag__ a;", _cplx),
    ("cpladd", "c+", 0, "", "T _Complex a, c; __real__ a = x; __imag__ a = y; __real__ c = z; __imag__ c = w; a += c; return __real__ a * __imag__ a;", _cpladd),
    ("labels", "c", 0, "", "static void *l[] = {&&one, &&two}; goto *l[k7 & 1]; one: return x + y; two: x = x - y; if (k7 == 6) goto one; return x * z;", lambda t, op, cmp, x, y, z, w: op(MUL, op(SUB, x, y), z)),
    ("structs", "c+", 1, "typedef struct { T a, b[3]; } s_N; __attribute__((noinline)) static s_N sf_N(s_N s, T w) { s.b[1] = s.a * s.b[0]; s.b[2] = s.b[1] + w; return s; }",
     "s_N s = {x, {y, z, w}}; s = sf_N(s, w); return s.b[2] / s.b[1];", lambda t, op, cmp, x, y, z, w: (lambda m: op(DIV, op(ADD, m, w), m))(op(MUL, x, y))),
    ("pointer", "c+", 0, "static T mul_N(T a, T c) { return a * c; } static T sub_N(T a, T c) { return a - c; } static T (*volatile tab_N[2])(T, T) = {mul_N, sub_N};",
     "return tab_N[k7 & 1](tab_N[k7 & 2 ? 0 : 1](x, y), z);", lambda t, op, cmp, x, y, z, w: op(SUB, op(MUL, x, y), z)),
    ("integers", "c+", 0, "", "return x * k7 + (T)k7 / y;", lambda t, op, cmp, x, y, z, w: op(ADD, op(MUL, x, b(t, 7.0)), op(DIV, b(t, 7.0), y))),
    ("atomic", "c", 0, "static _Atomic T at_N;", "at_N = x; at_N += y; at_N -= z; return at_N;", lambda t, op, cmp, x, y, z, w: op(SUB, op(ADD, x, y), z)),
    ("unordered", "c+", 1, "", "return __builtin_isunordered(x, y) ? x + y : x * y;", lambda t, op, cmp, x, y, z, w: op(ADD if cmp(8, x, y) else MUL, x, y)),
    ("lessgreater", "c+", 1, "", "return __builtin_islessgreater(x, y) ? x + y : x * y;", lambda t, op, cmp, x, y, z, w: op(ADD if cmp(6, x, y) else MUL, x, y)),
    ("truth", "c+", 1, "", "return x ? x + y : y - z;", lambda t, op, cmp, x, y, z, w: op(ADD, x, y) if cmp(14, x, 0) else op(SUB, y, z)),
    ("nested_fn", "c+", 0, "__attribute__((always_inline)) static inline T in_N(T a, T c) { return a * c - a; }", "return in_N(x, y) / in_N(z, w);",
     lambda t, op, cmp, x, y, z, w: op(DIV, op(SUB, op(MUL, x, y), x), op(SUB, op(MUL, z, w), z))),
    ("recursive", "c+", 0, "__attribute__((noinline)) static T rec_N(int n, T x, T y) { T r = x * y; return n ? rec_N(n - 1, r, y) + x : r; }", "return rec_N(k7 - 5, x, y);",
     lambda t, op, cmp, x, y, z, w: (lambda r1: (lambda r2: (lambda r3: op(ADD, op(ADD, r3, r1), x))(op(MUL, r2, y)))(op(MUL, r1, y)))(op(MUL, x, y))),
    ("ctor", "+", 0, "static volatile T cx_N = 1.5S, cy_N = 2.75S; struct G_N { T v; G_N() { v = cx_N * cy_N; } }; static G_N g_N;", "return g_N.v + x;", None),
    ("thrown", "+", 0, "__attribute__((noinline)) static T th_N(T x, T y) { if (k7 == 7) throw (T)(x * y); return x; }", "try { return th_N(x, y); } catch (T e) { return e / z; }",
     lambda t, op, cmp, x, y, z, w: op(DIV, op(MUL, x, y), z)),
    ("unwound", "+", 0, "struct D_N { T &r, w; ~D_N() { r = r * w; } }; __attribute__((noinline)) static void th_N(T &r, T w) { D_N d{r, w}; if (k7 == 7) throw 1; r = r + w; }",
     "T r = x; try { th_N(r, y); r = r / y; } catch (int) { r = r - z; } return r;", lambda t, op, cmp, x, y, z, w: op(SUB, op(MUL, x, y), z)),
    ("lambda", "+", 0, "template <class A> struct Op_N { A v; Op_N operator*(const Op_N &o) const { return {v * o.v}; } virtual A f(A a) const { return v - a; } virtual ~Op_N() {} Op_N(A a) : v(a) {} };",
     "auto l = [&](T a) { return a / y; }; Op_N<T> p(x), q(z); const Op_N<T> &m = p * q; return l(m.f(w));", lambda t, op, cmp, x, y, z, w: op(DIV, op(SUB, op(MUL, x, z), w), y)),
    ("local_static", "+", 0, "__attribute__((noinline)) static T ls_N(T x, T y) { static thread_local T v = x * y; return v + x; }", "T a = ls_N(x, y); return ls_N(z, w) * a;",
     lambda t, op, cmp, x, y, z, w: (lambda v: (lambda a: op(MUL, op(ADD, v, z), a))(op(ADD, v, x)))(op(MUL, x, y))),
]


def shapes(chk, pre, mon, seed, opt, lang):
    """functions of unusual forms, each called once"""
    r = random.Random(seed)
    d = os.path.join(chk.work, "s%s" % seed)
    os.makedirs(d)
    salt = r.choice((1, 2, 4, 7))
    fcmp = opt == "-O0" and r.random() < 0.6
    ev, out, decl, init, calls, names = [], [], [], [], [], []
    todo = [(s, t) for s in SHAPES for t in (0, 1) if lang in s[1] and (opt == "-O0" or not s[2])]
    r.shuffle(todo)
    for i, (s, t) in enumerate(todo):
        T, U, S = (("float", "uint32_t", "f"), ("double", "uint64_t", ""))[t]
        v = [((fpx.EMAX[t] + r.randint(-3, 3)) << fpx.MANT[t]) | r.getrandbits(fpx.MANT[t]) | (fpx.SIGN[t] if r.random() < .5 else 0) for _ in range(4)]
        sub = lambda x: re.sub(r"\bT\b", T, re.sub(r"_N\b", "_%d" % i, re.sub(r"(?<=[0-9])S\b", S, x)))
        decl.append(sub(s[3]))
        decl.append("__attribute__((noinline)) %s f%d(%s x, %s y, %s z, %s w) { %s }" % (T, i, T, T, T, T, sub(s[4])))
        calls.append("{ %s u[4] = {0x%x, 0x%x, 0x%x, 0x%x}; volatile %s v[4]; memcpy((void *)v, u, sizeof u); %s a = v[0], b = v[1], c = v[2], d = v[3]; %s x = f%d(a, b, c, d); memcpy(u, &x, sizeof x); printf(\"%%llx\\n\", (unsigned long long)u[0]); }"
                     % (U, v[0], v[1], v[2], v[3], T, T, T, i))

        def op(o, x, y):
            res = progen.tweak(progen.nn(fpx.ieee(o, t, x, y), t), t, salt)
            ev.append((o, t, 0, x, y, 0, res))
            return res

        def cmp(p, x, y):
            c = progen.relation(p, x, y, t)
            if fcmp:
                ev.append((CMP, t, p, x, y, 0, c))
            return c
        if s[5]:
            out.append(s[5](t, op, cmp, *v))
        else:
            out.append(op(ADD, op(MUL, b(t, 1.5), b(t, 2.75)), v[0]))
        names.append((s[0], t))
    src = "#include <stdio.h>\n#include <string.h>\n#include <stdint.h>\n#include <setjmp.h>\nstatic volatile int k7 = 7;\n" + "\n".join(decl) + "\nint main(void) {\n" + "\n".join(calls) + "\nreturn 0; }\n"
    ext = "c" if lang == "c" else "cpp"
    open(d + "/s." + ext, "w").write(src)
    try:
        flags = (["--inst-fcmp"] if fcmp else []) + [opt, "-ffp-contract=off", "-w", "-fno-slp-vectorize", "-fno-vectorize"] + (["-march=native"] if r.random() < 0.3 else [])
        vfc_must(pre, flags + ["s." + ext, "-o", "s"], cwd=d, lang="c" if lang == "c" else "c++")
        res = run([d + "/s"], env=envof(pre, "%s --salt=%d" % (mon, salt), VERIF_LOG=d + "/log"), timeout=60)
        cfg = "shapes of code in C%s %s" % ("" if lang == "c" else "++", " ".join(flags))
        w = {"seed": seed, "flags": flags, "source": src}
        if res.timeout:
            raise Hang("program timed out")
        if res.rc != 0:
            return [("[%s] the program died with status %s %s" % (cfg, res.rc, res.err[-200:]), w)], 0, [], None
        got, want = Counter(map(comm, monlog.arith(monlog.read(d + "/log")))), Counter(map(comm, monlog.canon_model(ev)))
        bad = []
        if got != want:
            x, y = list((got - want).items())[:1], list((want - got).items())[:1]
            bad.append(("[%s] %d backend calls for %d operations; extra %s, missing %s" % (
                cfg, sum(got.values()), sum(want.values()), [(monlog.show_ev(e), k) for e, k in x], [(monlog.show_ev(e), k) for e, k in y]), w))
        ol = [int(x, 16) for x in res.out.split()]
        for g, e, (n, t) in zip(ol, out, names):
            if g != e and not (fpx.is_nan(g, t) and fpx.is_nan(e, t)):
                bad.append(("[%s] %s (%s) returned %x, the backend's values lead to %x" % (cfg, n, ("float", "double")[t], g, e), w))
                break
        return bad, len(ev), [(opt, lang) + n for n in names], None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body(chk):
    pre = vbuild.build("std")
    mon = monlog.build_mon(chk, pre)
    r = chk.rng
    jobs = []
    for k in range(chk.n(72, 900)):
        kinds = [x for x in ("fma", "cast", "cmp") if r.random() < 0.6]
        opt = "-O0" if k % 3 != 2 else r.choice(("-O1", "-O2", "-O3"))
        if opt != "-O0":
            kinds = [x for x in kinds if x != "cmp"]
        jobs.append(("p", r.getrandbits(40), opt, kinds))
    for k in range(chk.n(16, 200)):
        jobs.append(("k", r.getrandbits(40), k % 2, [("-O2", "-O3")[k // 2 % 2]] + (["-march=native"] if k % 3 else []) + (["-mprefer-vector-width=512"] if k % 4 == 1 else [])))
    for k in range(chk.n(6, 60)):
        jobs.append(("f", r.getrandbits(40), ("-O0", "-O2", "-O1", "-O3")[k % 4], ["-march=native"] if k % 3 == 2 else []))
    for k in range(chk.n(8, 80)):
        jobs.append(("s", r.getrandbits(40), ("-O0", "-O2", "-O0", "-O1", "-O3")[k % 5], "c+"[k % 2]))
    def go(j):
        if j[0] == "s":
            return shapes(chk, pre, mon, *j[1:])
        if j[0] == "f":
            return contracted(chk, pre, mon, *j[1:])
        if j[0] == "p":
            return one(chk, pre, mon, *j[1:])
        return kernels(chk, pre, mon, *j[1:])
    with ThreadPoolExecutor(NPROC) as ex:
        for bad, n, keys, smp in ex.map(go, jobs):
            chk.observe(n)
            chk.distinct.update(keys)
            chk.count("programs")
            for w in bad:
                chk.violation(*w)
            if smp:
                chk.sample({"first event": monlog.show_ev(smp), "events": n})


run_check("C03", "random programs (scalars, vectors of 2..16 lanes, loops, branches, calls through pointers, nested expressions), functions of unusual forms in C and C++ (identities, dead ends, complex numbers, exceptions, initialisers, ...) and vectorised kernels, all optimisation "
          "levels and instrumentation options, run under a monitor backend that alters each result; the recorded sequence (multiset above -O0) of operations "
          "and the printed values are compared with an exact model; distinct = level x options x operation x type x predicate or vector width", body,
          ["above -O0 all variables are volatile, so the optimiser may neither remove nor merge operations"])
