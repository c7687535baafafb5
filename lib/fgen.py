"""Generator of call graphs for function instrumentation, with an event log written by plain stores (no call, so that
the instrumentation sees only the program), and the offline checkers of that log.

Every function logs its floating point operations, the arguments it passes and receives, and the values it gives back
and gets back.  The log is replayed against the formats that the profile assigns to each call site."""
import math
import re
import struct
import fpx
import vporacle as vp
from vcommon import *

T = ("float", "double")
OPC = {"+": ADD, "-": SUB, "*": MUL, "/": DIV}
NAN = "nan"
CONST = {1: ["0.1", "-3.75", "1e300", "-1e300", "1e-300", "3.0", "1.0/3.0", "-2147483648.5", "2147483646.5", "4e9", "-4e9", "1e-310", "0.0", "-0.0", "123456.789", "7e-5", "1e22"],
         0: ["0.1f", "-3.75f", "1e30f", "-1e30f", "1e-30f", "3.0f", "1e-40f", "4e9f", "-5e9f", "0.0f", "123456.789f", "7e-5f", "16777217.0f", "2147483520.0f"]}
EXTREME = {1: ["__builtin_inf()", "-__builtin_inf()", "__builtin_nan(\"\")"], 0: ["__builtin_inff()", "__builtin_nanf(\"\")"]}


class Fn:
    """kind: fp (values in its signature), in (values in its body only), no (no value at all), lib"""

    def __init__(self, name, kind, ret, params, tu):
        self.name, self.kind, self.ret, self.params, self.tu = name, kind, ret, params, tu
        self.uses = [False, False]
        self.body = []


class Site:
    def __init__(self, parent, fn, via=None, arrays=(), passed=()):
        self.parent, self.fn, self.via = parent, fn, via
        self.arrays = arrays          # per array parameter: elements known at the call (0: unknown)
        self.passed = passed
        self.line = 0
        self.tu = parent.tu
        self.key = None

    def instrumented(self):
        return self.via is None


class Prog:
    def __init__(self, r, big=False):
        self.r = r
        self.ops, self.sites, self.fns = [], [], []
        self.nfp = r.randint(2, 6)
        self.ntu = r.choice((1, 1, 2))
        self.extreme = r.random() < 0.3
        self.libs = [Fn("sqrt", "lib", 1, [("d", "x")], -1), Fn("sqrtf", "lib", 0, [("f", "x")], -1), Fn("floor", "lib", 1, [("d", "x")], -1), Fn("fabs", "lib", 1, [("d", "x")], -1)]
        for i in range(self.nfp):
            ps = []
            for j in range(r.randint(0, 4)):
                k = r.choice("ddffDDFi")
                ps.append((k, "p%d" % j, r.randint(1, 4)) if k in "DF" else (k, "p%d" % j))
            ret = r.choice((0, 1, 1, None))
            tu = r.randrange(self.ntu)
            if ret is None and not any(p[0] in "dfDF" for p in ps):
                ret = 1
            self.fns.append(Fn("f%d" % i, "fp", ret, ps, tu))
        for i in range(r.randint(0, 2)):
            self.fns.append(Fn("h%d" % i, "in", None, [], 0))
        hs = [f for f in self.fns if f.kind == "in"]
        for i in range(r.randint(0, 2) if hs else 0):
            self.fns.append(Fn("g%d" % i, "no", None, [], 0))
        self.main = Fn("main", "in", None, [], 0)
        for f in self.fns + [self.main]:
            self.gen(f)

    # ---- one function
    def gen(self, f):
        r = self.r
        L = f.body
        if f.kind == "no":
            hs = [x for x in self.fns if x.kind == "in"]
            for _ in range(r.randint(1, 2)):
                self.call(f, r.choice(hs), L, 1, {0: [], 1: []}, {0: [], 1: []})
            return
        var = {0: [], 1: []}
        arr = {0: [], 1: []}      # (name, usable elements, known elements)
        for p in f.params:
            if p[0] in "df":
                var[p[0] == "d"].append(p[1])
                f.uses[p[0] == "d"] = True
            elif p[0] in "DF":
                arr[p[0] == "D"].append((p[1], p[2], 0))
                f.uses[p[0] == "D"] = True
        if f.ret is not None:
            f.uses[f.ret] = True
        ts = [t for t in (0, 1) if r.random() < 0.75] or [1]
        for t in ts:
            f.uses[t] = True
            for i in range(r.randint(1, 3)):
                v = "v%d%d" % (t, i)
                var[t].append(v)
                c = CONST[t] + (EXTREME[t] if self.extreme else [])
                L.append("%s %s = %s;" % (T[t], v, r.choice(c)))
        for i in range(r.randint(0, 2)):
            t = r.choice(ts)
            n = r.randint(1, 6)
            f.uses[t] = True
            if n == 1 and r.random() < 0.5:
                L.append("%s w%d = %s;" % (T[t], i, r.choice(CONST[t])))
                arr[t].append(("&w%d" % i, 1, 1))
            else:
                L.append("%s w%d[%d] = {%s};" % (T[t], i, n, ", ".join(r.choice(CONST[t]) for _ in range(n))))
                arr[t].append(("w%d" % i, n, n))
        # every type in the lists exists in the function
        L.append("ENTERED(%d);" % self.index(f))
        for p in f.params:
            if p[0] in "df":
                L.append("L%s(%s);" % (p[0].upper(), p[1]))
            elif p[0] in "DF":
                L.append("for (int q = 0; q < %d; q++) L%s(%s[q]);" % (p[2], p[0], p[1]))
        for _ in range(r.randint(2, 8)):
            self.stmt(f, L, var, arr, 1)
        if f is self.main:
            for _ in range(r.randint(1, 3)):
                self.call(f, r.choice([x for x in self.fns if x.tu == f.tu or x.kind == "fp"]), L, 1, var, arr)
        if f.ret is not None and not var[f.ret]:
            L.append("%s rr = %s;" % (T[f.ret], r.choice(CONST[f.ret])))
            var[f.ret].append("rr")
        rv = r.choice(var[f.ret]) if f.ret is not None else None
        L.append("RETURNING(%d);" % self.index(f))
        if rv:
            L.append("L%s(%s);" % ("FD"[f.ret], rv))
        for p in f.params:
            if p[0] in "DF":
                L.append("for (int q = 0; q < %d; q++) L%s(%s[q]);" % (p[2], p[0], p[1]))
        if f.name == "main":
            L.append("log_dump(); return 0;")
        elif rv:
            L.append("return %s;" % rv)

    def index(self, f):
        return len(self.fns) if f is self.main else self.fns.index(f)

    def rval(self, t, var, arr):
        r = self.r
        c = []
        if var[t]:
            c += [r.choice(var[t])] * 4
        for n, u, k in arr[t]:
            c.append("(%s)[%d]" % (n, r.randrange(u)))
        if var[1 - t]:
            c.append("(%s)%s" % (T[t], r.choice(var[1 - t])))
        return r.choice(c) if c else r.choice(CONST[t])

    def stmt(self, f, L, var, arr, depth):
        r = self.r
        k = r.random()
        if k < 0.12 and depth < 3:
            L.append("for (int i%d = 0; i%d < %d; i%d++) {" % (depth, depth, r.randint(1, 4), depth))
            for _ in range(r.randint(1, 3)):
                self.stmt(f, L, var, arr, depth + 1)
            L.append("}")
        elif k < 0.5:
            c = [x for x in self.fns if x.kind != "no" or f.tu == 0]
            c = [x for x in c if x.tu == f.tu or x.kind == "fp"] + self.libs
            self.call(f, r.choice(c), L, depth, var, arr)
        else:
            ts = [t for t in (0, 1) if var[t]]
            if not ts:
                return
            t = r.choice(ts)
            op = r.choice("+-*/")
            # a cast brings the other type in
            a, b = self.rval(t, var, arr), self.rval(t, var, arr)
            i = len(self.ops)
            self.ops.append((OPC[op], t))
            x = "FD"[t]
            L.append("{ %s A = %s, B = %s, R = A %s B; OP(%d); L%s(A); L%s(B); L%s(R); %s = R; }" % (T[t], a, b, op, i, x, x, x, r.choice(var[t] + ["(%s)[%d]" % (n, r.randrange(u)) for n, u, _ in arr[t]])))

    def call(self, f, g, L, depth, var, arr):
        r = self.r
        pre, args, logs, outs, arrays = [], [], [], [], []
        used = set()
        if g.kind != "lib":
            args.append("n - 1")
        for j, p in enumerate(g.params):
            if p[0] in "df":
                t = int(p[0] == "d")
                f.uses[t] = True
                pre.append("%s A%d = %s;" % (T[t], j, self.rval(t, var, arr)))
                args.append("A%d" % j)
                logs.append("L%s(A%d);" % (p[0].upper(), j))
            elif p[0] == "i":
                args.append(str(r.randint(-5, 5)))
            else:
                t = int(p[0] == "D")
                c = []
                for n, u, k in arr[t]:
                    for o in range(0, u - p[2] + 1):
                        if n not in used:       # no aliases
                            c.append((n if o == 0 else "%s + %d" % (n, o), u - o, k - o if k else 0, n))
                if not c:
                    f.uses[t] = True
                    n = p[2] + r.randint(0, 2)
                    pre.append("%s W%d[%d] = {%s};" % (T[t], j, n, ", ".join(r.choice(CONST[t]) for _ in range(n))))
                    c = [("W%d" % j, n, n, None)]
                e, u, k, n = r.choice(c)
                used.add(n)
                args.append(e)
                m = k or u
                arrays.append((m, k))
                logs.append("for (int q = 0; q < %d; q++) L%s((%s)[q]);" % (m, p[0], e))
                outs.append("for (int q = 0; q < %d; q++) L%s((%s)[q]);" % (m, p[0], e))
        via = None
        if g.kind == "fp" and r.random() < 0.12:
            via = "pointer"
        s = Site(f, g, via, arrays)
        i = len(self.sites)
        self.sites.append(s)
        ret = ""
        if g.ret is not None:
            f.uses[g.ret] = True
            ret = "%s R = " % T[g.ret]
            outs.insert(0, "L%s(R);" % "FD"[g.ret])
            if var[g.ret]:
                outs.append("%s = R;" % r.choice(var[g.ret]))
        head = "{ " if g.kind == "lib" else "if (n > 0 && --budget > 0) { "
        cal = g.name
        if via:
            pre.append("%s (*volatile fp)(%s) = %s;" % (rtype(g), ptypes(g), g.name))
            cal = "fp"
        # the call has a line of its own
        L.append(head + " ".join(pre) + " CALL(%d); " % i + " ".join(logs))
        L.append(("CALLLINE", i, "%s%s(%s);" % (ret, cal, ", ".join(args))))
        L.append("RETURNED(%d); %s }" % (i, " ".join(outs)))

    # ---- text
    def text(self):
        """sources of the translation units; fixes the lines of the call sites"""
        out = []
        for tu in range(self.ntu):
            lines = ["#include <math.h>", "typedef unsigned long long u64;", "extern u64 LOG_[]; extern long LN_, budget;", "void log_dump(void);",
                     "#define W_(x) LOG_[LN_++] = (x)", "#define OP(i) W_(1ull << 32 | (i))", "#define CALL(i) W_(2ull << 32 | (i))", "#define ENTERED(i) W_(3ull << 32 | (i))",
                     "#define RETURNING(i) W_(4ull << 32 | (i))", "#define RETURNED(i) W_(5ull << 32 | (i))", "#define LD(x) *(double *)&LOG_[LN_++] = (x)", "#define LF(x) *(float *)&LOG_[LN_++] = (x)"]
            for f in self.fns:
                if f.tu == tu or f.kind == "fp":
                    lines.append("%s %s(%s);" % (rtype(f), f.name, ptypes(f)))
            for f in self.fns + ([self.main] if tu == 0 else []):
                if f.tu != tu:
                    continue
                f.line = len(lines) + 1
                if f is self.main:
                    lines.append("int main(void) { int n = %d;" % self.r.randint(1, 5))
                else:
                    lines.append("%s %s(%s) {" % (rtype(f), f.name, pdecl(f)))
                for s in f.body:
                    if isinstance(s, tuple):
                        self.sites[s[1]].line = len(lines) + 1
                        s = s[2]
                    lines.append("  " + s)
                if f.kind != "fp" and f is not self.main:
                    lines.append("  return 0;")
                lines.append("}")
            out.append("\n".join(lines) + "\n")
        return out


def rtype(f):
    return "int" if f.kind in ("in", "no") else "void" if f.ret is None else T[f.ret]


def ptypes(f):
    if f.kind == "lib":
        return ", ".join({"d": "double", "f": "float"}[p[0]] for p in f.params)
    return ", ".join(["int"] + [{"d": "double", "f": "float", "i": "int", "D": "double *", "F": "float *"}[p[0]] for p in f.params])


def pdecl(f):
    return ", ".join(["int n"] + [{"d": "double ", "f": "float ", "i": "int ", "D": "double *", "F": "float *"}[p[0]] + p[1] for p in f.params])


RT = r"""
#include <stdio.h>
#include <stdlib.h>
unsigned long long LOG_[1 << 20]; long LN_, budget = BUDGET;
void log_dump(void) { FILE *f = fopen(getenv("FG_OUT"), "wb"); fwrite(LOG_, 8, LN_, f); fclose(f); }
"""


def build(d, pre, prog, plain=True):
    """executables in d: vfc (function instrumentation), nat (plain compiler)"""
    os.makedirs(d, exist_ok=True)
    for i, t in enumerate(prog.text()):
        open(d + "/t%d.c" % i, "w").write(t)
    open(d + "/rt.c", "w").write(RT.replace("BUDGET", str(prog.r.choice((30, 120, 300)))))
    must([CLANG, "-O1", "-c", "rt.c", "-o", "rt.o"], cwd=d)
    srcs = ["t%d.c" % i for i in range(prog.ntu)]
    vfc_must(pre, ["--inst-func", "-O0", "-ffp-contract=off", "-Wno-everything"] + srcs + ["rt.o", "-o", "vfc", "-lm"], cwd=d)
    if plain:
        must([CLANG, "-O0", "-ffp-contract=off", "-Wno-everything"] + srcs + ["rt.o", "-o", "nat", "-lm"], cwd=d)


def execute(d, pre, exe, backend, name="log", timeout=60, **kw):
    out = d + "/" + name
    if os.path.exists(out):
        os.unlink(out)
    e = envof(pre, backend, FG_OUT=out, **kw)
    r = run([d + "/" + exe], env=e, cwd=d, timeout=timeout)
    if r.timeout:
        raise Hang("the generated program timed out")
    w = None
    if os.path.exists(out):
        b = open(out, "rb").read()
        w = struct.unpack("<%dQ" % (len(b) // 8), b)
    return w, r


def events(prog, w):
    """decodes the log: (kind, index, values) with values as (type, bits) or lists of them for arrays"""
    i, n, out = 0, len(w), []
    fns = prog.fns + [prog.main]

    def take(k, t):
        nonlocal i
        v = w[i:i + k]
        i += k
        return [(t, x) for x in v]
    while i < n:
        kind, ix = w[i] >> 32, w[i] & 0xffffffff
        i += 1
        if kind == 1:
            t = prog.ops[ix][1]
            out.append((1, ix, take(3, t)))
        elif kind in (2, 5):
            s = prog.sites[ix]
            v = []
            if kind == 5 and s.fn.ret is not None:
                v += take(1, s.fn.ret)
            a = iter(s.arrays)
            for p in s.fn.params:
                if p[0] in "df" and kind == 2:
                    v += take(1, int(p[0] == "d"))
                elif p[0] in "DF":
                    v.append(take(next(a)[0], int(p[0] == "D")))
            out.append((kind, ix, v))
        elif kind in (3, 4):
            f = fns[ix]
            v = []
            if kind == 4 and f.ret is not None:
                v += take(1, f.ret)
            for p in f.params:
                if p[0] in "df" and kind == 3:
                    v += take(1, int(p[0] == "d"))
                elif p[0] in "DF":
                    v.append(take(p[2], int(p[0] == "D")))
            out.append((kind, ix, v))
        else:
            raise ValueError("corrupt log")
    return out


# ------------------------------------------------------------------ profiles
class Entry:
    pass


def parse_profile(txt):
    out, cur = [], None
    for l in txt.split("\n"):
        if not l:
            continue
        f = l.split("\t")
        if f[0] in ("input:", "output:"):
            (cur.inputs if f[0] == "input:" else cur.outputs).append([f[1]] + [int(x) for x in f[2:7]])
            if len(f) != 7:
                raise ValueError("argument line %r" % l)
        else:
            if len(f) != 12:
                raise ValueError("header line %r" % l)
            cur = Entry()
            cur.id = f[0]
            cur.file, cur.parent, cur.name, cur.line, cur.num = f[0].rsplit("/", 4)
            cur.line = int(cur.line)
            cur.lib, cur.intr, cur.flt, cur.dbl, cur.p64, cur.r64, cur.p32, cur.r32, cur.nin, cur.nout, cur.calls = [int(x) for x in f[1:]]
            cur.inputs, cur.outputs = [], []
            out.append(cur)
    return out


def write_profile(es):
    s = ""
    for e in es:
        s += "\t".join(str(x) for x in (e.id, e.lib, e.intr, e.flt, e.dbl, e.p64, e.r64, e.p32, e.r32, e.nin, e.nout, e.calls)) + "\n"
        for k, l in (("input:", e.inputs), ("output:", e.outputs)):
            for a in l:
                s += "\t".join([k] + [str(x) for x in a]) + "\n"
    return s


def find(prog, es):
    """entry of each site (None: not listed) and of main; and the entries that match nothing"""
    by = {}
    for e in es:
        by.setdefault((os.path.basename(e.file), e.parent, e.name.replace("llvm.fabs.f64", "fabs").replace("llvm.floor.f64", "floor").replace("llvm.sqrt.f64", "sqrt").replace("llvm.sqrt.f32", "sqrtf"), e.line), []).append(e)
    got = {}
    for i, s in enumerate(prog.sites):
        got[i] = by.pop(("t%d.c" % s.tu, s.parent.name, s.fn.name, s.line), [])
    got["main"] = by.pop(("t0.c", "", "main", prog.main.line), [])
    return got, [e.id for v in by.values() for e in v]


def uses(prog, s):
    """(float, double) flags of a call site"""
    g = s.fn
    if g.kind == "lib":
        t = g.ret
        return (t == 0, t == 1)
    if g.tu == s.tu:
        return tuple(g.uses)
    ptr = any(p[0] in "DF" for p in g.params)
    return (ptr or g.ret == 0 or any(p[0] == "f" for p in g.params), ptr or g.ret == 1 or any(p[0] == "d" for p in g.params))


IMAX, IMIN = 2 ** 31 - 1, -2 ** 31


def bound(vals):
    """smallest floor and largest ceiling of the finite values, saturated"""
    lo, hi = IMAX, IMIN
    for t, x in vals:
        if fpx.is_fin(x, t):
            m, e = fpx.dec(x, t)
            f, c = (m << e, m << e) if e >= 0 else (m >> -e, -((-m) >> -e))
            lo, hi = min(lo, max(f, IMIN)), max(hi, min(c, IMAX))
    return lo, max(hi, IMIN)


class Shadow:
    """what the profile of a run must say, from its log"""

    def __init__(self, prog, ev):
        self.calls, self.ins, self.outs = {}, {}, {}
        self.order = []
        for kind, i, v in ev:
            if kind not in (2, 5):
                continue
            s = prog.sites[i]
            if s.via or not any(uses(prog, s)):
                continue
            self.order.append((kind, i))
            if kind == 2:
                self.calls[i] = self.calls.get(i, 0) + 1
            d = self.ins if kind == 2 else self.outs
            cols = d.setdefault(i, [[] for _ in v])
            a = iter(s.arrays)
            for c, x in zip(cols, v):
                if isinstance(x, list):
                    if next(a)[1]:
                        c.extend(x)
                else:
                    c.append(x)


def expected_args(prog, s, vals, kind):
    """rows (name, type or None when unspecified, lo, hi)"""
    g = s.fn
    rows, k = [], 0
    vals = vals if vals is not None else []
    local = g.tu == s.tu and g.kind != "lib"
    if kind == 5 and g.ret is not None:
        rows.append(["return_value", g.ret] + list(bound(vals[k])))
        k += 1
    a = iter(s.arrays)
    off = 2 if g.kind != "lib" else 1
    for j, p in enumerate(g.params):
        name = p[1] if local else "parameter_%d" % (j + off)
        if p[0] in "df" and kind == 2:
            rows.append([name, int(p[0] == "d")] + list(bound(vals[k])))
            k += 1
        elif p[0] in "DF":
            known = next(a)[1]
            rows.append([name, (4 if p[0] == "D" else 3) if known else None] + list(bound(vals[k])))
            k += 1
    return rows


def check_profile(prog, ev, es):
    """reasons why the profile entries es misrepresent the run"""
    sh = Shadow(prog, ev)
    got, extra = find(prog, es)
    bad = []
    if extra:
        bad.append("entries that are no executed call site: %s" % extra[:4])
    m = got["main"]
    fm = any(prog.main.uses)
    if len(m) != (1 if fm else 0):
        bad.append("%d entries for main" % len(m))
    elif m and (m[0].calls != 1 or (bool(m[0].flt), bool(m[0].dbl)) != tuple(prog.main.uses)):
        bad.append("main: %d calls, float %d double %d" % (m[0].calls, m[0].flt, m[0].dbl))
    for i, s in enumerate(prog.sites):
        where = "call of %s in %s line %d" % (s.fn.name, s.parent.name, s.line)
        n = sh.calls.get(i, 0)
        e = got[i]
        if len(e) != (1 if n else 0):
            bad.append("%s: executed %d times, %d entries" % (where, n, len(e)))
            continue
        if not e:
            continue
        e = e[0]
        if e.calls != n:
            bad.append("%s: %d calls recorded, executed %d times" % (where, e.calls, n))
        if (bool(e.flt), bool(e.dbl)) != uses(prog, s):
            bad.append("%s: uses (float, double) recorded %s, must be %s" % (where, (e.flt, e.dbl), uses(prog, s)))
        if bool(e.lib or e.intr) != (s.fn.kind == "lib"):
            bad.append("%s: library %d intrinsic %d" % (where, e.lib, e.intr))
        if (e.p64, e.r64, e.p32, e.r32) != (52, 11, 23, 8):
            bad.append("%s: formats %s" % (where, (e.p64, e.r64, e.p32, e.r32)))
        for kind, rows, cnt, vals in ((2, e.inputs, e.nin, sh.ins), (5, e.outputs, e.nout, sh.outs)):
            want = expected_args(prog, s, vals.get(i), kind)
            if cnt != len(want) or len(rows) != cnt:
                bad.append("%s: %d %s recorded (%d lines), must be %d" % (where, cnt, "inputs" if kind == 2 else "outputs", len(rows), len(want)))
                continue
            for g, w in zip(rows, want):
                if g[0] != w[0] or (w[1] is not None and (g[1] != w[1] or g[2:4] != ([52, 11] if w[1] in (1, 4) else [23, 8]))) or g[4:] != w[2:]:
                    bad.append("%s: %s recorded, must be %s %s in [%d, %d]" % (where, g, w[0], w[1], w[2], w[3]))
    return bad, sh


def same_value(t, a, b):
    return a == b or (fpx.is_nan(a, t) and fpx.is_nan(b, t))


def same_log(prog, e1, e2):
    """first difference of two logs"""
    if len(e1) != len(e2):
        return "%d events, natively %d" % (len(e1), len(e2))

    def flat(v):
        for x in v:
            if isinstance(x, list):
                yield from x
            else:
                yield x
    for k, (a, b) in enumerate(zip(e1, e2)):
        if a[:2] != b[:2]:
            return "event %d is %s, natively %s" % (k, a[:2], b[:2])
        for (t, x), (_, y) in zip(flat(a[2]), flat(b[2])):
            if not same_value(t, x, y):
                return "event %d %s: %s, natively %s" % (k, a[:2], fpx.show(x, t), fpx.show(y, t))
    return None


def check_trace(prog, sh, es, txt):
    """the order of the enter and exit lines of the log file"""
    got, _ = find(prog, es)
    ids = {e[0].id: i for i, e in got.items() if e}
    seq = []
    # (the line of an array of unknown size is not ended)
    for m in re.finditer(r"(enter in|exit of) ([^\t\n]*)\t", txt):
        seq.append((2 if m.group(1) == "enter in" else 5, ids.get(m.group(2))))
    want = sh.order
    if any(prog.main.uses):
        want = [(2, "main")] + want + [(5, "main")]
    if seq != want:
        k = next((k for k, (a, b) in enumerate(zip(seq, want)) if a != b), min(len(seq), len(want)))
        return "log file: line %d of %d is %s, must be %s" % (k, len(seq), seq[k:k + 1], want[k:k + 1])
    return None


# ------------------------------------------------------------------ formats
def assign(r, es, share=0.7):
    """random formats in a profile"""
    for e in es:
        if r.random() < share:
            e.p64, e.r64 = r.choice((52, r.randint(1, 52), r.randint(1, 12))), r.choice((11, 11, r.randint(2, 11)))
            e.p32, e.r32 = r.choice((23, r.randint(1, 23), r.randint(1, 8))), r.choice((8, 8, r.randint(2, 8)))
        for a in e.inputs + e.outputs:
            if r.random() < share:
                d = a[1] in (1, 4)
                a[2], a[3] = (r.randint(1, 52), r.choice((11, 11, r.randint(2, 11)))) if d else (r.randint(1, 23), r.choice((8, 8, r.randint(2, 8))))


def replay(prog, ev, es, conf, inst):
    """checks every event of a run with the profile es as input; (reasons, counters)"""
    got, _ = find(prog, es)
    ent = {i: (e[0] if e else None) for i, e in got.items()}
    ops_on, args_on = inst in ("operations", "all"), inst in ("arguments", "all")
    in_on, out_on = args_on and conf["mode"] in ("ib", "full"), args_on and conf["mode"] in ("ob", "full")
    fmt = {"p": conf["p"], "r": conf["r"]}
    e = ent["main"]
    if ops_on and e:
        fmt = {"p": (e.p32, e.p64), "r": (e.r32, e.r64)}
    bad, cnt = [], {"operations": 0, "arguments": 0, "restored": 0}
    stack = []

    def rounds(x, row, is_in, on):
        t, b = x
        if not on or row is None or fpx.is_nan(b, t):
            return {b}
        return vp.vround(b, t, row[3], row[2], conf, is_in)

    def ok(t, b, s):
        return b in s or any(fpx.is_nan(y, t) for y in s) and fpx.is_nan(b, t)

    def where(s):
        return "call of %s in %s line %d" % (s.fn.name, s.parent.name, s.line)

    for kind, i, v in ev:
        if len(bad) > 3:
            break
        if kind == 1:
            op, t = prog.ops[i]
            cnt["operations"] += 1
            m = vp.check(op, t, v[0][1], v[1][1], 0, v[2][1], dict(conf, **fmt))
            if m:
                at = where(prog.sites[stack[-1][0]]) if stack else "main"
                bad.append("inside %s, formats %s: %s(%s, %s) = %s, %s" % (at, fmt, OPNAME[op], fpx.show(v[0][1], t), fpx.show(v[1][1], t), fpx.show(v[2][1], t), m))
        elif kind == 2:
            s = prog.sites[i]
            stack.append((i, fmt, v, None))
            e = ent.get(i)
            if e and s.via is None and s.fn.kind != "lib" and ops_on:
                fmt = {"p": (e.p32, e.p64), "r": (e.r32, e.r64)}
        elif kind == 3:
            if not stack:
                continue
            s = prog.sites[stack[-1][0]]
            e = ent.get(stack[-1][0])
            rows = e.inputs if e and s.via is None else [None] * len(v)
            arr = iter(s.arrays)
            for x, y, row in zip(stack[-1][2], v, rows):
                known = 1
                if isinstance(x, list):
                    known = next(arr)[1]
                else:
                    x, y = [x], [y]
                for a, b in zip(x, y):
                    cnt["arguments"] += 1
                    if not ok(a[0], b[1], rounds(a, row, True, in_on and known)):
                        bad.append("%s: argument %s passed, %s received with format %s" % (where(s), fpx.show(a[1], a[0]), fpx.show(b[1], b[0]), row))
        elif kind == 4:
            if stack:
                stack[-1] = stack[-1][:3] + (v,)
        else:
            si, old, passed, given = stack.pop()
            if si != i:
                bad.append("the calls do not nest")
                break
            s = prog.sites[i]
            fmt = old
            cnt["restored"] += 1
            e = ent.get(i)
            if s.fn.kind == "lib":
                given = [libval(s.fn.name, [rounds(x, e.inputs[0] if e else None, True, in_on) for x in passed])]
                if given[0] is None:
                    continue
                outs = given
            elif given is None:
                if s.fn.kind == "fp":
                    bad.append("%s: no values before the return" % where(s))
                continue
            else:
                outs = [g if isinstance(g, list) else {g[1]} for g in given]
            rows = e.outputs if e and s.via is None else [None] * len(v)
            irows = e.inputs if e and s.via is None else []
            arr = iter(s.arrays)
            ia = iter([k for k, p in enumerate([p for p in s.fn.params if p[0] in "dfDF"]) if p[0] in "DF"])
            for g, y, row in zip(outs, v, rows):
                if not isinstance(y, list):
                    want = set()
                    for b in g:
                        want |= rounds((y[0], b), row, False, out_on)
                    cnt["arguments"] += 1
                    if not ok(y[0], y[1], want):
                        bad.append("%s: returns %s, %s received with format %s" % (where(s), [fpx.show(b, y[0]) for b in g], fpx.show(y[1], y[0]), row))
                    continue
                known = next(arr)[1]
                k = next(ia)
                irow = irows[k] if irows else None
                for j, b in enumerate(y):
                    cnt["arguments"] += 1
                    t = b[0]
                    # the elements that the callee does not see are rounded too
                    src = {g[j][1]} if j < len(g) else rounds(passed[k][j], irow, True, in_on and known)
                    want = set()
                    for x in src:
                        want |= rounds((t, x), row, False, out_on and known)
                    if not ok(t, b[1], want):
                        bad.append("%s: element %d is %s when it returns, %s received with format %s" % (where(s), j, [fpx.show(x, t) for x in src], fpx.show(b[1], t), row))
    return bad, cnt


def libval(name, sets):
    """values of a library function for each possible argument; None when not computed here"""
    out = set()
    t = 0 if name == "sqrtf" else 1
    for b in sets[0]:
        if not fpx.is_fin(b, t):
            return None
        if name == "fabs":
            out.add(b & ~fpx.SIGN[1])
        elif name in ("sqrt", "sqrtf"):
            x = struct.unpack("<d", struct.pack("<Q", b))[0] if t else struct.unpack("<f", struct.pack("<I", b))[0]
            if x < 0:
                return None
            y = math.sqrt(x)
            out.add(struct.unpack("<Q", struct.pack("<d", y))[0] if t else struct.unpack("<I", struct.pack("<f", y))[0])
        else:
            return None
    return out
