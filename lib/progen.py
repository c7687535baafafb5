"""Random C programs with an exact model of the floating point operations they execute.

A program is a set of functions over float, double, integers and vectors; `emit` gives the C text, `Model.run`
executes it on bit patterns and returns the events the monitor backend must see, in program order, and the
values the program must print."""
import fpx
from vcommon import ADD, SUB, MUL, DIV, FMA, CAST, CMP

CT = ("float", "double")
BOP = {ADD: "+", SUB: "-", MUL: "*", DIV: "/"}
PRED = {"==": 1, ">": 2, ">=": 3, "<": 4, "<=": 5, "!=": 14}   # LLVM numbering at -O0


def relation(p, a, b, t):
    if fpx.is_nan(a, t) or fpx.is_nan(b, t):
        bit = 8
    else:
        da = 0 if fpx.is_zero(a, t) else (-(a & ~fpx.SIGN[t]) if fpx.sgn(a, t) else a & ~fpx.SIGN[t])
        db = 0 if fpx.is_zero(b, t) else (-(b & ~fpx.SIGN[t]) if fpx.sgn(b, t) else b & ~fpx.SIGN[t])
        bit = 1 if da == db else 2 if da > db else 4
    return 1 if p & bit else 0


def tweak(x, t, salt):
    e = (x >> fpx.MANT[t]) & ((1 << fpx.EXPB[t]) - 1)
    if (30 if t == 0 else 60) < e < (250 if t == 0 else 2040):
        x ^= salt & 7
    return x


def f2d(x):
    """float bits -> double bits"""
    if fpx.is_nan(x, 0):
        return fpx.QNAN[1]
    if fpx.is_inf(x, 0):
        return fpx.INFB[1] | (fpx.SIGN[1] if fpx.sgn(x, 0) else 0)
    m, e = fpx.dec(x, 0)
    return fpx.enc(m, e, 1, neg_zero=bool(fpx.sgn(x, 0)))


def nn(x, t):
    return fpx.QNAN[t] if x == "nan" else x


def isconst(e):
    """the compiler folds it, whatever the optimisation level"""
    return e[0] == "const" or (e[0] in ("ext", "neg", "cast") and isconst(e[2])) or (e[0] == "bin" and isconst(e[3]) and isconst(e[4])) or (e[0] == "fma" and all(isconst(x) for x in e[2:5]))


def has(e, kind):
    return isinstance(e, tuple) and (e[0] == kind or any(has(x, kind) for x in e[2:]))


class Gen:
    def __init__(self, r, nfun=5, volatile=False, kinds=("fma", "cast", "cmp"), vec=True, consts=True, size=7, neg=True, prefix="", loops=True, names=None, mods=None):
        """names: function names to choose from, mods: modules to place the (then static) functions in"""
        self.r, self.volatile, self.kinds, self.vec, self.consts, self.size, self.neg = r, volatile, kinds, vec, consts, size, neg
        self.prefix = prefix
        self.loops = loops
        self.names, self.mods, self.used = names, mods, set()
        self.funs = []
        for i in range(nfun):
            self.funs.append(self.function(i))

    # ------------------------------------------------------------ expressions: (kind, type, ...)
    def leaf(self, t, env):
        r = self.r
        k = r.random()
        if self.consts and k < 0.12:
            v = r.choice((1.0, 0.5, 3.0, -2.0, 0.1, 1e-3, 7.25, 100.0))
            return ("const", t, fpx.f2b(v, t), v)
        if k < 0.35:
            return ("arr", t, env["loop"] or str(r.randint(0, 7)))
        if self.vec and k < 0.45 and env["vec"] and not self.volatile:
            vs = [v for v in env["vec"] if v[1] == t]
            if vs:
                v = r.choice(vs)
                return ("lane", t, v[0], r.randrange(v[2]))
        return ("var", t, r.choice(env[t]))

    def var(self, t, env):
        return ("var", t, self.r.choice(env[t]))

    def expr(self, t, env, depth):
        """an expression that the compiler cannot evaluate (unless it is a constant leaf)"""
        e = self.expr_(t, env, depth)
        if e[0] == "bin" and isconst(e[3]) and isconst(e[4]):
            return e[:3] + (self.var(t, env),) + e[4:]
        if e[0] == "fma" and isconst(e):
            return e[:2] + (self.var(t, env),) + e[3:]
        if e[0] in ("cast", "ext") and isconst(e):
            return e[:2] + (self.var(1 - t, env),)
        if e[0] == "cast" and self.volatile and has(e[2], "ext"):  # (float)((double)a + (double)b) may be computed as a float addition
            return e[:2] + (self.var(1, env),)
        if e[0] == "neg" and isconst(e):
            return e[:2] + (self.var(t, env),)
        return e

    def expr_(self, t, env, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.12:
            return self.leaf(t, env)
        k = r.random()
        if k < 0.66:
            return ("bin", t, r.choice((ADD, ADD, SUB, MUL, DIV)), self.expr(t, env, depth - 1), self.expr(t, env, depth - 1))
        if k < 0.74 and "fma" in self.kinds:
            return ("fma", t, self.leaf(t, env), self.leaf(t, env), self.leaf(t, env))
        if k < 0.82 and "cast" in self.kinds:
            if t == 0:
                return ("cast", 0, self.expr(1, env, depth - 1))
            return ("ext", 1, self.expr(0, env, depth - 1))
        if k < 0.86 and self.neg:
            return ("neg", t, self.leaf(t, env))
        if k < 0.94 and env["callable"]:
            fs = [f for f in env["callable"] if f["ret"] == t]
            if fs:
                f = r.choice(fs)
                return ("call", t, f["i"], [self.leaf(pt, env) for pt in f["params"]], r.random() < 0.3)
        if k < 0.98 and "cmp" in self.kinds:
            return ("cond", t, self.cmp(env), self.leaf(t, env), self.leaf(t, env))
        return self.leaf(t, env)

    def cmp(self, env):
        t = self.r.randint(0, 1)
        return ("cmp", t, self.r.choice(sorted(PRED)), self.var(t, env), self.leaf(t, env))

    # ------------------------------------------------------------ statements
    def stmts(self, env, n, depth):
        return [self.stmt(env, depth) for _ in range(n)]

    def stmt(self, env, depth):
        r = self.r
        k = r.random()
        t = r.randint(0, 1)
        if k < 0.42:
            return ("set", t, r.choice(env[t]), self.expr(t, env, 2))
        if k < 0.50:
            return ("upd", t, r.choice(env[t]), r.choice((ADD, SUB, MUL, DIV)), self.leaf(t, env))
        if k < 0.60:
            return ("aset", t, env["loop"] or str(r.randint(0, 7)), self.expr(t, env, 2))
        if k < 0.72 and self.vec and env["vec"]:
            a = r.choice(env["vec"])
            ws = [v for v in env["vec"] if v[1:] == a[1:]]
            return ("vset", a, r.choice((ADD, SUB, MUL, DIV)), r.choice(ws), r.choice(ws))
        if k < 0.76 and self.vec and env["vec"]:
            a = r.choice(env["vec"])
            return ("lset", a, r.randrange(a[2]), self.leaf(a[1], env))
        if k < 0.86 and depth and "cmp" in self.kinds:
            return ("if", self.cmp(env), self.stmts(env, r.randint(1, 2), depth - 1), self.stmts(env, r.randint(0, 2), depth - 1))
        if k < 0.95 and depth and not env["loop"] and self.loops:
            e2 = dict(env, loop="i")
            return ("for", r.randint(1, 5), self.stmts(e2, r.randint(1, 3), depth - 1), r.choice(("for", "while", "do")))
        if k < 0.97 and depth:
            return ("switch", r.randint(0, 2), [self.stmts(env, 1, depth - 1) for _ in range(3)])
        return ("set", t, r.choice(env[t]), self.expr(t, env, 1))

    def function(self, i):
        r = self.r
        ps = [r.randint(0, 1) for _ in range(r.randint(1, 4))]
        env = {0: ["g0f", "x0f", "x1f"], 1: ["g0d", "x0d", "x1d"], "vec": [], "loop": None, "callable": list(self.funs[-3:])}
        for j, t in enumerate(ps):
            env[t] = env[t] + ["p%d" % j]
        if self.vec and r.random() < 0.7:
            for j in range(r.randint(1, 3)):
                t, n = r.randint(0, 1), r.choice((2, 4, 8, 16))
                env["vec"] += [("v%da" % j, t, n), ("v%db" % j, t, n)]
        ret = r.randint(0, 1)
        uid = name = "%sfun%d" % (self.prefix, i)
        mod = None
        if self.mods:
            while True:
                mod, name = r.choice(self.mods), r.choice(self.names)
                if (mod, name) not in self.used:
                    break
            self.used.add((mod, name))
        return {"i": i, "uid": uid, "mod": mod, "name": name, "params": ps, "ret": ret, "vec": list(env["vec"]),
                "body": self.stmts(env, r.randint(2, self.size), 2), "result": self.expr(ret, env, 1)}

    # ------------------------------------------------------------ C text
    cur = None

    def E(self, e):
        k = e[0]
        if k == "const":
            return "%r%s" % (e[3], "f" if e[1] == 0 else "")
        if k == "arr":
            return "%s[%s]" % (("af", "ad")[e[1]], e[2])
        if k == "lane":
            return "%s[%d]" % (e[2], e[3])
        if k == "var":
            return e[2]
        if k == "bin":
            return "(%s %s %s)" % (self.E(e[3]), BOP[e[2]], self.E(e[4]))
        if k == "fma":
            return "__builtin_fma%s(%s, %s, %s)" % ("f" if e[1] == 0 else "", self.E(e[2]), self.E(e[3]), self.E(e[4]))
        if k == "cast":
            return "(float)%s" % self.E(e[2])
        if k == "ext":
            return "(double)%s" % self.E(e[2])
        if k == "neg":
            return "(-%s)" % self.E(e[2])
        if k == "call":
            f = self.funs[e[2]]
            a = ", ".join(self.E(x) for x in e[3])
            if e[4] or f["mod"] != self.cur:
                return "tab_%s(%s)" % (f["uid"], a)
            return "%s(%s)" % (f["name"], a)
        if k == "cmp":
            return "(%s %s %s)" % (self.E(e[3]), e[2], self.E(e[4]))
        if k == "cond":
            return "(%s ? %s : %s)" % (self.E(e[2]), self.E(e[3]), self.E(e[4]))
        raise ValueError(k)

    def S(self, s, ind):
        p = "  " * ind
        k = s[0]
        if k == "set":
            return "%s%s = %s;\n" % (p, s[2], self.E(s[3]))
        if k == "upd":
            return "%s%s %s= %s;\n" % (p, s[2], BOP[s[3]], self.E(s[4]))
        if k == "aset":
            return "%s%s[%s] = %s;\n" % (p, ("af", "ad")[s[1]], s[2], self.E(s[3]))
        if k == "vset":
            return "%s%s = %s %s %s;\n" % (p, s[1][0], s[3][0], BOP[s[2]], s[4][0])
        if k == "lset":
            return "%s%s[%d] = %s;\n" % (p, s[1][0], s[2], self.E(s[3]))
        if k == "if":
            o = "%sif %s {\n%s%s}" % (p, self.E(s[1]), "".join(self.S(x, ind + 1) for x in s[2]), p)
            if s[3]:
                o += " else {\n%s%s}" % ("".join(self.S(x, ind + 1) for x in s[3]), p)
            return o + "\n"
        if k == "for":
            b = "".join(self.S(x, ind + 1) for x in s[2])
            if s[3] == "for":
                return "%sfor (int i = 0; i < %d; i++) {\n%s%s}\n" % (p, s[1], b, p)
            if s[3] == "while":
                return "%s{ int i = 0; while (i < %d) {\n%s%si++; } }\n" % (p, s[1], b, p)
            return "%s{ int i = 0; do {\n%s%s} while (++i < %d); }\n" % (p, b, p, s[1])
        if k == "switch":
            return "%sswitch (sel + %d) {\n%s%s}\n" % (p, s[1], "".join("%scase %d: {\n%s%s} break;\n" % (p, j, "".join(self.S(x, ind + 1) for x in b), p)
                                                                         for j, b in enumerate(s[2])), p)
        raise ValueError(k)

    def types(self):
        v = "volatile " if self.volatile else ""
        o = ""
        for t in (0, 1):
            for n in (2, 4, 8, 16):
                o += "typedef %s %s%d __attribute__((ext_vector_type(%d)));\n" % (CT[t], CT[t], n, n)
        o += "extern %sfloat g0f, af[8]; extern %sdouble g0d, ad[8]; extern volatile int sel;\n" % (v, v)
        return o

    def proto(self, f, v=""):
        return "%s%s %s(%s)" % ("static " if self.mods else "", CT[f["ret"]], f["name"], ", ".join("%s%s p%d" % (v, CT[t], j) for j, t in enumerate(f["params"])))

    def tables(self):
        o = ""
        for f in self.funs:
            o += "extern %s (*volatile tab_%s)(%s);\n" % (CT[f["ret"]], f["uid"], ", ".join(CT[t] for t in f["params"]))
        return o

    def fun_text(self, f):
        self.cur = f["mod"]
        v = "volatile " if self.volatile else ""
        o = "__attribute__((noinline)) %s {\n" % self.proto(f, v)
        o += "  %sfloat x0f = af[0], x1f = af[1]; %sdouble x0d = ad[0], x1d = ad[1];\n" % (v, v)
        for name, t, n in f["vec"]:
            o += "  %s%s%d %s = {%s};\n" % (v, CT[t], n, name, ", ".join("%s[%d]" % (("af", "ad")[t], j % 8) for j in range(n)))
        return o + "".join(self.S(s, 1) for s in f["body"]) + "  return %s;\n}\n" % self.E(f["result"])

    def unit(self, funs):
        """text of a translation unit holding these functions"""
        o = self.types() + self.tables() + "".join(self.proto(f) + ";\n" for f in (funs if self.mods else self.funs)) + "".join(self.fun_text(f) for f in funs)
        if self.mods:
            for f in funs:
                o += self.table(f)
        return o

    def table(self, f):
        return "%s (*volatile tab_%s)(%s) = %s;\n" % (CT[f["ret"]], f["uid"], ", ".join(CT[t] for t in f["params"]), f["name"])

    def main_text(self, inputs, rounds=1, extra=""):
        """not to be instrumented for what it computes: it holds no floating point operation.
        Calls every function, then prints all the state as bits."""
        v = "volatile " if self.volatile else ""
        o = "#include <stdio.h>\n#include <string.h>\n#include <stdint.h>\n" + self.types()
        if self.mods:
            o += self.tables()
        else:
            o += "".join(self.proto(f) + ";\n" for f in self.funs) + "".join(self.table(f) for f in self.funs)
        o += "%sfloat g0f, af[8]; %sdouble g0d, ad[8]; volatile int sel = 0;\n" % (v, v)
        o += "static const uint32_t inf[9] = {%s};\n" % ", ".join("0x%xu" % x for x in inputs[0])
        o += "static const uint64_t ind[9] = {%s};\n" % ", ".join("0x%xull" % x for x in inputs[1])
        o += "static void pf(float x) { uint32_t u; memcpy(&u, &x, 4); if ((u & 0x7fffffff) > 0x7f800000) puts(\"nan\"); else printf(\"%x\\n\", u); }\n"
        o += "static void pd(double x) { uint64_t u; memcpy(&u, &x, 8); if ((u << 1) > 0xffe0000000000000ull) puts(\"nan\"); else printf(\"%llx\\n\", (unsigned long long)u); }\n"
        o += "static float ldf(int i) { float x; memcpy(&x, inf + i, 4); return x; }\nstatic double ldd(int i) { double x; memcpy(&x, ind + i, 8); return x; }\n"
        o += extra
        o += "int main(void) {\n  for (int i = 0; i < 8; i++) { af[i] = ldf(i); ad[i] = ldd(i); }\n  g0f = ldf(8); g0d = ldd(8);\n"
        for k in range(rounds):
            for f in self.funs:
                args = ", ".join("%s[%d]" % (("af", "ad")[t], (j + k) % 8) for j, t in enumerate(f["params"]))
                o += "  %s(%s(%s));\n" % (("pf", "pd")[f["ret"]], "tab_" + f["uid"] if self.mods else f["name"], args)
        o += "  for (int i = 0; i < 8; i++) { pf(af[i]); pd(ad[i]); }\n  pf(g0f); pd(g0d);\n  return 0;\n}\n"
        return o


class Budget(Exception):
    pass


class Model:
    """executes a generated program; inst(fn) tells whether a function is instrumented"""

    def __init__(self, gen, inputs, salt=0, kinds=("fma", "cast", "cmp"), inst=lambda f: True, limit=20000):
        self.g, self.salt, self.kinds, self.inst, self.limit = gen, salt, set(kinds), inst, limit
        self.ev, self.out = [], []
        self.G = {"g0f": inputs[0][8], "g0d": inputs[1][8]}
        self.A = [list(inputs[0][:8]), list(inputs[1][:8])]

    def emit(self, fr, op, t, a, b, c, aux, res):
        self.ev.append((op, t, aux, a, b, c, res))
        if len(self.ev) > self.limit:
            raise Budget()

    def arith(self, fr, op, t, a, b, c=0):
        res = nn(fpx.ieee(op, t, a, b, c), t)
        if fr["on"] and (op != FMA or "fma" in self.kinds):
            res = tweak(res, t, self.salt) if not fpx.is_nan(res, t) else res
            self.emit(fr, op, t, a, b, c if op == FMA else 0, 0, res)
        else:
            self.native += 1
        return res

    native = 0

    def get(self, fr, name):
        return self.G[name] if name in self.G else fr[name]

    def put(self, fr, name, v):
        if name in self.G:
            self.G[name] = v
        else:
            fr[name] = v

    def idx(self, fr, s):
        return fr["loop"] if s == "i" else int(s)

    def ev_(self, fr, e):
        k, t = e[0], e[1]
        if k == "const":
            return e[2]
        if k == "arr":
            return self.A[t][self.idx(fr, e[2])]
        if k == "lane":
            return fr[e[2]][e[3]]
        if k == "var":
            return self.get(fr, e[2])
        if k == "bin":
            a = self.ev_(fr, e[3])
            b = self.ev_(fr, e[4])
            return self.arith(fr, e[2], t, a, b)
        if k == "fma":
            a, b, c = [self.ev_(fr, x) for x in e[2:5]]
            return self.arith(fr, FMA, t, a, b, c)
        if k == "cast":
            a = self.ev_(fr, e[2])
            res = nn(fpx.cast32(a), 0) if not fpx.is_nan(a, 1) else fpx.QNAN[0]
            if fr["on"] and "cast" in self.kinds:
                res = tweak(res, 0, self.salt) if not fpx.is_nan(res, 0) else res
                self.emit(fr, CAST, 1, a, 0, 0, 0, res)
            return res
        if k == "ext":
            return f2d(self.ev_(fr, e[2]))
        if k == "neg":
            return self.ev_(fr, e[2]) ^ fpx.SIGN[t]
        if k == "call":
            return self.call(self.g.funs[e[2]], [self.ev_(fr, x) for x in e[3]])
        if k == "cmp":
            a, b = self.ev_(fr, e[3]), self.ev_(fr, e[4])
            c = relation(PRED[e[2]], a, b, t)
            if fr["on"] and "cmp" in self.kinds:
                c ^= self.salt >> 3 & 1
                self.emit(fr, CMP, t, a, b, 0, PRED[e[2]], c)
            return c
        if k == "cond":
            return self.ev_(fr, e[3]) if self.ev_(fr, e[2]) else self.ev_(fr, e[4])
        raise ValueError(k)

    def st(self, fr, ss):
        for s in ss:
            k = s[0]
            if k == "set":
                self.put(fr, s[2], self.ev_(fr, s[3]))
            elif k == "upd":
                b = self.ev_(fr, s[4])
                a = self.get(fr, s[2])
                self.put(fr, s[2], self.arith(fr, s[3], s[1], a, b))
            elif k == "aset":
                v = self.ev_(fr, s[3])
                self.A[s[1]][self.idx(fr, s[2])] = v
            elif k == "vset":
                t = s[1][1]
                fr[s[1][0]] = [self.arith(fr, s[2], t, a, b) for a, b in zip(fr[s[3][0]], fr[s[4][0]])]
            elif k == "lset":
                v = self.ev_(fr, s[3])
                fr[s[1][0]][s[2]] = v
            elif k == "if":
                self.st(fr, s[2] if self.ev_(fr, s[1]) else s[3])
            elif k == "for":
                old = fr["loop"]
                for i in range(s[1]):
                    fr["loop"] = i
                    self.st(fr, s[2])
                fr["loop"] = old
            elif k == "switch":
                self.st(fr, s[2][s[1]])

    def call(self, f, args):
        fr = {"on": self.inst(f), "loop": None, "x0f": self.A[0][0], "x1f": self.A[0][1], "x0d": self.A[1][0], "x1d": self.A[1][1]}
        for j, a in enumerate(args):
            fr["p%d" % j] = a
        for name, t, n in f["vec"]:
            fr[name] = [self.A[t][j % 8] for j in range(n)]
        self.st(fr, f["body"])
        return self.ev_(fr, f["result"])

    def run(self, rounds=1):
        def show(x, t):
            return "nan" if fpx.is_nan(x, t) else "%x" % x
        for k in range(rounds):
            for f in self.g.funs:
                args = [self.A[t][(j + k) % 8] for j, t in enumerate(f["params"])]
                self.out.append(show(self.call(f, args), f["ret"]))
        for i in range(8):
            self.out += [show(self.A[0][i], 0), show(self.A[1][i], 1)]
        self.out += [show(self.G["g0f"], 0), show(self.G["g0d"], 1)]
        return self.ev, "\n".join(self.out) + "\n"


def inputs(r):
    def one(t):
        k = r.random()
        if k < 0.8:
            return ((fpx.EMAX[t] + r.randint(-6, 6)) << fpx.MANT[t]) | r.getrandbits(fpx.MANT[t]) | (fpx.SIGN[t] if r.random() < 0.3 else 0)
        return fpx.gen_bits(r, t)
    def clean(x, t):
        return fpx.QNAN[t] if fpx.is_nan(x, t) else x
    return [[clean(one(t), t) for _ in range(9)] for t in (0, 1)]
