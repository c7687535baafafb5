#!/usr/bin/env python3
"""C01: a program run on the plain IEEE backend behaves as if not instrumented."""
import sys, os
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, progen, random

PROGS = os.path.join(HARNESS, "progs")
INST = ["--inst-fma", "--inst-cast", "--inst-fcmp", "--inst-func"]
BASE = ["-ffp-contract=off", "-w"]


def options(r, lvl=None):
    o = [lvl or r.choice(("-O0", "-O1", "-O2", "-O3", "-Os"))]
    if r.random() < 0.35:
        o.append("-march=native")
    if r.random() < 0.3:
        o.append("-g")
    if r.random() < 0.15:
        o.append("-fno-math-errno")
    if r.random() < 0.15:
        o.append("-funroll-loops")
    if r.random() < 0.15:
        o.append("-fno-inline")
    if r.random() < 0.1:
        o.append("-mprefer-vector-width=512")
    return o


def instr(r):
    k = r.random()
    if k < 0.2:
        return []
    if k < 0.4:
        return INST[:3]
    return [x for x in INST if r.random() < (0.5 if x != "--inst-func" else 0.15)]


def be(r):
    return r.choice(("libinterflop_ieee.so", "libinterflop_ieee.so", "libinterflop_ieee.so --count-op", "libinterflop_ieee.so;libinterflop_ieee.so"))


def compare(chk, pre, d, cfg, plain, inst, r, args=(), stdin=b"", w=None, key=None):
    a = run([plain] + list(args), cwd=d, stdin=stdin, timeout=60)
    if a.timeout or a.rc is None:
        raise Inconclusive("plain program timed out")
    b = run([inst] + list(args), cwd=d, stdin=stdin, timeout=120, env=envof(pre, be(r)))
    if b.timeout:
        raise Hang("the instrumented program [%s]" % cfg)
    bad = []
    if a.rc != b.rc:
        bad.append(("[%s] exit status %s, native %s; %s" % (cfg, b.rc, a.rc, b.err[-200:].decode(errors="replace")), w, key))
    if a.out != b.out:
        x, y = a.out.split(b"\n"), b.out.split(b"\n")
        i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
        bad.append(("[%s] output line %d: %s, native %s" % (cfg, i + 1, y[i][:80] if i < len(y) else None, x[i][:80] if i < len(x) else None), w, key))
    return bad, a


def rand_prog(chk, pre, seed):
    r = random.Random(seed)
    opts = options(r)
    g = progen.Gen(r, nfun=r.randint(4, 8), vec=r.random() < 0.7, size=8)
    inp = progen.inputs(r)
    try:
        m = progen.Model(g, inp, 0, limit=15000)
        ev, out = m.run(2)
    except progen.Budget:
        return [], 0, []
    d = os.path.join(chk.work, "p%s" % seed)
    os.makedirs(d)
    try:
        k = r.randint(1, len(g.funs))
        for nm, fs in (("p.c", g.funs[:k]), ("q.c", g.funs[k:])):
            with open(d + "/" + nm, "w") as f:
                f.write(g.unit(fs))
        with open(d + "/main.c", "w") as f:
            f.write(g.main_text(inp, 2))
        ins = instr(r)
        fl = opts + BASE
        must([CLANG] + fl + ["main.c", "p.c", "q.c", "-o", "plain", "-lm"], cwd=d)
        style = r.randrange(3)
        if style == 0:      # one command
            vfc_must(pre, ins + fl + ["main.c", "p.c", "q.c", "-o", "inst", "-lm"], cwd=d)
        elif style == 1:    # separate compilation
            for x in "main", "p", "q":
                vfc_must(pre, ins + fl + ["-c", x + ".c", "-o", x + ".o"], cwd=d)
            vfc_must(pre, ins + ["main.o", "p.o", "q.o", "-o", "inst", "-lm"], cwd=d)
        else:               # mixed with native objects
            vfc_must(pre, ins + fl + ["-c", "p.c", "main.c"], cwd=d)
            must([CLANG] + fl + ["-c", "q.c", "-o", "q.o"], cwd=d)
            vfc_must(pre, ins + ["q.o", "p.o", "main.o", "-o", "inst", "-lm"], cwd=d)
        cfg = "random program, %s %s, link style %d" % (" ".join(opts), " ".join(ins), style)
        bad, a = compare(chk, pre, d, cfg, d + "/plain", d + "/inst", r, w={"seed": str(seed), "options": opts + ins})
        if a.out.decode() != out and opts[0] == "-O0":
            bad.append(("[%s] native output differs from the exact model" % cfg, {"seed": str(seed)}, None))
        return bad, len(ev), [(opts[0], tuple(ins), e[0], e[1]) for e in set((x[0], x[1]) for x in ev)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fixed_prog(chk, pre, seed, name):
    r = random.Random(seed)
    d = os.path.join(chk.work, "f%s" % seed)
    os.makedirs(d)
    try:
        cpp = name.endswith(".cpp")
        shutil.copy2(os.path.join(PROGS, name), d)
        opts = options(r)
        if name == "intr.c" and "-march=native" not in opts:
            opts.append("-march=native")
        ins = instr(r)
        fl = opts + BASE
        lib = ["-lm", "-lpthread"]
        must([vbuild.CLANGXX if cpp else CLANG] + fl + [name, "-o", "plain"] + lib, cwd=d)
        vfc_must(pre, ins + fl + [name, "-o", "inst"] + lib, cwd=d, lang="c++" if cpp else "c")
        args, stdin = [], b""
        if r.random() < 0.5:
            args = [r.choice(("x", "a b", "*", "$HOME"))]
        if name == "life.c":
            stdin = bytes(r.getrandbits(8) for _ in range(r.randint(0, 300)))
        cfg = "%s, %s %s" % (name, " ".join(opts), " ".join(ins))
        bad, a = compare(chk, pre, d, cfg, d + "/plain", d + "/inst", r, args, stdin, {"program": name, "options": opts + ins})
        return bad, a.out.count(b"\n"), [(name, opts[0], tuple(ins))]
    finally:
        shutil.rmtree(d, ignore_errors=True)


LIB = """double lib_f(double x, float y) { double s = x; for (int i = 0; i < 5; i++) s = s * 1.1 - y / (i + 1.5f); return s; }
static double st = 0.25; double lib_g(void) { st = st * 3.0 + 0.1; return st; }
"""
LMAIN = """#include <stdio.h>
#include <dlfcn.h>
double lib_f(double, float), lib_g(void);
int main(int argc, char **argv) {
#ifdef DYN
  void *h = dlopen("./libt.so", RTLD_NOW); if (!h) { puts(dlerror()); return 9; }
  double (*f)(double, float) = dlsym(h, "lib_f"), (*g)(void) = dlsym(h, "lib_g");
#else
  double (*f)(double, float) = lib_f, (*g)(void) = lib_g;
#endif
  double a = 0; for (int i = 0; i < 6; i++) { a = a + f(i * 0.3, 0.7f * i) / g(); printf("%a\\n", a); }
  return a > 0 ? 4 : 5;
}
"""


def shared(chk, pre, seed, kind):
    """instrumented shared library and archive, instrumented or native main"""
    r = random.Random(seed)
    d = os.path.join(chk.work, "s%s" % seed)
    os.makedirs(d + "/n")
    try:
        for q in d, d + "/n":
            with open(q + "/lib.c", "w") as f:
                f.write(LIB)
            with open(q + "/main.c", "w") as f:
                f.write(LMAIN)
        opts = [r.choice(("-O0", "-O2"))] + BASE
        if kind == "archive":
            vfc_must(pre, opts + ["-c", "lib.c", "-o", "lib.o"], cwd=d)
            must(["ar", "rcs", "libt.a", "lib.o"], cwd=d)
            vfc_must(pre, opts + ["main.c", "libt.a", "-o", "inst"], cwd=d)
            must([CLANG] + opts + ["main.c", "lib.c", "-o", "n/plain"], cwd=d)
        else:
            dyn = ["-DDYN"] if kind == "dlopen" else []
            lnk = ["-ldl"] if dyn else ["-L.", "-lt", "-Wl,-rpath," + d, "-ldl"]
            vfc_must(pre, opts + ["-fPIC", "-shared", "lib.c", "-o", "libt.so"], cwd=d)
            vfc_must(pre, opts + dyn + ["main.c", "-o", "inst"] + lnk, cwd=d)
            must([CLANG] + opts + ["-fPIC", "-shared", "lib.c", "-o", "libt.so"], cwd=d + "/n")
            must([CLANG] + opts + dyn + ["main.c", "-o", "plain"] + [x.replace(d, d + "/n") for x in lnk], cwd=d + "/n")
        a = run(["./plain"], cwd=d + "/n", timeout=60)
        b = run(["./inst"], cwd=d, timeout=60, env=envof(pre, "libinterflop_ieee.so"))
        cfg = "%s library, %s" % (kind, opts[0])
        bad = []
        if (a.rc, a.out) != (b.rc, b.out):
            bad.append(("[%s] status %s output %s..., native %s %s...; %s" % (cfg, b.rc, b.out[:60], a.rc, a.out[:60], b.err[-150:]), {"kind": kind}, None))
        return bad, 6, [("library", kind, opts[0])]
    finally:
        shutil.rmtree(d, ignore_errors=True)


VBV = """#include <stdio.h>
typedef double d4 __attribute__((ext_vector_type(4)));
__attribute__((noinline)) d4 g(d4 a, d4 b) { return a * b; }
int main(void) { d4 b; for (int i = 0; i < 4; i++) b[i] = i + 1; b = g(b, b); for (int i = 0; i < 4; i++) printf("%a ", b[i]); puts(""); return 0; }
"""


def by_value(chk, pre):
    """vectors wider than the registers of the selected target, passed by value between functions"""
    d = chk.tmp("vbv")
    os.makedirs(d)
    with open(d + "/v.c", "w") as f:
        f.write(VBV)
    for opts, key in ((["-O0"], "vector-by-value-default-target"), (["-O0", "-march=native"], None), (["-O2", "-mavx2"], None)):
        fl = opts + BASE
        must([CLANG] + fl + ["v.c", "-o", "plain"], cwd=d)
        vfc_must(pre, fl + ["v.c", "-o", "inst"], cwd=d)
        bad, a = compare(chk, pre, d, "four doubles by value, %s" % " ".join(opts), d + "/plain", d + "/inst", chk.rng, w={"program": VBV}, key=key)
        for b in bad:
            chk.violation(*b)
        chk.observe(4, ("by value", tuple(opts)))


def body(chk):
    pre = vbuild.build("std")
    r = chk.rng
    jobs = []
    for name in sorted(x for x in os.listdir(PROGS) if x.endswith((".c", ".cpp"))):
        for k in range(chk.n(5, 60)):
            jobs.append((fixed_prog, r.getrandbits(40), name))
    for kind in ("shared", "dlopen", "archive"):
        jobs.append((shared, r.getrandbits(40), kind))
    for k in range(chk.n(55, 900)):
        jobs.append((rand_prog, r.getrandbits(40)))
    with ThreadPoolExecutor(NPROC) as ex:
        for bad, n, keys in ex.map(lambda j: j[0](chk, pre, *j[1:]), jobs):
            chk.observe(n)
            chk.distinct.update(keys)
            chk.count("programs")
            for w in bad:
                chk.violation(*w)
            if keys:
                chk.sample(list(keys)[0])
    by_value(chk, pre)


run_check("C01", "random multi-file C programs and fixed C and C++ programs (kernels, vectors of all widths, intrinsics, exceptions, threads, constructors and destructors, fork, "
          "signals, varargs, half and extended types, shared and static libraries), each built by the plain and by the instrumenting compiler with the same random options "
          "and random instrumentation options; output bytes and exit status compared; distinct = program or operation x level x instrumentation", body,
          ["contraction of a*b+c by the compiler is off: otherwise the options alone do not fix the result", "NaN signs and payloads are not compared"])
