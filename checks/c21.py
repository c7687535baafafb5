#!/usr/bin/env python3
"""C21: the formats that a profile gives to a call site act on that call only."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
from concurrent.futures import ThreadPoolExecutor
import fgen, fpx, struct


def one(chk, pre, it, sd):
    r = random.Random(sd)
    prog = fgen.Prog(r)
    d = chk.tmp("p%d" % it)
    fgen.build(d, pre, prog, plain=False)
    bad, keys, tot = [], [], {}
    w, x = fgen.execute(d, pre, "vfc", "libinterflop_vprec.so --prec-output-file=%s/prof" % d)
    if x.rc != 0 or w is None:
        return ["the instrumented program ended with status %s: %s" % (x.rc, x.err[-200:])], keys, tot, ("profile", None)
    txt = open(d + "/prof").read()
    opt = None
    for k in range(5):
        es = fgen.parse_profile(txt)
        fgen.assign(r, es, r.choice((0.2, 0.7, 1)))
        r.shuffle(es)
        open(d + "/in", "w").write(fgen.write_profile(es))
        conf = {"mode": r.choice(("ib", "ob", "full", "full", "ieee")), "p": (r.randint(1, 23), r.randint(1, 52)), "r": (r.randint(2, 8), r.randint(2, 11))}
        if r.random() < 0.4:
            conf["p"], conf["r"] = (23, 52), (8, 11)
        if r.random() < 0.15:
            conf["daz"] = True
        if r.random() < 0.15:
            conf["ftz"] = True
        inst = r.choice(("all", "all", "arguments", "operations", "none"))
        opt = fgen.vp.option(conf) + " --instrument=%s --prec-input-file=%s/in" % (inst, d)
        if r.random() < 0.2:
            opt += " --prec-log-file=%s/trace" % d
        w, x = fgen.execute(d, pre, "vfc", opt)
        if x.rc != 0 or w is None:
            bad.append("[%s] the program ended with status %s: %s" % (opt, x.rc, x.err[-200:]))
            break
        b, cnt = fgen.replay(prog, fgen.events(prog, w), es, conf, inst)
        for c in cnt:
            tot[c] = tot.get(c, 0) + cnt[c]
        keys.append((conf["mode"], inst, min(cnt["operations"], 50) // 5, min(cnt["arguments"], 50) // 5))
        if b:
            bad += ["[%s] %s" % (opt.split(" ", 1)[1], y) for y in b]
            break
    src = "".join(open(d + "/t%d.c" % i).read() for i in range(prog.ntu)) + open(d + "/in").read() if bad else None
    shutil.rmtree(d)
    return bad, keys, tot, (opt, src)


CB = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <search.h>
#include <stdint.h>
static uint64_t LOG[100000][4]; static int nlog;
static double IN[64]; static int rin;
#define VAL (*(volatile double *)&IN[rin++ & 63])
#define OP(k) do { uint64_t x[3]; double a = VAL, b = VAL, c = a * b; memcpy(x, &a, 8); memcpy(x + 1, &b, 8); memcpy(x + 2, &c, 8);   if (nlog < 100000) { LOG[nlog][0] = k; LOG[nlog][1] = x[0]; LOG[nlog][2] = x[1]; LOG[nlog++][3] = x[2]; } } while (0)
__attribute__((noinline)) double tip(double x) { OP(3); return x; }
__attribute__((noinline)) double mid(double x) { OP(4); double y = tip(x); OP(4); return y; }
static int cmp(const void *p, const void *q) {
  OP(9); double y = CALL1(*(const double *)p); OP(9); if (TWICE) { y = tip(y); OP(9); }
  double z = *(const double *)q; return memcmp(&y, &z, 8) < 0 ? -1 : 1;
}
__attribute__((noinline)) double outer(double x) {
  OP(5); double t[N]; for (int i = 0; i < N; i++) t[i] = IN[i];
  LIB(t); OP(5); return x;
}
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "rb"); if (!f || fread(IN, 8, 64, f) != 64) return 3; fclose(f);
  OP(0); double r = outer(1.5); OP(0); r = mid(r); OP(0);
  double t[N]; for (int i = 0; i < N; i++) t[i] = IN[i]; LIB(t); OP(0);
  for (int i = 0; i < nlog; i++) printf("%lu %lx %lx %lx\n", LOG[i][0], LOG[i][1], LOG[i][2], LOG[i][3]);
  return 0;
}
"""


def callbacks(chk, pre, it, sd):
    """functions called back by a library function: it has no format of its own, that of its caller stays in force, also
    after the calls made by the callback"""
    r = random.Random(sd)
    d = chk.tmp("cb%d" % it)
    os.makedirs(d)
    lib = r.choice(("qsort(t, N, 8, cmp)", "size_t n_ = 6; lfind(&t[1], t, &n_, 8, cmp)"))
    open(d + "/t.c", "w").write(CB.replace("LIB(t);", "{ %s; }" % lib).replace("CALL1", r.choice(("tip", "mid"))).replace("TWICE", str(r.getrandbits(1))).replace("[N]", "[%d]" % 6).replace("< N", "< 6").replace("t, N", "t, 6"))
    fun = "qsort" if lib[0] == "q" else "lfind"
    vals = [fpx.ONE[1] | r.getrandbits(52) | r.getrandbits(1) << 63 for _ in range(64)]
    open(d + "/in.bin", "wb").write(struct.pack("<64Q", *vals))
    vfc_must(pre, ["--inst-func", "-g", r.choice(("-O0", "-O1")), "-ffp-contract=off", "t.c", "-o", "t"], cwd=d)
    x = run([d + "/t", "in.bin"], env=envof(pre, "libinterflop_vprec.so --prec-output-file=prof"), cwd=d)
    if x.rc:
        return ["callbacks: the program ended with status %s: %s" % (x.rc, x.err[-200:])], 0
    bad, n = [], 0
    for _ in range(3):
        es = fgen.parse_profile(open(d + "/prof").read())
        for e in es:
            e.p64 = r.randint(1, 50)
        open(d + "/in", "w").write(fgen.write_profile(es))
        opt = "libinterflop_vprec.so --mode=ob --instrument=operations --prec-input-file=in"
        x = run([d + "/t", "in.bin"], env=envof(pre, opt), cwd=d)
        if x.rc:
            bad.append("callbacks: the program ended with status %s: %s" % (x.rc, x.err[-200:]))
            break
        one_of = lambda *names: {e.p64 for e in es if e.name in names}
        mainp = one_of("main") or {52}
        # formats possible for each kind of operation; those of the callback: the function that called the library
        depth, prev = None, 0
        for l in x.out.split(b"\n")[:-1]:
            k, a, b, c = l.split()
            k, a, b, c = int(k), int(a, 16), int(b, 16), int(c, 16)
            if k == 0:
                fm, depth = mainp, "main"
            elif k == 5:
                fm, depth = one_of("outer"), "outer"
            elif k == 9:
                # (a function the compiler does not know as a library one has a format of its own)
                own = {e.p64 for e in es if e.name == fun and e.parent == depth and not int(e.lib)}
                fm = own or (mainp if depth == "main" else one_of("outer"))
            else:
                fm = one_of("tip" if k == 3 else "mid")
            n += 1
            if all(vp_check(a, b, c, q) for q in fm):
                bad.append("callbacks: an operation of %s (library called by %s) gives %s * %s = %s, not rounded to %s bits" % (
                    {0: "main", 5: "outer", 9: "the callback", 3: "tip", 4: "mid"}[k], depth, fpx.show(a, 1), fpx.show(b, 1), fpx.show(c, 1), sorted(fm)))
                break
        if bad:
            break
    src = open(d + "/t.c").read() + open(d + "/in").read() if bad and os.path.exists(d + "/in") else None
    shutil.rmtree(d)
    return [(b, src) for b in bad], n


def vp_check(a, b, c, p):
    return fgen.vp.check(MUL, 1, a, b, 0, c, {"mode": "ob", "p": (23, p), "r": (8, 11)})


def body(chk):
    pre = vbuild.build("std")
    with ThreadPoolExecutor(NPROC) as ex:
        m = chk.n(16, 100)
        sds = ["c21cb-%d-%d" % (chk.seed, i) for i in range(m)]
        for (bad, k), sd in zip(ex.map(lambda i: callbacks(chk, pre, i, sds[i]), range(m)), sds):
            chk.observe(k, ("callbacks", k % 7))
            chk.count("operations around callbacks", k)
            for b in bad[:1]:
                chk.violation(b[0] if isinstance(b, tuple) else b, {"scenario": sd, "source": b[1] if isinstance(b, tuple) else None})
    n = chk.n(120, 2000)
    seeds = ["c21-%d-%d" % (chk.seed, i) for i in range(n)]
    with ThreadPoolExecutor(NPROC) as ex:
        for (bad, keys, tot, (opt, src)), sd in zip(ex.map(lambda i: one(chk, pre, i, seeds[i]), range(n)), seeds):
            for k in keys:
                chk.observe(1, k)
            chk.count("programs")
            for k, v in tot.items():
                chk.count(k, v)
            for b in bad[:2]:
                chk.violation(b, {"scenario": sd, "backend": opt, "source": src})
            chk.sample({"scenario": sd, **tot})


run_check("C21", "random call graphs run with random formats for call sites and arguments: every operation, argument, return value and array element in the program's event log is checked against "
          "the VPREC oracle under the format in force there (stack of formats); distinct = mode x instrumentation x sizes", body,
          ["every call site of the profile has an entry", "arrays: local arrays, the others are not rounded by design"])
