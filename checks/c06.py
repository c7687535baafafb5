#!/usr/bin/env python3
"""C06: chained backends all see every event, in order, and the last one decides."""
import sys, os
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
from monlog import *
import fpx, progen, workload, random

USER_ID = {SETP32: 2, SETP64: 3, SETR32: 4, SETR64: 5}
REAL = [("libinterflop_ieee.so", "ieee"), ("libinterflop_vprec.so --precision-binary64=20 --precision-binary32=11", "vprec"), ("libinterflop_mca.so --mode=rr", "mca"),
        ("libinterflop_mca_int.so --seed=3", "mca_int"), ("libinterflop_bitmask.so --precision-binary64=30", "bitmask"), ("libinterflop_cancellation.so", "cancellation")]


def operations(r, n, fcmp):
    recs = []
    while len(recs) < n:
        k = r.random()
        t = r.randint(0, 1)
        if k < 0.45:
            a, b = fpx.gen_pair(r, t)
            recs.append(rec(r.choice((ADD, SUB, MUL, DIV)), t, a, b))
        elif k < 0.55:
            recs.append(rec(FMA, t, *workload.gen_fma(r, t)))
        elif k < 0.62:
            recs.append(rec(CAST, 1, workload.gen_castval(r)))
        elif k < 0.72 and fcmp:
            a, b = fpx.gen_pair(r, t)
            recs.append(rec(CMP, t, a, b, aux=r.randint(1, 14)))
        elif k < 0.76 and fcmp:
            w, p = r.randint(0, 3), r.randint(1, 14)
            for _ in range(2 << w):
                a, b = fpx.gen_pair(r, t)
                recs.append(rec(VCMP, t, a, b, aux=w | p << 4))
        elif k < 0.85:
            w, o = r.randint(0, 3), r.choice((VADD, VSUB, VMUL, VDIV))
            for _ in range(2 << w):
                a, b = fpx.gen_pair(r, t)
                recs.append(rec(o, t, a, b, aux=w))
        elif k < 0.93:
            recs.append(rec(r.choice((SETP32, SETP64, SETR32, SETR64)), 0, iarg=r.randint(2, 8)))
        else:
            recs.append(rec(INEXACT, t, fpx.gen_bits(r, t), iarg=r.randint(1, 20)))
    return recs


def chain(r, mon, most):
    """list of (token, kind, salt, drop)"""
    n = r.choice((1, 2, 2, 3, 3, 4, 5, 8, 16)) if most else r.choice((2, 3, 4))
    out = []
    nmon = 0
    for _ in range(n):
        if nmon and r.random() < 0.3:
            tok, kind = r.choice(REAL)
            out.append((tok, kind, 0, 0))
        else:
            salt = r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13))
            drop = 0
            if r.random() < 0.6:
                for b in range(11):
                    if r.random() < 0.3:
                        drop |= 1 << b
                for b in list(range(16, 21)) + [22] + list(range(24, 29)) + [30]:
                    if r.random() < 0.15:   # for one of the types only
                        drop |= 1 << b
            toks = ["--salt=%d" % salt, "--drop=%d" % drop] + ["--opt%d=%s" % (j, "x" * r.choice((0, 1, 5, 23, 24, 60))) for j in range(r.choice((0, 0, 1, 3, 10)))]
            r.shuffle(toks)
            out.append((r.choice((" ", "  ")).join([mon] + toks), "mon", salt, drop))
            nmon += 1
    return out


def has(c, op, t=None):
    """does backend c implement op (monitor numbering) for the type t"""
    if c[1] == "mon":
        return not (c[3] >> op & 1 or t is not None and op != M_CAST and c[3] >> (op + (16, 24)[t]) & 1)
    if op == M_CMP:
        return c[1] == "ieee"
    if op in (M_USER,):
        return c[1] in ("vprec", "mca", "mca_int")
    return True


def missing(ch, fcmp):
    return [(op, t) for op in (M_ADD, M_SUB, M_MUL, M_DIV, M_FMA, M_CAST) + ((M_CMP,) if fcmp else ()) for t in (0, 1) if not any(has(c, op, t) for c in ch)]


def ops_run(chk, pre, drv, mon, seed, fcmp, k):
    r = random.Random(seed)
    ch = chain(r, mon, True)
    for _ in range(20):
        if not missing(ch, fcmp):
            break
        ch = chain(r, mon, True)
    recs = operations(r, r.choice((40, 150, 400)), fcmp)
    log = chk.tmp("log%d" % k)
    spec = ";".join(c[0] for c in ch)
    env = envof(pre, spec, VERIF_LOG=log)
    src = r.randrange(3)
    if src:   # from a file, with and without a final newline
        with open(chk.tmp("be%d" % k), "w") as f:
            f.write(spec + ("\n" if src == 1 else ""))
        env = envof(pre, None, VERIF_LOG=log, VFC_BACKENDS_FROM_FILE=chk.tmp("be%d" % k))
    elif r.random() < 0.5:   # VFC_BACKENDS has priority over the file
        env["VFC_BACKENDS_FROM_FILE"] = "/nonexistent/file"
    out, res = drive(chk, drv, pre, None, recs, env=env, tag=str(k))
    cfg = "%d backends: %s" % (len(ch), [(c[1], c[2], hex(c[3])) for c in ch])
    w = {"seed": str(seed), "backends": spec, "records": recs[:20]}
    bad = []
    miss = missing(ch, fcmp)
    ev = read(log) if os.path.exists(log) else []
    if miss:
        if out is not None or res.rc == 0 or any(e["op"] <= M_USER for e in ev):
            bad.append(("[%s] no backend implements %s: the program must be stopped before it runs" % (cfg, miss), w))
        return bad, 1, [("missing", m) for m in miss]
    if res.timeout:
        raise Hang("driver timed out")
    if out is None:
        bad.append(("[%s] the program failed with status %s: %s" % (cfg, res.rc, res.err[-300:]), w))
        return bad, 1, []
    mons = [c for c in ch if c[1] == "mon"]
    # expected start: per instance pre_init, its own argv, init
    want = []
    for i, c in enumerate(mons):
        want.append(("pre", i))
        want += [("cli", i, len(c[0].split()), j, a) for j, a in enumerate(c[0].split())]
        want.append(("init", i))
    results = []
    for q in recs:
        op, t, aux, iarg, a, b, c3 = q
        if op in (SETP32, SETP64, SETR32, SETR64):
            want += [("user", i, USER_ID[op], iarg) for i, c in enumerate(mons) if has(c, M_USER)]
            results.append(0)
            continue
        if op == INEXACT:
            val, known, i = a, True, 0
            for c in ch:
                if c[1] != "mon":
                    known = known and not has(c, M_USER)
                    continue
                if has(c, M_USER):
                    want.append(("inexact", i, t, iarg, canon(val, t) if known else None))
                    val = val if fpx.is_nan(val, t) else progen.tweak(val, t, c[2])
                i += 1
            results.append(canon(val, t) if known else None)
            continue
        mop, pred = op, 0
        if VADD <= op <= VDIV:
            mop = op - VADD + ADD
        if op in (CMP, VCMP):
            mop, pred = M_CMP, aux if op == CMP else aux >> 4
        i, val = 0, None
        for c in ch:
            if c[1] == "mon":
                if has(c, mop, t):
                    if mop == M_CMP:
                        val = progen.relation(pred, a, b, t) ^ (c[2] >> 3 & 1)
                        want.append(("cmp", i, t, pred, canon(a, t), canon(b, t), val))
                    else:
                        ex = progen.nn(fpx.cast32(a) if mop == CAST else fpx.ieee(mop, t, a, b, c3), 0 if mop == CAST else t)
                        rt = 0 if mop == CAST else t
                        val = canon(ex if fpx.is_nan(ex, rt) else progen.tweak(ex, rt, c[2]), rt)
                        want.append(("op", i, mop, t, canon(a, t), canon(b, t) if mop != CAST else 0, canon(c3, t) if mop == FMA else 0, val))
                i += 1
            elif has(c, mop, t):
                val = None
                if c[1] == "ieee":
                    val = progen.relation(pred, a, b, t) if mop == M_CMP else canon(progen.nn(fpx.cast32(a) if mop == CAST else fpx.ieee(mop, t, a, b, c3), 0 if mop == CAST else t), 0 if mop == CAST else t)
        results.append(val)
    want += [("final", i) for i, c in enumerate(mons) if has(c, M_FINAL)]
    got = []
    for e in ev:
        o, i = e["op"], e["inst"]
        if o == M_CLI:
            got.append(("cli", i, e["aux"], e["type"], e["s"]))
        elif o == M_PREINIT:
            got.append(("pre", i))
        elif o == M_INIT:
            got.append(("init", i))
        elif o == M_FINAL:
            got.append(("final", i))
        elif o == M_USER:
            if e["aux"] in (2, 3, 4, 5):
                got.append(("user", i, e["aux"], e["a"]))
            else:
                t = e["type"]
                got.append(("inexact", i, t, e["b"], canon(e["a"], t)))
        elif o == M_CMP:
            got.append(("cmp", i, e["type"], e["aux"], canon(e["a"], e["type"]), canon(e["b"], e["type"]), e["res"]))
        else:
            t = e["type"]
            got.append(("op", i, o, t, canon(e["a"], t), canon(e["b"], t), canon(e["c"], t), canon(e["res"], 0 if o == CAST else t)))
    def same(g, x):
        return g == x or (x[0] == "inexact" and g[:4] == x[:4] and x[4] is None)
    i = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or not same(got[i], want[i])), None)
    if i is not None:
        bad.append(("[%s] event %d (of %d, expected %d): got %s, expected %s" % (cfg, i, len(got), len(want), got[i] if i < len(got) else None, want[i] if i < len(want) else None), w))
    for j, (q, g, x) in enumerate(zip(recs, out, results)):
        if x is None:
            continue
        rt = 0 if q[0] == CAST else q[1]
        g = g if q[0] in (CMP, VCMP) else canon(g, rt)
        if g != x:
            bad.append(("[%s] operation %d %s: the program got %s, the last backend stored %s" % (cfg, j, OPNAME[q[0]], g, x), w))
            break
    return bad, len(want), [(len(ch), tuple(c[1] for c in ch)[:4], x[0], x[1]) for x in want]


FPROG = r"""
#include <stdlib.h>
#include <stdio.h>
#include <pthread.h>
__attribute__((noinline)) float leaf(float x) { return x * 2.0f; }
__attribute__((noinline)) double mid(double y, int k, float z) { return y + leaf(z) * k; }
__attribute__((noinline)) void arr(double *p, int n) { for (int i = 0; i < n; i++) p[i] = p[i] - 1.0; }
__attribute__((noinline)) int noflt(int a) { return a + 1; }
__attribute__((noinline)) double rec_(double x, int n) { if (n == 0) return x; return rec_(x / 2.0, n - 1); }
__attribute__((noinline)) void quit_(double x) { if (x > 0) exit(7); }
static void *th(void *p) { exit(9); }
int main(int argc, char **argv) {
  double t[3] = {1.5, 2.5, 3.5};
  int how = atoi(argv[1]), n = atoi(argv[2]);
  for (int i = 0; i < n; i++) { t[0] = mid(t[1], noflt(i), 0.5f); arr(t, 3); t[2] = rec_(t[2], i % 3); }
  printf("%a %a %a\n", t[0], t[1], t[2]); fflush(stdout);
  if (how == 1) exit(5);
  if (how == 2) quit_(1.0);
  if (how == 3) { pthread_t q; pthread_create(&q, 0, th, 0); pthread_join(q, 0); }
  return 3;
}
"""


def func_runs(chk, pre, mon):
    """entry and exit events, their arguments, and the end of the program, on every kind of exit"""
    r = chk.rng
    d = chk.tmp("fn")
    os.makedirs(d)
    with open(d + "/fn.c", "w") as f:
        f.write(FPROG)
    vfc_must(pre, ["--inst-func", "-O0", "-w", "fn.c", "-o", "fn", "-lpthread"], cwd=d)
    for k in range(chk.n(24, 240)):
        ch = [c for c in chain(r, mon, True)]
        while missing(ch, False):
            ch = chain(r, mon, True)
        how, n = r.randint(0, 3), r.randint(0, 4)
        log = chk.tmp("flog%d" % k)
        res = run([d + "/fn", str(how), str(n)], env=envof(pre, ";".join(c[0] for c in ch), VERIF_LOG=log), cwd=d, timeout=60)
        cfg = "function events, %d backends: %s, exit kind %d" % (len(ch), [(c[1], c[2], hex(c[3])) for c in ch], how)
        w = {"backends": [c[0] for c in ch], "argv": [how, n]}
        if res.timeout:
            raise Hang("timed out")
        if res.rc != (3, 5, 7, 9)[how]:
            chk.violation("[%s] exit status %s, expected %d: %s" % (cfg, res.rc, (3, 5, 7, 9)[how], res.err[-200:]), w)
            continue
        ev = read(log)
        mons = [c for c in ch if c[1] == "mon"]
        # per event, the instances that saw it
        seq = {}
        for op, nm in ((M_ENTER, "enter"), (M_EXIT, "exit")):
            for i in range(len(mons)):
                l = [(e["s"], e["type"], e["aux"]) for e in ev if e["op"] == op and e["inst"] == i]
                if not has(mons[i], op):
                    if l:
                        chk.violation("[%s] instance %d does not implement %s but was called" % (cfg, i, nm), w)
                    continue
                seq[(nm, i)] = l
        for nm in ("enter", "exit"):
            ls = [v for (a, i), v in sorted(seq.items()) if a == nm]
            if ls and any(x != ls[0] for x in ls):
                chk.violation("[%s] the instances did not see the same %s events: %s" % (cfg, nm, [len(x) for x in ls]), w)
            if ls:
                names = [s.split("/")[2] for s, _, _ in ls[0] if s.split("/")[2] in ("main", "leaf", "mid", "arr", "noflt", "rec_", "quit_")]
                want = expected(how, n, nm)
                if names != want:
                    chk.violation("[%s] %s events: %s, the program made %s" % (cfg, nm, names, want), w)
        # arguments: read from the start by every backend, identical for all up to the values
        args = {}
        cur = {}
        for e in ev:
            i = e["inst"]
            if e["op"] in (M_ENTER, M_EXIT):
                cur[i] = (e["op"], len([1 for q in args.setdefault(i, []) if q[0] == e["op"]]))
                args[i].append((e["op"], e["s"], []))
            elif e["op"] == M_ARG:
                args[i][-1][2].append((e["type"], e["a"], e["b"]))
        for op in (M_ENTER, M_EXIT):
            ls = [[q for q in args.get(i, []) if q[0] == op] for i, c in enumerate(mons) if has(c, op)]
            if ls and any(x != ls[0] for x in ls):
                chk.violation("[%s] the backends did not receive the same arguments at function %s" % (cfg, "entry" if op == M_ENTER else "exit"), w)
        for op in (M_ENTER, M_EXIT):
            order = [i for i, c in enumerate(mons) if has(c, op)]
            seen = [e["inst"] for e in ev if e["op"] == op]
            if order and seen != order * (len(seen) // len(order)):
                chk.violation("[%s] function events are not delivered to all the backends in the order of the configuration" % cfg, w)
        fin = [e["inst"] for e in ev if e["op"] == M_FINAL]
        if fin != [i for i, c in enumerate(mons) if has(c, M_FINAL)]:
            chk.violation("[%s] finalised instances %s, expected each once in order" % (cfg, fin), w)
        idx = [k for k, e in enumerate(ev) if e["op"] == M_FINAL]
        if idx and any(e["op"] <= M_EXIT for e in ev[idx[0]:]):
            chk.violation("[%s] events after the end of the program" % cfg, w)
        chk.observe(len(ev), ("func", how, len(ch), n))
        chk.count("function events", sum(1 for e in ev if e["op"] in (M_ENTER, M_EXIT)))


def expected(how, n, nm):
    """names of the instrumented calls in order; functions without floating point are not reported"""
    out = []
    def call(name, *inner):
        if nm == "enter":
            out.append(name)
        for f in inner:
            f()
        if nm == "exit":
            out.append(name)
    def rec_(k):
        call("rec_", *([lambda: rec_(k - 1)] if k else []))
    def main():
        for i in range(n):
            call("mid", lambda: call("leaf"))
            call("arr")
            rec_(i % 3)
        if how == 2:
            if nm == "enter":
                out.append("quit_")
            raise SystemExit
        if how in (1, 3):
            raise SystemExit
    if nm == "enter":
        out.append("main")
    try:
        main()
        if nm == "exit":
            out.append("main")
    except SystemExit:
        pass
    return out


LIBSRC = r"""
double NAME(double x) { return x * %(k)d.5 %(call)s; }
float NAMEf(float x) { return x - %(k)d.25f; }
#ifdef LIFE
extern volatile double life%(n)s;
volatile double life%(n)s = 100.0;
__attribute__((constructor)) static void begin_(void) { life%(n)s = life%(n)s + %(k)d.0; }
__attribute__((destructor)) static void end_(void) { life%(n)s = life%(n)s / %(k)d.0; }
#endif
"""
LIBMAIN = r"""
#include <stdio.h>
#include <stdlib.h>
#include <dlfcn.h>
#ifdef DYN
static double call1(const char *l, const char *f, double x, int close_) {
  void *h = dlopen(l, FLAGS); if (!h) { puts(dlerror()); exit(9); }
  double (*p)(double) = (double (*)(double))dlsym(h, f); x = p(x); if (close_) dlclose(h); return x; }
static float call2(const char *l, const char *f, float x, int close_) {
  void *h = dlopen(l, FLAGS); if (!h) { puts(dlerror()); exit(9); }
  float (*p)(float) = (float (*)(float))dlsym(h, f); x = p(x); if (close_) dlclose(h); return x; }
#define la(x) call1("./libla.so", "la", x, cl)
#define lb(x) call1("./liblb.so", "lb", x, cl)
#define laf(x) call2("./libla.so", "laf", x, cl)
#define lbf(x) call2("./liblb.so", "lbf", x, cl)
#else
double la(double), lb(double); float laf(float), lbf(float);
#endif
int main(int argc, char **argv) {
  volatile double x = 3.0; volatile float y = 7.0f; int n = atoi(argv[1]), cl = atoi(argv[2]);
  for (int i = 0; i < n; i++) { x = la(x) / 4.0; y = laf(y) + 2.0f; x = lb(x) - 1.0; y = lbf(y) * 0.75f; }
  printf("%a %a\n", x, y);
  if (argc > 3) exit(4);
  return 2;
}
"""


def lib_runs(chk, pre, mon):
    """the program and its shared libraries all instrumented: one delivery of each event, one end for each backend instance"""
    r = random.Random(chk.seed * 7 + 5)
    OPT = [[], ["--inst-func"], ["--ddebug"], ["--inst-fma"], ["--inst-cast"]]
    builds = []
    todo = [("linked", [], [], []), ("linked", [], ["--inst-func"], ["--inst-func"]), ("linked", [], [], ["--inst-func"]), ("linked", [], ["--ddebug"], ["--ddebug"])]
    todo += [(r.choice(("linked", "linked", "dlopen", "rdynamic", "native", "nativeglobal")), r.choice(OPT), r.choice(OPT), r.choice(OPT)) for _ in range(chk.n(8, 40))]
    def make(j):
        k, (kind, oa, ob, om) = j
        d = chk.tmp("lib%d" % k)
        os.makedirs(d + "/n")
        chain_ = k % 2 == 1   # la calls lb
        life = k % 3 != 0
        for nm, num in (("la", 3), ("lb", 5)):
            src = LIBSRC % {"k": num, "n": nm, "call": "+ lb(x)" if nm == "la" and chain_ else ""}
            src = src.replace("NAME", nm)
            if chain_ and nm == "la":
                src = "double lb(double);\n" + src
            with open("%s/%s.c" % (d, nm), "w") as f:
                f.write(src)
        with open(d + "/main.c", "w") as f:
            f.write(LIBMAIN)
        lf = ["-DLIFE"] if life else []
        mf = [] if kind == "linked" else ["-DDYN", "-DFLAGS=RTLD_NOW" + ("|RTLD_GLOBAL" if kind == "nativeglobal" else "")]
        dep = ["-Wl,-rpath,$ORIGIN", "-L.", "-Wl,--no-as-needed", "-llb"]
        vfc_must(pre, ob + lf + ["-O0", "-w", "-ffp-contract=off", "-fPIC", "-shared", "lb.c", "-o", "liblb.so"], cwd=d)
        vfc_must(pre, oa + lf + ["-O0", "-w", "-ffp-contract=off", "-fPIC", "-shared", "la.c", "-o", "libla.so"] + (dep if chain_ else []), cwd=d)
        must([CLANG] + lf + ["-O0", "-w", "-ffp-contract=off", "-fPIC", "-shared", "../lb.c", "-o", "liblb.so"], cwd=d + "/n")
        must([CLANG] + lf + ["-O0", "-w", "-ffp-contract=off", "-fPIC", "-shared", "../la.c", "-o", "libla.so"] + (dep if chain_ else []), cwd=d + "/n")
        ml = (["-Wl,-rpath,$ORIGIN", "-L.", "-lla", "-llb"] if kind == "linked" else []) + (["-rdynamic"] if kind == "rdynamic" else []) + ["-ldl"]
        if kind.startswith("native"):
            must([CLANG] + mf + ["-O0", "-w", "main.c", "-o", "m"] + ml, cwd=d)
        else:
            vfc_must(pre, om + mf + ["-O0", "-w", "main.c", "-o", "m"] + ml, cwd=d)
        must([CLANG] + mf + ["-O0", "-w", "../main.c", "-o", "m"] + ml, cwd=d + "/n")
        return d, kind, oa, ob, om, chain_, life
    with ThreadPoolExecutor(NPROC) as ex:
        builds = list(ex.map(make, enumerate(todo)))
    for d, kind, oa, ob, om, chain_, life in builds:
        for q in range(chk.n(3, 8)):
            n, cl = r.randint(1, 3), r.randint(0, 1)
            nb = r.choice((1, 2, 3))
            argv = [str(n), str(cl)] + (["x"] if r.random() < 0.4 else [])
            log = "%s/log%d" % (d, q)
            spec = ";".join("%s --salt=0 --drop=0 --pos=%d" % (mon, j) for j in range(nb))
            res = run([d + "/m"] + argv, env=envof(pre, spec, VERIF_LOG=log), cwd=d, timeout=60)
            ref = run([d + "/n/m"] + argv, cwd=d + "/n", timeout=60)
            cfg = "instrumented libraries, %s, options %s/%s, program %s, %d backends, %s" % (kind, oa, ob, om, nb, argv)
            w = {"kind": kind, "la": oa, "lb": ob, "main": om, "chained": chain_, "life": life, "argv": argv}
            if res.timeout:
                raise Hang("timed out")
            if (res.rc, res.out) != (ref.rc, ref.out):
                chk.violation("[%s] status %s and output %r, those of the plain program are %s and %r: %s" % (cfg, res.rc, res.out[-80:], ref.rc, ref.out[-80:], res.err[-200:]), w)
                continue
            ev = read(log)
            pos, per, cur = {}, {}, []
            for e in ev:
                per.setdefault(e["inst"], []).append(e)
                if e["op"] == M_CLI and e["s"].startswith("--pos="):
                    pos[e["inst"]] = int(e["s"][6:])
            for i, l in per.items():
                ops = [e["op"] for e in l]
                if i not in pos or ops.count(M_PREINIT) != 1 or ops.count(M_INIT) != 1:
                    chk.violation("[%s] instance %d is not started exactly once" % (cfg, i), w)
                elif ops.count(M_FINAL) != 1 or ops[-1] != M_FINAL:
                    chk.violation("[%s] instance %d is finalised %d times, last event %d" % (cfg, i, ops.count(M_FINAL), ops[-1]), w)
            seqs = [[(e["op"], e["type"], e["a"], e["b"], e["res"]) for e in ev if e["op"] <= M_CAST and pos.get(e["inst"]) == j] for j in range(nb)]
            if any(x != seqs[0] for x in seqs):
                chk.violation("[%s] the backends did not see the same operations: %s" % (cfg, [len(x) for x in seqs]), w)
            order = [pos.get(e["inst"]) for e in ev if e["op"] <= M_CAST]
            if order != list(range(nb)) * (len(order) // nb):
                chk.violation("[%s] operations are not delivered in the order of the configuration" % cfg, w)
            # the operations the sources contain, a library's own ones at its load and unload included
            x, y, want = 3.0, 7.0, []
            nat = kind.startswith("native")
            f = lambda v, t: fpx.f2b(v, t)
            def op(o, t, a, b, v, lib=True):
                if lib or not nat:
                    want.append((o, t, f(a, t), f(b, t), f(v, t)))
                return v
            for _ in range(n):
                p = op(M_MUL, 1, x, 3.5, x * 3.5)
                if chain_:
                    p = op(M_ADD, 1, p, op(M_MUL, 1, x, 5.5, x * 5.5), p + x * 5.5)
                x = op(M_DIV, 1, p, 4.0, p / 4.0, False)
                z = op(M_SUB, 0, y, 3.25, fpx.b2f(fpx.f2b(y - 3.25, 0), 0))
                y = op(M_ADD, 0, z, 2.0, fpx.b2f(fpx.f2b(z + 2.0, 0), 0), False)
                x = op(M_SUB, 1, (op(M_MUL, 1, x, 5.5, x * 5.5)), 1.0, x * 5.5 - 1.0, False)
                z = op(M_SUB, 0, y, 5.25, fpx.b2f(fpx.f2b(y - 5.25, 0), 0))
                y = op(M_MUL, 0, z, 0.75, fpx.b2f(fpx.f2b(z * 0.75, 0), 0), False)
            isl = lambda e: e[1] == 1 and (e[2] == f(100.0, 1) or e[0] == M_DIV and e[3] in (f(3.0, 1), f(5.0, 1)))
            got = [e for e in seqs[0] if not isl(e)]
            if got != want:
                i = next(i for i in range(len(got) + 1) if i >= len(got) or i >= len(want) or got[i] != want[i])
                chk.violation("[%s] operation %d of %d (the program makes %d): %s, expected %s" % (cfg, i, len(got), len(want), got[i] if i < len(got) else None, want[i] if i < len(want) else None), w)
            lv = [e for e in seqs[0] if isl(e)]
            ad, dv = [e for e in lv if e[0] == M_ADD], [e for e in lv if e[0] == M_DIV]
            if sorted(e[4] for e in ad) != sorted(e[2] for e in dv) or bool(ad) != life or {e[3] for e in ad} != ({f(3.0, 1), f(5.0, 1)} if life else set()):
                chk.violation("[%s] operations at the load and unload of the libraries: %d and %d, %d libraries" % (cfg, len(ad), len(dv), 2), w)
            ent, exi = [e for e in ev if e["op"] == M_ENTER], [e for e in ev if e["op"] == M_EXIT]
            if len(argv) < 3 and sorted((pos.get(e["inst"]), e["s"]) for e in ent) != sorted((pos.get(e["inst"]), e["s"]) for e in exi):
                chk.violation("[%s] function entries and exits do not match: %d and %d" % (cfg, len(ent), len(exi)), w)
            chk.observe(len(ev), ("libs", kind, tuple(oa), tuple(ob), tuple(om), chain_, nb))
            chk.count("runs with instrumented libraries")


def limits(chk, pre, drv, drvf, mon):
    """numbers of backends and of arguments at the limits"""
    recs = [rec(ADD, 1, fpx.f2b(1.0, 1), fpx.f2b(2.0, 1))]
    for n, ok in ((16, True), (17, False), (20, False)):
        log = chk.tmp("lim%d" % n)
        out, res = drive(chk, drv, pre, ";".join([mon] * n), recs, VERIF_LOG=log, tag="lim%d" % n)
        good = (out is not None) == ok and (ok or res.rc not in (0, None) and res.rc > 0)
        if ok and good:
            ev = read(log)
            good = [e["inst"] for e in ev if e["op"] == M_ADD] == list(range(n))
        if not good:
            chk.violation("[%d backends] must be %s: status %s" % (n, "accepted" if ok else "refused", res.rc), {"n": n})
        chk.observe(1, ("backends", n))
    for op in (M_ADD, M_SUB, M_MUL, M_DIV, M_FMA, M_CAST, M_CMP):
        for t in (0, 1):
            b = 1 << (op if op == M_CAST else op + (16, 24)[t])
            for n, (spec, ok) in enumerate((("%s --drop=%d" % (mon, b), False), ("%s --drop=%d;%s --drop=%d" % (mon, b, mon, b), False), ("%s --drop=%d;%s" % (mon, b, mon), True),
                                            ("%s;%s --drop=%d" % (mon, mon, b), True))):
                log = chk.tmp("imp%d%d%d" % (op, t, n))
                out, res = drive(chk, drvf, pre, spec, recs, VERIF_LOG=log, tag="imp")
                if (out is not None) != ok or not ok and (res.rc == 0 or any(e["op"] <= M_USER for e in (read(log) if os.path.exists(log) else []))):
                    chk.violation("[%s] operation %d is %simplemented for type %d: the program must %s, status %s" % (spec.replace(mon, "mon"), op, "" if ok else "not ", t, "run" if ok else "be stopped before it runs", res.rc), {"backends": spec})
                chk.observe(1, ("implemented", op, t, n))
    for n in (1, 100, 200, 253):
        log = chk.tmp("arg%d" % n)
        out, res = drive(chk, drv, pre, mon + "".join(" --a%d=%d" % (j, j) for j in range(n)), recs, VERIF_LOG=log, tag="arg%d" % n)
        l = [e["s"] for e in read(log) if e["op"] == M_CLI] if os.path.exists(log) else []
        if out is None or l[1:] != ["--a%d=%d" % (j, j) for j in range(n)]:
            chk.violation("[%d options] the backend did not get its own options: %s..." % (n, l[:3]), {"n": n})
        chk.observe(1, ("args", n))


def body(chk):
    pre = vbuild.build("std")
    mon = build_mon(chk, pre)
    drvs = [build_drv(pre), build_drv(pre, fcmp=True)]
    r = chk.rng
    jobs = [(r.getrandbits(40), k % 2, k) for k in range(chk.n(320, 5000))]
    with ThreadPoolExecutor(NPROC) as ex:
        for bad, n, keys in ex.map(lambda j: ops_run(chk, pre, drvs[j[1]], mon, j[0], bool(j[1]), j[2]), jobs):
            chk.observe(n)
            chk.distinct.update(keys)
            chk.count("runs")
            for w in bad:
                chk.violation(*w)
    limits(chk, pre, drvs[0], drvs[1], mon)
    func_runs(chk, pre, mon)
    lib_runs(chk, pre, mon)
    chk.sample({"chain example": [c[0] for c in chain(r, "libmon.so", True)]})


run_check("C06", "random chains of 1 to 16 monitor and real backends, monitors with different alterations and sets of implemented operations, from the environment or "
          "a file; the log of all instances is compared, event by event, with the delivery the configuration implies (start-up, options, operations of all kinds, "
          "user calls, function entry and exit with arguments, end of program by return, exit, nested exit, exit from a thread); programs with instrumented shared libraries, linked or loaded and unloaded at run time, each object with its own options; "
          "distinct = chain length x first kinds x event kind x instance", body)
