#!/usr/bin/env python3
"""C22: delta-debug generation and filters act on exactly the listed operations."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, monlog
from concurrent.futures import ThreadPoolExecutor

OPC = ["+", "-", "*", "/"]
VT = [("double", 2), ("float", 4), ("float", 8), ("double", 4), ("float", 2), ("double", 8)]


class Site:
    pass


def val(r, t):
    """a normal value, unique in practice"""
    if t:
        return r.getrandbits(52) | (1023 + r.randint(-20, 20)) << 52 | (fpx.SIGN[1] if r.getrandbits(1) else 0)
    return r.getrandbits(23) | (127 + r.randint(-10, 10)) << 23 | (fpx.SIGN[0] if r.getrandbits(1) else 0)


def gen(r, d, nsites, inst):
    """two source files; every site has its own operands"""
    sites = []
    files = {"p.c": [], "q.c": []}
    decl = ["#include <stdint.h>", "#include <string.h>",
            "typedef double d2 __attribute__((vector_size(16))); typedef double d4 __attribute__((vector_size(32))); typedef double d8 __attribute__((vector_size(64)));",
            "typedef float f2 __attribute__((vector_size(8))); typedef float f4 __attribute__((vector_size(16))); typedef float f8 __attribute__((vector_size(32)));",
            "extern int CNT[%d]; extern volatile uint64_t IN[%d][24], OUT[%d][8];" % (nsites, nsites, nsites),
            "static inline double D(int k, int i) { uint64_t u = IN[k][i]; double x; memcpy(&x, &u, 8); return x; }",
            "static inline float F(int k, int i) { uint32_t u = (uint32_t)IN[k][i]; float x; memcpy(&x, &u, 4); return x; }",
            "static inline void SD(int k, int i, double x) { uint64_t u; memcpy(&u, &x, 8); OUT[k][i] = u; }",
            "static inline void SF(int k, int i, float x) { uint32_t u; memcpy(&u, &x, 4); OUT[k][i] = u; }"]
    for f in files:
        files[f] += decl
    order = []
    k = 0
    fn = 0
    while k < nsites:
        f = r.choice(list(files))
        L = files[f]
        name = "fn%d" % fn
        fn += 1
        body = []
        m = min(nsites - k, r.choice((1, 1, 2, 3, 6)))
        mine = []
        while m > 0:
            s = Site()
            s.k, s.file, s.func = k, f, name
            kind = r.random()
            if kind < 0.7 or (kind < 0.85 and not inst):
                s.op, s.t, s.lanes = r.randrange(4), r.getrandbits(1), 1
                a, b = [("D" if s.t else "F") + "(%d, %d)" % (k, i) for i in (0, 1)]
                code = "S%s(%d, 0, %s %s %s);" % ("DF"[1 - s.t], k, a, OPC[s.op], b)
            elif kind < 0.78:
                s.op, s.t, s.lanes = FMA, r.getrandbits(1), 1
                g = "D" if s.t else "F"
                code = "S%s(%d, 0, __builtin_fma%s(%s(%d, 0), %s(%d, 1), %s(%d, 2)));" % (g, k, "" if s.t else "f", g, k, g, k, g, k)
            elif kind < 0.85:
                s.op, s.t, s.lanes = CAST, 1, 1
                code = "SF(%d, 0, (float)D(%d, 0));" % (k, k)
            else:
                ty, n = r.choice(VT)
                s.op, s.t, s.lanes = r.randrange(4), int(ty == "double"), n
                g, vt = ("D" if s.t else "F"), ty[0] + str(n)
                code = "%s va%d, vb%d, vr%d; for (int i = 0; i < %d; i++) { va%d[i] = %s(%d, i); vb%d[i] = %s(%d, 8 + i); } __asm__ volatile(\"\" : \"+m\"(va%d), \"+m\"(vb%d));" % (vt, k, k, k, n, k, g, k, k, g, k, k, k)
                body.append((code, None))
                body.append(("vr%d = va%d %s vb%d;" % (k, k, OPC[s.op], k), s))
                code = None
                body.append(("__asm__ volatile(\"\" : \"+m\"(vr%d)); for (int i = 0; i < %d; i++) S%s(%d, i, vr%d[i]);" % (k, n, g, k, k), None))
            if code:
                body.append((code, s))
            s.ins = [val(r, s.t) for _ in range(24)]
            sites.append(s)
            mine.append(s)
            k += 1
            m -= 1
        L.append("__attribute__((noinline)) void %s(void) {" % name)
        prev = False
        for code, s in body:
            if s is not None and prev and r.random() < 0.15:
                L[-1] += " " + code     # two sites on a line
            else:
                L.append(code)
            prev = s is not None
            if s is not None:
                s.line = len(L)
        L.append("}")
        calls = r.choice((0, 1, 1, 1, 2, 5)) if fn > 1 else 1
        for s in mine:
            s.calls = calls
        order.append((name, calls))
    M = files["p.c"]
    M += ["#include <stdio.h>", "int CNT[%d]; volatile uint64_t IN[%d][24] = {" % (nsites, nsites)]
    M += ["{" + ",".join("%#xull" % x for x in s.ins) + "}," for s in sites]
    M += ["}; volatile uint64_t OUT[%d][8];" % nsites]
    M += ["void %s(void);" % n for n, _ in order]
    M += ["int main(void) {"]
    M += ["_Pragma(\"clang loop unroll(disable)\") for (volatile int i = 0; i < %d; i++) %s();" % (c, n) for n, c in order]
    M += ["for (int i = 0; i < %d; i++) for (int j = 0; j < 8; j++) printf(\"%%lx\\n\", (unsigned long)OUT[i][j]); return 0; }" % nsites]
    for f, L in files.items():
        with open(d + "/" + f, "w") as h:
            h.write("\n".join(L) + "\n")
    return sites


def native(s, i):
    a, b, c = (s.ins[i], s.ins[(8 if s.lanes > 1 else 1) + i], s.ins[2])
    if s.op == CAST:
        return fpx.cast32(a)
    return fpx.ieee(s.op, s.t, a, b, c)


def salted(x, t, salt):
    e = x >> fpx.MANT[t] & (255 if t == 0 else 2047)
    if (30 < e < 250) if t == 0 else (60 < e < 2040):
        x ^= salt & 7
    return x


def evkey(op, t, a, b, c):
    """the optimiser may swap the operands of a commutative operation"""
    if op == CAST:
        b = 0
    if op in (ADD, MUL, FMA) and b < a:
        a, b = b, a
    return op, t, a, b, (c if op == FMA else 0)


def events(sites, on):
    """multiset of backend events expected"""
    out = {}
    for s in sites:
        if s.k in on and s.calls:
            for i in range(s.lanes):
                a, b, c = s.ins[i], s.ins[(8 if s.lanes > 1 else 1) + i], s.ins[2]
                e = evkey(s.op, s.t, a, b, c)
                out[e] = out.get(e, 0) + s.calls
    return out


def check_run(tag, d, pre, exe, mon, salt, sites, on, extra, bad):
    lg = d + "/log"
    if os.path.exists(lg):
        os.unlink(lg)
    res = run([exe], env=envof(pre, "%s --salt=%d" % (mon, salt), VERIF_LOG=lg, **extra), timeout=100, cwd=d)
    if res.timeout:
        raise Hang("program timed out")
    if res.rc != 0:
        bad.append("%s: status %s %s" % (tag, res.rc, res.err[-200:].decode(errors="replace")))
        return None
    got = {}
    if os.path.exists(lg):
        for e in monlog.read(lg):
            if e["op"] <= monlog.M_CAST:
                k = evkey(e["op"], e["type"], e["a"], e["b"], e["c"])
                got[k] = got.get(k, 0) + 1
    want = events(sites, on)
    if got != want:
        op = {x: s for s in sites for x in s.ins}
        df = []
        for k in set(got) | set(want):
            if got.get(k, 0) != want.get(k, 0):
                s = op.get(k[2]) or op.get(k[3])
                df.append("%s %s at %s:%s: %d events, must be %d" % (("float", "double")[k[1]], OPNAME[k[0]], s and s.file, s and s.line, got.get(k, 0), want.get(k, 0)))
        bad.append("%s: %d differences: %s" % (tag, len(df), "; ".join(sorted(df)[:3])))
        return got
    o = res.out.split()
    for s in sites:
        for i in range(8):
            g = int(o[s.k * 8 + i], 16)
            if i >= s.lanes or not s.calls:
                w = 0
            else:
                w = native(s, i)
                if s.k in on:
                    w = salted(w, 0 if s.op == CAST else s.t, salt)
            if g != w:
                bad.append("%s: %s %s at %s:%d (%s) gives %#x, must be %#x" % (tag, ("float", "double")[s.t], OPNAME[s.op], s.file, s.line, "listed" if s.k in on else "not listed", g, w))
                return got
    return got


def one(chk, pre, mon, it, seed):
    r = random.Random(seed)
    d = chk.tmp("p%d" % it)
    os.makedirs(d)
    inst = r.random() < 0.6
    n = r.choice((3, 10, 25, 60, 140)) if it % 8 else 330
    sites = gen(r, d, n, inst)
    flags = ["--ddebug", "-g", "-march=native", r.choice(("-O0", "-O1"))] + (["--inst-fma", "--inst-cast"] if inst else [])
    flags.append("-ffp-contract=off")
    order = ["p.c", "q.c"]
    r.shuffle(order)
    if r.random() < 0.5:
        for f in order:
            vfc_must(pre, flags + ["-c", f, "-o", f[0] + ".o"], cwd=d)
        vfc_must(pre, flags + [f[0] + ".o" for f in order] + ["-o", "exe", "-lm"], cwd=d)
    else:
        vfc_must(pre, flags + order + ["-o", "exe", "-lm"], cwd=d)
    exe = d + "/exe"
    salt = r.randint(1, 7)
    bad = []
    keys = set()
    nruns = 0
    alln = set(range(n))
    live = {s.k for s in sites if s.calls}
    check_run("no filter", d, pre, exe, mon, salt, sites, alln, {}, bad)
    gfile = d + "/gen"
    if r.random() < 0.5:
        with open(gfile, "w") as f:
            f.write("0x1: old at old.c:1\n" * 1000)
    check_run("generation", d, pre, exe, mon, salt, sites, alln, {"VFC_DDEBUG_GEN": gfile}, bad)
    nruns += 2
    ctx = " [%d sites, %s]" % (n, " ".join(flags))
    if bad:
        return [b + ctx for b in bad], nruns, keys, {}
    try:
        lines = open(gfile).read().split("\n")
    except OSError:
        lines = [""]
    addr = {}
    for l in lines[:-1]:
        m = re.match(r"(0x[0-9a-f]+): (\S+) at (\S+?):(\d+)( \(discriminator \d+\))?$", l)
        if not m:
            bad.append("generation: unreadable line %r" % l)
            break
        if int(m.group(1), 16) in addr:
            bad.append("generation: the site %s is listed twice" % m.group(1))
        addr[int(m.group(1), 16)] = (m.group(2), os.path.basename(m.group(3)), int(m.group(4)), l)
    want = sorted((s.func, s.file, s.line) for s in sites if s.calls)
    got = sorted(a[:3] for a in addr.values())
    if not bad and want != got:
        mi = [x for x in want if want.count(x) > got.count(x)][:4]
        ex = [x for x in got if got.count(x) > want.count(x)][:4]
        bad.append("generation: %d sites listed, %d executed; missing %s, unexpected %s" % (len(got), len(want), mi, ex))
    if bad:
        return [b + ctx for b in bad], nruns, keys, {}
    # address of each site; sites that share a line are told apart by running them alone
    byloc = {}
    for s in sites:
        if s.calls:
            byloc.setdefault((s.func, s.file, s.line), []).append(s)
    site_of = {}
    for a, x in sorted(addr.items()):
        c = byloc[x[:3]]
        if len(c) == 1:
            site_of[a] = c[0].k
    for loc, c in byloc.items():
        if len(c) > 1:
            todo = {s.k for s in c}
            for a in [a for a in addr if addr[a][:3] == loc]:
                with open(d + "/inc", "w") as f:
                    f.write(addr[a][3] + "\n")
                lg = d + "/log"
                if os.path.exists(lg):
                    os.unlink(lg)
                run([exe], env=envof(pre, "%s --salt=%d" % (mon, salt), VERIF_LOG=lg, VFC_DDEBUG_INCLUDE=d + "/inc"), cwd=d)
                ev = {x for e in monlog.read(lg) if e["op"] <= monlog.M_CAST for x in (e["a"], e["b"])} if os.path.exists(lg) else set()
                nruns += 1
                hit = [s.k for s in c if s.ins[0] in ev]
                if len(hit) != 1 or hit[0] not in todo:
                    bad.append("including the single site %s acts on %d of the operations of its line" % (addr[a][3], len(hit)))
                    break
                todo.discard(hit[0])
                site_of[a] = hit[0]
    if bad:
        return [b + ctx for b in bad], nruns, keys, {}

    def text(a):
        k = r.random()
        return (addr[a][3] if k < 0.8 else "%#x" % a) + "\n"

    A = sorted(addr)
    for j in range(14):
        mode = r.choice(("inc", "inc", "exc", "exc", "both"))
        sub = [[], []]
        for q in (0, 1):
            f = r.choice((0, 1.0 / max(1, len(A)), 0.1, 0.5, 0.9, 1))
            sub[q] = [a for a in A if r.random() < f] if f < 1 else list(A)
            r.shuffle(sub[q])
        env = {}
        on = set(live)
        if mode != "exc":
            with open(d + "/inc", "w") as f:
                f.writelines(text(a) for a in sub[0])
            env["VFC_DDEBUG_INCLUDE"] = d + "/inc"
            on &= {site_of[a] for a in sub[0]}
        if mode != "inc":
            with open(d + "/exc", "w") as f:
                f.writelines(text(a) for a in sub[1])
            env["VFC_DDEBUG_EXCLUDE"] = d + "/exc"
            on -= {site_of[a] for a in sub[1]}
        check_run("%s %d/%d of %d" % (mode, len(sub[0]), len(sub[1]), len(A)), d, pre, exe, mon, salt, sites, on, env, bad)
        nruns += 1
        keys.add((mode, n, len(sub[0]) * 4 // max(1, len(A)), len(sub[1]) * 4 // max(1, len(A)), inst, flags[3]))
        if bad:
            break
    if not bad:     # the excluded sites are not in a generated list
        A = list(site_of)
        ex = [a for a in A if r.random() < 0.4]
        with open(d + "/exc", "w") as f:
            f.writelines(text(a) for a in ex)
        check_run("generation with %d of %d excluded" % (len(ex), len(A)), d, pre, exe, mon, salt, sites, set(live) - {site_of[a] for a in ex},
                  {"VFC_DDEBUG_EXCLUDE": d + "/exc", "VFC_DDEBUG_GEN": d + "/gen3"}, bad)
        g3 = sorted(int(l.split(":")[0], 16) for l in open(d + "/gen3") if l.strip()) if os.path.exists(d + "/gen3") else None
        if not bad and g3 != sorted(set(A) - set(ex)):
            bad.append("generation with %d of %d sites excluded: %s listed" % (len(ex), len(A), g3 if g3 is None else len(g3)))
        nruns += 1
        keys.add(("gen+exc", n, len(ex) * 4 // max(1, len(A))))
    x = run([exe], env=envof(pre, mon, VFC_DDEBUG_INCLUDE=gfile, VFC_DDEBUG_GEN=d + "/gen2"), cwd=d)
    if x.rc == 0:
        bad.append("an inclusion list and a generation at the same time are accepted")
    smp = {"sites": n, "flags": " ".join(flags), "executed": len(live), "line": lines[0]}
    shutil.rmtree(d)
    return [b + ctx for b in bad], nruns, keys, smp


def threaded(chk, pre, mon, it, seed):
    """the executed sites of a program with threads are listed, once each; its list acts on all of them"""
    r = random.Random(seed)
    d = chk.tmp("t%d" % it)
    os.makedirs(d)
    T, S = r.choice((4, 6, 8)), r.randint(50, 80)
    L = ["#include <pthread.h>", "static volatile double Y = 1.25; static volatile float Z = 1.25f; static pthread_barrier_t B;"]
    want = []
    for t in range(T):
        L.append("static void *f%d(void *p) { volatile double x = 1.5; volatile float y = 1.5f; pthread_barrier_wait(&B); for (int i = 0; i < 2; i++) {" % t)
        for k in range(S):
            L.append("x = x %s Y;" % r.choice(OPC) if r.random() < 0.6 else "y = y %s Z;" % r.choice(OPC))
            want.append(("f%d" % t, len(L)))
        L.append("} return 0; }")
    L.append("int main(void) { pthread_t t[%d]; pthread_barrier_init(&B, 0, %d);" % (T, T))
    L += ["pthread_create(&t[%d], 0, f%d, 0);" % (t, t) for t in range(T)]
    L += ["pthread_join(t[%d], 0);" % t for t in range(T)] + ["return 0; }"]
    kids = it % 3           # 1: leaves a child that failed and is not waited for; 2: ignores the end of its children
    if kids:
        L[0] += "\n#include <unistd.h>\n#include <signal.h>"
        want = [(f, n + 2) for f, n in want]
        L[-1] = ("signal(SIGCHLD, SIG_IGN); " if kids == 2 else "") + "if (fork() == 0) _exit(3); usleep(%d); return 0; }" % r.choice((0, 100000))
    with open(d + "/p.c", "w") as f:
        f.write("\n".join(L) + "\n")
    vfc_must(pre, ["--ddebug", "-g", "-O0", "p.c", "-o", "exe", "-lpthread"], cwd=d)
    bad = []
    runs = 0
    ctx = " [%d threads of %d sites%s]" % (T, S, ("", ", a child that failed", ", SIGCHLD ignored")[kids])

    def go(tag, nops, env):
        lg = d + "/log"
        if os.path.exists(lg):
            os.unlink(lg)
        res = run([d + "/exe"], env=envof(pre, mon, VERIF_LOG=lg, **env), timeout=120, cwd=d)
        if res.timeout or res.rc:
            bad.append("%s: %s" % (tag, "does not end" if res.timeout else "status %s %s" % (res.rc, res.err[-200:].decode(errors="replace"))))
            return
        n = sum(e["op"] <= monlog.M_CAST for e in monlog.read(lg)) if os.path.exists(lg) else 0
        if n != nops:
            bad.append("%s: %d operations reach the backend, must be %d" % (tag, n, nops))

    for j in range(3):
        g = d + "/gen%d" % j
        go("generation with threads", 2 * T * S, {"VFC_DDEBUG_GEN": g})
        runs += 1
        if bad:
            break
        lines = open(g).read().split("\n")[:-1] if os.path.exists(g) else []
        got = [re.match(r"(0x[0-9a-f]+): (\S+) at \S+?:(\d+)( \(discriminator \d+\))?$", l) for l in lines]
        if None in got:
            bad.append("generation with threads: unreadable line %r" % lines[got.index(None)])
            break
        if len({m.group(1) for m in got}) != len(got):
            bad.append("generation with threads: a site is listed twice")
        x = sorted((m.group(2), int(m.group(3))) for m in got)
        if x != sorted(want):
            bad.append("generation with threads: %d sites listed, %d executed; missing %s" % (len(x), len(want), sorted(set(want) - set(x))[:4]))
            break
    if not bad:
        sub = [l for l in lines if r.random() < 0.5]
        with open(d + "/sub", "w") as f:
            f.write("\n".join(sub) + "\n")
        go("inclusion with threads", 2 * len(sub), {"VFC_DDEBUG_INCLUDE": d + "/sub"})
        go("exclusion with threads", 2 * (len(lines) - len(sub)), {"VFC_DDEBUG_EXCLUDE": d + "/sub"})
        runs += 2
    shutil.rmtree(d)
    return [b + ctx for b in bad], runs, {("threads", T, S // 10, kids)}


def body(chk):
    pre = vbuild.build("std")
    mon = monlog.build_mon(chk, pre)
    n = chk.n(24, 250)
    seeds = ["c22-%d-%d" % (chk.seed, i) for i in range(n)]
    with ThreadPoolExecutor(NPROC) as ex:
        for (bad, nruns, keys, smp), sd in zip(ex.map(lambda i: one(chk, pre, mon, i, seeds[i]), range(n)), seeds):
            chk.observe(nruns)
            chk.distinct |= keys
            chk.count("programs")
            chk.count("filtered runs", nruns)
            for b in bad[:2]:
                chk.violation(b, {"scenario": sd})
            chk.sample(smp)
    seeds = ["c22t-%d-%d" % (chk.seed, i) for i in range(chk.n(3, 24))]
    with ThreadPoolExecutor(2) as ex:
        for (bad, nruns, keys), sd in zip(ex.map(lambda i: threaded(chk, pre, mon, i, seeds[i]), range(len(seeds))), seeds):
            chk.observe(nruns)
            chk.distinct |= keys
            chk.count("programs with threads")
            chk.count("runs with threads", nruns)
            for b in bad[:2]:
                chk.violation(b, {"scenario": sd})


run_check("C22", "random two-module programs of 3..330 sites (scalar, vector, fma, cast; repeated, never executed, several on a line), operands unique per site; "
          "generation compared with the executed sites and their locations; random inclusion, exclusion and combined lists run under a backend that alters results: "
          "events and results of every site compared; programs of 4..8 threads entering new sites together, some leaving children of their own; distinct = list kind x size x fractions x flags", body,
          ["operations are not duplicated or merged by the optimiser at -O0/-O1"])
