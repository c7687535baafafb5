#!/usr/bin/env python3
"""C18: nothing the user gives makes the runtime corrupt memory or run into undefined behaviour."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vcommon import *
from concurrent.futures import ThreadPoolExecutor
import fpx, workload as wl, mcacheck, fgen, c07

# undefined conversions and divisions of values are left to the arithmetic properties
REPORT = re.compile(rb"(ERROR: AddressSanitizer:[^\n]*|[^\n]*: runtime error: [^\n]*|AddressSanitizer:DEADLYSIGNAL)")
OPTS = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=1", "UBSAN_OPTIONS": "print_stacktrace=0"}
PROG = r"""
#include <stdio.h>
int main(void) {
  volatile double d = 0.1, g = 3; volatile float s = 0.1f, t = 7;
  for (int i = 0; i < 40; i++) { d = d * g + 0.7; g = g / 1.1 - 0.01; s = s * t + 0.7f; t = t / 1.1f - 0.01f; }
  printf("U %a %a %a %a\n", d, g, s, t);
  return 7;
}
"""


class Mon:
    """runs programs and judges the sanitizer's verdict"""

    def __init__(self, chk, pre):
        self.chk, self.pre, self.seen = chk, pre, set()

    def env(self, **kw):
        e = {k: v for k, v in BASE_ENV.items() if not k.startswith("VFC_")}
        e["LD_LIBRARY_PATH"] = self.pre + "/lib"
        e.update(OPTS)
        for k, v in kw.items():
            if v is not None:
                e[k] = v
        return e

    def judge(self, what, res, witness, key):
        """True when the run is clean"""
        self.chk.observe(1, key)
        if res.timeout:
            raise Hang("a program under AddressSanitizer timed out: %s" % what)
        m = REPORT.search(res.err) or REPORT.search(res.out)
        if m is None and res.rc >= 0:
            return True
        rep = m.group(1).decode(errors="replace") if m else "killed by signal %d" % -res.rc
        fr = re.search(rb"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*(?:interflop|vfc)[^\n]*", res.err)
        sig = re.sub(r"0x[0-9a-f]+|==\d+==|\d+ byte|-?\d{4,}", "#", rep) + (fr.group(1).decode() if fr else "")
        if sig not in self.seen and len(self.seen) < 12:
            self.seen.add(sig)
            self.chk.violation("%s: %s%s" % (what, rep[:300], " in " + fr.group(1).decode() if fr else ""), {"input": witness, "report": res.err[-3000:].decode(errors="replace")})
        return False


# ---------------------------------------------------------------- operands, options, user calls
def some_backend(r):
    """a valid backend with random options (no trace of every operation)"""
    while True:
        b, w, _ = c07.backend(r, False)
        if b == "ieee" and any(x.lstrip("-")[:1] in "db" and x != "--no-backend-name" for x in w):
            if r.random() < 0.9:
                continue
        if r.random() < 0.25:
            o = {"mca": ["precision-binary32", "precision-binary64", "max-abs-error-exponent"], "vprec": ["max-abs-error-exponent"], "cancellation": ["tolerance"],
                 "bitmask": ["precision-binary32", "precision-binary64"]}.get(b)
            if o:
                o = r.choice(o)
                w = w + ["--%s=%d" % (o, r.choice((2 ** 31 - 1, 2 ** 31 - 2, 2000000000, 70000, 32, 64, 65, 53, 113) + ((-2 ** 31, -70000, -1074, -1100) if "exponent" in o else ())))]
                if "exponent" in o:
                    w.append("--error-mode=" + r.choice(("abs", "all")))
        return " ".join(["libinterflop_%s.so" % b] + w), b


HOSTILE = [0, -1, 1, 2, 24, 53, 54, 64, 100, 1000, -1000, 2 ** 31 - 1, -2 ** 31, 31, 32, 33, 63, 65]


def hostile(r, n, user):
    recs = wl.records(r, n)[0]
    for i in range(n):
        if r.random() < 0.15 and recs[i][0] < INEXACT:
            o = list(recs[i])
            for k in (4, 5, 6):
                o[k] = r.getrandbits(64) if o[1] else r.getrandbits(32)
            recs[i] = tuple(o)
        elif user and r.random() < 0.05 and recs[i][0] < VADD:
            t = r.getrandbits(1)
            recs[i] = rec(INEXACT, t, r.getrandbits(64) if t else r.getrandbits(32), iarg=r.choice(HOSTILE))
    if user:
        for _ in range(r.choice((0, 1, 3))):
            op = r.choice((SETP32, SETP64, SETR32, SETR64))
            recs[r.randrange(n)] = rec(op, op in (SETP64, SETR64), iarg=r.choice(HOSTILE + [5, 10, 8]))
    return recs


def operands(chk, mon, drv, n):
    r = chk.rng

    def job(k):
        rr = random.Random("c18op-%d-%d" % (chk.seed, k))
        parts = [some_backend(rr) for _ in range(rr.choice((1, 1, 1, 2, 4, 16)))]
        opt = ";".join(p[0] for p in parts)
        user = rr.random() < 0.5
        recs = hostile(rr, 1500 if len(parts) < 5 else 300, user)
        th = rr.choice((0, 0, 3, 8)) if not user else 0
        outs, res = drive(chk, drv, mon.pre, opt, recs, threads=th, tag="o%d" % k, timeout=300,
                          env=mon.env(VFC_BACKENDS=opt, VFC_BACKENDS_LOGGER=rr.choice((None, "False")), VFC_BACKENDS_SILENT_LOAD=rr.choice((None, "True"))))
        for f in ("ino%d" % k, "outo%d" % k):
            if os.path.exists(chk.tmp(f)):
                os.unlink(chk.tmp(f))
        return opt, user, recs, th, outs, res, [p[1] for p in parts]
    with ThreadPoolExecutor(NPROC) as ex:
        for opt, user, recs, th, outs, res, names in ex.map(job, range(n)):
            chk.count("operations under the sanitizers", len(recs))
            ok = mon.judge("[%s] operations%s" % (opt[:300], ", %d threads" % th if th else ""), res, {"backend": opt, "records": [[hex(x) for x in y] for y in recs[:50]]}, ("operands", names[0], len(names), user, th))
            if ok and outs is None and not user:
                chk.violation("[%s] operations: status %s %s" % (opt[:300], res.rc, res.err[-200:]), opt)
            if ok and outs is None and user and not res.err.strip() and b"Error" not in res.err:
                chk.count("stopped silently (logger off)")


# ---------------------------------------------------------------- configurations
def mutate(r, s):
    """byte-level mutations of a text"""
    s = list(s)
    for _ in range(r.choice((1, 1, 2, 4, 10))):
        k = r.random()
        p = r.randrange(len(s) + 1)
        if k < 0.25 and s:
            del s[min(p, len(s) - 1)]
        elif k < 0.5:
            s[p:p] = r.choice(";;; -=--\t\n%s%n%d\\'\"0123456789,.+e\x01\x7f\u00e9")
        elif k < 0.6:
            q = r.randrange(len(s) + 1)
            s[p:p] = s[min(p, q):max(p, q)]
        elif k < 0.7:
            s[p:p] = list(r.choice(("99999999999999999999", "-1", "x" * r.choice((100, 3000)), ";" * 20, " --" * 30, "%s%s%n", "--mode=", "=", "nan", "1e400", "--help")))
        elif s:
            s[min(p, len(s) - 1)] = chr(r.choice((r.randint(1, 126), 59, 32, 61)))
    return "".join(s).replace("\0", "")


def configurations(chk, mon, exe, n):
    def job(k):
        r = random.Random("c18cfg-%d-%d" % (chk.seed, k))
        d = chk.tmp("g%d" % k)
        os.makedirs(d)
        kw, extra = {}, "x"
        if r.random() < 0.35:
            parts, why = c07.invalid(r)
            cfg = c07.join(r, [p[1] for p in parts])
        else:
            bk = [c07.backend(r, False) for _ in range(r.choice((1, 1, 2, 3, 12)))]
            cfg = c07.join(r, [["libinterflop_%s.so" % b] + w for b, w, _ in bk])
            why = "valid"
            if r.random() < 0.75:
                cfg, why = mutate(r, cfg), "mutated"
            if r.random() < 0.1:
                cfg, why = cfg + " " + " ".join(r.choice(("--daz", "--debug", "x", "--mode=ieee")) for _ in range(r.choice((250, 253, 254, 255, 256, 300, 1000)))), "many words"
            if r.random() < 0.05:
                cfg, why = ";".join(["libinterflop_%s.so" % r.choice(("ieee", "mca", "vprec"))] * r.choice((15, 16, 17, 40))), "many backends"
        if r.random() < 0.4:
            with open(d + "/cfg", "w", errors="surrogateescape") as f:
                f.write(cfg + r.choice(("", "\n", "\n\n", "\nlibinterflop_ieee.so\n")))
            kw["VFC_BACKENDS_FROM_FILE"] = d + "/cfg"
        else:
            kw["VFC_BACKENDS"] = cfg
        for v, c in (("VFC_BACKENDS_LOGGER", ("True", "False", "", "x" * 5000, "%n")), ("VFC_BACKENDS_SILENT_LOAD", ("True", "x" * 3000, "")), ("VFC_BACKENDS_COLORED_LOGGER", ("True", "False", "z")),
                     ("VFC_BACKENDS_LOGGER_LEVEL", ("debug", "info", "warning", "error", "all", "none", "", "x" * 4000)),
                     ("VFC_BACKENDS_LOGFILE", (d + "/lf", d + "/" + "y" * 200, d + "/" + "z" * r.choice((900, 980, 990, 1000, 1024, 1100, 5000)), "", "%s%n", d + "/none/" + "w" * 2000))):
            if r.random() < 0.25:
                kw[v] = r.choice(c)
        x = run([exe], env=mon.env(**kw), cwd=d, timeout=120)
        shutil.rmtree(d, ignore_errors=True)
        return cfg, why, kw, x
    with ThreadPoolExecutor(NPROC) as ex:
        for cfg, why, kw, x in ex.map(job, range(n)):
            chk.count("configurations")
            ok = mon.judge("VFC_BACKENDS=%r %s" % (cfg[:300], {k: v[:60] + ("(%d)" % len(v) if len(v) > 60 else "") for k, v in kw.items() if "LOG" in k or "SIL" in k}), x, {k: v[:6000] for k, v in kw.items()},
                           ("config", why.split(" ")[0], x.rc, tuple(sorted(k[12:] for k in kw))))
            if ok and x.rc not in (0, 7) and not (x.err + x.out).strip():
                chk.violation("configuration %r refused without a message (status %d)" % (cfg[:300], x.rc), {k: v[:3000] for k, v in kw.items()})
            if x.rc == 7:
                chk.count("configurations accepted")


# ---------------------------------------------------------------- delta-debug filters
def filters(chk, mon, exe, good, n):
    def job(k):
        r = random.Random("c18dd-%d-%d" % (chk.seed, k))
        d = chk.tmp("f%d" % k)
        os.makedirs(d)
        kw = {"VFC_BACKENDS": r.choice(("libinterflop_mca.so", "libinterflop_ieee.so", "libinterflop_mca_int.so"))}
        files = {}
        for v in ("INCLUDE", "EXCLUDE"):
            q = r.random()
            if q < 0.3:
                continue
            t = good if r.random() < 0.7 else ""
            ls = [l for l in t.split("\n") if l]
            r.shuffle(ls)
            ls = ls[:r.randrange(len(ls) + 1)]
            t = "\n".join(ls) + "\n"
            m = r.random()
            if m < 0.3:
                t = mutate(r, t)
            elif m < 0.5:
                t += "".join(r.choice(("0x%x\n" % r.getrandbits(64), "0x0\n", "0x1\n", "0xffffffffffffffff\n", "%x: f at x.c:%d\n" % (r.getrandbits(30), r.getrandbits(9)), "0x%x: " % r.getrandbits(40) + "y" * r.choice((10, 2030, 2047, 2048, 5000)) + "\n"))
                             for _ in range(r.choice((1, 10, 400))))
            elif m < 0.6:
                t = os.urandom(0).decode() + "".join(chr(r.randint(1, 127)) for _ in range(r.choice((1, 50, 3000))))
            elif m < 0.7:
                t = t + "\n\n" + t
            elif m < 0.75:
                t = "0x" + "f" * 3000 + "\n"
            files[v] = t
            open(d + "/" + v, "w").write(t)
            kw["VFC_DDEBUG_" + v] = d + "/" + v if r.random() < 0.95 else r.choice((d, d + "/none", ""))
        x = run([exe], env=mon.env(**kw), cwd=d, timeout=120)
        shutil.rmtree(d, ignore_errors=True)
        return kw, files, x
    with ThreadPoolExecutor(NPROC) as ex:
        for kw, files, x in ex.map(job, range(n)):
            chk.count("filter files", len(files))
            mon.judge("delta-debug filters %s" % {k: v[:80] for k, v in files.items()}, x, {"env": kw, "files": {k: v[:5000] for k, v in files.items()}}, ("filter", tuple(files), x.rc, sum(len(v) for v in files.values()) // 500))


# ---------------------------------------------------------------- profiles of functions
def profiles(chk, mon, pre, n, per):
    def job(k):
        r = random.Random("c18fi-%d-%d" % (chk.seed, k))
        prog = fgen.Prog(r)
        d = chk.tmp("q%d" % k)
        os.makedirs(d)
        for i, t in enumerate(prog.text()):
            open(d + "/t%d.c" % i, "w").write(t)
        open(d + "/rt.c", "w").write(fgen.RT.replace("BUDGET", "60"))
        must([CLANG, "-O1", "-c", "rt.c", "-o", "rt.o"], cwd=d)
        objs = []
        for i in range(prog.ntu):
            vfc_must(pre, ["--inst-func", "-O0", "-Wno-everything", "-c", "t%d.c" % i, "-o", "t%d.o" % i], cwd=d)
            objs.append("t%d.o" % i)
        san_link(pre, mon.pre, ASAN, ["-DINST_FUNC"], objs + ["rt.o"], "exe", d)
        out = []

        def go(opt):
            return run([d + "/exe"], env=mon.env(VFC_BACKENDS=opt, VFC_BACKENDS_LOGGER="True", FG_OUT=d + "/log"), cwd=d, timeout=120)
        x = go("libinterflop_vprec.so --prec-output-file=%s/prof --prec-log-file=%s/tr" % (d, d))
        out.append(("profile output", "", x))
        if x.rc == 0 and os.path.exists(d + "/prof"):
            txt = open(d + "/prof").read()
            for j in range(per):
                why = "formats"
                es = fgen.parse_profile(txt)
                fgen.assign(r, es)
                q = r.random()
                if q < 0.25:
                    why = "numbers"
                    for _ in range(r.randint(1, 4)):
                        e = r.choice(es)
                        f = r.choice(("p64", "r64", "p32", "r32", "nin", "nout", "calls", "flt", "dbl"))
                        setattr(e, f, r.choice((-1, 0, 1, 12, 60, 64, 1000, 2 ** 31 - 1, -2 ** 31, 2 ** 40)))
                elif q < 0.4:
                    why = "argument formats"
                    al = [a for e in es for a in e.inputs + e.outputs]
                    for _ in range(3):
                        if al:
                            r.choice(al)[r.randint(1, 5)] = r.choice((-1, 0, 1, 3, 4, 12, 24, 53, 60, 64, 1000, 2 ** 31 - 1, -2 ** 31))
                elif q < 0.55:
                    why = "arguments dropped or added"
                    e = r.choice(es)
                    for l in (e.inputs, e.outputs):
                        if l and r.random() < 0.7:
                            l.pop(r.randrange(len(l)))
                        elif r.random() < 0.4:
                            l.append(["extra", r.randrange(5), 20, 6, 0, 1])
                    e.nin, e.nout = len(e.inputs), len(e.outputs)
                elif q < 0.65:
                    why = "long names"
                    e = r.choice(es)
                    e.id = r.choice(("x" * r.choice((500, 511, 512, 2000, 5000)), e.id + "/" * 600, e.id))
                    for a in e.inputs:
                        a[0] = "n" * r.choice((10, 127, 128, 200, 3000))
                t = fgen.write_profile(es)
                if q > 0.75:
                    why = "mutated text"
                    t = mutate(r, t) if q < 0.9 else t[:r.randrange(len(t) + 1)]
                    if r.random() < 0.3:
                        t = t.replace("\t", r.choice(("\t\t", " ", "\n")), r.randint(1, 3))
                open(d + "/in", "w", errors="surrogateescape").write(t)
                opt = "libinterflop_vprec.so --mode=%s --instrument=%s --prec-input-file=%s/in --prec-output-file=%s/o" % (r.choice(("full", "ib", "ob")), r.choice(("all", "all", "arguments", "operations")), d, d)
                out.append((why, t, go(opt)))
            src = "".join(open(d + "/t%d.c" % i).read() for i in range(prog.ntu))
        else:
            src = None
        shutil.rmtree(d, ignore_errors=True)
        return out, src
    with ThreadPoolExecutor(NPROC) as ex:
        for out, src in ex.map(job, range(n)):
            for why, t, x in out:
                chk.count("profiles")
                ok = mon.judge("profile with hostile %s" % why, x, {"profile": t[:6000], "source": src}, ("profile", why, x.rc))
                if ok and x.rc != 0 and not x.err.strip():
                    chk.violation("profile (%s) refused without a message, status %d" % (why, x.rc), {"profile": t[:5000], "source": src})


# ---------------------------------------------------------------- probes and map
def probes(chk, mon, n):
    ex2 = chk.tmp("probes")
    must([CLANG, "-w", "-g", "-O1", "-DHANDLERS", "-fsanitize=address,undefined", "-rdynamic", "-I", mon.pre + "/include", HARNESS + "/probes.c", "-o", ex2, "-L" + mon.pre + "/lib",
          "-lvfc_probes", "-linterflop_hashmap", "-linterflop_stdlib"])
    for k in range(n):
        r = random.Random("c18pr-%d-%d" % (chk.seed, k))
        d = chk.tmp("pr")
        os.makedirs(d)
        b = b""
        m = r.choice((1, 30, 300, 3000))
        for i in range(m):
            kind = r.choice("ppparPARn0" + ("d" if r.random() < 0.02 * m else "") + ("u" if r.random() < 0.01 else ""))
            x = "".join(chr(r.choice((r.randint(33, 126), 44, 34, 37))) for _ in range(r.choice((0, 1, 5, 30, 300, 5000) if r.random() < 0.1 else (0, 1, 5, 8)))).encode()
            y = (b"v%d" % r.randrange(max(1, m))) if r.random() < 0.8 else x[::-1]
            if kind == "d":
                x = ("%s/out%d" % (d, i)).encode() if r.random() < 0.8 else b"%s/none/%s" % (d.encode(), b"z" * r.choice((3, 5000)))
            b += b"%s %d %d %d %x %x\n%s%s" % (kind.encode(), r.randrange(3), len(x), len(y), r.getrandbits(64), r.getrandbits(64), x, y)
        res = run([ex2], env=mon.env(), cwd=d, stdin=b, timeout=200)
        mon.judge("%d probe calls" % m, res, {"stream": b[:4000].decode(errors="replace")}, ("probes", m, res.rc))
        chk.count("probe calls", m)
        shutil.rmtree(d)
    hm = chk.tmp("hm")
    must([CLANG, "-g", "-O1", "-fsanitize=address,undefined", "-rdynamic", "-I", mon.pre + "/include", HARNESS + "/hm.c", "-o", hm, "-L" + mon.pre + "/lib", "-linterflop_hashmap", "-linterflop_stdlib"])
    for k in range(n):
        r = random.Random("c18hm-%d-%d" % (chk.seed, k))
        m = r.choice((10, 300, 5000, 40000))
        dom = r.choice((4, 40, 3000, 2 ** 62))
        b = b"".join(struct.pack("<QQQ", r.choice((0, 0, 0, 1, 2, 3, 4, 5 if r.random() < 0.01 else 3, 6 if r.random() < 0.01 else 0)) | r.randrange(4) << 8, r.choice((0, 1, r.randrange(dom), r.randrange(dom), r.randrange(dom))), r.getrandbits(60) + 2) for _ in range(m))
        res = run([hm], env=mon.env(), stdin=b, timeout=200)
        mon.judge("%d operations of the map" % m, res, {"operations": m, "scenario": k}, ("map", m, dom))
        chk.count("map operations", m)


# ---------------------------------------------------------------- reads of values nobody wrote
UNINIT = re.compile(rb"==\d+== ((?:Conditional jump or move depends on|Use of) uninitialised value[^\n]*)")
VG = ["valgrind", "-q", "--track-origins=no", "--num-callers=12"]


def uninit(chk, pre, n):
    """the ordinary build under memcheck: decisions and addresses computed from uninitialised memory"""
    d = chk.tmp("u")
    os.makedirs(d)
    open(d + "/p.c", "w").write(PROG)
    must([CLANG, "-g", "-w", "-O0", "-x", "c", "-", "-o", d + "/ctl"], stdin=b"#include <stdlib.h>\nint main(int c, char **v) { volatile int *p = malloc(8); if (p[c] == 3) abort(); return 6; }")
    if not UNINIT.search(run(VG + [d + "/ctl"], env=envof(pre), timeout=120).err):
        raise Inconclusive("memcheck does not report the control fault")
    drv = build_drv(pre)
    vfc_must(pre, ["-O1", "-g", "p.c", "-o", "p"], cwd=d)
    vfc_must(pre, ["-O1", "-g", "--ddebug", "p.c", "-o", "q"], cwd=d)
    progs = []
    for k in range(3):
        prog = fgen.Prog(random.Random("c18un-%d-%d" % (chk.seed, k)))
        f = d + "/f%d" % k
        os.makedirs(f)
        for i, t in enumerate(prog.text()):
            open(f + "/t%d.c" % i, "w").write(t)
        open(f + "/rt.c", "w").write(fgen.RT.replace("BUDGET", "60"))
        must([CLANG, "-O1", "-c", "rt.c", "-o", "rt.o"], cwd=f)
        for i in range(prog.ntu):
            vfc_must(pre, ["--inst-func", "-O0", "-Wno-everything", "-c", "t%d.c" % i, "-o", "t%d.o" % i], cwd=f)
        vfc_must(pre, ["--inst-func"] + ["t%d.o" % i for i in range(prog.ntu)] + ["rt.o", "-o", "exe", "-lm"], cwd=f)
        progs.append(f)
    seen = set()

    def clean(e):
        return {k: v for k, v in e.items() if k not in ("VFC_BACKENDS", "VFC_BACKENDS_LOGGER", "VFC_BACKENDS_SILENT_LOAD") and v is not None}

    def job(k):
        r = random.Random("c18u-%d-%d" % (chk.seed, k))
        w = chk.tmp("u%d" % k)
        os.makedirs(w)
        e = clean(envof(pre))
        kind = ("operations", "operations", "configuration", "filters", "profile")[k % 5]
        wit = ""
        if kind == "operations":
            parts = [some_backend(r) for _ in range(r.choice((1, 1, 2, 3)))]
            wit = ";".join(p[0] for p in parts)
            recs = [x for x in hostile(r, 900, r.random() < 0.5) if x[0] < VADD or x[0] in (INEXACT, SETP32, SETP64, SETR32, SETR64)]
            open(w + "/in", "wb").write(pack(recs))
            x = run(VG + [drv, w + "/in", w + "/out"], env=dict(e, VFC_BACKENDS=wit), cwd=w, timeout=300)
            kind += " " + parts[0][1]
        elif kind == "configuration":
            if r.random() < 0.4:
                wit = c07.join(r, [p[1] for p in c07.invalid(r)[0]])
            else:
                wit = c07.join(r, [["libinterflop_%s.so" % b] + o for b, o, _ in [c07.backend(r, False) for _ in range(r.choice((1, 2, 4)))]])
                if r.random() < 0.5:
                    wit = mutate(r, wit)
            if r.random() < 0.4:
                open(w + "/cfg", "w", errors="surrogateescape").write(wit)
                e["VFC_BACKENDS_FROM_FILE"] = w + "/cfg"
            else:
                e["VFC_BACKENDS"] = wit
            if r.random() < 0.3:
                e["VFC_BACKENDS_LOGFILE"] = w + "/log"
            if r.random() < 0.3:
                e["VFC_BACKENDS_COLORED_LOGGER"] = "True"
            x = run(VG + [d + "/p"], env=e, cwd=w, timeout=300)
        elif kind == "filters":
            e["VFC_BACKENDS"] = r.choice(("libinterflop_mca.so", "libinterflop_ieee.so"))
            run([d + "/q"], env=dict(e, VFC_DDEBUG_GEN=w + "/gen"), cwd=w, timeout=100)
            ls = open(w + "/gen").read().split("\n") if os.path.exists(w + "/gen") else []
            for v in ("INCLUDE", "EXCLUDE"):
                if r.random() < 0.7:
                    t = "\n".join(l for l in ls if r.random() < 0.6) + "\n"
                    open(w + "/" + v, "w").write(mutate(r, t) if r.random() < 0.4 else t)
                    e["VFC_DDEBUG_" + v] = w + "/" + v
            if r.random() < 0.5:
                e["VFC_DDEBUG_GEN"] = w + "/gen2"
            x = run(VG + [d + "/q"], env=e, cwd=w, timeout=300)
        else:
            exe = r.choice(progs) + "/exe"
            opt = "libinterflop_vprec.so --prec-output-file=%s/prof" % w
            e["FG_OUT"] = w + "/l"
            run([exe], env=dict(e, VFC_BACKENDS=opt), cwd=w, timeout=100)
            if r.random() < 0.8 and os.path.exists(w + "/prof"):
                es = fgen.parse_profile(open(w + "/prof").read())
                fgen.assign(r, es)
                wit = fgen.write_profile(es)
                if r.random() < 0.3:
                    wit = mutate(r, wit)
                open(w + "/in", "w", errors="surrogateescape").write(wit)
                opt = "libinterflop_vprec.so --mode=%s --instrument=%s --prec-input-file=%s/in --prec-output-file=%s/o --prec-log-file=%s/tr" % (r.choice(("full", "ib", "ob")), r.choice(("all", "arguments", "operations")), w, w, w)
            x = run(VG + [exe], env=dict(e, VFC_BACKENDS=opt), cwd=w, timeout=300)
        shutil.rmtree(w, ignore_errors=True)
        return kind, wit, x
    with ThreadPoolExecutor(NPROC) as ex:
        for kind, wit, x in ex.map(job, range(n)):
            if x.timeout:
                raise Hang("a program under memcheck timed out: %s" % wit[:300])
            if x.rc == -4 and b"SIGILL" in x.err:
                chk.count("runs memcheck cannot execute (instructions it lacks)")
                continue
            chk.observe(1, ("uninit", kind, x.rc))
            chk.count("runs watched for uninitialised reads")
            m = UNINIT.search(x.err)
            if m:
                fr = re.search(rb"(?:at|by) 0x[0-9A-F]+: (\w+)", x.err[m.start():])
                sig = (kind, fr and fr.group(1))
                if sig not in seen and len(seen) < 5:
                    seen.add(sig)
                    chk.violation("%s %r: %s in %s" % (kind, wit[:200], m.group(1).decode(errors="replace"), fr.group(1).decode() if fr else "?"), {"input": wit[:5000], "report": x.err[-3000:].decode(errors="replace")})


def body(chk):
    pre = vbuild.build("std")
    apre = vbuild.build("asan")
    drv = build_drv(pre, san=ASAN, sanlib=apre)
    mon = Mon(chk, apre)
    d = chk.tmp("b")
    os.makedirs(d)
    open(d + "/p.c", "w").write(PROG)
    vfc_must(pre, ["-O1", "-c", "p.c", "-o", "p.o"], cwd=d)
    san_link(pre, apre, ASAN, [], ["p.o"], "p", d)
    vfc_must(pre, ["-O1", "-g", "--ddebug", "-c", "p.c", "-o", "q.o"], cwd=d)
    san_link(pre, apre, ASAN, ["-DDDEBUG"], ["q.o"], "q", d)
    # the sanitizers must see through the whole stack
    must([CLANG, "-g", "-w"] + ASAN + ["-x", "c", "-", "-o", d + "/ctl"], stdin=b"#include <stdlib.h>\nint main(int c, char **v) { volatile char *p = malloc(4); p[3 + c] = 1; return 0; }")
    if not REPORT.search(run([d + "/ctl"], env=mon.env()).err):
        raise Inconclusive("AddressSanitizer does not report the control fault")
    e = mon.env(VFC_BACKENDS="libinterflop_ieee.so", VFC_DDEBUG_GEN=d + "/gen", VFC_BACKENDS_SILENT_LOAD="True")
    res = run([d + "/q"], env=e, timeout=120)
    mon.judge("VFC_DDEBUG_GEN", res, None, ("gen",))
    good = open(d + "/gen").read() if os.path.exists(d + "/gen") else ""
    operands(chk, mon, drv, chk.n(160, 3000))
    configurations(chk, mon, d + "/p", chk.n(900, 20000))
    filters(chk, mon, d + "/q", good, chk.n(150, 3000))
    profiles(chk, mon, pre, chk.n(24, 400), 25)
    probes(chk, mon, chk.n(12, 200))
    uninit(chk, pre, chk.n(80, 2000))


if __name__ == "__main__":
    run_check("C18", "AddressSanitizer and UBSan over wrapper, backends, support libraries and probes: hostile operands, options, user calls and threads; configurations valid, faulty and mutated byte by byte with "
              "hostile diagnostic variables; delta-debug filter files and function profiles, truncated, mutated and inconsistent; probes and map under random histories; the ordinary build under memcheck for decisions on uninitialised values; distinct = input class x outcome", body,
              ["float-to-integer conversions and divisions by zero of values are not judged here", "memory leaks are not judged"])
