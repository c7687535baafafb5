#!/usr/bin/env python3
"""C28: the driver forwards the command line verbatim, makes what was asked, fails loudly and cleans up."""
import sys, os, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import monlog
from concurrent.futures import ThreadPoolExecutor

ODD = ["plain", "a b", "it's", "x$HOME", "d&e", "p;q", "(r)", "\u00fc", "s*t", "h#i", "a=b", "m.n", "b`c", "q\"r", "t\\u", "-in-", "two  spaces", "$(id)", "ex!", "[z]", "{a,b}", "~t", "%d"]
CLANG = "/usr/lib/llvm-18/bin/clang"


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def snap(d):
    out = {}
    for root, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            st = os.lstat(p)
            out[os.path.relpath(p, d)] = (st.st_size, st.st_mtime_ns)
    return out


class Src:
    pass


def make(r, lang, n, asm):
    """sources of a project: list of Src (path relative to the project, text)"""
    dirs = [""] + [r.choice(ODD) + "/" for _ in range(2)]
    out, names = [], set()
    exts = {"c": [".c"], "c++": [".cc", ".cpp", ".cxx", ".c++", ".cp"]}[lang]
    for k in range(n):
        s = Src()
        while True:
            s.path = r.choice(dirs) + r.choice(ODD) + str(k) * (r.random() < 0.5) + r.choice(exts)
            key = os.path.splitext(s.path)[0]
            if key not in names and not s.path.startswith("-"):
                break
        names.add(key)
        s.k = k
        s.asm = False
        out.append(s)
    if asm:
        s = Src()
        s.path, s.k, s.asm = r.choice(dirs) + "as m" + r.choice((".s", ".S")), n, True
        out.append(s)
    ext = 'extern "C" ' if lang == "c++" else ""
    for s in out:
        if s.asm:
            s.text = ".text\n.globl asmf\n.type asmf,@function\nasmf:\n.include \"v.inc\"\n movl $ASMV, %eax\n ret\n.section .note.GNU-stack,\"\",@progbits\n"
            continue
        L = ["#include <stdio.h>", '#include "h.h"', "#define S_(x) #x", "#define S(x) S_(x)",
             "#ifndef MSTR", "#define MSTR \"none\"", "#endif", "#ifndef MRAW", "#define MRAW none", "#endif", "#ifndef MNUM", "#define MNUM -1", "#endif"]
        L += ["%svoid g_%d(void);" % (ext, i.k) for i in out if not i.asm] + ["%sint asmf(void); %sint libf(int);" % (ext, ext)]
        L += ["%s__attribute__((noinline)) void g_%d(void) {" % (ext, s.k), "volatile double a = %d.5, b = 3.25, c = 7.125;" % (s.k + 1),
              'printf("%d %%s %%s %%s %%d %%s\\n", __FILE__, MSTR, S(MRAW), (int)MNUM, HK);' % s.k,
              'printf("%a ", a + b); printf("%a ", __builtin_fma(a, b, c)); printf("%a ", (double)(float)(a / c)); printf("%d\\n", a < b);']
        L += ["#ifdef WANT_UNDEF", "printf(\"undef missing\\n\");", "#endif", "fflush(stdout); }"]
        if s.k == 0:
            L += ["#ifndef NOMAIN", "int main(int argc, char **argv) { for (int i = 1; i < argc; i++) printf(\"<%s>\\n\", argv[i]);"]
            L += ["g_%d();" % i.k for i in out if not i.asm]
            if asm:
                L += ['printf("%d\\n", asmf());']
            L += ["#ifdef WANT_LIB", 'printf("%d\\n", libf(5));', "#endif", "fflush(stdout); return 23; }", "#endif"]
        s.text = "\n".join(L) + "\n"
    return out


def lay(d, srcs, incdir, hk):
    for s in srcs:
        p = os.path.join(d, s.path)
        os.makedirs(os.path.dirname(p) or d, exist_ok=True)
        with open(p, "w") as f:
            f.write(s.text)
    os.makedirs(os.path.join(d, incdir), exist_ok=True)
    with open(os.path.join(d, incdir, "h.h"), "w") as f:
        f.write("#define HK %s\n" % cstr(hk))


def common_options(r, incdir):
    o = []
    o += r.choice((["-I" + incdir], ["-I", incdir], ["-isystem", incdir], ["-iquote", incdir]))
    if r.random() < 0.7:
        o += ["-DMSTR=" + cstr("v " + "".join(r.choice(ODD) for _ in range(2)) + r.choice(("", ".c", ".cc", " -c x.c", "\t")))]
    if r.random() < 0.5:
        o += ["-DMRAW=" + r.choice(("foo.c", "x.cpp", "y.s", "z.bc", "-lm", "a+b", "n.f90", "-c"))]
    if r.random() < 0.5:
        o += ["-DMNUM=" + r.choice(("12", "(3+4)", "(1<2)", "('a')", "0x10"))]
    if r.random() < 0.3:
        o += ["-DWANT_UNDEF", "-UWANT_UNDEF"]
    if r.random() < 0.3:
        o += [r.choice(("-Wall", "-w", "-g", "-Wno-unknown-warning-option", "-fno-inline", "-fstack-protector"))]
    o += [r.choice(("-O0", "-O1", "-O2", "-O3"))]
    o += ["-ffp-contract=off"]
    return o


def inst_options(r):
    return [x for x in ("--inst-fma", "--inst-cast", "--inst-fcmp") if r.random() < 0.5]


def expect_events(srcs, inst, only=None):
    n = sum(1 for s in srcs if not s.asm and (only is None or s.k == only))
    return {monlog.M_ADD: n, monlog.M_DIV: n, monlog.M_FMA: n * ("--inst-fma" in inst), monlog.M_CAST: n * ("--inst-cast" in inst),
            monlog.M_CMP: n * ("--inst-fcmp" in inst)}


def one(chk, pre, mon, it, seed):
    r = random.Random(seed)
    bad = []
    root = os.path.join(chk.tmp("p%d" % it), r.choice(ODD))
    V, P = root + "/v", root + "/p"
    os.makedirs(V), os.makedirs(P)
    lang = r.choice(("c", "c", "c", "c++"))
    kind = r.choice(("link", "link", "steps", "steps", "multi-c", "shared", "E", "S", "emit", "temps", "fail", "fail", "function", "lists"))
    n = r.choice((1, 1, 2, 3)) if kind not in ("emit", "E", "S") else 1
    asm = r.random() < 0.4 and kind in ("link", "steps", "multi-c")
    srcs = make(r, lang, n, asm)
    incdir, hk = r.choice(ODD) + "_inc", "hk " + r.choice(ODD)
    if incdir.startswith("-"):
        incdir = "./" + incdir
    for d in (V, P):
        lay(d, srcs, incdir, hk)
    opts, inst = common_options(r, incdir), inst_options(r)
    if asm:     # .include uses the include path
        opts += ["-I" + incdir]
        for d in (V, P):
            with open(os.path.join(d, incdir, "v.inc"), "w") as f:
                f.write(".set ASMV, %d\n" % (it + 100))
    gen = [x for x in ("-ffunction-sections", "-fdata-sections", "-fno-asynchronous-unwind-tables") if r.random() < 0.3]
    opts += gen
    trace = []

    def v(args, d=V):
        trace.append(args)
        return vfc(pre, args, cwd=d, lang=lang)

    def c(args, d=P):
        return run([CLANG + ("++" if lang == "c++" else "")] + args, cwd=d)

    def plain(args, d=P):
        x = c(args, d)
        if x.rc != 0:
            raise Inconclusive("plain compiler refuses %r: %s" % (args, x.err[-300:]))
        return x

    def fail(what):
        bad.append(("%s %s: %s" % (lang, kind, what), {"commands": trace, "sources": [s.path for s in srcs], "seed": seed}))

    def ok(x, what="the command"):
        if x.timeout:
            raise Hang("driver timed out")
        if x.rc != 0:
            fail("%s fails (status %d) although the plain compiler accepts it: %s" % (what, x.rc, x.err.decode(errors="replace")[-300:]))
            return False
        return True

    def newfiles(before, allowed, d=V, pattern=None):
        after = snap(d)
        new = [f for f in after if f not in before or (before[f] != after[f])]
        extra = [f for f in new if os.path.normpath(f) not in [os.path.normpath(a) for a in allowed] and not (pattern and re.search(pattern, os.path.basename(f)))]
        if extra:
            fail("files left behind: %s" % extra[:4])
        gone = [f for f in before if f not in after]
        if gone:
            fail("files removed: %s" % gone[:4])
        chk.observe(1, ("files", kind))
        return new

    def compare(exe, inst, only=None, exep=None):
        a = ["x y", "$HOME", "*"]
        if not os.path.exists(os.path.join(V, exe)):
            fail("the requested output %r does not exist" % exe)
            return
        x = run([os.path.join(V, exe)] + a, env=envof(pre, "libinterflop_ieee.so"), cwd=V)
        y = run([os.path.join(P, exep or exe)] + a, cwd=P)
        if (x.rc, x.out) != (y.rc, y.out):
            fail("the program gives status %s %r; the plain one %s %r" % (x.rc, x.out[:300], y.rc, y.out[:300]))
        lg = os.path.join(root, "log")
        if os.path.exists(lg):
            os.unlink(lg)
        x = run([os.path.join(V, exe)] + a, env=envof(pre, mon, VERIF_LOG=lg), cwd=V)
        got = {}
        if os.path.exists(lg):
            for e in monlog.read(lg):
                if e["op"] <= monlog.M_CMP:
                    got[e["op"]] = got.get(e["op"], 0) + 1
        want = {k: w for k, w in expect_events(srcs, inst, only).items() if w}
        if got != want:
            fail("operations that reach the backend %r, requested %r (options %s)" % (got, want, inst))
        chk.observe(1, ("run", kind, lang, tuple(inst)))

    def sections(o, s):
        """options of the code generation: sections of the object for the functions and data of the source"""
        if s.asm or not gen:
            return
        got = []
        for d in (V, P):
            y = run(["readelf", "-SW", o], cwd=d)
            got.append(sorted(z for z in set(re.findall(r"\s(\.[\w.]+)\s", y.out.decode(errors="replace"))) if re.match(r"\.(text|eh_frame)(\.(g_\d+|main))?$", z)))
        if got[0] != got[1]:
            fail("sections of the object with %s: %s, those of the plain compiler %s" % (gen, got[0], got[1]))
        chk.observe(1, ("sections", tuple(gen)))

    obj = lambda s: os.path.splitext(s.path)[0] + ".o"
    paths = [s.path for s in srcs]
    before = snap(V)
    if kind in ("link", "temps", "function", "lists"):
        out = r.choice(("a.out", r.choice(ODD) + ".x", "dir/" + "o ut"))
        os.makedirs(V + "/dir"), os.makedirs(P + "/dir")
        if out.startswith("-"):
            out = "./" + out
        extra, extrap, only = [], [], None
        if r.random() < 0.6 and kind == "link":
            ld = r.choice(ODD) + "_lib"
            ld = "./" + ld if ld.startswith("-") else ld
            # archives that need one another are named in order, and again
            libs = {"odd": {"l": "int libf(int x) { return x * 3; }\n"}}
            if r.random() < 0.6:
                libs = {"odd": {"l": "int libg(int); int libf(int x) { return libg(x + 1); }\n", "m": "int libh(int x) { return x * 7; }\n"}, "even": {"n": "int libh(int); int libg(int x) { return libh(x) - 2; }\n"}}
            for d in (V, P):
                os.makedirs(os.path.join(d, ld))
                for lb, mem in libs.items():
                    for o, t in mem.items():
                        with open(os.path.join(d, "dir", o + ".c"), "w") as f:
                            f.write(t)
                        must([CLANG, "-c", "dir/%s.c" % o, "-o", "dir/%s.o" % o], cwd=d)
                    must(["ar", "rc", os.path.join(d, ld, "lib%s.a" % lb)] + [os.path.join(d, "dir/%s.o" % o) for o in mem])
            extra += ["-DWANT_LIB", "-L" + ld, "-lodd"] + (["-leven", "-lodd"] if len(libs) > 1 else [])
            extrap = list(extra)
        sv = []
        if kind == "function":
            only = r.randrange(n)
            sv = ["--function", "g_%d" % only] if r.random() < 0.5 else ["--function=g_%d" % only]
        if kind == "lists":
            only = r.randrange(n)
            lf = "li st's.txt"
            with open(os.path.join(V, lf), "w") as f:
                f.write("* g_%d\n" % only)
            sv = [r.choice(("--include-file=", "--include-file ")) + lf]
            if sv[0].startswith("--include-file "):
                sv = ["--include-file", lf]
        if kind == "temps":
            sv = ["--save-temps"]
        if r.random() < 0.15:
            sv.append("--show-cmd")
        before = snap(V)
        oo = [] if out == "a.out" and r.random() < 0.7 else r.choice((["-o", out], ["-o", out], ["-o" + out]))
        parts = [opts, inst, sv, paths, oo]
        r.shuffle(parts)
        plain([a for p in parts if p is not inst and p is not sv for a in p] + extrap + ["-lm"])
        if ok(v([a for p in parts for a in p] + extra + ["-lm"])):
            newfiles(before, [out] + [obj(s) for s in srcs], pattern=r"(\.[123]\.ll$|^\.vfcwrapper\..*\.ll$)" if kind == "temps" else None)
            if kind == "temps" and not any(f.endswith(".ll") for f in snap(V)):
                fail("--save-temps keeps no intermediate file")
            compare(out, inst, only)
    elif kind == "steps":
        objs = []
        for s in srcs:
            o = r.choice(("", "ob js/")) + "o%d" % s.k + r.choice((".o", " x.o"))
            os.makedirs(V + "/ob js", exist_ok=True), os.makedirs(P + "/ob js", exist_ok=True)
            objs.append(o)
            b = snap(V)
            dep, df = [], None
            if r.random() < 0.4 and not s.asm:      # dependencies for make
                df = os.path.splitext(o)[0] + ".d"
                dep = [r.choice(("-MD", "-MMD"))] + r.choice(([], ["-MP"]))
                if r.random() < 0.5:
                    df = "de p%d" % s.k
                    dep += r.choice((["-MF", df], ["-MF" + df]))
                if r.random() < 0.4:
                    dep += r.choice((["-MT", "target"], ["-MQ", "$(x) target"], ["-MQtarget"], ["-MTa", "-MT", "b"]))
            a = ["-c", s.path] + r.choice((["-o", o], ["-o" + o])) + opts + dep
            plain(a)
            if not ok(v(inst + a)):
                return bad
            newfiles(b, [o] + ([df] if df else []))
            sections(o, s)
            if df:
                if not os.path.exists(os.path.join(V, df)):
                    fail("the dependencies are not in %s" % df)
                else:   # the header of the prelude of the driver is not included by the sources
                    x, y = [open(os.path.join(d, df)).read() for d in (V, P)]
                    if x != y:
                        fail("dependencies %r, those of the plain compiler %r" % (x[:200], y[:200]))
                chk.observe(1, ("dependencies", tuple(dep)))
        b = snap(V)
        plain(objs + ["-o", "exe", "-lm"])
        if ok(v(inst + objs + ["-o", "exe", "-lm"])):
            newfiles(b, ["exe"])
            compare("exe", inst)
    elif kind == "multi-c":
        if ok(v(["-c"] + inst + opts + paths)):
            newfiles(before, [obj(s) for s in srcs])
            plain(opts + paths + ["-o", "exe", "-lm"])
            b = snap(V)
            if ok(v(inst + [obj(s) for s in srcs] + ["-o", "exe", "-lm"])):
                newfiles(b, ["exe"])
                compare("exe", inst)
    elif kind == "shared":
        with open(root + "/main.c", "w") as f:
            f.write("".join("void g_%d(void);\n" % s.k for s in srcs) + "int main(void) { %s return 9; }\n" % " ".join("g_%d();" % s.k for s in srcs))
        b = snap(V)
        a = ["-shared", "-fPIC", "-DNOMAIN"] + opts + paths + ["-o", "libshared.so", "-lm"]
        plain(a)
        if ok(v(inst + a)):
            newfiles(b, ["libshared.so"] + [obj(s) for s in srcs])
            for d in (V, P):
                must([CLANG, root + "/main.c", "-o", "exe", "-L.", "-lshared", "-Xlinker", "-rpath", "-Xlinker", d], cwd=d)
            compare("exe", inst)
    elif kind in ("E", "S"):
        o = "o ut." + kind
        a = ["-" + kind, paths[0]] + [x for x in opts if x != "-g"]     # the directory is in the debug information
        with_o = r.random() < 0.6 or kind == "S"
        if with_o:
            a += ["-o", o]
        y = plain(a)
        x = v(inst + a)
        if ok(x):
            newfiles(before, [o] if with_o else [])
            if with_o and (not os.path.exists(V + "/" + o) or open(V + "/" + o).read() != open(P + "/" + o).read()):
                fail("the output of -%s differs from that of the plain compiler" % kind)
            if not with_o and x.out != y.out:
                fail("the output of -%s differs from that of the plain compiler" % kind)
            chk.observe(1, (kind, lang))
    elif kind == "emit":
        a = r.choice((["-c"], [])) + ["--emit-llvm", paths[0], "-o", "w b.bc"] + opts
        if ok(v(inst + a)):
            newfiles(before, ["w b.bc"])
            x = run(["/usr/lib/llvm-18/bin/llvm-dis", "w b.bc", "-o", "-"], cwd=V)
            if x.rc != 0:
                fail("the bitcode is not valid: %r" % x.err[-200:])
            for f in ["_doubleadd", "_doublediv"] + ["_doublefma"] * ("--inst-fma" in inst) + ["_doubletofloatcast"] * ("--inst-cast" in inst):
                if not re.search(rb"define [^\n]*@" + f.encode() + rb"\(", x.out) or not re.search(rb"call [^\n]*@" + f.encode() + rb"\(", x.out):
                    fail("the bitcode has no instrumentation built in (%s)" % f)
            chk.observe(1, (kind, lang, tuple(inst)))
            plain(opts + paths + ["-o", "exe", "-lm"])
            y = run([CLANG + ("++" if lang == "c++" else ""), "w b.bc", "-o", "exe", "-L" + pre + "/lib", "-linterflop_stdlib", "-linterflop_hashmap", "-linterflop_logger", "-ldl", "-lm",
                     "-Wl,-rpath," + pre + "/lib"], cwd=V)
            if y.rc != 0:
                fail("the bitcode does not link: %r" % y.err[-300:])
            else:
                compare("exe", inst)
    else:
        what = r.choice(("syntax", "missing", "undef", "header", "multi-o", "no input", "function+list", "nolist", "include-list", "option", "outdir"))
        s = r.choice([s for s in srcs if not s.asm])
        step = r.random() < 0.5
        allowed = [obj(x) for x in srcs]
        outs = ["-c", s.path, "-o", "x.o"] if step else paths + ["-o", "x.o"]
        args = None
        if what == "syntax":
            with open(os.path.join(V, s.path), "a") as f:
                f.write("\nint broken( { ;\n")
        elif what == "missing":
            os.unlink(os.path.join(V, s.path))
        elif what == "undef":
            with open(os.path.join(V, s.path), "a") as f:
                f.write('\n#ifdef __cplusplus\nextern "C"\n#endif\nvoid nowhere(void);\nvoid caller(void) { nowhere(); }\n')
            outs = paths + ["-o", "x.o"]
        elif what == "header":
            os.unlink(os.path.join(V, incdir, "h.h"))
        elif what == "multi-o":
            args = ["-c", s.path, s.path, "-o", "x.o"] + opts
        elif what == "no input":
            args = r.choice((["-c"], ["-c", "-O2"], [], ["-o", "x.o"], ["-c", "-o", "x.o"]))
        elif what == "function+list":
            with open(V + "/l", "w") as f:
                f.write("* g_0\n")
            args = outs + opts + ["--function", "g_0", "--include-file", "l"]
        elif what == "nolist":
            args = outs + opts + [r.choice(("--include-file", "--exclude-file")), "no such"]
        elif what == "include-list":
            with open(V + "/l", "w") as f:
                f.write("oneword\n")
            args = outs + opts + [r.choice(("--include-file", "--exclude-file")), "l"]
        elif what == "option":
            args = outs + opts + [r.choice(("-fno-such-option-at-all", "-std=nonsense", "--linker=nonsense"))]
        elif what == "outdir":
            outs = (["-c", s.path] if step else paths) + ["-o", "nodir/x.o"]
        before = snap(V)
        x = v(args if args is not None else inst + outs + opts)
        if x.timeout:
            raise Hang("driver timed out")
        if x.rc == 0:
            fail("%s: the driver returns 0" % what)
        if not x.err.strip():
            fail("%s: the driver fails without a message" % what)
        newfiles(before, allowed)
        for o in ("x.o", "nodir/x.o"):
            if os.path.exists(os.path.join(V, o)):
                fail("%s: the failed command left the output %s" % (what, o))
        chk.observe(1, ("fail", what, step))
    chk.sample({"commands": trace[:2], "kind": kind})
    chk.count("command lines", len(trace))
    chk.count("kind " + kind)
    shutil.rmtree(chk.tmp("p%d" % it), ignore_errors=True)
    return bad


def body(chk):
    pre = vbuild.build("std")
    mon = monlog.build_mon(chk, pre)
    n = chk.n(110, 900)
    with ThreadPoolExecutor(NPROC) as ex:
        for bad in ex.map(lambda x: one(chk, pre, mon, *x), [(i, chk.rng.getrandbits(48)) for i in range(n)]):
            for what, w in bad:
                chk.violation(what, w)


run_check("C28", "random command lines of the C and C++ drivers (names, macros and paths with blanks, quotes and shell characters; one and several steps, shared objects, bitcode, "
          "preprocessing, failures); behaviour against the plain compiler, events at the backend, files created; distinct = kind of command x options", body,
          ["sources given with -x and separate values of options that look like sources are outside the workload"])
