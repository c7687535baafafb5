#!/usr/bin/env python3
"""C04: only the selected functions are instrumented, and all of them are."""
import sys, os, re
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, progen, monlog, random

INST = {"fma": "--inst-fma", "cast": "--inst-cast", "cmp": "--inst-fcmp"}
MODS = ["a.c", "ab.c", "util.c", "dir/a.c", "dir/util.c", "dir/sub/mod.c", "lib.v2/a.c", "main_1.c", "dir/x.y.c"]
TWINS = [["dir/x.y.c", "dir/xzy.c"], ["lib.v2/a.c", "lib_v2/a.c"], ["a.c", "ab.c"], ["x.y.c", "dir/xay.c"]]
NAMES = ["f", "f1", "f10", "f2", "g", "gf", "g_f1", "main_loop", "F1", "compute", "comp", "_h", "aff"]


def glob_re(p):
    return re.compile("".join(".*" if c == "*" else re.escape(c) for c in p) + r"\Z", re.S)


def mod_matches(pat, path):
    """documented rule: relative names match in any directory, a missing extension matches any"""
    if not pat.startswith("/"):
        pat = "*/" + pat
    base = pat.rsplit("/", 1)[1]
    if "." not in base:
        pat += ".*"
    return bool(glob_re(pat).match(path))


def matches(lines, path, fun):
    return any(mod_matches(m, path) and glob_re(f).match(fun) for m, f in lines)


def selected(sel, path, fun):
    kind, fn, inc, exc = sel
    if kind == "function":
        return bool(re.fullmatch(fn, fun))
    if inc is not None and matches(inc, path, fun):
        return True
    if exc is not None:
        return not matches(exc, path, fun)
    return inc is None


def mod_pat(r, mods, root):
    m = r.choice(mods)
    k = r.randrange(9)
    b = os.path.basename(m)
    if k == 0:
        return "*"
    if k == 1:
        return m
    if k == 2:
        return b
    if k == 3:
        return b.rsplit(".", 1)[0] if b.count(".") == 1 else m
    if k == 4:
        return m.rsplit(".", 1)[0] if b.count(".") == 1 else b
    if k == 5:
        return root + "/" + m
    if k == 6:
        return b[:r.randint(1, 2)] + "*"
    if k == 7:
        return (os.path.dirname(m) or "nowhere") + "/*"
    return r.choice(("nomodule", "*." + b.rsplit(".", 1)[1], "*tmp*", "util.c", "til", "a"))


def fun_pat(r, funs):
    f = r.choice(funs)
    k = r.randrange(7)
    if k <= 2:
        return f
    if k == 3:
        return f[0] + "*"
    if k == 4:
        return "*" + f[-1]
    if k == 5:
        return f[0] + "*" + f[-1] if len(f) > 1 else "*"
    return r.choice(("*", "nofun", f[:-1] or "zz", f + "1"))


def write_list(path, lines, r):
    with open(path, "w") as f:
        if r.random() < 0.4:
            f.write("# comment * *\n\n")
        for m, fn in lines:
            f.write(m + r.choice((" ", "  ", " ")) + fn + r.choice(("", "", " ")) + "\n")
            if r.random() < 0.2:
                f.write(r.choice(("\n", "#* *\n", "   \n")))


def one(chk, pre, mon, seed, kind):
    r = random.Random(seed)
    mods = r.sample(MODS, r.randint(2, 4)) if r.random() < 0.7 else r.choice(TWINS) + ["main_1.c"]
    opt = r.choice(("-O0", "-O0", "-O2", "-O1"))
    O0 = opt == "-O0"
    allk = ("fma", "cast", "cmp") if O0 else ("fma", "cast")
    g = progen.Gen(r, nfun=r.randint(5, 9), volatile=not O0, consts=O0, neg=O0, kinds=allk, size=4, names=NAMES, mods=mods)
    kinds = [k for k in allk if r.random() < 0.5]
    inp = progen.inputs(r)
    salt = r.choice((1, 2, 5, 3))
    d = os.path.join(chk.work, "p%s" % seed)
    funs = [f["name"] for f in g.funs]
    fn = inc = exc = None
    if kind == "function":
        fn = r.choice(funs + ["f1", "nofun"]) if r.random() < 0.7 else r.choice(("f.*", "g|f1", ".*f1?", "f"))
    if kind in ("include", "both"):
        inc = [(mod_pat(r, mods, d), fun_pat(r, funs)) for _ in range(r.randint(0 if kind == "both" else 1, 4))] if r.random() < 0.9 else []
    if kind in ("exclude", "both"):
        exc = [(mod_pat(r, mods, d), fun_pat(r, funs)) for _ in range(r.randint(1, 4))] if r.random() < 0.9 else []
    sel = (kind, fn, inc, exc)
    chosen = {f["i"]: selected(sel, d + "/" + f["mod"], f["name"]) for f in g.funs}
    m = progen.Model(g, inp, salt, kinds, inst=lambda f: chosen[f["i"]])
    try:
        ev, out = m.run(1)
    except progen.Budget:
        return [], 0, [], None
    os.makedirs(d)
    bad = []
    try:
        for q in mods:
            os.makedirs(os.path.dirname(d + "/" + q), exist_ok=True)
            with open(d + "/" + q, "w") as f:
                f.write(g.unit([x for x in g.funs if x["mod"] == q]))
        with open(d + "/zmain.c", "w") as f:
            f.write(g.main_text(inp, 1))
        flags = [INST[k] for k in kinds] + [opt, "-ffp-contract=off", "-w", "-fno-math-errno"]
        if not O0:
            flags += ["-fno-slp-vectorize", "-fno-vectorize"]
        if fn is not None:
            flags.append("--function=" + fn)
        ff = r.choice(("inc.txt", d + "/inc.txt"))
        if inc is not None:
            write_list(d + "/inc.txt", inc, r)
            flags.append("--include-file=" + ff)
        if exc is not None:
            write_list(d + "/exc.txt", exc, r)
            flags.append("--exclude-file=exc.txt")
        style = r.randrange(3)
        srcs = [q if style == 0 else "./" + q if style == 1 else d + "/" + q for q in mods]
        must([CLANG, "-O0", "-w", "-c", "zmain.c", "-o", "zmain.o"], cwd=d)
        vfc_must(pre, flags + ["-c"] + srcs, cwd=d)
        objs = [os.path.splitext(q)[0] + ".o" for q in mods]
        vfc_must(pre, flags + ["zmain.o"] + objs + ["-o", "p", "-lm"], cwd=d)
        res = run([d + "/p"], env=envof(pre, "%s --salt=%d" % (mon, salt), VERIF_LOG=d + "/log"), timeout=60)
        cfg = "%s%s%s%s %s" % (kind, " " + fn if fn else "", " include=%s" % inc if inc is not None else "", " exclude=%s" % exc if exc is not None else "", opt)
        cfg = cfg.replace(d, "$D")
        w = {"seed": str(seed), "flags": flags, "functions": [(f["mod"], f["name"], chosen[f["i"]]) for f in g.funs]}
        if res.timeout:
            raise Hang("program timed out")
        if res.rc != 0:
            return [("[%s] the program died with status %s: %s" % (cfg, res.rc, res.err[-200:]), w)], 0, [], None
        got = monlog.arith(monlog.read(d + "/log")) if os.path.exists(d + "/log") else []
        want = monlog.canon_model(ev)
        if not O0:
            def comm(e):
                return e[:3] + tuple(sorted(e[3:5], key=str)) + e[5:] if e[0] in (ADD, MUL, FMA) else e
            got, want = [comm(e) for e in got], [comm(e) for e in want]
        a, b = Counter(got), Counter(want)
        if a != b or (O0 and got != want):
            x, y = list((a - b).items())[:1], list((b - a).items())[:1]
            bad.append(("[%s] selection %s: %d backend calls for %d operations in selected functions; extra %s, missing %s" % (
                cfg, w["functions"], len(got), len(want), [(monlog.show_ev(e), n) for e, n in x], [(monlog.show_ev(e), n) for e, n in y]), w))
        if res.out.decode(errors="replace") != out:
            bad.append(("[%s] selection %s: the program's output differs from native results outside and backend results inside the selected functions" % (cfg, w["functions"]), w))
        non = sum(chosen.values())
        keys = [(kind, opt, chosen[f["i"]], f["name"]) for f in g.funs]
        return bad, len(want) + m.native, keys, (cfg, w["functions"], len(want), m.native)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body(chk):
    pre = vbuild.build("std")
    mon = monlog.build_mon(chk, pre)
    r = chk.rng
    jobs = []
    for k in range(chk.n(80, 900)):
        jobs.append((r.getrandbits(40), ("include", "exclude", "both", "function", "include", "both", "exclude", "none")[k % 8]))
    with ThreadPoolExecutor(NPROC) as ex:
        for (bad, n, keys, smp), j in zip(ex.map(lambda j: one(chk, pre, mon, *j), jobs), jobs):
            chk.observe(n)
            chk.distinct.update(keys)
            chk.count("programs")
            for w in bad:
                chk.violation(*w)
            if smp:
                chk.count("operations in selected functions", smp[2])
                chk.count("operations in other functions", smp[3])
                chk.sample({"selection": smp[0], "functions": smp[1]})


run_check("C04", "random multi-module programs (static functions of equal names in different modules and directories, calls across modules) compiled under random "
          "selections, run under a monitor backend that alters results; recorded events and printed values against a model of the selection; "
          "distinct = kind of selection x level x selected or not x function name", body,
          ["above -O0 all variables are volatile and functions are not inlined, so an operation belongs to the function it is written in"])
