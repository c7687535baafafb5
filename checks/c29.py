#!/usr/bin/env python3
"""C29: the precision search (vfc_precexp), on stand-in programs with a known acceptance predicate and on real programs."""
import sys, os, csv
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/vp/venv/bin/python"
OPF = {"Prec64": (5, 52, 1), "Range64": (6, 11, 2), "Prec32": (7, 23, 1), "Range32": (8, 8, 2)}
COLS = ["ID", "Lib", "Int", "Float", "Double", "Prec64", "Range64", "Prec32", "Range32", "Ninputs", "Noutputs", "Ncalls"]


class Fun:
    def __init__(s, row, args):
        s.row, s.args = list(row), [list(a) for a in args]      # row: strings; args: [io, name, type, prec, range, min, max]
        s.id = s.row[0]
        p = s.id.rsplit("/", 4)
        s.parent, s.name = p[1], p[2]


def parse(txt):
    """profile or configuration -> [Fun]"""
    out = []
    ls = txt.splitlines()
    i = 0
    while i < len(ls):
        row = ls[i].split("\t")
        if len(row) != 12:
            raise ValueError("line %d: %d fields" % (i + 1, len(row)))
        n = int(row[9]) + int(row[10])
        args = [l.split("\t") for l in ls[i + 1:i + 1 + n]]
        if len(args) != n or any(len(a) != 7 for a in args):
            raise ValueError("function %s: arguments missing or malformed" % row[0])
        for k, a in enumerate(args):
            if a[0] != ("input:" if k < int(row[9]) else "output:"):
                raise ValueError("function %s: argument %d is %s" % (row[0], k, a[0]))
        out.append(Fun(row, args))
        i += 1 + n
    return out


def text(fs):
    return "".join("\t".join(map(str, f.row)) + "\n" + "".join("\t".join(map(str, a)) + "\n" for a in f.args) for f in fs)


def gen(r):
    fs = []
    n = r.choice((1, 1, 2, 3, 4, 6))
    names = ["f%d" % i for i in range(4)] + ["main", "_ZN3foo3barEd", "sqrt"]
    ids = set()
    for k in range(n):
        while True:
            i = "%s/%s/%s/%d/%d" % (r.choice(("a.c", "dir/b.c", "/abs/c d.c")), r.choice(names), r.choice(names), r.randint(1, 40), r.randint(1, 5))
            if i not in ids:
                break
        ids.add(i)
        lib, intr = r.choice(((0, 0), (0, 0), (0, 0), (1, 0), (0, 1)))
        nin, nout = r.choice((0, 1, 2, 3)), r.choice((0, 1, 1, 2))
        args = []
        for a in range(nin + nout):
            ty = r.choice((0, 1, 1, 3, 4, 2))
            p, q = ((23, 8), (52, 11), (112, 15))[(0, 1, 2, 0, 1)[ty]]
            args.append(["input:" if a < nin else "output:", r.choice(("x", "y", "arg%d" % a, "return_value")), ty, p, q, r.choice((0, -5, -2147483648)), r.choice((0, 9, 2147483647))])
        fs.append(Fun([i, lib, intr, r.randint(0, 1), r.randint(0, 1), 52, 11, 23, 8, nin, nout, r.choice((1, 2, 2, 10, 123456789))], args))
    return fs


def fields(fs, mode):
    """the formats that the search may change: (function index, argument or None, column, maximum, minimum)"""
    out = []
    for k, f in enumerate(fs):
        if mode in ("arguments", "all"):
            for a, x in enumerate(f.args):
                if x[2] in (0, 1, 3, 4):
                    d = x[2] in (1, 4)
                    out.append((k, a, 3, 52 if d else 23, 1))
                    out.append((k, a, 4, 11 if d else 8, 2))
        if mode in ("operations", "all") and not f.row[1] and not f.row[2]:
            for nm, (c, mx, mn) in OPF.items():
                if f.row[4 if "64" in nm else 3]:
                    out.append((k, None, c, mx, mn))
    return out


def results(d, mode, sel):
    """configuration made of the results written by the tool, in the order of the profile"""
    data = d + "/vfc_exp_data/"
    ops = args = None
    if mode == "operations":
        ops = "OperationsResults.csv"
    elif mode == "arguments":
        args = "ArgumentsResults.csv"
    else:
        ops, args = "AllOpsResults.csv", "AllArgsResults.csv"
    out = [Fun(f.row, f.args) for f in sel]
    byid = {f.id: f for f in out}
    if ops:
        rows = list(csv.DictReader(open(data + ops)))
        if sorted(x["ID"] for x in rows) != sorted(byid):
            raise ValueError("%s lists the functions %s" % (ops, [x["ID"] for x in rows]))
        for x in rows:
            byid[x["ID"]].row = [x[c] if c == "ID" else int(x[c]) for c in COLS]
    if args:
        rows = list(csv.DictReader(open(data + args)))
        by = {}
        for x in rows:
            by.setdefault(x["ID"], []).append(x)
        for f in out:
            l = by.pop(f.id, [])
            if len(l) != len(f.args):
                raise ValueError("%s has %d arguments of %s" % (args, len(l), f.id))
            f.args = [[x["IO"], x["ArgID"], int(x["Type"]), int(x["Prec"]), int(x["Range"]), int(x["Min"]), int(x["Max"])] for x in l]
        if by:
            raise ValueError("%s lists other functions: %s" % (args, sorted(by)))
    return out


def frozen(a, b, mode):
    """what the search may not change"""
    if a.row[:5] + a.row[9:] != b.row[:5] + b.row[9:]:
        return "the description of %s changed: %s" % (a.id, b.row)
    if mode == "arguments" and a.row[5:9] != b.row[5:9]:
        return "the operations of %s changed: %s" % (a.id, b.row)
    for x, y in zip(a.args, b.args):
        if x[:3] + x[5:] != y[:3] + y[5:] or (mode == "operations" and x[3:5] != y[3:5]):
            return "the argument %s of %s changed: %s" % (x[1], a.id, y)
    return None


def ints(fs):
    for f in fs:
        f.row = [f.row[0]] + [int(x) for x in f.row[1:]]
        f.args = [[a[0], a[1]] + [int(x) for x in a[2:]] for a in f.args]
    return fs


def one(chk, pre, fake, it, seed):
    r = random.Random(seed)
    d = chk.tmp("d%d" % it)
    os.makedirs(d + "/plan")
    fs = gen(r)
    for nm in ("exrun", "excmp"):
        shutil.copy2(fake, d + "/" + nm)
    with open(d + "/plan/profile", "w") as f:
        f.write(text(fs))
    mode = r.choice(("operations", "arguments", "all", "all", None))
    argv = ["exrun", "excmp"]
    if mode:
        argv += r.choice((["--mode", mode], ["-m", mode], ["--mode=" + mode]))
    mode = mode or "all"
    vm = r.choice((None, None, "ieee", "ib", "ob", "full"))
    if vm:
        argv += ["--vprec_mode=" + vm]
    sel = fs
    if r.random() < 0.35:
        want = r.sample(sorted({f.name for f in fs} | {f.parent for f in fs}), 1)
        if r.random() < 0.5:
            want += r.sample(sorted({f.name for f in fs}), 1)
        argv += want
        sel = [f for f in fs if f.name in want or f.parent in want]
    fld = fields(sel, mode)
    pred = []
    exact = {}
    k = r.random()
    kind = "thresholds" if k < 0.75 else "hash" if k < 0.95 else "impossible"
    hang = False
    tmo = None
    if kind == "hash":
        pred.append("hash %d" % r.choice((2, 3, 10, 50)))
    else:
        for (i, a, c, mx, mn) in fld:
            v = r.choice((mn, mx, r.randint(mn, mx), r.randint(mn, mx)))
            w = "min" if r.random() < 0.8 else "crash"
            if not hang and tmo is None and kind == "thresholds" and r.random() < 0.006:
                w, hang, tmo = "hang", True, r.choice((1500, 2500))
            exact[(i, a, c)] = v
            pred.append("%s %s %d %d" % (w, sel[i].id.replace(" ", "\x01") + ("" if a is None else "@%d" % a), c, v))
        if kind == "impossible" and fld:
            i, a, c, mx, mn = r.choice(fld)
            pred.append("min %s %d %d" % (sel[i].id.replace(" ", "\x01") + ("" if a is None else "@%d" % a), c, mx + 1))
        r.shuffle(pred)
    if tmo is None and r.random() < 0.2:
        tmo = r.choice((20000, 60000))
    if tmo is not None:
        argv += ["--maxTimeout=%d" % tmo]
    with open(d + "/plan/pred", "w") as f:
        f.write("\n".join(pred) + "\n")
    noise = r.choice((0, 0, 0, 100, 300000))
    with open(d + "/plan/noise", "w") as f:
        f.write("%d\n" % noise)
    e = dict(BASE_ENV, PYTHONPATH=pre + "/py", PX_PLAN=d + "/plan")
    if r.random() < 0.3:
        e["VFC_BACKENDS"] = "libinterflop_mca.so"
    x = run((([PY, pre + "/py/verificarlo/vfc_precexp"]) if r.random() < 0.4 else [PY, "-m", "verificarlo.optimize.precexp"]) + argv, env=e, cwd=d, timeout=60)
    what = "%d functions, %d formats, %s %s" % (len(sel), len(fld), kind, " ".join(argv))
    bad = judge(d, fs, sel, fld, mode, vm or "ob", kind, exact, x, e, chk)
    log = open(d + "/plan/log").read() if os.path.exists(d + "/plan/log") else ""
    nrun = log.count("RUN ")
    key = (kind, mode, vm, len(sel), len(fld), hang, noise > 65536, len(sel) < len(fs))
    wit = {"scenario": seed, "what": what, "predicate": pred[:40], "output": x.err[-400:].decode(errors="replace")}
    shutil.rmtree(d)
    return bad, what, key, nrun, wit


def judge(d, fs, sel, fld, mode, vm, kind, exact, x, e, chk):
    if x.timeout:
        raise Hang("the precision search")
    if x.rc != 0:
        return ["the search stopped with status %s: %s" % (x.rc, x.err[-300:].decode(errors="replace"))]
    bad = []
    conf = []
    cur = None
    nprof = 0
    byid = {f.id: f for f in sel}
    for l in open(d + "/plan/log"):
        if l.startswith(" "):
            cur.append(l[1:])
        elif l.startswith("PROFILE"):
            nprof += 1
        elif l.startswith("RUN"):
            cur = []
            conf.append(cur)
            opt = l.split()
            for o in ("--mode=" + vm, "--instrument=" + mode):
                if o not in opt:
                    bad.append("a run was asked for without %s: %s" % (o, l.strip()))
        elif l.startswith(("NOCONF", "NOREF")):
            bad.append("run without %s" % ("configuration" if l[2] == "C" else "reference"))
    if nprof != 1:
        bad.append("the profile was asked %d times" % nprof)
    limit = 8 * len(fld) + 1
    if len(conf) > limit:
        bad.append("%d runs for %d formats" % (len(conf), len(fld)))
    for c in conf:
        try:
            g = ints(parse("".join(c)))
        except ValueError as ex:
            bad.append("malformed configuration: %s" % ex)
            break
        if sorted(f.id for f in g) != sorted(byid):
            bad.append("a configuration has the functions %s" % [f.id for f in g])
            break
        w = next((w for w in (frozen(byid[f.id], f, mode) for f in g) if w), None)
        if w:
            bad.append("a configuration: " + w)
            break
    if bad:
        return bad
    try:
        fin = results(d, mode, sel)
    except (OSError, ValueError, KeyError) as ex:
        return ["no usable results: %s" % ex]
    for a, b in zip(sel, fin):
        w = frozen(a, b, mode)
        if w:
            return ["the results: " + w]
    got = {(i, a, c): (fin[i].row[c] if a is None else fin[i].args[a][c]) for i, a, c, _, _ in fld}
    for i, a, c, mx, mn in fld:
        v = got[(i, a, c)]
        if not mn <= v <= mx:
            bad.append("format %s of %s out of bounds: %d" % ((a, c), sel[i].id, v))
        elif kind == "impossible" and v != mx:
            bad.append("format %s of %s is %d although nothing is acceptable" % ((a, c), sel[i].id, v))
        elif kind == "thresholds" and v != exact[(i, a, c)]:
            bad.append("format %s of %s is %d, the least acceptable is %d" % ((a, c), sel[i].id, v, exact[(i, a, c)]))
    # and the other formats of the operations stay in their domain
    for f in fin:
        for nm, (c, mx, mn) in OPF.items():
            if not mn <= f.row[c] <= mx:
                bad.append("%s of %s out of bounds: %d" % (nm, f.id, f.row[c]))
    if kind != "impossible" and not bad and sel:
        os.makedirs(d + "/fin")
        with open(d + "/final.txt", "w") as f:
            f.write(text(fin))
        e = dict(e, VFC_BACKENDS="x --prec-input-file=%s/final.txt" % d)
        y = run([d + "/exrun", d + "/fin"], env=e, cwd=d, timeout=20)
        z = run([d + "/excmp", d + "/vfc_ref", d + "/fin"], env=e, cwd=d, timeout=20)
        if y.rc != 0 or z.rc != 0:
            bad.append("the formats found are not acceptable")
    return bad


# ---- real programs

def program(r):
    n = r.choice((2, 3, 3))
    src = ["#include <stdio.h>", "#include <math.h>"]
    tys = [r.choice(("double", "float")) for _ in range(n)]
    for i in range(n):
        t = tys[i]
        s = "f" if t == "float" else ""
        c = [repr(r.uniform(0.1, 4)) + s for _ in range(4)]
        inner = "a * %s + b / %s" % (c[0], c[1])
        if i and r.random() < 0.5:
            inner += " - f%d((%s)a, (%s)b)" % (r.randrange(i), tys[0], tys[0])
        if r.random() < 0.4:
            inner += " + sqrt%s(a * a + %s)" % (s, c[2])
        src.append("__attribute__((noinline)) %s f%d(%s a, %s b) { %s s = %s; for (int i = 0; i < %d; i++) s = s * %s + %s; return s; }"
                   % (t, i, t, t, t, inner, r.randint(1, 4), c[2], c[3]))
    m = "".join('printf("%%a\\n", (double)f%d(%s, %s));\n' % (i, repr(r.uniform(-3, 900)), repr(r.uniform(0.01, 5))) for i in range(n) for _ in range(r.randint(1, 2)))
    src.append("int main(void) {\n%sreturn 0; }" % m)
    return "\n".join(src) + "\n"


def real(chk, pre, cmpbin, it, seed):
    r = random.Random(seed)
    d = chk.tmp("r%d" % it)
    os.makedirs(d)
    src = program(r)
    with open(d + "/p.c", "w") as f:
        f.write(src)
    vfc_must(pre, ["-O%s" % r.choice("012"), "--inst-func", d + "/p.c", "-o", d + "/p", "-lm"], cwd=d)
    with open(d + "/exrun", "w") as f:
        f.write("#!/bin/sh\nexec %s/p > \"$1/out\"\n" % d)
    os.chmod(d + "/exrun", 0o755)
    shutil.copy2(cmpbin, d + "/excmp")
    mode = r.choice(("operations", "arguments", "all"))
    vm = r.choice(("ib", "ob", "full"))
    tol = r.choice(("1e-1", "1e-3", "1e-6"))
    e = dict(envof(pre, None), PYTHONPATH=pre + "/py", PX_TOL=tol)
    e.pop("VFC_BACKENDS", None)
    x = run((([PY, pre + "/py/verificarlo/vfc_precexp"]) if r.random() < 0.5 else [PY, "-m", "verificarlo.optimize.precexp"]) + ["exrun", "excmp", "--mode", mode, "--vprec_mode", vm], env=e, cwd=d, timeout=300)
    bad = []
    what = "real program, %s, %s, tolerance %s" % (mode, vm, tol)
    nf = 0
    if x.timeout:
        raise Hang("the precision search")
    if x.rc != 0:
        bad.append("the search %s: %s" % ("does not end" if x.timeout else "stopped with status %s" % x.rc, x.err[-300:].decode(errors="replace")))
    else:
        try:
            prof = ints(parse(open(d + "/vfc_profile.txt").read()))
            fin = results(d, mode, prof)
        except (OSError, ValueError, KeyError) as ex:
            prof, fin = [], None
            bad.append("no usable results: %s" % ex)
        if fin is not None:
            nf = len(fields(prof, mode))
            os.makedirs(d + "/fin")
            with open(d + "/final.txt", "w") as f:
                f.write(text(fin))
            e["VFC_BACKENDS"] = "libinterflop_vprec.so --prec-input-file=%s/final.txt --daz --ftz --mode=%s --instrument=%s" % (d, vm, mode)
            y = run([d + "/exrun", d + "/fin"], env=e, cwd=d, timeout=20)
            z = run([d + "/excmp", d + "/vfc_ref", d + "/fin"], env=e, cwd=d, timeout=20)
            # the start has to be acceptable for the result to be
            with open(d + "/start.txt", "w") as f:
                f.write(text(prof))
            e["VFC_BACKENDS"] = e["VFC_BACKENDS"].replace("final.txt", "start.txt")
            os.makedirs(d + "/st")
            y0 = run([d + "/exrun", d + "/st"], env=e, cwd=d, timeout=20)
            z0 = run([d + "/excmp", d + "/vfc_ref", d + "/st"], env=e, cwd=d, timeout=20)
            if y0.rc or z0.rc:
                bad.append("the full precision is not acceptable: %s" % y0.err[-200:].decode(errors="replace"))
            elif y.rc or z.rc:
                bad.append("the formats found are not acceptable: %s" % y.err[-200:].decode(errors="replace"))
            elif nf and not any(a.row[5:9] != b.row[5:9] or a.args != b.args for a, b in zip(prof, fin)):
                chk.count("real programs where nothing was reduced")
    shutil.rmtree(d)
    return bad, what, ("real", mode, vm, tol, nf), nf, {"scenario": seed, "what": what, "program": src}


def body(chk):
    pre = vbuild.build("std")
    fake, cmpbin = chk.tmp("fake"), chk.tmp("cmpbin")
    must(["gcc", "-O1", "-w", os.path.join(HARNESS, "px/fake.c"), "-o", fake])
    must(["gcc", "-O1", "-w", os.path.join(HARNESS, "px/cmp.c"), "-lm", "-o", cmpbin])
    n, m = chk.n(80, 1500), chk.n(8, 100)
    jobs = [lambda i=i: real(chk, pre, cmpbin, i, "c29r-%d-%d" % (chk.seed, i)) for i in range(m)]
    jobs += [lambda i=i: one(chk, pre, fake, i, "c29-%d-%d" % (chk.seed, i)) for i in range(n)]
    with ThreadPoolExecutor(NPROC) as ex:
        for bad, what, key, nrun, wit in ex.map(lambda j: j(), jobs):
            chk.observe(nrun + 1, key)
            chk.count("searches")
            chk.count("runs of the program", nrun)
            for b in bad[:2]:
                chk.violation("%s [%s]" % (b, what), wit)
            chk.sample({"scenario": wit["scenario"], "search": what, "runs": nrun})


run_check("C29", "complete vfc_precexp sessions on stand-in programs whose acceptance predicate is known (a least value per format, arbitrary hash, nothing acceptable, runs that "
          "crash, hang or print a lot), every mode and selection of functions; the log holds every configuration tried: well-formed, of the selected functions, changing nothing "
          "but the formats; the results are re-applied and must be acceptable, and the least ones for independent thresholds; same re-application on real programs with the "
          "VPREC backend; distinct = predicate x mode x size x options", body,
          ["the outcome of a run depends on the configuration only", "least formats only where the criterion is monotone and the formats independent"])
