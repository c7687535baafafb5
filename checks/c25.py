#!/usr/bin/env python3
"""C25: vfc_ci test: tables and verdicts recomputed from the samples that the test programs gave."""
import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *

PY = "/opt/vp/venv/bin/python"
H = "test,variable,value,accuracy_threshold,check_mode\n"
ODD = ["nan", "NA", "null", "12", "0012", "1e3", "inf", "a b", "true", "None", "N/A", "é", "#x", "-", "x'y", "x;y", "value", "0x1p+3", "_", "a.b[3]"]


def hx(x):
    return "nan" if math.isnan(x) else "inf" if x == math.inf else "-inf" if x == -math.inf else x.hex()


def sampler(r):
    """a law for the samples of one probe"""
    k = r.random()
    c = r.choice((1.0, -1.0)) * 10.0 ** r.uniform(-8, 8)
    if k < 0.12:
        return lambda: c
    if k < 0.5:
        s = abs(c) * 10.0 ** r.uniform(-14, 0.3)
        return lambda: c + r.gauss(0, s)
    if k < 0.75:
        s = abs(c) * 10.0 ** r.uniform(-12, 0)
        return lambda: c + s * (r.random() ** 6) * r.choice((1, 1, 1, -1))
    if k < 0.85:
        s = abs(c)
        return lambda: r.gauss(0, s)
    if k < 0.9:
        return lambda: 0.0
    if k < 0.95:
        return lambda: r.choice((c, c, c, math.nan, math.inf, -math.inf))
    return lambda: c * (1 + 2.0 ** -r.randint(1, 50) * r.choice((-1, 1)))


def threshold(r, mode, f):
    if mode == "none":
        return 0.0
    v = [f() for _ in range(8)]
    v = [x for x in v if math.isfinite(x)] or [1.0]
    m = sum(v) / len(v)
    s = math.sqrt(sum((x - m) ** 2 for x in v) / len(v))
    if mode == "relative":
        s = s / abs(m) if m else 1.0
    t = (s or 2.0 ** -40) * r.choice((0.01, 0.5, 0.8, 1.25, 2, 100))
    return -t if r.random() < 0.1 else t


def scenario(chk, d, r):
    os.makedirs(d + "/plan")
    nexe = r.randint(1, 3)
    cfg = {"make_command": "cp base e0; cp base e1; cp base e2; echo made >> made", "executables": []}
    P = {"raw": r.random() < 0.5, "samples": [], "det": []}
    runs = {}          # (exe, backend, args) -> number of runs
    warn = []
    maps = []
    used = set()
    idn = [0]

    def names(n):
        out = []
        while len(out) < n:
            k = (r.choice(ODD) if r.random() < 0.2 else "t%d" % r.randrange(3), r.choice(ODD) if r.random() < 0.25 else "v%d" % r.randrange(30))
            if k not in used:
                used.add(k)
                out.append(k)
        return out

    def emit(exe, be, k, lines, fate="ok"):
        body = {"crash": "!crash", "none": "!none"}.get(fate)
        if body is None:
            body = H + "".join("%s,%s,%s,%s,%s\n" % l for l in lines)
        with open("%s/plan/%d.%s" % (d, maps_id[(exe, be)], k), "w") as f:
            f.write(body)

    maps_id = {}

    def reg(exe, be):
        if (exe, be) not in maps_id:
            maps_id[(exe, be)] = idn[0]
            maps.append("%s\t%s\t%d\n" % (exe, be, idn[0]))
            idn[0] += 1

    for e in range(nexe):
        exe = "e%d" % e
        E = {"executable": exe, "vfc_backends": []}
        par = ""
        if r.random() < 0.5:
            par = r.choice(("foo", "a b  c", "--x=1 -5", "$HOME *"))
            E["parameters"] = par
        pn = names(r.randint(1, 6))
        mode = {p: r.choice(("none", "absolute", "relative")) for p in pn}
        bes = r.sample(["libinterflop_mca.so --mode=rr", "libinterflop_mca.so", "libinterflop_vprec.so --precision-binary64=20", "libinterflop_mca.so; libinterflop_vprec.so", "libinterflop_cancellation.so", "libinterflop_ieee.so"], r.randint(1, 3))
        for be in bes:
            det = r.random() < 0.45 or be == "libinterflop_ieee.so"
            reg(exe, be)
            if det:
                E["vfc_backends"].append({"name": be})
                law = {p: sampler(r) for p in pn}
                val = {p: law[p]() for p in pn}
                fate = "ok" if r.random() < 0.9 else r.choice(("crash", "none"))
                if fate != "ok":
                    warn.append((exe, be, 1))
                ps = [p for p in pn if r.random() < 0.9] or pn[:1]
                ref, thr = {}, {}
                for p in pn:
                    k = r.random()
                    x = val[p]
                    ref[p] = x if k < 0.2 else 0.0 if k < 0.3 and mode[p] != "relative" else math.nan if k < 0.33 else x * (1 + 2.0 ** -r.randint(1, 50)) + (0.5 if k > 0.9 else 0)
                    err = abs(x - ref[p])
                    if mode[p] == "relative" and ref[p] != 0:
                        err = err / abs(ref[p])
                    if not math.isfinite(err) or err == 0:
                        err = 2.0 ** -r.randint(1, 60)
                    # the error itself is a threshold that is not met
                    thr[p] = 0.0 if mode[p] == "none" else err * r.choice((0.25, 1, 1 + 2.0 ** -50, 1.5, 64))
                    if r.random() < 0.15:
                        thr[p] = -thr[p]
                if r.random() < 0.2 and sum(mode[p] != "none" for p in ps) >= 2:
                    # thresholds that add up to zero
                    q = [p for p in ps if mode[p] != "none"]
                    for p in q:
                        thr[p] = 0.0
                    thr[q[0]], thr[q[1]] = 2.0 ** -10, -2.0 ** -10
                    for p in q[2:]:
                        mode_p = mode[p]
                        thr[p] = 2.0 ** -3
                    if len(q) > 2:
                        thr[q[0]] = -2.0 ** -3 * (len(q) - 2) + 2.0 ** -10
                emit(exe, be, "all", [(p[0], p[1], hx(val[p]), hx(thr[p]), mode[p]) for p in ps], fate)
                anychk = fate == "ok" and any(thr[p] != 0 for p in ps)
                if be == "libinterflop_ieee.so":
                    ref = dict(val)
                    rps = list(ps)
                    rfate = fate
                    nref = 1 if anychk else 0
                    runs[(exe, be, par)] = runs.get((exe, be, par), 0) + 1 + nref
                else:
                    runs[(exe, be, par)] = runs.get((exe, be, par), 0) + 1
                    rps = list(pn) if r.random() < 0.5 else [p for p in pn if r.random() < 0.8] or pn[:1]
                    r.shuffle(rps)
                    rfate = "ok" if r.random() < 0.93 else "none"
                    pending = (rps, ref, rfate)
                    if anychk:
                        if "libinterflop_ieee.so" in bes or any(x.get("ref") for x in E["vfc_backends"]):
                            # one reference plan per executable: reuse it
                            pass
                P.setdefault("pend", []).append([exe, be, ps, val, ref, thr, dict(mode), anychk, rps, rfate, fate])
            else:
                n = r.choice((1, 2, 3, 4, 5, 8, 13, 20, 30))
                E["vfc_backends"].append({"name": be, "repetitions": n})
                law = {p: sampler(r) for p in pn}
                thr = {p: threshold(r, mode[p], law[p]) for p in pn}
                missing = 0.15 if r.random() < 0.4 else 0
                failing = 0.2 if r.random() < 0.3 else 0
                for k in range(1, n + 1):
                    fate = r.choice(("crash", "none")) if r.random() < failing else "ok"
                    lines = []
                    order = list(pn)
                    r.shuffle(order)
                    for p in order:
                        if r.random() >= missing:
                            x = law[p]()
                            lines.append((p[0], p[1], hx(x), hx(thr[p]), mode[p]))
                    if not lines:
                        fate = "none"
                    emit(exe, be, k, lines, fate)
                    if fate == "ok":
                        P["samples"] += [[l[0], l[1], be, l[2], l[3], l[4]] for l in lines]
                    else:
                        warn.append((exe, be, k))
                runs[(exe, be, par)] = runs.get((exe, be, par), 0) + n
        cfg["executables"].append(E)
        # reference of the deterministic backends of this executable: one plan, from the IEEE backend if it is listed
        pend = P.pop("pend", [])
        ie = [x for x in pend if x[1] == "libinterflop_ieee.so"]
        base = ie[0] if ie else (pend[0] if pend else None)
        if base:
            reg(exe, "libinterflop_ieee.so")
            rps, rfate = base[8], base[9]
            refv = base[4]
            if not ie:
                emit(exe, "libinterflop_ieee.so", "all", [(p[0], p[1], hx(refv[p]), hx(base[5][p]), base[6][p]) for p in rps], rfate)
            for exe_, be, ps, val, _, thr, md, anychk, _, _, fate in pend:
                if anychk and be != "libinterflop_ieee.so":
                    runs[(exe, "libinterflop_ieee.so", par)] = runs.get((exe, "libinterflop_ieee.so", par), 0) + 1
                if anychk and rfate != "ok":
                    warn.append((exe, "libinterflop_ieee.so (reference run)", 1))
                if fate == "ok":
                    for p in ps:
                        rv = hx(refv[p]) if rfate == "ok" and p in rps else None
                        P["det"].append([p[0], p[1], be, hx(val[p]), rv, hx(thr[p]), md[p], anychk])
    if not P["samples"] and not P["det"]:
        return None
    # relative checks against zero: see zero_relative
    tot = {}
    for t, v, be, x, _, m in P["samples"]:
        if m == "relative":
            tot.setdefault((t, v, be), []).append(float.fromhex(x))
    for v in tot.values():
        if all(map(math.isfinite, v)) and abs(math.fsum(v)) <= 1e-12 * max(map(abs, v)) * len(v):
            return None
    for x in P["det"]:
        if x[6] == "relative" and x[4] is not None and float.fromhex(x[4]) == 0:
            return None
    # a check with no reference run at all (thresholds all zero) cannot happen: modes none only
    with open(d + "/plan/map", "w") as f:
        f.writelines(maps)
    json.dump(cfg, open(d + "/vfc_tests_config.json", "w"))
    json.dump(P, open(d + "/plan.json", "w"))
    return P, runs, warn


def one(chk, pre, base, it, seed):
    r = random.Random(seed)
    d = chk.tmp("s%d" % it)
    for _ in range(50):
        os.makedirs(d)
        sc = scenario(chk, d, r)
        if sc is not None:
            break
        shutil.rmtree(d)
    else:
        return None
    return session(chk, pre, base, d, sc, seed)


def session(chk, pre, base, d, sc, seed):
    P, runs, warn = sc
    shutil.copy2(base, d + "/base")
    e = dict(BASE_ENV, PYTHONPATH=pre + "/py:" + d, LC_ALL="C.UTF-8", TMPDIR=d, HOME=d)
    x = run([PY, os.path.join(HARNESS, "ci/run.py"), "raw" if P["raw"] else "no"], env=e, cwd=d, timeout=250)
    bad, seen = [], []
    if x.timeout:
        return ("timeout", d)
    if x.rc != 0:
        bad.append("vfc_ci test failed (status %s): %s" % (x.rc, x.err.decode(errors="replace").strip().split("\n")[-1][:300]))
    else:
        o = run([PY, os.path.join(HARNESS, "ci/oracle.py")], env=e, cwd=d, timeout=250)
        if o.rc != 0:
            return ("oracle: " + o.err.decode(errors="replace")[-600:], d)
        v = json.load(open(d + "/verdict.json"))
        bad, seen = v["bad"], v["seen"]
        # what was run
        got = {}
        outs = []
        for l in open(d + "/plan/log"):
            f = l.rstrip("\n").split("\t")
            k = (f[0], f[1], tuple(f[4:]))
            got[k] = got.get(k, 0) + 1
            outs.append(f[3])
        want = {(a, b, tuple(c.split())): n for (a, b, c), n in runs.items()}
        if got != want:
            diff = [(k, got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)]
            bad.append("runs (executable, backend, parameters), done, asked: %s" % diff[:4])
        w = []
        cur = {}
        for l in x.err.decode(errors="replace").split("\n"):
            for key in ("Executable", "Backend", "Repetition"):
                if l.startswith("  %s: " % key):
                    cur[key] = l.split(": ", 1)[1]
                    if key == "Repetition":
                        w.append((cur["Executable"], cur["Backend"], int(cur["Repetition"])))
        if sorted(w) != sorted(warn):
            bad.append("runs without data: %s, reported %s" % (sorted(warn)[:5], sorted(w)[:5]))
        if open(d + "/made").read() != "made\n":
            bad.append("the build command ran %s times" % open(d + "/made").read().count("made"))
    res = (bad, seen, json.dumps(P)[:3000], seed)
    shutil.rmtree(d)
    return res


def body(chk):
    if not os.path.exists(PY):
        raise Inconclusive("no python with pandas")
    pre = vbuild.build("std")
    base = chk.tmp("base")
    must(["gcc", "-O1", "-w", os.path.join(HARNESS, "ci/fake.c"), "-o", base])
    from concurrent.futures import ThreadPoolExecutor
    n = chk.n(48, 900)
    seeds = ["c25-%d-%d" % (chk.seed, i) for i in range(n)]
    with ThreadPoolExecutor(NPROC) as ex:
        for res in ex.map(lambda i: one(chk, pre, base, i, seeds[i]), range(n)):
            if res is None:
                continue
            if isinstance(res[0], str):
                chk.violation("the results are not of the expected form: %s" % res[0][-600:], "session")
                continue
            bad, seen, plan, seed = res
            for s in seen:
                chk.observe(1, tuple(str(z) for z in s))
            chk.count("configurations")
            for b in bad[:3]:
                chk.violation(b, {"scenario": seed, "plan": plan})
            chk.sample({"scenario": seed, "compared": len(seen)})
    zero_relative(chk, pre, base)
    real(chk, pre)


def zero_relative(chk, pre, base):
    """relative checks whose average or reference is zero (an infinite error, or none when all values are equal)"""
    for kind, vals in (("average", (0.0, 0.0, 0.0)), ("average", (1.0, -1.0)), ("reference", (0.0, 0.0)), ("reference", (2.0, 0.0))):
        d = chk.tmp("z%s%g" % (kind, vals[0]))
        os.makedirs(d + "/plan")
        be = "libinterflop_mca.so"
        P = {"raw": False, "samples": [], "det": []}
        thr = (0.25).hex()
        runs = {}
        B = {"name": be}
        if kind == "average":
            B["repetitions"] = len(vals)
            runs[("e0", be, "")] = len(vals)
            files = [("0.%d" % (i + 1), x) for i, x in enumerate(vals)]
            P["samples"] = [["t", "v", be, x.hex(), thr, "relative"] for x in vals]
        else:
            runs[("e0", be, "")] = runs[("e0", "libinterflop_ieee.so", "")] = 1
            files = [("0.all", vals[0]), ("1.all", vals[1])]
            P["det"] = [["t", "v", be, vals[0].hex(), vals[1].hex(), thr, "relative", True]]
        for f, x in files:
            with open(d + "/plan/" + f, "w") as h:
                h.write(H + "t,v,%s,%s,relative\n" % (x.hex(), thr))
        with open(d + "/plan/map", "w") as f:
            f.write("e0\t%s\t0\ne0\tlibinterflop_ieee.so\t1\n" % be)
        json.dump({"make_command": "cp base e0; echo made >> made", "executables": [{"executable": "e0", "vfc_backends": [B]}]}, open(d + "/vfc_tests_config.json", "w"))
        json.dump(P, open(d + "/plan.json", "w"))
        res = session(chk, pre, base, d, (P, runs, []), "zero " + kind)
        if isinstance(res[0], str):
            chk.violation("the results are not of the expected form: %s" % res[0][-600:], "zero " + kind)
            continue
        bad, seen, plan, seed = res
        for s in seen:
            chk.observe(1, ("zero", kind) + tuple(str(z) for z in s))
        for b in bad[:1]:
            chk.violation(b, {"scenario": seed, "values": vals, "plan": plan}, key="relative-zero-" + kind)


REAL = r"""
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <vfc_probes.h>
int main(void) {
  vfc_probes p = vfc_init_probes();
  double s = 0; for (int i = 1; i < 200; i++) s += 1.0 / i;
  float f = 0; for (int i = 1; i < 200; i++) f += 0.1f;
  double q = s * s, z = 0, n = (s - s) / (z * 0.0);
  vfc_probe(&p, "t", "sum", s); vfc_probe_check(&p, "t", "fsum", f, 0x1p-10);
  vfc_probe_check_relative(&p, "u", "s2", q, 0x1p-20); vfc_probe(&p, "u", "nan", n);
  FILE *o = fopen("real.log", "a");
  fprintf(o, "%s|%a|%a|%a|%a\n", getenv("VFC_BACKENDS"), s, (double)f, q, n); fclose(o);
  vfc_dump_probes(&p); return 0;
}
"""


def real(chk, pre):
    """the whole chain with a real instrumented program"""
    d = chk.tmp("real")
    os.makedirs(d)
    open(d + "/p.c", "w").write(REAL)
    e = dict(BASE_ENV, PYTHONPATH=pre + "/py", LC_ALL="C.UTF-8", TMPDIR=d, HOME=d, LD_LIBRARY_PATH=pre + "/lib", PATH=pre + "/bin:" + BASE_ENV.get("PATH", ""),
             VFC_BACKENDS_LOGGER="False", VFC_BACKENDS_SILENT_LOAD="True")
    be = "libinterflop_mca.so --precision-binary64=30 --precision-binary32=18"
    vp = "libinterflop_vprec.so --precision-binary64=12"
    json.dump({"make_command": "verificarlo-c -O0 -I%s/include p.c -o p -L%s/lib -lvfc_probes -linterflop_hashmap -lm" % (pre, pre),
               "executables": [{"executable": "p", "vfc_backends": [{"name": be, "repetitions": 8}, {"name": vp}]}]}, open(d + "/vfc_tests_config.json", "w"))
    x = run([PY, os.path.join(HARNESS, "ci/run.py"), "raw"], env=e, cwd=d, timeout=250)
    if not os.path.exists(d + "/real.log"):
        chk.violation("the real test program did not run: %s" % (x.out + x.err)[-800:].decode(errors="replace"), "real")
        return
    if x.rc != 0:
        chk.violation("vfc_ci test failed on a real program (status %s): %s" % (x.rc, x.err.decode(errors="replace").strip().split("\n")[-1][:300]), "real")
        return
    P = {"raw": True, "samples": [], "det": []}
    L = [l.rstrip("\n").split("|") for l in open(d + "/real.log")]
    nm = [("t", "sum", 0.0, "none"), ("t", "fsum", 2.0 ** -10, "absolute"), ("u", "s2", 2.0 ** -20, "relative"), ("u", "nan", 0.0, "none")]
    fix = lambda s: "nan" if "nan" in s else s
    ref = [l for l in L if l[0] == "libinterflop_ieee.so"]
    for l in L:
        for i, (t, v, th, md) in enumerate(nm):
            if l[0] == be:
                P["samples"].append([t, v, be, fix(l[1 + i]), th.hex(), md])
            if l[0] == vp:
                P["det"].append([t, v, vp, fix(l[1 + i]), fix(ref[0][1 + i]), th.hex(), md, True])
    if len(ref) != 1 or len(P["samples"]) != 32 or len(P["det"]) != 4:
        chk.violation("the real program ran %d times (11 asked), backends %s" % (len(L), sorted(set(l[0] for l in L))), "real")
        return
    json.dump(P, open(d + "/plan.json", "w"))
    o = run([PY, os.path.join(HARNESS, "ci/oracle.py")], env=e, cwd=d, timeout=250)
    if o.rc != 0:
        chk.violation("the results are not of the expected form: " + o.err.decode(errors="replace")[-600:], "real")
        return
    v = json.load(open(d + "/verdict.json"))
    for s in v["seen"]:
        chk.observe(1, ("real",) + tuple(str(z) for z in s))
    for b in v["bad"][:3]:
        chk.violation(b, {"scenario": "real program", "log": L})


run_check("C25", "real `vfc_ci test` runs on stand-in test programs that write planned probe files (laws: constant, normal, skewed, centred on zero, non-finite; "
          "missing probes, crashed runs, odd names, 1..30 repetitions, deterministic and reference runs); every column of every row of the result files "
          "recomputed from the plan; distinct = kind x mode x verdict x size x distribution", body,
          ["scipy's Shapiro-Wilk test and the third-party module significantdigits are trusted", "verdicts are not compared when the error equals the threshold up to rounding"])
