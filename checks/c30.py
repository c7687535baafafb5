#!/usr/bin/env python3
"""C30: vfc_ci test -g and the report: what the user sees after any sequence of actions is what the runs recorded."""
import sys, os, math, time, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *

PY = "/opt/vp/venv/bin/python"
H = "test,variable,value,accuracy_threshold,check_mode\n"
NDET = ["libinterflop_mca.so --mode=rr", "libinterflop_mca.so", "libinterflop_cancellation.so"]
DET = ["libinterflop_vprec.so --precision-binary64=20", "libinterflop_ieee.so"]
LONG = "a_rather_long_name_of_a_variable_that_does_not_fit_%d"
UNITS = {"minute": 60, "hour": 3600, "day": 86400, "week": 604800, "month": 2592000}


def commit(r, base, stable, date, gitmode, tight):
    """a commit: the probes of its test programs and the configuration"""
    files, maps, cfg = {}, [], {"make_command": "cp %s e0; cp %s e1" % (base, base), "executables": []}
    kind = r.choices(("both", "nodet", "det"), (12, 3, 2))[0]
    idn = 0
    names = {}
    for (t, v) in stable:
        names.setdefault("e%d" % (hash_(t) % 2), []).append((t, v))
    for exe, ps in sorted(names.items()):
        ps = [p for p in ps if r.random() < 0.85] or ps[:1]
        E = {"executable": exe, "vfc_backends": []}
        for be in ([b for b in NDET if r.random() < 0.6] or NDET[:1] if kind != "det" else []) + ([b for b in DET if r.random() < 0.6] or DET[:1] if kind != "nodet" else []):
            maps.append("%s\t%s\t%d\n" % (exe, be, idn))
            det = be in DET
            n = 1 if det else r.randint(2, 5)
            E["vfc_backends"].append({"name": be} if det else {"name": be, "repetitions": n})
            mode = {p: r.choice(("none", "absolute", "relative")) for p in ps}
            cen = {p: r.choice((1, -1)) * 10.0 ** r.uniform(-3, 3) for p in ps}
            dev = {p: 0.0 if r.random() < 0.1 else abs(cen[p]) * 10.0 ** r.uniform(-9, -1) * (1e5 if r.random() < 0.04 else 1) for p in ps}
            for p in ps:        # close to one another, but for some
                if p in tight:
                    o = 50 * tight[p][2] if r.random() < 0.07 else 0
                    cen[p] = tight[p][0] * (1 + r.uniform(-0.1, 0.1)) + o * abs(tight[p][0])
                    dev[p] = abs(tight[p][0]) * tight[p][1] * r.uniform(1, 1.5) * ((1e5 if tight[p][1] < 1e-6 else 1e-5) if r.random() < 0.07 else 1)
            thr = {p: 0.0 if mode[p] == "none" else (dev[p] if mode[p] == "absolute" else dev[p] / abs(cen[p])) * r.choice((0.1, 10)) or 1e-3 for p in ps}
            for k in range(1, n + 1):
                files["plan/%d.%d" % (idn, k)] = H + "".join("%s,%s,%s,%s,%s\n" % (t, v, (cen[t, v] + r.gauss(0, dev[t, v])).hex(), thr[t, v].hex(), mode[t, v]) for t, v in ps)
            idn += 1
            if det and be != "libinterflop_ieee.so":
                if not any(m.split("\t")[:2] == [exe, "libinterflop_ieee.so"] for m in maps):
                    maps.append("%s\tlibinterflop_ieee.so\t%d\n" % (exe, idn))
                    files["plan/%d.all" % idn] = H + "".join("%s,%s,%s,%s,%s\n" % (t, v, cen[t, v].hex(), thr[t, v].hex(), mode[t, v]) for t, v in ps)
                    idn += 1
        if E["vfc_backends"]:
            cfg["executables"].append(E)
    for m in maps:
        i = m.split("\t")[2].strip()
        files.setdefault("plan/%s.all" % i, files.get("plan/%s.1" % i))
    files["plan/map"] = "".join(maps)
    msg = r.choice(("Fix the thing", "été: \"quoted\" <b>", "two\n\nlines of text", "x" * 90, "a, b; c"))
    return {"files": files, "config": cfg, "author": r.choice(("A. Nonymous", "Zoé", "x")), "email": r.choice(("a@b.c", "z@y")),
            "message": msg, "date": date, "cdate": date + r.choice((0, 5, 100000)), "git": gitmode}


def hash_(s):
    return sum(map(ord, s))


def plan(r, base, now, far):
    """far: histories and tests large enough for some results to be outliers"""
    repos = []
    used = set()
    urls = ["https://host.x/user/proj", "https://host.x/user/other", "https://host.x/group/proj", "git@host.x:user/proj", "http://h/a/b.git"]
    br = r.choice(("master", "main", "dev"))
    for k in range(r.choice((1, 2, 2, 3)) if not far else 1):
        tests = r.sample(["t0", "t1", "u1", "alpha", "b"], r.randint(1, 3))
        stable = [(t, v) for t in tests for v in r.sample(["v0", "v1", "w", "12", LONG % 1], r.randint(1, 3))]
        n = r.choice((1, 2, 4, 7, 13, 16, 18, 20))
        if far:
            n = r.randint(16, 20)
            stable = stable[:2]
        if r.random() < 0.35:        # many variables
            n = r.choice((1, 2)) if not far else 3
            stable = [(tests[0], "x%d" % j) for j in range(r.randint(12, 18))]
        tight = {q: (r.choice((1, -1)) * 10.0 ** r.uniform(-3, 3), 10.0 ** r.choice((-9, -8, -5, -4)), r.choice((-1, 1))) for q in stable} if far or r.random() < 0.7 else {}
        if len(stable) >= 12:
            tight = dict.fromkeys(stable, list(tight.values())[0]) if tight else {}
        commits = []
        together = n < 10 and r.random() < 0.4
        while len(commits) < n:
            if not together or not commits:
                u = r.choice(list(UNITS.values()))
                m = r.randint(1, 5 if u != 604800 else 3)
            age = m * u + u // 2 + r.randrange(-u // 8, u // 8) if u != 60 else m * 600 + 30 + (r.randrange(15) if together else 0)
            if now - age in used:
                continue
            used.add(now - age)
            commits.append(now - age)
        if r.random() < 0.7:
            commits.sort()
        cs = [commit(r, base, stable, d, True, tight) for d in commits]
        if n > 2 and r.random() < 0.3:
            cs[n // 2]["branch"] = "topic"
        url = r.choice([u for u in urls if u not in {x["url"] for x in repos}])
        repos.append({"url": url, "branch": br if r.random() < 0.6 else "b%d" % k, "commits": cs})
    if r.random() < 0.5:
        for q in repos:
            f = r.choice((0.2, 0.6))
            for c in q["commits"]:
                c["git"] = r.random() > f
    return {"repos": repos}


F = float.fromhex


def same(a, b, tol=0.0):
    if isinstance(a, (str, bool)) and isinstance(b, (str, bool)) and a == b:
        return True
    try:
        x = F(a) if isinstance(a, str) else float(a)
        y = F(b) if isinstance(b, str) else float(b)
    except (ValueError, TypeError):
        return False
    return x == y or (math.isnan(x) and math.isnan(y)) or abs(x - y) <= tol * max(abs(x), abs(y))


class Bad(Exception):
    pass


def need(c, t):
    if not c:
        raise Bad(t)


def quant(v, q):
    v = sorted(v)
    k = q * (len(v) - 1)
    i = int(k)
    return v[i] if i + 1 >= len(v) else v[i] + (v[i + 1] - v[i]) * (k - i)


OUT = {"above": 0, "below": 0}


def kept(vals):
    """the outlier filter: values less than three deviations away from the average (None: too close to call)"""
    if len(vals) <= 2:
        return [True] * len(vals)
    m = sum(vals) / len(vals)
    s = math.sqrt(sum((x - m) ** 2 for x in vals) / len(vals))
    if s == 0 or max(vals) == min(vals):
        return [True] * len(vals)
    if any(abs(abs(x - m) - 3 * s) < 1e-6 * s for x in vals) or s < 1e-9 * abs(m):
        return None
    k = [abs(x - m) < 3 * s for x in vals]
    OUT["above"] += any(x > m and not c for x, c in zip(vals, k))
    OUT["below"] += any(x < m and not c for x, c in zip(vals, k))
    return k


class Oracle:
    def __init__(self, recs, maxf, ign, t0, t1):
        ms = []
        for f, r in recs.items():
            m = dict(r["meta"][0], file=f)
            ms.append(m)
        ms.sort(key=lambda m: m["timestamp"])
        if ign:
            ms = ms[:-ign]
        ms = ms[-maxf:]
        self.t = (t0, t1)
        self.recs = recs
        self.repos = {}
        for m in ms:
            self.repos.setdefault((m["remote_url"], m["branch"]), []).append(m)

    def repo(self, name):
        if name == "None":
            return self.repos.get(("", ""), [])
        for (u, b), ms in self.repos.items():
            if u and name == "/".join(re.split("[/]", u)[-2:]) + ":" + b:
                return ms
        return None

    def rows(self, m, kind):
        return self.recs[m["file"]][kind]

    def names(self, ms, opts):
        need(len(opts) == len(ms), "%d runs can be selected, the repository has %d: %s" % (len(opts), len(ms), opts))
        need(len(set(opts)) == len(opts), "two runs have the same name: %s" % opts)
        d = {}
        for m, o in zip(ms, opts):
            need(m["hash"] in o, "run %s is named %r" % (m["hash"], o))
            a = re.match(r"(\d+) (minute|hour|day|week|month)(s?) ago", o)
            if a:
                k, u = int(a.group(1)), UNITS[a.group(2)]
                need(any(k == (t - m["timestamp"]) // u for t in self.t) and (a.group(3) == "s") == (k != 1), "run %s of %d is said to be %r" % (m["hash"], m["timestamp"], o))
                nxt = [x for x in UNITS.values() if x > u]
                need(not nxt or self.t[0] - m["timestamp"] < min(nxt), "run %s of %d is said to be %r" % (m["hash"], m["timestamp"], o))
            else:
                need(o.startswith("Less than a minute") and self.t[0] - m["timestamp"] < 60, "run %s of %d is said to be %r" % (m["hash"], m["timestamp"], o))
            d[o] = m
        return d


TIP = {"Min": "min", "Max": "max", "1st quartile": "quantile25", "Median": "quantile50", "3rd quartile": "quantile75", "μ": "mu", "p-value": "pvalue",
       "Number of samples": "nsamples", "σ": "sigma", "Check's accuracy target": "accuracy_threshold", "Backend value": "value",
       "Reference value": "reference_value", "Accuracy target": "accuracy_threshold"}


def points(fig, name):
    rs = [x for x in fig["r"] if x["name"] == name]
    need(len(rs) == 1, "the plot has %d series called %s" % (len(rs), name))
    p = rs[0]
    n = len(p["x"])
    for a in ("y", "top", "bottom", "fill_color"):
        if isinstance(p.get(a), list):
            need(len(p[a]) == n, "%d abscissas, %d values of %s" % (n, len(p[a]), a))
    for x in p["x"]:
        need(x in fig["range"], "the point %r is outside of the axis %s" % (x, fig["range"]))
    return p


def tip(fig, p, label):
    for l, t in fig["tips"]:
        if l == label:
            c = re.match(r"@(\w+)", t).group(1)
            need(c in p["cols"], "the tooltip %s has no data" % label)
            need(len(p["cols"][c]) == len(p["x"]), "%d points but %d values in the tooltip %s" % (len(p["x"]), len(p["cols"][c]), label))
            return p["cols"][c]
    return None


def series(st, O, runs, kind, test, var, be, n, figs, filt):
    """plots over runs"""
    rows = []
    for name, m in runs.items():
        for w in O.rows(m, kind):
            if w["key"] == [test, var, be]:
                rows.append((name, m, w))
    rows = rows[-n:] if n else rows
    for fn, val in figs:
        fig = st["f"][fn]
        mark = "full_box" if val is None else "circle"
        p = points(fig, mark)
        want = rows
        if filt and val is not None and rows:
            k = kept([F(w[val]) for _, _, w in rows])
            if k is None:
                continue
            want = [x for x, y in zip(rows, k) if y]
        need(p["x"] == [x[0] for x in want], "%s of %s/%s/%s shows the runs %s instead of %s" % (fn, test, var, be, p["x"], [x[0] for x in want]))
        if val is not None:
            for (x, m, w), y in zip(want, p["y"]):
                need(same(w[val], y), "%s of %s/%s/%s shows %s for run %s instead of %s" % (fn, test, var, be, y, m["hash"], w[val]))
        else:
            for i, (x, m, w) in enumerate(want):
                need(same(w["quantile75"], p["top"][i]) and same(w["quantile25"], p["bottom"][i]), "box of run %s: %s..%s" % (m["hash"], p["bottom"][i], p["top"][i]))
            seg = [s for s in fig["r"] if s["type"] == "Segment"]
            ends = [[(F(s["y0"][i]), F(s["y1"][i])) for i in range(len(want))] for s in seg]
            exp = [[(F(w[a]), F(w[b])) for _, _, w in want] for a, b in (("max", "quantile75"), ("min", "quantile25"))]
            need(all(e in ends for e in exp), "the whiskers are not the extreme values of the runs")
            dot = [s for s in fig["r"] if s["type"] in ("Scatter", "Dot") and s["name"] is None]
            need(dot and all(same(w["mu"], y) for (_, _, w), y in zip(want, dot[0]["y"])), "the dots of the box plot are not the averages")
        if val in ("s10", "s2"):
            seg = [s for s in fig["r"] if s["type"] == "Segment"]
            need(seg and len(seg[0]["y1"]) == len(want) and all(same(w[val + "_lower_bound"], y) for (_, _, w), y in zip(want, seg[0]["y1"])), "lower bounds of %s: %s" % (val, seg and seg[0]["y1"]))
        # failed checks have another colour
        col = p["fill_color"]
        cg = {c for c, (_, _, w) in zip(col, want) if w["check"]}
        cb = {c for c, (_, _, w) in zip(col, want) if not w["check"]}
        need(len(cg) <= 1 and len(cb) <= 1 and not cg & cb, "%s: colours %s for the verdicts %s" % (fn, col, [w["check"] for _, _, w in want]))
        for i, (x, m, w) in enumerate(want):
            for label, key in (("Hash", "hash"), ("Author", "author"), ("Message", "message")):
                need(tip(fig, p, label)[i] == m[key], "%s: the tooltip of run %s gives %s %r" % (fn, m["hash"], label, tip(fig, p, label)[i]))
            need(bool(tip(fig, p, "Git commit")[i]) == m["is_git_commit"], "%s: the tooltip of run %s says git commit: %s" % (fn, m["hash"], tip(fig, p, "Git commit")[i]))
            need(tip(fig, p, "Date")[i] == time.ctime(m["timestamp"]), "%s: the tooltip of run %s gives the date %s" % (fn, m["hash"], tip(fig, p, "Date")[i]))
            for label, key in list(TIP.items()) + [("s", val), ("s lower bound", "%s_lower_bound" % val)]:
                v = tip(fig, p, label)
                if v is not None:
                    need(same(w[key], v[i]), "%s: the tooltip %s of run %s gives %s instead of %s" % (fn, label, m["hash"], v[i], w[key]))
        if fn == "comparison_plot":
            q = points(fig, "second_circle")
            for (x, m, w), y in zip(want, q["y"]):
                need(same("nan" if w["check"] else w["reference_value"], y), "reference value of run %s shown as %s (check %s, recorded %s)" % (m["hash"], y, w["check"], w["reference_value"]))
    return len(rows)


FACT = {"Variables": 1, "Backends": 2, "Tests": 0}


def judge(st, O, chk):
    w = {k: v[0] for k, v in st["w"].items()}
    opts = {k: v[1] for k, v in st["w"].items()}
    need(len(set(opts["select_repo"])) == len(O.repos) and len(opts["select_repo"]) == len(O.repos), "the report offers %s for the repositories %s" % (opts["select_repo"], list(O.repos)))
    for o in opts["select_repo"]:
        need(O.repo(o) is not None and O.repo(o), "the report offers the repository %r" % o)
    ms = O.repo(w["select_repo"])
    need(ms, "the report shows the repository %r" % w["select_repo"])
    runs = O.names(ms, opts["select_run"])
    shown = 0
    for kind, pre, post, nr, figs, filt in (
            ("data", "select_", "", "select_n_runs", (("boxplot", None), ("sigma_plot", "sigma"), ("s10_plot", "s10"), ("s2_plot", "s2")), "outliers_filtering_compare"),
            ("deterministic_data", "select_deterministic_", "", "select_n_deterministic_runs", (("comparison_plot", "value"),), "outliers_filtering_deterministic")):
        keys = [x["key"] for m in ms for x in O.rows(m, kind)]
        t, v, b = w[pre + "test"], w[pre + "var"], w[pre + "backend"]
        if not keys:
            for fn, val in figs:
                p = [x for x in st["f"][fn]["r"] if x["name"] in ("circle", "full_box")][0]
                need(not p["x"], "%s shows runs %s, nothing was recorded" % (fn, p["x"]))
            continue
        if pre + "test" not in st["filtered"]:
            need(set(opts[pre + "test"]) == {k[0] for k in keys}, "tests offered: %s, recorded: %s" % (opts[pre + "test"], sorted({k[0] for k in keys})))
        need(set(opts[pre + "var"]) == {k[1] for k in keys if k[0] == t}, "variables offered for test %s: %s" % (t, opts[pre + "var"]))
        need(set(opts[pre + "backend"]) == {k[2] for k in keys if k[:2] == [t, v]}, "backends offered for %s/%s: %s" % (t, v, opts[pre + "backend"]))
        need([t, v, b] in keys, "the selection %s/%s/%s was never recorded" % (t, v, b))
        n = re.match(r"Last (\d+) runs", w[nr])
        shown += series(st, O, runs, kind, t, v, b, int(n.group(1)) if n else 0, figs, w[filt])
    # one run
    m = runs.get(w["select_run"])
    need(m, "the selected run %r is not in the repository" % w["select_run"])
    rows = O.rows(m, "data")
    g, f = FACT[w["groupby_radio"]], FACT[w["filterby_radio"]]
    need(g != f and set(opts["filterby_radio"]) == set(FACT) - {w["groupby_radio"]}, "grouped by %s, filters offered %s" % (w["groupby_radio"], opts["filterby_radio"]))
    if rows:
        need(set(opts["select_filter"]) == {x["key"][f] for x in rows}, "filters offered: %s, of run %s: %s" % (opts["select_filter"], m["hash"], sorted({x["key"][f] for x in rows})))
        need(w["select_filter"] in opts["select_filter"], "the filter %r is not one of %s" % (w["select_filter"], opts["select_filter"]))
    gr = {}
    for x in rows:
        if x["key"][f] == w["select_filter"]:
            gr.setdefault(x["key"][g], []).append(x)

    def find(x):
        c = [k for k in gr if k == x] or [k for k in gr if len(k) > 39 and x.startswith(k[:10]) and x.endswith(k[-10:])]
        need(len(c) == 1, "group %r of %s" % (x, sorted(gr)))
        return c[0]
    for fn, val in (("mu_inspect", "mu"), ("sigma_inspect", "sigma"), ("s10_inspect", "s10"), ("s2_inspect", "s2")):
        fig = st["f"][fn]
        p = points(fig, "circle" if val == "mu" else "full_box")
        got = [find(x) for x in p["x"]]
        S = {}
        for k, xs in gr.items():
            vals = [F(x[val]) for x in xs]
            ns = [F(x["nsamples"]) for x in xs]
            S[k] = {"n": len(xs), "mu": sum(a * b for a, b in zip(vals, ns)) / sum(ns) if val == "mu" else sum(vals) / len(vals),
                    "min": min(vals), "max": max(vals), "q": [quant(vals, q) for q in (0.25, 0.5, 0.75)]}
        exp = set(gr)
        if w["outliers_filtering_inspect"]:
            ks = sorted(gr)
            if val == "mu":
                kk = kept([S[k]["mu"] for k in ks])
                if kk is None:
                    continue
                exp = {k for k, y in zip(ks, kk) if y}
            else:
                kk = kept([S[k]["max"] for k in ks])
                if kk is None:
                    continue
                ks = [k for k, y in zip(ks, kk) if y]
                kk = kept([S[k]["min"] for k in ks])
                if kk is None:
                    continue
                exp = {k for k, y in zip(ks, kk) if y}
        need(sorted(got) == sorted(exp), "%s of run %s (%s=%s by %s) shows %s instead of %s" % (fn, m["hash"], w["filterby_radio"], w["select_filter"], w["groupby_radio"], got, sorted(exp)))
        for i, k in enumerate(got):
            s = S[k]
            nn = tip(fig, p, "Number of samples (tests)")[i]
            need(same(nn, s["n"]), "%s: %s has %s samples instead of %d" % (fn, k, nn, s["n"]))
            if val == "mu":
                need(same(p["y"][i], s["mu"], 1e-9) or abs(F(p["y"][i]) - s["mu"]) <= 1e-9 * max(abs(s["min"]), abs(s["max"])), "%s: %s is %s instead of %r" % (fn, k, p["y"][i], s["mu"]))
                continue
            sc = max(abs(s["min"]), abs(s["max"]))
            seg = [x for x in fig["r"] if x["type"] == "Segment"]
            dot = [x for x in fig["r"] if x["type"] in ("Scatter", "Dot") and x["name"] is None]
            obs = {"3rd quartile": (p["top"][i], s["q"][2]), "1st quartile": (p["bottom"][i], s["q"][0]), "average": (dot[0]["y"][i], s["mu"]),
                   "tooltip 1st quartile": (tip(fig, p, "1st quartile")[i], s["q"][0]), "tooltip median": (tip(fig, p, "Median")[i], s["q"][1]),
                   "tooltip 3rd quartile": (tip(fig, p, "3rd quartile")[i], s["q"][2]), "tooltip min": (tip(fig, p, "Min")[i], s["min"]),
                   "tooltip max": (tip(fig, p, "Max")[i], s["max"]), "tooltip μ": (tip(fig, p, "μ")[i], s["mu"])}
            ys = [F(x["y0"][i]) for x in seg]
            obs["lower whisker"] = (min(ys), s["min"])
            obs["upper whisker"] = (max(ys), s["max"])
            for q, (a, b) in obs.items():
                a = F(a) if isinstance(a, str) else a
                need(a == b or abs(a - b) <= 1e-9 * sc, "%s: %s of %s is %r instead of %r" % (fn, q, k, a, b))
            shown += 1
    # tables of checks
    for tab, sel, kind, cols in (
            ("non_deterministic_checks_table", "select_check_run_non_deterministic", "data", ("accuracy_threshold", "check_mode", "mu", "sigma", "check")),
            ("deterministic_checks_table", "select_check_run_deterministic", "deterministic_data", ("accuracy_threshold", "check_mode", "value", "reference_value", "check"))):
        need(opts[sel] == opts["select_run"], "the runs offered for the checks are %s" % opts[sel])
        m = runs.get(w[sel])
        need(m, "the run %r of the checks is not in the repository" % w[sel])
        exp = sorted([x["key"] + [str(x[c]).lower() for c in cols] for x in O.rows(m, kind) if F(x["accuracy_threshold"]) != 0])
        T = st["t"][tab]
        got = list(T.values())
        need(len({len(c) for c in got}) == 1, "columns of different lengths in %s" % tab)
        got = sorted([[r[0], r[1], r[2]] + [str(x).lower() for x in r[3:]] for r in zip(*got)])
        need(got == exp, "%s of run %s shows %d rows, %d checks were recorded; differing: %s" % (tab, m["hash"], len(got), len(exp), [x for x in got if x not in exp][:2] + [x for x in exp if x not in got][:2]))
        shown += len(got)
    return shown


def shape(chk, k, seed, base, app, env):
    r = random.Random(seed)
    out = {"bad": None, "seen": [], "n": {}}
    d = chk.tmp("r%d" % k)
    os.makedirs(d)
    now = int(time.time())
    far = k % 3 == 2
    P = plan(r, base, now, far)
    json.dump(P, open(d + "/plan.json", "w"))
    R = os.path.join(HARNESS, "ci", "report.py")
    x = run([PY, R, "make", "plan.json", "made.json"], cwd=d, env=env, timeout=300)
    if x.rc or not os.path.exists(d + "/made.json"):
        out["bad"] = ("vfc_ci test -g fails on a history of %d commits: %s" % (sum(len(q["commits"]) for q in P["repos"]), (x.err or x.out).decode(errors='replace')[-700:]), {"plan": P})
        return out
    M = json.load(open(d + "/made.json"))
    recs = M["runs"]
    # the metadata of each run
    n = 0
    for q in M["plan"]["repos"]:
        br = q["branch"]
        for c in q["commits"]:
            n += 1
            br = c.get("branch", br)
            if c["git"]:
                want = {"timestamp": c["date"], "is_git_commit": True, "remote_url": q["url"], "branch": br, "hash": c["hash"][:7],
                        "author": "%s <%s>" % (c["author"], c["email"]), "message": c["message"].split("\n")[0]}
                f = c["hash"][:7] + ".vfcrun.h5"
            else:
                want = {"timestamp": c["date"], "is_git_commit": False, "remote_url": "", "branch": "", "hash": "", "author": "", "message": ""}
                f = c["produced"][0] if c["produced"] else "?"
            if c["produced"] != [f]:
                out["bad"] = ("the run of commit %s writes %s" % (c["hash"][:7], c["produced"]), {"plan": P})
                return out
            got = recs[f]["meta"]
            if len(got) != 1 or any(got[0][a] != b for a, b in want.items()):
                out["bad"] = ("the run of commit %s is recorded as %s, not %s" % (c["hash"][:7], got, want), {"plan": P})
                return out
            for kind in ("data", "deterministic_data"):
                for w in recs[f][kind]:
                    if F(w["timestamp"]) != got[0]["timestamp"]:
                        out["bad"] = ("a row of run %s has the timestamp %s" % (f, w["timestamp"]), {"plan": P})
                        return out
    out["n"]["runs"] = n
    ses = []
    for j in range(chk.n(3, 6)):
        a, mf, ig, logo = [], 100, 0, None
        if j:
            if r.random() < 0.7:
                mf = r.randint(1, n + 2)
                a += [r.choice(("-f", "--max-files")), str(mf)]
            if r.random() < 0.5 and n > 1:
                ig = r.randint(1, n - 1)
                a += [r.choice(("-i", "--ignore-recent")), str(ig)]
            if r.random() < 0.4:
                logo = r.choice(("https://a.b/c//d.png?x=1&y=2", "http://a/$HOME/../l o.svg"))
                a += ["--logo", logo]
        cwd = d
        if r.random() < 0.6:
            os.symlink("runs", d + "/odd $x;%d" % j)
            a += [r.choice(("-d", "--data-directory")), r.choice(("runs", d + "/runs", "odd $x;%d" % j, "./runs/../runs/"))]
        else:
            cwd = d + "/runs"
        show = r.random() < 0.3
        port = r.choice((None, 5006, 65000))
        orig = r.choice((None, "ci.host.x"))
        a += (["-s"] if show else []) + (["-p", str(port)] if port else []) + (["-a", orig] if orig else [])
        rec_ = d + "/cmd%d" % j
        x = run([PY, "-m", "verificarlo.ci", "serve"] + a, cwd=cwd, env=dict(env, PATH=chk.tmp("bin") + ":" + env["PATH"], VERIF_LOG=rec_), timeout=120)
        if x.rc or not os.path.exists(rec_):
            out["bad"] = ("vfc_ci serve %s starts no server: status %s %s" % (a, x.rc, x.err.decode(errors="replace")[-400:]), {"arguments": a})
            return out
        cmd = open(rec_).read().split("\0")[:-1]
        argv = cmd[cmd.index("--args") + 1:] if "--args" in cmd else []
        pre_ = cmd[:cmd.index("--args")] if "--args" in cmd else cmd
        p_ = str(port or 8080)
        got = {"show": "--show" in pre_, "port": [y for k_, y in zip(pre_, pre_[1:]) if k_ == "--port"] or [y[7:] for y in pre_ if y.startswith("--port=")],
               "origin": [y.split("=", 1)[1] for y in pre_ if y.startswith("--allow-websocket-origin=")], "app": [os.path.realpath(y) for y in pre_ if y.endswith("vfc_ci_report")]}
        want = {"show": show, "port": [p_], "origin": [(orig or "*") + ":" + p_], "app": [os.path.realpath(app)]}
        if got != want:
            out["bad"] = ("vfc_ci serve %s starts the server with %s instead of %s" % (a, got, want), {"arguments": a, "command": cmd})
            return out
        ses.append({"cwd": cwd, "argv": argv, "seed": r.getrandbits(32), "steps": chk.n(40, 120), "mf": mf, "ig": ig, "logo": logo, "user": a, "far": far})
    json.dump(ses, open(d + "/ses.json", "w"))
    t0 = int(time.time())
    x = run([PY, R, "view", app, "ses.json", d + "/view.json"], cwd=d, env=env, timeout=600)
    if x.rc or not os.path.exists(d + "/view.json"):
        out["bad"] = ("the report fails on %d runs: %s" % (n, (x.err or x.out).decode(errors='replace')[-700:]), {"plan": P, "sessions": ses})
        return out
    t1 = int(time.time())
    for s, v in zip(ses, json.load(open(d + "/view.json"))):
        O = Oracle(recs, s["mf"], s["ig"], t0, t1)
        if v["error"] is None and (v["vars"].get("logo_url"), bool(v["vars"].get("has_logo"))) != (s["logo"], s["logo"] is not None):
            out["bad"] = ("vfc_ci serve %s: the logo is %r" % (s["user"], v["vars"].get("logo_url")), {"session": s})
            return out
        filt = set()
        prev = None
        hist = []
        for act, st in v["states"]:
            hist.append(act)
            if act and act[0].startswith("filter "):
                filt.add(act[0].split()[1])
            if act and act[0] == "select_repo":
                filt = set() if prev is None or prev["w"]["select_repo"][0] != act[1] else filt
            st["filtered"] = filt
            try:
                if act and act[0] in st["w"] and act[0].startswith("select_"):
                    need(st["w"][act[0]][0] == act[1], "%s was set to %r and is %r" % (act[0], act[1], st["w"][act[0]][0]))
                if act and act[0].startswith("tap "):
                    fg = prev["f"][act[0].split()[1]]
                    q = [y for y in fg["r"] if y["name"] in ("circle", "full_box")][0]
                    sel = "select_check_run_deterministic" if act[0].endswith("comparison_plot") else "select_run"
                    if act[1] < len(q["x"]):
                        need(st["w"][sel][0] == q["x"][act[1]], "a tap on run %r selects the run %r" % (q["x"][act[1]], st["w"][sel][0]))
                c = judge(st, O, chk)
                out["seen"].append((c, act[0] if act else "open", len(O.repos), len(st["w"]["select_run"][1]), st["w"]["groupby_radio"][0], st["w"]["filterby_radio"][0],
                                    tuple(st["w"][b][0] for b in st["w"] if b.startswith("outliers"))))
            except Bad as e:
                out["bad"] = ("[%d runs, %s] after %s: %s" % (n, " ".join(s["user"]), hist[-4:], e), {"plan": P, "session": s, "actions": hist})
                return out
            prev = st
        if v["error"]:
            out["bad"] = ("[%d runs, %s] after %s: %s" % (n, " ".join(s["user"]), hist[-3:], v["error"]), {"plan": P, "session": s, "actions": hist})
            return out
        out["n"]["sessions"] = out["n"].get("sessions", 0) + 1
    return out


def server(chk, base, env):
    """the real server answers with the page of the report"""
    import socket, subprocess, urllib.request
    d = chk.tmp("srv")
    os.makedirs(d)
    with socket.socket() as q:
        q.bind(("127.0.0.1", 0))
        port = q.getsockname()[1]
    r = random.Random("c30-srv-%d" % chk.seed)
    now = int(time.time())
    P = {"repos": [{"url": "https://h/u/p", "branch": "m", "commits": [commit(r, base, [("t", "v")], now - 86400 * k - 40000, True, {}) for k in (3, 1)]}]}
    json.dump(P, open(d + "/plan.json", "w"))
    x = run([PY, os.path.join(HARNESS, "ci", "report.py"), "make", "plan.json", "made.json"], cwd=d, env=env, timeout=300)
    if x.rc:
        chk.violation("vfc_ci test -g fails: %s" % x.err.decode(errors="replace")[-400:], {"plan": P})
        return
    e = dict(env, PATH=os.path.dirname(PY) + ":" + env["PATH"], BOKEH_RESOURCES="inline")
    p = subprocess.Popen([PY, "-m", "verificarlo.ci", "serve", "-p", str(port), "-d", "runs"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    page, last = None, None
    try:
        op = urllib.request.build_opener(urllib.request.ProxyHandler({}))
        for _ in range(240):
            if p.poll() is not None:
                break
            try:
                page = op.open("http://127.0.0.1:%d/vfc_ci_report" % port, timeout=60).read().decode(errors="replace")
                break
            except OSError as ex:
                last = ex
                if getattr(ex, "code", None):
                    break
                time.sleep(0.5)
    finally:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        log = p.communicate()[0].decode(errors="replace")
    hs = [c["hash"][:7] for q in json.load(open(d + "/made.json"))["plan"]["repos"] for c in q["commits"]]
    if page is None or "Verificarlo" not in page or any(h not in page for h in hs):
        chk.violation("the server does not give the report of runs %s: %s %s" % (hs, last, log[-600:]), {"plan": P})
    chk.observe(1, ("server",))


def body(chk):
    if not os.path.exists(PY):
        raise Inconclusive("no python with pandas")
    pre = vbuild.build("std")
    env = dict(BASE_ENV, PYTHONPATH=pre + "/py", LC_ALL="C.UTF-8", TMPDIR=chk.tmp(""), HOME=chk.tmp(""), PYTHONDONTWRITEBYTECODE="1")
    base = chk.tmp("base")
    must(["gcc", "-O1", "-w", os.path.join(HARNESS, "ci", "fake.c"), "-o", base])
    app = pre + "/py/verificarlo/ci/vfc_ci_report"
    os.makedirs(chk.tmp("bin"))
    with open(chk.tmp("bin/bokeh"), "w") as f:      # stand-in of the server: records how it is started
        f.write("#!/bin/sh\nprintf '%s\\0' \"$@\" > \"$VERIF_LOG\"\n")
    os.chmod(chk.tmp("bin/bokeh"), 0o755)
    from concurrent.futures import ThreadPoolExecutor
    n = chk.n(16, 160)
    with ThreadPoolExecutor(NPROC) as ex:
        for k, o in enumerate(ex.map(lambda k: shape(chk, k, "c30-%d-%d" % (chk.seed, k), base, app, env), range(n))):
            for c, *key in o["seen"]:
                chk.observe(c, tuple(key))
            chk.count("states", len(o["seen"]))
            for a, b in o["n"].items():
                chk.count(a, b)
            chk.sample({"scenario": k, "states": len(o["seen"]), "counts": o["n"]})
            if o["bad"]:
                chk.violation(*o["bad"])
    chk.count("views with outliers above", OUT["above"])
    chk.count("views with outliers below", OUT["below"])
    server(chk, base, env)


run_check("C30", "histories of 1..18 commits in 1..3 scratch repositories run by the real `vfc_ci test -g`, their recorded metadata compared with git; then the real report opened "
          "on the run files as the Bokeh server does (all options), random user actions, and after each action every widget, plotted value, tooltip, colour and table row "
          "recomputed from the run files; distinct = action x repositories x runs x grouping x filters", body,
          ["what Bokeh draws from the data it is given is trusted, and so is the JavaScript that runs in the browser", "runs have distinct timestamps"])
