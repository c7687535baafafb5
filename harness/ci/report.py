"""report.py make PLAN OUT: makes run files with the real `vfc_ci test -g` from a plan of repositories and commits.
report.py view APPDIR SESSIONS OUT: opens the real report on directories of run files as the Bokeh server does, performs
random user actions and dumps what is shown after each."""
import contextlib, glob, io, json, os, random, shutil, subprocess, sys, time, warnings
warnings.simplefilter("ignore")


def fl(v):
    if v is None:
        return None
    if isinstance(v, str):
        return v
    if type(v).__name__ in ("bool", "bool_"):
        return bool(v)
    return float(v).hex()


def make(plan, out):
    import verificarlo.ci.test as t
    top = os.getcwd()
    gmtime, now = time.gmtime, time.time
    for n, repo in enumerate(plan["repos"]):
        d = os.path.join(top, "repo%d" % n)
        os.makedirs(d)
        os.chdir(d)

        def git(*a, **e):
            subprocess.run(["git", "-c", "commit.gpgsign=false"] + list(a), check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           env=dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", **e))
        git("init", "-q", "-b", repo["branch"], ".")
        git("remote", "add", "origin", repo["url"])
        open(".gitignore", "w").write("plan\n*.h5\n")
        for c in repo["commits"]:
            shutil.rmtree("plan", ignore_errors=True)
            for f, s in c["files"].items():
                os.makedirs(os.path.dirname(f) or ".", exist_ok=True)
                open(f, "w").write(s)
            open("vfc_tests_config.json", "w").write(json.dumps(c["config"]))
            open("note", "a").write("x\n")
            if c.get("branch"):
                git("checkout", "-q", "-b", c["branch"])
            git("add", "-A")
            who = {"GIT_AUTHOR_NAME": c["author"], "GIT_AUTHOR_EMAIL": c["email"], "GIT_AUTHOR_DATE": "@%d +0000" % c["date"],
                   "GIT_COMMITTER_NAME": "someone else", "GIT_COMMITTER_EMAIL": "else@x", "GIT_COMMITTER_DATE": "@%d +0000" % c["cdate"]}
            git("commit", "-q", "-m", c["message"], **who)
            c["hash"] = subprocess.run(["git", "rev-parse", "HEAD"], stdout=subprocess.PIPE, check=True).stdout.decode().strip()
            before = set(glob.glob("*.h5"))
            with contextlib.redirect_stdout(io.StringIO()):
                time.gmtime, time.time = (lambda *a: gmtime(*(a or (c["date"],)))), (lambda: float(c["date"]))   # the run takes place at that date
                try:
                    t.run(c["git"], False, False)
                finally:
                    time.gmtime, time.time = gmtime, now
            new = sorted(set(glob.glob("*.h5")) - before)
            c["produced"] = new
            os.makedirs(os.path.join(top, "runs"), exist_ok=True)
            for f in new:
                shutil.move(f, os.path.join(top, "runs", f))
        os.chdir(top)
    import pandas as pd
    recs = {}
    for f in sorted(os.listdir("runs")):
        r = {}
        m = pd.read_hdf("runs/" + f, key="metadata")
        r["meta"] = [dict({"timestamp": int(i)}, **{k: (bool(v) if k == "is_git_commit" else str(v)) for k, v in x.items()}) for i, x in m.iterrows()]
        for key in ("data", "deterministic_data"):
            d = pd.read_hdf("runs/" + f, key=key)
            r[key] = [dict({"key": list(i) if isinstance(i, tuple) else [i]}, **{k: fl(v) for k, v in x.items()}) for i, x in d.iterrows()]
        recs[f] = r
    json.dump({"plan": plan, "runs": recs}, open(out, "w"))


FIGS = ["boxplot", "sigma_plot", "s10_plot", "s2_plot", "comparison_plot", "mu_inspect", "sigma_inspect", "s10_inspect", "s2_inspect"]
TABS = ["non_deterministic_checks_table", "deterministic_checks_table"]
SEL = ["select_repo", "select_test", "select_n_runs", "select_var", "select_backend", "select_deterministic_test", "select_n_deterministic_runs",
       "select_deterministic_var", "select_deterministic_backend", "select_run", "select_filter", "select_check_run_non_deterministic",
       "select_check_run_deterministic"]
RAD = ["groupby_radio", "filterby_radio"]
BOX = ["outliers_filtering_compare", "outliers_filtering_deterministic", "outliers_filtering_inspect"]


def dump(doc):
    W = lambda n: doc.select_one({"name": n})
    s = {"w": {}, "f": {}, "t": {}}
    for n in SEL:
        w = W(n)
        s["w"][n] = [w.value, list(w.options)]
    for n in RAD:
        w = W(n)
        s["w"][n] = [w.labels[w.active], list(w.labels)]
    for n in BOX:
        s["w"][n] = [len(W(n).active), None]
    for n in FIGS:
        p = W(n)
        out = []
        for r in p.renderers:
            g = r.glyph
            cols = dict(r.data_source.data)
            one = {"name": r.name, "type": type(g).__name__}
            for a in ("x", "y", "x0", "y0", "x1", "y1", "top", "bottom", "fill_color"):
                if not hasattr(g, a):
                    continue
                v = getattr(g, a)
                v = getattr(v, "field", v)
                if isinstance(v, dict):
                    v = v.get("field", v.get("value"))
                if isinstance(v, str) and v in cols:
                    one[a] = [fl(x) for x in list(cols[v])]
                else:
                    one[a] = None if a != "fill_color" else v
            if r.name in ("circle", "full_box"):
                one["cols"] = {k: [fl(x) for x in list(v)] for k, v in cols.items() if isinstance(k, str)}
            out.append(one)
        tips = []
        for t in p.tools:
            if type(t).__name__ == "HoverTool":
                tips = [list(x) for x in t.tooltips]
        s["f"][n] = {"r": out, "range": list(p.x_range.factors), "title": p.title.text, "tips": tips}
    for n in TABS:
        t = W(n)
        d = t.source.data
        s["t"][n] = {c.title: [fl(x) for x in list(d[c.field])] if c.field in d else [] for c in t.columns}
    return s


def view(app, sessions, out):
    from bokeh.application.handlers import DirectoryHandler
    from bokeh.document import Document
    res = []
    for ses in sessions:
        os.chdir(ses["cwd"])
        r = {"states": [], "error": None}
        res.append(r)
        h = DirectoryHandler(filename=app, argv=ses["argv"])
        doc = Document()
        with contextlib.redirect_stdout(io.StringIO()):
            h.modify_document(doc)
        if h.failed or not doc.roots:
            r["error"] = "the report does not open: %s %s" % (h.error, (h.error_detail or "")[-1500:])
            continue
        r["vars"] = {k: v for k, v in doc.template_variables.items() if isinstance(v, (str, int, bool))}
        rng = random.Random(ses["seed"])
        W = lambda n: doc.select_one({"name": n})
        r["states"].append([None, dump(doc)])
        for k in range(ses["steps"]):
            kind = rng.random()
            act = None
            try:
                if ses.get("far") and k < 5:
                    # all the runs, and the outliers filtered
                    n = (["select_n_runs", "select_n_deterministic_runs"] + BOX)[k]
                    if k < 2:
                        act = [n, W(n).options[-1]]
                        W(n).value = act[1]
                    else:
                        act = [n, 1]
                        W(n).active = [0]
                elif kind < 0.12:
                    n = "select_repo"
                    act = [n, rng.choice(W(n).options)]
                    W(n).value = act[1]
                elif kind < 0.66:
                    n = rng.choice(SEL[1:])
                    o = W(n).options
                    if not o:
                        continue
                    act = [n, rng.choice(o)]
                    W(n).value = act[1]
                elif kind < 0.78:
                    n = rng.choice(RAD)
                    act = [n, rng.randrange(len(W(n).labels))]
                    W(n).active = act[1]
                elif kind < 0.86 and ses.get("outliers", True):
                    n = rng.choice(BOX)
                    act = [n, 1 - len(W(n).active)]
                    W(n).active = [0] if act[1] else []
                elif kind < 0.93:
                    # tap on a point of a plot
                    n = rng.choice(FIGS[:5])
                    rr = [x for x in W(n).renderers if x.name in ("circle", "full_box")][0]
                    m = len(rr.data_source.data.get("hash", []))
                    if not m:
                        continue
                    i = rng.randrange(m)
                    act = ["tap " + n, i]
                    rr.data_source.selected.indices = [i]
                    rr.data_source.selected.indices = []
                else:
                    # the client side filter of the tests
                    n = rng.choice(["select_test", "select_deterministic_test"])
                    f = [a for a in W("test_filter" if n == "select_test" else "deterministic_test_filter").js_property_callbacks["change:value"]]
                    allo = list(f[0].args["options"])
                    s = rng.choice(["", "", rng.choice(allo)[:2] if allo and allo[0] else ""])
                    act = ["filter " + n, s]
                    W(n).options = [x for x in allo if s in x]
            except Exception as e:
                import traceback
                r["error"] = "action %s raises %s: %s" % (act, type(e).__name__, traceback.format_exc()[-1200:])
                break
            r["states"].append([act, dump(doc)])
    json.dump(res, open(out, "w"))


if sys.argv[1] == "make":
    make(json.load(open(sys.argv[2])), sys.argv[3])
else:
    view(sys.argv[2], json.load(open(sys.argv[3])), sys.argv[4])
