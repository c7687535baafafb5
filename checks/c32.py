#!/usr/bin/env python3
"""C32: the report of the precision exploration (vfc_report) against the result files it is made from."""
import sys, os, random, json, re
from html.parser import HTMLParser
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *

PY = "/opt/vp/venv/bin/python"
FC = ["ID", "Lib", "Int", "Float", "Double", "Prec64", "Range64", "Prec32", "Range32", "Ninputs", "Noutputs", "Ncalls"]
AC = ["ID", "ArgID", "Lib", "Int", "IO", "Type", "Prec", "Range", "Min", "Max", "Ncalls"]
TYPE = {0: "Float", 1: "Double", 3: "Float ptr", 4: "Double ptr"}
FN = ["f", "solve", "_ZN3foo3barEd", "sqrt", "sin", "step_2", "main", "llvm.fabs.f64", "axpy"]
FILES = ["a.c", "b.c", "dir1/a.c", "dir2/a.c", "a_c", "lib/b.cpp"]


def plan(r):
    fs, args = [], []
    used = set()
    for k in range(r.randint(1, 9)):
        name, parent, file = r.choice(FN), r.choice(FN + [""]), r.choice(FILES)
        num = r.randint(1, 4) if r.random() < 0.5 else 100 + k
        fid = "%s/%s/%s/%d/%d" % (file, parent, name, r.randint(1, 400), num)
        if (file, num, name) in used:
            continue
        used.add((file, num, name))
        ni, no = r.randint(0, 3), r.randint(0, 1)
        lib = int(r.random() < 0.25)
        intr = int(name.startswith("llvm"))
        ft = r.choice(((1, 0), (0, 1), (1, 1)))
        nc = r.choice((1, 1, 7, r.randint(1, 10 ** 6)))
        fs.append({"ID": fid, "Lib": lib, "Int": intr, "Float": ft[0], "Double": ft[1], "Ninputs": ni, "Noutputs": no, "Ncalls": nc})
        for q in range(ni + no):
            lo = r.choice((0, -1, -2 ** 31, r.randint(-10 ** 6, 10 ** 6)))
            args.append({"ID": fid, "ArgID": ("arg_%d" % q) if q < ni else "return_value", "Lib": lib, "Int": intr, "IO": "input" if q < ni else "output",
                         "Type": r.choice((0, 1, 3, 4)), "Min": lo, "Max": lo + r.choice((0, 1, r.randint(0, 10 ** 6))), "Ncalls": nc})
    return fs, args


def csv(path, cols, rows):
    with open(path, "w") as f:
        f.write("," + ",".join(cols) + "\n")
        for i, x in enumerate(rows):
            f.write("%d,%s\n" % (i, ",".join(str(x[c]) for c in cols)))


def fmt(r, rows, args):
    """the formats found by one exploration"""
    out = []
    for x in rows:
        if args:
            out.append(dict(x, Prec=r.randint(1, 52), Range=r.randint(2, 11)))
        else:
            out.append(dict(x, Prec64=r.randint(1, 52), Range64=r.randint(2, 11), Prec32=r.randint(1, 23), Range32=r.randint(2, 8)))
    out.sort(key=lambda x: (x["Ncalls"], x["ID"]), reverse=True)
    return out


class Page(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self)
        self.funcs, self.cap, self.link = [], None, None
        self.depth = 0

    def handle_starttag(self, t, at):
        a = {k.lower(): v for k, v in at}
        if t == "div" and a.get("class") == "FunctionInformations":
            self.funcs.append((a.get("id"), []))
        elif t == "h4" and self.funcs:
            self.funcs[-1][1].append({"title": "", "links": []})
            self.cap = "title"
        elif t == "a" and self.funcs and "link" in (a.get("class") or "") and a.get("class") != "InfoLink":
            m = re.search(r"open\('([^']*)'", a.get("onclick") or "")
            self.link = [None, "inactif" not in a["class"], m.group(1) if m else None]
            self.cap = "link"

    def handle_data(self, d):
        if self.cap == "title":
            self.funcs[-1][1][-1]["title"] += d
        elif self.cap == "link":
            self.link[0] = (self.link[0] or "") + d

    def handle_endtag(self, t):
        if t == "h4" and self.cap == "title":
            self.cap = None
        elif t == "a" and self.cap == "link":
            if self.funcs[-1][1]:
                self.funcs[-1][1][-1]["links"].append(self.link)
            self.cap = None


def nums(l):
    out = []
    for x in l:
        try:
            out.append(float(x))
        except ValueError:
            pass
    return sorted(out)


def session(chk, pre, seed, k):
    r = random.Random(seed)
    d = chk.tmp("r%d" % k)
    fs, args = plan(r)
    os.makedirs(d + "/vfc_exp_data" + ("/img" if r.random() < 0.3 else ""))
    ops, allops, ar, allar = fmt(r, fs, False), fmt(r, fs, False), fmt(r, args, True), fmt(r, args, True)
    for nm, c, x in (("OperationsResults", FC, ops), ("AllOpsResults", FC, allops), ("ArgumentsResults", AC, ar), ("AllArgsResults", AC, allar)):
        csv("%s/vfc_exp_data/%s.csv" % (d, nm), c, x)
    sel = [] if r.random() < 0.4 else [r.choice(FN) for _ in range(r.randint(1, 3))]
    e = dict(BASE_ENV, PYTHONPATH=os.path.join(HARNESS, "mpl") + ":" + pre + "/py", MPL_RECORD=d + "/rec.json")
    e.pop("VFC_BACKENDS", None)
    cmd = [PY, "-m", "verificarlo.optimize.report"] if k % 3 == 1 else [PY, "-c", "from verificarlo.optimize.report import main; main()"] if k % 3 == 2 else [PY, pre + "/py/verificarlo/vfc_report"]
    x = run(cmd + sel, env=e, cwd=d, timeout=120)
    cfg = "%s %s, %d call sites" % (("vfc_report", "optimize.report", "optimize.report main")[k % 3], sel, len(fs))
    w = {"seed": str(seed), "functions": sel, "sites": [f["ID"] for f in fs]}
    if x.timeout:
        raise Hang("timed out")
    keep = {f["ID"] for f in fs if not sel or f["ID"].split("/")[-3] in sel or f["ID"].split("/")[-4] in sel}
    page = d + "/vfc_exp_data/vfc_precexp_report.html"
    if x.rc != 0 or not os.path.exists(page):
        return [("[%s] status %s, no report: %s" % (cfg, x.rc, x.err[-300:].decode(errors="replace")), w)], 1, []
    bad, n = [], 0
    txt = open(page).read()
    rec = json.load(open(d + "/rec.json"))
    shown = [(a, int(b)) for a, b in re.findall(r"\['([^']*)',\s*(\d+)\]", txt)]
    tot = {}
    for f in fs:
        if f["ID"] in keep:
            nm = f["ID"].split("/")[-3]
            tot[nm] = tot.get(nm, 0) + f["Ncalls"]
    if sorted(shown) != sorted((a.upper(), b) for a, b in tot.items()) or [b for _, b in shown] != sorted([b for _, b in shown], reverse=True):
        bad.append(("[%s] numbers of calls %s, those of the results %s" % (cfg, shown, tot), w))
    p = Page()
    p.feed(txt)
    if sorted(a for a, _ in p.funcs) != sorted(a.upper() for a in tot):
        bad.append(("[%s] functions %s, those of the results %s" % (cfg, [a for a, _ in p.funcs], sorted(tot)), w))
        return bad, 1, []
    by = {i: {q["ID"]: q for q in t} for i, t in ((0, ops), (1, allops))}
    seen = set()
    imgs = set()
    for fname, calls in p.funcs:
        cand = [f for f in allops if f["ID"] in keep and f["ID"].split("/")[-3].upper() == fname]
        if len(calls) != len(cand):
            bad.append(("[%s] %d calls of %s, the results have %d" % (cfg, len(calls), fname, len(cand)), w))
            continue
        ns = [int(re.search(r"executed (\d+) time", c["title"]).group(1)) for c in calls]
        if ns != sorted(ns, reverse=True):
            bad.append(("[%s] calls of %s not sorted by number of executions" % (cfg, fname), w))
        for c in calls:
            n += 1
            def title(f):
                q = f["ID"].split("/")
                return "Call to %s in %s at line %s executed %d time(s):" % (q[-3].upper(), q[-5], q[-2], f["Ncalls"])
            links = {l[0]: l for l in c["links"]}
            poss = [f for f in cand if title(f) == c["title"].strip() and f["ID"] not in seen]
            why = None
            ok = None
            for f in poss:
                why = site(f, links, by, allar, ar, rec)
                if why is None:
                    ok = f
                    break
            if not poss:
                why = "no such call in the results"
            if ok is None:
                bad.append(("[%s] %s %s" % (cfg, c["title"].strip(), why), w))
            else:
                seen.add(ok["ID"])
                for l in links.values():
                    if l[2]:
                        if l[2] in imgs:
                            bad.append(("[%s] image %s used twice" % (cfg, l[2]), w))
                        imgs.add(l[2])
                        if not os.path.exists(d + "/vfc_exp_data/" + l[2]):
                            bad.append(("[%s] image %s missing" % (cfg, l[2]), w))
    return bad, n + 1, [(bool(sel), len(fs), len(keep), f["Lib"], f["Int"], f["Float"], f["Double"], f["Ninputs"], f["Noutputs"]) for f in fs]


def site(f, links, by, allar, ar, rec):
    """None when the links and the images of the call show its data"""
    fid = f["ID"]
    if sorted(links) != ["Arguments", "Arguments Only", "Operations", "Operations Only"]:
        return "links %s" % sorted(links)
    comp = not (f["Lib"] or f["Int"])
    for nm, act in (("Arguments", f["Ninputs"] + f["Noutputs"] > 0), ("Arguments Only", f["Ninputs"] + f["Noutputs"] > 0), ("Operations", comp), ("Operations Only", comp)):
        l = links[nm]
        if l[1] != act or (l[2] is not None) != act:
            return "%s is %s" % (nm, "offered" if l[1] else "not offered")
        if not act:
            continue
        im = rec.get(os.path.basename(l[2]))
        if im is None:
            return "%s: image never drawn" % nm
        q = fid.split("/")
        if not all(z in im["title"] for z in (q[-3].upper(), q[-2], q[-5])):
            return "%s: title of the image %r" % (nm, im["title"])
        if nm.startswith("Arg"):
            rows = [a for a in (allar if nm == "Arguments" else ar) if a["ID"] == fid]
            lab = {"%s %s %s" % (a["IO"], TYPE[a["Type"]], a["ArgID"]): a for a in rows}
            ticks = im["ticks"] or [t for x in im["axes"] for t in x["text"] if t in lab]
            if sorted(ticks) != sorted(lab):
                return "%s: arguments %s, expected %s" % (nm, ticks, sorted(lab))
            rows = [lab[t] for t in ticks]
            bars = [x["bar"] for x in im["axes"] if x["bar"]]
            if sorted(bars) != sorted([[a["Range"] for a in rows], [a["Prec"] for a in rows]]):
                return "%s: formats %s, expected %s" % (nm, bars, [(a["Range"], a["Prec"]) for a in rows])
            lines = [list(t) for x in im["axes"] for t in x["lines"]]
            if lines != [[a["Min"], a["Max"]] for a in rows]:
                return "%s: intervals %s, expected %s" % (nm, lines, [(a["Min"], a["Max"]) for a in rows])
            if nums([t for x in im["axes"] for t in x["text"]]) != sorted(float(a[z]) for a in rows for z in ("Min", "Max", "Range", "Prec")):
                return "%s: numbers written %s" % (nm, [x["text"] for x in im["axes"]])
        else:
            o = by[1 if nm == "Operations" else 0][fid]
            want = ([[0, o["Prec32"]], [23, 23 + o["Range32"]]] if o["Float"] else []) + ([[0, o["Prec64"]], [52, 52 + o["Range64"]]] if o["Double"] else [])
            lines = [list(t) for x in im["axes"] for t in x["lines"]]
            if sorted(lines) != sorted(want):
                return "%s: formats %s, expected %s" % (nm, lines, want)
            num = nums([t for x in im["axes"] for t in x["text"]])
            if num != sorted(([float(o["Prec32"]), float(o["Range32"])] if o["Float"] else []) + ([float(o["Prec64"]), float(o["Range64"])] if o["Double"] else [])):
                return "%s: numbers written %s" % (nm, num)
    return None


def body(chk):
    pre = vbuild.build("std")
    r = chk.rng
    jobs = [(r.getrandbits(40), k) for k in range(chk.n(120, 1500))]
    with ThreadPoolExecutor(NPROC) as ex:
        for bad, n, keys in ex.map(lambda j: session(chk, pre, *j), jobs):
            chk.observe(n)
            chk.distinct.update(keys)
            chk.count("reports")
            for b in bad[:3]:
                chk.violation(*b)


run_check("C32", "random result files of vfc_precexp through the real report generator, drawings recorded by a stand-in plotting library: numbers of calls, call sites, links and every "
          "value drawn are compared with the files; distinct = selection x numbers of sites x kind of site x number of arguments", body,
          assumptions=["the plotting library draws what it is asked to"])
