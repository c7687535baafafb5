#!/usr/bin/env python3
"""C23: the delta-debug search, driven by stand-in programs with known failure predicates."""
import sys, os, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
from concurrent.futures import ThreadPoolExecutor

M64 = (1 << 64) - 1


def fnv(h, x):
    for i in range(8):
        h = ((h ^ ((x >> (8 * i)) & 255)) * 1099511628211) & M64
    return h


H0 = 14695981039346656037


class Pred:
    def __init__(self, r, n):
        k = r.random()
        self.n = n
        self.q = 1
        self.clauses = []
        if k < 0.2:
            self.kind = "hash"
            self.q = r.choice((2, 3, 5, 20))
        elif k < 0.32:
            self.kind = "flaky"
            self.q = r.choice((2, 3, 5, 8))
        else:
            self.kind = "clauses"
            for _ in range(r.choice((1, 1, 2, 2, 3, 5))):
                m = min(n, r.choice((1, 1, 1, 2, 2, 3, 4, 8)))
                if r.random() < 0.4:
                    s = r.randrange(n - m + 1)
                    need = list(range(s, s + m))
                else:
                    need = r.sample(range(n), m)
                blk = [] if k < 0.7 else [x for x in r.sample(range(n), min(n, r.choice((0, 1, 2)))) if x not in need]
                self.clauses.append((need, blk))
            if k > 0.85:
                # something must fail with everything on
                self.clauses.append((r.sample(range(n), min(n, r.choice((1, 2, 3)))), []))
            if r.random() < 0.25:
                self.q = r.choice((2, 3))     # fails in some of the samples only
            if r.random() < 0.08:
                self.clauses = [(c[0], [next(x for x in range(n) if x not in c[0])]) for c in self.clauses if len(c[0]) < n]

    def text(self):
        t = "%s %d %d\n" % (self.kind, self.n, self.q)
        return t + "".join(" ".join(map(str, [x + 1 for x in a])) + " | " + " ".join(map(str, [x + 1 for x in b])) + "\n" for a, b in self.clauses)

    def fails(self, s, nrun):
        s = set(s)
        if self.kind == "hash":
            if not s:
                return False
            if len(s) == self.n:
                return True
            h = H0
            for x in sorted(s):
                h = fnv(h, x + 1)
            return (h >> 20) % self.q == 0
        if self.kind == "flaky":
            h = H0
            for x in sorted(s):
                h = fnv(h, x + 1)
            return bool(s) and any((fnv(h, 100000 + i) >> 20) % self.q == 0 for i in range(1, nrun + 1))
        for c, (a, b) in enumerate(self.clauses):
            if s.issuperset(a) and not s.intersection(b):
                if self.q <= 1 or any((fnv(fnv(H0, c), i) >> 20) % self.q == 0 for i in range(1, nrun + 1)):
                    return True
        return False


def one(chk, pre, fake, it, seed):
    r = random.Random(seed)
    d = chk.tmp("d%d" % it)
    os.makedirs(d + "/plan")
    n = r.choice((1, 2, 3, 4, 5, 7, 8, 12, 16, 23, 40, 64))
    p = Pred(r, n)
    sites = ["0x%016x: f%d at src.c:%d" % (i + 1, i % 5, 10 + i // 3) + "\n" for i in range(n)]
    # sites seen by one or several processes of the program
    nproc = r.choice((1, 1, 1, 2, 3))
    parts = [[] for _ in range(nproc)]
    order = list(range(n))
    for i in order:
        ks = [k for k in range(nproc) if r.random() < 0.5] or [r.randrange(nproc)]
        for k in ks:
            parts[k].append(i)
    for k in range(nproc):
        with open(d + "/plan/sites.%d" % k, "w") as f:
            f.writelines(sites[i] for i in parts[k])
    badref = r.random() < 0.04
    with open(d + "/plan/pred", "w") as f:
        f.write(p.text() if not badref else "r" + p.text())
    for nm in ("ddRun", "ddCmp"):
        shutil.copy2(fake, d + "/" + nm)
    e = dict(BASE_ENV, PYTHONPATH=pre + "/py", DD_PLAN=d + "/plan")
    nrun = 5
    cfg = {}
    if r.random() < 0.7:
        nrun = r.choice((1, 2, 3, 4, 6, 8))
        cfg["NRUNS"] = str(nrun)
    algo = r.choice(("d", "d", "s", "strict", "", None, "ddmax", "dicho", "stoch"))
    if algo == "ddmax":
        cfg["ALGO"] = "ddmax"
    else:
        if r.random() < 0.3:
            cfg["ALGO"] = "rddmin"
        if algo is not None:
            cfg["RDDMIN"] = algo
        if r.random() < 0.4:
            cfg["RDDMIN_TAB"] = r.choice(("exp", "all", "single"))
        if r.random() < 0.4:
            cfg["DICHO_TAB"] = r.choice(("exp", "all", "single", "half", str(r.randint(1, nrun))))
        if r.random() < 0.3:
            cfg["DICHO_GRANULARITY"] = r.choice(("2", "3", "4"))
    if r.random() < 0.35:
        cfg["NUM_THREADS"] = r.choice(("1", str(nrun), "8"))
    if r.random() < 0.3:
        cfg["QUIET"] = "1"
    for k, v in cfg.items():
        e["INTERFLOP_DD_" + k] = v
    times = 2 if r.random() < 0.15 else 1      # a second search uses the results of the first one
    bad = []
    what = "sites %d, predicate %s, options %s" % (n, p.text().replace("\n", ";")[:300], cfg)
    for _ in range(times):
        x = run([sys.executable, "-m", "verificarlo.ddebug.main", "./ddRun", "./ddCmp"], env=e, cwd=d, timeout=120)
        if x.timeout:
            raise Hang("the delta-debug search")
        bad += judge(d, p, n, nrun, algo, cfg, x, badref, sites)
        if bad:
            break
    full = p.fails(range(n), nrun)
    nlog = sum(1 for l in open(d + "/plan/log") if l.startswith("RUN")) if os.path.exists(d + "/plan/log") else 0
    key = (p.kind, algo or "-", n, full, p.q > 1, cfg.get("NUM_THREADS"), nrun, len(p.clauses), any(c[1] for c in p.clauses))
    res = (bad, what, key, nlog, x.out[-400:].decode(errors="replace"), seed)
    shutil.rmtree(d)
    return res


def lines(f):
    try:
        with open(f) as h:
            return h.readlines()
    except OSError:
        return None


def judge(d, p, n, nrun, algo, cfg, x, badref, sites):
    bad = []
    idx = {s: i for i, s in enumerate(sites)}
    D = d + "/dd.line/"
    found = sorted(glob.glob(D + "ddmin[0-9]*"))
    full = p.fails(range(n), nrun)
    # what was run
    byset = {}
    ninc = 0
    for l in open(d + "/plan/log"):
        f = l.split()
        if f[0] == "RUN":
            s = os.path.basename(f[1])
            if not s.startswith("dd.run"):
                bad.append("a sample ran in %s" % f[1])
                continue
            byset.setdefault(frozenset(int(z) - 1 for z in f[2:]), []).append(int(s[6:]))
        elif f[0] == "NOINC":
            ninc += 1
    if ninc:
        bad.append("%d runs without a readable list of sites" % ninc)
    for s, runs in byset.items():
        if len(set(runs)) != len(runs):
            bad.append("the samples %s of one set of %d sites ran again" % (runs, len(s)))
        if max(runs) > nrun:
            bad.append("sample %d of a set of %d sites, %d asked" % (max(runs), len(s), nrun))
    if badref:
        if x.rc == 0 or found:
            bad.append("an invalid reference is accepted (status %s)" % x.rc)
        return bad
    if not full:
        if x.rc != 42 or found or os.path.lexists(D + "ddmax"):
            bad.append("nothing fails with all the sites, status %s, %d sets reported: %s" % (x.rc, len(found), x.err[-200:].decode(errors="replace")))
        elif len(byset.get(frozenset(range(n)), [])) != nrun:
            bad.append("the full set was declared passing after %d samples (%d asked)" % (len(byset.get(frozenset(range(n)), [])), nrun))
        return bad
    if x.rc != 0:
        return bad + ["the search stopped with status %s: %s" % (x.rc, (x.err or x.out)[-300:].decode(errors="replace"))]
    allset = set(range(n))

    def load(link):
        inc, exc = lines(D + link + "/dd.line.include"), lines(D + link + "/dd.line.exclude")
        if inc is None or exc is None or any(l not in idx for l in inc + exc):
            bad.append("%s: list of sites unreadable or altered" % link)
            return None
        i, e = [idx[l] for l in inc], [idx[l] for l in exc]
        if len(set(i)) != len(i) or set(i) & set(e) or set(i) | set(e) != allset:
            bad.append("%s: include and exclude lists are not complementary" % link)
        return set(i)

    def enough(s, name):
        """a passing verdict needs all the samples"""
        if len(byset.get(frozenset(s), [])) != nrun:
            bad.append("%s: declared passing after %d samples (%d asked)" % (name, len(byset.get(frozenset(s), [])), nrun))

    if algo == "ddmax":
        m, c = load("ddmax"), load("ddmax-cmp")
        if m is None or c is None:
            return bad
        if m | c != allset or m & c:
            bad.append("ddmax and its complement do not match")
        if p.fails(m, nrun):
            bad.append("ddmax fails (%d of %d sites)" % (len(m), n))
        else:
            enough(m, "ddmax")
        for z in c:
            if not p.fails(m | {z}, nrun):
                bad.append("ddmax is not maximal: site %d can be added" % (z + 1))
        return bad
    union = set()
    sets = []
    for k in range(len(found)):
        if not os.path.lexists(D + "ddmin%d" % k):
            bad.append("ddmin%d is missing among %s" % (k, [os.path.basename(f) for f in found]))
            continue
        s = load("ddmin%d" % k)
        if s is None:
            continue
        if s & union:
            bad.append("ddmin%d overlaps another set" % k)
        union |= s
        sets.append(s)
        if not p.fails(s, nrun):
            bad.append("ddmin%d does not fail: sites %s" % (k, sorted(z + 1 for z in s)))
        for z in s:
            if p.fails(s - {z}, nrun):
                bad.append("ddmin%d is not minimal: still fails without site %d (%s)" % (k, z + 1, sorted(y + 1 for y in s)))
                break
    if not sets:
        bad.append("the full set fails and nothing is reported")
    c = load("rddmin-cmp")
    if c is not None:
        if c != allset - union:
            bad.append("rddmin-cmp has %d sites, the sets found leave %d" % (len(c), n - len(union)))
        if p.fails(c, nrun):
            bad.append("the complement of the sets found still fails")
        else:
            enough(c, "rddmin-cmp")
    # the sets printed
    out = x.out.decode(errors="replace")
    for k in range(len(found)):
        if out.count("ddmin%d (" % k) != 1:
            bad.append("ddmin%d is announced %d times" % (k, out.count("ddmin%d (" % k)))
    return bad


def body(chk):
    pre = vbuild.build("std")
    fake = chk.tmp("fake")
    must(["gcc", "-O1", "-w", os.path.join(HARNESS, "dd/fake.c"), "-o", fake])
    n = chk.n(300, 5000)
    seeds = ["c23-%d-%d" % (chk.seed, i) for i in range(n)]
    with ThreadPoolExecutor(NPROC) as ex:
        for bad, what, key, nlog, out, seed in ex.map(lambda i: one(chk, pre, fake, i, seeds[i]), range(n)):
            chk.observe(nlog + 1, key)
            chk.count("searches")
            chk.count("runs of the program", nlog)
            for b in bad[:2]:
                chk.violation("%s [%s]" % (b, what), {"scenario": seed, "what": what, "output": out})
            chk.sample({"scenario": seed, "search": what, "runs": nlog})


run_check("C23", "complete vfc_ddebug sessions on stand-in programs whose failure predicate is known (monotone clauses, clauses with blockers, clauses failing in some samples "
          "only, arbitrary hash of the set), all algorithms and options, cached second sessions, several processes; the log of every run of the program and all the "
          "directories are checked: failing, minimal, disjoint, complement passes, sample counts; distinct = predicate x algorithm x size x options", body,
          ["the outcome of a sample depends on the set of sites and the number of the sample only"])
