#!/usr/bin/env python3
"""C07: backend configurations are honoured exactly or refused before the program runs."""
import sys, os, re, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
from concurrent.futures import ThreadPoolExecutor

PROG = r"""
#include <stdio.h>
#include <stdlib.h>
__attribute__((constructor)) static void ctor(void) { printf("U ctor\n"); fflush(stdout); }
int main(void) {
  const char *e = getenv("VFC_BACKENDS"), *f = getenv("VFC_BACKENDS_FROM_FILE");
  volatile double d = 0.1, g = 3; volatile float s = 0.1f, t = 7;
  for (int i = 0; i < 40; i++) { d = d * g + 0.7; g = g / 1.1 - 0.01; s = s * t + 0.7f; t = t / 1.1f - 0.01f; }
  printf("U env %s|%s\nU val %a %a %a %a\n", e ? e : "(none)", f ? f : "(none)", d, g, s, t);
  fflush(stdout);
  return 7;
}
"""


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def word(r, w):
    """the values are case insensitive"""
    return "".join(c.upper() if r.random() < 0.3 else c for c in w)


def integer(r, lo, hi):
    v = r.choice((lo, hi, r.randint(lo, hi), r.randint(lo, min(hi, lo + 60))))
    return v, r.choice(("%d", "%d", "%+d", "%03d")) % v


NOINT = ["", "abc", "x5", "5x", "1.5", "1e2", "0x10", "99999999999999999999", "-99999999999999999999", "4294967306", "5,", "five", "NaN", "5-", "--5", "0b1"]


class Opt:
    """an option: names, valid values (text, report), invalid values"""

    def __init__(self, long, short=None, arg=True, gen=None, bad=(), sets=None):
        self.long, self.short, self.arg, self.gen, self.bad, self.sets = long, short, arg, gen, bad, sets


def ints(long, lo, hi, bad, short=None, low=None):
    def gen(r):
        v, txt = integer(r, lo, hi)
        return txt, {long: str(v)}
    return Opt(long, short, True, gen, NOINT + list(bad))


def enum(long, vals, short=None, bad=()):
    def gen(r):
        v = r.choice(vals)
        return word(r, v), {long: v}
    return Opt(long, short, True, gen, ["", "foo", "%sx" % vals[0], vals[0][:-1], "0"] + list(bad))


def flag(long, short=None):
    return Opt(long, short, False, lambda r: (None, {long: "true"}), ())


def seed(fmt):
    def gen(r):
        v = r.choice((0, 1, 42, 2 ** 31, 2 ** 32 + 5, 2 ** 63 - 1, r.getrandbits(62)))
        return str(v), {"seed": fmt % v}
    return Opt("seed", "s", True, gen, ["", "abc", "1.5", "12x", "0x10", "99999999999999999999", "1e3"])


def sparsity(r):
    v = r.choice((1, 1.0, 0.5, 0.001, 1e-5, round(r.random(), 6) or 0.5))
    return str(v), {"sparsity": "%f" % f32(v)}


PRESET = {"binary16": (5, 10), "binary32": (8, 23), "binary64": (11, 52), "bfloat16": (8, 7), "tensorfloat": (8, 10), "fp24": (7, 16), "PXR24": (8, 15)}


def preset(r):
    p = r.choice(sorted(PRESET))
    e, m = PRESET[p]
    return p, {"range-binary32": str(min(e, 8)), "range-binary64": str(e), "precision-binary32": str(min(m, 23)), "precision-binary64": str(m)}


SP = Opt("sparsity", "n", True, sparsity, ["0", "-0.5", "1.5", "nan", "inf", "abc", "", "0.5x", "1e-60", "2", "-nan"])
EXP = ints("max-abs-error-exponent", -2000, 2000, ())
POS = ["0", "-1", "-24"]
BACKENDS = {
    "ieee": ("interflop-ieee", [flag("debug", "d"), flag("debug-binary", "b"), flag("no-backend-name", "s"), flag("print-new-line", "n"), flag("print-subnormal-normalized", "p"), flag("count-op", "o")],
             {k: "false" for k in ("debug", "debug-binary", "no-backend-name", "print-new-line", "print-subnormal-normalized", "count-op")}),
    "mca": ("interflop-mcaquad", [ints("precision-binary32", 1, 400, POS), ints("precision-binary64", 1, 400, POS), enum("mode", ["ieee", "mca", "pb", "rr"], "m", ["ib", "full"]),
                                  enum("error-mode", ["rel", "abs", "all"], "e"), EXP, flag("daz", "d"), flag("ftz", "f"), SP, seed("%d (fixed)")],
            {"precision-binary32": "24", "precision-binary64": "53", "mode": "mca", "error-mode": "rel", "max-abs-error-exponent": "112", "daz": "false", "ftz": "false", "sparsity": "1.000000"}),
    "mca_int": ("interflop-mcaint", [Opt("precision-binary32", None, True, lambda r: ("24", {}), NOINT + POS + ["23", "25", "53", "4294967320"]),
                                     Opt("precision-binary64", None, True, lambda r: ("53", {}), NOINT + POS + ["52", "54", "24", "4294967349"]),
                                     enum("mode", ["ieee", "mca", "pb", "rr"], "m", ["ib"]), flag("daz", "d"), flag("ftz", "f"), SP, seed("%d (fixed)")],
                {"precision-binary32": "24", "precision-binary64": "53", "mode": "mca", "daz": "false", "ftz": "false", "sparsity": "1.000000"}),
    "vprec": ("interflop-vprec", [ints("precision-binary32", 1, 23, ["-1", "24", "53", "1000"]), ints("precision-binary64", 1, 52, ["-1", "53", "1000"]),
                                  ints("range-binary32", 2, 8, ["0", "-1", "9", "11"]), ints("range-binary64", 2, 11, ["0", "-1", "12"]),
                                  enum("mode", ["ieee", "full", "ib", "ob"], "m", ["mca", "rr"]), enum("error-mode", ["rel", "abs", "all"], "e"), EXP, flag("daz", "d"), flag("ftz", "f"),
                                  Opt("preset", None, True, preset, ["", "binary128", "fp8", "binary", "16"]), enum("instrument", ["arguments", "operations", "all", "none"], "i")],
              {"precision-binary32": "23", "precision-binary64": "52", "range-binary32": "8", "range-binary64": "11", "mode": "ob", "error-mode": "rel", "max-abs-error-exponent": "-1022",
               "daz": "false", "ftz": "false", "instrument": "none"}),
    "cancellation": ("cancellation", [ints("tolerance", 0, 100, ["-1", "-100"], "t"), Opt("warning", "w", True, lambda r: ("true", {"warning": "true"}), ()), seed("%d (fixed)")],
                     {"tolerance": "1", "warning": "false"}),
    "bitmask": ("interflop-bitmask", [ints("precision-binary32", 1, 40, POS), ints("precision-binary64", 1, 70, POS), enum("mode", ["ieee", "full", "ib", "ob"], "m", ["mca", "pb"]),
                                      enum("operator", ["zero", "one", "rand"], "o"), flag("daz", "d"), flag("ftz", "f"), seed("%d (fixed)")],
                {"precision-binary32": "23", "precision-binary64": "52", "mode": "ob", "operator": "zero", "daz": "false", "ftz": "false"}),
}
RANDOM = {"mca", "mca_int", "cancellation", "bitmask"}


def write(r, o, txt):
    """words of the configuration for option o with value txt"""
    if not o.arg:
        return ["-" + o.short] if o.short and r.random() < 0.5 else ["--" + o.long]
    if txt == "":
        return ["--%s=" % o.long]
    k = r.random()
    if o.short and k < 0.25:
        return ["-" + o.short, txt]
    if o.short and k < 0.4:
        return ["-" + o.short + txt]
    if k < 0.6:
        return ["--" + o.long, txt]
    return ["--%s=%s" % (o.long, txt)]


def backend(r, seeded):
    b = r.choice(sorted(BACKENDS))
    head, opts, dflt = BACKENDS[b]
    rep = dict(dflt)
    words = []
    for o in (r.sample(opts, r.randint(0, min(5, len(opts)))) + ([r.choice(opts)] if r.random() < 0.2 else [])):
        if b == "ieee" and o.long in ("debug", "debug-binary", "count-op") and r.random() < 0.5:
            continue
        if o.long == "seed" and seeded:
            continue
        txt, ch = o.gen(r)
        if "-" in (txt or "") and False:
            continue
        words += write(r, o, txt)
        rep.update(ch)
    if seeded and b in RANDOM:
        s = [o for o in opts if o.long == "seed"][0]
        txt, ch = s.gen(r)
        if txt == "0":
            txt, ch = "1", {"seed": ch["seed"].replace("0", "1", 1)}
        words += write(r, s, txt)
        rep.update(ch)
    return b, words, rep


def invalid(r):
    """a faulty configuration and what is wrong in it"""
    parts = []
    for _ in range(r.choice((1, 1, 2, 3))):
        b, w, _ = backend(r, False)
        parts.append([b, ["libinterflop_%s.so" % b] + w])
    b, w = r.choice(parts)
    opts = BACKENDS[b][1]
    k = r.random()
    if k < 0.6:
        cand = [o for o in opts if o.bad]
        if cand:
            o = r.choice(cand)
            v = r.choice(o.bad)
            ins = write(r, o, v)
            if ins[0].startswith("-") and len(ins) == 2 and v.startswith("-"):
                ins = ["--%s=%s" % (o.long, v)]
            at = r.choice([i for i in range(1, len(w) + 1) if i == len(w) or w[i].startswith("--")] or [len(w)])
            # do not cut an option from its value
            if at < len(w) and at > 1 and w[at - 1].startswith("-") and "=" not in w[at - 1]:
                at = len(w)
            w[at:at] = ins
            return parts, "%s %s=%r" % (b, o.long, v)
    if k < 0.72:
        u = r.choice(("--foo", "--foo=3", "-z", "--sparsityy=0.5", "--mod3=rr", "--seeds=4", "--precision-binary16=3", "--range=3", "--Mode=ieee", "-q 3"))
        w += u.split()
        return parts, "%s unknown option %s" % (b, u)
    if k < 0.82:
        u = r.choice(("7", "30", "foo", "mode=rr", "libinterflop_ieee.so", "24"))
        w.append(u)
        return parts, "%s stray word %s" % (b, u)
    if k < 0.88:
        o = r.choice([o for o in opts if o.arg] or [None])
        if o is not None:
            w.append("--" + o.long)
            return parts, "%s %s without a value" % (b, o.long)
        w.append("--debug=1")
        return parts, "ieee flag with a value"
    if k < 0.92 and any(not o.arg for o in opts):
        o = r.choice([o for o in opts if not o.arg])
        w.append("--%s=1" % o.long)
        return parts, "%s flag %s with a value" % (b, o.long)
    u = r.choice(("libinterflop_none.so", "interflop_ieee", "mca", "/nonexistent/libinterflop_ieee.so", "libm.so.6", "--mode=rr", "libinterflop_IEEE.so"))
    if r.random() < 0.5:
        w[0] = u
    else:
        parts.insert(r.randrange(len(parts) + 1), ["", [u]])
    return parts, "unknown backend %s" % u


def join(r, parts):
    return r.choice((";", "; ", " ; ", ";  ")).join((" " if r.random() < 0.3 else "  " if r.random() < 0.1 else " ").join(w) for w in parts)


def one(chk, pre, exe, it, sd):
    r = random.Random(sd)
    d = chk.tmp("t%d" % it)
    os.makedirs(d)
    bad, keys = [], []
    env0 = {k: v for k, v in BASE_ENV.items() if not k.startswith("VFC_")}
    env0["LD_LIBRARY_PATH"] = pre + "/lib"

    def go(cfg, how, diag):
        e = dict(env0, **diag)
        fr = "(none)"
        want = "(none)"
        if how == "env":
            e["VFC_BACKENDS"] = want = cfg
        elif how == "both":
            e["VFC_BACKENDS"] = want = cfg
            fr = e["VFC_BACKENDS_FROM_FILE"] = d + "/other"
            with open(d + "/other", "w") as f:
                f.write(r.choice(("libinterflop_none.so\n", "", "libinterflop_ieee.so --debug\n")))
        else:
            fr = e["VFC_BACKENDS_FROM_FILE"] = d + "/cfg"
            with open(d + "/cfg", "w") as f:
                f.write(cfg + ("\n" if r.random() < 0.7 else ""))
        x = run([exe], env=e, cwd=d, timeout=60)
        if x.timeout:
            raise Hang("program timed out")
        return x, "%s|%s" % (want, fr)

    def user(x):
        return [l for l in x.out.decode(errors="replace").split("\n") if l.startswith("U ")]

    # a valid configuration
    seeded = r.random() < 0.6
    bk = [backend(r, seeded) for _ in range(r.choice((1, 1, 2, 3, 5)))]
    cfg = join(r, [["libinterflop_%s.so" % b] + w for b, w, _ in bk])
    how = r.choice(("env", "env", "both", "file"))
    x, envs = go(cfg, how, {})
    u = user(x)
    ctx = "VFC_BACKENDS%s=%r" % ("_FROM_FILE" if how == "file" else "", cfg)
    if x.rc != 7 or len(u) != 3 or u[0] != "U ctor":
        bad.append("%s: a valid configuration is refused or the program disturbed (status %s): %s" % (ctx, x.rc, x.err.decode(errors="replace").strip().split("\n")[-1][:200]))
    else:
        if u[1] != "U env " + envs:
            bad.append("%s: the environment of the program is %r" % (ctx, u[1]))
        blocks, cur, loaded = [], None, []
        for l in x.err.decode(errors="replace").split("\n"):
            m = re.match(r"Info \[([^]]*)\]: \s*(.*?)\s*$", l)
            if not m:
                continue
            if m.group(2).startswith("loaded backend "):
                loaded.append(m.group(2)[15:].strip())
            elif m.group(2).startswith("load backend with"):
                cur = (m.group(1), {})
                blocks.append(cur)
            elif cur and " = " in m.group(2) and m.group(1) == cur[0]:
                k, v = m.group(2).split(" = ", 1)
                cur[1].setdefault(k.strip(), v.strip())
        if loaded != ["libinterflop_%s.so" % b for b, _, _ in bk]:
            bad.append("%s: loads %s" % (ctx, loaded))
        elif [b[0] for b in blocks] != [BACKENDS[b][0] for b, _, _ in bk]:
            bad.append("%s: reports %s" % (ctx, [b[0] for b in blocks]))
        else:
            for (b, w, rep), (_, got) in zip(bk, blocks):
                for k, v in sorted(rep.items()):
                    if got.get(k) != v:
                        bad.append("%s: %s reports %s = %s, must be %s" % (ctx, b, k, got.get(k), v))
                        break
        for b, w, rep in bk:
            for k, v in rep.items():
                keys.append((b, k, v if len(v) < 4 else "v", how))
        # the diagnostics do not act on the program
        diag = {}
        if r.random() < 0.5:
            diag["VFC_BACKENDS_SILENT_LOAD"] = r.choice(("True", "true", "TRUE"))
        if r.random() < 0.4:
            diag["VFC_BACKENDS_LOGGER"] = r.choice(("False", "false", "0"))
        if r.random() < 0.3:
            diag["VFC_BACKENDS_COLORED_LOGGER"] = r.choice(("True", "False"))
        if r.random() < 0.3:
            diag["VFC_BACKENDS_LOGGER_LEVEL"] = r.choice(("debug", "info", "warning", "error"))
        if r.random() < 0.3:
            diag["VFC_BACKENDS_LOGFILE"] = d + "/lf"
        y, envs = go(cfg, how, diag)
        v = user(y)
        if y.rc != 7 or len(v) != 3 or v[1] != "U env " + envs:
            bad.append("%s with %s: status %s, output %s" % (ctx, diag, y.rc, v[:3]))
        elif v[2] != u[2] and (seeded or not any(b in RANDOM for b, _, _ in bk)):
            bad.append("%s with %s: other results: %s, without: %s" % (ctx, diag, v[2], u[2]))
        sil = diag.get("VFC_BACKENDS_SILENT_LOAD")
        off = "VFC_BACKENDS_LOGGER" in diag
        er = y.err.decode(errors="replace")
        quiet = sil or off or "VFC_BACKENDS_LOGFILE" in diag or diag.get("VFC_BACKENDS_LOGGER_LEVEL") in ("warning", "error")
        if quiet and ("loaded backend" in er or "load backend with" in er):
            bad.append("%s with %s: loading messages on the error stream" % (ctx, diag))
        if not quiet and er.count("loaded backend") != len(bk):
            bad.append("%s with %s: %d loading messages for %d backends" % (ctx, diag, er.count("loaded backend"), len(bk)))
        keys.append(("diag",) + tuple(sorted(k[12:] for k in diag)))
        if "VFC_BACKENDS_LOGFILE" in diag and not (sil or off or diag.get("VFC_BACKENDS_LOGGER_LEVEL") in ("warning", "error")):
            t = "".join(open(d + "/" + f, errors="replace").read() for f in os.listdir(d) if f.startswith("lf."))
            if t.count("loaded backend") != len(bk):
                bad.append("%s with %s: %d loading messages in the log file for %d backends" % (ctx, diag, t.count("loaded backend"), len(bk)))
    # faulty configurations
    for _ in range(3):
        parts, why = invalid(r)
        cfg = join(r, [p[1] for p in parts])
        how = r.choice(("env", "both", "file"))
        diag = r.choice(({}, {}, {"VFC_BACKENDS_SILENT_LOAD": "True"}, {"VFC_BACKENDS_LOGGER": "False"}, {"VFC_BACKENDS_LOGGER_LEVEL": "error"}, {"VFC_BACKENDS_LOGFILE": d + "/lg"}))
        x, _ = go(cfg, how, diag)
        if user(x) or x.rc == 0:
            bad.append("VFC_BACKENDS=%r %s: accepted although faulty (%s): status %s, %d lines of the program" % (cfg, diag, why, x.rc, len(user(x))))
        elif x.rc < 0:
            bad.append("VFC_BACKENDS=%r %s: killed by signal %d (%s)" % (cfg, diag, -x.rc, why))
        elif not x.err.strip():
            bad.append("VFC_BACKENDS=%r %s: refused without a message (%s)" % (cfg, diag, why))
        keys.append(("faulty", why[:60]))
    # the help does not run the program either
    b = r.choice(sorted(BACKENDS))
    x, _ = go("libinterflop_%s.so %s" % (b, r.choice(("--help", "-?", "--usage"))), "env", {})
    if x.rc < 0 or user(x) or not (x.out + x.err).strip():
        bad.append("--help of %s: status %s, %d lines of the program" % (b, x.rc, len(user(x))))
    shutil.rmtree(d)
    return bad, keys, cfg


def special(chk, pre, exe):
    """faults of the whole configuration"""
    env0 = {k: v for k, v in BASE_ENV.items() if not k.startswith("VFC_")}
    env0["LD_LIBRARY_PATH"] = pre + "/lib"
    d = chk.tmp("sp")
    os.makedirs(d + "/dir")
    open(d + "/empty", "w").close()
    open(d + "/nl", "w").write("\n")
    I = "libinterflop_ieee.so"
    cases = [("no variable", {}, False), ("empty list", {"VFC_BACKENDS": ""}, False), ("blanks", {"VFC_BACKENDS": "   "}, False), ("separators", {"VFC_BACKENDS": ";;"}, False),
             ("missing file", {"VFC_BACKENDS_FROM_FILE": d + "/none"}, False), ("empty file", {"VFC_BACKENDS_FROM_FILE": d + "/empty"}, False),
             ("blank file", {"VFC_BACKENDS_FROM_FILE": d + "/nl"}, False), ("directory", {"VFC_BACKENDS_FROM_FILE": d + "/dir"}, False),
             ("16 backends", {"VFC_BACKENDS": ";".join([I] * 16)}, True), ("17 backends", {"VFC_BACKENDS": ";".join([I] * 17)}, False), ("200 backends", {"VFC_BACKENDS": ";".join([I] * 200)}, False),
             ("100 options", {"VFC_BACKENDS": I + " --debug" * 100}, True), ("5000 options", {"VFC_BACKENDS": I + " --no-backend-name" * 5000}, None),
             ("trailing separator", {"VFC_BACKENDS": I + ";"}, True), ("spaces", {"VFC_BACKENDS": "  " + I + "   --no-backend-name "}, True), ("empty segments", {"VFC_BACKENDS": ";" + I + ";;" + I}, True),
             ("full path", {"VFC_BACKENDS": pre + "/lib/" + I}, True), ("long word", {"VFC_BACKENDS": I + " --" + "x" * 20000}, False), ("long name", {"VFC_BACKENDS": "y" * 20000}, False),
             ("log file that cannot be written", {"VFC_BACKENDS": I, "VFC_BACKENDS_LOGFILE": d + "/none/x"}, False)]
    for name, e, ok in cases:
        x = run([exe], env=dict(env0, **e), cwd=d, timeout=60)
        n = len([l for l in x.out.split(b"\n") if l.startswith(b"U ")])
        chk.observe(1, ("special", name))
        good = (x.rc == 7 and n == 3, 0 < x.rc and x.rc != 7 and n == 0 and x.err.strip() != b"")
        if not (good[0] if ok else good[1] if ok is False else any(good)):
            chk.violation("%s: %s, status %s, %d lines of the program, message %r" % (name, "must be accepted" if ok else "must be refused", x.rc, n, x.err[-150:].decode(errors="replace")),
                          {k: v[:300] for k, v in e.items()})


def body(chk):
    pre = vbuild.build("std")
    src = chk.tmp("p.c")
    open(src, "w").write(PROG)
    exe = chk.tmp("exe")
    vfc_must(pre, ["-O1", src, "-o", exe])
    n = chk.n(1500, 20000)
    seeds = ["c07-%d-%d" % (chk.seed, i) for i in range(n)]
    with ThreadPoolExecutor(NPROC) as ex:
        for (bad, keys, cfg), sd in zip(ex.map(lambda i: one(chk, pre, exe, i, seeds[i]), range(n)), seeds):
            for k in keys:
                chk.observe(1, k)
            chk.count("configurations")
            for b in bad[:2]:
                chk.violation(b, {"scenario": sd})
            chk.sample(cfg)
    special(chk, pre, exe)


if __name__ == "__main__":
    run_check("C07", "random lists of 1..5 backends with random documented options (long, short and separate spellings, boundary values), through the variable, the file or both: settings "
          "reported, loading order, environment and results; the same under random diagnostic switches; faulty configurations (bad values, unknown options and backends, stray words) "
          "must stop before constructors and main with a message; distinct = backend x option x value class, faults", body,
          ["VPREC precision 0 and range 1, documented but refused by all versions, are not tried", "the settings act as reported: C08 to C16"])
