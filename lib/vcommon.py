"""Shared machinery of the checks: verdicts, evidence, known findings, harness builds."""
import errno
import hashlib
import json
import os
import random
import shutil
import struct
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import vbuild  # noqa: E402

HARNESS = os.path.join(VERIF, "harness")
CLANG = vbuild.CLANG
CLANGXX = vbuild.CLANGXX
NPROC = 8


class Hang(Exception):
    """the code under test did not finish in a time far beyond what it needs"""
    seen = []

    def __init__(self, what):
        super().__init__(what)
        Hang.seen.append(what)


class Inconclusive(Exception):
    """The harness could not observe what it needs (exit 2, never a verdict)."""


class ToolchainFailure(Exception):
    """The toolchain under test rejected a well-formed harness program (a violation: the same
    program is accepted on the unchanged tree and by the plain compiler)."""


class Check:
    """One run of one property's check."""

    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.rule = rule
        self.assumptions = list(assumptions)
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.violations = []
        self.nviol = 0
        self.known_hit = {}
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", "%s-%d" % (pid, os.getpid()))
        os.makedirs(self.work)
        self.known = load_known(pid)

    thorough = property(lambda s: s.tier == "thorough")

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def observe(self, n=1, key=None):
        """n evaluations; key (hashable) identifies a distinct non-trivial case"""
        self.evaluations += n
        if key is not None:
            self.distinct.add(key)

    def sample(self, obj, cap=6):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def violation(self, what, witness, key=None):
        """what: one line; witness: JSON-able replay data; key: finding key matched against
        known_findings.json"""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        self.nviol += 1
        if len(self.violations) < 20:
            self.violations.append((what, witness))

    def tmp(self, name):
        return os.path.join(self.work, name)

    def finish(self):
        for k, n in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s (seen %d times)" % (self.pid, self.known[k], n))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
                           "rule": self.rule, "samples": self.samples, **self.extra},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": self.nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d evaluations, %d distinct non-trivial, %.1fs, %d violations %s"
              % (self.pid, self.tier, self.evaluations, len(self.distinct), ev["wall_s"], self.nviol,
                 json.dumps(self.extra, default=str)[:1500]))
        rc = 0
        if self.violations:
            rd = os.path.join(VERIF, "work", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-seed%d.json" % (self.pid, self.seed))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "command": "VERIF_SEED=%d python3 %s %s" % (self.seed, sys.argv[0], self.tier),
                           "violations": [{"what": w, "witness": x} for w, x in self.violations]},
                          f, indent=1, default=str)
            for w, _ in self.violations[:8]:
                print("  " + str(w)[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            rc = 1
        elif self.evaluations == 0 or len(self.distinct) == 0:
            print("INCONCLUSIVE: nothing was observed")
            rc = 2
        return rc


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {e["key"]: e["what"] for e in d.get("findings", []) if e["property"] == pid}


def run_check(pid, rule, body, assumptions=()):
    c = Check(pid, rule, assumptions)
    rc = 2
    try:
        body(c)
        rc = c.finish()
    except ToolchainFailure as e:
        c.violation("the instrumenting compiler failed on a valid program: %s" % str(e)[:400], str(e)[:3000])
        c.observe(1, "toolchain-failure")
        rc = c.finish()
    except vbuild.BuildError as e:
        # the tree itself does not build: nothing can be decided
        print("INCONCLUSIVE build error: %s" % e)
    except Exception as e:
        if Hang.seen:
            c.violation("does not end: %s" % Hang.seen[0][:400], Hang.seen[0][:3000])
            c.observe(1, "hang")
            rc = c.finish()
        elif isinstance(e, Inconclusive):
            print("INCONCLUSIVE: %s" % e)
        elif isinstance(e, MemoryError) or isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EAGAIN, errno.EMFILE):
            traceback.print_exc()
        else:
            # what the code produced is not even of the expected form
            traceback.print_exc()
            c.violation("the outcome has not the expected form: %s" % repr(e)[:300], traceback.format_exc()[-3000:])
            c.observe(1, "form")
            rc = c.finish()
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)


# ---------------------------------------------------------------- running
BASE_ENV = {k: v for k, v in os.environ.items()
            if not k.startswith(("VFC_", "INTERFLOP_", "DD_", "ASAN_", "UBSAN_", "TSAN_"))}


def envof(prefix, backends=None, **kw):
    e = dict(BASE_ENV)
    e["LD_LIBRARY_PATH"] = os.path.join(prefix, "lib")
    e["LC_ALL"] = "C.UTF-8"
    if backends is not None:
        e["VFC_BACKENDS"] = backends
    e["VFC_BACKENDS_SILENT_LOAD"] = "True"
    e["VFC_BACKENDS_LOGGER"] = "False"
    for k, v in kw.items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    return e


class Res:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run(cmd, env=None, cwd=None, timeout=120, stdin=None):
    if Hang.seen:     # the verdict is known: let the other workers end quickly
        return Res(None, b"", b"", True)
    try:
        p = subprocess.run(cmd, env=env or BASE_ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, input=stdin, stdin=subprocess.DEVNULL if stdin is None else None)
        return Res(p.returncode, p.stdout, p.stderr)
    except subprocess.TimeoutExpired as e:
        return Res(None, e.stdout or b"", e.stderr or b"", True)


def must(cmd, **kw):
    r = run(cmd, **kw)
    if r.rc != 0:
        raise Inconclusive("command failed (%s): %s\n%s" % (r.rc, " ".join(cmd), (r.out + r.err).decode(errors="replace")[-3000:]))
    return r


def vfc(prefix, args, cwd=None, timeout=120, env=None, lang="c"):
    e = dict(env or BASE_ENV)
    e["PATH"] = prefix + "/bin:" + e.get("PATH", "")
    return run([prefix + "/bin/verificarlo-" + lang] + args, env=e, cwd=cwd, timeout=timeout)


def vfc_must(prefix, args, **kw):
    r = vfc(prefix, args, **kw)
    if r.rc is None:
        raise Hang("verificarlo timed out: %s" % args)
    if r.rc != 0:
        raise ToolchainFailure("verificarlo failed: %s\n%s" % (args, (r.out + r.err).decode(errors="replace")[-3000:]))
    return r


# ---------------------------------------------------------------- op driver
ADD, SUB, MUL, DIV, FMA, CAST, CMP, INEXACT, SETP32, SETP64, SETR32, SETR64, VADD, VSUB, VMUL, VDIV, VCMP = range(17)
OPNAME = ["add", "sub", "mul", "div", "fma", "cast", "cmp", "inexact", "setp32", "setp64", "setr32", "setr64",
          "vadd", "vsub", "vmul", "vdiv", "vcmp"]
REC = struct.Struct("<BBHiQQQ")


def rec(op, ty, a=0, b=0, c=0, aux=0, iarg=0):
    return (op, ty, aux, iarg, a, b, c)


ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero,float-cast-overflow", "-fno-sanitize-recover=undefined"]


def san_link(prefix, sanlib, san, defs, objs, out, d):
    """links instrumented objects with a sanitized wrapper and the sanitized libraries"""
    must([CLANG, "-O1", "-march=native", "-g", "-Wno-everything", "-fno-omit-frame-pointer", "-fPIC", "-c", "-I", prefix + "/include"] + san + defs
         + [prefix + "/include/vfcwrapper.c", "-o", out + ".w.o"], cwd=d)
    must([CLANG, "-g", "-rdynamic", "-no-pie"] + san + objs + [out + ".w.o", "-o", out, "-L" + sanlib + "/lib", "-linterflop_stdlib", "-linterflop_hashmap", "-linterflop_logger",
          "-ldl", "-lm", "-lpthread"], cwd=d)


def build_drv(prefix, fcmp=False, san=None, sanlib=None):
    """the operation driver, instrumented by the real toolchain of `prefix` (san: sanitizer flags, for the libraries in sanlib)"""
    out = os.path.join(sanlib or prefix, "drv1" if fcmp else "drv0")
    san = list(san or [])
    h = hashlib.sha256()
    for f in ("ops.c", "opsu.ll.py", "drv.c"):
        h.update(open(os.path.join(HARNESS, f), "rb").read())
    stamp = out + "." + h.hexdigest()[:12]
    if os.path.exists(stamp) and os.path.exists(out):
        return out
    d = out + ".tmp%d" % os.getpid()
    os.makedirs(d)
    try:
        ll = subprocess.run([sys.executable, os.path.join(HARNESS, "opsu.ll.py")], stdout=subprocess.PIPE, check=True)
        with open(d + "/pred.ll", "wb") as f:
            f.write(ll.stdout)
        shutil.copy2(os.path.join(HARNESS, "ops.c"), d)
        inst = ["--inst-fma", "--inst-cast"] + (["--inst-fcmp"] if fcmp else [])
        must([CLANG, "-O2", "-g"] + san + ["-c", "-I", prefix + "/include", os.path.join(HARNESS, "drv.c"), "-o", d + "/drv.o"])
        vfc_must(prefix, inst + ["-O0", "-ffp-contract=off", "-c", "ops.c", "-o", "ops.o"], cwd=d)
        vfc_must(prefix, inst + ["-O0", "-c", "pred.ll", "-o", "pred.o"], cwd=d)
        if sanlib:
            san_link(prefix, sanlib, san, ["-DINST_FMA", "-DINST_CAST"] + (["-DINST_FCMP"] if fcmp else []), ["drv.o", "ops.o", "pred.o"], "drv", d)
        else:
            vfc_must(prefix, inst + ["drv.o", "ops.o", "pred.o", "-o", "drv", "-lpthread"], cwd=d)
        os.replace(d + "/drv", out)
        open(stamp, "w").close()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def pack(recs):
    return b"".join(REC.pack(*r) for r in recs)


def drive(chk, drv, prefix, backends, recs, threads=0, timeout=200, tag="", env=None, preload=None, **kw):
    """runs the records; list of result bit patterns, or a Res on failure"""
    fin = chk.tmp("in%s" % tag)
    fout = chk.tmp("out%s" % tag)
    with open(fin, "wb") as f:
        f.write(pack(recs))
    if os.path.exists(fout):
        os.unlink(fout)
    e = env or envof(prefix, backends, **kw)
    if preload:
        e["LD_PRELOAD"] = preload
    cmd = [drv, fin, fout] + ([str(x) for x in (threads if isinstance(threads, tuple) else (threads,))] if threads else [])
    r = run(cmd, env=e, timeout=timeout)
    if r.rc != 0 or not os.path.exists(fout):
        return None, r
    with open(fout, "rb") as f:
        b = f.read()
    return struct.unpack("<%dQ" % (len(b) // 8), b), r


def build_draws(chk):
    so = chk.tmp("draws.so")
    must(["gcc", "-O1", "-w", "-shared", "-fPIC", os.path.join(HARNESS, "draws.c"), "-o", so])
    return so
