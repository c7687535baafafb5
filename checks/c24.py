#!/usr/bin/env python3
"""C24: probes record each variable exactly once with its exact value."""
import sys, os
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import fpx, random, math

MODE = {"p": "none", "P": "none", "a": "absolute", "A": "absolute", "r": "relative", "R": "relative"}


def collide(r, s):
    """another name with the same polynomial hash of multiplier 31, when the last characters allow it"""
    out = list(s)
    for i in r.sample(range(len(out) - 1), len(out) - 1) if len(out) > 1 else []:
        a, b = ord(out[i]), ord(out[i + 1])
        if 48 <= a + 1 < 122 and 48 <= b - 31 < 122:
            out[i], out[i + 1] = chr(a + 1), chr(b - 31)
            return "".join(out)
        if 48 <= a - 1 < 122 and 48 <= b + 31 < 122:
            out[i], out[i + 1] = chr(a - 1), chr(b + 31)
            return "".join(out)
    return s


def name(r, pool):
    k = r.random()
    if pool and k < 0.25:
        return r.choice(pool)
    if pool and k < 0.45:
        return collide(r, r.choice(pool))
    if k < 0.5:
        return ""
    if k < 0.6:
        return r.choice(("a b", "é", "x;y", "%s%n", "'q'", "\\", "#", "a.b[3]", "-", "nan", "0x1p3", "\t", "test", "variable"))
    al = "ABCXYZabcxyz019_"
    return "".join(r.choice(al) for _ in range(r.choice((1, 2, 2, 3, 4, 12, 12, 60, 700))))


def value(r):
    k = r.random()
    if k < 0.15:
        return r.choice((0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, 0x7fefffffffffffff, 0x10000000000000, 0xfffffffffffff))
    return r.getrandbits(64)


def same(text, bits):
    d = struct.unpack("<d", struct.pack("<Q", bits))[0]
    t = text.strip()
    if math.isnan(d):
        return "nan" in t.lower()
    try:
        x = float.fromhex(t) if "x" in t.lower() or "inf" in t.lower() else float(t)
    except ValueError:
        return False
    return struct.pack("<d", x) == struct.pack("<d", d)


def line(kind, st, a="", b="", v=0, t=0):
    a, b = a.encode(), b.encode()
    return b"%c %d %d %d %x %x\n" % (kind.encode(), st, len(a), len(b), v, t) + a + b


def session(chk, exe, env, seed, variant):
    r = random.Random(seed)
    d = os.path.join(chk.work, "s%s" % seed)
    os.makedirs(d)
    pool = []
    sets = [dict() for _ in range(3)]
    stream, outs, files = [], [], []
    n = r.choice((0, 1, 7, 60, 600, 2500))
    fault = r.choice((None, None, None, "dup", "comma", "comma2", "dir"))
    st = set()
    fin = None
    for i in range(n):
        s = r.choice((0, 0, 0, 1, 2))
        a, b = name(r, pool), name(r, pool)
        while (a, b) in sets[s]:
            b = b + r.choice("uvw")
        pool += [a, b] if len(pool) < 400 else []
        k = r.choice("parPAR")
        v, t = value(r), value(r)
        stream.append(line(k, s, a, b, v, t))
        sets[s][(a, b)] = (v, 0 if k in "pP" else t, MODE[k])
        st.add((k, len(sets[s]).bit_length()))
        if r.random() < 0.02:
            stream.append(line("n", s))
            outs.append(str(len(sets[s])))
        if r.random() < 0.01:
            stream.append(line("0", s, a, b, v))
            outs.append("1")
        if r.random() < 0.003:
            f = "%s/o%d.csv" % (d, i)
            with open(f, "w") as fh:
                fh.write("old contents\n" * r.choice((0, 1000)))
            stream.append(line("d", s, f))
            files.append((f, dict(sets[s])))
            sets[s].clear()
        elif r.random() < 0.001:
            stream.append(line("u", s))
            outs.append(None)
            sets[s].clear()
        if fault and i > n // 2 and sets[s] and r.random() < 0.2:
            x, y = r.choice(list(sets[s]))
            if fault == "dup":
                fin = line(k, s, x, y, v, t)
            elif fault == "comma":
                fin = line(k, s, x[:1] + "," + x[1:], y, v, t)
            elif fault == "comma2":
                fin = line(k, s, x, y + ",", v, t)
            else:
                fin = line("d", s, d)
            stream.append(fin)
            break
    g = "%s/o" % d
    for s in range(3):
        f = g + str(s)
        stream.append(line("d", s, f))
        if fin is None:
            files.append((f, dict(sets[s])))
    e = dict(env)
    p = run([exe], stdin=b"".join(stream), env=e, cwd=d, timeout=120)
    cfg = "%s session %s, %d calls" % (variant, seed, len(stream))
    bad, rows = [], 0
    w = {"seed": seed}
    out = p.out.decode(errors="replace").split("\n")
    if p.timeout:
        raise Hang(cfg)
    elif p.rc is None or p.rc < 0 or b"ERROR: " in p.err or b"runtime error" in p.err:
        bad.append(("[%s] status %s %s" % (cfg, p.rc, p.err[-300:].decode(errors="replace")), w))
    elif fin is not None:
        st.add(("refused", fault))
        if "END" in out or p.rc == 0 or not p.err.strip():
            bad.append(("[%s] a call that must be refused (%s: %r) was accepted (status %s, message %r)" % (cfg, fault, fin, p.rc, p.err[-100:]), w))
    else:
        if p.rc != 0 or "END" not in out:
            bad.append(("[%s] status %s: %s" % (cfg, p.rc, p.err[-300:].decode(errors="replace")), w))
        nums = [x for x in out if x.isdigit()]
        want = [x for x in outs if x is not None]
        if nums != want:
            bad.append(("[%s] numbers of probes %s, expected %s" % (cfg, nums[:10], want[:10]), w))
    for f, exp in files:
        if not os.path.exists(f):
            bad.append(("[%s] no file %s" % (cfg, f), w))
            continue
        txt = open(f, encoding="utf-8", newline="\n").read().split("\n")
        if txt[-1] != "" or txt[0] != "test,variable,value,accuracy_threshold,check_mode":
            bad.append(("[%s] malformed file: %r ... %r" % (cfg, txt[0], txt[-1]), w))
        seen = {}
        for l in txt[1:-1]:
            c = l.split(",")
            if len(c) != 5:
                bad.append(("[%s] malformed line %r" % (cfg, l[:200]), w))
                break
            seen.setdefault((c[0], c[1]), []).append(c[2:])
        rows += len(exp)
        if any(len(v) > 1 for v in seen.values()):
            bad.append(("[%s] a probe is written %d times" % (cfg, max(len(v) for v in seen.values())), w))
        for k in set(exp) ^ set(seen):
            bad.append(("[%s] probe %r %s" % (cfg, k, "is missing in the file" if k in exp else "was never recorded"), w))
            break
        for k, (v, t, m) in exp.items():
            if k in seen and not (same(seen[k][0][0], v) and same(seen[k][0][1], t) and seen[k][0][2] == m):
                bad.append(("[%s] probe %r: %s, given value %#x threshold %#x mode %s" % (cfg, k, seen[k][0], v, t, m), w))
                break
    shutil.rmtree(d, ignore_errors=True)
    return bad, len(stream), rows, [(variant,) + s for s in st]


def body(chk):
    r = chk.rng
    jobs = []
    std = vbuild.build("std")
    exe = chk.tmp("probes")
    # in an instrumented program, as users do
    d = chk.tmp("b")
    os.makedirs(d)
    shutil.copy2(HARNESS + "/probes.c", d)
    vfc_must(std, ["-w", "-O1", "-I" + std + "/include", "probes.c", "-o", exe, "-L" + std + "/lib", "-lvfc_probes"], cwd=d)
    env = envof(std, "libinterflop_ieee.so")
    for k in range(chk.n(150, 2500)):
        jobs.append((exe, env, r.getrandbits(40), "instrumented"))
    pre = vbuild.build("asan")
    ex2 = chk.tmp("probes-asan")
    must([CLANG, "-w", "-g", "-O1", "-DHANDLERS", "-fsanitize=address,undefined", "-rdynamic", "-I", pre + "/include", HARNESS + "/probes.c", "-o", ex2, "-L" + pre + "/lib",
          "-lvfc_probes", "-linterflop_hashmap", "-linterflop_stdlib"])
    env2 = dict(BASE_ENV, LD_LIBRARY_PATH=pre + "/lib", ASAN_OPTIONS="detect_leaks=0")
    for k in range(chk.n(80, 1200)):
        jobs.append((ex2, env2, r.getrandbits(40), "asan"))
    with ThreadPoolExecutor(NPROC) as ex:
        for bad, n, rows, keys in ex.map(lambda j: session(chk, *j), jobs):
            chk.observe(n)
            chk.count("sessions")
            chk.count("rows compared", rows)
            chk.distinct.update(keys)
            for w in bad:
                chk.violation(*w)
    chk.sample("e.g. names Aa and BB of equal hash, empty names, 2500 probes, nan and subnormal values")


run_check("C24", "random sessions on three probe sets (up to 2500 probes; names empty, long, with spaces, quotes, format and non-ASCII characters, and families of equal hash), C and Fortran entry "
          "points, intermediate dumps over older longer files, duplicate and invalid names, unwritable output; files parsed and compared with the recorded calls; also under ASan/UBSan", body,
          ["names contain no line break (nor comma, which is refused)"])
