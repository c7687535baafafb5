#!/usr/bin/env python3
"""C27: the keyed table behaves as a map for every history of operations."""
import sys, os
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
import random

INS, REM, HAVE, GET, NUM, ENUM, RESET = range(7)


def keyspace(r, kind):
    n = r.choice((3, 8, 30, 200, 3000))
    if kind == "dense":
        return list(range(n))
    if kind == "collide":       # equal modulo a large power of two
        b, s = r.getrandbits(20), 1 << r.randint(3, 20)
        return [b + s * i for i in range(n)]
    if kind == "inverse":       # the multiples of the modular inverse of the multiplier: consecutive first slots
        inv = pow(73, -1, 1 << 64)
        return [inv * i % (1 << 64) for i in range(n)]
    if kind == "step":          # separated by the probing step
        inv = pow(73, -1, 1 << 64)
        return [inv * (5009 * i) % (1 << 64) for i in range(n)]
    if kind == "pointer":
        return [0x7f0000000000 + 16 * r.getrandbits(24) for _ in range(n)]
    if kind == "code":
        return [0x555555554000 + r.getrandbits(14) for _ in range(n)]
    if kind == "extreme":
        return [0, 1, 2, (1 << 64) - 1, (1 << 63), (1 << 63) - 1, 1 << 32, (1 << 32) - 1] + [r.getrandbits(64) for _ in range(n)]
    return [r.getrandbits(64) for _ in range(n)]


KINDS = ("dense", "collide", "inverse", "step", "pointer", "code", "extreme", "random")


def history(seed, length):
    r = random.Random(seed)
    kind = r.choice(KINDS)
    ks = keyspace(r, kind)
    maps = [dict() for _ in range(4)]
    ops, want, st = [], [], set()
    mix = r.choice(("churn", "grow", "shrink", "lookup", "phases"))
    w = {"churn": (5, 5, 3, 3, 1), "grow": (8, 1, 2, 2, 1), "shrink": (3, 6, 2, 2, 1), "lookup": (2, 1, 8, 8, 1), "phases": (4, 4, 2, 2, 1)}[mix]
    for i in range(length):
        if mix == "phases":
            w = ((9, 0, 1, 1, 1), (0, 9, 1, 1, 1))[(i // max(1, len(ks))) & 1]
        m = r.choice((0, 0, 0, 1, 2, 3))
        d = maps[m]
        k = r.choice(ks)
        op = r.choices((INS, REM, HAVE, GET, NUM), w)[0]
        if r.random() < 0.002:
            op = ENUM
        if r.random() < 0.0005:
            op = RESET
        v = 0
        if op == INS:
            v = r.choice((2, 3, k, (1 << 64) - 1, r.getrandbits(48) | 2))
            if v in (0, 1):
                v = 2
            st.add(("replace" if k in d else "insert", len(d).bit_length()))
            d[k] = v
        elif op == REM:
            st.add(("remove" if k in d else "remove absent", len(d).bit_length()))
            d.pop(k, None)
        elif op == HAVE:
            want.append((i, [int(k in d)]))
        elif op == GET:
            want.append((i, [d.get(k, 0)]))
            st.add(("get" if k in d else "get absent", len(d).bit_length()))
        elif op == NUM:
            want.append((i, [len(d)]))
        elif op == ENUM:
            want.append((i, [len(d)] + [x for kv in sorted(d.items()) for x in kv]))
            st.add(("enumerate", len(d).bit_length()))
        else:
            d.clear()
        ops.append((op | m << 8, k, v))
    for m in range(4):
        want.append((len(ops), [len(maps[m])] + [x for kv in sorted(maps[m].items()) for x in kv]))
        ops.append((ENUM | m << 8, 0, 0))
    return kind, mix, ops, want, st


def one(chk, exe, env, seed, length, variant):
    kind, mix, ops, want, st = history(seed, length)
    p = run([exe], stdin=b"".join(struct.pack("<QQQ", *o) for o in ops), env=env, timeout=120)
    cfg = "%s history %s, keys %s, mix %s, %d operations" % (variant, seed, kind, mix, len(ops))
    bad = []
    if p.timeout:
        raise Hang(cfg)
    elif p.rc != 0 or b"ERROR: " in p.err or b"runtime error" in p.err:
        bad.append(("[%s] status %s %s" % (cfg, p.rc, p.err[:300].decode(errors="replace")), {"seed": seed}))
    else:
        got = struct.unpack("<%dQ" % (len(p.out) // 8), p.out)
        j = 0
        for i, ws in want:
            if list(got[j:j + len(ws)]) != ws:
                bad.append(("[%s] operation %d (%s key %#x): answer %s, a map gives %s" % (cfg, i, ("", "", "have", "get", "size", "enumeration")[ops[i][0] & 255], ops[i][1],
                            got[j:j + min(len(ws), 4)], ws[:4]), {"seed": seed, "last operations": ops[max(0, i - 20):i + 1]}))
                break
            j += len(ws)
        if not bad and j != len(got):
            bad.append(("[%s] %d answers too many" % (cfg, len(got) - j), {"seed": seed}))
    return bad, len(ops), [(variant, kind, mix) + s for s in st]


def body(chk):
    r = chk.rng
    jobs = []
    for variant in ("std", "asan"):
        pre = vbuild.build(variant)
        exe = chk.tmp("hm-" + variant)
        san = ["-fsanitize=address,undefined", "-rdynamic"] if variant == "asan" else []
        must([CLANG, "-g", "-O1"] + san + ["-I", pre + "/include", HARNESS + "/hm.c", "-o", exe, "-L" + pre + "/lib", "-Wl,-rpath," + pre + "/lib", "-linterflop_hashmap", "-linterflop_stdlib"])
        env = dict(BASE_ENV, LD_LIBRARY_PATH=pre + "/lib", ASAN_OPTIONS="detect_leaks=0")
        for k in range(chk.n(260, 4000) if variant == "std" else chk.n(140, 2000)):
            jobs.append((exe, env, r.getrandbits(40), r.choice((30, 300, 3000, 12000)), variant))
    with ThreadPoolExecutor(NPROC) as ex:
        for bad, n, keys in ex.map(lambda j: one(chk, *j), jobs):
            chk.observe(n)
            chk.count("histories")
            chk.distinct.update(keys)
            for w in bad:
                chk.violation(*w)
    chk.sample({"keys": KINDS})


run_check("C27", "random histories of insertions, replacements, removals, lookups, sizes, enumerations and resets on four tables at a time, with dense, colliding, probe-aligned, pointer-like "
          "and extreme keys, answers compared to a map; plain and under AddressSanitizer and UBSan; distinct = build x key family x mix x (operation, order of size)", body,
          ["values are neither 0 nor 1, as the interface requires (they mark empty and deleted slots)"])
