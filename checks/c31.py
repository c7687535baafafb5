#!/usr/bin/env python3
"""C31: the VTK postprocessing: accuracy arrays and means against a recomputation from the outputs of the runs."""
import sys, os, math, random, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *

PY = "/opt/vp/venv/bin/python"
NAMES = ["T", "velocity", "p'q", "a b", "Température", "x\"y", "U", "rho_vfc"]


def values(r, n, runs, scale):
    """per run, the values of one array: mean and spread of every kind"""
    cols = []
    for _ in range(n):
        k = r.random()
        m = r.choice((1, -1)) * 10.0 ** r.uniform(-scale, scale)
        if k < 0.12:
            cols.append([m] * runs)
        elif k < 0.2:
            cols.append([0.0] * runs)
        elif k < 0.3:   # no digit in common, mean of any sign
            cols.append([r.choice((1, -1)) * abs(m) * r.random() for _ in range(runs)])
        else:
            d = abs(m) * 10.0 ** r.uniform(-15, -0.5)
            cols.append([m + r.gauss(0, 1) * d for _ in range(runs)])
    return [[c[i] for c in cols] for i in range(runs)]


def plan(r):
    """files of a session: {name: list of pieces}, a piece being a list of (section, [array])"""
    runs = r.choice((r.randint(2, 6), r.randint(2, 6), r.randint(2, 6), r.randint(7, 40), r.choice((105, 130)))) if r.random() < 0.3 else r.randint(2, 6)
    files = {}
    for f in range(r.choice((1, 1, 2, 3))):
        pieces = []
        for _ in range(r.choice((1, 1, 1, 2))):
            secs = []
            order = ["PointData", "CellData", "Points", "Cells"]
            if r.random() < 0.4:
                r.shuffle(order)
            for s in order:
                if s in ("PointData", "CellData") and r.random() < 0.2:
                    continue
                arrays = []
                for nm in r.sample(NAMES, r.randint(0, 3)) if s in ("PointData", "CellData") else ["Points"] if s == "Points" else ["connectivity", "offsets", "types"]:
                    t = r.choice(("Float32", "Float32", "Float32", "Float64", "Int32")) if s != "Cells" else "Int32"
                    if s == "Points":
                        t = r.choice(("Float32", "Float32", "Float64"))
                    comp = 3 if s == "Points" else r.choice((1, 1, 3))
                    n = r.choice((1, 2, 5, 12)) * comp
                    if t == "Int32":
                        v = [[r.randint(0, 99) for _ in range(n)]] * runs
                    else:
                        v = values(r, n, runs + 1, r.choice((1, 6, 30)))
                    arrays.append({"name": None if s == "Points" and r.random() < 0.3 else nm, "type": t, "comp": comp, "v": v})
                secs.append((s, arrays))
            pieces.append(secs)
        files["out_%d.vtu" % f] = pieces
    return runs, files


def number(r, x, t):
    if t == "Int32":
        return str(x)
    return r.choice(("%r", "%r", "%.17g", "%.9e" if t == "Float32" else "%.17e")) % x


def write(r, path, pieces, k, texts):
    root = ET.Element("VTKFile", {"type": "UnstructuredGrid", "version": "0.1", "byte_order": "LittleEndian"})
    grid = ET.SubElement(root, "UnstructuredGrid")
    for pi, secs in enumerate(pieces):
        piece = ET.SubElement(grid, "Piece", {"NumberOfPoints": "4", "NumberOfCells": "1"})
        for s, arrays in secs:
            e = ET.SubElement(piece, s)
            for ai, a in enumerate(arrays):
                at = {"type": a["type"], "format": "ascii"}
                if a["name"] is not None:
                    at["Name"] = a["name"]
                if a["comp"] > 1:
                    at["NumberOfComponents"] = "%d" % a["comp"]
                d = ET.SubElement(e, "DataArray", at)
                tok = [number(r, x, a["type"]) for x in a["v"][min(k, len(a["v"]) - 1)]]
                texts[(pi, s, ai)] = tok
                sep = r.choice((" ", "\n", "\n   ", "  "))
                d.text = r.choice(("", "\n", "  ")) + sep.join(tok) + r.choice(("", "\n"))
    ET.ElementTree(root).write(path)


def digits(col):
    """(low, high) bounds of the number of significant digits, and mean and deviation, computed exactly"""
    fr = [Fraction(x) for x in col]
    n = len(fr)
    mean = sum(fr) / n
    var = sum((x - mean) ** 2 for x in fr) / n
    big = max(abs(x) for x in fr)
    # rounding errors of a double computation
    em = float(big) * 2.0 ** -52 * (n + 2)
    sd = math.sqrt(var) if var else 0.0
    es = float(big) * 2.0 ** -52 * (n + 4) * 2 + sd * 1e-12
    return float(mean), em, sd, es


def bounds(mean, em, sd, es):
    def d(s, m):
        if m == 0:
            return 17.0 if s == 0 else 0.0
        if s == 0:
            return 17.0
        return min(17.0, max(0.0, -math.log10(s / m)))
    lo = d(sd + es, max(abs(mean) - em, 0.0))
    hi = d(max(sd - es, 0.0), abs(mean) + em)
    if abs(mean) <= em:
        lo = 0.0
    if mean == 0 and sd == 0:
        lo = 0.0
    return lo - 1e-9, hi + 1e-9


def session(chk, pre, seed, k):
    r = random.Random(seed)
    runs, files = plan(r)
    d = chk.tmp("v%d" % k)
    os.makedirs(d + "/in")
    order = list(range(runs))
    names = r.choice((["output%02d" % i for i in range(runs)], ["r%d" % (7 * i) for i in range(runs)]))
    first = sorted(names)[0]
    texts = {}
    r.shuffle(order)
    for i in order:
        os.makedirs("%s/in/%s" % (d, names[i]))
        for f, pieces in files.items():
            t = texts[(i, f)] = {}
            write(r, "%s/in/%s/%s" % (d, names[i], f), pieces, i, t)
        with open("%s/in/%s/other.txt" % (d, names[i]), "w") as g:
            g.write(names[i])
    with open(d + "/in/readme.vtu", "w") as g:
        g.write("not a directory")
    std, mean, ref = r.random() < 0.35, r.random() < 0.4, r.random() < 0.35
    argv = (["--std"] if std else []) + (["--mean"] if mean else [])
    outdir = "vfc_postprocess"
    if r.random() < 0.7:
        outdir = "res dir"
        argv += ["-o", outdir]
    if ref:
        os.makedirs(d + "/ref")
        for f, pieces in files.items():
            t = texts[("ref", f)] = {}
            write(r, "%s/ref/%s" % (d, f), pieces, runs, t)
        argv += ["-r", "ref"]
    r.shuffle(argv) if len(argv) <= 1 else None
    e = envof(pre, None)
    e["PYTHONPATH"] = pre + "/py"
    cmd = [PY, "-m", "verificarlo.vtk"] if k % 3 else [PY, pre + "/py/verificarlo/vfc-vtk.py"]
    if r.random() < 0.15:   # an existing output is never overwritten
        os.makedirs(d + "/" + outdir)
        x = run(cmd + argv + ["in"], env=e, cwd=d, timeout=120)
        bad = [] if x.rc not in (0, None) and not os.listdir(d + "/" + outdir) else [("the output directory existed: status %s" % x.rc, {"argv": argv})]
        return bad, 1, [("exists",)]
    before = {(m, f): open("%s/in/%s/%s" % (d, m, f), "rb").read() for m in names for f in files}
    x = run(cmd + argv + ["in"], env=e, cwd=d, timeout=120)
    cfg = "%s %s, %d runs" % (" ".join(cmd[-1:]).split("/")[-1], argv, runs)
    w = {"seed": str(seed), "argv": argv, "files": {f: [[(s, [(a["name"], a["type"]) for a in l]) for s, l in p] for p in ps] for f, ps in files.items()}}
    if x.timeout:
        raise Hang("timed out")
    if x.rc != 0:
        return [("[%s] status %s: %s" % (cfg, x.rc, x.err[-300:].decode(errors="replace")), w)], 1, []
    bad, n, keys = [], 0, set()
    base = "ref" if ref else names.index(first)
    bdir = d + ("/ref" if ref else "/in/" + first)
    if sorted(os.listdir(d + "/" + outdir)) != sorted(os.listdir(bdir)):
        bad.append(("[%s] files of the output: %s, of the reference output: %s" % (cfg, sorted(os.listdir(d + "/" + outdir)), sorted(os.listdir(bdir))), w))
    if any(open("%s/in/%s/%s" % (d, m, f), "rb").read() != b for (m, f), b in before.items()):
        bad.append(("[%s] the outputs of the runs were modified" % cfg, w))
    for f, pieces in files.items():
        out = ET.parse("%s/%s/%s" % (d, outdir, f)).getroot()
        src = ET.parse("%s/%s" % (bdir, f)).getroot()
        po, ps = list(out.iter("Piece")), list(src.iter("Piece"))
        if len(po) != len(ps):
            bad.append(("[%s] %d pieces, expected %d" % (cfg, len(po), len(ps)), w))
            continue
        for pi, secs in enumerate(pieces):
            acc = {}    # per section of the output: arrays of accuracy expected
            for s, arrays in secs:
                for ai, a in enumerate(arrays):
                    if a["type"] == "Int32":
                        continue
                    tgt = "PointData" if s == "Points" else s
                    acc.setdefault(tgt, []).append((s, ai, a))
            for s in ("PointData", "CellData", "Points", "Cells"):
                eo, es_ = po[pi].find(s), ps[pi].find(s)
                lo = [] if eo is None else list(eo)
                ls = [] if es_ is None else list(es_)
                arrays = dict(secs).get(s, [])
                want = list(acc.get(s, []))
                i = 0
                found = []
                for c in lo:
                    nm = c.get("Name")
                    is_acc = nm is not None and nm.endswith("_vfc_accuracy")
                    if is_acc:
                        found.append(c)
                        continue
                    if i >= len(ls) or dict(c.attrib) != dict(ls[i].attrib):
                        bad.append(("[%s] %s: array %s is not that of the reference output" % (cfg, s, c.attrib), w))
                        break
                    a = arrays[i]
                    got = (c.text or "").split()
                    if a["type"] == "Int32" or not mean:
                        if got != texts[(base, f)][(pi, s, i)]:
                            bad.append(("[%s] values of %s %s changed" % (cfg, s, a["name"]), w))
                    else:
                        cols = list(zip(*[[float(q) for q in texts[(j, f)][(pi, s, i)]] for j in range(runs)]))
                        if len(got) != len(cols):
                            bad.append(("[%s] %d means for %s %s, %d values" % (cfg, len(got), s, a["name"], len(cols)), w))
                        for g, col in zip(got, cols):
                            m, em, sd, es = digits(col)
                            n += 1
                            if not abs(float(g) - m) <= em + 1e-300:
                                bad.append(("[%s] %s %s: mean %s of %s, expected %r" % (cfg, s, a["name"], g, col, m), w))
                                break
                    i += 1
                if i != len(ls):
                    bad.append(("[%s] %s: %d arrays kept of %d" % (cfg, s, i, len(ls)), w))
                if len(found) != len(want):
                    bad.append(("[%s] %s: %d arrays of accuracy (%s), expected %d" % (cfg, s, len(found), [c.get("Name") for c in found], len(want)), w))
                    continue
                # one accuracy array for each array, whatever the order
                for c in found:
                    got = [float(q) for q in (c.text or "").split()]
                    match = last = None
                    for q in want:
                        s0, ai, a = q
                        if (a["name"] or "Points") + "_vfc_accuracy" != c.get("Name") and not (a["name"] is None and s0 == "Points"):
                            continue
                        cols = list(zip(*[[float(v) for v in texts[(j, f)][(pi, s0, ai)]] for j in range(runs)]))
                        ok = len(cols) == len(got) and c.get("type") == a["type"] and c.get("NumberOfComponents") == (str(a["comp"]) if a["comp"] > 1 else None) and c.get("format") == "ascii"
                        where = None
                        for g, col in zip(got, cols):
                            st = digits(col)
                            if std:
                                inside = abs(g - st[2]) <= st[3] + 1e-300
                            else:
                                lo_, hi_ = bounds(*st)
                                inside = lo_ <= g <= hi_
                            if not inside:
                                ok, where = False, (g, col, st[2] if std else bounds(*st))
                                break
                        if ok:
                            match = q
                            n += len(got)
                            for col in cols:
                                m, em, sd, es = digits(col)
                                keys.add((std, mean, ref, s0, a["type"], m < 0, sd == 0, int(min(17, max(0, -math.log10(sd / abs(m)))) if sd and m else 18)))
                            break
                        last = where
                    if match is None:
                        bad.append(("[%s] %s: array %s with %d values is the accuracy of no array of the runs%s" % (cfg, s, c.get("Name"), len(got), ": got %s for %s, expected %s" % last if last else ""), w))
                    else:
                        want.remove(match)
    return bad, n + 1, list(keys)


def body(chk):
    pre = vbuild.build("std")
    r = chk.rng
    jobs = [(r.getrandbits(40), k) for k in range(chk.n(120, 2000))]
    with ThreadPoolExecutor(NPROC) as ex:
        for bad, n, keys in ex.map(lambda j: session(chk, pre, *j), jobs):
            chk.observe(n)
            chk.distinct.update(keys)
            chk.count("sessions")
            for b in bad[:3]:
                chk.violation(*b)
    e = envof(pre, None)
    e["PYTHONPATH"] = pre + "/py"
    os.makedirs(chk.tmp("empty"))
    x = run([PY, "-m", "verificarlo.vtk", "-o", "o", "empty"], env=e, cwd=chk.tmp(""), timeout=60)
    if x.rc in (0, None):
        chk.violation("a directory without outputs is accepted", {})


run_check("C31", "random sets of VTK outputs (pieces, sections, arrays of same name, types, components, any mean and spread) through the real tool with random options; every "
          "value of every accuracy or mean array is compared with exact rational statistics of the runs' texts; arrays and files that are not computed are unchanged; "
          "distinct = options x section x type x sign x digits", body,
          assumptions=["arrays in ascii format, the only one the tool reads", "all runs write the same arrays in the same order", "accuracy of values that are zero in all the runs not judged"])
