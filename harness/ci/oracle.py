"""Compares dump.json (the tables written by vfc_ci test) with the plan (plan.json); prints a JSON list of
differences and a summary of what was compared."""
import json, math, sys, warnings
warnings.simplefilter("ignore")
import numpy as np
import scipy.stats
import significantdigits as sd
P = json.load(open("plan.json"))
D = json.load(open("dump.json"))
bad, seen = [], []
F = float.fromhex


def near(a, b, tol):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or abs(a - b) <= tol


def rows(kind, key):
    out = {}
    for r in D.get(kind + key) or []:
        k = tuple(r["key"])
        if k in out:
            bad.append("%s: %s appears twice" % (kind, k))
        out[k] = r
    return out


kinds = ["vfcrun"] + (["vfcraw"] if P["raw"] else [])
for kind in kinds:
    if D.get(kind) != 1:
        bad.append("%s: %s result files" % (kind, D.get(kind)))
    nd = rows(kind, "data")
    want = {}
    for run in P["samples"]:      # [test, var, backend, value, threshold, mode]
        want.setdefault(tuple(run[:3]), []).append(run[3:])
    if set(nd) != set(want):
        bad.append("%s: probes %s missing, %s unexpected" % (kind, sorted(set(want) - set(nd))[:4], sorted(set(nd) - set(want))[:4]))
    for k in set(nd) & set(want):
        r = nd[k]
        v = np.array([F(x[0]) for x in want[k]])
        thr, mode = F(want[k][0][1]), want[k][0][2]
        if kind == "vfcraw" and [F(x).hex() for x in r["values"]] != [float(x).hex() for x in v]:
            bad.append("%s: samples of %s are %s, recorded %s" % (kind, k, r["values"][:5], [float(x).hex() for x in v][:5]))
        if int(F(r["nsamples"])) != len(v):
            bad.append("%s: %s: nsamples %s, %d recorded" % (kind, k, F(r["nsamples"]), len(v)))
        if F(r["accuracy_threshold"]) != thr or r["check_mode"] != mode:
            bad.append("%s: %s: threshold %s %s, declared %s %s" % (kind, k, r["accuracy_threshold"], r["check_mode"], thr, mode))
        if not np.isfinite(v).all():
            seen.append(["nd", mode, "nonfinite", len(v)])
            continue
        L = v.astype(np.longdouble)
        mx = float(np.max(np.abs(v)))
        mu = float(L.mean())
        sg = float(np.sqrt(((L - L.mean()) ** 2).mean()))
        s = np.sort(v)

        def q(p):
            h = (len(s) - 1) * p
            i = int(math.floor(h))
            j = min(i + 1, len(s) - 1)
            return float(np.longdouble(s[i]) + (np.longdouble(s[j]) - np.longdouble(s[i])) * (h - i))

        for name, w in (("mu", mu), ("sigma", sg), ("min", float(s[0])), ("max", float(s[-1])), ("quantile25", q(.25)), ("quantile50", q(.5)), ("quantile75", q(.75))):
            if not near(F(r[name]), w, 1e-12 * mx if name not in ("min", "max") else 0):
                bad.append("%s: %s: %s = %r, the samples give %r" % (kind, k, name, F(r[name]), w))
        pv = float(scipy.stats.shapiro(v).pvalue)
        if not near(F(r["pvalue"]), pv, 1e-9):
            bad.append("%s: %s: pvalue %r, the samples give %r" % (kind, k, F(r["pvalue"]), pv))
        a = abs(thr)
        if mode == "absolute":
            err = sg
        elif mode == "relative":
            err = sg / abs(mu) if mu != 0 else 0.0 if sg == 0 else math.inf
        else:
            err = -1.0
        if err is not None:
            ok = bool(err < a) if mode in ("absolute", "relative") else True
            clear = mode not in ("absolute", "relative") or abs(err - a) > 1e-9 * a + (1e-12 * mx / (abs(mu) if mode == "relative" and mu else 1))
            if clear and r["check"] is not ok:
                bad.append("%s: %s: verdict %s for %s error %r and threshold %r" % (kind, k, r["check"], mode, err, thr))
        # significant digits
        if abs(pv - 0.05) > 1e-9 or math.isnan(pv):
            m = np.array([np.average(v)])
            col = v.reshape(len(v), 1)
            if mu == 0:
                s2 = 53.0
                lo = s2
            elif pv < 0.05:
                s2 = float(sd.significant_digits(col, m, error=sd.Error.Relative, method=sd.Method.General, probability=0.9, confidence=0.95)[0])
                lo = s2
            else:
                s2 = min(-math.log2(sg / abs(mu)), 53) if sg > 0 else 53.0
                lo = float(sd.significant_digits(col, m, error=sd.Error.Relative, method=sd.Method.CNH, probability=0.9, confidence=0.95)[0])
            if abs(mu) > 1e-9 * mx or mu == 0:
                tol = 1e-6 if sg > 1e-9 * mx or sg == 0 else 0.1
                for name, w in (("s2", s2), ("s2_lower_bound", lo)):
                    if sg < 1e-13 * mx:   # the rounding of the average shows
                        if F(r[name]) < (lo - 4 if name != "s2" else 40):
                            bad.append("%s: %s: %s = %r for nearly equal samples" % (kind, k, name, F(r[name])))
                        continue
                    if not near(F(r[name]), w, tol):
                        bad.append("%s: %s: %s = %r, the samples give %r (pvalue %g)" % (kind, k, name, F(r[name]), w, pv))
                for name, o in (("s10", "s2"), ("s10_lower_bound", "s2_lower_bound")):
                    if not near(F(r[name]), F(r[o]) * math.log10(2), 1e-9 * max(1, abs(F(r[o])))):
                        bad.append("%s: %s: %s = %r for %s = %r" % (kind, k, name, F(r[name]), o, F(r[o])))
        seen.append(["nd", mode, r["check"], min(len(v), 40) // 4, "const" if sg == 0 else "zero" if mu == 0 else "lap" if pv < 0.05 else "norm"])
    dt = rows(kind, "deterministic_data")
    want = {tuple(x[:3]): x[3:] for x in P["det"]}  # [test, var, backend, value, ref or None, threshold, mode]
    if set(dt) != set(want):
        bad.append("%s: deterministic probes %s missing, %s unexpected" % (kind, sorted(set(want) - set(dt))[:4], sorted(set(dt) - set(want))[:4]))
    for k in set(dt) & set(want):
        r = dt[k]
        v, ref, thr, mode, anychk = want[k]
        v, thr = F(v), F(thr)
        if not (F(r["value"]) == v or math.isnan(v) and math.isnan(F(r["value"]))):
            bad.append("%s: %s: value %s, recorded %r" % (kind, k, r["value"], v))
        if F(r["accuracy_threshold"]) != thr or r["check_mode"] != mode:
            bad.append("%s: %s: threshold %s %s, declared %s %s" % (kind, k, r["accuracy_threshold"], r["check_mode"], thr, mode))
        if anychk and ref is not None and not near(F(r["reference_value"]), F(ref), 0):
            bad.append("%s: %s: reference %r, the IEEE run gave %r" % (kind, k, F(r["reference_value"]), F(ref)))
        if mode == "none":
            ok = True
        elif ref is None:
            ok = False
        else:
            e = abs(v - F(ref))
            if mode == "relative" and e != 0:
                e = e / abs(F(ref)) if F(ref) != 0 else math.inf
            ok = e < abs(thr)
        if r["check"] is not ok:
            bad.append("%s: %s: verdict %s for %s check, value %r, reference %r, threshold %r" % (kind, k, r["check"], mode, v, ref and F(ref), thr))
        seen.append(["det", mode, ok, ref is None, "nan" if math.isnan(v) else "zero" if ref and F(ref) == 0 else ""])
json.dump({"bad": bad, "seen": seen}, open("verdict.json", "w"))
