"""Runs the real `vfc_ci test` in the current directory and dumps the result files as JSON."""
import glob, json, os, sys, warnings
warnings.simplefilter("ignore")
import pandas as pd
import verificarlo.ci.test as t
raw = sys.argv[1] == "raw"
t.run(False, raw, False)
out = {}
for kind in ("vfcrun", "vfcraw"):
    fs = glob.glob("*.%s.h5" % kind)
    out[kind] = len(fs)
    for f in fs:
        for key in ("data", "deterministic_data"):
            try:
                d = pd.read_hdf(f, key=key)
            except KeyError:
                out[kind + key] = None
                continue
            rows = []
            for idx, r in d.iterrows():
                row = {"key": [str(x) for x in (idx if isinstance(idx, tuple) else (idx,))]}
                for c in d.columns:
                    v = r[c]
                    if c == "values":
                        v = [float(x).hex() for x in v]
                    elif isinstance(v, (bool,)) or type(v).__name__ == "bool_":
                        v = bool(v)
                    elif isinstance(v, str):
                        pass
                    else:
                        v = float(v).hex()
                    row[c] = v
                rows.append(row)
            out[kind + key] = rows
json.dump(out, open("dump.json", "w"))
