#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS WHAT FILE OLD NEW [FILE OLD NEW ...] : writes seeded/ID/{patch.diff,meta.json}; OLD must occur once in FILE (or OLD#k: k-th occurrence, from 0)."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, needs, what = sys.argv[1:5]
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True).stdout.strip(), "/repo not clean"
r = sys.argv[5:]
d = V + "/seeded/" + i
os.makedirs(d, exist_ok=True)
try:
    while r:
        f, old, new = r[:3]
        r = r[3:]
        p = "/repo/" + f
        s = open(p).read()
        m = re.search(r"#(\d+)$", old)
        k = None
        if m and old not in s:
            old, k = old[:m.start()], int(m.group(1))
        n = s.count(old)
        if n == 0 or (n > 1 and k is None):
            sys.exit("%d occurrences of %r in %s" % (n, old, f))
        pos = -1
        for _ in range((k or 0) + 1):
            pos = s.index(old, pos + 1)
        open(p, "w").write(s[:pos] + new + s[pos + len(old):])
    diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
finally:
    subprocess.run("git -C /repo checkout -- .", shell=True)
