#!/usr/bin/env python3
"""Which lines of /repo's sources no check executes (gcov): coverage.py DIR [PROP...]; used while extending the workloads."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from props import PROPS
out = sys.argv[1]
for p in sys.argv[2:] or sorted(PROPS):
    subprocess.run([sys.executable, V + "/bin/check.py", p], env=dict(os.environ, VF_COV=out, VF_PAIRS=os.environ.get("VF_PAIRS", "0,1,2")))
cov = {}
for f in glob.glob(out + "/*.json"):
    for l in open(f, errors="replace"):
        try:
            d = json.loads(l)
        except ValueError:
            continue
        for x in d["files"]:
            if "/repo/" not in x["file"] and "/src/" not in x["file"]:
                continue
            for n in x["lines"]:
                k = (x["file"], n["line_number"])
                cov.setdefault(k, {})
                c = cov[k]
                pr = os.path.basename(f)[:-5]
                c[pr] = c.get(pr, 0) + n["count"]
json.dump([[k[0], k[1], {p: c for p, c in v.items() if c}] for k, v in sorted(cov.items())], open(out + "/lines.out", "w"))
for fn in sorted(set(k[0] for k in cov)):
    L = open(fn).read().splitlines()
    tot = [k for k in cov if k[0] == fn]
    un = sorted(k[1] for k in tot if not any(cov[k].values()))
    print("==== %s: %d of %d lines not executed" % (fn, len(un), len(tot)))
    for n in un:
        print("%5d: %s" % (n, L[n - 1]))
