#!/usr/bin/env python3
"""Writes MANIFEST.json and the fixed list of known_findings.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from props import PROPS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        t = T.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t.get("technique", "ASan+UBSan build under a randomised workload, with a reference-model monitor"),
            "level": "exploration",
            "level_note": t.get("note", "Held on the executions generated (count and distinct cases in the evidence); nothing is claimed about inputs not driven."),
        })
    else:
        na.append({"property": i, "reason": T.get(i, {}).get("na", "no check built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: monitors observe the public interface, interposed library calls and sanitizer builds of the unmodified sources", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check rebuilds /repo's sources with sanitizers in a scratch directory under /tmp that it removes.",
}, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
# fixed list
M = json.load(open(V + "/tools/fixmap.json"))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [v for k, v in M.items() if s[5:].startswith(k)]
    if not m:
        print("no property for", l)
        continue
    for prop in m[0].split(","):
        fixed.append("fixed: property=%s %s %s" % (prop, h, s[5:]))
kf = V + "/known_findings.json"
d = json.load(open(kf)) if os.path.exists(kf) else {"findings": []}
d["fixed"] = fixed
json.dump(d, open(kf, "w"), indent=1)
open(kf, "a").write("\n")
print(len(checks), "checks", len(na), "not claimed", len(fixed), "fixed")
