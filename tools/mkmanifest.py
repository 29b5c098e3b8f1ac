#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of registered checks."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = subprocess.run([V + "/run.sh", "vh", "list"], capture_output=True, text=True, check=True).stdout
have = {}
for l in out.splitlines():
    f = l.split(None, 3)
    have[f[0]] = (f[2], f[3].split(" :: ") if len(f) > 3 else ["", ""])
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        level, (tech, note) = have[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./run.sh build lite race full", "checks": checks, "not_applicable": na,
     "notes": "Black-box monitoring through the exported API; no hooks in /repo are needed. run.sh rebuilds the harness (a Go module that replaces pinpt/ripsrc by /repo) on every run."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
