#!/usr/bin/env python3
"""Refreshes the 'fixed' list of known_findings.json from the fix: commits of /repo and PROP below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [l.rstrip("\n").split("\t") for l in open(V + "/tools/fixed.tsv") if l.strip()]
log = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
k = json.load(open(V + "/known_findings.json"))
k["fixed"] = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = [x for x in PROP if s[5:].startswith(x[1])]
    assert len(p) == 1, s
    k["fixed"].append(f"fixed: property={p[0][0]} {h} {s[5:]}: {p[0][2]}")
json.dump(k, open(V + "/known_findings.json", "w"), indent=1)
print(len(k["fixed"]))
