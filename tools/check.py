#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: build the check from /repo's working tree and run it."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1") or "1"
    script = B.CHECKS[prop].get("script")
    bins = {} if script else B.build([prop])
    if bins is None:
        print(f"{prop}: the harness does not build on this tree")
        return 2
    os.makedirs(B.VERIF + "/evidence", exist_ok=True)
    cmd = (["python3-vt", f"{B.VERIF}/{script}"] if script else [bins[prop]]) + ["--tier", tier, "--seed", seed, "--evidence",
           f"{B.VERIF}/evidence/{prop}.json", "--out", f"{B.VERIF}/build/replays"]
    known = json.load(open(B.VERIF + "/known_findings.json"))
    for k in known.get("findings", []):
        if k["property"] == prop:
            cmd += ["--known", f"{B.VERIF}/{k['replay']}\t{k['what']}"]
    cmd += sys.argv[3:]
    r = subprocess.run(cmd)
    return r.returncode if r.returncode in (0, 1) else 2


sys.exit(main())
