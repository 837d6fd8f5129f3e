#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from props import P
from checks import CHECKS
LEVEL = "symbolic execution of the repository's LLVM IR with exact real arithmetic; every assertion decided by SMT (z3) or polynomial normal form over all values within the bounds; counterexamples replayed natively"
with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in CHECKS:
        c = CHECKS[p["id"]]
        b = "; ".join("%s: %s" % (u["name"], u["bounds"]) for u in c["units"] if u.get("only") != "thorough")
        checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py %s quick" % p["id"], "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": LEVEL, "level": c["level"], "level_note": ("Bounds: " + b + (". Outside: " + c["outside"] if c.get("outside") else ""))[:1800]})
    else:
        na.append({"property": p["id"], "reason": p["_note"]})
m = {"version": 1, "setup_cmd": "bash symx/build.sh", "checks": checks, "not_applicable": na, "hooks": {"guard": "CONEX_VERIF (none needed: no hooks were added)", "enable": "none", "source_commits": []}}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable")
