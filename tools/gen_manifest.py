#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                       thorough_cmd="python3 check.py %s thorough" % p["id"],
                       technique=c.get("technique", "property-based testing: generated cases against a reference model, with shrinking" + ("; coverage-guided fuzzing of the same properties" if c.get("fuzz") else "")),
                       level="exploration",
                       level_note=(c.get("note", "") + " Holds on every generated case; nothing is claimed about cases not generated. " + " ".join(c["assumptions"])).strip()))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
         not_applicable=[dict(property=p["id"], reason="No check has been built yet.") for p in props if p["id"] not in CHECKS],
         notes="REPO and VERIF_BUILD choose another tree and build folder; --replay FILE replays a saved failure. Known findings are in KNOWN_FINDINGS.txt.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
