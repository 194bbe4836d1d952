#!/usr/bin/env python3
"""MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plans import PLANS, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in PLANS:
        pl = PLANS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "property-based testing: " + pl["note"],
            "level": pl["level"],
            "level_note": "Holds on every generated case of the run (counts, distribution and samples in the evidence file); nothing is claimed beyond them. Trusts the harness's allocator, registries and models, and rustc. Configurations: " + ", ".join(sorted({c for c, _ in pl["quick"]})) + ".",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
m["notes"] = "One Rust harness (vhcore: engine, allocator, tracked elements; harness: one binary per area), driven by check.py. No hooks in /repo. Replay: python3 check.py replay FILE."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
