#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and tools/not_applicable.json."""
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/analysis")
import vp      # noqa: E402
import checks  # noqa: E402

TECH = json.load(open(V + "/tools/techniques.json"))
na = json.load(open(V + "/tools/not_applicable.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [], "notes":
       "All checks compile /repo through the driver in /verif/driver and decide on the dumped facts and MIR; nothing of /repo is run."}
for p in props:
    if p in vp.REGISTRY:
        rule = vp.REGISTRY[p][1]
        out["checks"].append({
            "property": p, "quick_cmd": "python3 check.py " + p, "evidence_file": "evidence/%s.json" % p,
            "technique": TECH.get(p, TECH["default"]), "level": "other", "level_note": rule,
        })
    elif p in na:
        out["not_applicable"].append({"property": p, "reason": na[p]})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print("checks", len(out["checks"]), "n/a", len(out["not_applicable"]), "open", [p for p in props if p not in vp.REGISTRY and p not in na])
