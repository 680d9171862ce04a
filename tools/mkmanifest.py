#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the implemented checks."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
notes = json.load(open(os.path.join(R, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "vlib", "props", i.lower() + ".py")):
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=n.get("technique", "TLA+ specification, TLC trace validation of recorded executions"),
            level="model_checking", level_note=n.get("note", "")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="All checks: build /repo's working tree, replay scenarios into the library, TLC validates the observations against specs/*.tla. No hooks in /repo.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
