#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
notes = json.load(open(os.path.join(here, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        t = notes.get(i, {})
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                       "technique": "property-based testing (Hypothesis): " + t.get("technique", "generated inputs against an independent reference"),
                       "level": "exploration",
                       "level_note": t.get("note", "random and structured generated inputs; what was generated is reported in the evidence file, nothing is exhaustive"),
                       "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Checks import the package from /repo/src directly (pure Python, nothing to build)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
