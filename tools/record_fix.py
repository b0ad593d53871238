#!/usr/bin/env python3
"""record_fix.py PROPERTY COMMIT TEXT: adds a repaired defect to known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(p))
prop, commit, text = sys.argv[1:4]
d["findings"].append({"property": prop, "status": "fixed", "commit": commit, "what": f"fixed: property={prop} {commit} {text}"})
with open(p, "w") as f:
    f.write('{"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in d["findings"]) + "\n]}\n")
