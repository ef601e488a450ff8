#!/usr/bin/env python3
"""writes MANIFEST.json from the rule modules and tools/not_applicable.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp.rules import RULES
na = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 /verif/vp/extract.py", "checks": [], "not_applicable": []}
for p in props:
    if p in RULES:
        r = RULES[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": "python3 check.py --property %s --tier quick" % p,
            "thorough_cmd": "python3 check.py --property %s --tier thorough" % p,
            "technique": r.TECHNIQUE, "level": "other", "level_note": r.NOTE})
    else:
        m["not_applicable"].append({"property": p, "reason": na.get(p, "no check built yet")})
m["notes"] = "Every check re-extracts the typed program (MIR, types, impls) of /repo's working tree with a rustc driver and decides its rules on it; see DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
