#!/usr/bin/env python3
"""assembles DESIGN.md"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp.rules import RULES
T = os.path.join(V, "tools")
na = json.load(open(os.path.join(T, "not_applicable.json")))
out = [open(os.path.join(T, "design_head.md")).read()]
muts = {}
for f in sorted(glob.glob(os.path.join(V, "mutants", "m*.txt"))):
    p = "P" + re.match(r"m(\d\d)", os.path.basename(f)).group(1)
    for l in open(f):
        if l.startswith("### "):
            n = l[4:].split("|")[0].strip()
            muts.setdefault(p, {"R": 0, "M": []})
            if n.startswith("R-"):
                muts[p]["R"] += 1
            else:
                muts[p]["M"].append(n)
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    p = d["id"]
    out.append("### %s %s\n" % (p, d["title"]))
    if p in RULES:
        r = RULES[p]
        out.append("*Method*: %s.\n" % r.TECHNIQUE)
        out.append("*Decided*: %s\n" % r.EXPLANATION)
        out.append("*Scope*: %s\n" % r.NOTE)
        if r.ASSUMPTIONS:
            out.append("*Assumed*: %s.\n" % "; ".join(r.ASSUMPTIONS))
        out.append("*Beyond tests*: %s\n" % d["why_tests_cant"])
        if p in muts:
            out.append("*Tried on*: %d breaking edits (%s), %d behaviour-preserving ones.\n" % (len(muts[p]["M"]), ", ".join(muts[p]["M"][:60]), muts[p]["R"]))
    else:
        out.append("Not applicable: %s\n" % na.get(p, "no check built yet."))
out.append("## Defects found and repaired\n\nEach is one `fix:` commit in /repo; the check of the property reports the defect again if the commit is reverted.\n")
for x in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", x)
    out.append("- %s `%s`: %s" % m.groups())
out.append("\nNo finding is left unrepaired in the known-findings file.\n")
out.append("## Planted bugs\n\n`seeded/<id>`; each is caught by the check of its own property (exit 1, VIOLATION line), none by accident of another. The larger corpus of small mutants used while building each rule is in `mutants/` (run by `tools/mutants.py` on a scratch copy; no check reads either).\n")
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    out.append("- `%s` (%s): %s *Needs*: %s *Caught by*: %s" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"], m["property"]))
out.append("\n" + open(os.path.join(T, "design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
