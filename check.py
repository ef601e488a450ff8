#!/usr/bin/env python3
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import framework
from vp.rules import RULES

ap = argparse.ArgumentParser()
ap.add_argument("--property", required=True)
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
a = ap.parse_args()
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
props = sorted(RULES) if a.property == "all" else [a.property]
rc = 0
for p in props:
    r = RULES[p]
    try:
        x = framework.run(p, r.check, r.EXPLANATION, r.ASSUMPTIONS, a.tier, seed)
        rc = max(rc, x)
    except Exception:
        traceback.print_exc()
        rc = 2 if a.property != "all" else max(rc, 2)
sys.exit(rc)
