import importlib, os, re
RULES = {}
for _f in sorted(os.listdir(os.path.dirname(__file__))):
    _m = re.match(r"^(p\d\d)\.py$", _f)
    if _m:
        RULES[_m.group(1).upper()] = importlib.import_module("vp.rules." + _m.group(1))
