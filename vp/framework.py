"""Check runner: obligations, violations, known findings, evidence."""
import json, multiprocessing, os, re, sys, time
from . import extract, ir
from .graph import Policy, TooBig
from .query import Analysis

VERIF = extract.VERIF
sys.setrecursionlimit(100000)


class RuntimeOpaque(Policy):
    """client / engine level: the guarded-memory crate is a boundary"""

    def opaque(self, body):
        return body.crate.name in ("runtime", "stronghold_utils") and body.local


class NoOpaque(Policy):
    pass


class Cx:
    def __init__(self, prop, prog, tier):
        self.prop = prop
        self.prog = prog
        self.tier = tier
        self.obs = []          # (rule, key, ok, where, detail)
        self.keys = {}
        self.analysed = {}
        self.counts = {}
        self.notes = []
        self._an = {}

    # ---------------------------------------------------------------- roots
    def fn(self, path):
        """the function body with that qualified path (fails closed when it is gone)"""
        l = self.prog.by_path.get(path, [])
        if not l:
            self.ob("anchor", "missing:" + path, False, "", "the analysed entry point %s no longer exists" % path)
            return None
        return l[0]

    def an(self, path_or_body, policy=None, subst=None, models=None, cap=40, key=None):
        b = path_or_body
        if isinstance(b, str):
            b = self.fn(b)
            if b is None:
                return None
        k = (b.uid, type(policy).__name__, key, cap, str(subst))
        a = self._an.get(k)
        if a is None:
            a = Analysis(self.prog, b, policy or RuntimeOpaque(), subst, models, cap)
            self._an[k] = a
            self.analysed[b.path] = {"blocks": len(a.g.blocks), "partition_nodes": len(a.e.nodes),
                                     "inlined_functions": len(set(c.body.uid for c in a.g.ctxs))}
        return a

    # ---------------------------------------------------------------- results
    def ob(self, rule, key, ok, where="", detail=""):
        """one obligation: rule instance `key` (stable, no line numbers) holds or not"""
        full = rule + "/" + key
        if full in self.keys:
            i = self.keys[full]
            if self.obs[i][2] and not ok:
                self.obs[i] = (rule, key, False, where, detail)
            return ok
        self.keys[full] = len(self.obs)
        self.obs.append((rule, key, bool(ok), where, detail))
        return ok

    def floor(self, name, n, minimum):
        self.counts[name] = n
        self.ob("floor", name, n >= minimum, "", "only %d %s found, at least %d expected: the rule would pass vacuously" % (n, name, minimum))

    def par(self, items, f):
        """f(cx, item) for every item, spread over the processors; results are merged in order"""
        items = list(items)
        global _job
        if len(items) < 2 or _job is not None:
            return [f(self, x) for x in items]
        _job = (self, items, f)
        try:
            with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1, len(items))) as pool:
                res = pool.map(_run_item, range(len(items)), chunksize=1)
        finally:
            _job = None
        out = []
        for obs, counts, analysed, notes, r in res:
            for o in obs:
                self.ob(*o)
            for k, v in counts.items():
                self.counts[k] = self.counts.get(k, 0) + v
            self.analysed.update(analysed)
            self.notes += notes
            out.append(r)
        return out

    def count(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n


_job = None


def _run_item(i):
    base, items, f = _job
    cx = Cx(base.prop, base.prog, base.tier)
    cx._an = dict(base._an)
    r = f(cx, items[i])
    return cx.obs, cx.counts, cx.analysed, cx.notes, r


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {"findings": [], "fixed": []}


_prog = {}


def program(config="tests"):
    d, crates = extract.extract(config)
    if d not in _prog:
        _prog[d] = ir.load(d, [c for c in crates if c != "stronghold_derive"])
    return _prog[d]


def run(prop, fn, explanation, assumptions, tier, seed):
    t0 = time.time()
    prog = program()
    cx = Cx(prop, prog, tier)
    fn(cx)
    configs = ["tests"]
    if tier == "thorough":
        # the same rules on the program another feature configuration compiles
        for config in sorted(set(extract.CONFIGS) - {"tests"}):
            c2 = Cx(prop, program(config), tier)
            fn(c2)
            configs.append(config)
            cx.obs += [(r, k, ok, w, d + (" [features: %s]" % config if d else "")) for r, k, ok, w, d in c2.obs]
            cx.analysed.update(("%s [%s]" % (x, config), y) for x, y in c2.analysed.items())
            for k, v in c2.counts.items():
                cx.counts["%s [%s]" % (k, config)] = v
            cx.notes = list(cx.notes) + list(c2.notes)
    known = {k["key"]: k for k in load_known()["findings"] if k["property"] == prop}
    bad, kn = [], []
    for rule, key, ok, where, detail in cx.obs:
        if ok:
            continue
        full = rule + "/" + key
        if full in known:
            kn.append((full, where, detail))
        else:
            bad.append((full, where, detail))
    if not cx.obs:
        bad.append(("floor/none", "", "no obligation was generated"))
    for full, where, detail in kn:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, full, known[full]["what"]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "obligations": len(cx.obs),
            "discharged": sum(1 for o in cx.obs if o[2]),
            "roots_analysed": cx.analysed,
            "functions_in_program": len(prog.bodies),
            "feature_configurations": configs,
            "counts": cx.counts,
            "obligation_list": [{"rule": r, "instance": k, "holds": ok, "where": w} for r, k, ok, w, d in cx.obs][:400],
            "known_findings": [k for k, w, d in kn],
            "notes": cx.notes,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        rp = os.path.join(VERIF, "evidence", prop + ".violations.txt")
        with open(rp, "w") as f:
            for full, where, detail in bad:
                f.write("%s\n  at %s\n  %s\n" % (full, where, detail))
        for full, where, detail in bad[:20]:
            print("  [%s] %s: %s" % (full, where, detail))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s obligations=%d known=%d wall=%.1fs" % (prop, len(cx.obs), len(kn), time.time() - t0))
    return 0
