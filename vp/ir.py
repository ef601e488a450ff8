"""Loading of the extracted facts: bodies, types, trait implementations; type substitution and
callee resolution."""
import json, os

# ---------------------------------------------------------------- types
# ('adt', path, args) ('ref', t, mut) ('ptr', t, mut) ('slice', t) ('array', t, n) ('tuple', args)
# ('param', n) ('closure', uid, args) ('fndef', path, uid, args) ('fnptr', d) ('dyn', traits)
# ('proj', path, args) ('opaque', path, args) ('never',) ('prim', n) ('other', d) ; const args: ('const', s)


class Crate:
    def __init__(self, d):
        self.name = d["crate"]
        self.raw = d
        self.cache = {}

    def ty(self, i):
        if isinstance(i, str):
            return ("const", i)
        r = self.cache.get(i)
        if r is not None:
            return r
        j = self.raw["types"][i]
        if j is None:
            return ("other", "?")
        k = j["k"]
        if k == "adt":
            r = ("adt", j["p"], tuple(self.ty(x) for x in j["a"]))
        elif k in ("ref", "ptr"):
            r = (k, self.ty(j["t"]), j["m"])
        elif k == "slice":
            r = ("slice", self.ty(j["t"]))
        elif k == "array":
            r = ("array", self.ty(j["t"]), j["n"])
        elif k == "tuple":
            r = ("tuple", tuple(self.ty(x) for x in j["a"]))
        elif k == "param":
            r = ("param", j["n"])
        elif k == "closure":
            r = ("closure", j["u"], tuple(self.ty(x) for x in j["a"]))
        elif k == "fndef":
            r = ("fndef", j["p"], j["u"], tuple(self.ty(x) for x in j["a"]))
        elif k == "fnptr":
            r = ("fnptr", j["d"])
        elif k == "dyn":
            r = ("dyn", tuple(j["t"]))
        elif k in ("proj", "opaque"):
            r = (k, j["p"], tuple(self.ty(x) for x in j["a"]))
        elif k == "never":
            r = ("never",)
        elif k == "prim":
            r = ("prim", j["n"])
        else:
            r = ("other", j.get("d", ""))
        self.cache[i] = r
        return r


def tstr(t):
    k = t[0]
    if k == "adt":
        n = t[1].split("::")[-1]
        return n + ("<%s>" % ",".join(tstr(x) for x in t[2]) if t[2] else "")
    if k == "ref":
        return ("&mut " if t[2] else "&") + tstr(t[1])
    if k == "ptr":
        return ("*mut " if t[2] else "*const ") + tstr(t[1])
    if k == "slice":
        return "[%s]" % tstr(t[1])
    if k == "array":
        return "[%s;%s]" % (tstr(t[1]), t[2])
    if k == "tuple":
        return "(%s)" % ",".join(tstr(x) for x in t[1])
    if k in ("param", "prim", "const", "other", "fnptr"):
        return t[1]
    if k == "closure":
        return "{closure %s}" % t[1]
    if k == "fndef":
        return "fn " + t[1]
    if k in ("proj", "opaque"):
        return "<%s>::%s" % (",".join(tstr(x) for x in t[2]), t[1].split("::")[-1])
    if k == "never":
        return "!"
    if k == "dyn":
        return "dyn " + "+".join(t[1])
    return str(t)


def subst(t, s):
    if not s:
        return t
    k = t[0]
    if k == "param":
        return s.get(t[1], t)
    if k == "adt":
        return ("adt", t[1], tuple(subst(x, s) for x in t[2])) if t[2] else t
    if k in ("ref", "ptr"):
        return (k, subst(t[1], s), t[2])
    if k == "slice":
        return ("slice", subst(t[1], s))
    if k == "array":
        return ("array", subst(t[1], s), t[2])
    if k == "tuple":
        return ("tuple", tuple(subst(x, s) for x in t[1]))
    if k == "closure":
        return ("closure", t[1], tuple(subst(x, s) for x in t[2]))
    if k == "fndef":
        return ("fndef", t[1], t[2], tuple(subst(x, s) for x in t[3]))
    if k in ("proj", "opaque"):
        return (k, t[1], tuple(subst(x, s) for x in t[2]))
    return t


def unify(pat, t, s):
    """match impl header type `pat` (with params) against concrete `t`"""
    if pat[0] == "param":
        if pat[1] in s:
            return s[pat[1]] == t
        s[pat[1]] = t
        return True
    if t[0] == "param":
        return False
    if pat[0] != t[0]:
        return False
    k = pat[0]
    if k == "adt":
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(unify(a, b, s) for a, b in zip(pat[2], t[2]))
    if k in ("ref", "ptr"):
        return pat[2] == t[2] and unify(pat[1], t[1], s)
    if k == "slice":
        return unify(pat[1], t[1], s)
    if k == "array":
        return unify(pat[1], t[1], s)
    if k == "tuple":
        return len(pat[1]) == len(t[1]) and all(unify(a, b, s) for a, b in zip(pat[1], t[1]))
    if k in ("proj", "opaque", "const"):
        return True
    return pat == t


class Body:
    __slots__ = ("crate", "uid", "path", "kind", "parent", "impl", "generics", "abi", "unsafe", "detached", "pub", "exported",
                 "loc", "argc", "locals", "names", "blocks", "promoted", "upvars", "_live", "derived")

    def __init__(self, crate, b):
        self.crate = crate
        self.uid = b["u"]
        self.path = b["p"]
        self.kind = b["kind"]
        self.parent = b.get("parent")
        self.impl = b.get("impl")
        self.generics = b["generics"]
        self.abi = b.get("abi")
        self.unsafe = b.get("unsafe")
        self.detached = b.get("detached")
        self.pub = b["pub"]
        self.exported = b["exported"]
        self.loc = b["loc"]
        if crate.name == "stronghold_stm" and self.loc.startswith("src/"):
            self.loc = "stm/" + self.loc
        self.argc = b["argc"]
        self.locals = [crate.ty(x) for x in b["locals"]]
        self.names = {int(k): v for k, v in b["names"].items()}
        self.blocks = b["blocks"]
        self.promoted = b["promoted"]
        self.upvars = b.get("upvars")
        self._live = None

    @property
    def file(self):
        return self.loc.rsplit(":", 1)[0]

    @property
    def local(self):
        return not (self.path.startswith(("core::", "<core::", "<T as core", "bool::", "alloc::", "std::")))


class Program:
    def __init__(self, facts_dir, crates):
        self.crates = {}
        self.bodies = {}
        self.by_path = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.consts = {}
        self.impl_by_trait = {}
        self.impl_by_uid = {}
        for c in crates:
            p = os.path.join(facts_dir, c + ".json")
            with open(p) as f:
                d = json.load(f)
            cr = Crate(d)
            self.crates[c] = cr
            for b in d["bodies"]:
                if b["u"] in self.bodies:
                    continue
                bo = Body(cr, b)
                self.bodies[bo.uid] = bo
                self.by_path.setdefault(bo.path, []).append(bo)
            for a in d["adts"]:
                a = dict(a)
                a["crate"] = c
                for v in a["variants"]:
                    for f in v["f"]:
                        f["t"] = cr.ty(f["ty"])
                self.adts[a["p"]] = a
            for t in d["traits"]:
                self.traits[t["p"]] = t
            for i in d["impls"]:
                i = dict(i)
                i["self_t"] = cr.ty(i["self"])
                i["args_t"] = [cr.ty(x) for x in i["args"]]
                i["crate"] = c
                i["preds_t"] = [(x[0], cr.ty(x[1])) for x in i.get("preds", [])]
                for it in i["items"]:
                    if "ty" in it:
                        it["t_ty"] = cr.ty(it["ty"])
                self.impls.append(i)
                self.impl_by_trait.setdefault(i["trait"], []).append(i)
                self.impl_by_uid[i["u"]] = i
            for k in d["consts"]:
                self.consts[k["p"]] = k
        for b in self.bodies.values():
            b.derived = bool(b.impl and self.impl_by_uid.get(b.impl, {}).get("derived"))
        self._norm = {}
        self._res = {}

    # ------------------------------------------------------------ lookup helpers
    def fn(self, path):
        """bodies with exactly that qualified path"""
        return self.by_path.get(path, [])

    def one(self, path):
        l = self.by_path.get(path, [])
        return l[0] if len(l) == 1 else (l[0] if l else None)

    def find_impl(self, trait, self_t, targs=None):
        """impls (with substitution) of trait for the concrete type"""
        out = []
        for i in self.impl_by_trait.get(trait, []):
            if i["neg"]:
                continue
            s = {}
            if unify(i["self_t"], self_t, s):
                if targs is not None:
                    ok = True
                    for a, b in zip(i["args_t"][1:], targs):
                        if b[0] == "param":
                            continue
                        if not unify(a, b, s):
                            ok = False
                            break
                    if not ok:
                        continue
                out.append((i, s))
        return out

    def norm(self, t):
        """normalise projections whose self type is known"""
        k = t[0]
        if k in ("prim", "param", "never", "other", "fnptr", "dyn", "const"):
            return t
        r = self._norm.get(t)
        if r is not None:
            return r
        if k == "adt":
            r = ("adt", t[1], tuple(self.norm(x) for x in t[2]))
        elif k in ("ref", "ptr"):
            r = (k, self.norm(t[1]), t[2])
        elif k == "slice":
            r = ("slice", self.norm(t[1]))
        elif k == "array":
            r = ("array", self.norm(t[1]), t[2])
        elif k == "tuple":
            r = ("tuple", tuple(self.norm(x) for x in t[1]))
        elif k == "closure":
            r = ("closure", t[1], tuple(self.norm(x) for x in t[2]))
        elif k == "fndef":
            r = ("fndef", t[1], t[2], tuple(self.norm(x) for x in t[3]))
        elif k == "proj":
            args = tuple(self.norm(x) for x in t[2])
            r = ("proj", t[1], args)
            tr, _, name = t[1].rpartition("::")
            if args and args[0][0] not in ("param", "proj", "opaque"):
                for i, s in self.find_impl(tr, args[0], args[1:]):
                    for it in i["items"]:
                        if it["n"] == name and "t_ty" in it:
                            r2 = subst(it["t_ty"], s)
                            r = self.norm(r2) if r2 != t else r
                            break
        else:
            r = t
        self._norm[t] = r
        return r

    # ------------------------------------------------------------ callee resolution
    def resolve(self, crate, f, s):
        """f: raw fn reference json; s: substitution of the caller.
        Returns list of (kind, payload): ('body', Body, subst) / ('closure', type) / ('ctor', path) /
        ('ext', path, args) ; several entries = nondeterministic choice."""
        args = tuple(self.norm(subst(crate.ty(x), s)) for x in f["a"])
        if f.get("ctor"):
            return [("ctor", f["p"], args)]
        r = f.get("r")
        tr = f.get("tr")
        if tr in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"):
            return [("fncall", args[0], args)]
        if r is not None and r["k"] == "item":
            rb = self.bodies.get(r["u"])
            rargs = tuple(self.norm(subst(crate.ty(x), s)) for x in r["a"])
            if rb is not None:
                return [("body", rb, self.mksubst(rb, rargs))]
            # an external impl (possibly generic): keep the trait method's own name if any
            return [("ext", r["p"], rargs, f["p"], args)]
        if tr is None:
            b = self.bodies.get(f["u"])
            if b is not None:
                return [("body", b, self.mksubst(b, args))]
            return [("ext", f["p"], args, f["p"], args)]
        # trait method, unresolved or resolved to the default body
        return self.resolve_trait(tr, f["p"], f["u"], args)

    def mksubst(self, b, args):
        g = b.generics
        a = args
        if len(g) != len(a):
            a = a[: len(g)]
        return dict(zip(g, a))

    def resolve_trait(self, tr, path, uid, args):
        name = path.rpartition("::")[2]
        self_t = args[0] if args else ("other", "?")
        default = self.bodies.get(uid)
        if self_t[0] == "ref" and tr not in ("core::clone::Clone",):
            pass
        if self_t[0] in ("param", "dyn", "opaque", "proj"):
            cands = []
            if self_t[0] != "opaque" and tr in self.traits:
                for i in self.impl_by_trait.get(tr, []):
                    for it in i["items"]:
                        if it["n"] == name:
                            b = self.bodies.get(it["u"])
                            if b is not None:
                                cands.append(("body", b, {}))
                            break
                    else:
                        if default is not None:
                            cands.append(("body", default, {"Self": i["self_t"]}))
            if cands:
                return cands
            return [("ext", path, args, path, args)]
        targs = None
        found = self.find_impl(tr, self_t, list(args[1:1 + max(0, len(self.traits[tr]["generics"]) - 1)]) if tr in self.traits else list(args[1:]))
        if len(found) > 1:
            # prefer the most specific header
            found.sort(key=lambda x: x[0]["self_t"][0] == "param")
            found = found[:1]
        for i, s2 in found:
            for it in i["items"]:
                if it["n"] == name:
                    b = self.bodies.get(it["u"])
                    if b is not None:
                        ntr = len(i["args_t"])
                        own = args[ntr:]
                        gl = [g for g in b.generics]
                        full = dict(s2)
                        # impl generics are bound by unification; remaining generics are the method's own
                        rest = [g for g in gl if g not in self._impl_generics(i)]
                        for g, a in zip(rest, own):
                            full[g] = a
                        return [("body", b, full)]
            if default is not None:
                return [("body", default, self.mksubst(default, args))]
        if self_t[0] == "closure" or self_t[0] == "fndef":
            pass
        return [("ext", path, args, path, args)]

    def _impl_generics(self, i):
        return i["generics"]


def load(facts_dir, crates):
    return Program(facts_dir, crates)
