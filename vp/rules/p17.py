"""P17: expired store entries are never returned."""
from .common import *

TECHNIQUE = "reachability on the inlined MIR flow graph under hypotheses on the entry's expiration time relative to the current time, plus provenance of the stored expiration time"
EXPLANATION = ("Every public lookup, containment test, removal and insertion of the cache and of the client store is analysed under four hypotheses about the entries it finds: no lifetime, lifetime not yet "
               "elapsed, elapsed exactly now, elapsed before. Comparisons between the stored expiration and the current time are decided by the hypothesis; comparisons with anything else are not. In the elapsed "
               "cases no return carries an entry; in the others a found entry is not hidden, and the cleaning scan keeps it. The stored expiration derives from the current time at insertion plus the "
               "given lifetime, and from nothing else, and is absent exactly when no lifetime was given.")
ASSUMPTIONS = ["the system clock does not run backwards", "listing keys is not a lookup and may name expired entries"]
NOTE = "All paths of the analysed operations under every hypothesis; clock resolution and jumps are outside."

NOW = r"SystemTime::(now|elapsed)$"
ARITH = r"ops::arith::|::(checked|saturating|wrapping)_(add|sub)"
REL = {"lt": -1, "eq": 0, "gt": 1}


def sides(a, b):
    """+1 if the call compares (now, expiration), -1 for (expiration, now), 0 otherwise"""
    t = [show(a.arg_term(b, i)) for i in (0, 1)]
    d = [calls_in(a.arg_deps(b, i), a, NOW) for i in (0, 1)]
    e = [".expiration" in x for x in t]
    now = [bool(d[i]) and not e[i] and not calls_in(d[i], a, ARITH) and not re.search(r"created_at|last_scan_at|scan_freq", t[i]) for i in (0, 1)]
    if now[0] and e[1]:
        return 1
    if now[1] and e[0]:
        return -1
    return 0


def decide(a, rel):
    """results of time comparisons when now relates to the expiration as rel (-1, 0, 1)"""
    def f(b):
        c = a.call(b)
        m = (c.tpath or c.path).rsplit("::", 1)[1]
        if m in ("ge", "gt", "le", "lt", "eq", "ne", "cmp", "partial_cmp", "duration_since", "max", "min") and len(c.args) == 2:
            s = sides(a, b)
            if s == 0:
                return None
            r = rel * s
            if m == "duration_since":
                return {(): "VOk" if r >= 0 else "VErr"}
            if m == "cmp":
                return {(): "V" + {-1: "Less", 0: "Equal", 1: "Greater"}[r]}
            v = {"ge": r >= 0, "gt": r > 0, "le": r <= 0, "lt": r < 0, "eq": r == 0, "ne": r != 0}.get(m)
            return {(): "1" if v else "0"} if v is not None else None
        if m == "elapsed" and ".expiration" in show(a.arg_term(b, 0)):
            return {(): "VOk" if rel >= 0 else "VErr"}
        return None
    return f


def worlds(cx, a):
    """hypothesis name -> analysis"""
    w = {"none": a.under(assume_field("expiration", "VNone"))}
    for n, r in REL.items():
        w[n] = a.under(assume_field("expiration", "VSome"), decide(a, r))
    return w


def check(cx):
    prog = cx.prog
    C, S = "engine::store::storage::cache::Cache::", "iota_stronghold::types::store::Store::"
    roots = []
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if b.pub and b.local and (p.startswith(C) or p.startswith(S)) and "{{" not in p:
            roots.append(p)
    cx.floor("public operations of cache and store", len(roots), 12)
    lookups = inserts = 0
    for p in roots:
        a = cx.an(p)
        n = short(p)
        own = [b for b in a.calls(r"hash::map::HashMap::(get|get_mut|remove|remove_entry|contains_key|insert|entry|get_key_value)$") if field_of(a, b, 0, (".table",))]
        rets = ret_type(a)
        scans(cx, a, n)
        ins = inserted(a)
        for b, i in ins:
            inserts += 1
            stored_time(cx, a, n, b, i)
        if not own or rets is None:
            continue
        if [b for b in own if a.call(b).path.endswith("::entry")]:
            # entry API: an occupied, expired entry is overwritten before it is handed out
            for b in own:
                if not a.call(b).path.endswith("::entry"):
                    continue
                for h in ("eq", "gt"):
                    u = worlds(cx, a)[h]
                    w = u.search(u.e.seed(b, {(): "VOccupied"}), u.rets(), avoid=[x for x, i in ins])
                    cx.ob("not-returned", n + ":" + h, w is None, a.where(b), "" if w is None else "an expired entry is handed out: " + a.show(w))
            lookups += 1
            continue
        lookups += 1
        ws = worlds(cx, a)
        look = [b for b in own if not a.call(b).path.endswith("::insert")]
        for h in ("eq", "gt"):
            t = tags(ws[h], rets)
            cx.ob("not-returned", n + ":" + h, t <= {"VNone", "0"}, "", "an entry whose lifetime has elapsed (%s) is returned or reported as present" % ("exactly now" if h == "eq" else "earlier"))
        for h in ("none", "lt"):
            u = ws[h]
            for b in own:
                st = found(u, b)
                bad = u.search(st, neg(u, rets), avoid=[x for x in own if x != b])
                cx.ob("still-there", n + ":" + h, bad is None, a.where(b), "" if bad is None else "an entry that has not expired is hidden: " + a.show(bad))
    cx.floor("lookups analysed", lookups, 6)
    cx.floor("insertions analysed", inserts, 3)


def ret_type(a):
    """path of the Option / bool in the returned value"""
    t = a.g.ty_of_place((a.g.retvar, ()))
    p = ()
    if t[0] == "adt" and t[1] == "core::result::Result":
        t = t[2][0]
        p = (":Ok", ".0")
    if t == ("prim", "bool") or (t[0] == "adt" and t[1] == "core::option::Option" and "SystemTime" not in str(t) and "Duration" not in str(t)) or t[0] == "ref":
        return p
    return None


def rnodes(u, path):
    e = u.e
    for i, (b, env) in enumerate(e.nodes):
        if u.g.blocks[b].kind == "ret":
            x = dict(env)
            for k, st in enumerate(u.g.blocks[b].stmts):
                if st[0] == "=":
                    e._assign(x, b, k, st[1], st[2])
            r = ("v", u.g.retvar)
            if path and x.get((r, ())) == "VErr":
                continue
            t = x.get((r, path))
            yield i, t if isinstance(t, str) else None


def tags(u, path):
    return set(t for i, t in rnodes(u, path))


def neg(u, path):
    return [("n", i) for i, t in rnodes(u, path) if t in ("VNone", "0")]


def scans(cx, a, n):
    """bulk removals only drop expired entries"""
    for b in a.calls(r"HashMap::(retain|extract_if)$"):
        if not field_of(a, b, 0, (".table",)):
            continue
        for body in cb_bodies(a, b):
            for h, ass in (("none", None), ("lt", -1)):
                ok = True
                # the closure is analysed in place: its own comparisons are decided by the hypothesis
                u = worlds(cx, a)[h]
                for r in closure_results(u, b):
                    if r not in ("1",):
                        ok = False
                cx.ob("scan-keeps", n + ":" + h, ok, a.where(b), "the cleaning scan removes entries that have not expired")


def closure_results(u, b):
    """tags of the callback's result at the callback loop of call b"""
    out = set()
    rts = [rt for i, rt in u.call(b).cbs]
    for i, (blk, env) in enumerate(u.e.nodes):
        if u.g.blocks[blk].loop_of == b and any(u.e.nodes[p][0] != u.g.blocks[blk].loop_pre for p in u.e.preds[i]):
            for rt in rts:
                t = dict(env).get((("v", rt), ()))
                out.add(t if isinstance(t, str) else None)
    return out


def inserted(a):
    out = []
    for b in a.calls(r"hash::map::HashMap::insert$|(OccupiedEntry|VacantEntry|Entry)::(insert|insert_entry|or_insert)$"):
        c = a.call(b)
        if "HashMap" in c.path:
            if field_of(a, b, 0, (".table",)):
                out.append((b, 2))
        elif ".table" in show(a.arg_term(b, 0)):
            out.append((b, 1))
    return out


def stored_time(cx, a, n, b, i):
    """the stored expiration is now + lifetime"""
    life = None
    for k, v in enumerate(a.g.argvars):
        if "Duration" in str(a.g.vars[v][2]):
            life = k
    if life is None:
        return
    ex = set(a.f.arg(b, i, (".expiration", ":Some", ".0")))
    d = a.f.deps(ex)
    cx.ob("counts-from-now", n, bool(calls_in(d, a, r"SystemTime::now$")), a.where(b), "the expiration does not count from the time of insertion")
    cx.ob("uses-lifetime", n, has_arg(d, life), a.where(b), "the expiration does not depend on the given lifetime")
    other = [v for v in d if v[0] == "arg" and v[1] != life]
    cx.ob("only-lifetime", n, not other, a.where(b), "the expiration depends on something other than the lifetime: %s" % other)
    arith = [v for v in d if v[0] in ("call", "mut") and re.search(r"Sub|Mul|Div|checked_sub|saturating_sub|from_secs|from_millis|min$|max$|duration_since", (a.call(v[1]).path or ""))]
    cx.ob("exactly-now-plus-lifetime", n, not arith, a.where(b), "the expiration is not simply now plus the lifetime")
    # absent exactly when no lifetime was given
    for tag, want in (("VSome", "VSome"), ("VNone", "VNone")):
        lv = a.g.argvars[life]

        def hyp(aps, ty, lv=lv, tag=tag):
            if aps and all(x == (("v", lv), ()) for x in aps):
                return tag
            return None
        u = a.under(hyp)
        got = set()
        blk = a.g.blocks[b]
        op = blk.call.args[i]
        for x, (bb, env) in enumerate(u.e.nodes):
            if bb == b and op[0] == "p":
                e = dict(env)
                for k, st in enumerate(blk.stmts):
                    if st[0] == "=":
                        u.e._assign(e, bb, k, st[1], st[2])
                ap = u.e.ap(bb, len(blk.stmts), op[1])
                t = e.get((ap[0], ap[1] + (".expiration",))) if ap else None
                got.add(t if isinstance(t, str) else None)
        cx.ob("lifetime-kept", n + ":" + tag, got <= {want} and bool(got), a.where(b), "an entry %s lifetime is stored %s" % ("with a" if tag == "VSome" else "without", "without one" if tag == "VSome" else "with one"))
