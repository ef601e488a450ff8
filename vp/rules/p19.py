"""P19: clearing wipes all in-memory state; purging removes a client everywhere."""
from .common import *

TECHNIQUE = "enumeration of all state-holding containers reachable in the types, and a must-pass-through analysis of their wipes on the inlined MIR flow graph"
EXPLANATION = ("The containers that can hold state (maps, vectors, the optional key location) are enumerated from the type definitions starting at Stronghold, through Arc, RwLock and the elements shared with client handles. On "
               "every path of clear() that returns success each container must be emptied (cleared, drained, taken or overwritten with an empty value) behind the shared reference, and for every client taken from the complete, "
               "not yet emptied map of loaded clients the containers of that client must be emptied before the next one is taken. Purging removes the entry of the given client's id from the loaded clients and from the "
               "snapshot's states on every successful path, with the same id, and nothing is inserted afterwards.")
ASSUMPTIONS = ["clear/drain/take of std containers empty them"]
NOTE = "All containers of all types reachable from Stronghold; the wrapping master key of a key store is not client state."

S = "iota_stronghold::types::stronghold::Stronghold"
CONT = re.compile(r"(HashMap|BTreeMap|HashSet|BTreeSet|vec::Vec|VecDeque)$")
WRAP = re.compile(r"(sync::Arc|sync::.*RwLock|sync::.*Mutex|rc::Rc|boxed::Box|cell::RefCell|cell::Cell)$|(^|::)(Arc|RwLock|Mutex|Box|Rc)$")
EMPTY = r"(HashMap|BTreeMap|HashSet|BTreeSet|Vec|VecDeque)::(clear|drain)$|option::Option::take$|core::mem::take$"


def containers(prog, ty, pre=(), seen=()):
    """(field chain, kind, element type) of every container reachable in a type; '@' marks a shared / locked boundary"""
    out = []
    ad = prog.adts.get(ty)
    if not ad or ty in seen:
        return out
    for v in ad["variants"]:
        for f in v["f"]:
            out += of_type(prog, f["t"], pre + ("." + f["n"],), seen + (ty,))
    return out


def of_type(prog, t, ch, seen):
    if not isinstance(t, tuple) or not t:
        return []
    if t[0] == "adt":
        n = t[1]
        if CONT.search(n):
            el = t[2][-1] if t[2] else None
            if CONT.search(n) and n.endswith("Map") and len(t[2]) >= 2:
                el = t[2][1]
            return [(ch, "map", el)]
        if n.endswith("option::Option"):
            el = t[2][0]
            if el[0] == "adt" and el[1].startswith(("iota_stronghold", "engine", "alloc")):
                return [(ch, "option", el)]
            return []
        if WRAP.search(n):
            return of_type(prog, t[2][0], ch + ("@",), seen)
        if n.startswith(("iota_stronghold::", "engine::")) and not n.startswith("engine::vault::crypto_box"):
            return containers(prog, n, ch, seen)
    return []


def chain(v):
    """(root, access chain) of the place a pointer refers to; '@' marks pointer / lock boundaries"""
    ch = ()
    while True:
        own = tuple(x for x in (v[4] if v[0] == "cb" else v[2] if len(v) > 2 and isinstance(v[2], tuple) else ()) if x == "@" or (isinstance(x, str) and x.startswith(".") and not x[1:].isdigit()))
        ch = own + ch
        if v[0] == "ptr" and v[1][0] == "o":
            ch = ("@",) + ch
            v = v[1][1]
            if v[0] == "obj":
                v = v[1]
        elif v[0] == "init" and v[1][0] == "o":
            ch = ("@",) + ch
            v = v[1][1]
        else:
            return (v[0], v[1]), norm(ch)


def norm(ch):
    out = []
    for x in ch:
        if x == "@" and (not out or out[-1] == "@"):
            continue
        out.append(x)
    return tuple(out)


def events(a):
    """(block, root, chain) of every place that is emptied"""
    out = []
    for b in a.calls(EMPTY):
        for v in a.arg_vals(b, 0):
            if v[0] in ("ptr", "init", "arg"):
                out.append((b,) + chain(v))
    for b in a.calls(r"core::mem::replace$"):
        for v in a.arg_vals(b, 0):
            if v[0] in ("ptr", "init", "arg"):
                out.append((b,) + chain(v) + (("use", a.call(b).args[1]), a.nblk(b)))
    for bl in a.g.blocks:
        if bl.id not in a.e.reached:
            continue
        for i, st in enumerate(bl.stmts):
            if st[0] == "=" and st[1][1]:
                for v, p in a.f.resolve(bl.id, i, st[1]):
                    if v[0] == "o":
                        out.append((bl.id,) + chain(("ptr", v, p)) + (st[2], i))
    return out


NEW = r"(HashMap|BTreeMap|HashSet|BTreeSet|Vec|VecDeque)::(new|with_capacity)$|(HashMap|BTreeMap|HashSet|BTreeSet|Vec|VecDeque) as .*Default>::default$|Default::default$"


def empty_write(a, ev, rest, kind):
    """the value assigned has an empty container at the remaining field path"""
    if len(ev) == 3:
        return not rest
    rv, i = ev[3], ev[4]
    if rv[0] == "use":
        vals = a.f.vals_path(ev[0], i, rv[1], tuple(rest))
    elif rv[0] == "agg" and kind == "option" and not rest:
        return rv[2] == [] or rv[2] == ()
    else:
        return False
    return bool(vals) and all((v[0] == "call" and re.search(NEW, a.call(v[1]).path or "")) or
                              (kind == "option" and show(a.f.vterm(v, 4, ())) == "Option{}") or v == ("k", ("default",)) for v in vals)


def wipes(a, evs, root, ch, kind):
    """blocks that empty the container at that chain"""
    ch = norm(ch)
    last = max([k for k, x in enumerate(ch) if x == "@"], default=-1)
    out = []
    for ev in evs:
        if not root(ev[1]):
            continue
        c = ev[2]
        if len(c) > last and ch[:len(c)] == c and (len(ev) > 3 or c == ch):
            if empty_write(a, ev, ch[len(c):], kind):
                out.append(ev[0])
    return out


def check(cx):
    prog = cx.prog
    clear(cx, prog)
    for p in (S + "::purge_client", "iota_stronghold::types::snapshot::Snapshot::purge_client"):
        purge(cx, p)


def clear(cx, prog):
    p = S + "::clear"
    a = cx.an(p, Coarse())
    if a is None:
        cx.ob("clear", "present", False, "", "the operation is missing")
        return
    todo = containers(prog, S)
    cx.floor("containers reachable from Stronghold", len(todo), 5)
    evs = events(a)
    main = lambda r: r == ("arg", 0)
    for ch, kind, el in todo:
        key = "".join(x for x in ch if x != "@")
        w = wipes(a, evs, main, ch, kind)
        must_precede(cx, a, "wiped", "Stronghold" + key, w, a.rets("Ok"), "success is returned although %s may keep its content" % key)
        sub = shared(prog, el)
        if sub:
            elements(cx, a, key, ch, sub, evs, w)


def shared(prog, t):
    """containers of the element type that other handles share"""
    out = []
    for ch, kind, el in (of_type(prog, t, (), ()) if t else []):
        if "@" in ch:
            out.append((ch, kind, el))
    return out


def elements(cx, a, key, ch, sub, evs, emptied):
    """every element of the map is wiped, and before the map forgets it"""
    f = [x for x in ch if x.startswith(".")][-1]
    its = [(b, k, d) for b, k, d in iterations(a, f)]
    for b in a.calls(r"Iterator(>)?::(next|for_each|try_for_each)$"):
        d = a.arg_deps(b, 0, cutter(a, r"HashMap::(get|insert)$"))
        if b not in [x[0] for x in its] and [e for e in emptied if e in dep_blks(d) and re.search(r"take$|replace$|drain$", a.call(e).path if a.call(e) else "")]:
            its.append((b, "next" if a.call(b).path.endswith("next") else "cb", d))
    cx.ob("elements", "Stronghold" + key, bool(its), "", "no loop over the elements of %s: what earlier handles share is not wiped" % key)
    good = False
    for b, k, d in its:
        src = set(dep_blks(d))
        if calls_in(d, a, IFILTER):
            continue
        start, again = loop_body(a, b)
        ok = True
        for sch, kind, el in sub:
            ws = wipes(a, [e for e in evs], lambda r: r[0] in ("call", "arg", "init", "mut", "cb") and r != ("arg", 0), sch, kind)
            ws = [x for x in ws if k == "cb" or of_elem(a, evs, x, b)]
            if not ws:
                ok = False
            w = a.search(start, ok_again(a, again) + a.rets("Ok"), avoid=ws)
            skey = "".join(x for x in sch if x != "@")
            cx.ob("element-wiped", "Stronghold%s[]%s" % (key, skey), bool(ws) and w is None, a.where(b),
                  "" if w is None and ws else "an element of %s keeps its %s: %s" % (key, skey, a.show(w) if w else "never wiped"))
        # nothing empties the map before the loop fetches its elements
        first = [s for s in src if s in [x.id for x in a.g.blocks if x.kind == "call" and x.call and x.call.args] and (s in emptied or at_field(a, s, 0, f))]
        byval = bool(first) and not any(v[0] == "ptr" for s in first for v in a.arg_vals(s, 0))
        other = [e for e in emptied if e not in src and not (byval and a.call(e) and re.search(r"mem::(take|replace)$", a.call(e).path))]
        w = a.search([y for e in other for y in a.after(e)], first or [b])
        cx.ob("elements-not-forgotten", "Stronghold" + key, w is None, a.where(b), "the elements are dropped from %s before they are wiped: %s" % (key, a.show(w) if w else ""))
        if k == "next":
            inl = [y for s in start for y in [s]]
            w = a.search(inl, a.rets("Ok"), avoid=[b])
            cx.ob("loop-complete", "Stronghold" + key, w is None, a.where(b), "the loop over %s may end early: %s" % (key, a.show(w) if w else ""))
        must_precede(cx, a, "elements-always", "Stronghold" + key, [b], a.rets("Ok"), "success is returned without wiping the elements of %s" % key)
        good = True
    cx.ob("elements-all", "Stronghold" + key, good or not its, "", "the loop over %s leaves elements out" % key)


def of_elem(a, evs, blk, it):
    for ev in evs:
        if ev[0] == blk and ev[1][0] in ("call", "init", "mut"):
            x = ev[1][1]
            while not isinstance(x, int) and isinstance(x, tuple):
                x = x[1] if len(x) > 1 else None
            if x == it:
                return True
    return False


IFILTER = r"Iterator(>)?::(filter|filter_map|skip|skip_while|take|take_while|step_by|map_while|find|find_map|nth|last|position|scan)$|::(truncate|split_off|retain|pop|swap_remove|dedup\w*|remove)$"


def purge(cx, p):
    a = cx.an(p, Coarse())
    n = short(p)
    if a is None:
        cx.ob("purge", n, False, "", "the operation is missing")
        return
    for f in ((".clients", ".states") if "Stronghold" in n else (".states",)):
        ls = lookups(a, f)
        rem = [b for b in ls if re.search(r"::remove(_entry)?$", a.call(b).path)]
        for b in a.calls(r"OccupiedEntry::remove(_entry)?$"):
            if any(l in dep_blks(a.arg_deps(b, 0)) for l in ls):
                rem.append(b)

        def present(blk):
            blk = blk if isinstance(blk, int) else blk.id
            if blk in ls and blk not in rem:
                m = a.call(blk).path.rsplit("::", 1)[1]
                return {(): {"contains_key": "1", "entry": "VOccupied"}.get(m, "VSome")}
            return None
        u = a.under(None, present)
        w = u.search(u.entry(), u.rets("Ok"), avoid=rem)
        cx.ob("purged", n + f, bool(rem) and w is None, a.where(rem[0]) if rem else "", "" if rem and w is None else "success is returned although the client may still be in %s: %s" % (f, a.show(w) if w else ""))
        for b in [l for l in ls if a.call(l).path.rsplit("::", 1)[1] != "contains_key"] :
            d = a.arg_term(b, 1, 30)
            t = show(d)
            ok = bool(re.fullmatch(r"[*{]*arg1(\.id|\.0)*\}?", t))
            cx.ob("purged-id", n + f, ok, a.where(b), "the entry removed from %s is not the one of the given client: %s" % (f, t[:120]))
        ins = [b for b in a.calls(r"HashMap::(insert|extend)$|VacantEntry::insert$") if at_field(a, b, 0, f)]
        w = a.search([y for r in rem for y in a.after(r)], ins) if ins else None
        cx.ob("not-added-again", n + f, w is None, "", "an entry is put back: " + (a.show(w) if w else ""))
