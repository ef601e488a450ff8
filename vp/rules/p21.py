"""P21: software transactions are atomic and isolated."""
from .common import *
from . import p19
from ..framework import NoOpaque
from ..graph import Policy

TECHNIQUE = "order and guard analysis of the transaction protocol on the inlined MIR flow graph: lock, clock, validate and write events, linear comparison bounds, key provenance"
EXPLANATION = ("On every path of Stm::read_write the clock is sampled anew before each run of the transaction closure; after the closure succeeded every variable in the set of used variables is locked (a lock that cannot be had abandons the "
               "attempt), no variable is locked after the clock was advanced, the version of every locked variable is compared with the sampled one and an outdated one abandons the attempt, the comparison may only be skipped when the clock shows that no "
               "other transaction committed in between, and only then values and versions are written, both or none, the value being the one stored for the locked variable and the version one that no earlier sample can reach. "
               "Transaction::load and store enter the variable in the used set on every path; load returns the transaction's own value when there is one, else the variable's value, read under its lock with, or before, the version compared with the sample. "
               "Nothing else changes a variable's content, the clock only advances, and variables are identified by the address of their shared data.")
ASSUMPTIONS = ["transaction closures have no effect outside the transaction and do not hide a failed load", "the clock does not overflow"]
NOTE = "All paths of the public operations of the crate; atomicity follows from the TL2 argument, whose premises are the obligations."

M = "stronghold_stm::stm::"
RW, RO = M + "stm::Stm::read_write", M + "stm::Stm::read_only"
TX, TV = M + "transaction::Transaction", M + "tvar::TVar"
DATA = M + "tvar::TVarData"
LOCK = r"(Mutex|RwLock|ReentrantMutex|FairMutex)::(lock|try_lock\w*|write|try_write\w*|read|try_read\w*)$"
ATOMIC = r"sync::atomic::Atomic\w*::(\w+)$"
NEG = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}
SWAP = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
ADAPT = r"Iterator(>)?::(filter|filter_map|skip|skip_while|take|take_while|step_by|map_while|rev|nth|last)$|::(truncate|drain|split_off|retain|pop|swap_remove|dedup\w*|reverse|sort\w*|rotate\w*|swap|remove)$"
SET = r"(HashSet|HashMap|BTreeSet|BTreeMap|Vec)::(iter|iter_mut|keys|values|drain|into_iter|into_keys|into_values)$|IntoIterator(>)?::into_iter$"
STEP = r"Iterator(>)?::(next|map|for_each|try_for_each|fold|try_fold|all|any|collect)$|Extend(>)?::extend$|FromIterator(>)?::from_iter$"
FN = r"ops::function::Fn(Mut|Once)?(>)?::call(_mut|_once)?$"


def chain(v):
    return p19.chain(v) if v[0] in ("ptr", "init", "call", "arg", "cb") else ((v[0], v[1]), ())


class Tx(Policy):
    """creating the transaction and copying values are boundaries"""
    def opaque(self, b):
        return bool(re.search(r"transaction::Transaction::new$|clone::Clone>::clone$", b.path))


def locks(a):
    return [b for b in a.calls(LOCK, ext=True) if DATA in str(a.call(b).targs) or DATA in str(a.g.ty_of_op(a.call(b).args[0]))]


def clock_ops(a):
    """atomic operations on the global clock: (block, method)"""
    return [(b, re.search(ATOMIC, a.call(b).path).group(1)) for b in a.calls(ATOMIC, ext=True)
            if any(".clock" in chain(v)[1] for v in a.arg_vals(b, 0))]


def content(a, blk, idx, op):
    out = set()
    for v in a.f.vals(blk, idx, op):
        if v[0] == "ptr":
            out |= set(a.f.trace(blk, idx, v[1], v[2])) or {v}
        else:
            out.add(v)
    return out


def lin(a, v, depth=8):
    """the integers v can be: set of (atom or None, constant)"""
    if depth > 0 and v[0] == "k":
        m = re.match(r"-?\d+", str(v[1][-1]))
        if m:
            return {(None, int(m.group(0)))}
    x = y = None
    if depth > 0 and v[0] == "op":
        rv = a.g.blocks[v[1]].stmts[v[2]][2]
        if rv[0] == "bin" and re.match(r"(Add|Sub)", rv[1]):
            s = 1 if rv[1].startswith("Add") else -1
            x, y = content(a, v[1], v[2], rv[2]), content(a, v[1], v[2], rv[3])
    elif depth > 0 and v[0] == "call":
        m = re.search(r"::(?:wrapping|saturating|unchecked)_(add|sub)$|arith::(Add|Sub)(?:>)?::(?:add|sub)$", a.call(v[1]).path or "")
        if m:
            s = 1 if (m.group(1) or m.group(2)).lower() == "add" else -1
            x, y = a.raw_vals(v[1], 0), a.raw_vals(v[1], 1)
    if x is None:
        return {(v, 0)}
    out = set()
    for i in x:
        for j in y:
            for (p, c) in lin(a, i, depth - 1):
                for (q, d) in lin(a, j, depth - 1):
                    if q is None:
                        out.add((p, c + s * d))
                    elif p is None and s == 1:
                        out.add((q, c + d))
                    else:
                        out.add((v, 0))
    return out


def compare(a, v, neg=False, depth=6):
    """comparisons a boolean value stands for: (operator, left values, right values)"""
    if v[0] == "op":
        rv = a.g.blocks[v[1]].stmts[v[2]][2]
        if rv[0] == "bin" and rv[1] in NEG:
            yield NEG[rv[1]] if neg else rv[1], content(a, v[1], v[2], rv[2]), content(a, v[1], v[2], rv[3]), v[1]
        elif rv[0] == "un" and rv[1] == "Not" and depth:
            for x in a.f.vals(v[1], v[2], rv[2]):
                yield from compare(a, x, not neg, depth - 1)
    elif v[0] == "call" and not v[2]:
        c = a.call(v[1])
        m = re.search(r"cmp::Partial(?:Ord|Eq)(?:>)?::(lt|le|gt|ge|eq|ne)$", c.tpath or c.path or "") or re.search(r"cmp::Partial(?:Ord|Eq)(?:>)?::(lt|le|gt|ge|eq|ne)$", c.path or "")
        if m:
            o = m.group(1).capitalize()
            yield NEG[o] if neg else o, a.arg_content(v[1], 0), a.arg_content(v[1], 1), v[1]
        elif re.search(r"Iterator(>)?::(all|any)$", c.path or "") and depth:
            # `all` is false when one element's verdict is, `any` true when one's is
            for (_, rt) in c.cbs:
                for x in a.f.trace(v[1], a.nblk(v[1]), ("v", rt), ()):
                    yield from compare(a, x, neg, depth - 1)


def tests(a):
    """decisions on a comparison: (block, operator, left, right, evaluated at, {truth: exploded nodes})"""
    for b in a.g.blocks:
        if b.id not in a.e.reached or b.kind != "switch":
            continue
        for v in a.f.vals(b.id, len(b.stmts), b.op):
            for (o, l, r, at) in compare(a, v):
                out = {True: [], False: []}
                for i in a.e.byblk.get(b.id, []):
                    for s in a.e.succ[i]:
                        t = not any(str(lab) == "0" and x == a.e.nodes[s][0] for lab, x in zip(b.labels, b.succ))
                        out[t].append(s)
                yield b.id, o, l, r, at, out


def field(v, name):
    n = chain(v)[1] if v[0] in ("init", "call", "arg", "ptr", "cb") else ()
    return bool(n) and n[-1] == name


def shared_version(a, v):
    """a version read from a variable's shared data (through its lock, or a collected guard), not a transaction's own"""
    if v[0] not in ("init", "cb", "call") or not field(v, ".version"):
        return False
    r = chain(v)[0]
    if r[0] == "call":
        return not a.call(r[1]).path.endswith("Transaction::new")
    return r[0] == "cb" or r[0] == "arg" and r[1] > 0


def data_stores(a, f):
    """changes of that field of a variable's shared data, or of all of it"""
    out = set(stores(a, f, re.escape(DATA)))
    for b in a.g.blocks:
        if b.id not in a.e.reached:
            continue
        for i, st in enumerate(b.stmts):
            if st[0] == "=" and st[1][1] and st[1][1][-1] == "*" and a.g.ty_of_place(st[1])[:2] == ("adt", DATA):
                out.add((b.id, i))
        if b.kind == "call" and b.call is not None and b.call.args and re.search(r"core::mem::(replace|swap|take)$|ptr::(write|replace|swap)$|clone_from$|clone_into$", b.call.path or ""):
            if DATA in str(a.g.ty_of_op(b.call.args[0])) and "MutexGuard" not in str(a.g.ty_of_op(b.call.args[0])) or field_of(a, b.id, 0, ("." + f,)):
                out.add((b.id, None))
    return sorted(out, key=str)


def stored_vals(a, s, f):
    b, i = s
    if i is None:
        return set(a.arg_content(b, 1)) if len(a.call(b).args) > 1 else set()
    st = a.g.blocks[b].stmts[i]
    if st[2][0] != "use":
        return set(a.f.trace(b, i + 1, *a.f.resolve(b, i, st[1])[0]))
    whole_ = st[1][1][-1] == "*"
    return set(a.f.vals_path(b, i, st[2][1], ("." + f,) if whole_ else ()))


def on_arg(a, b, i, n):
    return any(v[0] in ("ptr", "init", "arg") and chain(v)[0] == ("arg", n) for v in a.arg_vals(b, i))


def enters(a):
    """insertions, keyed by the variable passed in (argument 1), into a container of the transaction (argument 0): {field: blocks}"""
    out = {}
    for b in a.calls(r"(HashSet|HashMap|BTreeSet|BTreeMap)::(insert|replace)$|Vec::push$"):
        if on_arg(a, b, 0, 0) and any(chain(v)[0] == ("arg", 1) or has_arg(a.f.deps({v}), 1) for v in a.arg_vals(b, 1)):
            for v in a.arg_vals(b, 0):
                out.setdefault(owner(v), set()).add(b)
    return out


def sources(a, blk, fields):
    """iteration sources of the iterator at blk that run over one of the transaction's fields; all dependencies up to them"""
    d = a.arg_deps(blk, 0)
    src = set(v[1] for v in d if v[0] in ("call", "mut") and re.search(SET, a.call(v[1]).path or "") and a.call(v[1]).args)
    return {s for s in src if any(owner(v) in fields for v in a.arg_vals(s, 0) if v[0] in ("ptr", "init", "arg"))}, d


def check(cx):
    prog = cx.prog
    used = transaction(cx)
    if used:
        read_write(cx, used)
    read_only(cx)
    surroundings(cx)


def transaction(cx):
    # store
    a = cx.an(TX + "::store", Tx())
    es = enters(a)
    new = {f for f, bs in es.items() if any(len(a.call(b).args) > 2 and has_arg(a.arg_deps(b, 2), 2) for b in bs)}
    for f in sorted(x for x in es if x):
        w = a.search(a.entry(), a.rets("Ok") or a.rets(), avoid=es[f])
        if f in new:
            cx.ob("store-value", "store", w is None, "", "" if w is None else "a stored value is not recorded: " + a.show(w))
            for b in es[f]:
                t = a.f.deps(a.arg_vals(b, 2) | a.arg_content(b, 2))
                cx.ob("store-value", "store:own", has_arg(t, 2) and not any(x[0] == "init" and x[1] == ("o", ("arg", 1)) for x in t), a.where(b), "the value recorded is not the one stored")
    cx.floor("stored values", len(new), 1)
    s_used = {f for f in es if f and a.search(a.entry(), a.rets("Ok") or a.rets(), avoid=es[f]) is None}
    # load
    a = cx.an(TX + "::load", Tx())
    el = enters(a)
    look = [b for b in a.calls(r"(HashMap|BTreeMap)::(get|get_mut|contains_key|get_key_value|entry)$|ops::index::Index(>)?::index$") if any(owner(v) in new for v in a.arg_vals(b, 0) if v[0] in ("ptr", "init", "arg"))]
    cx.floor("lookups of own writes", len(look), 1)
    for b in look:
        cx.ob("own-key", "load", on_arg(a, b, 1, 1), a.where(b), "the transaction's own value of another variable is looked up")
    none = a.under(None, lambda blk: {(): "0" if a.call(blk).path.endswith("contains_key") else "VNone"} if blk in look else None)
    some = a.under(None, lambda blk: {(): "1" if a.call(blk).path.endswith("contains_key") else "VSome"} if blk in look else None)
    l_used = {f for f in el if f and none.search(none.entry(), none.rets("Ok"), avoid=el[f]) is None}
    used = s_used & l_used
    cx.ob("used-recorded", "load and store", bool(used), "", "no set of used variables is filled on every path of both load (into %s) and store (into %s)" % (sorted(l_used), sorted(s_used)))
    own = [b for b in look if not a.call(b).path.endswith("contains_key")]
    w = some.search(some.entry(), locks(a))
    cx.ob("own-write", "load", w is None, "", "" if w is None else "the shared value is read although the transaction has its own: " + some.show(w))
    w = some.search(some.entry(), some.rets("Ok"), avoid=own)
    cx.ob("own-write", "load:returned", w is None, "", "" if w is None else "the own value is not what is returned: " + some.show(w))
    if own:
        w = some.search(some.entry(), own)
        cx.ob("own-write", "load:reachable", w is not None, "", "the transaction's own value is never consulted")
    # the shared value, read under the lock, and its version
    lk = locks(a)
    cx.floor("locks of the variable in load", len(lk), 1)
    for b in lk:
        cx.ob("right-variable", "load", on_arg(a, b, 0, 1), a.where(b), "another variable is read")
    w = none.search(none.entry(), none.rets("Ok"), avoid=lk)
    cx.ob("shared-read", "load", w is None, "", "" if w is None else "a value is returned without reading the variable: " + none.show(w))
    chk = []
    for (b, o, l, r, at, out) in tests(a):
        for x, y, op in ((l, r, o), (r, l, SWAP[o])):
            if any(chain(v) == (("arg", 0), (".version",)) or chain(v) == (("arg", 0), ("@", ".version")) for v in x) and any(shared_version(a, v) for v in y):
                # x: the sample, y: the variable's version; stale when y > x
                bad = {"Ge": False, "Lt": True, "Gt": False, "Eq": False, "Ne": True}.get(op)
                chk.append((b, op, out, bad, at))
    for b, op, out, bad, at in chk:
        cx.ob("version-bound", "load", bad is not None, a.where(b), "a newer version than the sample passes the check")
        if bad is not None:
            w = a.search(out[bad], a.rets("Ok"))
            cx.ob("stale-read", "load", w is None, a.where(b), "" if w is None else "a value newer than the sample is returned: " + a.show(w))
    w = none.search(none.entry(), none.rets("Ok"), avoid=[c[0] for c in chk])
    cx.ob("version-checked", "load", bool(chk) and w is None, "", "the version is not compared with the sample: " + (none.show(w) if w else ""))
    # no lock section after the one in which the compared version was read provides the value
    vread = section_reads(a, ".version", {c[4] for c in chk})
    dread = section_reads(a, ".value", None)
    bad = None
    for v in vread:
        for m in lk:
            if a.search(a.after(v) or a.e.byblk.get(v, []), [m], avoid=()) and not (v == m):
                if a.search(a.after(m), dread):
                    bad = (v, m)
    cx.ob("version-after-value", "load", bad is None, a.where(bad[0]) if bad else "", "the version compared is read before the value, in an earlier lock section: a commit in between goes unnoticed")
    return used


def section_reads(a, f, cmps):
    """blocks reading that field of the argument's shared data (for versions: those that reach a comparison)"""
    out = set()
    for b in a.g.blocks:
        if b.id not in a.e.reached:
            continue
        for i, st in enumerate(b.stmts):
            ops = []
            if st[0] == "=":
                rv = st[2]
                pls = [x[1] for x in rv[1:] if isinstance(x, tuple) and x and x[0] == "p"] + ([rv[1]] if rv[0] == "ref" else [])
                for pl in pls:
                    if pl[1] and ("f", f[1:]) in pl[1] and DATA in str(a.g.ty_of_place((pl[0], pl[1][:pl[1].index(("f", f[1:]))]))):
                        out.add(b.id)
        if b.kind == "call" and b.call is not None and b.call.args and re.search(r"clone::Clone(>)?::clone$", (b.call.path or "")) and f == ".value":
            t = a.g.ty_of_op(b.call.args[0])
            if t[0] == "ref" and t[1][:2] == ("adt", DATA):
                out.add(b.id)
    if cmps is not None:
        # only reads whose result the comparison uses
        keep = set()
        for c in cmps:
            for x in out:
                if a.search(a.e.byblk.get(x, []), [c]):
                    keep.add(x)
        # the last ones before the comparison
        out = {x for x in keep if not any(y != x and a.search(a.after(x) or a.e.byblk.get(x, []), [y]) and a.search(a.e.byblk.get(y, []), list(cmps)) for y in keep)}
    return out


def runs(cx, a, n):
    """calls of the transaction closure, and the obligations on the sample taken before"""
    cs = [b for b in a.calls(FN) if any(v[0] in ("ptr", "arg", "init") and chain(v)[0] == ("arg", 1) for v in set(a.arg_vals(b, 0)) | set(a.arg_content(b, 0)))]
    cx.floor("transaction closure runs in " + n, len(cs), 1)
    return cs


def fresh_sample(cx, a, n, cs):
    """every run of the closure works on a transaction created, with the clock's value, since the last run"""
    news = a.calls(r"transaction::Transaction::new$")
    ck = {b for b, m in clock_ops(a) if m == "load"}
    samples = set()
    for b in news:
        vs = set(a.raw_vals(b, 0))
        s = {v[1] for v in vs if v[0] == "call"} & ck
        cx.ob("sample-clock", n, bool(s) and all(v[0] == "call" and v[1] in ck for v in vs), a.where(b), "the transaction's version is not a sample of the clock")
        samples |= s
    for c in cs:
        d = set(v[1] for v in a.f.deps(a.arg_vals(c, 1) | a.arg_content(c, 1)) if v[0] == "call")
        cx.ob("own-transaction", n, bool(d & set(news)), a.where(c), "the closure does not run on a transaction created here")
        for what, ev in (("transaction", set(news)), ("clock sample", samples)):
            for st in (a.entry(), a.after(c)):
                w = a.search(st, [c], avoid=ev)
                cx.ob("fresh-" + what.split()[0], n, w is None, a.where(c), "" if w is None else "the closure runs again without a new %s: %s" % (what, a.show(w)))
    for c in cs:
        w = a.search(a.fail(c), a.rets("Ok"), avoid=cs)
        cx.ob("failed-run", n, w is None, a.where(c), "" if w is None else "success is reported although the closure failed: " + a.show(w))
    w = a.search(a.entry(), a.rets("Ok"), avoid=cs)
    cx.ob("runs", n, w is None, "", "" if w is None else "success is reported without running the closure: " + a.show(w))
    return news, samples


def read_only(cx):
    a = cx.an(RO, Tx())
    cs = runs(cx, a, "read_only")
    fresh_sample(cx, a, "read_only", cs)
    cx.ob("no-writes", "read_only", not data_stores(a, "value") and not data_stores(a, "version"), "", "a read-only transaction changes a variable")


def read_write(cx, used):
    n = "read_write"
    a = cx.an(RW, Tx())
    cs = runs(cx, a, n)
    news, samples = fresh_sample(cx, a, n, cs)
    again = set(cs)
    ok = a.rets("Ok")
    sv, sver = data_stores(a, "value"), data_stores(a, "version")
    cx.floor("value writes", len(sv), 1)
    cx.floor("version writes", len(sver), 1)
    done = sorted({s[0] for s in sv + sver}) + list(ok)
    # ---- every used variable is locked
    lk = locks(a)
    cx.floor("locks in read_write", len(lk), 1)
    its = {}
    for b in a.calls(STEP):
        if not a.call(b).path.endswith("next") and not a.call(b).cbs:
            continue
        s, d = sources(a, b, used)
        if s:
            its[b] = d
    lits = {}
    for L in lk:
        roots = {chain(v)[0] for v in a.arg_vals(L, 0)}
        e = {r[1] for r in roots if r[0] in ("call", "cb")} & set(its)
        inner = {x for x in its if a.call(x).cbs and in_cb(a, L, x)}
        cx.ob("lock-used", n, bool(e) or bool(inner), a.where(L), "a lock is taken on something else than an element of the used variables")
        for x in e or inner:
            lits.setdefault(x, set()).add(L)
    for x, ls in lits.items():
        cx.ob("lock-all", n + ":all", not calls_in(its[x], a, ADAPT), a.where(x), "only some of the used variables are locked")
        st, nx = loop_body(a, x)
        w = a.search(st, ok_again(a, nx) + done, avoid=ls | again)
        cx.ob("lock-all", n, w is None, a.where(x), "" if w is None else "a used variable is not locked: " + a.show(w))
    for L in lk:
        fl = a.fail(L)
        w = a.search(fl, done + [("n", i) for x in lits for i in a.e.byblk.get(x, []) if a.call(x).path.endswith("next")], avoid=set(lk) | again)
        cx.ob("lock-failed", n, w is None, a.where(L), "" if w is None else "the transaction goes on without the lock: " + a.show(w))
    heads = set()
    for x in lits:
        heads |= {x}
    w = a.search([s for c in cs for s in a.after(c)], done, avoid=heads | again)
    cx.ob("locked", n, bool(heads) and w is None, "", "" if w is None else "variables are written without locking the used ones: " + a.show(w))
    # ---- clock advances after locking
    co = clock_ops(a)
    adv = [b for b, m in co if m == "fetch_add"]
    cx.floor("clock advances", len(adv), 1)
    w = a.search([s for c in cs for s in a.after(c)], sorted({s[0] for s in sv + sver}), avoid=set(adv) | again)
    cx.ob("clock-advanced", n, w is None, "", "" if w is None else "variables are written without advancing the clock: " + a.show(w))
    for b in adv:
        w = a.search(a.after(b), lk, avoid=again)
        cx.ob("lock-before-clock", n, w is None, a.where(b), "" if w is None else "a variable is locked after the clock was advanced: " + a.show(w))
    # ---- validation
    ld = {b for b, m in co if m == "load"}

    def is_sample(v):
        return v[0] == "call" and (v[1] in samples and not v[2] or v[1] in news and v[2] == (".version",)) or v[0] in ("init", "ptr") and field(v, ".version") and not shared_version(a, v)

    vchk, skips = [], []
    for (b, o, l, r, at, out) in tests(a):
        for x, y, op in ((l, r, o), (r, l, SWAP[o])):
            if any(is_sample(v) for v in x) and any(shared_version(a, v) for v in y) and all(is_sample(v) for v in x):
                bad = {"Ge": False, "Lt": True, "Gt": False, "Eq": False, "Ne": True}.get(op)
                vchk.append((b, at, out, bad))
                break
        else:
            sk = skip_bound(a, l, r, o, is_sample, ld, adv, lk, again)
            if sk is not None:
                skips.append((b, out, sk))
    for b, at, out, bad in vchk:
        cx.ob("version-bound", n, bad is not None, a.where(b), "a newer version than the sample passes the validation")
        if bad is not None:
            w = a.search(out[bad], done, avoid=again)
            cx.ob("stale-abandons", n, w is None, a.where(b), "" if w is None else "an outdated variable does not abandon the attempt: " + a.show(w))
        w = a.search(a.e.byblk.get(at, []), lk, avoid=again)
        cx.ob("validate-locked", n, w is None, a.where(b), "" if w is None else "a version is validated before all variables are locked: " + a.show(w))
    # loop of the validation: the innermost iteration whose elements are compared
    vb = {c[1] for c in vchk} | {c[0] for c in vchk}
    vheads = set()
    for x in a.calls(STEP):
        st, nx = loop_body(a, x) if (a.call(x).path.endswith("next") or a.call(x).cbs) else ([], [])
        if st and x not in lits and not a.call(x).path.endswith("collect") and a.search(st, list(vb), avoid=again | set(nx)) and guards_iter(a, x):
            if set(sv and [s[0] for s in sv]) and a.search(st, [s[0] for s in sv], avoid=set(nx) | again):
                pass
            vheads.add(x)
            w = a.search(st, list(nx) + done, avoid=vb | again)
            cx.ob("validate-all", n, w is None, a.where(x), "" if w is None else "a locked variable is not validated: " + a.show(w))
            d = a.arg_deps(x, 0)
            cx.ob("validate-all", n + ":all", not calls_in(d, a, ADAPT), a.where(x), "only some of the locked variables are validated")
    inline = {b for b in vb for x in lits if x not in vheads and a.search(loop_body(a, x)[0], [b], avoid=again | set(loop_body(a, x)[1]))}
    vh = vheads | inline
    cx.floor("validations", len(vh), 1)
    start = [s for x in lits for s in a.after(x)] or [s for c in cs for s in a.after(c)]
    sblk = {b for b, _, _ in skips}
    w = a.search([s for c in cs for s in a.after(c)], done, avoid=vh | sblk | again)
    cx.ob("validated", n, w is None, "", "" if w is None else "the transaction commits without validating: " + a.show(w))
    for b, out, edge in skips:
        w = a.search(out[edge], done, avoid=vh | again)
        cx.ob("skip-validation", n, w is None, a.where(b), "" if w is None else "validation is skipped although another transaction may have committed: " + a.show(w))
    # ---- commit
    for s in sver:
        for v in stored_vals(a, s, "version"):
            okv = False
            for (p, k) in lin(a, v):
                okv = p is not None and p[0] == "call" and (p[1] in adv and k >= 1 or p[1] in ld and k >= 0 and later(a, p[1], adv, cs))
            cx.ob("version-written", n, okv, a.where(s[0]), "the version written is not one reached by advancing the clock")
        w = a.search(a.entry(), [s[0]], avoid=adv)
        cx.ob("write-after-clock", n, w is None, a.where(s[0]), "" if w is None else "written before the clock was advanced: " + a.show(w))
    b1, b2 = {s[0] for s in sv}, {s[0] for s in sver}
    for nm, p, q in (("value", b1, b2), ("version", b2, b1)):
        if p & q:
            continue
        steps = [x for x in a.calls(r"Iterator(>)?::next$") if a.search(a.after(x), list(p), avoid=again)]
        for x in p:
            w = a.search(a.e.byblk.get(x, []), steps + list(ok), avoid=q)
            w2 = a.search([s for y in steps for s in a.after(y)], [x], avoid=q) if w else None
            cx.ob("both-written", n + ":" + nm, w is None or w2 is None, a.where(x), "" if w is None else "only the %s is written: %s" % (nm, a.show(w)))
    for s in sv:
        for v in stored_vals(a, s, "value"):
            d = a.f.deps({v}, cutter(a, r"(HashMap|BTreeMap)::(get|remove|get_mut|iter|get_key_value)$"))
            g = [x[1] for x in d if x[0] == "call" and re.search(r"(HashMap|BTreeMap)::(get|remove|get_mut|iter|get_key_value)$", a.call(x[1]).path)]
            if not g and v[0] == "call" and re.search(r"Vec(Deque)?::(new|with_capacity)$", a.call(v[1]).path):
                continue        # what an empty collection would yield
            cx.ob("value-written", n, bool(g), a.where(s[0]), "the value written is not the one stored in the transaction")
            for x in g:
                if len(a.call(x).args) > 1:
                    k = {chain(w)[0] for w in a.arg_vals(x, 1)}
                    el = {chain(w)[0] for L in lk for w in a.arg_vals(L, 0)} | {(t, y) for t in ("call", "cb") for y in its}
                    cx.ob("value-of-variable", n, bool(k) and k <= el, a.where(x), "the value is looked up for another variable than the one locked")
        d = a.f.deps(stored_vals(a, s, "value"))
        zips = calls_in(d, a, ADAPT)
        cx.ob("pairing", n, not zips, a.where(s[0]), "values and locked variables are paired up differently")
    # one guard and one value are collected per element
    for x, ls in lits.items():
        if not a.call(x).path.endswith("next"):
            continue
        st, nx = loop_body(a, x)
        ks = [k for k in a.calls(r"Vec(Deque)?::(push|push_back|insert|push_front)$") if a.search(st, [k], avoid=set(nx) | again)]
        for k in ks:
            w = a.search(st, list(nx), avoid=[k] + list(again))
            cx.ob("collect-each", n, w is None, a.where(k), "" if w is None else "values and locks get out of step: " + a.show(w))
            cx.ob("collect-order", n, bool(re.search(r"Vec::push$|::push_back$", a.call(k).path)), a.where(k), "values and locks are collected in different order")
    # every recorded value is written
    pairs = [x for x in a.calls(r"Iterator(>)?::next$") if a.search(a.e.seed(x, {(): "VSome"}), sorted(b1), avoid=[x] + list(again))]
    for x in pairs:
        t = str(a.g.ty_of_op(a.call(x).args[0]))
        if x in lits or not re.search(r"MutexGuard|SharedValue", t):
            continue
        u = [s for s in a.e.seed(x, {(): "VSome"})]
        sw = none_edges(a, x)
        w = a.search(u, [x] + list(ok), avoid=b1 | sw | again)
        cx.ob("write-all", n, w is None, a.where(x), "" if w is None else "a stored value is not written: " + a.show(w))
        d = a.arg_deps(x, 0)
        cx.ob("write-all", n + ":all", not calls_in(d, a, ADAPT), a.where(x), "only some of the stored values are written")
    w = a.search([s for c in cs for s in a.after(c)], list(ok), avoid=set(pairs) | b1 | again)
    cx.ob("commits", n, w is None, "", "" if w is None else "success is reported without writing: " + a.show(w))


def none_edges(a, x):
    """blocks entered only when the fetched pair holds no value"""
    out = set()
    for b in a.g.blocks:
        if b.kind != "switch" or b.id not in a.e.reached:
            continue
        for st in b.stmts:
            if st[0] == "=" and st[2][0] == "discr":
                vs = a.f.resolve(b.id, len(b.stmts), st[2][1])
                t = a.g.ty_of_place(st[2][1])
                if t[0] == "adt" and t[1] == "core::option::Option" and "SharedValue" in str(t[2]) and "Guard" not in str(t[2]):
                    for lab, y in zip(b.labels, b.succ):
                        if str(lab) in ("0", "None", "VNone"):
                            out.add(y)
    return out


def in_cb(a, blk, x):
    c = a.g.blocks[blk].ctx
    c = a.g.ctxs[c] if isinstance(c, int) else c
    while c is not None:
        if c.body in a.call(x).cbb:
            return True
        c = c.parent if not isinstance(c.parent, int) else a.g.ctxs[c.parent]
    return False


def guards_iter(a, x):
    return "Guard" in str(a.g.ty_of_op(a.call(x).args[0])) or any("Guard" in str(t) for t in a.call(x).targs)


def later(a, load, adv, cs):
    """the clock is read after this attempt advanced it"""
    return a.search([s for c in cs for s in a.after(c)], [load], avoid=set(adv) | set(cs)) is None


def skip_bound(a, l, r, o, is_sample, ld, adv, lk, again):
    """a comparison of the clock with the sample: the truth value at which other commits are possible (True, False or 'both')"""
    for x, y, op in ((l, r, o), (r, l, SWAP[o])):
        for v in x:
            for (p, c) in lin(a, v):
                if p is None or p[0] != "call" or p[1] not in ld | set(adv) or is_sample(p):
                    continue
                for w in y:
                    for (q, d) in lin(a, w):
                        if q is None or not is_sample(q):
                            continue
                        # p + c op q + d; other commits are excluded when p - q <= k
                        if p[1] in adv:
                            k = 0
                        elif a.search([s for e in again for s in a.after(e)], [p[1]], avoid=set(adv) | set(again)) is None:
                            k = 1
                        elif a.search(a.after(p[1]), lk, avoid=again) is None:
                            k = 0
                        else:
                            k = -1 << 40
                        m = d - c          # p - q op m
                        lim = {"Gt": m, "Ge": m - 1, "Ne": m, "Eq": m, "Le": m, "Lt": m - 1}[op]
                        need = op in ("Gt", "Ge", "Ne")     # truth value at which validation is needed
                        return need if lim <= k else not need
    return None


def surroundings(cx):
    prog = cx.prog
    bodies = [b for b in prog.bodies.values() if b.local and b.crate.name == "stronghold_stm" and (b.path.startswith(M) or "<" + M in b.path)]
    cx.floor("stm functions", len(bodies), 10)
    cg = {}
    ops = []
    for b in sorted(bodies, key=lambda b: b.path):
        if "{{closure" in b.path:
            continue
        s = short(b.path)
        if not b.pub and "Stm::" not in b.path:
            continue
        try:
            a = cx.an(b, NoOpaque())
        except Exception as e:
            if type(e).__name__ != "TooBig":
                raise
            continue
        if b.path != RW:
            w = [x for f in ("value", "version") for x in data_stores(a, f)]
            taken = re.search(r"tvar::TVar::(take|new)$", b.path)
            if b.pub and not commit_part(b):
                cx.ob("only-commits-write", s, not w or bool(taken), a.where(w[0][0]) if w else "", "a variable is changed outside a committing transaction")
        for blk, m in clock_ops(a):
            if m not in ("load", "fetch_add"):
                cx.ob("clock-advances", s + ":" + m, False, a.where(blk), "the clock is changed otherwise than by advancing it")
            if m == "fetch_add":
                d = {x for v in a.raw_vals(blk, 1) for x in lin(a, v)}
                cx.ob("clock-advances", s, bool(d) and all(p is None and 0 < k < 1 << 32 for p, k in d), a.where(blk), "the clock is not advanced by a positive number")
            o = a.call(blk).args[1 if m == "load" else 2]
            var = variants(a, blk, o)
            want = {"SeqCst", "Acquire"} if m == "load" else {"SeqCst", "AcqRel"}
            cx.ob("clock-ordering", s + ":" + m, bool(var) and var <= want, a.where(blk), "the clock is accessed with ordering %s" % "/".join(sorted(map(str, var))))
    # identity of variables
    for tr, n in (("core::cmp::PartialEq", "eq"), ("core::hash::Hash", "hash")):
        for e in prog.impl_by_trait.get(tr, []):
            if e["self_t"][:2] != ("adt", TV):
                continue
            b = prog.by_path.get("<%s as %s>::%s" % (TV, tr, n))
            if not b:
                continue
            a = cx.an(b if not isinstance(b, list) else b[0], NoOpaque())
            cx.ob("identity", n, not locks(a), "", "variables are told apart by their content")
            if n == "eq":
                r = a.f.deps(ret_deep(a))
                cx.ob("identity", "eq:both", addr(a, 0) and addr(a, 1), "", "equality does not compare the addresses of the shared data")
            else:
                cx.ob("identity", "hash:data", addr(a, 0), "", "the hash is not that of the address of the shared data")
    a = cx.an("<%s as core::clone::Clone>::clone" % TV, NoOpaque())
    cp = a.calls(r"Arc(<.*>)?( as .*)?(>)?::clone$")
    w = a.search(a.entry(), a.rets(), avoid=cp)
    cx.ob("identity", "clone", w is None and not a.calls(r"Arc::new$"), "", "a copy of a variable does not share its data")


def commit_part(b):
    return any("MutexGuard" in str(t) for t in b.locals[1:b.argc + 1])


def variants(a, blk, op):
    out = set()
    for v in a.f.vals(blk, a.nblk(blk), op):
        if v[0] == "agg":
            out.add(a.g.blocks[v[1]].stmts[v[2]][2][1][2])
        elif v[0] == "k":
            out.add(str(v[1][-1]).rsplit("::", 1)[-1])
        else:
            out.add("?")
    return out


def addr(a, n):
    """the address of argument n's shared data is taken"""
    for b in a.g.blocks:
        if b.id not in a.e.reached:
            continue
        if b.kind == "call" and b.call is not None and re.search(r"Arc(<.*>)?( as .*)?(>)?::(deref|ptr_eq|as_ptr|as_ref)$", b.call.path or ""):
            for i in range(len(b.call.args)):
                if any(chain(v)[0] == ("arg", n) and ".data" in chain(v)[1] for v in a.arg_vals(b.id, i) if v[0] in ("ptr", "init", "arg")):
                    return True
    return False
