"""P08: public operations cannot deadlock against each other."""
from .common import *
from .p19 import chain
from .p11 import Steps, EXEC, REVOKE
from ..flow import Flow

TECHNIQUE = "interprocedural lock-order analysis: guard lifetimes on the inlined MIR flow graphs of every public operation, class-level acquisition graph checked for cycles"
EXPLANATION = ("Every public operation (client library, procedure runner, key provider, guarded-memory types) is inlined into one flow graph. Each blocking lock acquisition is given a class (type of the protected data and field "
               "that holds the lock). A guard lives from the acquisition to the drop of the value that holds it, on every path; each acquisition reached while a guard is alive adds an edge. The union of these edges over all "
               "operations must have no cycle, and an edge from a class to itself (same or other instance) is a violation of its own. No operation waits for anything else (channels, condition variables, joins, sleeping) while it holds "
               "a lock, and closures handed to the library's callback operations by procedures take no lock.")
ASSUMPTIONS = ["std's RwLock and Mutex release their waiters eventually", "a poisoned lock is reported, not waited for"]
NOTE = "All acquisitions of Mutex and RwLock reachable from the public operations; caller-supplied closures (get_guard) are the caller's."

LOCK = r"::(RwLock::(read|write)|Mutex::lock)$"
GUARD = re.compile(r"(MutexGuard|RwLockReadGuard|RwLockWriteGuard)$")
WAIT = re.compile(r"condvar::Condvar::wait|::(Receiver|SyncSender)::(recv\w*|send|iter)$|::Barrier::wait|thread::(park\w*|sleep\w*)$|JoinHandle::join$|ScopedJoinHandle::join$|hint::spin_loop$|thread::(yield_now|scope)$|reentrant")


def guards_in(prog, t, depth=0):
    """access paths of the lock guards held in a value of that type"""
    if t[0] == "tuple":
        return [((".%d" % i,) + p) for i, x in enumerate(t[1]) for p in guards_in(prog, x, depth + 1)]
    if t[0] != "adt" or depth > 5:
        return []
    if GUARD.search(t[1]):
        return [()]
    out = []
    if t[1].endswith(("option::Option", "result::Result")):
        for vn, x in zip((":Some",) if "option" in t[1] else (":Ok", ":Err"), t[2]):
            out += [(vn, ".0") + p for p in guards_in(prog, x, depth + 1)]
        return out
    if t[1].endswith("PoisonError"):
        return [(".data",) + p for p in guards_in(prog, t[2][0], depth + 1)]
    ad = prog.adts.get(t[1])
    if ad is None:
        return [p for x in t[2] for p in guards_in(prog, x, depth + 1)] if GUARD.search(str(t)) else []
    from ..ir import subst
    s = dict(zip(ad["generics"], t[2]))
    for v in ad["variants"]:
        for f in v["f"]:
            pre = (":" + v["n"],) if ad["kind"] == "enum" else ()
            out += [pre + ("." + f["n"],) + p for p in guards_in(prog, prog.norm(subst(f["t"], s)), depth + 1)]
    return out


def root_call(v):
    """the call a guard value came from"""
    for _ in range(6):
        if v[0] == "call":
            return v[1]
        if v[0] in ("init", "ptr") and v[1][0] == "o":
            v = v[1][1]
            continue
        return None
    return None


def unwrap(a, v, acq):
    """acquisition a guard value stems from"""
    b = root_call(v)
    for _ in range(4):
        if b is None or b in acq:
            return b
        c = a.call(b)
        if c is None or not re.search(r"into_inner$|unwrap\w*$|expect$|map_err$|LockResult|::(ok|ok_or|map|branch|from_residual|from|into)$", c.path or ""):
            return None
        d = dep_blks(a.arg_deps(b, 0)) & acq
        b = next(iter(d)) if len(d) == 1 else None
    return None


def lock_class(a, blk):
    """(content type, fields): fields may be several when unknown"""
    c = a.call(blk)
    t = a.g.ty_of_op(c.args[0])
    while t[0] in ("ref", "ptr"):
        t = t[1]
    ct = re.sub(r"'\w+ |\s", "", tystr(t[2][0] if t[0] == "adt" and t[2] else t))
    fs = set()
    for v in a.arg_vals(blk, 0):
        if v[0] in ("ptr", "init", "arg", "cb", "call"):
            r, ch = chain(v)
            names = [x for x in ch if x != "@"]
            fs.add(names[-1] if names else "?")
        else:
            fs.add("?")
    return ct, frozenset(fs or {"?"})


def tystr(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == "adt":
        return t[1].split("::")[-1] + ("<" + ",".join(tystr(x) for x in t[2]) + ">" if t[2] else "")
    if t[0] == "param":
        return "_"
    return t[0] + "(" + ",".join(tystr(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"


def guard_flow(a):
    """value flow that keeps a guard apart from the data it protects"""
    def cut(flow, b, c, path, lv, subs):
        lv.add(("call", b.id, path))
        return True
    f = Flow(a.g, [("res", re.compile(LOCK), cut)])
    f.feasible = a.e.feasible
    return f


def ends(a, acq):
    """acquisition -> blocks where its guard is released"""
    out = {b: set() for b in acq}
    gf = guard_flow(a)
    for b in a.g.blocks:
        if b.id not in a.e.reached:
            continue
        if b.kind == "drop" and b.drop:
            for p in guards_in(a.prog, b.drop[1]):
                for v in gf.vals_path(b.id, len(b.stmts), ("p", b.drop[0], True), p):
                    x = unwrap(a, v, acq)
                    if x in out:
                        out[x].add(b.id)
        elif b.kind == "call" and b.call is not None and re.search(r"core::mem::drop$|ManuallyDrop::drop$|drop_in_place$", b.call.path or ""):
            for p in guards_in(a.prog, a.g.ty_of_op(b.call.args[0])):
                for v in gf.arg(b.id, 0, p):
                    x = unwrap(a, v, acq)
                    if x in out:
                        out[x].add(b.id)
    return out


def analyse(cx, item):
    p, pol = item
    a = cx.an(p, pol())
    acq = set(b for b in a.calls(LOCK, ext=True))
    inner = a.calls(EXEC + "|" + REVOKE) if pol is Steps else []
    cx.count("steps that lock the client", len(inner))
    if not acq:
        return [], 0, p
    end = ends(a, acq)
    edges = []
    waits = [b for b in a.calls(WAIT.pattern)]
    for x in sorted(acq):
        starts = a.e.seed(x, {(): "VOk"}) or a.after(x)
        hit = reach(a, starts, end[x])
        cx1 = lock_class(a, x)
        for y in sorted(set(inner) & hit):
            for c in (("KeyStore<Provider>", frozenset({".keystore"})), ("DbView<Provider>", frozenset({".db"}))):
                edges.append((cx1, c, a.where(x), a.where(y), p))
        for y in sorted((acq | set(waits)) & hit):
            if y in waits:
                cx.ob("no-wait", short(p), False, a.where(y), "waits for %s while holding the lock taken at %s" % (short(a.call(y).path), a.where(x)))
                continue
            edges.append((cx1, lock_class(a, y), a.where(x), a.where(y), p))
    return edges, len(acq), p


def reach(a, starts, avoid):
    e = a.e
    seen = set(starts)
    st = list(starts)
    out = set()
    while st:
        x = st.pop()
        b = e.nodes[x][0]
        out.add(b)
        if b in avoid:
            continue
        for y in e.succ[x]:
            if y not in seen:
                seen.add(y)
                st.append(y)
    return out


def check(cx):
    prog = cx.prog
    items = [(p, RuntimeOpaque) for p in public_ops(prog)]
    rt = [p for p in sorted(prog.by_path) if prog.by_path[p][0].crate.name == "runtime" and prog.by_path[p][0].local and "{{" not in p
          and re.search(r"memories::\w+::\w+::\w+$|runtime::boxed::Boxed::\w+$|^<runtime::(memories|boxed).* as .*(Clone|Drop|PartialEq|Zeroize|Debug|Serialize|Deserialize.*|ConstEq)>::\w+$", p)]
    items += [(p, NoOpaque) for p in rt]
    items += [(p, Steps) for p in sorted(prog.by_path) if re.search(r"types::client::Client::execute_procedure(_chained)?$", p)]
    kp = [p for p in sorted(prog.by_path) if re.search(r"security::keyprovider::KeyProvider::\w+$|KeyProvider>::try_unlock$", p) and "{{" not in p]
    items += [(p, RuntimeOpaque) for p in kp]
    cx.floor("operations analysed", len(items), 60)
    res = cx.par(items, analyse)
    total = sum(n for e, n, p in res)
    cx.floor("lock acquisitions", total, 30)
    raw = [e for es, n, p in res for e in es]
    fields = {}
    for x, y, *_ in raw:
        for t, fs in (x, y):
            fields.setdefault(t, set()).update(f for f in fs if f != "?")

    def names(c):
        fs = set(c[1])
        if "?" in fs:
            fs = (fs - {"?"}) | (fields[c[0]] or {"?"})
        return [c[0] + f for f in fs]
    edges = {}
    for x, y, wx, wy, p in raw:
        for u in names(x):
            for v in names(y):
                edges.setdefault((u, v), (wx, wy, p))
    cx.count("ordered pairs of lock classes", len(edges))
    succ = {}
    for u, v in edges:
        succ.setdefault(u, set()).add(v)
    for (u, v), (wx, wy, p) in sorted(edges.items()):
        if u == v:
            cx.ob("not-reacquired", "%s" % u, False, wy, "%s: %s is locked at %s while a lock of that kind taken at %s is held" % (short(p), u, wy, wx))
            continue
        back = path(succ, v, u)
        cx.ob("order", "%s<%s" % (u, v), back is None, wy, "" if back is None else "%s locks %s (%s) before %s (%s); the opposite order: %s" % (
            short(p), u, wx, v, wy, ", ".join("%s<%s in %s at %s" % (m, n, short(edges[(m, n)][2]), edges[(m, n)][1]) for m, n in zip(back, back[1:]))))
    for b in prog.bodies.values():
        if b.local and b.crate.name == "iota_stronghold" and re.search(r"procedures::(primitives|types)::", b.path) and "Runner>::" not in b.path:
            m = [x for x in mentions(b) if re.search(LOCK, x)]
            cx.ob("procedures-lock-nothing", short(b.path), not m, b.file, "a procedure, which runs while the client's locks are held, takes %s" % m)


def path(succ, a, b):
    prev = {a: None}
    st = [a]
    while st:
        x = st.pop(0)
        if x == b:
            out = []
            while x is not None:
                out.append(x)
                x = prev[x]
            return out[::-1]
        for y in succ.get(x, ()):
            if y not in prev:
                prev[y] = x
                st.append(y)
    return None
