"""P27: types shared between threads have no unsynchronised mutable state."""
from .common import *
from .p08 import LOCK, guards_in, guard_flow, ends, reach, tystr
from .p19 import chain
from ..ir import subst
from ..graph import TooBig

TECHNIQUE = "type walk below every hand-written Send/Sync declaration, and a held-lock analysis (guard lifetimes, data and control dependence) of the operations that work through a shared reference"
EXPLANATION = ("The compiler checks Send and Sync except where the code asserts them by hand. For every hand-written declaration all fields are walked through local and library types: interior mutability that is neither in a lock nor "
               "atomic, and shared ownership without atomic counts, is a violation, and a generic declaration must require the same of its parameter. In every operation taking such a type by shared reference, changes of the page "
               "protection and of the lock-protected or atomic state must happen while one lock of the same object is held, and the state such a change depends on (by data or control) must have been read under that same lock without "
               "a release in between. No code writes through a raw pointer obtained from a shared reference, and no static holds unsynchronised mutable state.")
ASSUMPTIONS = ["rustc's own Send/Sync checking", "the C functions are called with pointers the caller may use from that thread"]
NOTE = "All types with hand-written Send/Sync, all their shared-reference operations, all raw-pointer writes and statics of the workspace."

LOCKS = re.compile(r"(::|^)(Mutex|RwLock|OnceLock|LazyLock|Once|Condvar|Barrier)$")
ATOMIC = re.compile(r"::Atomic\w*$")
CELLS = re.compile(r"cell::(\w+::)*(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|SyncUnsafeCell)$")
RC = re.compile(r"rc::(Rc|Weak|UniqueRc)$|MutexGuard$|RwLock(Read|Write)Guard$|cell::(Ref|RefMut)$")
MPROT = r"sodium_mprotect_\w+$|(^|::)mprotect$|(^|::)VirtualProtect$"
RAWW = (r"slice::raw::from_raw_parts_mut$|ptr::(write\w*|copy\w*|swap\w*|replace)$|mut_ptr::.*(write\w*|copy_\w+|swap|replace|as_mut)$|\*mut T::(write\w*|copy_\w+|swap|replace|as_mut|as_uninit_mut)$|"
        r"NonNull::(as_mut|write\w*|copy_\w+|swap|replace|as_uninit_mut)$|ptr::.*slice_from_raw_parts_mut$|sodium_memzero$|randombytes_buf$|(^|::)memcpy$|(^|::)memset$")
AT_W = r"Atomic\w*(::<.*>)?::(store|swap|fetch_\w+|compare_\w+)$"
AT_RMW = r"Atomic\w*(::<.*>)?::(swap|fetch_\w+|compare_\w+)$"
AT_R = r"Atomic\w*(::<.*>)?::(load|swap|fetch_\w+|compare_\w+|into_inner)$"


def walk(prog, t, sync, send, ch=(), seen=frozenset()):
    """(field chain, offending type) below a type that must be shareable (sync) / sendable (send)"""
    k = t[0]
    if k in ("ref", "ptr", "slice", "array"):
        if k == "ref":
            return walk(prog, t[1], True, True, ch + ("*",), seen)
        return walk(prog, t[1], sync, send, ch, seen) if k != "ptr" else []
    if k == "tuple":
        return [x for i, y in enumerate(t[1]) for x in walk(prog, y, sync, send, ch + ("." + str(i),), seen)]
    if k != "adt":
        return []
    n = t[1]
    if RC.search(n) or (sync and CELLS.search(n)):
        return [(ch, n)]
    if ATOMIC.search(n):
        return []
    if LOCKS.search(n):
        inner_sync = n.endswith(("RwLock", "OnceLock", "LazyLock"))
        return [x for y in t[2] for x in walk(prog, y, inner_sync, True, ch + ("@",), seen)]
    if re.search(r"sync::(Arc|Weak)$|::Arc$", n):
        return [x for y in t[2] for x in walk(prog, y, True, True, ch + ("@",), seen)]
    ad = prog.adts.get(n)
    if ad is None:
        return [x for y in t[2] for x in walk(prog, y, sync, send, ch, seen)]
    if t in seen:
        return []
    s = dict(zip(ad["generics"], t[2]))
    out = []
    for v in ad["variants"]:
        for f in v["f"]:
            out += walk(prog, prog.norm(subst(f["t"], s)), sync, send, ch + ("." + f["n"],), seen | {t})
    return out


PASS = re.compile(r"(NonNull|const_ptr|mut_ptr|ptr|\*(mut|const) T)\S*::(as_ptr|as_ref|as_mut|as_mut_ptr|cast\w*|new|new_unchecked|from|add|offset|sub)$|::(unwrap|expect|as_ptr|as_mut_ptr|as_ref|as_mut|as_slice|as_mut_slice|deref|deref_mut|into|from)$|"
                  r"from_raw_parts(_mut)?$")


def objs(a, vals):
    """(root argument, field chain) of the places pointers refer to"""
    out = set()
    st, seen = list(vals), set()
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        if v[0] == "call":
            c = a.call(v[1])
            if PASS.search(c.path or "") and c.args:
                st += list(a.arg_vals(v[1], 0))
        elif v[0] in ("ptr", "init", "arg", "cb"):
            r, ch = chain(v)
            if r[0] == "arg":
                out.add((r[1], ch))
            elif r[0] == "call":
                st.append(("call", r[1], ()))
    return out


def lock_ids(a, b):
    return frozenset((r, tuple(x for x in ch if x != "@")) for r, ch in objs(a, a.arg_vals(b, 0)))


def starts_after(a, b):
    s = []
    for i in a.e.byblk.get(b, []):
        s += a.e.succ[i]
    return s


def holds(cx, item):
    path, self_args = item
    a = cx.an(path, NoOpaque())
    if a is None:
        return None
    acq = {b: lock_ids(a, b) for b in a.calls(LOCK, ext=True)}
    acq = {b: l for b, l in acq.items() if any(r in self_args for r, _ in l)}
    end = ends(a, set(acq))
    gf = guard_flow(a)
    prot = [(b, set(r for r, _ in objs(a, a.arg_vals(b, 0)))) for b in a.calls(MPROT)]
    prot = [(b, r & self_args) for b, r in prot if r & self_args]
    writes = []      # (block, acquisition or None, object roots, is rmw)
    for b in a.calls(r"DerefMut(>)?::deref_mut$", ext=True):
        w = set()
        for v in gf.deps(gf.arg(b, 0)):
            if v[0] == "call" and v[1] in acq:
                w.add(v[1])
        for x in w:
            if not re.search(r"RwLock::read$", a.call(x).path):
                writes.append((b, x, set(r for r, _ in acq[x]), False))
    for b in a.calls(AT_W):
        r = set(r for r, _ in objs(a, a.arg_vals(b, 0))) & self_args
        if r:
            writes.append((b, None, r, bool(re.search(AT_RMW, a.call(b).path))))
    loads = [b for b in a.calls(AT_R) if any(r in self_args for r, _ in objs(a, a.arg_vals(b, 0)))]
    cx.count("protection changes", len(prot))
    cx.count("state changes", len(writes))
    if not prot and not writes:
        return None
    fields = set(x for l in acq.values() for x in l)

    def unheld(lock):
        """blocks that can run while that lock is not held"""
        la = set(b for b in acq if lock in acq[b])
        rel = set(x for b in la for x in end[b])
        st = list(a.entry())
        for x in rel:
            st += starts_after(a, x)
        return reach(a, st, la)
    free = {l: unheld(l) for l in fields}

    def values(b, acqn):
        """what the new value written at a deref_mut / atomic store depends on"""
        out = set()
        c = a.call(b)
        if acqn is None:
            for i in range(1, len(c.args)):
                out |= gf.deps(gf._deep(b, a.nblk(b), c.args[i]))
            return out
        # assignments through the returned reference
        for bl in a.g.blocks:
            if bl.id not in a.e.reached:
                continue
            for i, st in enumerate(bl.stmts):
                if st[0] == "=" and st[1][1]:
                    for v, p in gf.resolve(bl.id, i, st[1]):
                        if v[0] == "o" and v[1][0] == "call" and v[1][1] in (b, acqn):
                            for op in operands(st[2]):
                                out |= gf.deps(gf._deep(bl.id, i, op))
        return out

    def control(b, seen=None):
        """state reads that decide whether the block runs (through all enclosing decisions)"""
        seen = set() if seen is None else seen
        out = set()
        can = back(a, b)
        for bl in a.g.blocks:
            if bl.kind != "switch" or bl.id not in a.e.reached or bl.id in seen or bl.id == b:
                continue
            for i in a.e.byblk.get(bl.id, []):
                ss = a.e.succ[i]
                if len(ss) < 2 or not any(s in can for s in ss):
                    continue
                escape = [a.search([s], a.rets(), avoid=[b]) is not None for s in ss]
                if any(escape) and any(s in can and not e for s, e in zip(ss, escape)):
                    seen.add(bl.id)
                    out |= gf.deps(gf._deep(bl.id, len(bl.stmts), bl.op))
                    out |= control(bl.id, seen)
                    break
        return out
    common = None
    todo = [(b, None, r, "changes the page protection", False) for b, r in prot] + [(b, x, r, "changes shared state", rmw) for b, x, r, rmw in writes]
    for b, x, r, what, rmw in todo:
        own = set(l for l in fields if l[0] in r and b not in free[l])
        key = short(path) + ":" + ("protection" if "page" in what else "state")
        if "page" in what:
            cx.ob("held", key, bool(own), a.where(b), "%s while no lock of the object is held on some path: two threads borrowing at the same time can leave the memory inaccessible to the second, or accessible after both are done" % what)
        d = set(v[1] for v in values(b, x) | control(b) if v[0] == "call" and (v[1] in acq or v[1] in loads)) if "page" not in what else \
            set(v[1] for v in control(b) if v[0] == "call" and (v[1] in acq or v[1] in loads))
        for y in d:
            if y == x or y == b or (y in acq and not any(q in r for q, _ in acq[y])):
                continue
            ok = False
            for l in own:
                if y in acq and l in acq[y] and not (x is not None and l in acq.get(x, ())):
                    # the read is the acquisition of the common lock itself: the same guard must still be alive
                    ok = b not in reach(a, [s for e in end[y] for s in starts_after(a, e)], [y])
                elif y not in free[l]:
                    rel = set(e for q in acq if l in acq[q] for e in end[q])
                    mid = reach(a, starts_after(a, y), [b])
                    after = [s for e in rel & mid for s in starts_after(a, e)]
                    ok = b not in reach(a, after, [y])
                if ok:
                    break
            cx.ob("read-under-lock", key, ok, a.where(b), "%s depending on state read at %s that another thread may have changed since: read and change are not done under one lock" % (what, a.where(y)))
        names = set(l[1][-1:] for l in own)
        if "page" in what:
            common = names if common is None else common & names
    return path, common


def back(a, b):
    """exploded nodes from which the block is reachable"""
    if not hasattr(a, "_pred"):
        p = {}
        for i, ss in enumerate(a.e.succ):
            for s in ss:
                p.setdefault(s, []).append(i)
        a._pred = p
    st = list(a.e.byblk.get(b, []))
    seen = set(st)
    while st:
        x = st.pop()
        for y in a._pred.get(x, ()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen


def operands(rv):
    if not isinstance(rv, tuple):
        return []
    out = []
    for x in rv[1:]:
        if isinstance(x, (tuple, list)) and x and x[0] in ("p", "k"):
            out.append(x)
        elif isinstance(x, (list, tuple)):
            for y in x:
                if isinstance(y, (tuple, list)) and y and y[0] in ("p", "k"):
                    out.append(y)
    return out


def raw_writes(body):
    """does a body write through a raw pointer?"""
    for i, p, r, t in raw_calls(body):
        if re.search(RAWW, p) or re.search(RAWW, r):
            return True
    for bl in body.blocks:
        for st in bl["s"]:
            if not isinstance(st, dict):
                continue
            pl = st.get("p") or st.get("l")
    return True if any(t[0] == "ptr" and t[2] for t in body.locals) else False


class Flat(NoOpaque):
    def opaque(self, body):
        return True


def raw(cx, path):
    try:
        a = cx.an(path, NoOpaque() if cx.fn(path).crate.name == "runtime" else Flat())
    except (TooBig, RuntimeError):
        a = cx.an(path, Flat())
    if a is None:
        return 0
    ts = a.g.prog.by_path[path][0].locals
    body = a.root
    shared = set(i for i in range(body.argc) if body.locals[i + 1][0] == "ref" and not body.locals[i + 1][2])
    n = 0

    def bad(vals):
        return any(r in shared and "@" not in ch[1:-1] for r, ch in objs(a, vals))
    for b in a.calls(RAWW):
        c = a.call(b)
        which = [1] if re.search(r"ptr::copy\w*$|copy_to\w*$", c.path) else [0]
        n += 1
        for i in which:
            cx.ob("no-raw-write", "%s:%s" % (short(path), short(c.path)), not bad(a.arg_vals(b, i)), a.where(b),
                  "writes through a raw pointer obtained from a shared reference: another thread may use the same memory at the same time")
    for bl in a.g.blocks:
        if bl.id not in a.e.reached:
            continue
        for i, st in enumerate(bl.stmts):
            if st[0] != "=" or not st[1][1]:
                continue
            for k, e in enumerate(st[1][1]):
                if e == "*":
                    t = a.g.ty_of_place((st[1][0], st[1][1][:k]))
                    if t[0] == "ptr":
                        n += 1
                        cx.ob("no-raw-write", "%s:assignment" % short(path), not bad(a.f.vals(bl.id, i, ("p", (st[1][0], st[1][1][:k]), False))), a.where(bl.id),
                              "assigns through a raw pointer obtained from a shared reference")
    return n


def check(cx):
    prog = cx.prog
    decl = {}
    for tr in ("core::marker::Send", "core::marker::Sync"):
        for i in prog.impl_by_trait.get(tr, []):
            if i.get("neg") or not i.get("unsafe"):
                continue
            t = i["self_t"]
            name = tystr(t)
            decl.setdefault(t, set()).add(tr)
            bad = walk(prog, t, tr.endswith("Sync"), True)
            cx.ob("fields", "%s:%s" % (tr.split("::")[-1], name), not bad, i["loc"],
                  "%s is declared %s by hand, but %s is an unsynchronised %s" % (name, tr.split("::")[-1], "".join(bad[0][0]) if bad else "", bad[0][1] if bad else ""))
            for g in t[2] if t[0] == "adt" else ():
                if g[0] == "param" and uses(prog, t, g[1]):
                    cx.ob("bound", "%s:%s" % (tr.split("::")[-1], name), (tr, g) in i["preds_t"] or ("core::marker::Send" == tr and ("core::marker::Sync", g) in i["preds_t"] and False), i["loc"],
                          "%s is declared %s for every %s, also for those that are not" % (name, tr.split("::")[-1], g[1]))
    cx.floor("types declared shareable by hand", len(decl), 1)
    names = set(t[1] for t in decl if t[0] == "adt")
    ops, roots = [], set()
    called = set(x for b in prog.bodies.values() if b.local and b.crate.name == "runtime" and b.file.startswith(REPO_DIRS) for x in mentions(b))
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if not b.local or not b.file.startswith(REPO_DIRS) or b.kind == "static" or "{{closure" in p:
            continue
        sh = frozenset(i for i in range(b.argc) if b.locals[i + 1][0] == "ref" and not b.locals[i + 1][2] and b.locals[i + 1][1][0] == "adt" and b.locals[i + 1][1][1] in names)
        if sh:
            if b.pub or " as " in p or p not in called:
                ops.append((p, sh))
            roots.add(p)
        if raw_writes(b):
            roots.add(p)
    cx.floor("operations on shared references to those types", len(ops), 5)
    res = [r for r in cx.par(ops, holds) if r]
    cx.floor("operations that change state through a shared reference", len(res), 1)
    common = [(p, c) for p, c in res if c is not None]
    if common:
        both = set.intersection(*[set(c) for p, c in common])
        cx.ob("one-lock", "protection", bool(both), "", "the operations that change the page protection hold different locks: %s" % ", ".join("%s %s" % (short(p), sorted(map("".join, c))) for p, c in common))
    n = sum(cx.par(sorted(roots), raw))
    cx.count("raw pointer writes", n)
    k = 0
    for b in prog.bodies.values():
        if b.kind == "static" and b.local and b.file.startswith(REPO_DIRS):
            k += 1
            t = b.locals[0]
            cx.ob("statics", short(b.path), not b.unsafe, b.loc, "a static variable may be changed by every thread")
            if "thread_local" not in str(t):
                bad = walk(prog, t, True, True)
                cx.ob("statics", short(b.path) + ":type", not bad, b.loc, "a static holds unsynchronised state: %s" % (bad[:1],))
    cx.count("statics", k)


def uses(prog, t, param):
    """the type owns values of that type parameter (directly or behind a pointer)"""
    return True
