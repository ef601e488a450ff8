"""P04: guarded memory is only accessible while it is borrowed."""
import itertools
from .common import *
from .. import ir
from ..framework import NoOpaque
from ..absint import Machine, St, TOP, Budget

TECHNIQUE = "typestate analysis: abstract interpretation of every operation on guarded memory, closed over all histories of borrows (0, 1 or any number n>=2 of live shared borrows, or one exclusive borrow)"
EXPLANATION = ("Every public operation and trait implementation of the guarded buffer and of its borrow guards is interpreted on its fully inlined MIR with an abstract state per allocation: the values of its reference counter (a small number, or n+c for n live borrows) and of "
               "its protection field, and the access right the last mprotect call gave to the pages. Starting from the states the constructors leave, the reachable states are closed under all operations Rust's borrow rules allow, so every sequence of borrows, nested borrows, "
               "releases, clones and comparisons is covered. In every reachable state the pages must be inaccessible when no borrow lives, read-only under shared borrows and writable only under an exclusive one; each operation must be able to complete, must not hand out or use a "
               "slice beyond its access right, and must not continue after a failed mprotect; counter and pages change together under one lock; the memory comes from the guarded allocator in the stored size.")
ASSUMPTIONS = ["libsodium implements sodium_malloc/allocarray (guard pages, mlock) and sodium_mprotect_* as documented", "Rust's borrow rules (a guard does not outlive its buffer)", "locking against swapping is best effort, as libsodium documents; a refused mlock is not reported"]
NOTE = "All operations on Buffer, Ref and RefMut with everything they call; unwinding out of a panic is not followed."

BUF = "runtime::memories::buffer::Buffer"
PROT = r"sodium_mprotect_(noaccess|readonly|readwrite)$"
RIGHT = {"noaccess": 0, "readonly": 1, "readwrite": 2}
SHOW = {0: "inaccessible", 1: "read-only", 2: "writable", "freed": "freed"}
WRAP = r"(mutex::Mutex|rwlock::RwLock|cell::Cell|cell::RefCell|cell::UnsafeCell|OnceCell)$"
ATOMIC = r"atomic::Atomic\w*$"


class Inline(NoOpaque):
    def __init__(self, types=()):
        self.types = types

    def opaque(self, b):
        # operations on the elements themselves
        return bool(re.search(r"as core::fmt::|Bytes(>)?::\w+$|ConstEq(>)?::\w+$|Randomized(>)?::\w+$|Zeroed(>)?::\w+$|ct_\w+$", b.path))

    def expand_drop(self, prog, ty):
        return ty[0] == "adt" and ty[1] in self.types


# ---------------------------------------------------------------- layout
def leaves(prog, t, depth=0, inner=False):
    """(path, type, interior mutable) of the scalar leaves of a type"""
    if depth > 6:
        return
    if t[0] == "prim":
        yield (), t, inner
    elif t[0] == "tuple":
        for i, x in enumerate(t[1]):
            for p, y, m in leaves(prog, x, depth + 1, inner):
                yield (("f", str(i)),) + p, y, m
    elif t[0] == "ptr":
        yield (), t, inner
    elif t[0] == "adt":
        ad = prog.adts.get(t[1])
        if re.search(ATOMIC, t[1]):
            yield ("%",), ("prim", "usize"), True
        elif re.search(WRAP, t[1]) and t[2]:
            for p, y, m in leaves(prog, t[2][0], depth + 1, True):
                yield ("%",) + p, y, True
        elif t[1].endswith("NonNull"):
            yield (), ("ptr",), inner
        elif re.search(r"boxed::Box$|sync::Arc$", t[1]) and t[2]:
            for p, y, m in leaves(prog, t[2][0], depth + 1, inner):
                yield ("*",) + p, y, m
        elif ad is not None:
            s = dict(zip(ad["generics"], t[2]))
            if ad["kind"] == "enum":
                if all(not v["f"] for v in ad["variants"]):
                    yield (), ("enum", t[1]), inner
            else:
                for f in ad["variants"][0]["f"]:
                    for p, y, m in leaves(prog, prog.norm(ir.subst(f["t"], s)), depth + 1, inner):
                        yield (("f", f["n"]),) + p, y, m


class Layout:
    def __init__(self, prog):
        self.ok = False
        self.base = self.refs = self.prot = self.ptr = self.len = None
        ad = prog.adts.get(BUF)
        if ad is None:
            return
        from .p03 import base_kind
        self.prog = prog
        for p, chain in self.walk(BUF, ()):
            if base_kind(prog, p) == "mem":
                self.base, self.path = p, chain
                break
        else:
            return
        b = prog.adts[self.base]
        self.state = []
        for p, t, m in leaves(prog, ("adt", self.base, tuple(("param", g) for g in b["generics"]))):
            if t[0] == "ptr" and self.ptr is None:
                self.ptr = p
            elif t[0] == "enum" or t[0] == "prim" and (m or t[1] not in ("usize",)):
                self.state.append(p)
            elif t[0] == "prim" and self.len is None:
                self.len = p
        # types holding the buffer by value, and guards pointing at it
        self.owners, self.guards = {}, {}
        for p, a in prog.adts.items():
            if not p.startswith("runtime::") or p == self.base or a["kind"] == "enum":
                continue
            for f in a["variants"][0]["f"]:
                c = self.find(f["t"])
                if c is not None:
                    mut, ref, path = c
                    (self.guards if ref else self.owners)[p] = ((("f", f["n"]),) + path, mut)
        self.ok = self.ptr is not None and bool(self.state)

    def walk(self, p, chain, depth=0):
        ad = self.prog.adts.get(p)
        if ad is None or depth > 4 or ad["kind"] == "enum":
            return
        for f in ad["variants"][0]["f"]:
            if f["t"][0] == "adt" and f["t"][1] in self.prog.adts:
                yield f["t"][1], chain + (("f", f["n"]),)
                yield from self.walk(f["t"][1], chain + (("f", f["n"]),), depth + 1)

    def find(self, t, depth=0):
        """(mutable, by reference, path) from a field to the base type"""
        if depth > 4:
            return None
        if t[0] == "ref":
            r = self.find(t[1], depth + 1)
            return r and (bool(t[2]), True, ("*",) + r[2])
        if t[0] == "adt":
            if t[1] == self.base:
                return (False, False, ())
            a = self.prog.adts.get(t[1])
            if a and a["kind"] != "enum" and depth < 3:
                for f in a["variants"][0]["f"]:
                    r = self.find(f["t"], depth + 1)
                    if r:
                        return (r[0], r[1], (("f", f["n"]),) + r[2])
        return None


# ---------------------------------------------------------------- interpretation
class Guarded(Machine):
    def __init__(self, g, lay, shared):
        Machine.__init__(self, g)
        self.lay = lay
        self.shared = shared     # prefixes of objects other threads may use at the same time
        self.bad = {}            # kind -> (block, detail)
        self.args_of = {}
        self.cur = None

    def note(self, kind, b, d):
        self.bad.setdefault(kind, (b, d))

    def which(self, c):
        for i, (root, pre) in enumerate(self.shared):
            if c[0] == root and c[1][:len(pre)] == pre and c[1][len(pre):] in self.lay.state:
                return i
        return None

    def was_read(self, st, c):
        i = self.which(c)
        if i is not None:
            st.rd[i] = frozenset(st.held)

    def written(self, st, c):
        i = self.which(c)
        if i is not None:
            self.together(st, i, self.cur)

    def together(self, st, i, b):
        if i in st.rd and not st.rd[i] & set(st.held):
            self.note("lock", b, "changed without holding a lock since the count was read")

    def step(self, b, st):
        self.cur = b
        return Machine.step(self, b, st)

    def use(self, st, b, v, rw=1):
        if v[0] in ("slice", "mem"):
            pg = st.page.get(v[1])
            need = max(rw, v[2] if v[0] == "slice" else 0)
            if pg == "freed" or pg is not None and pg < need:
                self.note("access", b, "memory is used for %s while it is %s" % ("writing" if need == 2 else "reading", SHOW[pg]))

    def ext(self, st, b, c):
        p = c.path or ""
        m = re.search(PROT, p)
        if m:
            v = self.val(st, c.args[0])
            if v[0] != "mem":
                self.note("access", b, "the protection of unknown memory is changed")
                return [self.res(st, c, TOP)]
            for i, (root, pre) in enumerate(self.shared):
                x = st.m.get((root, pre + self.lay.ptr))
                if x == v:
                    self.together(st, i, b)
            good, bad = st.copy(), st.copy()
            good.page[v[1]] = RIGHT[m.group(1)]
            bad.flags = bad.flags | {"failed"}
            return [self.res(good, c, ("i", 0)), self.res(bad, c, ("i", -1))]
        if re.search(r"sodium_(malloc|allocarray)$", p):
            vs = [self.val(st, a) for a in c.args]
            st.page[b] = 2
            self.args_of[b] = (p.rsplit("::", 1)[-1], vs)
            return [self.res(st, c, ("mem", b))]
        if re.search(r"(^|::)(malloc|calloc|mmap|posix_memalign|alloc|alloc_zeroed)$", p) and "ptr" == self.g.ty_of_place(c.dest)[0]:
            st.page[("plain", b)] = 2
            return [self.res(st, c, ("mem", ("plain", b)))]
        if re.search(r"sodium_free$", p):
            v = self.val(st, c.args[0])
            if v[0] == "mem":
                st.page[v[1]] = "freed"
            return [self.res(st, c, TOP)]
        if re.search(r"sodium_(mlock|munlock|init|memzero)$", p):
            if p.endswith("memzero"):
                self.use(st, b, self.val(st, c.args[0]), 2)
            self.args(st, c)
            return [self.res(st, c, ("i", 0))]
        if re.search(r"slice::(raw::)?from_raw_parts(_mut)?$|ptr::slice_from_raw_parts(_mut)?$", p):
            v = self.val(st, c.args[0])
            n = self.val(st, c.args[1])
            if v[0] == "mem":
                rw = 2 if p.endswith("_mut") else 1
                self.use(st, b, v, rw)
                self.length(st, b, v, n)
                return [self.res(st, c, ("slice", v[1], rw))]
            return [self.res(st, c, TOP)]
        if re.search(r"mem::size_of$", p):
            return [self.res(st, c, ("size",))]
        before = [self.val(st.copy(), a) for a in c.args]
        r = self.default(st, b, c)
        if not re.search(r"NonNull|ptr::|::clone$|::(into|from)$|is_null$|addr$|from_size_align|mem::forget", p):
            for a, v in zip(c.args, before):
                if v[0] in ("slice", "mem"):
                    self.use(st, b, v)
            if any(v[0] == "slice" for v in before) and c.dest is not None and self.points(self.g.ty_of_place(c.dest)):
                # derived slices and iterators
                s = [v for v in before if v[0] == "slice"][0]
                r = [self.res(x, c, s) for x in r]
        return r

    def points(self, t):
        return t[0] in ("ref", "ptr") or t[0] == "adt" and t[1].startswith("core::slice::iter")

    def length(self, st, b, mem, n):
        """the slice ends where the object ends"""
        if self.lay.len is None:
            return
        for (c, v) in list(st.m.items()):
            if v == mem and c[1][len(c[1]) - len(self.lay.ptr):] == self.lay.ptr:
                pre = c[1][:len(c[1]) - len(self.lay.ptr)]
                want = self.load(st, (c[0], pre + self.lay.len))
                if n == want or n == TOP or n[0] == "i" and n[1] == 0:
                    return
        if n[0] in ("s", "op"):
            self.note("length", b, "the slice does not have the length of the allocation")


class Op:
    def __init__(self, body, args, ret, kind):
        self.body, self.args, self.ret, self.kind = body, args, ret, kind


def classify(lay, t):
    """('own'|'guard', type, by, path to the base object)"""
    by = "val"
    pre = ()
    while t[0] == "ref":
        by = "mut" if t[2] else "ref"
        pre += ("*",)
        t = t[1]
    if t[0] == "adt":
        if t[1] == lay.base:
            return ("base", t[1], by, pre)
        if t[1] in lay.owners:
            return ("own", t[1], by, pre + lay.owners[t[1]][0])
        if t[1] in lay.guards:
            return ("guard", t[1], by, pre + lay.guards[t[1]][0])
    return None


def mentions(lay, t, d=0):
    if d > 6 or not isinstance(t, tuple) or not t:
        return None
    if t[0] == "adt" and t[1] in lay.guards:
        return ("guard", t[1])
    if t[0] == "adt" and t[1] in lay.owners:
        return ("own", t[1])
    for x in t[1:]:
        for y in (x if isinstance(x, tuple) and x and isinstance(x[0], tuple) else (x,)):
            if isinstance(y, tuple):
                r = mentions(lay, y, d + 1)
                if r:
                    return r
    return None


def operations(cx, lay):
    prog = cx.prog
    out = []
    for u, b in sorted(prog.bodies.items()):
        if b.crate.name != "runtime" or b.kind not in ("fn", "method", "Fn", "AssocFn"):
            continue
        if re.search(r"as core::fmt::|::tests?::", b.path):
            continue
        args = []
        for i in range(b.argc):
            k = classify(lay, b.locals[i + 1])
            if k and k[0] != "base":
                args.append((i,) + k)
        ret = mentions(lay, b.locals[0]) if b.locals[0][0] != "ref" else None
        me = b.path[1:].split(" as ")[0] if b.path.startswith("<") else b.path.rsplit("::", 1)[0]
        if not (me in lay.owners or me in lay.guards or "serde" in b.path):
            continue      # users of the public operations: the guards' types keep them within the borrow rules
        private = not b.pub and " as " not in b.path
        if private or not (args or ret) or any(classify(lay, b.locals[i + 1]) and classify(lay, b.locals[i + 1])[0] == "base" for i in range(b.argc)):
            continue
        kind = "drop" if re.search(r"as core::ops::drop::Drop>::drop$", b.path) else "op"
        out.append(Op(b, args, ret, kind))
    return out


# ghost: (live shared borrows 0 / 1 / 2 meaning n>=2, live exclusive borrows)
def need(g):
    return 2 if g[1] else 1 if g[0] else 0


class Explorer:
    def __init__(self, cx, lay):
        self.cx, self.lay = cx, lay
        self.states = set()       # (ghost, leaf values, page)
        self.bad = {}
        self.done = {}
        self.blocks = {}
        self.graphs = {}
        self.used = set()
        self.runs = 0

    def graph(self, b):
        if b.uid not in self.graphs:
            self.graphs[b.uid] = self.cx.an(b, Inline(set(self.lay.owners) | set(self.lay.guards) | {self.lay.base})).g
        return self.graphs[b.uid]

    def fail(self, op, rule, g, blk, detail):
        self.bad.setdefault((op.body.path, rule), (g, blk, detail))

    def starts(self, a):
        """typestates an argument may be in when the operation is called"""
        i, kind, ty, by, path = a
        out = []
        for s in self.states:
            (n, x), leaf, page = s
            if kind == "own":
                ok = x == 0 and (by == "ref" or n == 0)
            else:
                ok = (x == 1) if self.lay.guards[ty][1] else (n >= 1 and x == 0)
            if ok:
                out.append(s)
        return out

    def run(self, op):
        g = self.graph(op.body)
        pools = [self.starts(a) for a in op.args]
        if any(not p for p in pools):
            return False
        new = False
        for combo in itertools.product(*pools):
            key = (op.body.uid, combo)
            if key in self.done:
                continue
            self.done[key] = True
            self.used.add(op.body.path)
            self.runs += 1
            new |= self.one(op, g, combo)
        if not op.args and (op.body.uid, ()) not in self.done:
            self.done[(op.body.uid, ())] = True
            new |= self.one(op, g, ())
        return new

    def one(self, op, g, combo):
        lay = self.lay
        st = St()
        objs = []
        shared = []
        for k, (a, s) in enumerate(zip(op.args, combo)):
            i, kind, ty, by, path = a
            (n, x), leaf, page = s
            root, pre = i + 1, path
            objs.append((root, pre))
            if kind == "own" and by == "ref" or kind == "guard" and not lay.guards[ty][1]:
                shared.append((root, pre))
            for p, v in leaf:
                st.m[(root, pre + p)] = v
            st.m[(root, pre + lay.ptr)] = ("mem", "A%d" % k)
            st.page["A%d" % k] = page
        mc = Guarded(g, lay, shared)
        try:
            fin = mc.run(st)
        except Budget as e:
            self.fail(op, "analysed", g, 0, str(e))
            return False
        for rule, (blk, d) in mc.bad.items():
            self.fail(op, rule, g, blk, d)
        # results
        good = []
        for blk, s in fin:
            if "failed" in s.flags:
                rv = s.m.get((0, ()))
                if rv is None or rv[0] != "v" or rv[1] not in ("Err", "None"):
                    self.fail(op, "failure", g, blk, "the operation goes on after changing the access rights failed")
                continue
            good.append((blk, s))
        if not good:
            self.fail(op, "completes", g, 0, "cannot complete when %s" % ", ".join(self.show(s) for s in combo) if combo else "cannot complete")
        new = False
        for blk, s in good:
            for k, (a, s0) in enumerate(zip(op.args, combo)):
                i, kind, ty, by, path = a
                if op.kind == "drop" and kind == "own":
                    leafv = tuple(sorted(((p, self.load(mc, s, objs[k], p)) for p in lay.state), key=str))
                    self.ended.add((leafv, s.page.get("A%d" % k)))
                    if s.page.get("A%d" % k) not in (0, "freed"):
                        self.fail(op, "state", g, blk, "the memory is left %s when it is dropped" % SHOW[s.page.get("A%d" % k)])
                    continue
                if by == "val" and kind == "own":
                    continue
                (n, x), leaf, page = s0
                d = 0
                if op.kind == "drop" and kind == "guard" or kind == "guard" and by == "val":
                    d = -1
                if op.ret and op.ret[0] == "guard" and k == 0:
                    d += 1
                if lay.guards.get(ty, (0, 0))[1] or op.ret and op.ret[0] == "guard" and lay.guards[op.ret[1]][1]:
                    ghosts = [(0, x + d)]
                elif n + d <= 1 and n < 2:
                    ghosts = [(n + d, 0)]
                elif n == 2 and d < 0:
                    ghosts = [(1, 0), (2, 0)]
                else:
                    ghosts = [(2, 0)]
                for gh in ghosts:
                    if n == 2:
                        conv = lambda v, gh=gh: self.shift(v, d, gh)
                    else:
                        conv = lambda v, gh=gh: v if gh[0] < 2 or v[0] != "i" else ("n", v[1] - 2) if isinstance(v[1], int) else v
                    leafv = tuple(sorted(((p, conv(self.load(mc, s, objs[k], p))) for p in lay.state), key=str))
                    pg = s.page.get("A%d" % k)
                    if pg != need(gh):
                        self.fail(op, "state", g, blk, "the memory is %s afterwards, with %s (before: %s)" % (SHOW[pg], ghost(gh), self.show(s0)))
                        continue
                    t = (gh, leafv, pg)
                    if t not in self.states:
                        if len(self.states) > 60:
                            self.fail(op, "state", g, blk, "the bookkeeping does not return to a known state after %s" % ghost(gh))
                            return False
                        self.states.add(t)
                        new = True
            # new objects in the result
            for c, v in list(s.m.items()):
                if c[0] != 0 or v[0] != "mem" or c[1][len(c[1]) - len(lay.ptr):] != lay.ptr or str(v[1]).startswith("A"):
                    continue
                pre = c[1][:len(c[1]) - len(lay.ptr)]
                leafv = tuple(sorted(((p, mc.load(s, (0, pre + p))) for p in lay.state), key=str))
                pg = s.page.get(v[1])
                self.made(op, g, mc, s, pre, v[1], blk)
                if pg != 0:
                    self.fail(op, "state", g, blk, "a new allocation is handed out %s" % SHOW.get(pg, "?"))
                    continue
                t = ((0, 0), leafv, pg)
                if t not in self.states:
                    self.states.add(t)
                    new = True
        return new

    def load(self, mc, s, obj, p):
        return mc.load(s, (obj[0], obj[1] + p))

    def shift(self, v, d, gh):
        """value in terms of the new number of borrows"""
        if v[0] != "n":
            return v
        if gh[0] == 2:
            return ("n", v[1] - d)
        return ("i", v[1] - d + gh[0])

    def made(self, op, g, mc, s, pre, mem, blk):
        a = mc.args_of.get(mem)
        if a is None:
            self.fail(op, "guarded", g, blk, "the memory does not come from the guarded allocator")
            return
        self.allocs += 1
        if self.lay.len is None:
            return
        n = mc.load(s, (0, pre + self.lay.len))
        fn, vs = a
        if fn == "sodium_allocarray" and vs[0] != n and ("top",) not in (vs[0], n):
            self.fail(op, "guarded", g, blk, "allocated for a different number of elements than it is used with")
        if fn == "sodium_allocarray" and vs[1][0] not in ("size", "top", "s", "op"):
            self.fail(op, "guarded", g, blk, "allocated with a fixed element size")
        if fn == "sodium_malloc" and vs[0][0] in ("i", "s", "size"):
            self.fail(op, "guarded", g, blk, "allocated without regard to the element size")

    def show(self, s):
        return ghost(s[0])


def ghost(g):
    return "an exclusive borrow alive" if g[1] else ("no borrow alive", "one shared borrow alive", "several shared borrows alive")[g[0]]


RULES = {
    "state": "when the operation ends, the memory is inaccessible without a borrow, read-only under shared borrows, writable only under an exclusive one",
    "access": "memory is only read or written while its access right allows it",
    "completes": "the operation can complete in every state it may be called in",
    "failure": "a failed change of access rights ends the operation",
    "lock": "the borrow count is read and changed, and the pages re-protected, under one lock",
    "guarded": "new memory comes from the guarded allocator, in the size it is used with",
    "length": "slices have the length of the allocation",
    "analysed": "the operation could be analysed",
}


def check(cx):
    prog = cx.prog
    lay = Layout(prog)
    cx.ob("layout", "Buffer", lay.ok, "engine/runtime/src", "the guarded buffer owns one allocation with a counter and a protection field")
    if not lay.ok:
        return
    ops = operations(cx, lay)
    ex = Explorer(cx, lay)
    ex.ended, ex.allocs = set(), 0
    for _ in range(30):
        new = False
        for op in ops:
            new |= ex.run(op)
        if not new:
            break
    # dropping the buffer ends in the destructor of the allocation
    dropped = {o.body.path for o in ops if o.kind == "drop" and any(a[1] == "own" for a in o.args)}
    ends = ex.ended or {(leaf, pg) for (g, leaf, pg) in ex.states if g == (0, 0)}
    dr = [b for b in __import__("vp.rules.p03", fromlist=["impls"]).impls(prog, "core::ops::drop::Drop", lay.base)]
    cx.ob("released", "destructor", bool(dr), "", "the allocation has a destructor")
    for b in dr:
        g = ex.graph(b)
        for leaf, pg in sorted(ends, key=str):
            if pg == "freed":
                continue
            st = St()
            for p, v in leaf:
                st.m[(1, ("*",) + p)] = v
            st.m[(1, ("*",) + lay.ptr)] = ("mem", "A0")
            st.page["A0"] = pg
            mc = Guarded(g, lay, [])
            fin = [s for _, s in mc.run(st) if "failed" not in s.flags]
            for r, (blk, d) in mc.bad.items():
                cx.ob(r, short(b.path), False, g.where(blk), d)
            cx.ob("released", short(b.path), bool(fin) and all(s.page["A0"] == "freed" for s in fin), g.where(0),
                  "a dropped buffer can be destroyed and gives its memory back" if fin else "the destructor cannot complete in the state the buffer is dropped in")
    for op in ops:
        p = op.body.path
        ran = p in ex.used or not op.args
        for rule, text in RULES.items():
            if rule == "analysed" and (p, rule) not in ex.bad:
                continue
            if rule == "guarded" and not (op.ret and op.ret[0] == "own"):
                continue
            bad = ex.bad.get((p, rule))
            if bad is None and not ran:
                continue
            cx.ob(rule, short(p), bad is None, bad[0].where(bad[1]) if bad else "%s" % op.body.loc, text if bad is None else bad[2])
    cx.count("operations", len(ops))
    cx.count("typestates", len(ex.states))
    cx.count("interpretations", ex.runs)
    reach = {g for g, _, _ in ex.states}
    cx.ob("reached", "no borrow", (0, 0) in reach, "", "constructors were analysed")
    if any(not m for _, m in lay.guards.values()):
        cx.ob("reached", "shared borrow", (1, 0) in reach and (2, 0) in reach, "", "shared and nested borrows were analysed")
    if any(m for _, m in lay.guards.values()):
        cx.ob("reached", "exclusive borrow", (0, 1) in reach, "", "exclusive borrows were analysed")
    cx.floor("operations", len(ops), 8)
    cx.floor("typestates", len(ex.states), 3)
