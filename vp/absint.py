"""A small abstract interpreter over inlined flow graphs.

A state maps storage cells to abstract values; cells are (root, projection) where root is a graph variable, an
allocation or a promoted constant.  Values:
  ("i", n)            a small known integer / boolean
  ("n", c)            a count n + c, where n >= 2 is the (unknown) number of live shared borrows
  ("v", name)         the variant an enum is in (payload in sub-cells)
  ("ref", root, proj) a pointer to a cell
  ("guard", acq, root, proj)   a lock guard giving access to a cell
  ("mem", id)         a pointer to an allocation
  ("slice", id, rw)   a slice of an allocation
  ("s", root, proj)   what the cell held when the function was entered
  ("op", ...)         a computed value
  ("top",)            anything
Paths are followed over all branches whose condition is not decided by the state."""
import re

TOP = ("top",)


class Budget(Exception):
    pass


class St:
    __slots__ = ("m", "page", "held", "rd", "flags")

    def __init__(self, m=None, page=None, held=None, rd=None, flags=()):
        self.m = m or {}
        self.page = page or {}
        self.held = held or {}
        self.rd = rd or {}
        self.flags = frozenset(flags)

    def copy(self):
        return St(dict(self.m), dict(self.page), dict(self.held), dict(self.rd), self.flags)

    def key(self):
        return (frozenset(self.m.items()), frozenset(self.page.items()), frozenset(self.held.items()), frozenset(self.rd.items()), self.flags)


def promoted(prog, path, n):
    """abstract value a promoted reference points to"""
    for b in prog.by_path.get(path, ()):
        if n >= len(b.promoted):
            continue
        pr = b.promoted[n]
        if len(pr["blocks"]) != 1:
            return TOP
        d = {}
        for st in pr["blocks"][0]["s"]:
            if st[0] == "=" and len(st[1]) == 1:
                d[st[1][0]] = st[2]
        rv = d.get(0)
        for _ in range(8):
            if rv is None:
                return TOP
            if rv[0] == "ref" and len(rv[1]) == 1:
                rv = d.get(rv[1][0])
            elif rv[0] == "use" and "k" in rv[1]:
                v = rv[1]["k"].get("v") or {}
                return const(v)
            elif rv[0] == "use" and ("c" in rv[1] or "m" in rv[1]):
                p = rv[1].get("c") or rv[1].get("m")
                rv = d.get(p[0]) if len(p) == 1 else None
            elif rv[0] == "agg" and rv[1]["k"] == "adt" and rv[1]["enum"] and not rv[2]:
                return ("v", rv[1]["v"])
            else:
                return TOP
    return TOP


def const(v):
    if "int" in v:
        try:
            return ("i", int(v["int"]))
        except ValueError:
            return TOP
    if "str" in v:
        return ("str", v["str"])
    if "zst" in v:
        return ("i", 0)
    return TOP


BOUND = 8


def vars_of(bl):
    out = set()

    def pl(p):
        out.add(p[0])
        for e in p[1]:
            if isinstance(e, tuple) and e[0] == "i":
                out.add(e[1])

    def walk(x):
        if isinstance(x, (list, tuple)):
            if len(x) >= 2 and x[0] == "p" and isinstance(x[1], tuple) and len(x[1]) == 2 and isinstance(x[1][1], tuple):
                pl(x[1])
                return
            for y in x:
                walk(y)
    for s in bl.stmts:
        if s[0] == "=":
            pl(s[1])
            if s[2][0] in ("ref", "addr", "discr"):
                pl(s[2][1])
            else:
                walk(s[2])
    walk(bl.op)
    if bl.call is not None:
        walk(list(bl.call.args))
        if bl.call.dest is not None:
            pl(bl.call.dest)
    if bl.drop is not None:
        pl(bl.drop[0])
    if bl.assertion:
        walk([bl.assertion.get("len"), bl.assertion.get("idx")])
    return out


class Machine:
    """hooks: ext(st, blk, call) -> list of states or None (default handling)"""

    def __init__(self, g, limit=60000):
        self.g = g
        self.prog = g.prog
        self.limit = limit
        self.events = set()    # (kind, block)
        self.argc = len(g.argvars)
        self.mention = self.mentioned()

    def mentioned(self):
        """block -> bit set of the variables mentioned in the blocks reachable from it"""
        g = self.g
        own = []
        for bl in g.blocks:
            m = 0
            for v in vars_of(bl):
                m |= 1 << v
            own.append(m)
        cache = getattr(g, "_mention", None)
        if cache is not None:
            return cache
        out = list(own)
        preds = [[] for _ in g.blocks]
        for bl in g.blocks:
            for t in bl.succ:
                preds[t].append(bl.id)
        work = list(range(len(out)))
        inq = set(work)
        while work:
            b = work.pop()
            inq.discard(b)
            for p in preds[b]:
                n = out[p] | out[b]
                if n != out[p]:
                    out[p] = n
                    if p not in inq:
                        inq.add(p)
                        work.append(p)
        g._mention = out
        return out

    def collect(self, b, st):
        """forget variables that can no longer be used"""
        live = self.mention[b] | 1
        keep = set()
        work = [r for r in {c[0] for c in st.m} if not isinstance(r, int) or live >> r & 1 or r <= self.argc]
        byroot = {}
        for c, v in st.m.items():
            byroot.setdefault(c[0], []).append(v)
        while work:
            r = work.pop()
            if r in keep:
                continue
            keep.add(r)
            for v in byroot.get(r, ()):
                if v[0] == "ref" and v[1] not in keep:
                    work.append(v[1])
                elif v[0] == "guard" and v[2] not in keep:
                    work.append(v[2])
        for c in [c for c in st.m if c[0] not in keep]:
            del st.m[c]
        for c in [c for c, v in st.m.items() if v == ("moved",)]:
            if isinstance(c[0], int) and c[0] > self.argc and not c[1]:
                del st.m[c]

    # ------------------------------------------------------------ memory
    def cell(self, st, pl):
        root, proj = pl[0], ()
        for e in pl[1]:
            if e == "*":
                v = self.load(st, (root, proj))
                if v[0] == "ref":
                    root, proj = v[1], v[2]
                elif v[0] == "guard":
                    root, proj = v[2], v[3]
                elif v[0] in ("mem", "slice"):
                    root, proj = ("mem", v[1]), ()
                elif v[0] == "s":
                    root, proj = v[1], v[2] + ("*",)
                else:
                    proj = proj + ("*",)
            elif isinstance(e, tuple) and e[0] == "i":
                proj = proj + ("[]",)
            else:
                proj = proj + (e,)
        return root, proj

    def load(self, st, cell):
        v = st.m.get(cell)
        if v is not None:
            return v
        root, proj = cell
        for i in range(len(proj) - 1, -1, -1):
            v = st.m.get((root, proj[:i]))
            if v is None:
                continue
            rest = proj[i:]
            if v[0] == "s":
                c2 = (v[1], v[2] + rest)
                return ("s",) + c2
            if v[0] in ("i", "v", "n"):
                continue
            return TOP
        if isinstance(root, tuple) and root[0] == "mem":
            return TOP
        return ("s", root, proj)

    def sub(self, st, cell):
        root, proj = cell
        n = len(proj)
        return {c[1][n:]: v for c, v in st.m.items() if c[0] == root and len(c[1]) > n and c[1][:n] == proj}

    def kill(self, st, cell):
        root, proj = cell
        n = len(proj)
        for c in [c for c in st.m if c[0] == root and c[1][:n] == proj]:
            del st.m[c]

    def put(self, st, cell, v, sub=None):
        self.written(st, cell)
        self.kill(st, cell)
        st.m[cell] = v
        for p, x in (sub or {}).items():
            st.m[(cell[0], cell[1] + p)] = x

    def written(self, st, cell):
        pass

    def was_read(self, st, cell):
        pass

    def fetch(self, st, cell):
        self.was_read(st, cell)
        return self.load(st, cell), self.sub(st, cell)

    def op(self, st, o):
        """(value, sub-cells)"""
        if o[0] == "p":
            c = self.cell(st, o[1])
            v, s = self.fetch(st, c)
            if o[2]:
                if c[0] == o[1][0]:
                    self.kill(st, c)
                    st.m[c] = ("moved",)
            return v, s
        if o[0] == "k":
            if "prom" in o[1]:
                path = o[2].body.path
                root = ("prom", path, o[1]["prom"])
                v = promoted(self.prog, path, o[1]["prom"])
                st.m[(root, ())] = v
                return ("ref", root, ()), {}
            return const(o[1].get("v") or {}), {}
        return ("fn", o[1][0]), {}

    def val(self, st, o):
        return self.op(st, o)[0]

    # ------------------------------------------------------------ values
    def arith(self, name, a, b, wrap=True):
        sgn = 1 if name.startswith("Add") else -1
        if not all(isinstance(x[1], int) for x in (a, b) if x[0] in ("i", "n")):
            return ("i", "big")
        if a[0] in ("i", "n") and b[0] == "i":
            k = a[1] + sgn * b[1]
            if a[0] == "i" and k < 0:
                return ("i", "wrap")
            if k > BOUND or k < -BOUND:
                return ("i", "big")
            return (a[0], k)
        if a[0] == "i" and b[0] == "n" and sgn > 0:
            return self.arith(name, b, a)
        if a[0] == "n" and b[0] == "n" and sgn < 0:
            return ("i", a[1] - b[1])
        return ("op", name, a, b) if len(str(a)) + len(str(b)) < 400 else TOP

    def compare(self, name, a, b):
        """True / False / None"""
        flip = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
        if a[0] == "v" and b[0] == "v" and name in ("Eq", "Ne"):
            return (a[1] == b[1]) == (name == "Eq")
        if a[0] == "i" and b[0] == "n":
            return self.compare(flip[name], b, a)
        if a[0] == "i" and b[0] == "i" and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[name]
        if a[0] == "n" and b[0] == "n" and isinstance(a[1], int) and isinstance(b[1], int):
            return self.compare(name, ("i", a[1]), ("i", b[1]))
        if a[0] == "n" and b[0] == "i" and isinstance(b[1], int):
            lo = 2 + a[1]        # value >= lo
            y = b[1]
            if name == "Eq":
                return False if y < lo else None
            if name == "Ne":
                return True if y < lo else None
            if name == "Lt":
                return False if lo >= y else None
            if name == "Le":
                return False if lo > y else None
            if name == "Gt":
                return True if lo > y else None
            if name == "Ge":
                return True if lo >= y else None
        if a == b and a[0] in ("s", "op", "mem") and name in ("Eq", "Ne"):
            return name == "Eq"
        return None

    def bools(self, b):
        return [("i", 1), ("i", 0)] if b is None else [("i", 1 if b else 0)]

    # ------------------------------------------------------------ statements
    def stmt(self, st, s):
        """list of states"""
        if s[0] != "=":
            return [st]
        pl, rv = s[1], s[2]
        k = rv[0]
        if k == "use":
            v, sub = self.op(st, rv[1])
            self.put(st, self.cell(st, pl), v, sub)
        elif k in ("ref", "addr"):
            c = self.cell(st, rv[1])
            if isinstance(c[0], tuple) and c[0][0] == "mem" and not c[1]:
                v = ("mem", c[0][1])
                x = st.m.get(("view", c[0][1]))
            else:
                v = ("ref",) + c
            self.put(st, self.cell(st, pl), v)
        elif k == "cast":
            v, sub = self.op(st, rv[2])
            self.put(st, self.cell(st, pl), v, sub)
        elif k == "bin":
            a, b = self.val(st, rv[2]), self.val(st, rv[3])
            n = rv[1]
            dst = self.cell(st, pl)
            if n in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                out = []
                for v in self.bools(self.compare(n, a, b)):
                    s2 = st.copy()
                    self.put(s2, dst, v)
                    out.append(s2)
                return out
            if n in ("AddWithOverflow", "SubWithOverflow"):
                v = self.arith(n, a, b)
                out = []
                for ov in ((1,) if v == ("i", "wrap") else (0, 1) if v[0] != "i" else (0,)):
                    s2 = st.copy()
                    self.put(s2, dst, TOP, {(("f", "0"),): v, (("f", "1"),): ("i", ov)})
                    out.append(s2)
                return out
            if n in ("BitAnd", "BitOr", "BitXor") and a[0] == b[0] == "i" and {a[1], b[1]} <= {0, 1}:
                v = ("i", {"BitAnd": a[1] & b[1], "BitOr": a[1] | b[1], "BitXor": a[1] ^ b[1]}[n])
            elif n.startswith(("Add", "Sub")):
                v = self.arith(n, a, b)
            else:
                v = ("op", n, a, b) if len(str(a)) + len(str(b)) < 400 else TOP
            self.put(st, dst, v)
        elif k == "un":
            a = self.val(st, rv[2])
            v = ("i", 1 - a[1]) if rv[1] == "Not" and a[0] == "i" and a[1] in (0, 1) else TOP
            dst = self.cell(st, pl)
            if rv[1] == "Not" and v is TOP:
                return [self._with(st, dst, x) for x in self.bools(None)]
            self.put(st, dst, v)
        elif k == "discr":
            v = self.load(st, self.cell(st, rv[1]))
            self.was_read(st, self.cell(st, rv[1]))
            rev = {n: d for d, n in rv[2].items()}
            dst = self.cell(st, pl)
            if v[0] == "v" and v[1] in rev:
                d = rev[v[1]]
                self.put(st, dst, ("i", int(d)) if d.lstrip("-").isdigit() else TOP)
            else:
                # decide the variant here, so that later reads agree
                c = self.cell(st, rv[1])
                out = []
                for d, n in rv[2].items():
                    s2 = st.copy()
                    if v[0] in ("s", "top", "op"):
                        s2.m[c] = ("v", n) if not self.sub(st, c) or True else v
                    self.put(s2, dst, ("i", int(d)) if d.lstrip("-").isdigit() else TOP)
                    out.append(s2)
                return out or [st]
        elif k == "agg":
            vals = [self.op(st, o) for o in rv[3]]
            kind = rv[1]
            sub = {}
            pre = (("d", kind[2]),) if kind[0] == "adt" and kind[2] else ()
            for n, (v, s2) in zip(rv[2], vals):
                sub[pre + (("f", n),)] = v
                for p, x in s2.items():
                    sub[pre + (("f", n),) + p] = x
            self.put(st, self.cell(st, pl), ("v", kind[2]) if pre else TOP, sub)
        else:
            self.put(st, self.cell(st, pl), TOP)
        return [st]

    def _with(self, st, dst, v, sub=None):
        s2 = st.copy()
        self.put(s2, dst, v, sub)
        return s2

    # ------------------------------------------------------------ running
    def run(self, st):
        """final states at returns: [(block, state)]"""
        for e in ((0, st),):
            work = [e]
        seen = set()
        out = []
        while work:
            b, s = work.pop()
            self.collect(b, s)
            k = (b, s.key())
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > self.limit:
                raise Budget("more than %d states" % self.limit)
            for b2, s2 in self.step(b, s):
                if b2 is None:
                    out.append((b, s2))
                else:
                    work.append((b2, s2))
        return out

    def step(self, b, st):
        bl = self.g.blocks[b]
        states = [st.copy()]
        for s in bl.stmts:
            states = [y for x in states for y in self.stmt(x, s)]
        out = []
        for s in states:
            if bl.kind == "ret":
                out.append((None, s))
            elif bl.kind == "switch":
                v = self.val(s, bl.op)
                t = None
                if v[0] == "i" and isinstance(v[1], int):
                    t = [i for i, l in enumerate(bl.labels) if l is not None and int(l) == v[1]] or [i for i, l in enumerate(bl.labels) if l is None]
                    t = t[:1]
                elif v[0] == "n":
                    t = [i for i, l in enumerate(bl.labels) if l is None or int(l) >= 2 + v[1]]
                else:
                    t = range(len(bl.labels))
                for i in t:
                    out.append((bl.succ[i], s.copy()))
            elif bl.kind == "assert":
                v = self.val(s, bl.op)
                x = bl.assertion.get("x")
                want = 1 if x in (True, 1, None, "true") else 0
                if v[0] == "i" and v[1] in (0, 1) and v[1] != want:
                    continue
                for t in bl.succ:
                    out.append((t, s.copy()))
            elif bl.kind == "drop":
                pl, ty = bl.drop
                c = self.cell(s, pl)
                self.release(s, c)
                for t in bl.succ:
                    out.append((t, s.copy()))
            elif bl.kind == "call" and bl.call is not None:
                c = bl.call
                if not bl.succ:
                    continue
                if c.ext or len(bl.succ) == 1 and c.exit is None:
                    r = self.ext(s, b, c)
                    for s2 in r:
                        for t in bl.succ:
                            out.append((t, s2.copy()))
                else:
                    for t in bl.succ:
                        out.append((t, s.copy()))
            elif bl.kind == "stop":
                continue
            else:
                for t in bl.succ:
                    out.append((t, s.copy()))
        return out

    def release(self, st, c):
        """the value in the cell is dropped"""
        for v in [self.load(st, c)] + list(self.sub(st, c).values()):
            if v[0] == "guard":
                st.held.pop(v[1], None)

    # ------------------------------------------------------------ external calls
    def ext(self, st, b, c):
        return self.default(st, b, c)

    def args(self, st, c):
        return [self.op(st, a) for a in c.args]

    def res(self, st, c, v, sub=None):
        if c.dest is not None:
            self.put(st, self.cell(st, c.dest), v, sub)
        return st

    def pointee(self, st, v):
        """cell a pointer leads to, through references to references and guards"""
        for _ in range(8):
            if v[0] == "guard":
                return (v[2], v[3])
            if v[0] != "ref":
                return None
            x = st.m.get((v[1], v[2]))
            if x is not None and x[0] in ("ref", "guard"):
                v = x
                continue
            return (v[1], v[2])
        return None

    CELLNEW = r"(mutex::Mutex|rwlock::RwLock|cell::(Ref)?Cell|atomic::Atomic\w*|cell::UnsafeCell|OnceCell|Arc|Rc|Box|ManuallyDrop)(>)?::(new|from)$"

    def default(self, st, b, c):
        p, tp = c.path or "", c.tpath or ""
        if re.search(r"mutex::Mutex::lock$|rwlock::RwLock::(read|write)$|Mutex::try_lock$|RwLock::try_(read|write)$|cell::RefCell::(borrow|borrow_mut)$", p):
            vs = self.args(st, c)
            r = vs[0][0]
            inner = self.pointee(st, r)
            if inner is None:
                return [self.res(st, c, TOP)]
            cell = (inner[0], inner[1] + ("%",))
            if any(x == cell for x in st.held.values()):
                return [] if "try_" not in p else [self.res(st, c, ("v", "Err"))]
            st.held[b] = cell
            gd = ("guard", b) + cell
            if "RefCell" in p:
                return [self.res(st, c, gd)]
            dst = self.cell(st, c.dest)
            out = []
            for v in ("Ok", "Err"):
                s2 = st.copy()
                if v == "Err" and "try_" in p:
                    s2.held.pop(b, None)
                    self.put(s2, dst, ("v", v))
                else:
                    self.put(s2, dst, ("v", v), {(("d", v), ("f", "0")): gd})
                out.append(s2)
            return out
        if re.search(r"PoisonError(<.*>)?::(into_inner|get_mut|get_ref)$", p):
            v, s = self.args(st, c)[0]
            return [self.res(st, c, v, s)]
        if re.search(self.CELLNEW, p) and len(c.args) == 1:
            v, s = self.args(st, c)[0]
            if re.search(r"Box::new|Arc::new|Rc::new", p):
                root = ("heap", b)
                self.put(st, (root, ()), v, s)
                return [self.res(st, c, ("ref", root, ()))]
            sub = {("%",): v}
            sub.update({("%",) + q: x for q, x in s.items()})
            return [self.res(st, c, TOP, sub)]
        m = re.search(r"(cell::Cell|atomic::Atomic\w*|mutex::Mutex|rwlock::RwLock|cell::RefCell|UnsafeCell)(?:<.*>)?(?:>)?::(get|set|replace|take|load|store|swap|get_mut|into_inner|fetch_add|fetch_sub)$", p)
        if m:
            vs = self.args(st, c)
            inner = self.pointee(st, vs[0][0])
            if inner is not None:
                cell = (inner[0], inner[1] + ("%",))
                n = m.group(2)
                if n == "get_mut":
                    r = ("ref",) + cell
                    if "Mutex" in p or "RwLock" in p:
                        return [self.res(st, c, ("v", "Ok"), {(("d", "Ok"), ("f", "0")): r})]
                    return [self.res(st, c, r)]
                v, s = self.fetch(st, cell)
                if n in ("set", "store"):
                    self.put(st, cell, *vs[1])
                    return [self.res(st, c, ("i", 0))]
                if n in ("replace", "swap"):
                    self.put(st, cell, *vs[1])
                elif n in ("fetch_add", "fetch_sub"):
                    self.put(st, cell, self.arith("Add" if n == "fetch_add" else "Sub", v, vs[1][0]))
                elif n == "take":
                    self.put(st, cell, ("i", 0))
                return [self.res(st, c, v, s)]
        if re.search(r"core::mem::(replace|take|swap)$", p):
            vs = self.args(st, c)
            c0 = self.pointee(st, vs[0][0])
            if c0 is not None:
                v, s = self.fetch(st, c0)
                if p.endswith("replace"):
                    self.put(st, c0, *vs[1])
                elif p.endswith("take"):
                    self.put(st, c0, ("i", 0) if v[0] in ("i", "n") else TOP)
                else:
                    c1 = self.pointee(st, vs[1][0])
                    if c1 is not None:
                        w, s1 = self.fetch(st, c1)
                        self.put(st, c0, w, s1)
                        self.put(st, c1, v, s)
                    return [self.res(st, c, TOP)]
                return [self.res(st, c, v, s)]
        if re.search(r"core::mem::drop$", p):
            for a in c.args:
                if a[0] == "p":
                    self.release(st, self.cell(st, a[1]))
            return [self.res(st, c, TOP)]
        if re.search(r"Deref(Mut)?(>)?::deref(_mut)?$|AsRef(>)?::as_ref$|Borrow(>)?::borrow$", p):
            v = self.args(st, c)[0][0]
            if v[0] == "ref":
                x = st.m.get((v[1], v[2]))
                if x is not None and x[0] in ("guard", "ref"):
                    t = self.pointee(st, x)
                    return [self.res(st, c, ("ref",) + t)]
                if x is not None and x[0] in ("mem", "slice"):
                    return [self.res(st, c, x)]
        m = re.search(r"(?:u8|u16|u32|u64|usize|i\d+|isize|num::.*)::(checked|wrapping|saturating|overflowing)_(add|sub)$", p)
        if m:
            (a, _), (d, _) = self.args(st, c)
            v = self.arith(m.group(2).capitalize(), a, d)
            if m.group(1) == "checked":
                if v == ("i", "wrap"):
                    return [self.res(st, c, ("v", "None"))]
                some = self.res(st.copy(), c, ("v", "Some"), {(("d", "Some"), ("f", "0")): v})
                if v[0] == "i":
                    return [some]
                return [some, self.res(st.copy(), c, ("v", "None"))]
            if m.group(1) == "saturating":
                if v == ("i", "wrap"):
                    v = ("i", 0)
                elif v[0] == "n":
                    return [self.res(st.copy(), c, v)] + ([self.res(st.copy(), c, a)] if m.group(2) == "add" else [])
            if m.group(1) == "overflowing":
                return [self.res(st, c, TOP, {(("f", "0"),): v, (("f", "1"),): ("i", 1 if v == ("i", "wrap") else 0)})]
            return [self.res(st, c, v)]
        m = re.search(r"cmp::Partial(?:Eq|Ord)(?:<.*>)?(?:>)?::(eq|ne|lt|le|gt|ge)$", tp) or re.search(r"cmp::Partial(?:Eq|Ord)(?:<.*>)?(?:>)?::(eq|ne|lt|le|gt|ge)$", p)
        if m:
            (a, _), (d, _) = self.args(st, c)
            ca, cb = self.pointee(st, a), self.pointee(st, d)
            x = None
            if ca is not None and cb is not None:
                x = self.compare(m.group(1).capitalize(), self.fetch(st, ca)[0], self.fetch(st, cb)[0])
            return [self.res(st.copy(), c, v) for v in self.bools(x)]
        if re.search(r"NonNull(<.*>)?::(as_ptr|cast|as_ref|as_mut|new_unchecked|as_non_null_ptr)$|ptr::(mut_ptr|const_ptr)::.*::(cast|as_ref|as_mut|cast_mut|cast_const)$|(\*mut T|\*const T)::(cast\w*)$|convert::(Into|From)(<.*>)?(>)?::(into|from)$|Clone(>)?::clone$|identity$", p):
            v, s = self.args(st, c)[0]
            if v[0] == "ref":
                cc = self.pointee(st, v)
                if cc is not None:
                    x, s2 = self.fetch(st, cc)
                    if x[0] in ("mem", "slice") or "clone" in p:
                        v, s = x, s2
            return [self.res(st, c, v, s)]
        if re.search(r"NonNull(<.*>)?::new$", p):
            v, s = self.args(st, c)[0]
            out = [self.res(st.copy(), c, ("v", "Some"), {(("d", "Some"), ("f", "0")): v})]
            out.append(self.res(st.copy(), c, ("v", "None")))
            return out
        self.args(st, c)
        return [self.res(st, c, TOP)]
