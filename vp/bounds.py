"""Bounds analysis: a difference-bound (zone) abstract interpretation of inlined flow graphs.

A state maps cells (root, projection) to symbolic values and relates the integers in them by difference constraints
x - y <= c.  Values:
  ("i", t)        an integer; t = (id, c) is id + c, (None, c) is the constant c
  ("sl", t)       a slice reference of length t          ("vec", t)   a vector of length t
  ("ref", cell)   a reference to a cell                  ("v", name)  the variant an enum is in
  ("b", pred)     a boolean: ("le", t, u), ("eq", t, u), ("not", p), ("const", bool), ("mod", t, k)
  ("dsc", cell, labels)  the discriminant of a cell      ("rem", t, k)  t modulo k
  ("w", t)        bytes that are read as the number t
  ("it", t)       an iterator giving at most t elements
States at a block are kept apart by the variants enums are in.  Loops are closed by widening."""
import re

INF = float("inf")
HI = {"u8": 255, "u16": 65535, "u32": 2 ** 32 - 1, "i8": 127, "i16": 32767, "i32": 2 ** 31 - 1, "bool": 1}
INTS = ("u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128", "char")


class Zone:
    """closed set of difference constraints"""
    __slots__ = ("m", "bot")

    def __init__(self, m=None):
        self.m = m if m is not None else {}
        self.bot = False

    def copy(self):
        z = Zone(dict(self.m))
        z.bot = self.bot
        return z

    def get(self, a, b):
        return 0 if a == b else self.m.get((a, b), INF)

    def add(self, a, b, c):
        """a - b <= c"""
        if a == b:
            if c < 0:
                self.bot = True
            return
        m = self.m
        if m.get((a, b), INF) <= c:
            return
        if m.get((b, a), INF) + c < 0:
            self.bot = True
            return
        xs = [(a, 0)] + [(p, v) for (p, q), v in m.items() if q == a]
        ys = [(b, 0)] + [(q, v) for (p, q), v in m.items() if p == b]
        for x, v in xs:
            for y, w in ys:
                if x != y and v + c + w < m.get((x, y), INF):
                    m[(x, y)] = v + c + w

    def keep(self, ids):
        ids = set(ids) | {None}
        return Zone({k: v for k, v in self.m.items() if k[0] in ids and k[1] in ids})


class St:
    __slots__ = ("env", "z", "mod", "sum")

    def __init__(self, env=None, z=None, mod=frozenset(), sum=frozenset()):
        # sum: (l, n, d, c) for l = n + d + c, a length l that grows with a counter n
        self.env, self.z, self.mod, self.sum = env or {}, z or Zone(), mod, sum

    def copy(self):
        return St(dict(self.env), self.z.copy(), self.mod, self.sum)

    def diff(self, x, y):
        """x - y as a term, where one is known"""
        if y[0] is None:
            return (x[0], x[1] - y[1])
        for l, n, d, c in self.sum:
            if l == x[0] and n == y[0]:
                return (d, c + x[1] - y[1])
        return None

    # ---- terms
    def le(self, t, u):
        """t <= u always"""
        return self.z.get(t[0], u[0]) <= u[1] - t[1]

    def hi(self, t):
        return self.z.get(t[0], None) + t[1]

    def lo(self, t):
        return t[1] - self.z.get(None, t[0])

    def assume_le(self, t, u):
        self.z.add(t[0], u[0], u[1] - t[1])

    def key(self):
        return frozenset((c, v) for c, v in self.env.items() if v[0] == "v")

    def terms(self):
        return [v[1] for v in self.env.values() if v[0] in ("i", "sl", "vec", "it")]

    def ids(self):
        out = set()
        for v in self.env.values():
            walk(v, out)
        return out


def walk(v, out):
    if v[0] in ("i", "sl", "vec", "it", "rem", "w"):
        out.add(v[1][0])
    elif v[0] == "b":
        def p(x):
            if x[0] in ("le", "eq"):
                out.add(x[1][0])
                out.add(x[2][0])
            elif x[0] == "not":
                p(x[1])
            elif x[0] == "mod":
                out.add(x[1][0])
        p(v[1])
    out.discard(None)


def under(c, d):
    """cell d lies in cell c"""
    return d[0] == c[0] and d[1][:len(c[1])] == c[1]


def negate(p):
    if p[0] == "le":
        return ("le", (p[2][0], p[2][1] + 1), p[1])
    if p[0] == "not":
        return p[1]
    if p[0] == "const":
        return ("const", not p[1])
    return ("not", p)


class Bounds:

    MAXPART = 48

    def __init__(self, g, sure=None, lemma=None):
        """sure: calls that do not fail; lemma(self, st, what, pred): an obligation discharged otherwise"""
        self.sure, self.lemma = sure, lemma
        self.keylen = None     # length of every guarded buffer, if known
        self.g, self.prog = g, g.prog
        self.objty = {}
        self.bad = {}          # (block, what) -> detail
        self.sites = {}        # (block, what): obligations seen
        self.blk = None
        self.n = 0
        self.live()
        self.heads()

    # ------------------------------------------------------------ preparation
    def live(self):
        g = self.g
        use, deff = [], []
        for b in g.blocks:
            u, d = 0, 0
            for v, isdef in vars_of_block(b):
                bit = 1 << v
                if isdef:
                    if not u & bit:
                        d |= bit
                elif not d & bit:
                    u |= bit
            use.append(u)
            deff.append(d)
        if g.rets:
            for r in g.rets:
                use[r] |= (1 << g.retvar) & ~deff[r]
        L = list(use)
        work = list(range(len(g.blocks)))
        while work:
            b = work.pop()
            o = 0
            for s in g.blocks[b].succ:
                o |= L[s]
            n = use[b] | (o & ~deff[b])
            if n != L[b]:
                L[b] = n
                work.extend(g.preds[b])
            else:
                L[b] = n
        # until stable
        ch = True
        while ch:
            ch = False
            for b in range(len(g.blocks) - 1, -1, -1):
                o = 0
                for s in g.blocks[b].succ:
                    o |= L[s]
                n = use[b] | (o & ~deff[b])
                if n != L[b]:
                    L[b] = n
                    ch = True
        self.L = L

    def heads(self):
        """reverse post order, loop heads"""
        g = self.g
        seen, onst, order, heads = set(), set(), [], set()
        st = [(g.entry, iter(g.blocks[g.entry].succ))]
        seen.add(g.entry)
        onst.add(g.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s in onst:
                    heads.add(s)
                elif s not in seen:
                    seen.add(s)
                    onst.add(s)
                    st.append((s, iter(g.blocks[s].succ)))
                    break
            else:
                st.pop()
                onst.discard(b)
                order.append(b)
        self.rpo = {b: i for i, b in enumerate(reversed(order))}
        self.loop = heads

    # ------------------------------------------------------------ cells
    def ty(self, cell):
        root, proj = cell
        t = self.g.vars[root][2] if isinstance(root, int) else self.objty.get(root, ("other", "?"))
        for e in proj:
            t = self.g._proj_ty(t, e)
        return t

    def fresh(self, st, t=None, name=None):
        self.n += 1
        i = (self.blk, self.n if name is None else name)
        if any(x[0] == i or x[1] == i for x in st.z.m) or i in st.ids():
            st.sum = frozenset(x for x in st.sum if i not in x[:3])
            for c in [c for c, v in st.env.items() if self._has(v, i)]:
                del st.env[c]
            st.z = st.z.keep((st.ids() | {x[2] for x in st.sum}) - {i})
            st.mod = frozenset(x for x in st.mod if x[0] != i)
        p = t[1] if t and t[0] == "prim" else "usize"
        if p[0] in "ub":
            st.z.add(None, i, 0)
        if p in HI:
            st.z.add(i, None, HI[p])
            if p[0] == "i":
                st.z.add(None, i, HI[p] + 1)
        return (i, 0)

    @staticmethod
    def _has(v, i):
        s = set()
        walk(v, s)
        return i in s

    def cell(self, st, pl):
        """the cell a place denotes, None if unknown"""
        v, proj = pl
        c = (v, ())
        for e in proj:
            if e == "*":
                t = self.ty(c)
                if t[0] == "adt":
                    c = (c[0], c[1] + (("f", "*box"),))
                    continue
                r = self.read(st, c)
                if r is None or r[0] != "ref":
                    return None
                c = r[1]
            elif e == "[]" or e == "s" or isinstance(e, tuple) and e[0] == "i":
                return None
            else:
                c = (c[0], c[1] + (e,))
        return c

    def read(self, st, c):
        v = st.env.get(c)
        if v is not None:
            return v
        v = self.make(st, self.ty(c), c)
        if v is not None:
            st.env[c] = v
        return v

    def make(self, st, t, c=None):
        """an unknown value of a type"""
        if t[0] == "prim" and t[1] in INTS:
            return ("i", self.fresh(st, t))
        if t[0] == "ref" or t[0] == "ptr":
            u = t[1]
            if u[0] == "slice" or u == ("prim", "str") or u[0] == "str":
                return ("sl", self.fresh(st))
            if t[0] == "ref" and c is not None:
                self.n += 1
                root = ("obj", self.blk, self.n)
                self.objty[root] = u
                for x in [x for x, v in st.env.items() if x[0] == root or v[0] in ("ref", "dsc") and v[1][0] == root]:
                    del st.env[x]
                return ("ref", (root, ()))
            return None
        if is_vec(t):
            return ("vec", self.fresh(st))
        return None

    def kill(self, st, c):
        for x in [x for x in st.env if under(c, x)]:
            del st.env[x]

    def write(self, st, c, v):
        if c is None:
            return
        self.kill(st, c)
        # the cell's owners no longer hold what they held as a whole
        for k in range(len(c[1])):
            o = (c[0], c[1][:k])
            if o in st.env and st.env[o][0] != "v":
                del st.env[o]
        if v is not None:
            st.env[c] = v

    def havoc(self, st, v, cell=None, seen=None):
        """anything a callee may change through a value it got"""
        seen = set() if seen is None else seen
        if v is not None and v[0] == "ref" and v[1] not in seen:
            seen.add(v[1])
            inner = [(x, st.env[x]) for x in st.env if under(v[1], x)]
            self.kill(st, v[1])
            for x, w in inner:
                self.havoc(st, w, x, seen)

    def pass_arg(self, st, o):
        """an argument is handed to unknown code"""
        if o[0] != "p":
            return
        t = self.g.ty_of_place(o[1])
        c = self.cell(st, o[1])
        if c is None:
            return
        if t[0] == "ref":
            if t[2]:
                self.havoc(st, self.read(st, c))
            return
        for x in [x for x in st.env if under(c, x)]:
            v = st.env.get(x)
            if v and v[0] == "ref":
                tt = self.ty(x)
                if tt[0] != "ref" or tt[2]:
                    self.havoc(st, v)

    # ------------------------------------------------------------ values
    def const(self, st, k, c):
        v = k.get("v") or {}
        ty = self.g.ty_of_op(("k", k, c)) if k.get("ty") is not None else ("other", "?")
        if "int" in v:
            try:
                n = int(v["int"])
            except (TypeError, ValueError):
                return None
            if ty == ("prim", "bool"):
                return ("b", ("const", bool(n)))
            return ("i", (None, n))
        if ty[0] == "ref":
            u = ty[1]
            if u[0] == "array" and str(u[2]).isdigit():
                return ("sl", (None, int(u[2])))
            if u == ("prim", "str") or u[0] == "str":
                return ("sl", (None, len(v["str"]) if isinstance(v.get("str"), str) else 0)) if "str" in v else ("sl", self.fresh(st))
            return self.make(st, ty, ("k", ()))
        return self.make(st, ty)

    def op(self, st, o):
        if o[0] == "k":
            return self.const(st, o[1], o[2])
        if o[0] == "p":
            c = self.cell(st, o[1])
            if c is None:
                return self.make(st, self.g.ty_of_place(o[1]))
            return self.read(st, c)
        return None

    def term(self, st, o):
        """the integer an operand is"""
        v = self.op(st, o)
        if v is not None and v[0] == "i":
            return v[1]
        return self.fresh(st, self.g.ty_of_op(o))

    def length(self, st, v):
        """length of what a value is or refers to"""
        for _ in range(4):
            if v is None:
                return None
            if v[0] in ("sl", "vec"):
                return v[1]
            if v[0] == "ref":
                n = array_len(self.ty(v[1]))
                if n is not None:
                    return (None, n)
                v = self.read(st, v[1])
                continue
            return None
        return None

    def olen(self, st, o):
        t = self.length(st, self.op(st, o))
        if t is None and o[0] in ("p", "k"):
            ty = self.g.ty_of_op(o)
            while ty[0] == "ref":
                ty = ty[1]
            if array_len(ty) is not None:
                return (None, array_len(ty))
        return t if t is not None else self.fresh(st)

    def copy(self, st, dst, src):
        """cell dst becomes what cell src is"""
        sub = [(x[1][len(src[1]):], v) for x, v in st.env.items() if under(src, x)]
        self.write(st, dst, None)
        for p, v in sub:
            st.env[(dst[0], dst[1] + p)] = v

    def arith(self, st, name, x, y, t):
        """value of x op y (no overflow)"""
        a, b = x, y
        if name == "Add":
            if a[0] is None:
                a, b = b, a
            if b[0] is None:
                return (a[0], a[1] + b[1])
            f = self.fresh(st, None)
            for p, q in ((a, b), (b, a)):
                if st.lo(q) > -INF:
                    st.assume_le((p[0], p[1] + st.lo(q)), f)
                if st.hi(q) < INF:
                    st.assume_le(f, (p[0], p[1] + st.hi(q)))
                for l, n, d, c in st.sum:
                    if q[0] == n:
                        k = st.z.get(p[0], d) + p[1] + q[1] - c
                        if k < INF:
                            st.assume_le(f, (l, k))
                        k = st.z.get(d, p[0]) - p[1] - q[1] + c
                        if k < INF:
                            st.assume_le((l, -k), f)
            return f
        if name == "Sub":
            if b[0] is None:
                return (a[0], a[1] - b[1])
            if a[0] == b[0]:
                return (None, a[1] - b[1])
            f = self.fresh(st, t if t and t[0] == "prim" else None)
            if st.lo(b) > -INF:
                st.assume_le(f, (a[0], a[1] - st.lo(b)))
            if st.hi(b) < INF:
                st.assume_le((a[0], a[1] - st.hi(b)), f)
            # a - b in terms of the difference already known
            d = st.z.get(a[0], b[0]) + a[1] - b[1]
            if d < INF:
                st.assume_le(f, (None, d))
            d = st.z.get(b[0], a[0]) + b[1] - a[1]
            if d < INF:
                st.assume_le((None, -d), f)
            return f
        f = self.fresh(st, t)
        ha, hb = st.hi(a), st.hi(b)
        if name == "BitAnd":
            for h in (a, b):
                if st.lo(h) >= 0:
                    st.assume_le(f, h)
        elif name == "Shr":
            if st.lo(a) >= 0:
                st.assume_le(f, a)
                if ha < INF and b[0] is None:
                    st.assume_le(f, (None, int(ha) >> b[1]))
        elif name == "Rem":
            if b[0] is None and b[1] > 0 and st.lo(a) >= 0:
                st.assume_le(f, (None, b[1] - 1))
                st.assume_le(f, a)
            elif st.lo(a) >= 0 and st.lo(b) >= 1:
                st.assume_le(f, (b[0], b[1] - 1))
        elif name == "Div":
            if st.lo(a) >= 0:
                st.assume_le(f, a)
                if ha < INF and b[0] is None and b[1] > 0:
                    st.assume_le(f, (None, int(ha) // b[1]))
        elif name == "Mul":
            if ha < INF and hb < INF and st.lo(a) >= 0 and st.lo(b) >= 0:
                st.assume_le(f, (None, int(ha * hb)))
            if b[0] is None and b[1] >= 1 and st.lo(a) >= 0:
                st.assume_le(a, f)
        elif name == "BitOr":
            if ha < INF and hb < INF:
                st.assume_le(f, (None, (1 << max(int(ha), int(hb)).bit_length()) - 1))
        return f

    def rvalue(self, st, rv, dty):
        """(value, sub) of an rvalue: sub are cells below it"""
        k = rv[0]
        if k == "use":
            return self.op(st, rv[1]), None
        if k in ("ref", "addr"):
            v, proj = rv[1]
            if proj and proj[-1] == "*":
                inner = self.op(st, ("p", (v, proj[:-1]), False))
                if inner is not None and inner[0] in ("sl", "ref"):
                    return inner, None
            t = self.g.ty_of_place(rv[1])
            if t[0] == "slice" or t == ("prim", "str"):
                return ("sl", self.fresh(st)), None
            c = self.cell(st, rv[1])
            if c is not None:
                return ("ref", c), None
            return self.make(st, dty, ("r", ())), None
        if k == "cast":
            v = self.op(st, rv[2])
            if "Unsize" in rv[1]:
                t = self.length(st, v)
                u = self.g.ty_of_op(rv[2])
                if t is not None and rv[3][0] in ("ref", "ptr") and rv[3][1][0] == "slice":
                    return ("sl", t), None
                return v if v and v[0] == "sl" else self.make(st, rv[3]), None
            if v is not None and v[0] == "i" and rv[3][0] == "prim":
                p = rv[3][1]
                if p in HI and not (st.hi(v[1]) <= HI[p] and st.lo(v[1]) >= (0 if p[0] == "u" else -HI[p] - 1)):
                    return self.make(st, rv[3]), None
                if p[0] == "u" and st.lo(v[1]) < 0:
                    return self.make(st, rv[3]), None
                return v, None
            if v is not None and v[0] in ("sl", "ref") and "IntToInt" not in rv[1]:
                return v, None
            if v is not None and v[0] == "b":
                i = self.fresh(st, ("prim", "bool"))
                return ("i", i), None
            return self.make(st, rv[3]), None
        if k == "bin":
            return self.binary(st, rv, dty)
        if k == "un":
            v = self.op(st, rv[2])
            if rv[1] == "Not" and v is not None and v[0] == "b":
                return ("b", negate(v[1])), None
            if rv[1] == "PtrMetadata" or rv[1] == "Len":
                t = self.length(st, v)
                return ("i", t if t is not None else self.fresh(st)), None
            return self.make(st, dty), None
        if k == "discr":
            c = self.cell(st, rv[1])
            if c is not None:
                return ("dsc", c, tuple(sorted(rv[2].items()))), None
            return None, None
        if k == "agg":
            sub = []
            pre = (("d", rv[1][2]),) if rv[1][0] == "adt" and rv[1][2] else ()
            for n, o in zip(rv[2], rv[3]):
                if o[0] == "p":
                    c = self.cell(st, o[1])
                    if c is not None:
                        v = self.read(st, c)
                        for x, w in list(st.env.items()):
                            if under(c, x):
                                sub.append((pre + (("f", n),) + x[1][len(c[1]):], w))
                        continue
                v = self.op(st, o)
                if v is not None:
                    sub.append((pre + (("f", n),), v))
            if rv[1][0] == "adt" and rv[1][2]:
                return ("v", rv[1][2]), sub
            return None, sub
        return self.make(st, dty), None

    CMP = ("Lt", "Le", "Gt", "Ge", "Eq", "Ne")

    def binary(self, st, rv, dty):
        name = rv[1]
        ta = self.g.ty_of_op(rv[2])
        if name in self.CMP:
            va, vb = self.op(st, rv[2]), self.op(st, rv[3])
            for p, q in ((va, vb), (vb, va)):
                if p and p[0] == "rem" and q and q[0] == "i" and q[1] == (None, 0) and name in ("Eq", "Ne"):
                    m = ("mod", p[1], p[2])
                    return ("b", m if name == "Eq" else ("not", m)), None
            if va and va[0] == "b" and vb and vb[0] == "b" and name in ("Eq", "Ne"):
                for p, q in ((va, vb), (vb, va)):
                    if q[1][0] == "const":
                        return ("b", p[1] if q[1][1] == (name == "Eq") else negate(p[1])), None
                return self.make(st, ("prim", "bool")), None
            if not (ta[0] == "prim" and ta[1] in INTS):
                return None, None
            a, b = self.num(st, va, ta), self.num(st, vb, ta)
            le = lambda x, y, d=0: ("le", (x[0], x[1] + d), y)
            p = {"Lt": le(a, b, 1), "Le": le(a, b), "Gt": le(b, a, 1), "Ge": le(b, a), "Eq": ("eq", a, b), "Ne": ("not", ("eq", a, b))}[name]
            return ("b", p), None
        over = name.endswith("WithOverflow")
        base = name.replace("WithOverflow", "").replace("Unchecked", "")
        va, vb = self.op(st, rv[2]), self.op(st, rv[3])
        if ta == ("prim", "bool") or not (ta[0] == "prim" and ta[1] in INTS):
            return None, None
        a, b = self.num(st, va, ta), self.num(st, vb, ta)
        if base == "Rem" and b[0] is None and b[1] > 0 or base == "BitAnd" and b[0] is None and b[1] > 0 and (b[1] & (b[1] + 1)) == 0:
            return ("rem", a, b[1] + (1 if base == "BitAnd" else 0)), None
        if not over and base in ("Add", "Sub", "Mul", "Shl") and not self.fits(st, base, a, b, ta):
            return self.make(st, ta), None             # wraps
        if not over:
            return ("i", self.arith(st, base, a, b, ta)), None
        pred = self.overflows(st, base, a, b, ta)
        # the result is computed as if it fits: the overflow is checked where it is asserted
        if base == "Sub" and ta[1][0] == "u":
            r = self.arith_sub(st, a, b, ta)
        else:
            r = self.arith(st, base, a, b, None)
        return None, [((("f", "0"),), ("i", r)), ((("f", "1"),), ("b", pred))]

    def arith_sub(self, st, a, b, t):
        """a - b of a type without negative numbers, where the caller asserts b <= a afterwards"""
        if b[0] is None or a[0] == b[0]:
            return self.arith(st, "Sub", a, b, None)
        f = self.fresh(st, None)
        if st.lo(b) > -INF:
            st.assume_le(f, (a[0], a[1] - st.lo(b)))
        if st.hi(b) < INF and st.le(b, a):
            st.assume_le((a[0], a[1] - st.hi(b)), f)
        if st.le(b, a):
            d = st.z.get(a[0], b[0]) + a[1] - b[1]
            if d < INF:
                st.assume_le(f, (None, d))
            d = st.z.get(b[0], a[0]) + b[1] - a[1]
            if d < INF:
                st.assume_le((None, -d), f)
        return f

    def num(self, st, v, t):
        if v is not None and v[0] == "i":
            return v[1]
        if v is not None and v[0] == "rem":
            f = self.fresh(st, t)
            st.assume_le(f, (None, v[2] - 1))
            if st.lo(v[1]) >= 0:
                st.assume_le(f, v[1])
            return f
        return self.fresh(st, t)

    def fits(self, st, base, a, b, t):
        return self.overflows(st, base, a, b, t) == ("const", False)

    def overflows(self, st, base, a, b, t):
        hi = HI.get(t[1])
        if base == "Sub" and t[1][0] == "u":
            if st.le(b, a):
                return ("const", False)
            return ("le", (a[0], a[1] + 1), b)
        if base == "Add":
            if hi is None:
                return ("const", False)                     # sums of lengths fit (assumption)
            if st.hi(a) + st.hi(b) <= hi:
                return ("const", False)
        if base == "Mul":
            if st.hi(a) * st.hi(b) <= (hi or 2 ** 63):
                return ("const", False)
        return ("unknown",)

    # ------------------------------------------------------------ conditions
    def assume(self, st, p):
        """states in which p holds (a list: a disequality splits); [] if it cannot hold"""
        if p[0] == "const":
            return [st] if p[1] else []
        if p[0] == "le":
            st.assume_le(p[1], p[2])
            return [] if st.z.bot else [st]
        if p[0] == "eq":
            st.assume_le(p[1], p[2])
            st.assume_le(p[2], p[1])
            return [] if st.z.bot else [st]
        if p[0] == "mod":
            if p[1][0] is None:
                return [st] if p[1][1] % p[2] == 0 else []
            st.mod = st.mod | {(p[1][0], p[1][1] % p[2], p[2])}
            return [st]
        if p[0] == "not":
            q = p[1]
            if q[0] == "eq":
                a, b = q[1], q[2]
                if st.le(a, b) and st.le(b, a):
                    return []
                if st.le(a, b):
                    return self.assume(st, ("le", (a[0], a[1] + 1), b))
                if st.le(b, a):
                    return self.assume(st, ("le", (b[0], b[1] + 1), a))
                return [st]
            if q[0] == "le":
                return self.assume(st, negate(q))
            return [st]
        return [st]

    def holds(self, st, p):
        s = st.copy()
        return not self.assume(s, negate(p)) if p[0] != "unknown" else False

    def need(self, st, what, ok, detail):
        k = (self.blk, what)
        self.sites[k] = detail
        if not ok:
            self.bad.setdefault(k, detail)

    # ------------------------------------------------------------ statements
    def stmt(self, st, s):
        if s[0] == "dead":
            self.kill(st, (s[1], ()))
            return
        if s[0] == "sd":
            c = self.cell(st, s[1])
            if c is not None:
                self.write(st, c, ("v", s[2]) if isinstance(s[2], str) else None)
            return
        if s[0] != "=":
            return
        dst = self.cell(st, s[1])
        rv = s[2]
        if rv[0] == "use" and rv[1][0] == "p":
            src = self.cell(st, rv[1][1])
            if src is not None and dst is not None:
                self.read(st, src)
                self.word(st, src)
                if src != dst:
                    self.copy(st, dst, src)
                return
        if rv[0] in ("ref", "addr"):
            self.unword(st, rv[1])
        v, sub = self.rvalue(st, rv, self.g.ty_of_place(s[1]))
        if dst is None:
            self.unword(st, s[1])
            return
        self.write(st, dst, v)
        for p, w in sub or ():
            st.env[(dst[0], dst[1] + p)] = w

    def word(self, st, c):
        """bytes behind a reference that are copied as a whole: they are the same number wherever they are used"""
        if not isinstance(c[0], tuple):
            return
        t = self.ty(c)
        if t[0] == "adt" and t[1] in self.g.prog.adts:
            n = (c[0], c[1] + (("f", "0"),))
            if self.ty(n)[0] == "array":
                c, t = n, self.ty(n)
        if t[0] == "array" and t[1] == ("prim", "u8") and str(t[2]) == "8" and c not in st.env:
            st.env[c] = ("w", self.fresh(st, ("prim", "u64")))

    def unword(self, st, pl):
        """bytes that may be changed one by one"""
        for x in [x for x, v in st.env.items() if v[0] == "w" and x[0] == pl[0]]:
            del st.env[x]

    # ------------------------------------------------------------ control
    def gc(self, st, b):
        L = self.L[b]
        roots = set()
        work = []
        byroot = {}
        for c in st.env:
            byroot.setdefault(c[0], []).append(c)
        for r in byroot:
            if isinstance(r, int) and L >> r & 1:
                roots.add(r)
                work.append(r)
        def visit(v):
            if v[0] in ("ref", "dsc") and v[1][0] not in roots:
                roots.add(v[1][0])
                work.append(v[1][0])
        while work:
            r = work.pop()
            for c in byroot.get(r, ()):
                visit(st.env[c])
        st.env = {c: v for c, v in st.env.items() if c[0] in roots}
        ids = st.ids() | {m[0] for m in st.mod}
        st.sum = frozenset(x for x in st.sum if x[0] in ids and x[1] in ids)
        st.z = st.z.keep(ids | {x[2] for x in st.sum})
        return st

    def join(self, a, b, blk, widen):
        """a: the state so far, b: a new one"""
        env, pairs = {}, {}
        for c, x in a.env.items():
            y = b.env.get(c)
            if y is None:
                # a payload only one side has: the other never looks at it
                if any(e[0] == "d" for e in c[1] if isinstance(e, tuple)):
                    if self.absent(b, c):
                        env[c] = x
                continue
            if x == y:
                env[c] = x
            elif x[0] == y[0] and x[0] in ("i", "sl", "vec", "it"):
                pairs.setdefault((x[1], y[1]), []).append((c, x[0]))
        for c, y in b.env.items():
            if c not in a.env and any(e[0] == "d" for e in c[1] if isinstance(e, tuple)) and self.absent(a, c):
                env[c] = y
        reps = {}
        used = St(env).ids()
        for (x, y), cs in pairs.items():
            pid = (("phi", blk) + min(map(_ck, cs)))
            while pid in used:
                pid = pid + ("'",)
            used.add(pid)
            reps[pid] = (x, y)
            for c, kind in cs:
                env[c] = (kind, (pid, 0))
        new = St(env)
        ids = new.ids() | {m[0] for m in a.mod & b.mod}
        ta = {i: reps[i][0] if i in reps else (i, 0) for i in ids}
        tb = {i: reps[i][1] if i in reps else (i, 0) for i in ids}
        ta[None] = tb[None] = (None, 0)
        # lengths that grow along with a counter
        kinds = {pid: {k for _, k in pairs[xy]} for pid, xy in reps.items()}
        cand = {(p, q) for p in reps for q in reps if p != q and "vec" in kinds[p] and "i" in kinds[q]}
        cand |= {(l, n) for l, n, _, _ in a.sum | b.sum if l in ids and n in ids}
        facts = set()
        for p, q in cand:
            d = a.diff(ta[p], ta[q])
            e = b.diff(tb[p], tb[q])
            if d is None or e is None:
                continue
            if d == e and d[0] is not None and d[0] not in reps:
                facts.add((p, q) + d)
                ta.setdefault(d[0], (d[0], 0))
                tb.setdefault(d[0], (d[0], 0))
            else:
                i = ("phi", blk, "sum", p, q) if len(str(p)) + len(str(q)) < 400 else None
                if i is not None and i not in used:
                    used.add(i)
                    facts.add((p, q, i, 0))
                    ta[i], tb[i] = d, e
        new.sum = frozenset(facts)
        ids |= {f[2] for f in facts}
        m = {}
        al = list(ids) + [None]
        ga, gb = a.z.get, b.z.get
        for p in al:
            for q in al:
                if p == q:
                    continue
                x = ga(ta[p][0], ta[q][0]) + ta[p][1] - ta[q][1]
                if x == INF:
                    continue
                y = gb(tb[p][0], tb[q][0]) + tb[p][1] - tb[q][1]
                if y == INF:
                    continue
                if widen and y > x:
                    continue
                m[(p, q)] = max(x, y)
        new.z = Zone(m)
        new.mod = a.mod & b.mod
        return new

    def absent(self, st, c):
        """in this state the enum that would hold cell c is in another variant"""
        for k, e in enumerate(c[1]):
            if isinstance(e, tuple) and e[0] == "d":
                v = st.env.get((c[0], c[1][:k]))
                if v is not None and v[0] == "v" and v[1] != e[1]:
                    return True
        return False

    def same(self, a, b):
        return a.env == b.env and a.z.m == b.z.m and a.mod == b.mod and a.sum == b.sum

    def run(self, st, limit=20000):
        """limit: steps"""
        import heapq
        states = {}                   # block -> {key: state}
        visits = {}
        q = []
        pend = set()

        def flow(b, st):
            st = self.gc(st, b)
            d = states.setdefault(b, {})
            k = st.key()
            if len(d) >= self.MAXPART and k not in d:
                k = "*"
            old = d.get(k)
            if old is None:
                d[k] = st
            else:
                n = visits.get((b, k), 0) + 1
                visits[(b, k)] = n
                j = self.join(old, st, b, b in self.loop and n > 2 or n > 40)
                if self.same(j, old):
                    return
                d[k] = j
            if (b, k) not in pend:
                pend.add((b, k))
                heapq.heappush(q, (self.rpo.get(b, 10 ** 9), b, str(k), k))
        self.blk = self.g.entry
        self.n = 0
        flow(self.g.entry, st)
        steps = 0
        while q:
            _, b, _, k = heapq.heappop(q)
            pend.discard((b, k))
            steps += 1
            if steps > limit:
                self.bad[(b, "limit")] = "the analysis does not end"
                break
            s = states[b][k].copy()
            for nb, ns in self.step(b, s):
                flow(nb, ns)
        self.states = states
        self.steps = steps

    def step(self, bid, st):
        b = self.g.blocks[bid]
        self.blk = bid
        self.n = 0
        for s in b.stmts:
            self.stmt(st, s)
        if b.kind == "switch":
            return self.switch(b, st)
        if b.kind == "assert":
            return self.check(b, st)
        if b.kind == "call" and b.call is not None and (b.call.ext or b.call.rec):
            return self.call(b, st)
        out = []
        for s in b.succ:
            out.append((s, st.copy() if len(b.succ) > 1 else st))
        return out

    def switch(self, b, st):
        v = self.op(st, b.op)
        out = []
        if v is not None and v[0] == "dsc":
            lab = dict(v[2])
            cur = st.env.get(v[1])
            done = set()
            for l, s in zip(b.labels, b.succ):
                if l is not None:
                    n = lab.get(str(l))
                    done.add(n)
                    if cur is not None and cur[0] == "v" and cur[1] != n:
                        continue
                    ns = st.copy()
                    if n is not None:
                        self.variant(ns, v[1], n)
                    out.append((s, ns))
                else:
                    rest = [x for x in lab.values() if x not in done]
                    if cur is not None and cur[0] == "v" and cur[1] in done:
                        continue
                    if not rest:
                        continue
                    ns = st.copy()
                    if len(rest) == 1:
                        self.variant(ns, v[1], rest[0])
                    out.append((s, ns))
            return out
        ty = self.g.ty_of_op(b.op)
        seen = []
        for l, s in zip(b.labels, b.succ):
            if v is not None and v[0] == "b":
                truth = (str(l) not in ("0", "false")) if l is not None else ("0" in [str(x) for x in b.labels])
                p = v[1] if truth else negate(v[1])
                if p[0] in ("unknown",) or p == ("not", ("unknown",)):
                    out.append((s, st.copy()))
                else:
                    out += [(s, x) for x in self.assume(st.copy(), p)]
            elif v is not None and v[0] == "i":
                if l is not None:
                    seen.append(int(l))
                    out += [(s, x) for x in self.assume(st.copy(), ("eq", v[1], (None, int(l))))]
                else:
                    cur = [st.copy()]
                    for k in seen:
                        cur = [y for x in cur for y in self.assume(x, ("not", ("eq", v[1], (None, k))))]
                    out += [(s, x) for x in cur]
            elif v is not None and v[0] == "rem":
                if l is not None and int(l) == 0:
                    out += [(s, x) for x in self.assume(st.copy(), ("mod", v[1], v[2]))]
                else:
                    out.append((s, st.copy()))
            else:
                out.append((s, st.copy()))
        return out

    def variant(self, st, c, n):
        st.env[c] = ("v", n)
        for x in [x for x in st.env if under(c, x) and len(x[1]) > len(c[1]) and isinstance(x[1][len(c[1])], tuple) and x[1][len(c[1])][0] == "d" and x[1][len(c[1])][1] != n]:
            del st.env[x]

    def check(self, b, st):
        m, x = b.assertion["m"], b.assertion["x"]
        v = self.op(st, b.op)
        if m == "bounds":
            i, n = self.term(st, b.assertion["idx"]), self.term(st, b.assertion["len"])
            p = ("le", (i[0], i[1] + 1), n)
            self.need(st, "index", self.holds(st, p), "an index may be out of bounds")
        elif m.startswith("overflow:Sh"):
            return [(s, st) for s in b.succ]
        else:
            p = v[1] if v is not None and v[0] == "b" else ("unknown",)
            if p[0] != "unknown" and not x:
                p = negate(p)
            self.need(st, m, p[0] != "unknown" and self.holds(st, p) or bool(self.lemma and self.lemma(self, st, m, p)), {"overflow:Sub": "a difference may be negative", "overflow:Add": "a sum may overflow", "overflow:Mul": "a product may overflow",
                      "rem0": "a remainder by zero", "div0": "a division by zero"}.get(m, m))
        if p[0] == "unknown":
            return [(s, st) for s in b.succ]
        return [(s, y) for s in b.succ for y in self.assume(st, p)]

    # ------------------------------------------------------------ calls
    def call(self, b, st):
        c = b.call
        name = c.path or ""
        if not b.succ:
            if not re.search(r"process::(exit|abort)$", name):
                self.need(st, "panic", False, "%s is reached" % short(name))
            return []
        if self.keylen is not None and re.search(r"buffer::Ref as core::ops::deref::Deref>::deref$|buffer::Ref .*::as_ref$", name):
            r = self.ret(st, c, ("sl", (None, self.keylen)))
        else:
            r = self.infallible(st, c, name) if self.sure and re.search(self.sure, name) else self.model(st, b, c, name)
        nxt = b.succ
        if r is None:
            for o in c.args:
                self.pass_arg(st, o)
            if c.dest is not None:
                d = self.cell(st, c.dest)
                if d is not None:
                    self.write(st, d, None)
            r = [st]
        return [(s, x.copy()) for s in nxt for x in r]

    def infallible(self, st, c, name):
        """a call assumed to succeed"""
        if re.search(r"(Buffer|NonContiguousMemory)(<.*>)?::alloc$", name) and len(c.args) >= 2:
            n, k = self.olen(st, c.args[0]), self.term(st, c.args[1])
            self.need(st, "alloc", n is not None and k is not None and st.le(k, n) and ("NonContiguous" in name or st.le(n, k)), "memory of another size than its content is allocated")
        for o in c.args:
            self.pass_arg(st, o)
        t = self.g.ty_of_place(c.dest)[1] if c.dest is not None else ""
        return self.ret(st, c, ("v", "Ok") if str(t).endswith("Result") else ("v", "Some") if str(t).endswith("Option") else None)

    def ret(self, st, c, v, sub=()):
        if c.dest is not None:
            d = self.cell(st, c.dest)
            if d is not None:
                self.write(st, d, v)
                for p, w in sub:
                    st.env[(d[0], d[1] + p)] = w
        return [st]

    def option(self, st, c, n, v):
        return self.ret(st, c, ("v", n), [((("d", n), ("f", "0")), v)] if v is not None else ())

    def found(self, st, c, t, at=()):
        """None, or an index below t"""
        f = self.fresh(st)
        out = self.option(st.copy(), c, "None", None)
        st.assume_le((f[0], f[1] + 1), t)
        return out if st.z.bot else out + self.ret(st, c, ("v", "Some"), [((("d", "Some"), ("f", "0")) + at, ("i", f))])

    def range(self, st, o, n):
        """(start, end) of a range operand used on something of length n; end exclusive"""
        t = self.g.ty_of_op(o)
        p = t[1] if t[0] == "adt" else ""
        def f(name):
            if o[0] != "p":
                return None
            c = self.cell(st, (o[1][0], o[1][1] + (("f", name),)))
            v = self.read(st, c) if c is not None else None
            return v[1] if v is not None and v[0] == "i" else self.fresh(st)
        z = (None, 0)
        if p.endswith("::RangeFull"):
            return z, n
        if p.endswith("::RangeTo"):
            return z, f("end")
        if p.endswith("::RangeFrom"):
            return f("start"), n
        if p.endswith("::Range"):
            return f("start"), f("end")
        if p.endswith("::RangeInclusive"):
            e = f("end")
            return f("start"), (e[0], e[1] + 1)
        if p.endswith("::RangeToInclusive"):
            e = f("end")
            return z, (e[0], e[1] + 1)
        if t[0] == "prim":
            i = self.term(st, o)
            return i, (i[0], i[1] + 1)
        return None

    def vec(self, st, o):
        """cell of the vector an operand refers to"""
        v = self.op(st, o)
        for _ in range(3):
            if v is None or v[0] != "ref":
                return None
            if is_vec(self.ty(v[1])):
                return v[1]
            v = self.read(st, v[1])
        return None

    def model(self, st, b, c, name):
        a = c.args
        dty = self.g.ty_of_place(c.dest) if c.dest is not None else ("other", "?")
        last = name.rpartition("::")[2]
        slicey = re.search(r"\[T\]|slice::|Vec|\[T;_\]|str\b|String|array::", name)
        if last in ("len",) and slicey:
            return self.ret(st, c, ("i", self.olen(st, a[0])))
        if last == "is_empty" and slicey:
            return self.ret(st, c, ("b", ("eq", self.olen(st, a[0]), (None, 0))))
        if last in ("index", "index_mut", "get_unchecked") and slicey:
            n = self.olen(st, a[0])
            r = self.range(st, a[1], n)
            if r is None:
                self.need(st, "index", False, "an unknown index")
                return None
            s, e = r
            if self.g.ty_of_op(a[1])[0] == "prim":
                ok = st.le(e, n) and st.lo(s) >= 0
            else:
                ok = st.le(s, e) and st.le(e, n)
            self.need(st, "index", ok, "an index or a range may be out of bounds")
            st.assume_le(s, e)
            st.assume_le(e, n)
            if st.z.bot:
                return []
            if dty[0] == "ref" and dty[1][0] == "slice":
                return self.ret(st, c, ("sl", self.minus(st, e, s)))
            return self.ret(st, c, self.make(st, dty, ("r", ())))
        if last in ("get", "get_mut") and slicey and len(a) == 2:
            n = self.olen(st, a[0])
            r = self.range(st, a[1], n)
            if r is None:
                return None
            s, e = r
            out = []
            y = st.copy()
            y.assume_le(s, e)
            y.assume_le(e, n)
            if not y.z.bot:
                inner = self.g._proj_ty(self.g._proj_ty(dty, ("d", "Some")), ("f", "0"))
                v = ("sl", self.minus(y, e, s)) if inner[0] == "ref" and inner[1][0] == "slice" else self.make(y, inner, ("r", ()))
                out += self.option(y, c, "Some", v)
            if not (st.le(s, e) and st.le(e, n)):
                out += self.option(st, c, "None", None)
            return out
        if last in ("first", "last") and slicey:
            n = self.olen(st, a[0])
            out = []
            y = st.copy()
            y.assume_le((None, 1), n)
            if not y.z.bot:
                out += self.option(y, c, "Some", None)
            st.assume_le(n, (None, 0))
            if not st.z.bot:
                out += self.option(st, c, "None", None)
            return out
        if last in ("split_at", "split_at_mut") and slicey:
            n, k = self.olen(st, a[0]), self.term(st, a[1])
            self.need(st, "split", st.le(k, n), "a slice may be split beyond its end")
            st.assume_le(k, n)
            if st.z.bot:
                return []
            return self.ret(st, c, None, [((("f", "0"),), ("sl", k)), ((("f", "1"),), ("sl", self.minus(st, n, k)))])
        if last in ("copy_from_slice", "clone_from_slice", "swap_with_slice") and slicey:
            x, y = self.olen(st, a[0]), self.olen(st, a[1])
            self.need(st, "copy", st.le(x, y) and st.le(y, x), "slices of different lengths may be copied")
            st.assume_le(x, y)
            st.assume_le(y, x)
            return [] if st.z.bot else self.ret(st, c, None)
        if last in ("chunks", "chunks_exact", "chunks_mut", "windows", "rchunks", "step_by") and len(a) == 2:
            k = self.term(st, a[1])
            self.need(st, "chunks", st.le((None, 1), k), "chunks of size zero")
            return self.ret(st, c, ("it", self.olen(st, a[0])))
        if last in ("iter", "iter_mut", "bytes", "chars") and slicey:
            return self.ret(st, c, ("it", self.olen(st, a[0])))
        if last in ("rev", "take_while", "filter", "copied", "cloned", "enumerate", "map", "skip", "skip_while", "take", "zip", "peekable", "fuse", "inspect", "map_while", "by_ref", "into_iter") and a:
            v = self.op(st, a[0])
            if v is not None and v[0] == "ref":
                v = self.read(st, v[1])
            if v is not None and v[0] == "it":
                for o in a[1:]:
                    self.pass_arg(st, o)
                return self.ret(st, c, v)
            if last == "into_iter":
                if a[0][0] == "p":
                    src = self.cell(st, a[0][1])
                    dst = self.cell(st, c.dest)
                    if src is not None and dst is not None:
                        t = self.length(st, self.read(st, src))
                        if t is not None:
                            return self.ret(st, c, ("it", t))
                        self.copy(st, dst, src)
                        return [st]
            return None
        if last == "from_be_bytes" and a:
            v = self.op(st, a[0])
            return self.ret(st, c, ("i", v[1])) if v is not None and v[0] == "w" else None
        if last in ("count", "position", "rposition") and a:
            v = self.op(st, a[0])
            if v is not None and v[0] == "ref":
                v = self.read(st, v[1])
            for o in a[1:]:
                self.pass_arg(st, o)
            if v is not None and v[0] == "it" and last != "count":
                return self.found(st, c, v[1])
            f = self.fresh(st)
            if v is not None and v[0] == "it":
                st.assume_le(f, v[1])
            if last == "count":
                return self.ret(st, c, ("i", f))
            return self.ret(st, c, None, [((("d", "Some"), ("f", "0")), ("i", f))])
        if last == "next" and re.search(r"range::Range ", name):
            return self.next_range(st, c)
        if last == "next" and re.search(r"Iterator", name) and a:
            v = self.op(st, a[0])
            v = self.read(st, v[1]) if v is not None and v[0] == "ref" else v
            t = self.g.ty_of_op(a[0])
            while t[0] == "ref" or t[0] == "adt" and t[1].split("::")[-1] in ("Rev", "Take", "Skip", "Filter", "TakeWhile", "SkipWhile", "Copied", "Cloned", "Fuse", "Inspect", "StepBy") and t[2]:
                t = t[1] if t[0] == "ref" else t[2][0]
            if v is not None and v[0] == "it" and t[0] == "adt" and t[1].endswith("::Enumerate"):
                return self.found(st, c, v[1], (("f", "0"),))
        if last == "next" and re.search(r"Chunks|Windows", name):
            f = self.fresh(st)
            st.assume_le((None, 1), f)
            return self.ret(st, c, None, [((("d", "Some"), ("f", "0")), ("sl", f))])
        if re.search(r"(Vec|String)::(new|with_capacity)$", name):
            if last == "with_capacity":
                self.size(st, a[0])
            return self.ret(st, c, ("vec", (None, 0)))
        if re.search(r"vec::from_elem$", name):
            n = self.size(st, a[1])
            return self.ret(st, c, ("vec", n))
        if re.search(r"Vec::(reserve|reserve_exact)$", name):
            self.size(st, a[1])
            return self.ret(st, c, None)
        if re.search(r"Vec::(push|push_within_capacity)$", name):
            v = self.vec(st, a[0])
            if v is not None:
                n = self.length(st, self.read(st, v))
                self.write(st, v, ("vec", (n[0], n[1] + 1)))
            return self.ret(st, c, None)
        if re.search(r"(Vec::(extend_from_slice|append)|io::Write(>)?::write_all|Write(>)?::write_all)$", name):
            v = self.vec(st, a[0])
            if v is not None and last != "write_all":
                n = self.length(st, self.read(st, v))
                k = self.olen(st, a[1])
                self.write(st, v, ("vec", self.arith(st, "Add", n, k, None)))
                if last == "append":
                    w = self.vec(st, a[1])
                    if w is not None:
                        self.write(st, w, ("vec", (None, 0)))
                return self.ret(st, c, None)
            return None
        if re.search(r"Vec::(extend_from_within|resize)$", name):
            v = self.vec(st, a[0])
            if v is None:
                return None
            n = self.length(st, self.read(st, v))
            if last == "resize":
                k = self.size(st, a[1])
                self.write(st, v, ("vec", k))
                return self.ret(st, c, None)
            r = self.range(st, a[1], n)
            if r is None:
                self.need(st, "index", False, "an unknown range")
                return None
            s, e = r
            self.need(st, "index", st.le(s, e) and st.le(e, n), "a range may be out of bounds")
            st.assume_le(s, e)
            st.assume_le(e, n)
            if st.z.bot:
                return []
            self.write(st, v, ("vec", self.arith(st, "Add", n, self.minus(st, e, s), None)))
            return self.ret(st, c, None)
        if re.search(r"Vec::truncate$", name):
            v = self.vec(st, a[0])
            if v is None:
                return None
            n, k = self.length(st, self.read(st, v)), self.term(st, a[1])
            f = k if st.le(k, n) else n if st.le(n, k) else self.fresh(st)
            if f not in (k, n):
                st.assume_le(f, n)
                st.assume_le(f, k)
            self.write(st, v, ("vec", f))
            return self.ret(st, c, None)
        if re.search(r"Vec::pop$", name):
            v = self.vec(st, a[0])
            if v is None:
                return None
            n = self.length(st, self.read(st, v))
            out = []
            y = st.copy()
            y.assume_le((None, 1), n)
            if not y.z.bot:
                self.write(y, v, ("vec", (n[0], n[1] - 1)))
                out += self.option(y, c, "Some", None)
            st.assume_le(n, (None, 0))
            if not st.z.bot:
                out += self.option(st, c, "None", None)
            return out
        if re.search(r"Vec::clear$", name):
            v = self.vec(st, a[0])
            if v is not None:
                self.write(st, v, ("vec", (None, 0)))
            return self.ret(st, c, None)
        if re.search(r"Vec::(split_off|remove|swap_remove|insert|drain)$", name):
            v = self.vec(st, a[0])
            n = self.length(st, self.read(st, v)) if v is not None else self.fresh(st)
            r = self.range(st, a[1], n)
            if r is None:
                self.need(st, "index", False, "an unknown range")
                return None
            s, e = r
            if last in ("split_off", "insert"):
                ok = st.le(s, n)
            else:
                ok = st.le(s, e) and st.le(e, n)
            self.need(st, "index", ok, "a position may be out of bounds")
            st.assume_le(s, n)
            if st.z.bot:
                return []
            if last == "split_off":
                rest = self.minus(st, n, s)
                if v is not None:
                    self.write(st, v, ("vec", s))
                return self.ret(st, c, ("vec", rest))
            if v is not None:
                if last == "drain":
                    self.write(st, v, ("vec", self.minus(st, n, self.minus(st, e, s))))
                    return self.ret(st, c, ("it", self.minus(st, e, s)))
                self.write(st, v, ("vec", (n[0], n[1] + (1 if last == "insert" else -1))))
            return self.ret(st, c, self.make(st, dty))
        if re.search(r"swap$", name) and slicey and len(a) == 3:
            n = self.olen(st, a[0])
            for o in a[1:]:
                i = self.term(st, o)
                self.need(st, "index", st.le((i[0], i[1] + 1), n), "a swapped position may be out of bounds")
            return self.ret(st, c, None)
        if last in ("rotate_left", "rotate_right") and slicey:
            k = self.term(st, a[1])
            self.need(st, "index", st.le(k, self.olen(st, a[0])), "a rotation may be out of bounds")
            return self.ret(st, c, None)
        if last in ("to_vec", "to_owned", "into_vec", "concat", "into_boxed_slice", "clone") and (is_vec(dty)):
            if last == "concat":
                return self.ret(st, c, ("vec", self.fresh(st)))
            return self.ret(st, c, ("vec", self.olen(st, a[0])))
        if last in ("deref", "deref_mut", "as_ref", "as_mut", "as_slice", "as_mut_slice", "borrow", "as_bytes", "borrow_mut", "into") and dty[0] == "ref" and (dty[1][0] == "slice" or dty[1] == ("prim", "str")):
            return self.ret(st, c, ("sl", self.olen(st, a[0])))
        if last in ("from", "into") and a and a[0][0] == "p" and re.search(r"convert::(From|Into)(<.*>)?(>)?::(from|into)$", c.tpath or c.path or "") and self.g.ty_of_op(a[0]) == dty and dty[0] in ("adt", "tuple"):
            src, dst = self.cell(st, a[0][1]), self.cell(st, c.dest)
            if src is not None and dst is not None:
                self.copy(st, dst, src)
                return [st]
        if last in ("from", "into") and is_vec(dty) and a and a[0][0] == "p":
            t = self.length(st, self.op(st, a[0]))
            if t is not None:
                return self.ret(st, c, ("vec", t))
        if last in ("from", "into") and dty[0] == "prim" and a:
            v = self.op(st, a[0])
            if v is not None and v[0] == "i":
                return self.ret(st, c, v)
        if last in ("try_from", "try_into") and a:
            return self.conversion(st, c, dty)
        if last in ("wrapping_sub", "saturating_sub", "checked_sub", "abs_diff") and len(a) == 2:
            x, y = self.term(st, a[0]), self.term(st, a[1])
            if last == "abs_diff":
                return None
            out = []
            s1 = st.copy()
            s1.assume_le(y, x)
            if not s1.z.bot:
                r = self.arith(s1, "Sub", x, y, None)
                out += self.option(s1, c, "Some", ("i", r)) if last == "checked_sub" else self.ret(s1, c, ("i", r))
            if not st.le(y, x):
                s2 = st
                s2.assume_le((x[0], x[1] + 1), y)
                if not s2.z.bot:
                    if last == "checked_sub":
                        out += self.option(s2, c, "None", None)
                    elif last == "saturating_sub":
                        out += self.ret(s2, c, ("i", (None, 0)))
                    else:
                        # wraps to a huge number: never below a length
                        f = self.fresh(s2)
                        s2.assume_le((None, 2 ** 62) if dty[0] == "prim" and dty[1] in ("usize", "u64") else (None, 0), f)
                        out += self.ret(s2, c, ("i", f))
            return out
        if last in ("checked_add", "saturating_add", "wrapping_add", "checked_mul", "saturating_mul", "wrapping_mul") and len(a) == 2 and dty[0] in ("prim", "adt"):
            x, y = self.term(st, a[0]), self.term(st, a[1])
            t = self.g.ty_of_op(a[0])
            base = "Add" if last.endswith("add") else "Mul"
            ok = self.fits(st, base, x, y, t)
            if last.startswith("checked"):
                s1 = st.copy()
                out = self.option(s1, c, "Some", ("i", self.arith(s1, base, x, y, None)))
                return out if ok and base == "Mul" else out + self.option(st, c, "None", None)
            if ok and last.startswith("saturating"):
                return self.ret(st, c, ("i", self.arith(st, base, x, y, None)))
            return None
        if last in ("min", "max") and len(a) == 2 and dty[0] == "prim":
            x, y = self.term(st, a[0]), self.term(st, a[1])
            if st.le(x, y):
                return self.ret(st, c, ("i", x if last == "min" else y))
            if st.le(y, x):
                return self.ret(st, c, ("i", y if last == "min" else x))
            f = self.fresh(st)
            for t in (x, y):
                st.assume_le(f, t) if last == "min" else st.assume_le(t, f)
            return self.ret(st, c, ("i", f))
        if re.search(r"GenericArray::(from_slice|clone_from_slice|from_mut_slice)$|Nonce::from_slice$|Key::from_slice$", name):
            k = re.search(r"\d+", str(dty))
            self.need(st, "copy", False, "an array may be made of a slice of another length")
            return None
        return None

    def conversion(self, st, c, dty):
        """TryFrom between slices, vectors and arrays, and between integers"""
        ok = self.g._proj_ty(self.g._proj_ty(dty, ("d", "Ok")), ("f", "0")) if dty[0] == "adt" else ("other", "?")
        arr = ok[1] if ok[0] == "ref" else ok
        v = self.op(st, c.args[0])
        if ok[0] != "other" and ok == self.g.ty_of_op(c.args[0]) or "convert::Infallible" in str(dty[2][1:] if dty[0] == "adt" else ""):
            return self.option(st, c, "Ok", v)
        if arr[0] == "array" and str(arr[2]).isdigit():
            n = self.length(st, v)
            if n is None:
                return None
            k = (None, int(arr[2]))
            out = []
            if not (st.le(n, k) and st.le(k, n)):
                out += self.option(st.copy(), c, "Err", None)
            st.assume_le(n, k)
            st.assume_le(k, n)
            if not st.z.bot:
                out += self.option(st, c, "Ok", None)
            return out
        if ok[0] == "prim" and v is not None and v[0] == "i":
            p = ok[1]
            hi = HI.get(p, 2 ** 63)
            out = []
            if not (st.hi(v[1]) <= hi and st.lo(v[1]) >= 0) and not (p in ("usize", "u64") and self.g.ty_of_op(c.args[0])[1] in ("u8", "u16", "u32", "u64", "usize")):
                out += self.option(st.copy(), c, "Err", None)
            if p in HI:
                st.assume_le(v[1], (None, hi))
            st.assume_le((None, 0), v[1])
            if not st.z.bot:
                out += self.option(st, c, "Ok", v)
            return out
        return None

    def minus(self, st, e, s):
        """e - s, where s <= e is known"""
        if s[0] is None:
            return (e[0], e[1] - s[1])
        if e[0] == s[0]:
            return (None, e[1] - s[1])
        return self.arith(st, "Sub", e, s, None)

    def size(self, st, o):
        """memory is reserved: for no more than what is already there, or a constant"""
        n = self.term(st, o)
        ok = st.hi(n) <= 2 ** 24 or any(st.le(n, (v[1][0], v[1][1] + 4096)) for v in st.env.values() if v[0] in ("sl", "vec"))
        self.need(st, "size", ok, "the size of a buffer is taken from the input unchecked")
        return n

    def next_range(self, st, c):
        v = self.op(st, c.args[0])
        if v is None or v[0] != "ref":
            return None
        r = v[1]
        s, e = self.read(st, (r[0], r[1] + (("f", "start"),))), self.read(st, (r[0], r[1] + (("f", "end"),)))
        if s is None or e is None or s[0] != "i" or e[0] != "i":
            self.havoc(st, v)
            return None
        out = []
        y = st.copy()
        y.assume_le((s[1][0], s[1][1] + 1), e[1])
        if not y.z.bot:
            y.env[(r[0], r[1] + (("f", "start"),))] = ("i", (s[1][0], s[1][1] + 1))
            out += self.option(y, c, "Some", s)
        st.assume_le(e[1], s[1])
        if not st.z.bot:
            out += self.option(st, c, "None", None)
        return out


def _ck(x):
    return (repr(x[0]),)


def typenum(t):
    """number of a type-level integer"""
    if t[0] != "adt":
        return None
    if t[1].endswith("UTerm"):
        return 0
    if t[1].endswith("UInt") and len(t[2]) == 2:
        n = typenum(t[2][0])
        return None if n is None else 2 * n + (1 if t[2][1][1].endswith("B1") else 0)
    return None


def array_len(t):
    if t[0] == "array" and str(t[2]).isdigit():
        return int(t[2])
    if t[0] == "adt" and t[1].endswith("::GenericArray") and len(t[2]) == 2:
        return typenum(t[2][1])
    return None


def is_vec(t):
    return t[0] == "adt" and t[1] in ("alloc::vec::Vec", "alloc::string::String") or t[0] == "adt" and t[1].endswith("zeroize::Zeroizing") and bool(t[2]) and is_vec(t[2][0])


def short(p):
    return "::".join(p.split("::")[-2:])


def vars_of_block(b):
    """(var, whole definition?) in order"""
    out = []

    def pl(p):
        out.append((p[0], False))
        for e in p[1]:
            if isinstance(e, tuple) and e[0] == "i":
                out.append((e[1], False))

    def op(o):
        if o and o[0] == "p":
            pl(o[1])

    def rv(r):
        k = r[0]
        if k == "use":
            op(r[1])
        elif k in ("ref", "addr"):
            pl(r[1])
        elif k == "cast":
            op(r[2])
        elif k == "bin":
            op(r[2])
            op(r[3])
        elif k == "un":
            op(r[2])
        elif k == "discr":
            pl(r[1])
        elif k == "agg":
            for o in r[3]:
                op(o)
        elif k == "rep":
            op(r[1])
    for s in b.stmts:
        if s[0] == "=":
            rv(s[2])
            if s[1][1] == ():
                out.append((s[1][0], True))
            else:
                pl(s[1])
        elif s[0] == "cpy":
            for o in s[1:]:
                op(o)
        elif s[0] == "sd":
            pl(s[1])
    if b.op is not None:
        op(b.op)
    if b.assertion:
        for k in ("len", "idx"):
            op(b.assertion.get(k))
    if b.call is not None:
        for o in b.call.args:
            op(o)
        if b.call.dest is not None and b.call.ext:
            if b.call.dest[1] == ():
                out.append((b.call.dest[0], True))
            else:
                pl(b.call.dest)
    if b.drop is not None:
        pl(b.drop[0])
    return out
