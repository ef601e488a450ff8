"""Whole-operation control flow graphs: the MIR of a root function with the bodies of everything it
calls (local functions, closures, small std combinators, optionally drop glue) spliced in, one copy
per calling context.

block: .stmts  list of ('=', place, rvalue, line) | ('dead', var) | ('cpy', op, op, op)
       .kind   goto | switch | call | drop | assert | ret | stop
       .succ   list of block ids (parallel to .labels for switches)
place: (var, proj) with proj elements '*' | ('f', name) | ('d', variant) | ('i', var) | '[]'
op:    ('p', place, moved) | ('k', const) | ('fn', (path, crate, fnref))
"""
from .ir import subst, tstr, unify


class Ctx:
    __slots__ = ("id", "parent", "call", "body", "subst", "base", "depth", "entry", "kind")

    def __init__(self, id, parent, call, body, s, base, depth, kind):
        self.id, self.parent, self.call, self.body, self.subst = id, parent, call, body, s
        self.base, self.depth, self.kind = base, depth, kind
        self.entry = None


class Call:
    __slots__ = ("path", "tpath", "targs", "args", "dest", "ext", "ctxs", "exit", "block", "cbs", "rec", "f", "noret", "cbb")

    def __init__(self):
        self.ext = True
        self.ctxs = []
        self.exit = None
        self.cbs = []
        self.cbb = []
        self.rec = False
        self.noret = False

    def names(self):
        return (self.path, self.tpath)

    def __repr__(self):
        return "Call(%s)" % self.path


class Blk:
    __slots__ = ("id", "ctx", "stmts", "kind", "succ", "labels", "op", "call", "drop", "line", "assertion", "exit_of",
                 "loop_of", "loop_pre")

    def __init__(self, id, ctx):
        self.id, self.ctx = id, ctx
        self.stmts = []
        self.kind = "stop"
        self.succ = []
        self.labels = None
        self.op = None
        self.call = None
        self.drop = None
        self.assertion = None
        self.line = 0
        self.exit_of = None
        self.loop_of = None
        self.loop_pre = None


class TooBig(Exception):
    pass


class Policy:
    max_depth = 45
    max_blocks = 60000
    array_index = False   # constant indices of arrays are kept apart (path step '.#k')

    def opaque(self, body):
        return False

    def expand_drop(self, prog, ty):
        return False


class Graph:
    def __init__(self, prog, root, policy=None, s=None):
        self.prog = prog
        self.root = root
        self.policy = policy or Policy()
        self.vars = []          # (ctx, local, ty)
        self.blocks = []
        self.ctxs = []
        self.subst0 = s or {}
        self.rets = []
        c = self._ctx(None, None, root, self.subst0, 0, "root")
        self.argvars = [c.base + 1 + i for i in range(root.argc)]
        self.retvar = c.base
        self.entry = self._inline(c, None, None)
        self.preds = [[] for _ in self.blocks]
        for b in self.blocks:
            for x in b.succ:
                self.preds[x].append(b.id)

    # -------------------------------------------------------------- construction
    def _ctx(self, parent, call, body, s, depth, kind):
        c = Ctx(len(self.ctxs), parent, call, body, s, len(self.vars), depth, kind)
        self.ctxs.append(c)
        for i, t in enumerate(body.locals):
            self.vars.append((c, i, self.prog.norm(subst(t, s))))
        return c

    def newvar(self, ctx, ty):
        self.vars.append((ctx, -1, ty))
        return len(self.vars) - 1

    def newblk(self, ctx, line=0):
        b = Blk(len(self.blocks), ctx)
        b.line = line
        self.blocks.append(b)
        if len(self.blocks) > self.policy.max_blocks:
            raise TooBig(self.root.path)
        return b

    def _place(self, c, p):
        v = c.base + p[0]
        proj = []
        for e in p[1:]:
            if e == "*":
                proj.append("*")
            elif e == "?":
                proj.append("[]")
            elif e[0] == "f":
                proj.append(("f", e[2] if e[2] else str(e[1])))
            elif e[0] == "d":
                proj.append(("d", e[2]))
            elif e[0] == "i":
                k = self._const_index(c, e[1], v, proj) if self.policy.array_index else None
                proj.append(("i", c.base + e[1]) if k is None else ("f", "#%d" % k))
            elif e[0] == "c":
                if self.policy.array_index and not e[3] and self.ty_of_place((v, tuple(proj)))[0] == "array":
                    proj.append(("f", "#%d" % e[1]))
                else:
                    proj.append("[]")
            else:
                proj.append("s")
        return (v, tuple(proj))

    def _const_index(self, c, local, v, proj):
        """the constant an array is indexed with, if the index local is only ever that constant"""
        if self.ty_of_place((v, tuple(proj)))[0] != "array":
            return None
        k = set()
        for bl in c.body.blocks:
            for st in bl["s"]:
                if st[0] == "=" and st[1] and st[1][0] == local:
                    try:
                        k.add(int(st[2][1]["k"]["v"]["int"]) if st[2][0] == "use" and len(st[1]) == 1 else None)
                    except (KeyError, TypeError, IndexError):
                        k.add(None)
            if bl["t"].get("d") and bl["t"]["d"][0] == local:
                k.add(None)
        return k.pop() if len(k) == 1 else None

    def _op(self, c, o):
        if "c" in o:
            return ("p", self._place(c, o["c"]), False)
        if "m" in o:
            return ("p", self._place(c, o["m"]), True)
        if "fn" in o:
            return ("fn", (o["fn"]["p"], c, o["fn"]))
        if "k" in o:
            return ("k", o["k"], c)
        return ("k", {"ty": None, "v": {"rt": 1}}, c)

    def _rv(self, c, r):
        k = r[0]
        if k == "use":
            return ("use", self._op(c, r[1]))
        if k in ("ref", "addr"):
            return (k, self._place(c, r[1]), r[2])
        if k == "cast":
            return ("cast", r[1], self._op(c, r[2]), self.prog.norm(subst(c.body.crate.ty(r[3]), c.subst)))
        if k == "bin":
            return ("bin", r[1], self._op(c, r[2]), self._op(c, r[3]))
        if k == "un":
            return ("un", r[1], self._op(c, r[2]))
        if k == "discr":
            return ("discr", self._place(c, r[1]), r[2], self.prog.norm(subst(c.body.crate.ty(r[3]), c.subst)))
        if k == "agg":
            kd = r[1]
            ops = [self._op(c, x) for x in r[2]]
            if kd["k"] == "adt":
                return ("agg", ("adt", kd["p"], kd["v"] if kd["enum"] else None), kd["n"], ops)
            if kd["k"] == "closure":
                return ("agg", ("closure", kd["u"]), [str(i) for i in range(len(ops))], ops)
            return ("agg", (kd["k"],), [str(i) for i in range(len(ops))], ops)
        if k == "rep":
            return ("rep", self._op(c, r[1]), r[2])
        if k == "tls":
            return ("tls", r[1])
        return ("other", str(r[1:]))

    def ty_of_place(self, pl):
        v, proj = pl
        t = self.vars[v][2]
        for e in proj:
            t = self._proj_ty(t, e)
        return t

    def _proj_ty(self, t, e, variant=None):
        if e == "*":
            if t[0] in ("ref", "ptr"):
                return t[1]
            if t[0] == "adt" and t[1].endswith("boxed::Box"):
                return t[2][0]
            return ("other", "?")
        if e == "[]" or (isinstance(e, tuple) and e[0] == "i"):
            if t[0] in ("slice", "array"):
                return t[1]
            return ("other", "?")
        if e == "s":
            return ("slice", t[1]) if t[0] in ("slice", "array") else t
        if e[0] == "d":
            return ("variant", t, e[1])
        n = e[1]
        if t[0] == "array" and n.startswith("#"):
            return t[1]
        vn = None
        if t[0] == "variant":
            vn = t[2]
            t = t[1]
        if t[0] == "tuple":
            try:
                return t[1][int(n)]
            except Exception:
                return ("other", "?")
        if t[0] == "adt":
            p = t[1]
            if p.endswith("::Option") and t[2]:
                return t[2][0]
            if p.endswith("::Result") and len(t[2]) == 2:
                return t[2][0] if vn == "Ok" else t[2][1]
            if p.endswith("::ControlFlow") and len(t[2]) == 2:
                return t[2][1] if vn == "Continue" else t[2][0]
            a = self.prog.adts.get(p)
            if a:
                s = dict(zip(a["generics"], t[2]))
                for v in a["variants"]:
                    if vn is None or v["n"] == vn:
                        for f in v["f"]:
                            if f["n"] == n:
                                return self.prog.norm(subst(f["t"], s))
        return ("other", "?")

    def ty_of_op(self, o):
        if o[0] == "p":
            return self.ty_of_place(o[1])
        if o[0] == "k":
            ty = o[1].get("ty")
            c = o[2]
            return self.prog.norm(subst(c.body.crate.ty(ty), c.subst)) if ty is not None else ("other", "?")
        p, c, f = o[1]
        return ("fndef", p, f["u"], tuple(self.prog.norm(subst(c.body.crate.ty(x), c.subst)) for x in f["a"]))

    def _inline(self, c, ret_to, retpl):
        """splice the body of ctx c; returns the entry block id. `ret` goes to ret_to after assigning
        retpl (or terminates the graph for the root)."""
        body = c.body
        ids = {}
        for i, b in enumerate(body.blocks):
            if b.get("c"):
                continue
            ids[i] = self.newblk(c, b["t"].get("l", 0))
        c.entry = ids[0].id
        for i, blk in list(ids.items()):
            rb = body.blocks[i]
            for st in rb["s"]:
                if st[0] == "=":
                    blk.stmts.append(("=", self._place(c, st[1]), self._rv(c, st[2]), st[3]))
                elif st[0] == "dead":
                    blk.stmts.append(("dead", c.base + st[1]))
                elif st[0] == "cpy":
                    blk.stmts.append(("cpy", self._op(c, st[1]), self._op(c, st[2]), self._op(c, st[3])))
                elif st[0] == "sd":
                    blk.stmts.append(("sd", self._place(c, st[1]), st[2]))
            self._term(c, blk, rb["t"], ids, ret_to, retpl)
        return ids[0].id

    def _term(self, c, blk, t, ids, ret_to, retpl):
        k = t["k"]
        if k == "goto":
            blk.kind = "goto"
            blk.succ = [ids[t["t"]].id]
        elif k == "switch":
            blk.kind = "switch"
            blk.op = self._op(c, t["o"])
            blk.labels = [v for v, _ in t["v"]] + [None]
            blk.succ = [ids[x].id for _, x in t["v"]] + [ids[t["e"]].id]
        elif k == "ret":
            if ret_to is None:
                blk.kind = "ret"
                self.rets.append(blk.id)
            else:
                if retpl is not None:
                    blk.stmts.append(("=", retpl, ("use", ("p", (c.base, ()), True)), t["l"]))
                blk.kind = "goto"
                blk.succ = [ret_to]
        elif k == "assert":
            blk.kind = "assert"
            blk.op = self._op(c, t["o"])
            blk.assertion = {"x": t["x"], "m": t["m"]}
            if "len" in t:
                blk.assertion["len"] = self._op(c, t["len"])
                blk.assertion["idx"] = self._op(c, t["idx"])
            blk.succ = [ids[t["t"]].id]
        elif k == "drop":
            pl = self._place(c, t["p"])
            ty = self.prog.norm(subst(c.body.crate.ty(t["ty"]), c.subst))
            self._drop(c, blk, pl, ty, ids[t["t"]].id)
        elif k == "call":
            self._call(c, blk, t, ids)
        else:
            blk.kind = "stop"

    # -------------------------------------------------------------- drops
    def _drop(self, c, blk, pl, ty, nxt):
        blk.kind = "drop"
        blk.drop = (pl, ty)
        if self.policy.expand_drop(self.prog, ty):
            first = self._drop_glue(c, pl, ty, nxt, blk.line, 0)
            blk.succ = [first]
        else:
            blk.succ = [nxt]

    def _drop_glue(self, c, pl, ty, nxt, line, depth):
        """returns the id of a block running the drop glue of place `pl`, continuing at nxt"""
        if depth > 8 or not self.policy.expand_drop(self.prog, ty):
            return nxt
        if ty[0] == "adt":
            a = self.prog.adts.get(ty[1])
            if a is None:
                # std container: element 0
                cur = nxt
                p = ty[1]
                if p.endswith("::Option") and ty[2]:
                    sub = (pl[0], pl[1] + (("d", "Some"), ("f", "0")))
                    return self._maybe(c, lambda n: self._drop_glue(c, sub, ty[2][0], n, line, depth + 1), nxt, line)
                if p.endswith("::Result") and len(ty[2]) == 2:
                    cur = nxt
                    for i, vn in enumerate(("Ok", "Err")):
                        if self.policy.expand_drop(self.prog, ty[2][i]):
                            sub = (pl[0], pl[1] + (("d", vn), ("f", "0")))
                            cur = self._maybe(c, lambda n, sub=sub, i=i: self._drop_glue(c, sub, ty[2][i], n, line, depth + 1), cur, line)
                    return cur
                if p.endswith("::Box") or p.endswith("::Vec"):
                    if not ty[2]:
                        return nxt
                    sub = (pl[0], pl[1] + ("*" if p.endswith("::Box") else "[]",))
                    if p.endswith("::Box"):
                        return self._drop_glue(c, sub, ty[2][0], nxt, line, depth + 1)
                    return self._maybe(c, lambda n: self._drop_glue(c, sub, ty[2][0], n, line, depth + 1), nxt, line)
                for t in ty[2]:
                    if self.policy.expand_drop(self.prog, t):
                        sub = (pl[0], pl[1] + ("[]",))
                        cur = self._maybe(c, lambda n, t=t, sub=sub: self._drop_glue(c, sub, t, n, line, depth + 1), cur, line)
                return cur
            s = dict(zip(a["generics"], ty[2]))
            cur = nxt
            if a["kind"] == "enum":
                for v in a["variants"]:
                    for f in v["f"]:
                        ft = self.prog.norm(subst(f["t"], s))
                        if self.policy.expand_drop(self.prog, ft):
                            sub = (pl[0], pl[1] + (("d", v["n"]), ("f", f["n"])))
                            cur = self._maybe(c, lambda n, sub=sub, ft=ft: self._drop_glue(c, sub, ft, n, line, depth + 1), cur, line)
            else:
                for f in reversed(a["variants"][0]["f"]):
                    ft = self.prog.norm(subst(f["t"], s))
                    if self.policy.expand_drop(self.prog, ft):
                        sub = (pl[0], pl[1] + (("f", f["n"]),))
                        cur = self._drop_glue(c, sub, ft, cur, line, depth + 1)
            if a.get("drop"):
                b = self.prog.bodies.get(a["drop"])
                if b is None:
                    # adt_destructor names the drop method
                    for i in self.prog.impl_by_trait.get("core::ops::drop::Drop", []):
                        if i["self_t"][0] == "adt" and i["self_t"][1] == ty[1]:
                            b = self.prog.bodies.get(i["items"][0]["u"])
                if b is not None and not self._recursive(c, b, None):
                    s2 = dict(zip(b.generics, ty[2]))
                    blk = self.newblk(c, line)
                    rv = self.newvar(c, ("ref", ty, True))
                    blk.stmts.append(("=", (rv, ()), ("ref", pl, True), line))
                    cal = Call()
                    cal.path = cal.tpath = "core::ops::drop::Drop::drop"
                    cal.path = b.path
                    cal.targs = (ty,)
                    cal.args = [("p", (rv, ()), True)]
                    cal.dest = None
                    cal.f = None
                    self._splice(c, blk, cal, b, s2, cal.args, None, cur, "drop")
                    cur = blk.id
            return cur
        if ty[0] == "tuple":
            cur = nxt
            for i, t in enumerate(ty[1]):
                if self.policy.expand_drop(self.prog, t):
                    cur = self._drop_glue(c, (pl[0], pl[1] + (("f", str(i)),)), t, cur, line, depth + 1)
            return cur
        if ty[0] in ("array", "slice"):
            return self._maybe(c, lambda n: self._drop_glue(c, (pl[0], pl[1] + ("[]",)), ty[1], n, line, depth + 1), nxt, line)
        return nxt

    def _maybe(self, c, mk, nxt, line):
        first = mk(nxt)
        if first == nxt:
            return nxt
        b = self.newblk(c, line)
        b.kind = "goto"
        b.succ = [first, nxt]
        return b.id

    # -------------------------------------------------------------- calls
    def _recursive(self, c, body, s):
        x = c
        n = 0
        while x is not None:
            if x.body is body:
                n += 1
                if n >= 1 and (s is None or x.subst == s):
                    return True
            if n >= 3:
                return True
            x = x.parent
        return c.depth >= self.policy.max_depth

    def _call(self, c, blk, t, ids):
        blk.kind = "call"
        cal = Call()
        cal.block = blk.id
        cal.args = [self._op(c, a) for a in t["a"]]
        cal.dest = self._place(c, t["d"])
        nxt = ids[t["t"]].id if t.get("t") is not None else None
        f = t["f"]
        cal.f = f.get("fn")
        if "fn" not in f:
            # call through a function pointer / field
            cal.path = cal.tpath = "<indirect>"
            cal.targs = ()
            o = self._op(c, f)
            cal.args = [o] + cal.args
            blk.call = cal
            blk.succ = [nxt] if nxt is not None else []
            return
        self._dispatch(c, blk, cal, self.prog.resolve(c.body.crate, f["fn"], c.subst), f["fn"]["p"], nxt)

    def _dispatch(self, c, blk, cal, cands, tpath, nxt):
        cal.tpath = tpath
        bodies = []
        for cd in cands:
            if cd[0] == "fncall":
                self._fncall(c, blk, cal, cd[1], tpath, nxt)
                return
            if cd[0] == "ctor":
                v = cd[1].rpartition("::")[2]
                adt = cd[1]
                # enum variant constructor: path Type::Variant ; struct constructor: path Type
                par = cd[1].rpartition("::")[0]
                a = self.prog.adts.get(par)
                isenum = (a is not None and a["kind"] == "enum") or par in (
                    "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow") or (
                    a is None and self.prog.adts.get(cd[1]) is None and par.rpartition("::")[2][:1].isupper())
                kd = ("adt", par, v) if isenum else ("adt", adt, None)
                blk.stmts.append(("=", cal.dest, ("agg", kd, [str(i) for i in range(len(cal.args))], cal.args), blk.line))
                blk.kind = "goto"
                blk.succ = [nxt] if nxt is not None else []
                return
            if cd[0] == "body":
                bodies.append((cd[1], cd[2]))
        if not bodies:
            cd = cands[0]
            cal.path = cd[1]
            cal.targs = cd[2]
            self._extcall(c, blk, cal, nxt)
            return
        todo = []
        for b, s in bodies:
            if self.policy.opaque(b):
                cal.path = b.path
                cal.targs = tuple(s.values())
                self._extcall(c, blk, cal, nxt)
                return
            if self._recursive(c, b, s):
                cal.path = b.path
                cal.targs = tuple(s.values())
                cal.rec = True
                self._extcall(c, blk, cal, nxt)
                return
            todo.append((b, s))
        if len(todo) == 1:
            b, s = todo[0]
            cal.path = b.path
            cal.targs = tuple(s.values())
            self._splice(c, blk, cal, b, s, cal.args, cal.dest, nxt, "fn")
        else:
            cal.path = cal.tpath
            cal.targs = ()
            cal.ext = False
            blk.call = cal
            blk.succ = []
            ex = self.newblk(c, blk.line)
            ex.kind = "goto"
            ex.exit_of = blk.id
            ex.succ = [nxt] if nxt is not None else []
            cal.exit = ex.id
            for b, s in todo:
                b2 = self.newblk(c, blk.line)
                b2.kind = "goto"
                c2 = Call()
                c2.path, c2.tpath, c2.targs, c2.args, c2.dest, c2.f = b.path, cal.tpath, tuple(s.values()), cal.args, cal.dest, cal.f
                self._splice(c, b2, c2, b, s, cal.args, cal.dest, ex.id, "fn")
                blk.succ.append(b2.id)

    def _splice(self, c, blk, cal, body, s, args, dest, nxt, kind, spread=None):
        """blk becomes the call block of an inlined call"""
        blk.kind = "call"
        cal.ext = False
        cal.block = blk.id
        blk.call = cal
        cc = self._ctx(c, blk.id, body, s, c.depth + 1, kind)
        ent = self.newblk(cc, blk.line)
        for i, a in enumerate(args):
            if i < body.argc:
                ent.stmts.append(("=", (cc.base + 1 + i, ()), ("use", a), blk.line))
        ex = self.newblk(c, blk.line)
        ex.kind = "goto"
        ex.exit_of = blk.id
        ex.succ = [nxt] if nxt is not None else []
        cal.exit = ex.id
        cal.ctxs.append(cc)
        e = self._inline(cc, ex.id, dest)
        ent.kind = "goto"
        ent.succ = [e]
        blk.succ = [ent.id]

    def _fncall(self, c, blk, cal, ft, tpath, nxt):
        """Fn*/call*(f, (args,)) with self type ft"""
        kind = tpath.rpartition("::")[2]   # call_once / call_mut / call
        fop = cal.args[0]
        tup = cal.args[1]
        t = ft
        nder = 0 if kind == "call_once" else 1
        while t[0] == "ref":
            t = t[1]
            nder += 1
        tupty = self.ty_of_op(tup)
        n = len(tupty[1]) if tupty[0] == "tuple" else 0
        if tup[0] == "p":
            aops = [("p", (tup[1][0], tup[1][1] + (("f", str(i)),)), True) for i in range(n)]
        else:
            aops = []
        if t[0] == "fndef":
            cal.args = aops
            self._call_fnitem(c, blk, cal, t, nxt)
            return
        b = self.prog.bodies.get(t[1]) if t[0] == "closure" else None
        if b is None or self._recursive(c, b, None):
            cal.path = tpath
            cal.tpath = tpath
            cal.targs = (ft,)
            blk.call = cal
            blk.succ = [nxt] if nxt is not None else []
            return
        self._call_closure(c, blk, cal, b, t, fop, nder, aops, nxt)

    def _call_closure(self, c, blk, cal, b, t, fop, nder, aops, nxt):
        s = self.prog.mksubst(b, t[2])
        want = 1 if b.locals[1][0] == "ref" else 0
        selfop = fop
        if fop[0] == "p":
            pl = fop[1]
            if nder > want:
                selfop = ("p", (pl[0], pl[1] + ("*",) * (nder - want)), False)
            elif nder < want:
                rv = self.newvar(c, ("ref", t, True))
                blk.stmts.append(("=", (rv, ()), ("ref", pl, True), blk.line))
                selfop = ("p", (rv, ()), True)
        cal.path = b.path
        cal.targs = ()
        cal.args = [selfop] + aops
        self._splice(c, blk, cal, b, s, [selfop] + aops, cal.dest, nxt, "closure")

    def _call_fnitem(self, c, blk, cal, t, nxt):
        path, uid, args = t[1], t[2], t[3]
        b = self.prog.bodies.get(uid)
        if b is not None:
            self._dispatch(c, blk, cal, [("body", b, self.prog.mksubst(b, args))], path, nxt)
            return
        par, _, last = path.rpartition("::")
        a = self.prog.adts.get(par)
        if (a is not None and a["kind"] == "enum" and any(v["n"] == last for v in a["variants"])) or path in self.prog.adts or par in (
                "core::option::Option", "core::result::Result") and last in ("Some", "Ok", "Err"):
            self._dispatch(c, blk, cal, [("ctor", path, args)], path, nxt)
            return
        if par in self.prog.traits or True:
            tr = par
            if tr in self.prog.impl_by_trait or tr in self.prog.traits:
                self._dispatch(c, blk, cal, self.prog.resolve_trait(tr, path, uid, args), path, nxt)
                return
        self._dispatch(c, blk, cal, [("ext", path, args, path, args)], path, nxt)

    def _extcall(self, c, blk, cal, nxt):
        """external call; closures among the arguments may be run any number of times during it"""
        clos = []
        for i, a in enumerate(cal.args):
            t = self.ty_of_op(a)
            nd = 0
            while t[0] == "ref":
                t = t[1]
                nd += 1
            if t[0] == "closure" and t[1] in self.prog.bodies:
                b = self.prog.bodies[t[1]]
                if not self._recursive(c, b, None):
                    clos.append((i, a, t, nd, b))
            elif t[0] == "fndef" and t[2] in self.prog.bodies:
                clos.append((i, a, t, nd, self.prog.bodies[t[2]]))
        cal.block = blk.id
        if not clos:
            blk.call = cal
            blk.kind = "call"
            blk.succ = [nxt] if nxt is not None else []
            cal.noret = nxt is None
            if nxt is not None and (cal.path or "") == "core::mem::drop" and cal.args and cal.args[0][0] == "p":
                t = self.ty_of_op(cal.args[0])
                if self.policy.expand_drop(self.prog, t):
                    blk.succ = [self._drop_glue(c, cal.args[0][1], t, nxt, blk.line, 0)]
            return
        # blk -> loop -> {closure bodies} -> loop ; loop -> callblk -> nxt
        cb = self.newblk(c, blk.line)
        cb.kind = "call"
        cb.call = cal
        cal.block = cb.id
        cb.succ = [nxt] if nxt is not None else []
        lp = self.newblk(c, blk.line)
        lp.kind = "goto"
        lp.loop_of = cb.id
        lp.loop_pre = blk.id
        blk.kind = "goto"
        blk.succ = [lp.id]
        for i, a, t, nd, b in clos:
            x = self.newblk(c, blk.line)
            x.kind = "goto"
            if t[0] == "closure":
                nargs = b.argc - 1
            else:
                nargs = b.argc
            aops = []
            for j in range(nargs):
                pt = self.prog.norm(subst(b.locals[(2 if t[0] == "closure" else 1) + j], self.prog.mksubst(b, t[2] if t[0] == "closure" else t[3])))
                v = self.newvar(c, pt)
                x.stmts.append(("=", (v, ()), ("cbarg", cb.id, i, j), blk.line))
                aops.append(("p", (v, ()), True))
            rt = self.newvar(c, ("other", "cbret"))
            c2 = Call()
            c2.f = None
            c2.tpath = b.path
            c2.dest = (rt, ())
            c2.args = aops
            cal.cbs.append((i, rt))
            cal.cbb.append(b)
            if t[0] == "closure":
                self._call_closure(c, x, c2, b, t, a, nd, aops, lp.id)
            else:
                if self._recursive(c, b, None) or self.policy.opaque(b):
                    c2.path = b.path
                    c2.targs = t[3]
                    x.kind = "call"
                    c2.block = x.id
                    x.call = c2
                    x.succ = [lp.id]
                else:
                    c2.path = b.path
                    c2.targs = t[3]
                    self._splice(c, x, c2, b, self.prog.mksubst(b, t[3]), aops, c2.dest, lp.id, "fn")
            lp.succ.append(x.id)
        lp.succ.append(cb.id)

    # -------------------------------------------------------------- helpers for reports
    def where(self, bid, line=None):
        """file:line in repository code: the block itself, or the innermost caller outside std"""
        b = self.blocks[bid]
        c = b.ctx
        ln = line or b.line
        while not c.body.file.startswith(REPO_DIRS) and c.call is not None:
            ln = self.blocks[c.call].line
            c = c.parent
        return "%s:%s" % (c.body.file, ln)

    def chain(self, bid):
        """call chain (repository functions) from root to the block's context"""
        c = self.blocks[bid].ctx
        out = []
        while c is not None:
            if c.body.file.startswith(REPO_DIRS):
                out.append(c.body.path)
            c = c.parent
        return out[::-1]


REPO_DIRS = ("engine/", "client/", "bindings/", "utils/", "derive/", "stm/")
