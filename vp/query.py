"""Queries over one analysed operation (graph + provenance + path correlation)."""
import re
from .graph import Graph, Policy
from .flow import Flow
from .explode import Exploded


class Analysis:
    def __init__(self, prog, root, policy=None, subst=None, models=None, cap=40):
        self.prog = prog
        self.root = root
        self.g = Graph(prog, root, policy, subst)
        self.f = Flow(self.g, models)
        self.e = Exploded(self.g, self.f, cap)
        # provenance restricted to edges that are feasible in some partition
        self.f.feasible = self.e.feasible
        self.f._exp.clear()
        self.f._sol.clear()
        self.f._tm.clear()
        self._ev = {}
        self._sl = None

    def under(self, place=None, call=None):
        """the same operation under a hypothesis (see Exploded): paths that contradict it are left out"""
        import copy
        o = copy.copy(self)
        o.e = Exploded(self.g, self.f, self.e.cap, assume=place, assume_call=call)
        o._ev = {}
        o._sl = None
        return o

    def narrowed(self):
        """provenance, too, only along edges that are feasible under the hypothesis"""
        import copy
        o = copy.copy(self)
        o.f = copy.copy(self.f)
        o.f.feasible = self.e.feasible
        o.f._exp, o.f._sol, o.f._tm, o.f._busy = {}, {}, {}, set()
        o._ev = {}
        o._sl = None
        return o

    # ------------------------------------------------------------- events
    def calls(self, rx, ext=None):
        """reachable call blocks whose callee (resolved or trait method path) matches the regex"""
        key = (rx, ext)
        r = self._ev.get(key)
        if r is None:
            c = re.compile(rx)
            r = []
            for b in self.g.blocks:
                if b.kind == "call" and b.call is not None and b.id in self.e.reached:
                    if ext is not None and b.call.ext != ext:
                        continue
                    if c.search(b.call.path or "") or c.search(b.call.tpath or ""):
                        r.append(b.id)
            self._ev[key] = r
        return r

    def drops(self, pred):
        return [b.id for b in self.g.blocks if b.kind == "drop" and b.id in self.e.reached and b.drop and pred(b.drop[1])]

    def call(self, blk):
        return self.g.blocks[blk].call

    def nblk(self, blk):
        return len(self.g.blocks[blk].stmts)

    # ------------------------------------------------------------- paths
    def search(self, starts, targets, avoid=(), include_start=False):
        """a path of exploded nodes from one of starts to a node whose block is in targets (or which itself is in
        targets when given as node set) not passing through a block in avoid; None if there is none."""
        e = self.e
        avoid = set(avoid)
        tb = set(x for x in targets if not isinstance(x, tuple))
        tn = set(x[1] for x in targets if isinstance(x, tuple))
        prev = {}
        st = []
        for s in starts:
            if s not in prev:
                prev[s] = None
                st.append(s)
        while st:
            nxt = []
            for x in st:
                b = e.nodes[x][0]
                if b in tb or x in tn:
                    path = []
                    while x is not None:
                        path.append(x)
                        x = prev[x]
                    return path[::-1]
                if b in avoid:
                    continue
                for y in e.succ[x]:
                    if y not in prev:
                        prev[y] = x
                        nxt.append(y)
            st = nxt
        return None

    def entry(self):
        return [self.e.entry]

    def after(self, blk):
        """exploded nodes right after the call block"""
        out = []
        if self.g.blocks[blk].call is not None and not self.g.blocks[blk].call.ext:
            blk = self.g.blocks[blk].call.exit
        for i in self.e.byblk.get(blk, []):
            if i < self.e.main:
                out += self.e.succ[i]
        return out

    def rets(self, variant=None):
        return [("n", i) for i in self.e.ret_nodes(variant)]

    def ret_main(self, variant=None):
        return [("n", i) for i in self.e.ret_nodes(variant) if i < self.e.main]

    def fail(self, blk, tags=None):
        """exploded nodes reached when the call at blk fails"""
        if tags is None:
            t = self.result_kind(blk)
            if t is None:
                return []
            tags = {(): t}
        return self.e.seed(blk, tags)

    def result_kind(self, blk):
        c = self.call(blk)
        if c is None or c.dest is None:
            return None
        t = self.g.ty_of_place(c.dest)
        if t[0] == "adt" and t[1] == "core::result::Result":
            return "VErr"
        if t[0] == "adt" and t[1] == "core::option::Option":
            return "VNone"
        return None

    def result_kind_ret(self):
        """'Result' / 'Option' / None: what the root returns"""
        t = self.g.ty_of_place((self.g.retvar, ()))
        return {"core::result::Result": "Result", "core::option::Option": "Option"}.get(t[1]) if t[0] == "adt" else None

    def show(self, path, limit=14):
        """readable rendering of a path: the repository lines of its calls"""
        out = []
        for x in path:
            b = self.g.blocks[self.e.nodes[x][0]]
            if b.kind in ("call", "ret", "switch"):
                w = self.g.where(b.id)
                if not out or out[-1] != w:
                    out.append(w)
        if len(out) > limit:
            out = out[:4] + ["..."] + out[-(limit - 5):]
        return " -> ".join(out)

    def where(self, blk):
        return self.g.where(blk)

    # ------------------------------------------------------------- values
    def arg_vals(self, blk, i, path=()):
        return self.f.arg(blk, i, path)

    def raw_vals(self, blk, i):
        """like arg_vals, but sub-slicing is not looked through: a sub-slice shows up as the slicing call"""
        if self._sl is None:
            rx = re.compile(r"ops::index::(Index::index|IndexMut::index_mut)$|ops::index::Index(Mut)?>::index(_mut)?$|"
                            r"\[T\]::(get|get_mut|first|last|first_mut|last_mut|get_unchecked|get_unchecked_mut|split_at|split_at_mut|"
                            r"split_first|split_last|chunks\w*|as_chunks\w*|windows)$|slice::raw::from_raw_parts(_mut)?$|"
                            r"split_to$|split_off$|Iterator::(take|skip|step_by)$")

            def cut(flow, b, c, path, lv, subs):
                if "index" in (c.path or "") and len(c.args) > 1:
                    t = self.g.ty_of_op(c.args[1])
                    if t[0] != "adt" or "range" not in t[1].lower() or t[1].endswith("RangeFull"):
                        return False
                lv.add(("call", b.id, path))
                return True
            self._sl = Flow(self.g, [("res", rx, cut)])
            self._sl.feasible = self.e.feasible
        return self._sl.arg(blk, i)

    def arg_content(self, blk, i, path=()):
        return self.f.argc(blk, i, path)

    def arg_deps(self, blk, i, through=None):
        b = self.g.blocks[blk]
        return self.f.deps(self.f._deep(blk, len(b.stmts), b.call.args[i]), through)

    def arg_term(self, blk, i, depth=12):
        b = self.g.blocks[blk]
        return self.f.dterm(blk, len(b.stmts), b.call.args[i], depth, ())

    def op_term(self, blk, op, depth=12):
        b = self.g.blocks[blk]
        return self.f.dterm(blk, len(b.stmts), op, depth, ())

    def dep_calls(self, deps):
        out = set()
        for v in deps:
            if v[0] in ("call", "mut"):
                c = self.call(v[1])
                out.add(c.path)
                if c.tpath:
                    out.add(c.tpath)
        return out

    def ret_content(self, path=()):
        """origins of (a part of) the returned value over all returns"""
        out = set()
        for r in self.g.rets:
            if r in self.e.reached:
                b = self.g.blocks[r]
                out |= self.f.trace(r, len(b.stmts), ("v", self.g.retvar), tuple(path))
        return out


def show(t, depth=0):
    """compact rendering of a term"""
    if isinstance(t, frozenset):
        return "{" + " | ".join(sorted(show(x) for x in t)) + "}"
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k in ("call", "out"):
        a = t[2] if k == "call" else t[3]
        n = "::".join(str(t[1]).split("::")[-2:])
        return n + "(" + ", ".join(show(x) for x in a) + ")" + "".join(str(x) for x in t[-1])
    if k == "phi":
        return show(t[1])
    if k == "agg":
        return (str(t[1][0]).split("::")[-1] if t[1] else "") + "{" + ", ".join(show(x) for x in t[2]) + "}"
    if k == "arg":
        return "arg%d%s" % (t[1], "".join(t[2]))
    if k == "init":
        return "*" + show(t[1][1] if t[1][0] == "obj" else t[1]) + "".join(t[2])
    if k == "ptr":
        return "&" + show(t[1][1] if t[1][0] == "obj" else t[1]) + "".join(t[2])
    if k == "k":
        return str(t[1][-1])
    if k == "op":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2:]))
    if k == "cast":
        return show(t[1])
    return str(t)
