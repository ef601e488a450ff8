"""Byte-wise exclusive-or normal form of a buffer's content: the set of atoms that are xored together."""
import re
from .query import show

ZERO = r"vec::from_elem$|Vec::(new|with_capacity|with_capacity_in)$|default::Default(>)?::default$"
WRAP = r"TryFrom(>)?::try_from$|TryInto(>)?::try_into$|From(>)?::from$|Into(>)?::into$|GenericArray|Result::(unwrap|expect|map_err|or)$"
DIGEST = r"digest::Digest(>)?::digest$|Blake2b256.*::digest$|hashes::\w+::\w+$"


class Xnf:
    """atom(v) gives an atom's identity for a source value or None"""

    def __init__(self, a, atom):
        self.a, self.atom = a, atom
        self.busy = set()
        self.ops = set()

    def zero(self, v):
        a = self.a
        if v[0] == "call" and re.search(ZERO, a.call(v[1]).path or ""):
            c = a.call(v[1])
            if c.path.endswith("from_elem"):
                return all(x[0] == "k" and re.match(r"^0(_|$)|^0x0$", str(x[1][-1])) for x in a.arg_vals(v[1], 0))
            return True
        if v[0] == "op":
            s = show(a.f.vterm(v, 4, ()))
            return bool(re.match(r"^rep\(0|^Repeat\(0|^\[0", s))
        return v[0] == "k" and str(v[1][-1]) in ("0", "0_u8", "0u8")

    def deref(self, blk, idx, op):
        """the content values of an operand: pointers followed"""
        out, seen, st = set(), set(), list(self.a.f.vals(blk, idx, op))
        while st:
            v = st.pop()
            if v in seen:
                continue
            seen.add(v)
            if v[0] == "ptr":
                st.extend(self.a.f.trace(blk, idx, v[1], v[2]))
            else:
                out.add(v)
        return out

    def arg(self, blk, i):
        b = self.a.g.blocks[blk]
        return self.nf(self.deref(blk, len(b.stmts), b.call.args[i]))

    def nf(self, vals):
        """the possible normal forms (a set of frozensets of atoms)"""
        vals = set(vals)
        live = set(v for v in vals if not self.zero(v) and v not in self.busy)
        if not live:
            return set() if vals & self.busy else {frozenset()}
        mixed = [v for v in live if self.is_xor(v)]
        if mixed:
            # in-place update: what is updated is no alternative of its own
            base, mine = set(), {}
            for v in mixed:
                for x in self.parts(v):
                    if v in x or strip(v) in set(strip(y) for y in x):
                        base |= set(strip(y) for y in x)
                        mine.setdefault(v, set()).update(strip(y) for y in x if y != v)
            keep = set(v for v in mixed if not any(strip(v) in m for w, m in mine.items() if w != v)) or set(mixed)
            live = set(v for v in live if v in keep or (v not in mixed and strip(v) not in base))
        out = set()
        for v in live:
            out |= self.one(v)
        return out

    def is_xor(self, v):
        return self.parts(v) is not None

    def parts(self, v):
        """the two operands' values when v is an exclusive-or"""
        a = self.a
        if v[0] == "op":
            s = a.g.blocks[v[1]].stmts
            if v[2] < len(s) and s[v[2]][0] == "=" and s[v[2]][2][0] == "bin" and s[v[2]][2][1] == "BitXor":
                return [self.deref(v[1], v[2], o) for o in s[v[2]][2][2:4]]
        elif v[0] in ("call", "mut"):
            c = a.call(v[1])
            if c is not None and len(c.args) == 2 and re.search(r"BitXor(Assign)?(<.*>)?(>)?::bitxor(_assign)?$", c.tpath or c.path):
                n = len(a.g.blocks[v[1]].stmts)
                return [self.deref(v[1], n, o) for o in c.args]
        return None

    def one(self, v):
        a = self.a
        if self.is_xor(v):
            self.ops.add(v)
            self.busy.add(v)
            l, r = (self.nf(x) for x in self.parts(v))
            self.busy.discard(v)
            return set(x ^ y for x in l for y in r)
        at = self.atom(v)
        if at is not None:
            return {frozenset([at])}
        if v[0] in ("call", "mut"):
            c = a.call(v[1])
            p = (c.path or "") + " " + (c.tpath or "")
            if c.args and any(re.search(DIGEST, x) for x in p.split(" ")):
                n = len(c.args) - 1 if v[0] == "call" else 0
                return set(frozenset([("H", x)]) for x in self.arg(v[1], 0 if v[0] == "call" else n))
            if v[0] == "call" and c.args and re.search(r"Iterator(>)?::(collect|copied|cloned)$|FromIterator(>)?::from_iter$|IntoIterator(>)?::into_iter$", c.tpath or c.path):
                return self.arg(v[1], 0)
            if v[0] == "call" and re.search(r"Iterator(>)?::map$", c.tpath or c.path) and len(c.cbs) == 1:
                b = a.g.blocks[v[1]]
                out, st, seen = set(), list(a.f.trace(v[1], len(b.stmts), ("v", c.cbs[0][1]), ())), set()
                while st:
                    x = st.pop()
                    if x not in seen:
                        seen.add(x)
                        if x[0] == "ptr":
                            st.extend(a.f.trace(v[1], len(b.stmts), x[1], x[2]))
                        else:
                            out.add(x)
                return self.nf(out)
            if v[0] == "call" and c.args and any(re.search(WRAP, x) for x in p.split(" ")):
                return self.arg(v[1], 0)
        return {frozenset([("?", re.sub(r"\[\]$", "", show(a.f.vterm(v, 6, ())))[:160])])}

    def covers(self, v):
        """problem with the indices used in the function (instance) that computes the exclusive-or v, or None"""
        a = self.a
        ctx = a.g.blocks[v[1]].ctx
        ctxs = [ctx]
        while getattr(ctxs[-1], "kind", None) == "cb" or "closure" in ctxs[-1].body.path.rsplit("::", 1)[-1]:
            if ctxs[-1].parent is None:
                break
            ctxs.append(ctxs[-1].parent)
        idx = set()
        for b in a.g.blocks:
            if b.ctx not in ctxs or b.id not in a.e.reached:
                continue
            if b.kind == "call" and b.call is not None and re.search(r"Iterator(>)?::(skip|skip_while|take_while|step_by|filter|filter_map|nth|map_while)$", b.call.tpath or b.call.path):
                return "some bytes are left out (%s)" % b.call.path.rsplit("::", 1)[1]
            for n, st in enumerate(b.stmts):
                for pl in places(st):
                    for e in pl[1]:
                        if isinstance(e, tuple) and e[0] == "i":
                            idx.add(show(a.f.dterm(b.id, n, ("p", (e[1], ()), False), 8, ())))
            c = b.call
            if b.kind == "call" and c is not None and re.search(r"Index(Mut)?(>)?::index(_mut)?$|\[T\]::get(_mut|_unchecked|_unchecked_mut)?$", (c.tpath or c.path)) and a.g.ty_of_op(c.args[1]) == ("prim", "usize"):
                idx.add(show(a.arg_term(b.id, 1, 8)))
        if len(idx) > 1:
            return "bytes at different positions are combined: " + "; ".join(sorted(idx))[:300]
        for s in idx:
            if re.match(r"^\{0 \| Add\(.*, 1\)\}$", s):
                continue        # i = 0; ...; i += 1
            if re.search(r"\b(Add|Sub|Rem|Mul|BitAnd|BitOr|Div|Shr|Shl)\w*\(", s.split("Range")[0]):
                return "the position is no plain iteration variable: " + s[:200]
            m = re.search(r"Range\w*\{[^,{}]*, (.*?)\}", s)
            if m and re.search(r"\b(Sub|Rem|Div|Shr|BitAnd)\w*\(", m.group(1)):
                return "the iteration ends at %s" % m.group(1)[:80]
            m = re.search(r"Range\w*\{([^,{}]*),", s)
            if m and m.group(1).strip() not in ("0", "0_usize"):
                return "the iteration starts at %s" % m.group(1)
        return None


def places(st):
    out = []

    def walk(x):
        if isinstance(x, (tuple, list)):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple):
                out.append(x)
            for y in x:
                walk(y)
    walk(st[1:3])
    return out


def strip(v):
    """a value without its element selection"""
    return v[:2] + (tuple(x for x in v[2] if x != "[]"),) if len(v) > 2 and isinstance(v[2], tuple) else v
