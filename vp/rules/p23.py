"""P23: passphrases and transient key copies are wiped after use."""
from .common import *
from .p28 import SECRET

TECHNIQUE = "ownership and must-wipe-before-exit analysis: every local buffer that receives passphrase or key bytes is followed over moves, copies and calls to every return on the inlined MIR flow graph"
EXPLANATION = ("For every constructor of a key provider, the operations that store a snapshot key and the loading of raw key bytes into guarded memory, the bytes handed in (or borrowed from a key provider) are followed through copies. Each local buffer, "
               "vector or by-value parameter that holds them must be overwritten (zeroized), or moved into another owner that is in turn checked, on every path from the point where it receives the bytes to every return, successful or not.")
ASSUMPTIONS = ["zeroize overwrites the whole buffer it is given", "no unwinding out of these operations", "the output of a hash function is not a copy of its input"]
NOTE = "All constructors of KeyProvider, store_snapshot_key_at_location, store_snapshot_key, store_secret_key, Key::load and NCKey::load."

KP = "iota_stronghold::security::keyprovider::KeyProvider"
SN = "iota_stronghold::types::snapshot::Snapshot::"
ZERO = r"zeroize::Zeroize(>)?::zeroize$"
IDENT = re.compile(r"(AsRef|AsMut|Deref|DerefMut|Borrow|BorrowMut|Index|IndexMut|Clone|Into|From|TryInto|TryFrom|ToOwned|IntoIterator)(<.*>)?( for .*)?(>)?::\w+$"
                   r"|Iterator(>)?::\w+$|\[T\]::\w+$|(vec::Vec|string::String|str|array|option::Option|result::Result|boxed::Box|slice)::\w+$|^core::(slice|array|str|ptr|mem)::|from_raw_parts|memories::\w+::\w+(>)?::(borrow|unlock|as_\w+)$")
NOTCOPY = re.compile(r"::(len|is_empty|capacity|cmp|eq|ne|partial_cmp|position|count|sum|all|any|contains|fill|clear|truncate|size_of_val|size_hint|is_ok|is_err|is_some|is_none|ends_with|starts_with)$")
COPYIN = re.compile(r"::(copy_from_slice|clone_from_slice|copy_within|extend\w*|push\w*|write\w*|insert\w*|append|copy_nonoverlapping|copy|copy_to\w*|copy_from\w*|swap_with_slice|clone_from|clone_into|clone_to_uninit|replace|swap|resize\w*|fill_with|for_each)$")
HOLD = re.compile(r"^alloc::(vec::Vec|string::String|boxed::Box|borrow::Cow|collections::.*)$|^core::(option::Option|result::Result|mem::maybe_uninit::MaybeUninit)$|^generic_array::")
SRC = r"memories::\w+::\w+(>)?::(borrow|borrow_mut|unlock)$|LockedMemory(<.*>)?( for .*)?(>)?::unlock$"


def storage(t, params=(), depth=0):
    """a value of this type holds bytes in memory of its own"""
    if depth > 5:
        return False
    if t[0] == "array":
        return t[1] == ("prim", "u8")
    if t[0] == "param":
        return t in params
    if t[0] == "tuple":
        return any(storage(x, params, depth + 1) for x in t[1])
    if t[0] == "adt":
        if t[1] == "alloc::string::String":
            return True
        if t[1] == "alloc::vec::Vec":
            return bool(t[2]) and t[2][0] == ("prim", "u8")
        if HOLD.search(t[1]):
            return any(storage(x, params, depth + 1) or x in (("slice", ("prim", "u8")), ("prim", "str")) for x in t[2])
    return False


def subjects(cx):
    """(function, argument that holds the bytes or None)"""
    prog = cx.prog
    out = []
    for b in sorted((b for b in prog.bodies.values() if b.local and b.crate.name == "iota_stronghold"), key=lambda b: b.path):
        if "{{closure" in b.path:
            continue
        m = b.path.startswith(KP + "::") and b.pub or re.search(r"<%s as core::convert::(Try)?From.*::(try_)?from$" % re.escape(KP), b.path)
        if m or b.path in (SN + "store_snapshot_key", SN + "store_secret_key"):
            for i in range(b.argc):
                t = b.locals[i + 1]
                if t[0] == "param" or storage(t):
                    out.append((b, i))
                    break
    for p in ("engine::vault::crypto_box::Key::load", "engine::vault::crypto_box::NCKey::load"):
        out += [(b, 0) for b in prog.by_path.get(p, []) if b.local]
    out += [(b, None) for b in prog.by_path.get("iota_stronghold::types::stronghold::Stronghold::store_snapshot_key_at_location", []) if b.local]
    return out


class Bytes:
    def __init__(self, a, b, arg):
        self.a, self.g, self.arg = a, a.g, arg
        self.params = (b.locals[arg + 1],) if arg is not None else ()
        self.memo = {}
        self.types = {}

    def holds(self, n):
        if n not in self.types:
            t = self.g.ty_of_place((n, ()))
            self.types[n] = storage(t, self.params)
        return self.types[n]

    def through(self, c, v):
        p = (c.path or "") + " " + (c.tpath or "")
        if NOTCOPY.search(c.path or "") or re.search(SRC, c.path or ""):
            return ()
        return None if IDENT.search(c.path or "") or IDENT.search(c.tpath or "") else ()

    def secret(self, vals):
        d = self.a.f.deps(vals, self.through)
        for v in d:
            if v[0] == "arg" and v[1] == self.arg and self.arg is not None:
                return True
            if self.arg is None and v[0] in ("call", "mut") and re.search(SRC, self.a.call(v[1]).path or ""):
                return True
            if self.arg is None and v[0] == "ptr" and v[1][0] == "v":
                t = self.g.ty_of_place((v[1][1], ()))
                if t[0] == "adt" and SECRET.search(t[1]):
                    return True
        return False

    def op(self, blk, i, op):
        return op[0] == "p" and self.secret(self.a.f._deep(blk, i, op))

    def fills(self):
        """(local, block, statement index or None): where a local receives the bytes"""
        a, g = self.a, self.g
        for blk in g.blocks:
            if blk.id not in a.e.reached:
                continue
            for i, st in enumerate(blk.stmts):
                if st[0] != "=":
                    continue
                pl, rv = st[1], st[2]
                ops = rv[3] if rv[0] == "agg" else [rv[1]] if rv[0] == "use" else [rv[2]] if rv[0] == "cast" else [rv[1]] if rv[0] == "rep" else []
                if rv[0] == "agg" and rv[1][0] in ("closure",):
                    continue
                if "*" in pl[1]:
                    tg = {p[0][1] for p in [(r,) for r, _ in a.f.resolve(blk.id, i, pl)] if p[0][0] == "v"}
                else:
                    tg = {pl[0]}
                tg = {n for n in tg if self.holds(n)}
                if tg and any(self.op(blk.id, i, o) for o in ops if isinstance(o, tuple)):
                    for n in tg:
                        yield n, blk.id, i
            c = blk.call
            if blk.kind != "call" or c is None or not c.ext:
                continue
            k = len(blk.stmts)
            if c.dest is not None and "*" not in c.dest[1] and self.holds(c.dest[0]) and not NOTCOPY.search(c.path or "") and (IDENT.search(c.path or "") or IDENT.search(c.tpath or "")):
                if any(self.op(blk.id, k, o) for o in c.args):
                    yield c.dest[0], blk.id, None
            if COPYIN.search(c.path or "") or COPYIN.search(c.tpath or ""):
                for x in range(len(c.args)):
                    tg = {v[1][1] for v in a.arg_vals(blk.id, x) if v[0] == "ptr" and v[1][0] == "v" and self.holds(v[1][1])}
                    if tg and str(g.ty_of_op(c.args[x])).find("True") >= 0 and any(self.op(blk.id, k, o) for y, o in enumerate(c.args) if y != x):
                        for n in tg:
                            yield n, blk.id, None

    def discharges(self, n):
        """(blocks whose call wipes the local or moves it on, {(block, statement)} that move it to another owner)"""
        a, g = self.a, self.g
        calls, stmts = set(), set()
        for z in a.calls(ZERO):
            if any(v[0] == "ptr" and v[1] == ("v", n) for v in self.objs(z, 0)) and whole(a, z, 0):
                calls.add(z)
        for z in a.calls(r"\[T\]::fill$"):
            if any(v[0] == "ptr" and v[1] == ("v", n) for v in a.arg_vals(z, 0)) and whole(a, z, 0) and a.arg_vals(z, 1) == {("k", ("int", "0"))}:
                calls.add(z)
        for blk in g.blocks:
            if blk.id not in a.e.reached:
                continue
            for i, st in enumerate(blk.stmts):
                if st[0] != "=":
                    continue
                pl, rv = st[1], st[2]
                ops = rv[3] if rv[0] == "agg" else [rv[1]] if rv[0] == "use" else [rv[2]] if rv[0] == "cast" else []
                for o in ops:
                    if isinstance(o, tuple) and o[0] == "p" and o[1][0] == n and len(o) > 2 and o[2] and "*" not in o[1][1] and self.movable(n, o):
                        if "*" in pl[1] or self.holds(pl[0]) or rv[0] == "agg":
                            stmts.add((blk.id, i))
                if pl == (n, ()) and rv[0] in ("rep",) and not any(self.op(blk.id, i, o) for o in rv[1:2] if isinstance(o, tuple)):
                    stmts.add((blk.id, i))
            c = blk.call
            if blk.kind == "call" and c is not None and c.ext:
                for o in c.args:
                    if o[0] == "p" and o[1][0] == n and len(o) > 2 and o[2] and "*" not in o[1][1] and self.movable(n, o):
                        if re.search(r"Zeroizing", (c.path or "") + (c.tpath or "") + str(c.targs)) or c.dest is not None and self.holds(c.dest[0]) and (IDENT.search(c.path or "") or IDENT.search(c.tpath or "")):
                            calls.add(blk.id)
        return calls, stmts

    def objs(self, z, i):
        out = set(self.a.arg_vals(z, i))
        for v in list(out):
            if v[0] == "call" and IDENT.search(self.a.call(v[1]).path or ""):
                out |= {w for j in range(len(self.a.call(v[1]).args)) for w in self.a.arg_vals(v[1], j)}
        return out

    def movable(self, n, o):
        """moving it leaves no copy behind that stays reachable: everything but a Copy array named by the program"""
        return True


def check(cx):
    subs = subjects(cx)
    cx.floor("operations that receive passphrase or key bytes", len(subs), 5)
    for b, arg in subs:
        a = cx.an(b, RuntimeOpaque())
        B = Bytes(a, b, arg)
        n = short(b.path)
        fs = list(B.fills())
        todo = {}
        if arg is not None:
            todo[(arg + 1, None, None)] = "argument"
        for (l, blk, i) in fs:
            todo[(l, blk, i)] = "copy"
        dis = {}
        bad = {}
        cnt = 0
        for (l, blk, i), kind in todo.items():
            if l not in dis:
                dis[l] = B.discharges(l)
            calls, stmts = dis[l]
            cnt += 1
            sb = {x for x, _ in stmts}
            if blk is None:
                starts = a.entry()
                w = a.search(starts, a.rets(), avoid=calls | sb)
            else:
                if i is not None and (any(x == blk and j > i for x, j in stmts) or blk in calls):
                    continue
                starts = a.after(blk) if i is None else [y for x in a.e.byblk.get(blk, []) if x < a.e.main for y in a.e.succ[x]]
                w = a.search(starts, a.rets(), avoid=calls | sb)
                if i is not None and blk in a.g.rets:
                    w = w or [x for x in a.e.byblk.get(blk, [])][:1]
            if w is not None:
                bad.setdefault(kind, (blk, l, w))
        for kind in ("argument", "copy"):
            if kind == "argument" and arg is None:
                continue
            x = bad.get(kind)
            cx.ob("wiped-" + kind, n, x is None, a.where(x[0]) if x and x[0] is not None else "",
                  "" if x is None else "%s holds key or passphrase bytes and is not overwritten on a path to the return: %s" % ("the argument" if kind == "argument" else "a copy (%s)" % str(a.g.ty_of_place((x[1], ())))[:60], a.show(x[2])))
        cx.count("buffers followed", cnt)
