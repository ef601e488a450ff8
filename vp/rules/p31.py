"""P31: manually managed memory is freed exactly once and never used after."""
from .common import *
from .p19 import chain
from ..framework import Policy, NoOpaque
from ..graph import TooBig
from ..ir import subst

TECHNIQUE = "ownership analysis: pairing of raw allocations with their owning values and of owners with the release in their drop implementation, plus double-release / use-after-release reachability on the inlined MIR flow graph with drop glue"
EXPLANATION = ("Owning types are found as the types whose drop implementation hands memory reached through one of their raw pointer fields to a release function. Their drop releases on every path exactly one block and does not touch memory "
               "through the pointer afterwards. Every value of such a type that is built anywhere takes the released pointer (and length) unchanged from one allocation call made for this value alone, of the kind that its drop then releases; the pointer "
               "fields are never reassigned and no owner is copied bitwise. In every function that allocates or releases, with the drops of owners expanded: no block is released twice and none is touched after its release; every allocation that succeeded ends up in an "
               "owner, in the release function or in the hands of the C caller on every path; an owner is only forgotten after its memory was released. Reference results of owner methods do not outlive the borrow of the owner. Exported C functions release only "
               "the pointer they were given for release, once.")
ASSUMPTIONS = ["callers of the C interface release each pointer once and do not use it afterwards", "Rust's ownership rules hold for safe code: a value is dropped once unless it is copied by unsafe code", "a panic between allocation and construction of the owner leaks, but does not release twice"]
NOTE = "All types with a raw allocation in runtime, engine, client, stm and the native bindings (Linux configuration)."

FREE = r"libc::.*::(free|munmap)$|sodium_free$|(Box|CString|Vec|Rc|Arc|String)::from_raw(_parts)?(_in)?$|alloc::alloc::dealloc$"
ALLOC = r"libc::.*::(malloc|calloc|realloc|strdup|mmap|mmap64|posix_memalign|aligned_alloc)$|sodium_(malloc|allocarray)$|(Box|CString|Vec|Rc|Arc)::into_raw(_parts)?$|(Box|Vec|String)::leak$|alloc::alloc::(alloc|alloc_zeroed|realloc)$"
FAMILY = [(r"libc::.*::(malloc|calloc|realloc|strdup|posix_memalign|aligned_alloc|free)$", "malloc"), (r"libc::.*::(mmap|mmap64|munmap)$", "mmap"), (r"sodium_", "sodium"), (r"CString::", "CString"), (r"Box::", "Box"), (r"Vec::", "Vec"), (r"Rc::", "Rc"), (r"Arc::", "Arc"), (r"alloc::alloc::", "alloc")]
FORGET = r"mem::forget$|ManuallyDrop::new$|(Box|Vec|String)::leak$"
BITWISE = r"ptr::(read|read_volatile|read_unaligned|copy|copy_nonoverlapping|swap|replace|drop_in_place)$|ptr::(const_ptr|mut_ptr)::.*::(read\w*|copy_\w+|replace|swap|drop_in_place)$|mem::(transmute_copy|zeroed|uninitialized)$|MaybeUninit::(assume_init\w*|zeroed)$|ManuallyDrop::(take|drop)$|intrinsics::(transmute|read_via_copy|copy\w*)$"
KEEP = {"realloc"}


def family(c):
    p = c.path or c.tpath or ""
    for rx, n in FAMILY:
        if re.search(rx, p):
            return n + ("<%s>" % (c.targs[0],) if n in ("Box", "Vec", "Rc", "Arc") and c.targs else "")
    return p


def rawptr(t, depth=0):
    if t[0] == "ptr" or t[0] == "adt" and re.search(r"ptr::(non_null::NonNull|unique::Unique)$|AtomicPtr$", t[1]):
        return True
    if t[0] == "tuple" and depth < 4:
        return any(rawptr(x, depth + 1) for x in t[1])
    if t[0] == "adt" and re.search(r"(Option|Cell|ManuallyDrop)$", t[1]) and depth < 4:
        return any(rawptr(x, depth + 1) for x in t[2])
    return False


def holds(prog, t, owners, depth=0):
    """does a value of the type own an owner"""
    if not isinstance(t, tuple) or depth > 7 or t[0] in ("ref", "ptr", "fnptr", "fndef"):
        return False
    if t[0] in ("slice", "array"):
        return holds(prog, t[1], owners, depth + 1)
    if t[0] == "tuple":
        return any(holds(prog, x, owners, depth + 1) for x in t[1])
    if t[0] != "adt":
        return False
    if t[1] in owners:
        return True
    ad = prog.adts.get(t[1])
    if ad is not None:
        s = dict(zip(ad["generics"], t[2]))
        return any(holds(prog, subst(f["t"], s), owners, depth + 1) for v in ad["variants"] for f in v["f"])
    return any(holds(prog, x, owners, depth + 1) for x in t[2])


class Glue(NoOpaque):
    def __init__(self, owners=()):
        self.owners = owners
        self.memo = {}

    def opaque(self, b):
        return bool(re.search(r"as core::fmt::|Bytes(>)?::\w+$|ConstEq(>)?::\w+$|Randomized(>)?::\w+$|Zeroed(>)?::\w+$|ct_\w+$", b.path)) and not re.search("Bytes as ", b.path)

    def expand_drop(self, prog, ty):
        if ty not in self.memo:
            self.memo[ty] = holds(prog, ty, self.owners)
        return self.memo[ty]


class LibOnly(Policy):
    """native functions: the library's own operations stay calls"""
    def opaque(self, b):
        return b.local and b.crate.name in ("iota_stronghold", "engine", "runtime", "stronghold_utils")


def drops(prog):
    return {e["self_t"][1]: it["u"] for e in prog.impl_by_trait.get("core::ops::drop::Drop", []) if e["self_t"][0] == "adt" for it in e["items"] if it["n"] == "drop"}


def arg_root(v):
    """(argument, field path) a value was read from, through pointers and casts"""
    p = ()
    while v[0] in ("init", "ptr") and v[1][0] == "o":
        p = tuple(x for x in v[2] if x.startswith(".")) + p
        v = v[1][1]
        if v[0] == "obj":
            v = v[1]
    if v[0] == "arg":
        return v[1], tuple(x for x in v[2] if x.startswith(".")) + p
    return None


def owners(cx):
    prog = cx.prog
    out = {}
    for t, u in sorted(drops(prog).items()):
        b = prog.bodies.get(u)
        if b is None or not b.local:
            continue
        ad = prog.adts.get(t)
        if not ad or not any(rawptr(f["t"]) for v in ad["variants"] for f in v["f"]):
            continue
        a = cx.an(b, Glue())
        fr = a.calls(FREE)
        mine = []
        for f in fr:
            vals = a.arg_vals(f, 0)
            r = {arg_root(v) for v in vals}
            if r and None not in r and all(x[0] == 0 for x in r):
                mine.append((f, sorted({x[1] for x in r})))
        if mine:
            out[t] = (b, a, mine)
    return out


def freed_lens(a, f):
    """field paths of the length handed to munmap / from_raw_parts"""
    c = a.call(f)
    if re.search(r"munmap$", c.path or ""):
        return {arg_root(v) for v in a.arg_vals(f, 1)}
    return set()


def derefs(a, fields):
    """(block, ...) that access memory through the pointer fields of argument 0"""
    out = []
    for bl in a.g.blocks:
        if bl.id not in a.e.reached:
            continue
        hit = False
        for i, st in enumerate(bl.stmts):
            if st[0] != "=":
                continue
            pls = [st[1]] + list(places(st[2]))
            for pl in pls:
                if "*" in pl[1] and not rawptr(a.g.ty_of_place(pl)) and any(o[0] == "o" and through(o, p, fields) for o, p in a.f.resolve(bl.id, i, pl)):
                    hit = True
        c = bl.call
        if bl.kind == "call" and c is not None and c.ext and not re.search(FREE + r"|NonNull::|ptr::|as_ptr|fmt::", c.path or ""):
            for i in range(len(c.args)):
                if any(v[0] in ("ptr", "init") and v[1][0] == "o" and arg_root(v) and arg_root(v)[0] == 0 and arg_root(v)[1][:1] in {f[:1] for f in fields} for v in a.arg_vals(bl.id, i)):
                    hit = True
        if hit:
            out.append(bl.id)
    return out


def places(rv):
    for x in rv[1:]:
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "p" and isinstance(x[1], tuple):
                yield x[1]
            elif len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple):
                yield x
            elif x and isinstance(x[0], tuple):
                for y in x:
                    if isinstance(y, tuple) and len(y) == 3 and y[0] == "p":
                        yield y[1]


def through(o, p, fields):
    """is the object behind a pointer field of argument 0"""
    r = arg_root(("init", o, p))
    return r is not None and r[0] == 0 and bool(r[1]) and r[1][:1] in {f[:1] for f in fields}


def check_drop(cx, t, b, a, mine):
    k = short(t)
    fs = [f for f, p in mine]
    w = a.search(a.entry(), a.rets(), avoid=fs)
    cx.ob("released", k, w is None, "", "" if w is None else "its memory is not released on the path " + a.show(w))
    for f in fs:
        w = a.search(a.after(f), fs)
        cx.ob("released-once", k, w is None, a.where(f), "" if w is None else "its memory is released again: " + a.show(w))
        fields = [("." + x["n"],) for v in cx.prog.adts[t]["variants"] for x in v["f"] if rawptr(x["t"])]
        d = derefs(a, fields)
        w = a.search(a.after(f), d)
        cx.ob("not-used-after", k, w is None, a.where(f), "" if w is None else "memory is used after its release: " + a.show(w))
        others = [c for c in a.calls(FREE) if c not in fs]
        cx.ob("only-own", k, not others, a.where(others[0]) if others else "", "the drop releases memory that is not the value's own")


def literals(prog, t):
    """bodies in which a value of the type is built"""
    return [b for b in prog.bodies.values() if b.local and any(st[0] == "=" and st[2][0] == "agg" and st[2][1].get("p") == t for blk in b.blocks for st in blk["s"])]


def sub(a, b, i, op, path):
    """the values at a field path of an operand, numbers included"""
    return a.f.vals_path(b, i, op, tuple(path)) if path else a.f.vals(b, i, op)


def fixed_fields(a, bl, i, st):
    """fields that are given a fixed variant"""
    out = {}
    for n, o in zip(st[2][2], st[2][3]):
        vs = a.f.vals(bl, i, o)
        tags = set()
        for v in vs:
            if v[0] == "agg":
                k = a.g.blocks[v[1]].stmts[v[2]][2][1]
                tags.add("V" + k[2] if k[0] == "adt" and k[2] else None)
            else:
                tags.add(None)
        if len(tags) == 1 and None not in tags:
            out[n] = tags.pop()
    return out


def passed_in(a, t, at):
    """the pointers of the value built are raw parameters of the function"""
    for bl in a.g.blocks:
        if bl.id not in a.e.reached or bl.ctx.body is not at:
            continue
        for i, st in enumerate(bl.stmts):
            if st[0] == "=" and st[2][0] == "agg" and st[2][1][:2] == ("adt", t):
                for o in st[2][3]:
                    if rawptr(a.g.ty_of_op(o)):
                        for v in a.f.deps(a.f._deep(bl.id, i, o)):
                            if v[0] == "arg" and rawptr(a.g.vars[a.g.argvars[v[1]]][2]):
                                return True
    return False


def check_literals(cx, t, own):
    b0, a0, mine = own
    prog = cx.prog
    k = short(t)
    paths = sorted({p for f, ps in mine for p in ps})
    n = 0
    callees = callers(prog)
    todo = [(b, b) for b in sorted(literals(prog, t), key=lambda b: b.path)]
    seen = set()
    while todo:
        b, at = todo.pop(0)
        b = parent(prog, b)
        if (b.uid, at.uid) in seen:
            continue
        seen.add((b.uid, at.uid))
        a = cx.an(b, Glue())
        if passed_in(a, t, at) and callees.get(b.path):
            # the pointer is a parameter: judged where it comes from
            todo += [(prog.bodies[u], at) for u in sorted(callees[b.path])]
            continue
        lits = {}
        for bl in a.g.blocks:
            if bl.id not in a.e.reached:
                continue
            for i, st in enumerate(bl.stmts):
                if st[0] != "=" or st[2][0] != "agg" or st[2][1][:2] != ("adt", t):
                    continue
                if bl.ctx.body is not at:
                    continue
                n += 1
                w = a.where(bl.id)
                key = "%s:%s" % (k, short(b.path))
                f = dict(zip(st[2][2], st[2][3]))
                fixed = fixed_fields(a, bl.id, i, st)
                u = a0
                if fixed:
                    def world(aps, ty, fixed=fixed):
                        for x in fixed:
                            if aps and all(p[1] and p[1][-1] == "." + x for p in aps):
                                return fixed[x]
                        return None
                    u = a0.under(place=world)
                live = [(g, ps) for g, ps in mine if g in u.e.reached]
                cx.ob("releasable", key, bool(live), w, "no release fits the way this value was built")
                srcs = set()
                for g, ps in live:
                    for p in ps:
                        vals = sub(a, bl.id, i, f[p[0][1:]], p[1:]) if p and p[0][1:] in f else set()
                        calls = {v[1] for v in vals if v[0] == "call" and re.search(ALLOC, a.call(v[1]).path or "")}
                        exact = bool(vals) and all(v[0] == "call" and v[1] in calls and not [x for x in v[2] if x not in (":Some", ":Ok", ".0")] for v in vals)
                        cx.ob("own-allocation", key, exact, w, "" if exact else "the pointer released later does not stem from an allocation made for this value")
                        for c in calls:
                            ok = family(a.call(c)) == family(a0.call(g))
                            cx.ob("same-kind", key, ok, w, "" if ok else "allocated with %s, released with %s" % (short(a.call(c).path), short(a0.call(g).path)))
                            if ok and re.search(r"munmap$", a0.call(g).path):
                                for q in freed_lens(a0, g):
                                    lv = sub(a, bl.id, i, f[q[1][0][1:]], q[1][1:]) if q and q[1] and q[1][0][1:] in f else set()
                                    same = bool(lv) and set(lv) == set(a.arg_vals(c, 1))
                                    cx.ob("same-length", key, same, w, "" if same else "the length released is not the length allocated")
                        srcs |= calls
                # memory the value points into is the same allocation
                for nme, o in f.items():
                    ft = a.g.ty_of_op(o)
                    if not rawptr(ft):
                        continue
                    d = a.f.deps(a.f._deep(bl.id, i, o))
                    al = {v[1] for v in d if v[0] == "call" and re.search(ALLOC, a.call(v[1]).path or "")}
                    foreign = [v for v in d if arg_root(v) and rawish(a, v, t)]
                    ok = al <= srcs and bool(al) and not foreign
                    cx.ob("own-pointer", "%s:%s" % (key, nme), ok, w, "" if ok else "a pointer field refers to memory that is not the value's own")
                for c in srcs:
                    lits.setdefault(c, []).append(bl.id)
        for c in lits:
            for x in lits[c]:
                w = a.search([m for m in a.e.byblk.get(x, [])], [y for y in lits[c] if y != x], avoid=[c])
                cx.ob("one-owner", "%s:%s" % (k, short(b.path)), w is None, a.where(x), "" if w is None else "two values own one allocation: " + a.show(w))
    cx.floor("constructions of " + k, n, 1)
    # pointer fields are not changed afterwards
    names = {p[0] for p in paths if p}
    ad = prog.adts[t]
    names |= {"." + f["n"] for v in ad["variants"] for f in v["f"] if rawptr(f["t"])}
    bad = []
    for b in prog.bodies.values():
        if not b.local:
            continue
        if assigns_field(prog, b, t, {x[1:] for x in names}):
            bad.append(b)
    cx.ob("fields-fixed", k, not bad, bad[0].loc if bad else "", "a pointer field of an owner is reassigned")


def rawish(a, v, t):
    """a value read from an argument that holds an owner"""
    r = arg_root(v)
    return ("'%s'" % t) in str(a.g.vars[a.g.argvars[r[0]]][2]) and bool(r[1])


def peel(t):
    while t[0] in ("ref", "ptr"):
        t = t[1]
    return t


def on_field(b, pl, t, names):
    """does the place lie in a pointer field of an owner"""
    if not isinstance(pl, list) or not pl or not isinstance(pl[0], int):
        return False
    ty = peel(b.locals[pl[0]])
    for x in pl[1:]:
        if x == "*":
            continue
        if isinstance(x, list) and x[0] == "f":
            return ty[0] == "adt" and ty[1] == t and x[2] in names
        return False
    return False


def through_raw(pl, names):
    """field, then a dereference: the memory, not the field"""
    seen = False
    for x in pl[1:]:
        if isinstance(x, list) and x[0] == "f" and x[2] in names:
            seen = True
        elif seen and x == "*":
            return True
    return False


def assigns_field(prog, b, t, names):
    """the pointer fields are assigned, or lent out mutably for more than a look through them"""
    lent = set()
    for blk in b.blocks:
        if blk.get("c"):
            continue
        for st in blk["s"]:
            if st[0] != "=":
                continue
            if len(st[1]) > 1 and on_field(b, st[1], t, names) and not through_raw(st[1], names):
                return True
            rv = st[2]
            if rv[0] in ("ref", "rawref", "addr") and rv[2] and on_field(b, rv[1], t, names) and not through_raw(rv[1], names):
                lent.add(st[1][0])
    for blk in b.blocks:
        if blk.get("c") or blk["t"]["k"] != "call":
            continue
        for arg in blk["t"]["a"]:
            pl = (arg.get("m") or arg.get("c")) if isinstance(arg, dict) else None
            if isinstance(pl, list) and len(pl) == 1 and pl[0] in lent and not re.search(r"NonNull::(as_mut|as_ref|as_ptr)$", blk["t"]["f"].get("fn", {}).get("p", "")):
                return True
    return False


def callers(prog):
    out = {}
    for b in prog.bodies.values():
        if b.local:
            for m in mentions(b):
                out.setdefault(m, set()).add(b.uid)
    return out


CRATES = ("runtime", "stronghold_utils", "stronghold_stm", "stronghold_native")


def starts(prog):
    """functions that themselves allocate, release or forget"""
    return [b for b in prog.bodies.values() if b.local and any(re.search(FREE + "|" + ALLOC + "|" + FORGET, p) for _, p, _, _ in raw_calls(b))]


def parent(prog, b):
    while b.kind.lower() == "closure" and b.parent in prog.bodies:
        b = prog.bodies[b.parent]
    return b


def block_of(a, b, i=0):
    """the allocation calls a pointer argument stems from, and the argument fields it was read from"""
    out = set()
    todo = set()
    for v in a.arg_vals(b, i):
        if v[0] == "ptr" and v[1][0] == "v":
            todo |= set(a.f.trace(b, len(a.g.blocks[b].stmts), v[1], tuple(v[2])))
        else:
            todo.add(v)
    for v in todo:
        if v[0] == "call" and re.search(ALLOC, a.call(v[1]).path or ""):
            out.add(("alloc", v[1]))
        elif arg_root(v):
            out.add(("arg",) + arg_root(v))
        elif v[0] == "op":
            out |= {("alloc", w[1]) for w in a.f.deps({v}) if w[0] == "call" and re.search(ALLOC, a.call(w[1]).path or "")}
    return out


def held(a, x, c, own):
    for i, st in enumerate(a.g.blocks[x].stmts):
        if st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] in own:
            for o in st[2][3]:
                if rawptr(a.g.ty_of_op(o)) and c in dep_blks(a.f.deps(a.f._deep(x, i, o))):
                    return True
    return False


def mentions_alloc(t):
    if isinstance(t, frozenset):
        return any(mentions_alloc(x) for x in t)
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "call" and re.search(ALLOC, str(t[1])):
            return True
        return any(mentions_alloc(x) for x in t)
    return False


def polarity(t):
    """True: the condition holds when the allocation failed; False: when it succeeded; None: another condition"""
    if isinstance(t, frozenset):
        return polarity(next(iter(t))) if len(t) == 1 else None
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "call" and re.search(r"is_null$", str(t[1])) and mentions_alloc(t[2]):
        return True
    if t[0] == "op":
        if t[1] == "Not":
            p = polarity(t[2])
            return None if p is None else not p
        if t[1] in ("Eq", "Ne") and mentions_alloc(t[2:]):
            return t[1] == "Eq"
    return None


def failed_branch(a):
    """first blocks of the branches taken when an allocation returned null / MAP_FAILED"""
    out = []
    for bl in a.g.blocks:
        if bl.id not in a.e.reached or bl.kind != "switch":
            continue
        s = polarity(a.op_term(bl.id, bl.op, 8))
        if s is None:
            continue
        for lab, nx in zip(bl.labels, bl.succ):
            if (str(lab) != "0") == s:
                out.append(nx)
    return out


def touching(a, blks, frees):
    """blocks that access memory reached through the pointers of these blocks"""
    al = {x[1] for x in blks if x[0] == "alloc"}
    args = {x[1:] for x in blks if x[0] == "arg"}
    out = []

    def is_mine(v):
        if v[0] == "obj":
            v = v[1]
        if v[0] == "call" and v[1] in al:
            return True
        r = arg_root(("init", ("o", v), ()))
        return r is not None and r in args
    for bl in a.g.blocks:
        if bl.id not in a.e.reached or bl.id in frees:
            continue
        hit = False
        for i, st in enumerate(bl.stmts):
            if st[0] == "=":
                for pl in [st[1]] + list(places(st[2])):
                    if "*" in pl[1] and any(o[0] == "o" and is_mine(o[1]) for o, p in a.f.resolve(bl.id, i, pl)):
                        hit = True
        c = bl.call
        if not hit and bl.kind == "call" and c is not None and c.ext and not re.search(FREE + r"|NonNull::|ptr::.*::(cast|is_null|add|offset|as_\w+)$|as_ptr|fmt::", c.path or ""):
            for i in range(len(c.args)):
                for v in a.arg_vals(bl.id, i):
                    if v[0] == "ptr" and v[1][0] == "o" and is_mine(v[1][1]) or v[0] == "call" and v[1] in al and rawptr(a.g.ty_of_op(c.args[i])):
                        hit = True
        if hit:
            out.append(bl.id)
    return out


def keep(flow, b, c, path, lv, subs):
    lv.add(("call", b.id, path))
    return True


def in_drop(a, f):
    x = a.g.blocks[f].ctx
    while x is not None:
        if re.search(r"as core::ops::drop::Drop>::drop$", x.body.path):
            return True
        x = x.parent
    return False


def check_user(cx, b, own, n):
    """True if the function releases memory of its caller or hands out raw memory"""
    prog = cx.prog
    native = b.crate.name == "stronghold_native"
    try:
        a = cx.an(b, LibOnly() if native else Glue(set(own)), models=[("res", re.compile(ALLOC), keep)], key="p31")
    except TooBig:
        return False
    k = short(b.path)
    frees = a.calls(FREE)
    n["functions"] += 1
    blocks = {f: block_of(a, f) for f in frees}
    for f in frees:
        n["releases"] += 1
        p = short(a.call(f).path)
        src = {x[1] for x in blocks[f] if x[0] == "alloc"}
        again = [g for g in frees if blocks[g] & blocks[f]]
        w = a.search(a.after(f), again, avoid=src)
        cx.ob("freed-once", "%s:%s" % (k, p), w is None, a.where(f), "" if w is None else "the same memory is released again: " + a.show(w))
        w = a.search(a.after(f), touching(a, blocks[f], frees), avoid=src)
        cx.ob("not-touched", "%s:%s" % (k, p), w is None, a.where(f), "" if w is None else "released memory is used: " + a.show(w))
        if native and b.abi and b.abi.startswith("C"):
            ok = len(blocks[f]) == 1 and all(x[0] == "arg" and x[2] == () for x in blocks[f])
            cx.ob("given-pointer", k, ok, a.where(f), "" if ok else "an exported function releases something other than the pointer it was given")
            n["taken"].append((k, family(a.call(f)), a.where(f)))
    for c in a.calls(FORGET):
        t = a.g.ty_of_op(a.call(c).args[0])
        if not holds(prog, t, set(own)) and not re.search(r"(Box|Vec|String|CString|Rc|Arc)'", str(t)):
            continue
        w = a.search(a.entry(), [c], avoid=frees)
        back = [f for f in frees if re.search(r"from_raw", a.call(f).path or "") and blocks[f] & {("arg",) + arg_root(v) for v in a.arg_vals(c, 0) if arg_root(v)}]
        if back:
            w = w or a.search(a.entry(), [c])
        cx.ob("forgotten", k, w is None, a.where(c), "" if w is None else "a value is forgotten whose memory was not released")
    lit = [bl.id for bl in a.g.blocks if bl.id in a.e.reached and any(st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] in own for st in bl.stmts)]
    forgets = a.calls(FORGET)
    for f in frees:
        if in_drop(a, f):
            continue
        for c in sorted(x[1] for x in blocks[f] if x[0] == "alloc"):
            if any(held(a, x, c, own) for x in lit):
                w = a.search(a.after(f), [("n", r[1]) for r in a.rets()] + [c], avoid=forgets)
                cx.ob("owner-gone", "%s:%s" % (k, short(a.call(f).path)), w is None, a.where(f), "" if w is None else "the memory is released while its owner lives on and will release it again")
    foreign = re.match(r"<.* as ((core|alloc|std|serde\w*|zeroize)::[\w:]+)", b.path)
    if foreign and not b.path.endswith("Drop>::drop"):
        bad = [f for f in frees if not in_drop(a, f) and any(x[0] == "arg" for x in blocks[f])]
        cx.ob("borrowed", k, not bad, a.where(bad[0]) if bad else "", "memory of a value that lives on is released")
    rc = {v[1] for v in a.ret_content() if v[0] == "call"}
    failed = None
    for c in a.calls(ALLOC):
        if parent(prog, a.g.blocks[c].ctx.body) is not b:
            continue
        n["allocations"] += 1
        if c in rc:
            if native:
                n["given"].add(family(a.call(c)))
            continue
        if failed is None:
            failed = failed_branch(a)
        sinks = [f for f in frees if ("alloc", c) in blocks[f]] + [x for x in lit if held(a, x, c, own)]
        ends = [r for r in a.rets() if a.e.nodes[r[1]][0] not in sinks]
        w = a.search(a.after(c), ends, avoid=sinks + failed)
        cx.ob("not-lost", "%s:%s" % (k, short(a.call(c).path)), w is None, a.where(c), "" if w is None else "the allocation is neither owned nor released on the path " + a.show(w))
    return bool(rc & set(a.calls(ALLOC))) or any(x[0] == "arg" for f in frees if not in_drop(a, f) for x in blocks[f])


def check_bitwise(cx, own):
    """no value that owns memory is duplicated bit by bit"""
    prog = cx.prog
    n = 0
    for b in prog.bodies.values():
        if not b.local:
            continue
        for i, p, r, t in raw_calls(b):
            if not re.search(BITWISE, p):
                continue
            n += 1
            ts = [b.crate.ty(x) for x in t["f"]["fn"]["a"]]
            bad = [x for x in ts if holds(prog, x, set(own)) or re.search(r"(Box|Vec|String|CString|Rc|Arc)'", str(x))]
            cx.ob("no-copy", short(b.path), not bad, "%s:%s" % (b.file, t.get("l")), "" if not bad else "a value that owns memory is duplicated or dropped bitwise")
    cx.count("bitwise copies examined", n)
    for t in sorted(own):
        copy = [e for e in prog.impl_by_trait.get("core::marker::Copy", []) if e["self_t"][:2] == ("adt", t)]
        cx.ob("no-copy", short(t) + ":Copy", not copy, "", "an owner is Copy")


def check_lifetimes(cx, own):
    """references handed out by owners end with the borrow"""
    prog = cx.prog
    n = 0
    for b in prog.bodies.values():
        if not b.local or b.detached is None or not b.argc or "'ref'" not in str(b.locals[0]):
            continue
        if not holds(prog, peel(b.locals[1]), set(own)):
            continue
        n += 1
        cx.ob("tied", short(b.path), not b.detached, b.file, "" if not b.detached else "the returned reference may outlive the memory")
    cx.floor("reference results of owners", n, 3)


def check(cx):
    own = owners(cx)
    for t in sorted(own):
        b, a, mine = own[t]
        check_drop(cx, t, b, a, mine)
        check_literals(cx, t, own[t])
    cx.floor("owning types", len(own), 2)
    n = {"functions": 0, "releases": 0, "allocations": 0, "taken": [], "given": set()}
    seen = {own[t][0].uid for t in own}
    calls = callers(cx.prog)
    todo = sorted(starts(cx.prog), key=lambda b: b.path)
    while todo:
        b = parent(cx.prog, todo.pop(0))
        if b.uid not in seen:
            seen.add(b.uid)
            if check_user(cx, b, own, n):
                # its callers share the responsibility
                todo += [cx.prog.bodies[u] for u in sorted(calls.get(b.path, ()))]
    for k, f, w in n["taken"]:
        cx.ob("handed-out", k, f in n["given"], w, "an exported function releases memory of a kind that the interface never hands out (%s)" % f)
    for x in ("functions", "releases", "allocations"):
        cx.floor("memory " + x, n[x], 2)
    check_bitwise(cx, own)
    check_lifetimes(cx, own)
