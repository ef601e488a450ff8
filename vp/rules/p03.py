"""P03: secret memory is wiped before it is released."""
from .common import *
from .p19 import chain
from .p21 import tests
from .p28 import SECRET, holds_secret
from ..framework import NoOpaque

TECHNIQUE = "type-driven enumeration of all secret-holding types with a must-wipe-before-release analysis of every drop and zeroize implementation on the inlined MIR flow graph"
EXPLANATION = ("The types that own secret memory directly (through a raw pointer or a file) are found from the type definitions. For each, every path of its drop implementation to a call that gives memory or the file back must first pass through an operation "
               "that overwrites all of it (whole type, or a slice whose length is the object's own, not yet changed length), and every path of the explicit zeroize implementation to its return must as well. Zeroize implementations of types composed of such "
               "memory must wipe every secret field, in every variant. Values of secret-holding types are never leaked past their destructor.")
ASSUMPTIONS = ["sodium_free fills the region with zeros before it gives it back (documented behaviour of libsodium)", "stores to memory that is about to be freed are not removed by the optimiser", "the file system overwrites in place",
               "failing file operations are outside the guarantee: the wipe is attempted on every path"]
NOTE = "All secret-holding types of runtime and engine, their drop and zeroize implementations and the release calls they reach."

CRATES = ("runtime", "engine")
FREE = r"libc::.*::(free|munmap)$|libc::\w*::?(free|munmap)$|(^|::)(free|munmap|munlock|VirtualFree|UnmapViewOfFile)$|alloc::dealloc$|Allocator(>)?::deallocate$"
SELFWIPE = r"sodium_free$"
REMOVE = r"std::fs::remove_file$"
MEMSET = r"(^|::)(sodium_memzero|explicit_bzero|bzero)$|types::zero::Zeroed(>)?::zero$"
SETK = r"(^|::)(memset|write_bytes)$|\[T\]::fill$|ptr::(mut_ptr::)?(write|write_volatile|write_unaligned)$|(^|::)(write|write_volatile)$|core::mem::replace$"
LEAK = r"core::mem::forget$|ManuallyDrop::new$|Box::(leak|into_raw)$|MaybeUninit::new$|ptr::read$|Vec::(leak|into_raw_parts)$|mem::transmute_copy$"


class Wipes(NoOpaque):
    """other types' zeroize implementations are boundaries, so are locks and borrow bookkeeping"""
    def __init__(self, me=""):
        self.me = me

    def opaque(self, b):
        if re.search(r"as zeroize::Zeroize>::zeroize$", b.path):
            return not b.path.startswith("<" + self.me + " ")
        return bool(re.search(r"Bytes(>)?::(size|uninitialized|as_\w+)$|Zeroed(>)?::zero$|boxed::Boxed::(retain|release|is_locked)$|boxed::(mprotect|acquire)$|boxed::Shared::\w+$|LockedMemory(>)?::\w+$|_file$|_only$", b.path) and not re.search(r"clear_and_delete|remove|delete|wipe", b.path))


def base_kind(prog, p):
    """'mem' / 'file': the type owns memory (raw pointer) or a file directly"""
    ad = prog.adts[p]
    for v in ad["variants"]:
        for f in v["f"]:
            t = f["t"]
            if t[0] == "ptr" or t[0] == "adt" and t[1].endswith("non_null::NonNull"):
                return "mem"
            if t[0] == "adt" and t[1] == "std::path::PathBuf":
                return "file"
    return None


def impls(prog, trait, p):
    for e in prog.impl_by_trait.get(trait, []):
        if e["self_t"][0] == "adt" and e["self_t"][1] == p:
            for it in e["items"]:
                b = prog.bodies.get(it["u"])
                if b is not None and it["n"] in ("drop", "zeroize"):
                    yield b


def of_self(v, me=0):
    k, ch = chain(v) if v[0] in ("ptr", "init", "arg", "call", "cb", "obj", "mut") else (None, ())
    return ch if k == ("arg", me) else None


def mem_wipes(a):
    """blocks that overwrite all memory the object owns: calls, and plain stores"""
    out, why = set(), {}
    for b in a.calls(MEMSET + "|" + SETK + r"|zeroize::Zeroize(>)?::zeroize$"):
        c = a.call(b)
        p = c.path or ""
        if "::Zeroize>" in p and re.match(r"<(runtime|engine|iota)", p):
            continue
        if re.search(SETK, p) and not re.search(MEMSET, p) and not zero(a, b, 1):
            continue
        if not owned(a, b, 0):
            continue
        n = extent(a, b)
        if n is True:
            out.add(b)
        else:
            why[b] = n
    for bl in a.g.blocks:
        if bl.id not in a.e.reached:
            continue
        for i, st in enumerate(bl.stmts):
            if st[0] == "=" and st[1][1] and st[1][1][-1] == "*" and pointee(a, bl.id, i, st[1]):
                if default(a, bl.id, i, st[2]):
                    out.add(bl.id)
    return out, why


def pointee(a, blk, i, pl):
    """a store through the object's own raw pointer that covers the pointee"""
    for v, p in a.f.resolve(blk, i, pl):
        if v[0] != "o":
            continue
        ch = of_self(("ptr", v, p))
        if ch and [x for x in ch if x.startswith(".")] and not a.g.ty_of_place(pl)[0] == "ptr" and "NonNull" not in str(a.g.ty_of_place(pl)):
            return True
    return False


def default(a, blk, i, rv):
    if rv[0] != "use":
        return rv[0] == "rep" and a.f.vals(blk, i, rv[1]) == {("k", ("int", "0"))}
    return zero_vals(a, a.f.vals(blk, i, rv[1]))


def zero_vals(a, vals):
    def ok(v):
        if v[0] in ("call", "mut"):
            return bool(re.search(r"Default(>)?::default$|mem::zeroed$", (a.call(v[1]).path or "") + " " + (a.call(v[1]).tpath or "")))
        if v[0] == "k":
            return v[1] in (("int", "0"), ("default",))
        if v[0] == "op":
            rv = a.g.blocks[v[1]].stmts[v[2]][2]
            return rv[0] == "rep" and a.f.vals(v[1], v[2], rv[1]) == {("k", ("int", "0"))}
        return False
    return bool(vals) and all(ok(v) for v in vals)


def zero(a, b, i):
    return len(a.call(b).args) > i and zero_vals(a, a.arg_vals(b, i))


def owned(a, b, i):
    """the argument refers to the memory behind the object's own pointer"""
    d = a.arg_vals(b, i) | a.raw_vals(b, i)
    for v in d | a.f.deps(set(d), cutter(a, r"Default(>)?::default$")):
        if v[0] in ("ptr", "init", "arg"):
            ch = of_self(v)
            if ch:
                return True
    return False


def extent(a, b):
    """True when the call overwrites the whole of the memory"""
    c = a.call(b)
    if not uncut(a, b, 0):
        return "only a part is overwritten"
    if re.search(r"ptr::|replace$|(^|::)write(_volatile)?$", c.path or "") and not re.search(r"write_bytes$|memset$", c.path):
        return True
    lens = []
    if re.search(r"(memzero|bzero|memset|write_bytes)$", c.path) and len(c.args) > 1:
        lens.append(a.arg_term(b, len(c.args) - 1, 14))
    if not lens:
        frs = slices(a, b)
        for f in frs:
            lens.append(a.arg_term(f, 1, 14))
    if not lens:
        return "the length is not known"
    for t in lens:
        s = show(t)
        if "arg0" not in s or re.search(r"(Sub|Div|Shr|Rem|saturating_sub|min|BitAnd)[ \(]", s):
            return "its length %s is not the length of the object" % s[:80]
    return True


def raw_roots(a, b, i):
    for v in a.raw_vals(b, i):
        while v[0] in ("ptr", "init") and isinstance(v[1], tuple) and v[1][0] == "o" and isinstance(v[1][1], tuple) and v[1][1][0] in ("call", "ptr", "init"):
            v = v[1][1]
        yield v


def uncut(a, b, i):
    """not a sub-slice"""
    return not any(v[0] == "call" and not re.search(r"from_raw_parts(_mut)?$|as_\w*(bytes|slice|ptr)$", a.call(v[1]).path or "") for v in raw_roots(a, b, i))


def slices(a, b):
    return {v[1] for v in raw_roots(a, b, 0) if v[0] == "call" and re.search(r"from_raw_parts(_mut)?$", a.call(v[1]).path or "")}


def wiped(cx, a, rule, key, ws, skip, targets, what):
    """every path to a target passes a wipe; one in the block of the target itself comes before its end"""
    st = {b for b in ws if a.g.blocks[b].kind != "call" or a.call(b) is None or not (re.search(MEMSET + "|" + SETK + "|zeroize$", a.call(b).path or ""))}
    tg = [t for t in targets if (a.e.nodes[t[1]][0] if isinstance(t, tuple) else t) not in st]
    must_precede(cx, a, rule, key, ws | skip, tg, what)


def nothing(a, flags=()):
    """blocks only entered when the object is known to own nothing (any more): its length or size is 0, or a flag that
    is only ever cleared by a wipe is clear"""
    out = set()
    for blk, op, l, r, at, edges in tests(a):
        for x, y in ((l, r), (r, l)):
            if set(y) == {("k", ("int", "0"))} and op in ("Eq", "Ne", "Gt", "Lt") and x:
                if all(v[0] == "init" and of_self(v) for v in x):
                    out |= {a.e.nodes[s][0] for s in edges[op == "Eq"]}
    for b in a.g.blocks:
        if b.id in a.e.reached and b.kind == "switch":
            vs = a.f.vals(b.id, len(b.stmts), b.op)
            if vs and all(v[0] == "init" and (of_self(v) or (None,))[-1] in flags for v in vs):
                out |= {x for lab, x in zip(b.labels, b.succ) if str(lab) == "0"}
    return out


def cleared_by_wipe(cx, prog, p):
    """boolean fields that are set to false only where the memory is wiped on every path"""
    out = set()
    bools = {f["n"] for v in prog.adts[p]["variants"] for f in v["f"] if f["t"] == ("prim", "bool")}
    for n in bools:
        ok = True
        for b in prog.bodies.values():
            if not (b.local and b.crate.name == p.split("::")[0]) or n not in str(b.blocks):
                continue
            a = cx.an(b, Wipes(p))
            if len(a.g.blocks) > 400:
                a = cx.an(b, Flat())
            clear = [(bl.id, i) for bl in a.g.blocks if bl.id in a.e.reached for i, st in enumerate(bl.stmts)
                     if st[0] == "=" and st[1][1] and st[1][1][-1] == ("f", n) and st[2][0] == "use" and ("k", ("int", "0")) in a.f.vals(bl.id, i, st[2][1])
                     and a.g.ty_of_place((st[1][0], st[1][1][:-1]))[:2] == ("adt", p)]
            if clear:
                ws, _ = mem_wipes(a)
                for blk, i in clear:
                    w = a.search(a.entry(), [blk], avoid=ws - {blk})
                    v = a.search([x for x in a.e.byblk.get(blk, []) if x < a.e.main], [r for r in a.rets() if a.e.nodes[r[1]][0] not in ws], avoid=ws)
                    ok = ok and (w is None or v is None)
        if ok:
            out.add("." + n)
    return out


def check(cx):
    prog = cx.prog
    n = 0
    for p in sorted(prog.adts):
        if p.split("::")[0] not in CRATES:
            continue
        ad = prog.adts[p]
        k = base_kind(prog, p) if SECRET.search(p) else None
        drops = list(impls(prog, "core::ops::drop::Drop", p))
        zs = list(impls(prog, "zeroize::Zeroize", p))
        me = short(p)
        if k:
            n += 1
            cx.ob("released", me, bool(drops), "", "the type owns secret memory but has no drop implementation that wipes and releases it")
            for b in drops:
                base(cx, b, p, k, me, True, cleared_by_wipe(cx, prog, p))
            for b in zs:
                base(cx, b, p, k, me, False)
        elif zs and (SECRET.search(p) or holds_secret(prog, ("adt", p, ()))):
            for b in zs:
                composed(cx, prog, b, p, ad, me)
        # nothing keeps the destructors of secret fields from running
        for v in ad["variants"]:
            for f in v["f"]:
                s = str(f["t"])
                if re.search(r"ManuallyDrop|MaybeUninit|'ptr', |NonNull", s) and holds_secret(prog, f["t"]):
                    cx.ob("dropped", me + "." + f["n"], False, "", "the destructor of this secret field does not run")
    cx.floor("types that own secret memory directly", n, 1)
    z = prog.by_path.get("runtime::types::zero::Zeroed::zero", [])
    for b in z:
        a = cx.an(b, Wipes())
        zero_body(cx, a)
    leaks(cx, prog)


def zero_body(cx, a):
    ws = [b for b in a.calls(r"(memzero|bzero|memset|write_bytes)$|Zeroize(>)?::zeroize$|\[T\]::fill$|write_volatile$")]
    good = []
    for b in ws:
        d = a.arg_deps(b, 0)
        c = a.call(b)
        ok = has_arg(d, 0) or any(v[0] in ("ptr", "init") and of_self(v) is not None for v in d)
        if len(c.args) > 1 and re.search(r"(memzero|bzero|memset|write_bytes)$", c.path):
            t = show(a.arg_term(b, len(c.args) - 1, 14))
            ok = ok and "arg0" in t and not re.search(r"(Sub|Div|Shr|Rem|saturating_sub|min)[ \(]", t)
        if ok and uncut(a, b, 0):
            good.append(b)
    must_precede(cx, a, "zeroes", "Zeroed::zero", good, a.rets(), "bytes are left as they are")


def base(cx, b, p, kind, me, drop, flags=()):
    a = cx.an(b, Wipes(p))
    key = "%s::%s" % (me, "drop" if drop else "zeroize")
    if kind == "mem":
        ws, why = mem_wipes(a)
        skip = nothing(a, flags)
        note = "; ".join(sorted(set(why.values())))
        if drop:
            fr = list(a.calls(FREE, ext=True))
            sw = [x for x in a.calls(SELFWIPE) if owned(a, x, 0)]
            cx.ob("gives-back", key, bool(fr or sw), "", "the memory is never given back here")
            if fr:
                wiped(cx, a, "wiped-before-release", key, ws, skip, fr, "memory is given back without having been overwritten (%s)" % note)
            else:
                w = a.search(a.entry(), a.rets(), avoid=ws | skip | set(sw))
                cx.ob("wiped-before-release", key, w is None, a.where(sw[0]) if sw else "", "" if w is None else "a path neither wipes nor frees: " + a.show(w))
        else:
            wiped(cx, a, "wiped", key, ws, skip, a.rets(), "the content is still there after zeroize%s" % (" (%s)" % note if note else ""))
            cx.count("wiping operations", len(ws))
    else:
        u = a.under(None, lambda x: {(): "VOk"} if io(a, x) else None)
        full = file_wipes(u, cx, key)
        rem = [x for x in u.calls(REMOVE) if at_self(u, x)]
        skip = nothing(u)
        must_precede(cx, u, "overwritten-before-removal", key, full, u.calls(REMOVE), "the file is removed before its content was overwritten")
        w = u.search(u.entry(), u.rets(), avoid=set(rem) | skip)
        cx.ob("file-removed", key, bool(rem) and w is None, "", "" if rem and w is None else "the file may stay: " + (u.show(w) if w else "never removed"))


def io(a, x):
    b = a.g.blocks[x if isinstance(x, int) else x.id]
    return b.call is not None and bool(re.search(r"^std::fs::|^std::io::|io::(Write|write)|_file$|_only$|alloc::io::", (b.call.path or "") + " " + (b.call.tpath or "")) or "io::error::Error" in str(a.g.ty_of_place(b.call.dest) if b.call.dest else ""))


def at_self(a, x):
    d = a.arg_deps(x, 0)
    return any(v[0] in ("ptr", "init") and of_self(v) is not None for v in d) or has_arg(d, 0)


def file_wipes(a, cx, key):
    good = set()
    for b in a.calls(r"(io::write::Write|io::Write)(>)?::write_all$|std::fs::write$"):
        p = a.call(b).path
        if p.endswith("fs::write"):
            cx.ob("overwritten-in-place", key, False, a.where(b), "the file is truncated before it is overwritten")
            continue
        h = a.arg_deps(b, 0)
        tr = calls_in(h, a, r"File::create(_new)?$")
        opt = [v for v in calls_in(h, a, r"OpenOptions::truncate$") if a.arg_vals(v[1], 1) != {("k", ("int", "0"))}]
        cx.ob("overwritten-in-place", key, not tr and not opt, a.where(b), "the file is truncated before it is overwritten: its blocks are given back with the old content")
        t = show(a.arg_term(b, 1, 14))
        d = a.arg_deps(b, 1)
        n = lens_of(a, d)
        ok = bool(n) and all("arg0" in s and not re.search(r"(Sub|Div|Shr|Rem|saturating_sub|min)[ \(]", s) for s in n)
        cx.ob("overwritten-whole", key, ok, a.where(b), "the zeroes written do not have the size of the object: %s" % (", ".join(n) or t)[:120])
        if ok:
            good.add(b)
    return good


def lens_of(a, d):
    out = []
    for v in calls_in(d, a, r"vec::from_elem$|vec::Vec::(resize|with_capacity)$|iter::.*repeat_n$|Iterator(>)?::take$"):
        c = a.call(v[1])
        i = 1
        if zero_ok(a, v[1], c):
            out.append(show(a.arg_term(v[1], i, 10)))
    return out


def zero_ok(a, b, c):
    if c.path.endswith("from_elem"):
        return a.arg_vals(b, 0) == {("k", ("int", "0"))}
    if c.path.endswith("resize"):
        return a.arg_vals(b, 2) == {("k", ("int", "0"))}
    return True


def composed(cx, prog, b, p, ad, me):
    a = cx.an(b, Wipes(p))
    multi = len(ad["variants"]) > 1
    skip = nothing(a)
    for v in ad["variants"]:
        for f in v["f"]:
            if not holds_secret(prog, f["t"]):
                continue
            key = "%s%s.%s" % (me, "::" + v["n"] if multi else "", f["n"])
            ws = set()
            for z in a.calls(r"zeroize::Zeroize(>)?::zeroize$|::clear$|mem::(take|replace)$|::replace$"):
                for x in a.arg_vals(z, 0):
                    ch = of_self(x) if x[0] in ("ptr", "init", "arg") else None
                    if ch is None:
                        continue
                    if "." + f["n"] in ch or (f["n"].isdigit() and (":" + v["n"]) in str(x)) or any(("." + f["n"]) == y for y in full_chain(x)):
                        if not multi or (":" + v["n"]) in str(x):
                            ws.add(z)
            ws |= loops(a, ws | set(a.calls(r"zeroize::Zeroize(>)?::zeroize$")), "." + f["n"])
            u = a.under(lambda aps, ty, n=v["n"]: "V" + n if isinstance(ty, tuple) and ty[:2] == ("adt", p) else None) if multi else a
            w = u.search(u.entry(), u.rets(), avoid=ws | skip)
            cx.ob("field-wiped", key, bool(ws) and w is None, "", "" if ws and w is None else "this secret field is not wiped by zeroize: " + (u.show(w) if w and ws else "no call"))


def loops(a, zs, f):
    """loops over a list of fields that wipe each element"""
    out = set()
    for b in a.calls(r"Iterator(>)?::next$"):
        d = a.arg_deps(b, 0)
        if not any(v[0] == "ptr" and f in full_chain(v) for v in d) or calls_in(d, a, FILTERS):
            continue
        start, again = loop_body(a, b)
        of = {y for v in d if v[0] == "ptr" for y in full_chain(v)[:1]}
        inside = {z for z in zs if any(v[0] in ("call", "mut") and v[1] == b for v in a.arg_deps(z, 0))
                  or of <= {y for v in a.arg_vals(z, 0) if v[0] == "ptr" for y in full_chain(v)[:1]}}
        if inside and a.search(start, ok_again(a, again) + a.rets(), avoid=inside) is None:
            out.add(b)
    return out


FILTERS = r"Iterator(>)?::(filter|filter_map|skip|skip_while|take|take_while|step_by|map_while|nth|last)$|::(truncate|split_off|retain|pop|split_at\w*|first\w*|last\w*)$"


def full_chain(v):
    out = []
    while isinstance(v, tuple) and v:
        own = v[4] if v[0] == "cb" else v[2] if len(v) > 2 and isinstance(v[2], tuple) else ()
        out = [x for x in own if isinstance(x, str)] + out
        if v[0] in ("ptr", "init") and isinstance(v[1], tuple) and v[1][0] == "o":
            v = v[1][1]
            if v[0] == "obj":
                v = v[1]
        else:
            break
    return out


def leaks(cx, prog):
    n = 0
    for b in sorted((b for b in prog.bodies.values() if b.local and b.crate.name in CRATES + ("iota_stronghold",)), key=lambda b: b.uid):
        if not any(re.search(LEAK, c[1]) for c in raw_calls(b)):
            continue
        a = cx.an(b, Flat())
        for x in a.calls(LEAK):
            c = a.call(x)
            n += 1
            bad = any(holds_secret(prog, t) for t in c.targs if isinstance(t, tuple)) or any(holds_secret(prog, a.g.ty_of_op(o)) for o in c.args)
            cx.ob("not-leaked", b.path, not bad, a.where(x), "a secret-holding value is kept from being dropped (%s)" % short(c.path))
    cx.count("calls that could skip a destructor", n)


class Flat(NoOpaque):
    def opaque(self, b):
        return "{{closure" not in b.path
