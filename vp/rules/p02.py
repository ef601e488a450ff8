"""P02: debug and display output never contains secret bytes."""
from .common import *
from .p28 import SECRET, holds_secret
from ..framework import NoOpaque
from ..graph import Policy
from ..ir import subst

TECHNIQUE = "data-flow from secret fields and opened guarded memory to every formatting call in the workspace, over type-resolved MIR (hand-written, derived and macro-generated implementations alike)"
EXPLANATION = ("Every implementation of a formatting trait in the workspace, hand-written, derived or generated by a macro, is analysed as compiled; each value it hands to the formatting machinery is traced back to the field it comes from. "
               "A field is secret when its type owns guarded memory or a wiping container, when its owner wipes it on drop, when it is what a procedure stores in a vault, or when it is used as encryption key. No plain value that comes from "
               "a secret field, and no content of guarded memory, may be handed to a formatting call, neither in those implementations nor anywhere else in the libraries (log lines, error texts, panic messages). Values of workspace types are covered by the check of their own implementation.")
ASSUMPTIONS = ["formatting of standard types shows only their elements", "plaintexts and ciphertexts a user passes through a procedure are not secrets of the vault"]
NOTE = "All formatting implementations and all formatting calls of the library crates and the bindings."

CRATES = ("engine", "runtime", "iota_stronghold", "stronghold_utils", "stronghold_native")
FMT = re.compile(r"core::fmt::(Debug|Display|LowerHex|UpperHex|Octal|Binary|LowerExp|UpperExp|Pointer)( for .*)?(>)?::fmt$")
SINK = r"core::fmt::rt::Argument::(new_\w+|from_usize)$|core::fmt::(builders::)?Debug(Struct|Tuple|List|Set|Map|Inner)::(field|entry|entries|key|value)\w*$|core::fmt::Formatter::(debug_\w+_finish|write_str|pad|write_char)\w*$|core::fmt::Write(>)?::(write_str|write_char)$|core::fmt::(Debug|Display|LowerHex|UpperHex|Pointer)(>)?::fmt$|ToString(>)?::to_string$"
OPENED = r"memories::(buffer::(Buffer|Ref|RefMut)|\w+::\w+)(>)?::(borrow|borrow_mut|unlock|get_\w+|deref|deref_mut)$|boxed::Boxed::(as_slice|as_mut_slice|as_ref|as_mut|as_ptr|as_mut_ptr|unlock|unlock_mut)$|LockedMemory(>)?::unlock$|memories::buffer::Ref(Mut)? as .*Deref(Mut)?>::deref(_mut)?$|procedures::types::GuardedVec|crypto_box::(Key|NCKey)::(bytes|borrow|key)$"
WRAP = r"^(alloc::(boxed::Box|rc::Rc|sync::Arc|rcs::\w+::\w+|vec::Vec|collections::.*|borrow::Cow)|core::(option::Option|result::Result|cell::\w+|pin::Pin|mem::.*|ops::.*)|std::(sync::.*|collections::.*)|zeroize::Zeroizing)"
BYTES = ("u8", "i8", "char", "str", "u16", "u32", "u64", "u128", "i16", "i32", "i64", "i128")
WIPING = re.compile(r"^zeroize::Zeroizing$")
ZERO = r"zeroize::Zeroize(>)?::zeroize$|as zeroize::Zeroize>::zeroize$"


class Fmt(Policy):
    """other formatting implementations and the guarded memories' own operations are boundaries"""
    def opaque(self, b):
        return bool(FMT.search(b.path) or re.search(OPENED, b.path))


class Flat(Policy):
    def opaque(self, b):
        return "{{closure" not in b.path


class Stop(RuntimeOpaque):
    def opaque(self, b):
        return RuntimeOpaque.opaque(self, b) or bool(FMT.search(b.path) or re.search(r"^engine::snapshot::|crypto_box::Key::load$|drop::Drop>::drop$", b.path))


def full(v):
    """(root, whole access path) of a value or pointer"""
    path = ()
    for _ in range(12):
        own = v[4] if v[0] == "cb" else v[2] if len(v) > 2 and isinstance(v[2], tuple) else ()
        path = tuple(own) + path
        if v[0] in ("ptr", "init") and isinstance(v[1], tuple) and v[1][0] == "o" and isinstance(v[1][1], tuple):
            v = v[1][1]
            if v[0] == "obj":
                v = v[1]
            continue
        break
    return (v[0], v[1]), path


def strip(t):
    while t[0] in ("ref", "ptr"):
        t = t[1]
    return t


def walk(prog, t, path):
    """fields passed along an access path: (adt, variant, field, field type)"""
    out, var = [], None
    cur = t
    for x in path:
        if not isinstance(x, str):
            continue
        if x.startswith(":"):
            var = x[1:]
            continue
        cur = strip(cur)
        if x in ("@", "[]"):
            if cur[0] == "adt" and cur[2] and cur[1] not in prog.adts:
                cur = cur[2][0]
            elif cur[0] in ("slice", "array"):
                cur = cur[1]
            continue
        if x.startswith("."):
            n = x[1:].lstrip("#")
            while cur[0] == "adt" and cur[1] not in prog.adts and re.search(WRAP, cur[1]) and cur[2] and not (var in ("Some", "Ok", "Err", "Borrowed", "Owned")):
                cur = cur[2][0]
                cur = strip(cur)
            if cur[0] == "adt" and cur[1] in prog.adts:
                ad = prog.adts[cur[1]]
                s = dict(zip(ad["generics"], cur[2]))
                f = next((f for w in ad["variants"] for f in w["f"] if (var is None or w["n"] == var or len(ad["variants"]) == 1) and f["n"] == n), None)
                if f is None:
                    return out, None
                out.append((cur[1], var if len(ad["variants"]) > 1 else None, n, subst(f["t"], s)))
                cur = out[-1][3]
            elif cur[0] == "adt" and cur[2]:
                cur = cur[2][1 if var == "Err" and len(cur[2]) > 1 else 0]
            elif cur[0] == "tuple" and n.isdigit() and int(n) < len(cur[1]):
                cur = cur[1][int(n)]
            else:
                return out, None
            var = None
    return out, cur


def bytesy(prog, t, depth=0):
    """formatting a value of this type shows plain data that can carry secret bytes"""
    if depth > 6:
        return True
    if t[0] == "ptr" or t[0] == "adt" and t[1].startswith("core::ptr::"):
        return False            # an address
    if t[0] in ("ref", "slice", "array"):
        return bytesy(prog, t[1], depth + 1)
    if t[0] == "prim":
        return t[1] in BYTES
    if t[0] in ("param", "alias", "proj", "other"):
        return True
    if t[0] == "tuple":
        return any(bytesy(prog, x, depth + 1) for x in t[1])
    if t[0] == "adt":
        if t[1] in prog.adts:
            return False        # its own implementation is checked
        if t[1] == "alloc::string::String":
            return True
        return any(bytesy(prog, x, depth + 1) for x in t[2])
    return t[0] == "str"


def shown(a):
    """values handed to the formatting machinery: (block, argument index, type)"""
    g = a.g
    conv = {}
    for b in g.blocks:
        for st in b.stmts:
            if st[0] == "=" and st[2][0] == "cast" and not st[1][1]:
                conv[st[1][0]] = st[2][2]
    for blk in a.calls(SINK):
        c = a.call(blk)
        if not c.ext and not FMT.search(c.path or ""):
            continue
        for i, op in enumerate(c.args):
            t = g.ty_of_op(op)
            s = str(t)
            if "core::fmt::Formatter" in s or "core::fmt::builders" in s:
                continue
            for _ in range(4):
                u = strip(t)
                if u[0] in ("dyn", "slice") and "dyn" in str(u) and op[0] == "p" and op[1][0] in conv:
                    op = conv[op[1][0]]
                    t = g.ty_of_op(op)
                else:
                    break
            if i == 0 and re.search(r"Argument::(new_|from_)|to_string$|>::fmt$|::fmt$", c.path) and c.targs and strip(t)[0] == "dyn":
                t = c.targs[0]
            yield blk, i, strip(t)


def dyn_items(a, blk, i, prog):
    """elements of an argument that is a slice of trait objects"""
    g = a.g
    conv = {}
    for b in g.blocks:
        for st in b.stmts:
            if st[0] == "=" and st[2][0] == "cast" and not st[1][1]:
                conv[st[1][0]] = st[2][2]
    c = a.call(blk)
    for v in a.arg_content(blk, i) | a.arg_vals(blk, i):
        if v[0] == "agg":
            for op in g.blocks[v[1]].stmts[v[2]][2][3]:
                o = conv.get(op[1][0], op) if op[0] == "p" else op
                yield strip(g.ty_of_op(o)), a.f.vals(v[1], v[2], o)


def secret_fields(cx):
    """fields that hold secrets in plain: {(adt, variant, field): why}"""
    prog = cx.prog
    sec = {}
    for p, ad in prog.adts.items():
        if p.split("::")[0] not in CRATES:
            continue
        for v in ad["variants"]:
            for f in v["f"]:
                if any(WIPING.search(x[1]) for x in adts_in(f["t"])):
                    sec[(p, v["n"] if len(ad["variants"]) > 1 else None, f["n"])] = "it is kept in a wiping container"
    # wiped by its owner
    for tr in ("core::ops::drop::Drop", "zeroize::Zeroize"):
        for e in prog.impl_by_trait.get(tr, []):
            if e["crate"] not in CRATES or e["self_t"][0] != "adt":
                continue
            for it in e["items"]:
                b = prog.bodies.get(it["u"])
                if b is None or it["n"] not in ("drop", "zeroize"):
                    continue
                a = cx.an(b, Fmt())
                for z in a.calls(ZERO, ext=True):
                    if strip(a.g.ty_of_op(a.call(z).args[0]))[:2] == ("prim", "usize"):
                        continue
                    for v in a.arg_vals(z, 0) | a.arg_content(z, 0):
                        if v[0] in ("ptr", "init", "arg", "call", "cb"):
                            r, path = full(v)
                            if r == ("arg", 0):
                                mark(prog, sec, strip(b.locals[1]), path, "its owner wipes it")
    # stored in a vault, or used as key
    n = 0
    todo = [b for b in prog.bodies.values() if b.local and b.crate.name == "iota_stronghold" and re.search(r"as iota_stronghold::procedures::types::(GenerateSecret|DeriveSecret)>::(generate|derive)$", b.path)]
    todo += [b for b in prog.bodies.values() if b.local and b.crate.name == "iota_stronghold" and b.path in set(public_ops(prog))]
    todo = sorted({b.uid: b for b in todo}.values(), key=lambda b: b.path)

    def one(b):
        try:
            return b, cx.an(b, Stop())
        except Exception as e:
            if type(e).__name__ != "TooBig":
                raise
            return b, None
    for b, a in [one(b) for b in todo]:
        if a is None:
            continue
        n += 1
        for blk in a.g.blocks:
            if blk.id not in a.e.reached:
                continue
            for k, st in enumerate(blk.stmts):
                if st[0] == "=" and st[2][0] == "agg" and len(st[2][1]) > 1 and str(st[2][1][1]).endswith("procedures::types::Products"):
                    for v in a.f.vals(blk.id, k, st[2][3][0]) | deep_of(a, blk.id, a.f.vals(blk.id, k, st[2][3][0])):
                        note(prog, sec, a, b, v, "it is stored in a vault")
            if blk.kind == "call" and blk.call is not None and re.search(r"^engine::snapshot::logic::(read|write|read_from|write_to|encrypt\w*|decrypt\w*)$|crypto_box::Key::load$", blk.call.path or ""):
                for i, op in enumerate(blk.call.args):
                    t = strip(a.g.ty_of_op(op))
                    if t[0] == "array" and t[1] == ("prim", "u8") or "Zeroizing" in str(t) or blk.call.path.endswith("Key::load"):
                        for v in a.arg_vals(blk.id, i) | a.arg_content(blk.id, i):
                            note(prog, sec, a, b, v, "it is used as key")
    cx.count("operations searched for secret fields", n)
    return sec


def note(prog, sec, a, b, v, why):
    if v[0] in ("ptr", "init", "arg"):
        r, path = full(v)
        if r[0] == "arg" and isinstance(r[1], int) and r[1] < b.argc:
            mark(prog, sec, strip(b.locals[r[1] + 1]), path, why)


def mark(prog, sec, t, path, why):
    fs, end = walk(prog, t, path)
    if fs and end is not None and bytesy(prog, end):
        ad, var, n, ft = fs[-1]
        if ad.split("::")[0] in CRATES:
            sec.setdefault((ad, var, n), why)


def adts_in(t, depth=0):
    if isinstance(t, tuple) and t and depth < 8:
        if t[0] == "adt":
            yield t
            for x in t[2]:
                yield from adts_in(x, depth + 1)
        else:
            for x in t[1:]:
                if isinstance(x, tuple):
                    if x and isinstance(x[0], tuple):
                        for y in x:
                            yield from adts_in(y, depth + 1)
                    else:
                        yield from adts_in(x, depth + 1)


def has_sink(b):
    return any(re.search(SINK, c[1]) or re.search(SINK, c[2] or "") for c in raw_calls(b))


def check(cx):
    prog = cx.prog
    sec = secret_fields(cx)
    cx.count("secret fields", len(sec))
    cx.floor("secret fields", len(sec), 3)
    impls = others = 0
    for b in sorted((b for b in prog.bodies.values() if b.local and b.crate.name in CRATES), key=lambda b: b.uid):
        fm = bool(FMT.search(b.path))
        if not fm and ("{{closure" in b.path or not has_sink(b)):
            continue
        try:
            a = cx.an(b, Fmt() if fm else Flat())
        except Exception as e:
            if type(e).__name__ != "TooBig":
                raise
            a = cx.an(b, Flat())
        me = strip(b.locals[1]) if fm else None
        guarded = fm and (me[0] == "adt" and (bool(SECRET.search(me[1])) or me[1].split("::")[0] == "runtime" and holds_secret(prog, me)))
        impls += fm
        others += not fm
        key = b.path if fm else "in " + b.path
        bad = None
        wiped = set() if fm else objects(a)
        for blk, i, t in shown(a):
            items = [(t, a.arg_vals(blk, i) | a.arg_content(blk, i))]
            if "dyn" in str(t):
                items = list(dyn_items(a, blk, i, prog)) or items
            for ty, vals in items:
                if not bytesy(prog, ty) and ty[0] != "dyn":
                    continue
                w = leak(prog, a, b, vals, sec, guarded, wiped)
                if w is None and any(WIPING.search(x[1]) for x in adts_in(ty)):
                    w = "shows a wiping container"
                if w:
                    bad = (blk, w)
        cx.ob("no-secret-shown" if fm else "no-secret-in-message", key, bad is None, a.where(bad[0]) if bad else "", bad[1] if bad else "")
    cx.floor("formatting implementations", impls, 20)
    cx.count("functions with messages", others)


def place(v):
    """the local object a pointer or content belongs to"""
    if v[0] in ("ptr", "init") and isinstance(v[1], tuple):
        if v[1][0] == "v":
            return v[1]
        if v[1][0] == "o" and v[1][1][0] in ("call", "mut", "cb"):
            return v[1][1]
    if v[0] in ("call", "mut", "cb"):
        return v
    return None


def objects(a):
    """local objects a function treats as secret: it wipes them, or uses them as key"""
    out = set()
    for z in a.calls(ZERO):
        for v in a.arg_vals(z, 0):
            out.add(place(v))
    for z in a.calls(r"^engine::snapshot::logic::(read|write|read_from|write_to|encrypt\w*|decrypt\w*)$|crypto_box::Key::load$|crypto_box::BoxProvider(>)?::box_(seal|open)$"):
        for i, op in enumerate(a.call(z).args):
            t = strip(a.g.ty_of_op(op))
            if t == ("array", ("prim", "u8"), "32") or "Zeroizing" in str(t):
                for v in a.arg_vals(z, i):
                    out.add(place(v))
    return out - {None}


def leak(prog, a, b, vals, sec, guarded, wiped=()):
    vals = {v for v in vals}
    deps = a.f.deps(vals)
    whole_ = {v for v in deps if v[0] in ("ptr", "init", "arg")}
    for v in deps | vals:
        if v[0] in ("ptr", "init") and isinstance(v[1], tuple) and v[1][0] == "v":
            t = strip(a.g.ty_of_place((v[1][1], ())))
            if t[0] == "adt" and SECRET.search(t[1]):
                return "shows content of a local %s" % short(t[1])
        if wiped and place(v) in wiped:
            return "shows a value that is wiped or used as key here"
    for v in deps | vals:
        if v[0] in ("ptr", "init", "arg"):
            r, path = full(v)
            if r[0] == "arg" and isinstance(r[1], int) and r[1] < b.argc:
                fs, end = walk(prog, strip(b.locals[r[1] + 1]), path)
                for (ad, var, n, ft) in fs:
                    w = sec.get((ad, var, n))
                    if w:
                        return "shows %s.%s%s: %s" % (short(ad), var + "." if var else "", n, w)
                    if any(SECRET.search(x[1]) for x in adts_in(ft)) and (SECRET.search(str(strip(ft)[1])) or v[0] == "init"):
                        return "shows content of the guarded memory %s.%s" % (short(ad), n)
                if guarded and r[1] == 0 and (end is None or bytesy(prog, end) or not fs and v in whole_):
                    return "shows plain content of %s" % short(str(strip(b.locals[1])[1]))
        if v[0] in ("call", "mut") and re.search(OPENED, a.call(v[1]).path or ""):
            return "shows what %s gives access to" % short(a.call(v[1]).path)
    return None
