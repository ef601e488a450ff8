"""P28: secrets are compared in constant time."""
from .common import *
from .p08 import tystr
from ..ir import subst

TECHNIQUE = "rule over every equality implementation on secret-holding types (inlined MIR): secret bytes only reach the constant-time primitive, decisions do not depend on them, lengths are checked first; taint query over all other comparisons"
EXPLANATION = ("Every implementation of equality whose operand type holds guarded memory is inlined. The bytes of both operands may only be compared by libsodium's constant-time comparison (or an equivalent accumulating loop without a "
               "secret-dependent branch): no early-terminating comparison of slices, arrays or iterators is called, and no branch depends on a secret byte other than through the result of the constant-time comparison. The comparison "
               "covers both whole buffers in bytes, is only reached when the lengths are equal, and unequal lengths give false. No other function of the runtime, the vault engine, the key store or the procedures passes borrowed secret "
               "bytes to an early-terminating comparison, and the ordering of keys, which does stop early, is not used.")
ASSUMPTIONS = ["sodium_memcmp inspects all bytes"]
NOTE = "All equality implementations on secret types and all comparison call sites of runtime, engine and client."

CT = r"sodium_memcmp$|ConstantTimeEq(>)?::ct_eq$|::ct_eq$|constant_time_eq\w*$|CRYPTO_memcmp$|crypto_verify_\w+$|verify_slices_are_equal$"
EARLY = (r"cmp::PartialEq(<.*>)?(>)?::(eq|ne)$|cmp::(Partial)?Ord(<.*>)?(>)?::\w+$|\[T\]::(starts_with|ends_with|contains|strip_prefix|strip_suffix|binary_search\w*|iter_eq)$|(^|::)(memcmp|bcmp|strcmp|strncmp)$|"
         r"Iterator(>)?::(eq|ne|cmp|partial_cmp|lt|le|gt|ge|eq_by|all|any|position|rposition|find|find_map|try_fold|try_for_each|take_while|skip_while|map_while)$|slice::.*(SliceContains|SlicePartialEq).*::\w+$|raw_eq$|compare_bytes$|starts_with$")
SECRET = re.compile(r"^runtime::(boxed::Boxed|memories::(buffer::(Buffer|Ref|RefMut)|noncontiguous_memory::NonContiguousMemory|ram_memory::RamMemory|file_memory::FileMemory|frag::Frag))$|crypto_box::(Key|NCKey)$")
OPEN = (r"memories::buffer::(Buffer::(borrow|borrow_mut)|Ref\w*::\w+)$|Boxed::(as_slice|as_ref|as_mut|as_mut_slice)$|LockedMemory>?::unlock$|NonContiguousMemory>?::(unlock|get_shards_data|get_buffer\w*)$|"
        r"<runtime::memories::buffer::Ref\w* as core::ops::deref::Deref(Mut)?>::deref(_mut)?$|Key::bytes$|box_open$|KeyStore::(get_key|take_key)$|ContiguousBytes>?::as_(mut_)?bytes$")


class Locks(NoOpaque):
    RX = re.compile(r"Boxed::(unlock|lock|unlock_mut|retain|release|is_locked)$|boxed::Shared::|LockedMemory(>)?::\w+$|LockedMemory for|NonContiguousMemory::\w+$|drop::Drop>|zeroize|FileMemory::|boxed::mprotect$")

    def opaque(self, body):
        return bool(self.RX.search(body.path))


def holds_secret(prog, t, depth=0):
    if not isinstance(t, tuple) or depth > 6:
        return False
    if t[0] in ("ref", "ptr", "slice", "array"):
        return holds_secret(prog, t[1], depth + 1)
    if t[0] == "tuple":
        return any(holds_secret(prog, x, depth + 1) for x in t[1])
    if t[0] != "adt":
        return False
    if SECRET.search(t[1]):
        return True
    ad = prog.adts.get(t[1])
    if ad is not None:
        s = dict(zip(ad["generics"], t[2]))
        return any(holds_secret(prog, subst(f["t"], s), depth + 1) for v in ad["variants"] for f in v["f"])
    return any(holds_secret(prog, x, depth + 1) for x in t[2])


def plain(prog, t):
    """a type whose values are no sequence of bytes: numbers, field-less enums, markers, pointers"""
    while t[0] == "ref":
        t = t[1]
    if t[0] in ("prim",):
        return t[1] != "str"
    if t[0] in ("ptr", "fnptr", "fndef", "never"):
        return True
    if t[0] == "adt":
        if t[1].endswith(("PhantomData", "NonNull", "cmp::Ordering", "alloc::Layout")):
            return True
        ad = prog.adts.get(t[1])
        return ad is not None and all(plain(prog, f["t"]) for v in ad["variants"] for f in v["f"])
    return t[0] == "tuple" and all(plain(prog, x) for x in t[1])


LEN = r"::len$|::is_empty$|::size$|size_of$|size_of_val$|" + CT


def side(a, blk, i):
    d = a.arg_deps(blk, i)
    return frozenset(n for n in (0, 1) if has_arg(d, n))


def is_len(a, t):
    """which operand's length a term denotes"""
    s = show(t)
    return ("0" if "arg0" in s else "") + ("1" if "arg1" in s else "") if re.search(r"::len\(|\.len$|\.len\b|size\(", s) else ""


def secret_read(a, vals):
    """an element of the operands' memory among the dependencies"""
    for v in vals:
        if v[0] == "call":
            c = a.call(v[1])
            if re.search(r"Iterator(>)?::next$", c.path or "") and v[2] and v[2][0] == ":Some" and holds_arg(a, v[1]):
                return v
        if v[0] == "init":
            s = show(a.f.vterm(v, 6, ()))
            if "[" in s.rsplit(")", 1)[-1] or s.endswith("[]"):
                return v
    return None


def accumulated(s):
    """in the rendered decision every secret byte is below an accumulating OR over all bytes"""
    if "BitOr(" not in s or "..." not in s:
        return False
    while "BitOr(" in s:
        i = s.index("BitOr(")
        j, d = i + 6, 1
        while j < len(s) and d:
            d += {"(": 1, ")": -1}.get(s[j], 0)
            j += 1
        s = s[:i] + "_" + s[j:]
    return "[]" not in s and "Iterator::next" not in s


def holds_arg(a, blk):
    d = a.arg_deps(blk, 0)
    return has_arg(d, 0) or has_arg(d, 1)


def equality(cx, item):
    path, idx = item
    prog = cx.prog
    body = prog.by_path[path][idx]
    a = cx.an(body, Locks())
    key = tystr(body.locals[1][1]) + "=" + tystr(body.locals[2][1])
    ct = a.calls(CT)
    for b in a.calls(EARLY):
        c = a.call(b)
        if not c.ext or b in ct:
            continue
        ok = all(plain(prog, a.g.ty_of_op(x)) for x in c.args)
        cx.ob("no-early-exit", key, ok, a.where(b), "%s compares secret bytes and stops at the first difference" % short(c.path))
    direct = not ct
    cx.ob("constant-time", key, bool(ct) or bool([b for b in a.g.blocks if b.kind == "call" and b.call and re.search(r"Iterator(>)?::(next|fold|for_each)$", b.call.path or "")]), body.loc,
          "the operands' bytes reach no constant-time comparison")
    lens = []
    for bl in a.g.blocks:
        if bl.kind != "switch" or bl.id not in a.e.reached:
            continue
        d = a.f.deps(a.f._deep(bl.id, len(bl.stmts), bl.op), cutter(a, LEN + r"|Iterator(>)?::next$"))
        v = secret_read(a, d)
        if v is not None and accumulated(show(a.op_term(bl.id, bl.op, 16))):
            v = None
        cx.ob("no-secret-branch", key, v is None, a.where(bl.id), "a branch depends on a secret byte (%s)" % (show(a.op_term(bl.id, bl.op))[:120]))
        t = a.op_term(bl.id, bl.op)
        if t[0] == "op" and t[1] in ("Eq", "Ne") or (len(t) > 1 and t[0] in ("Eq", "Ne")):
            pass
        m = re.match(r"^(Eq|Ne)\((.*)\)$", show(t))
        if m:
            ls = subterms(t)
            if len(ls) == 2:
                x, y = is_len(a, ls[0]), is_len(a, ls[1])
                if set((x, y)) == {"0", "1"}:
                    lens.append((bl.id, m.group(1) == "Ne", ls))
    cx.ob("length", key + ":compared", bool(lens), body.loc, "the lengths of the two operands are not compared")
    targets = ct or [b.id for b in a.g.blocks if b.kind == "call" and b.call and b.id in a.e.reached and re.search(r"Iterator(>)?::(next|fold|for_each)$", b.call.path or "")]
    good = set()
    for b, ne, ls in lens:
        diff = []
        bl = a.g.blocks[b]
        for i in a.e.byblk.get(b, []):
            for s in a.e.succ[i]:
                sid = a.e.nodes[s][0]
                lab = [l for l, x in zip(bl.labels, bl.succ) if x == sid]
                differs = any((l == "0" or l == 0) != ne for l in lab)
                if differs:
                    diff.append(s)
        w = a.search(diff, targets)
        if w is None and diff:
            good.add(b)
    for t in targets:
        w = a.search(a.entry(), [t], avoid=good)
        cx.ob("length", key + ":first", w is None, a.where(t), "bytes are compared although the lengths may differ: %s" % (a.show(w) if w else ""))
    for b in ct:
        s = [side(a, b, i) for i in (0, 1)]
        cx.ob("both-operands", key, s[0] != s[1] and all(len(x) == 1 for x in s), a.where(b), "the comparison does not take one argument from each operand")
        for i in (0, 1):
            cx.ob("whole", key, not offset(a, b, i), a.where(b), "only a part of the operand is compared")
        if "memcmp" in a.call(b).path:
            n = a.arg_term(b, 2)
            ok = any(show(n) == show(x) for _, _, ls in lens for x in ls)
            cx.ob("whole", key + ":length", ok and ("size_of" in spread(a, b) or "::len(" not in show(n)), a.where(b), "the comparison does not cover the checked length in bytes: %s" % show(n)[:160])
    cx.count("constant-time comparisons", len(ct))
    return key


def spread(a, b):
    """how the byte views compared were measured"""
    out = ""
    for x in a.calls(r"from_raw_parts$"):
        out += show(a.arg_term(x, 1)) + ";"
    views = [s for s in out.split(";") if "size_of" in s]
    return "size_of" if views else out


def offset(a, b, i):
    for v in a.raw_vals(b, i):
        for w in a.f.deps([v]) | {v}:
            if w[0] == "call" and re.search(r"(const_ptr|mut_ptr|ptr|\*(const|mut) T).*::(add|offset|sub|wrapping_add)$|index(_mut)?$|\[T\]::(get\w*|split\w*|chunks\w*|first\w*|last\w*)$", a.call(w[1]).path or ""):
                return True
    return False


def subterms(t):
    """operands of a two-operand comparison term"""
    for x in t:
        if isinstance(x, (tuple, list)) and len(x) == 2 and all(isinstance(y, tuple) for y in x):
            return list(x)
    r = [x for x in t if isinstance(x, tuple) and x and isinstance(x[0], str)]
    return r


def other(cx, path):
    """comparisons elsewhere must not take borrowed secret bytes"""
    prog = cx.prog
    a = cx.an(path, Boundary())
    n = 0
    for b in a.calls(EARLY):
        c = a.call(b)
        if not c.ext or all(plain(prog, a.g.ty_of_op(x)) for x in c.args):
            continue
        n += 1
        for i in range(len(c.args)):
            t = a.g.ty_of_op(c.args[i])
            d = a.arg_deps(b, i, cutter(a, LEN + r"|vault::view::(DbView|Vault|Record)::"))
            src = calls_in(d, a, OPEN)
            held = [v for v in d if v[0] == "arg" and holds_secret(prog, a.root.locals[v[1] + 1]) and re.search(SEC_ARG, str(a.root.locals[v[1] + 1]))]
            ok = not src and not held
            cx.ob("no-early-exit", "%s:%s" % (short(path), short(c.path)), ok or eq_impl(prog, t), a.where(b), "secret bytes (%s) are compared by %s, which stops at the first difference" % (
                short(a.call(src[0][1]).path) if src else "a guarded argument", short(c.path)))
    return n


SEC_ARG = r"memories::buffer::(Buffer|Ref|RefMut)'"


def eq_impl(prog, t):
    while t[0] == "ref":
        t = t[1]
    return t[0] == "adt" and bool(SECRET.search(t[1]))


class Boundary(NoOpaque):
    """everything of the workspace but the function itself and its closures is a boundary"""
    def opaque(self, body):
        return body.local and "{{closure" not in body.path


def check(cx):
    prog = cx.prog
    eqs = []
    for p in sorted(prog.by_path):
        for i, b in enumerate(prog.by_path[p]):
            if re.search(r" as core::cmp::PartialEq(<.*>)?>::(eq|ne)$", p) and b.local and b.argc == 2 and (holds_secret(prog, b.locals[1]) or holds_secret(prog, b.locals[2])):
                eqs.append((p, i))
    keys = cx.par(eqs, equality)
    cx.floor("equality implementations on secret types", len(eqs), 3)
    todo = []
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if not b.local or not b.file.startswith(REPO_DIRS) or "{{closure" in p or b.kind == "static" or b.crate.name in ("stronghold_derive", "stronghold_stm"):
            continue
        if re.search(r" as core::cmp::(PartialEq|Eq)", p) and any(p == q for q, _ in eqs):
            continue
        if re.search(r"crypto_box::(Key|NCKey) as core::cmp::(Partial)?Ord>", p):
            continue
        if any(re.search(EARLY, x) for x in closure_mentions(prog, b)):
            todo.append(p)
    n = sum(cx.par(todo, other))
    cx.count("other comparisons of non-scalar values", n)
    cx.floor("functions with comparisons", len(todo), 1)
    # the ordering of keys stops early: nobody may use it
    for b in prog.bodies.values():
        if not b.local or not b.file.startswith(REPO_DIRS) or " as core::cmp::" in b.path:
            continue
        for i, p, r, t in raw_calls(b):
            if re.search(r"crypto_box::(Key|NCKey) as core::cmp::(Partial)?Ord", r):
                cx.ob("no-key-order", short(b.path), False, b.loc, "keys are ordered with a comparison that stops at the first difference")
    cx.ob("no-key-order", "checked", True)


def closure_mentions(prog, b):
    out = set(mentions(b))
    for q in prog.bodies.values():
        if q.path.startswith(b.path + "::{{closure"):
            out |= mentions(q)
    return out
