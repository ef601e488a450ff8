"""P22: the C interface reports every failure and hands out usable data."""
from ..framework import Policy
from .common import *

TECHNIQUE = "fault seeding and success hypotheses on the inlined MIR flow graph of every exported C function, provenance of returned pointers, and pairing of allocation with release"
EXPLANATION = ("Every function exported with the C calling convention is inlined down to the stronghold library's own operations. From the failure outcome of each of these, no success value may be "
               "returned and the error slot is filled on every path; when all of them succeed the success value is returned and the error slot stays untouched. After a procedure that changes the vault "
               "(or the creation of a client) every path to a success value commits, to the wrapper's snapshot path and with the key of this call. Returned pointers stem from an allocator whose release "
               "function is the one the exported destroy function for that pointer type calls, exactly once; memory handed out as bytes receives the whole byte slice of the operation's result. Every "
               "argument reaches the library operation.")
ASSUMPTIONS = ["callers pass valid pointers, lengths and UTF-8 strings", "running out of memory aborts"]
NOTE = "All paths of all exported functions; the behaviour of the library operations themselves is the subject of the other properties."

LIB = ("iota_stronghold", "engine", "runtime", "stronghold_utils")
ALLOC = r"(Box|CString|Vec|Rc|Arc)::into_raw(_parts)?$|libc::.*::(malloc|calloc|realloc|strdup)$|alloc::alloc::(alloc|alloc_zeroed)$"
FREE = r"(Box|CString|Vec|Rc|Arc)::from_raw(_parts)?$|libc::.*::free$|alloc::alloc::dealloc$"
FAMILY = [(r"libc::.*::(malloc|calloc|realloc|strdup|free)$", "libc"), (r"CString::", "CString"), (r"Box::", "Box"), (r"Vec::", "Vec"), (r"Rc::", "Rc"), (r"Arc::", "Arc"), (r"alloc::", "alloc")]


LEN = r"::(len|is_empty|capacity)$"
SLICE = r"ops::index::(Index::index|IndexMut::index_mut)$|Index(Mut)?>::index(_mut)?$|\[T\]::(get|first|last|split\w*|chunks\w*|windows)$|Iterator::(take|skip|step_by|filter)$|split_(to|off)$|Vec::(truncate|drain)$|::trim\w*$"


class Lib(Policy):
    def opaque(self, b):
        return b.local and b.crate.name in LIB


def keep(flow, b, c, path, lv, subs):
    lv.add(("call", b.id, path))
    return True


def family(c):
    p = c.path or c.tpath
    for rx, n in FAMILY:
        if re.search(rx, p):
            return n + ("<%s>" % (c.targs[0],) if n in ("Box", "Vec", "Rc", "Arc") and c.targs else "")
    return p


def exported(prog):
    return sorted((b for b in prog.bodies.values() if b.crate.name == "stronghold_native" and b.local and b.abi not in (None, "Rust") and b.abi.startswith("C")), key=lambda b: b.path)


def fallible(a):
    out = []
    for blk in a.g.blocks:
        if blk.kind == "call" and blk.call is not None and blk.id in a.e.reached and a.result_kind(blk.id) == "VErr":
            p = blk.call.path or blk.call.tpath
            if lib_op(a, blk.id) and blk.call.ext:
                out.append(blk.id)
    return out


def lib_op(a, blk):
    return bool(re.search(r"(^|<)(iota_stronghold|engine|runtime)::", a.call(blk).path or ""))


def records(a):
    """blocks that fill the error slot"""
    out = []
    for b in a.calls(r"LocalKey::(with|with_borrow_mut|set|replace|try_with)$"):
        c = a.call(b)
        if re.search(r"::(set|replace)$", c.path):
            out.append(b)
            continue
        for blk in a.g.blocks:
            x = blk.ctx
            while x is not None and x.body not in c.cbb:
                x = x.parent
            if x is None:
                continue
            if any(st[0] == "=" and st[2][0] == "agg" and st[2][1][1:] == ("core::option::Option", "Some") and "dyn" in str(a.g.ty_of_place(st[1])) for st in blk.stmts):
                out.append(b)
                break
    return out


def read_only(prog, t):
    """the procedure only uses secrets: it has no product in the vault"""
    return t[0] == "adt" and bool(prog.find_impl("iota_stronghold::procedures::types::UseSecret", t))


def check(cx):
    prog = cx.prog
    ex = exported(prog)
    cx.floor("exported functions", len(ex), 8)
    handed, releases = [], []
    steps = commits = 0
    for b in ex:
        a = cx.an(b, Lib(), models=[("res", re.compile(ALLOC + r"|slice::raw::from_raw_parts(_mut)?$"), keep)])
        n = b.path.rsplit("::", 1)[1]
        t = b.locals[0]
        fl = fallible(a)
        rec = records(a)
        if t[0] == "ptr":
            rc = set(a.ret_content())
            src = set(v[1] for v in rc if v[0] == "call" and not re.search(r"ptr::(null|null_mut)$", a.call(v[1]).path))
            make = [x for x in a.calls(ALLOC) if x in src]
            odd = [v for v in rc if v[0] not in ("call", "k")]
            cx.ob("pointer-source", n, src == set(make) and bool(make) and not odd, "", "the returned pointer does not stem from an allocation handed over to the caller")
            for m in make:
                handed.append((n, t, a, m))
            good = make
        else:
            good = None
        for f in fl:
            steps += 1
            s = short(a.call(f).path)
            seeds = a.fail(f)
            if t[0] == "ptr":
                w = a.search(seeds, good)
            elif t == ("prim", "bool"):
                w = a.search(seeds, nonzero(a))
            else:
                continue
            cx.ob("failure-value", n + ":" + s, w is None, a.where(f), "" if w is None else "a failure is reported as success: " + a.show(w))
            w = a.search(seeds, a.rets(), avoid=rec)
            cx.ob("failure-recorded", n + ":" + s, w is None, a.where(f), "" if w is None else "the error is not recorded: " + a.show(w))
        if not fl:
            rel = a.calls(FREE)
            if rel:
                releases.append((n, b, a, rel))
            continue
        # everything succeeds

        def good_world(blk, a=a):
            c = a.call(blk)
            if a.result_kind(blk) == "VErr":
                return {(): "VOk"}
            if re.search(r"::is_null$", c.path):
                return {(): "0"}
            return None
        u = a.under(None, good_world)
        w = u.search(u.entry(), rec)
        cx.ob("no-false-error", n, w is None, "", "" if w is None else "an error is recorded although everything succeeded: " + a.show(w))
        if t[0] == "ptr":
            w = u.search(u.entry(), u.rets(), avoid=good)
        else:
            w = u.search(u.entry(), nonone(u))
        cx.ob("success-value", n, w is None, "", "" if w is None else "the failure value is returned although everything succeeded: " + a.show(w))
        # changes are committed
        com = a.calls(r"Stronghold::commit(_with_keyprovider)?$")
        key = [i for i in range(b.argc) if any(has_arg(a.arg_deps(h, k), i) for h in a.calls(r"Digest::update$|Blake2b\w*.*::(update|digest)$|Digest::digest$") for k in (0, 1) if k < len(a.call(h).args))]
        for m in a.calls(r"Client::execute_procedure(_chained)?$|Stronghold::create_client$"):
            c = a.call(m)
            ty = a.g.ty_of_op(c.args[1])
            if "execute_procedure" in c.path and read_only(prog, ty):
                continue
            st = a.e.seed(m, {(): "VOk"})
            w = a.search(st, good if good is not None else nonzero(a), avoid=com)
            commits += 1
            cx.ob("committed", n, w is None, a.where(m), "" if w is None else "a change is reported as done without being committed: " + a.show(w))
        for m in com:
            path = a.arg_deps(m, 1)
            who = [i for i in range(b.argc) if has_arg(path, i)]
            cx.ob("commit-path", n, bool(who) and not set(who) & set(key), a.where(m), "the snapshot is not written to the wrapper's snapshot path")
            if "StrongholdWrapper" in str(a.g.vars[a.g.argvars[0]][2]):
                cx.ob("commit-path-own", n, ".snapshot_path" in show(a.arg_term(m, 1)) or any(v[0] in ("arg", "init") and ".snapshot_path" in v[2] for v in path), a.where(m), "the snapshot is not written to the wrapper's snapshot path")
            if len(a.call(m).args) > 2:
                kd = a.arg_deps(m, 2, cutter(a, LEN))
                cx.ob("commit-key", n, any(has_arg(kd, i) for i in key), a.where(m), "the snapshot is not written with the key given in this call")
        # all arguments matter
        seen = set()
        for f in fl:
            for k in range(len(a.call(f).args)):
                for v in a.arg_deps(f, k, cutter(a, LEN)):
                    if v[0] == "arg":
                        seen.add(v[1])
        for i in range(b.argc):
            cx.ob("argument-used", "%s:%d" % (n, i), i in seen, "", "argument %d does not reach the operation" % i)
        for f in fl:
            if "execute_procedure" in a.call(f).path:
                a.raw_vals(f, 1)
                fl2 = a._sl
                d = fl2.deps(fl2._deep(f, len(a.g.blocks[f].stmts), a.call(f).args[1]))
                cx.ob("argument-whole", n, not calls_in(d, a, SLICE), a.where(f), "only a part of an argument is passed on")
        # bytes handed out
        if t[0] == "ptr" and t[1][0] == "prim":
            for m in good:
                cs = [x for x in a.calls(r"ptr::copy(_nonoverlapping)?$|copy_(to|from)(_nonoverlapping)?$") if any(v[0] == "call" and v[1] == m or v[0] == "ptr" and v[1] == ("o", ("call", m, ())) for k in (0, 1) for v in a.arg_vals(x, k))]
                ops = [f for f in fl if "execute_procedure" in a.call(f).path]
                cx.ob("bytes-filled", n, bool(cs) or family(a.call(m)).startswith(("Box<('slice", "CString")), a.where(m), "the memory handed out is not filled with the bytes of the result")
                for x in cs:
                    src = a.arg_deps(x, 0)
                    unit = ops and all("('tuple', ())" in str(a.g.ty_of_place(a.call(f).dest)[2][0]) for f in ops)
                    cx.ob("bytes-of-result", n, unit or any(v[0] == "call" and v[1] in ops for v in src), a.where(x), "the bytes handed out are not those of the operation's result")
                    cx.ob("bytes-unit", n, "prim" in str(a.call(x).targs[:1]) and "u8" in str(a.call(x).targs[:1]), a.where(x), "the copy is not one of bytes")
                    cnt = a.arg_deps(x, 2)
                    ln = calls_in(cnt, a, r"::len$") or [v for v in cnt if v[0] == "k"]
                    cx.ob("bytes-count", n, bool(ln), a.where(x), "the number of bytes copied is not the length of the result")
                if cs:
                    uu = a.under(None, good_world)
                    w = uu.search(uu.after(m), uu.rets(), avoid=cs)
                    cx.ob("bytes-filled-always", n, w is None, a.where(m), "" if w is None else "memory is handed out unfilled: " + a.show(w))
                if cs and family(a.call(m)) == "libc":
                    t1 = a.arg_deps(m, 0)
                    cx.ob("bytes-room", n, all(show(a.arg_term(x, 2)) in show(a.arg_term(m, 0)) for x in cs)
                          and not calls_in(t1, a, r"min$|Sub::sub|checked_sub|saturating_sub"), a.where(m), "the memory handed out is not sized by the result")
    cx.floor("fallible library operations", steps, 8)
    cx.floor("changes followed by a commit", commits, 3)
    # allocation and release agree
    rtypes = {}
    for n, b, a, rel in releases:
        pt = b.locals[1] if b.argc else None
        for r in rel:
            rtypes.setdefault(str(base(pt)), set()).add(family(a.call(r)))

        def live(blk, a=a):
            return {(): "0"} if re.search(r"::is_null$", a.call(blk).path) else None
        u = a.under(None, live)
        w = u.search(u.entry(), u.rets(), avoid=rel)
        cx.ob("released", n, w is None, "", "" if w is None else "the memory is not released: " + a.show(w))
        for r in rel:
            w = u.search(u.after(r), rel)
            cx.ob("released-once", n, w is None, a.where(r), "the memory is released twice")
            cx.ob("releases-argument", n, has_arg(a.arg_deps(r, 0), 0), a.where(r), "something else than the given pointer is released")

        def null(blk, a=a):
            return {(): "1"} if re.search(r"::is_null$", a.call(blk).path) else None
        u = a.under(None, null)
        cx.ob("null-ignored", n, u.search(u.entry(), rel) is None, "", "a null pointer is released")
    for n, t, a, m in handed:
        f = family(a.call(m))
        want = rtypes.get(str(base(t)), set())
        cx.ob("release-matches", n, want == {f}, a.where(m), "memory from %s is released by %s" % (f, ", ".join(sorted(want)) or "nothing"))
    cx.floor("release functions", len(releases), 2)


def base(t):
    return t[1] if t is not None and t[0] == "ptr" else t


def bools(u):
    e = u.e
    for i, (b, env) in enumerate(e.nodes):
        if u.g.blocks[b].kind == "ret":
            x = dict(env)
            for k, st in enumerate(u.g.blocks[b].stmts):
                if st[0] == "=":
                    e._assign(x, b, k, st[1], st[2])
            t = x.get((("v", u.g.retvar), ()))
            yield i, t if isinstance(t, str) else None


def nonzero(u):
    return [("n", i) for i, t in bools(u) if t != "0"]


def nonone(u):
    return [("n", i) for i, t in bools(u) if t != "1"]
