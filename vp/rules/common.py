import re
from ..framework import NoOpaque, RuntimeOpaque
from ..query import show
from ..graph import REPO_DIRS


def short(p):
    """short stable name of a function path"""
    p = re.sub(r"^<(.*) as (.*)>::", lambda m: m.group(1).split("::")[-1] + ".", p)
    return "::".join(p.split("::")[-2:])


def site(a, blk):
    """stable description of a call site: callee + the public root it is reached from"""
    return short(a.call(blk).path)


def must_precede(cx, a, rule, key, first, targets, what):
    """every path from the root's entry to a target passes through one of `first`"""
    w = a.search(a.entry(), targets, avoid=first)
    cx.ob(rule, key, w is None, a.where(a.e.nodes[w[-1]][0]) if w else "",
          "" if w is None else "%s: path without it: %s" % (what, a.show(w)))
    return w is None


def must_follow(cx, a, rule, key, starts, then, exits, what):
    """every path from starts (exploded nodes) to an exit passes through one of `then`"""
    w = a.search(starts, exits, avoid=then)
    cx.ob(rule, key, w is None, a.where(a.e.nodes[w[0]][0]) if w else "",
          "" if w is None else "%s: path without it: %s" % (what, a.show(w)))
    return w is None


def fails(cx, a, rule, key, blk, targets=None, what="the failure is not reported", tags=None):
    """when the call at blk fails, no success return (nor any of the extra targets) is reached"""
    seeds = a.fail(blk, tags)
    tg = a.rets("Ok") if targets is None else targets
    # return nodes may have been created by seeding: recompute
    if targets is None:
        tg = a.rets("Ok")
    w = a.search(seeds, tg)
    cx.ob(rule, key, w is None, a.where(blk),
          "" if w is None else "%s at %s: %s" % (what, a.where(blk), a.show(w)))
    return w is None


def local_bodies(prog, crates):
    return [b for b in prog.bodies.values() if b.crate.name in crates and b.local and b.file.startswith(REPO_DIRS)]


def raw_calls(body):
    """(block index, callee path, resolved path, terminator) of every call of a body, without inlining"""
    for i, b in enumerate(body.blocks):
        if b.get("c"):
            continue
        t = b["t"]
        if t["k"] == "call" and "fn" in t["f"]:
            f = t["f"]["fn"]
            yield i, f["p"], (f.get("r") or {}).get("p", f["p"]), t


def mentions(body):
    """paths of all functions mentioned (called or used as values) in a body"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if "p" in x and "u" in x and "a" in x:
                out.add(x["p"])
                r = x.get("r")
                if r:
                    out.add(r["p"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(body.blocks)
    return out


def has_arg(deps, i, prefix=None):
    for v in deps:
        if v[0] == "arg" and v[1] == i and (prefix is None or v[2][:len(prefix)] == tuple(prefix)):
            return True
    return False


def from_arg(a, blk, i, n):
    """argument i of the call (by content) is exactly the content of root argument n"""
    return a.arg_term(blk, i)


def calls_in(deps, a, rx):
    r = re.compile(rx)
    return [v for v in deps if v[0] in ("call", "mut") and (r.search(a.call(v[1]).path or "") or r.search(a.call(v[1]).tpath or ""))]


def consts(deps):
    return [v[1] for v in deps if v[0] == "k"]


def cutter(a, rx):
    r = re.compile(rx)

    def through(c, v):
        return () if (r.search(c.path or "") or r.search(c.tpath or "")) else None
    return through


def arg_deps_cut(a, blk, i, rx):
    """what argument i may depend on, not looking behind calls that match rx"""
    return a.arg_deps(blk, i, cutter(a, rx))


def ret_deps_cut(a, path, rx):
    return a.f.deps(a.ret_content(path), cutter(a, rx))


def ret_deep(a, path=()):
    """content of the returned value with pointers followed"""
    out = set()
    for r in a.g.rets:
        if r in a.e.reached:
            b = a.g.blocks[r]
            st = [((("v", a.g.retvar)), tuple(path), 0)]
            seen = set()
            while st:
                root, p, d = st.pop()
                if (root, p) in seen or d > 4:
                    continue
                seen.add((root, p))
                for v in a.f.trace(r, len(b.stmts), root, p):
                    out.add(v)
                    if v[0] == "ptr":
                        st.append((v[1], v[2], d + 1))
    return out


CMP = r"cmp::PartialEq(>)?::(eq|ne)$"


def comparisons(a):
    """(block, term left, term right, True for ne) of == / != calls on non-scalar values"""
    for b in a.calls(CMP, ext=True):
        c = a.call(b)
        yield b, a.arg_term(b, 0), a.arg_term(b, 1), c.tpath.endswith("ne") or c.path.endswith("::ne")


def unequal(a, blk):
    """exploded nodes after the comparison at blk when the two sides differ"""
    c = a.call(blk)
    ne = (c.tpath or c.path).endswith("::ne")
    return a.e.seed(blk, {(): "1" if ne else "0"})


def whole(a, blk, i):
    """argument i refers to a whole buffer, not to a sub-slice of one"""
    for v in a.raw_vals(blk, i):
        while v[0] == "ptr" and v[1][0] == "o":
            v = v[1][1]
        if v[0] == "call" and re.search(r"index(_mut)?$|\[T\]::|from_raw_parts|split|Iterator::", (a.call(v[1]).tpath or "") + " " + a.call(v[1]).path):
            if re.search(r"Iterator(>)?::next(_back)?$", a.call(v[1]).path) and not re.search(r"Chunks|Windows|Split|Bytes", a.call(v[1]).path + str(a.g.ty_of_op(a.call(v[1]).args[0]))):
                continue
            if not re.search(r"as_slice$|as_mut_slice$|to_vec$|concat$|join$", a.call(v[1]).path):
                return False
    return True


def is_rng(p):
    return bool(re.search(r"crypto::utils::rand::fill$|getrandom::(\w+::)*(getrandom|fill)$|RngCore(>)?::(fill_bytes|try_fill_bytes|next_u\w+)$|rand_core::.*OsRng|x25519::SecretKey::generate$|ed25519::SecretKey::generate$|secp256k1\w*::SecretKey::generate|libsodium_sys::randombytes_(buf|random|uniform)|sodium_bindings::randombytes_|stronghold_utils::random::|rand::random$|Rng(>)?::(gen|fill|gen_range|sample)$|rand::rngs::thread::thread_rng", p or ""))


def rng_in(a, deps):
    return [v for v in deps if v[0] in ("call", "mut") and (is_rng(a.call(v[1]).path) or is_rng(a.call(v[1]).tpath))]


SECURE_RNG = r"crypto::utils::rand::fill$|getrandom::(\w+::)*(getrandom|fill)$|(x25519|ed25519|secp256k1\w*)::SecretKey::generate$|randombytes_(buf|random|uniform)$|stronghold_utils::random::(random|fixed_bytestring)$|^rand::random$|OsRng as .*RngCore>::|ThreadRng as .*RngCore>::"
USER_RNG = r"rand::rng::Rng::(gen|gen_range|fill|try_fill|sample|sample_iter)$|RngCore(>)?::(fill_bytes|try_fill_bytes|next_u\w+)$"


def secure_rng(a, blk):
    """the call at blk draws from the system's (or the thread's) cryptographically secure generator"""
    c = a.call(blk)
    p = c.path or ""
    if re.search(SECURE_RNG, p) or (c.tpath and re.search(SECURE_RNG, c.tpath)):
        return True
    if re.search(USER_RNG, p) or (c.tpath and re.search(USER_RNG, c.tpath)):
        d = a.arg_deps(blk, 0)
        src = calls_in(d, a, r"thread_rng$|OsRng|from_entropy$")
        return bool(src) and not calls_in(d, a, r"seed_from_u64|SeedableRng(>)?::from_seed|SmallRng|StepRng")
    return False


def secure_rngs(a):
    return [b.id for b in a.g.blocks if b.kind == "call" and b.call is not None and b.id in a.e.reached and secure_rng(a, b.id)]


def fresh_deps(a, deps, rngs):
    """secure generator calls among the dependencies"""
    return sorted(set(v[1] for v in deps if v[0] in ("call", "mut") and v[1] in rngs))


def check_fresh(cx, a, rule, key, vals, at, what, sink=None):
    """every alternative of a value is derived from a secure generator call of this very execution that fills the whole
    buffer, comes before the use on every path (again in each loop iteration), and whose failure does not reach the use"""
    rngs = set(secure_rngs(a))
    cx.ob(rule, key + ":has-source", bool(vals), at, "no source found for the %s" % what)
    used = set()
    for v in vals:
        f = fresh_deps(a, a.f.deps([v]), rngs)
        cx.ob(rule, key, bool(f), at, "the %s is not newly drawn from the secure random generator (%s)" % (what, show(a.f.vterm(v, 8, ()))[:160]))
        used |= set(f)
    if not used:
        return used
    if sink is not None:
        must_precede(cx, a, rule + "-order", key, list(used), [sink], "the %s is used without drawing it" % what)
        w = a.search(a.after(sink), [sink], avoid=list(used))
        cx.ob(rule + "-each", key, w is None, a.where(sink), "the same %s serves several encryptions: %s" % (what, a.show(w) if w else ""))
    for r in used:
        c = a.call(r)
        for i in range(len(c.args)):
            if re.search(r"fill|randombytes_buf", c.path or ""):
                cx.ob(rule + "-whole", key, whole(a, r, i), a.where(r), "only a part of the %s is filled with random bytes" % what)
        if a.result_kind(r) is not None:
            tg = [sink] if sink is not None else a.rets("Ok")
            w = a.search(a.fail(r), tg if sink is not None else a.rets("Ok"))
            cx.ob(rule + "-failure", key, w is None, a.where(r), "the %s is used although drawing it failed: %s" % (what, a.show(w) if w else ""))
    return used


def public_ops(prog, rx=r"types::(client::Client|vault::ClientVault|store::Store|stronghold::Stronghold|snapshot::Snapshot)::\w+$|as iota_stronghold::procedures::types::Runner>::\w+$|types::client::Client::\w+$", skip=r"::execute_procedure(_chained)?$|::default$|::clone$"):
    """public operations of the client library (and the procedure runner), by path"""
    out = []
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if b.crate.name == "iota_stronghold" and b.local and re.search(rx, p) and not re.search(skip, p) and "{{" not in p \
                and (b.pub or "Runner>" in p):
            out.append(p)
    return out


def field_of(a, blk, i, suffix):
    """argument i points to a place whose last field names are `suffix` (e.g. ('.store',))"""
    for v in a.arg_vals(blk, i):
        if v[0] == "ptr":
            names = [x for x in v[2] if isinstance(x, str) and x.startswith(".") and not x[1:].isdigit()]
            if names and tuple(names[-len(suffix):]) == tuple(suffix):
                return True
    return False


SETTERS = r"option::Option::(replace|insert|get_or_insert|get_or_insert_with|take)$|core::mem::(replace|swap|take)$|clone_from$"


def stores(a, field, base_ty=None):
    """(block, statement index) of reachable assignments to a field of that name (of a struct whose type matches)"""
    out = []
    r = re.compile(base_ty) if base_ty else None
    for b in a.g.blocks:
        if b.id not in a.e.reached:
            continue
        for i, st in enumerate(b.stmts):
            if st[0] == "=" and st[1][1]:
                for k, e in enumerate(st[1][1]):
                    if e == ("f", field) and k == len(st[1][1]) - 1:
                        if r is None or r.search(str(a.g.ty_of_place((st[1][0], st[1][1][:k])))):
                            out.append((b.id, i))
        if b.kind == "call" and b.call is not None and b.call.args and re.search(SETTERS, b.call.path or "") and field_of(a, b.id, 0, ("." + field,)):
            out.append((b.id, None))
        if b.kind == "call" and b.call is not None and b.call.dest is not None:
            pl = b.call.dest
            if pl[1] and pl[1][-1] == ("f", field) and (r is None or r.search(str(a.g.ty_of_place((pl[0], pl[1][:-1]))))):
                out.append((b.id, None))
    return out


def dep_blks(deps):
    return set(v[1] for v in deps if v[0] in ("call", "mut"))


def is_key_ty(t):
    return "crypto_box::Key'" in str(t)


def ret_value_deps(a, path=()):
    return a.f.deps(ret_deep(a, path))


def assume_field(name, tag):
    """hypothesis: every place whose last field is `name` holds that variant / boolean"""
    def f(aps, ty):
        if aps and all(x[1] and x[1][-1] == "." + name for x in aps):
            return tag
        return None
    return f


def ret_tags(u):
    """what is known about the returned value: set of tags ('1', 'VOk', ...; None = unknown)"""
    e = u.e
    out = set()
    for i, (b, env) in enumerate(e.nodes):
        if u.g.blocks[b].kind == "ret":
            x = dict(env)
            for k, st in enumerate(u.g.blocks[b].stmts):
                if st[0] == "=":
                    e._assign(x, b, k, st[1], st[2])
            t = x.get((("v", u.g.retvar), ()))
            out.add(t if isinstance(t, str) else None)
    return out


def cb_bodies(a, blk):
    """bodies the external call at blk calls back"""
    return list(a.call(blk).cbb)


LOOKUP_TAG = {"contains_key": "1", "entry": "VOccupied"}


def found(a, blk):
    """exploded nodes after a map lookup that found an entry"""
    n = a.call(blk).path.rsplit("::", 1)[1]
    return a.e.seed(blk, {(): LOOKUP_TAG.get(n, "VSome")})


def absent(a, blk):
    n = a.call(blk).path.rsplit("::", 1)[1]
    return a.e.seed(blk, {(): {"contains_key": "0", "entry": "VVacant"}.get(n, "VNone")})


class Coarse(RuntimeOpaque):
    """operations of the client library, with encryption, key wrapping, identifier derivation and the framing of
    snapshots as boundaries (those are the subject of other properties)"""
    RX = re.compile(r"^engine::snapshot::logic::|^engine::snapshot::compression|crypto_box::(NCKey|Key)::|BoxProvider>::|load_from_path$|"
                    r"crypto_box::(Encrypt|Decrypt)(>)?::")

    def opaque(self, body):
        return RuntimeOpaque.opaque(self, body) or bool(self.RX.search(body.path))


FILTER = r"Iterator::(filter|filter_map|skip|skip_while|take|take_while|step_by|map_while|find|find_map|nth|last|position|scan)$|::(truncate|drain|split_off|retain|pop|swap_remove|dedup\w*)$|ops::index::Index|\[T\]::(first|last|get|split\w*|chunks\w*)$"


def owner(v):
    """last named field of the place a pointer refers to, through guards, locks and boxes"""
    for _ in range(6):
        names = [x for x in v[2] if isinstance(x, str) and x.startswith(".") and not x[1:].isdigit()]
        if names:
            return names[-1]
        base = v[1]
        if base[0] != "o" or base[1][0] not in ("init", "call", "ptr", "arg"):
            return None
        v = (base[1][0], base[1][1], base[1][2])
        if v[0] in ("call", "arg"):
            names = [x for x in v[2] if isinstance(x, str) and x.startswith(".") and not x[1:].isdigit()]
            return names[-1] if names else None
    return None


def at_field(a, blk, i, field):
    """argument i refers to a place in a field of that name"""
    return any(owner(v) == field for v in a.arg_vals(blk, i) if v[0] in ("ptr", "init", "arg"))


def lookups(a, field):
    """lookups in a map held in a field of that name: (block, method)"""
    out = []
    for b in a.calls(r"(HashMap|BTreeMap)::(get|get_mut|remove|contains_key|entry|get_key_value|remove_entry|get_or_insert_with)$"):
        if at_field(a, b, 0, field):
            out.append(b)
    return out


def over(a, blk, field):
    """the iterator used at blk runs over the map in the field of that name"""
    return any(at_field(a, v, 0, field) for v in map_sources(a, a.arg_deps(blk, 0)))


def map_sources(a, deps):
    return set(v[1] for v in deps if v[0] in ("call", "mut") and a.call(v[1]).args
               and re.search(r"(HashMap|BTreeMap)::(iter|iter_mut|keys|values|values_mut|drain|into_iter|into_keys|into_values)$|Map as .*IntoIterator>::into_iter$|IntoIterator::into_iter$", a.call(v[1]).path or ""))


def own_sources(a, blk):
    """map iterations the iterator at blk runs over, not looking behind lookups"""
    d = a.arg_deps(blk, 0, cutter(a, r"HashMap::(get|get_mut|insert|remove|iter|iter_mut|keys|values|values_mut|drain|into_iter|into_keys|into_values)$|Map as .*IntoIterator>::into_iter$"))
    return map_sources(a, d), d


def iterations(a, field):
    """loops over all elements of the map in a field: (block, kind, dependencies of the iterator);
    kind 'next' for a loop that fetches elements, 'cb' for a closure called per element"""
    out = []
    for b in a.calls(r"Iterator(>)?::next$|Iterator(>)?::(for_each|try_for_each|fold|try_fold|all|any)$|Iterator(>)?::collect$|Extend(>)?::extend$"):
        src, d = own_sources(a, b)
        if any(at_field(a, s, 0, field) for s in src):
            out.append((b, "next" if a.call(b).path.endswith("next") else "cb", d))
    return out


def loop_body(a, blk):
    """exploded nodes at the start of the per-element work of an iteration"""
    c = a.call(blk)
    if c.path.endswith("next"):
        return a.e.seed(blk, {(): "VSome"}), [blk]
    heads = [b.id for b in a.g.blocks if b.loop_of == blk]
    pres = [b.loop_pre for b in a.g.blocks if b.loop_of == blk and b.loop_pre is not None]
    st = []
    for h in heads:
        for i in a.e.byblk.get(h, []):
            for s in a.e.succ[i]:
                if a.e.nodes[s][0] != blk:
                    st.append(s)
    return st, heads + pres


def ok_again(a, again):
    """the next-element blocks of loop_body, leaving out the returns of a closure that failed (they end the loop)"""
    out = []
    for b in again:
        lo = a.g.blocks[b].loop_of
        if lo is None:
            out.append(b)
        else:
            out += [("n", i) for i in a.e.byblk.get(b, []) if not a.e._cbfail(dict(a.e.nodes[i][1]), lo)]
    return out


def kept(a, blk):
    """calls that put the element fetched at blk into a local collection"""
    out = []
    for b in a.calls(r"(Vec|VecDeque|HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)::(push|push_back|insert|extend)$"):
        c = a.call(b)
        if any(v[0] == "ptr" and owner(v) for v in a.arg_vals(b, 0)):
            continue
        if len(c.args) > 1 and any(blk in dep_blks(a.arg_deps(b, i)) for i in range(1, len(c.args))):
            out.append(b)
    return out


def deep_of(a, blk, vals):
    """content reachable from values at blk, pointers and boxes followed"""
    out, n = set(), a.nblk(blk)
    st = [(v, 0) for v in vals]
    while st:
        v, d = st.pop()
        if v in out or d > 5:
            continue
        out.add(v)
        if v[0] == "ptr":
            st += [(x, d + 1) for x in a.f.trace(blk, n, v[1], v[2])]
        elif v[0] in ("call", "init"):
            for p in ((), ("@",)):
                st += [(x, d + 1) for x in a.f.trace(blk, n, ("o", v), p) if not (x[0] == "init" and x[1] == ("o", v))]
    return out
