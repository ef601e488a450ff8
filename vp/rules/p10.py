"""P10: revoked records are unreadable; garbage collection removes only them."""
from .common import *

TECHNIQUE = "reachability on the inlined MIR flow graph under the hypothesis that the record is (is not) revoked, plus provenance of what revocation stores and collection removes"
EXPLANATION = ("Every public vault operation is analysed twice, once under the hypothesis that each record's revocation mark is set and once that it is not. With the mark set, no decryption of a stored record, no "
               "change of its content and no successful write is reachable, and containment tests answer no. Revoking stores a sealed mark in exactly the record looked up with the given id and touches nothing else; "
               "nothing ever resets a mark. Garbage collection selects exactly the records with the mark, and no other operation removes records or replaces an existing one by a fresh one.")
ASSUMPTIONS = ["std iterator adaptors and HashMap behave as documented"]
NOTE = "All paths of engine::vault::view, each under both hypotheses."

OPEN = r"Aead(>)?::(try_decrypt|decrypt)$"
SEAL = r"Aead(>)?::(try_encrypt|encrypt)$"
LOOK = r"hash::map::HashMap::(get|get_mut|contains_key|entry)$"
REMOVERS = r"hash::map::HashMap::(remove|remove_entry|retain|clear|drain|extract_if)$|hash::map::OccupiedEntry::(remove|remove_entry)$"
ADAPT_OK = r"Iterator(>)?::(filter|map|filter_map|cloned|copied|collect|for_each|by_ref|partition|inspect)$|IntoIterator|HashMap::(iter|keys|into_iter|iter_mut)$|Vec::(iter|into_iter|drain)$|\[T\]::iter$"
ADAPT_BAD = r"Iterator(>)?::(take|skip|step_by|take_while|skip_while|nth|find|next|last|map_while)$"

SOME, NONE = assume_field("revoke", "VSome"), assume_field("revoke", "VNone")


def check(cx):
    prog = cx.prog
    V = "engine::vault::view::DbView::"
    roots = []
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if re.match(V + r"\w+$", p) and b.local and b.pub and b.argc >= 2:
            if any("crypto_box::Key'" in str(b.locals[1 + i]) for i in range(b.argc)) and not re.search("init_vault|import_", p):
                roots.append(p)
    cx.floor("vault operations that take a key", len(roots), 7)
    reads = writes = 0
    for p in roots:
        n = short(p)
        a = cx.an(p)
        s, o = a.under(SOME), a.under(NONE)
        live = [b for b in o.calls(OPEN, ext=True) if stored(o, b)]
        if live:
            reads += 1
        for b in s.calls(OPEN, ext=True):
            if stored(s, b):
                w = s.search(s.entry(), [b])
                cx.ob("no-decryption", n, w is None, s.where(b), "" if w is None else "a revoked record is decrypted: " + s.show(w))
        cx.ob("no-decryption", n, True)
        # content of a revoked record is not changed and the write does not succeed
        for f in ("blob", "data"):
            for b, i in stores(s, f, r"view::Record'"):
                cx.ob("no-change", n, False, s.where(b), "the content of a revoked record is replaced")
        if stores(o, "blob", r"view::Record'"):
            writes += 1
            looks = [b for b in s.calls(LOOK) if field_of(s, b, 0, (".entries",)) and s.search(s.entry(), [b])]
            cx.floor("lookups of the written record in " + n, len(looks), 1)
            tgt = [b for b in looks if writes_after(o, b)]
            cx.floor("lookups of the written record in " + n, len(tgt), 1)
            for b in tgt:
                w = s.search(found(s, b), s.rets("Ok"))
                cx.ob("write-refused", n, w is None, s.where(b), "" if w is None else "writing to a revoked record succeeds: " + s.show(w))
        # an existing record is never replaced by a fresh one
        for b in a.calls(r"hash::map::HashMap::insert$|Entry::insert_entry$|OccupiedEntry::insert$"):
            if not field_of(a, b, 0, (".entries",)) and "OccupiedEntry" not in a.call(b).path:
                continue
            ok = False
            for l in a.calls(LOOK):
                if field_of(a, l, 0, (".entries",)) and a.arg_term(l, 1) == a.arg_term(b, 1) and not a.search(a.entry(), [b], avoid=[l]) and not a.search(found(a, l), [b], avoid=[l]):
                    ok = True
            cx.ob("no-replacement", n, ok, a.where(b), "an existing, possibly revoked, record is replaced by a fresh one")
        # only garbage collection removes
        if "garbage" not in p:
            for b in a.calls(REMOVERS):
                if field_of(a, b, 0, (".entries",)) or "OccupiedEntry" in a.call(b).path:
                    cx.ob("only-collection-removes", n, False, a.where(b), "a record is removed outside garbage collection")
    cx.floor("operations that read records", reads, 6)
    cx.floor("operations that write records", writes, 2)
    contains(cx, V + "contains_record")
    revoke(cx, V + "revoke_record")
    for p in (V + "garbage_collect_vault", "<iota_stronghold::types::client::Client as iota_stronghold::procedures::types::Runner>::garbage_collect", "iota_stronghold::types::vault::ClientVault::cleanup"):
        collect(cx, p)
    # nothing resets a mark
    k = 0
    for b in local_bodies(prog, ("engine",)):
        if "vault::view" not in b.path:
            continue
        g = cx.an(b)
        k += 1
        for blk, i in stores(g, "revoke", r"view::Record'"):
            cx.ob("mark-is-sealed", short(b.path), sealed(g, blk, i), g.where(blk), "the revocation mark of a record is overwritten with something that is not a mark")
    cx.count("functions scanned for changes of the mark", k)
    # delete = revoke and collect
    a = cx.an("iota_stronghold::types::vault::ClientVault::delete_secret")
    if a is not None:
        st = [b for b, i in stores(a, "revoke", r"view::Record'")]
        rm = collectors(a)
        cx.floor("revocations in delete_secret", len(st), 1)
        cx.floor("collections in delete_secret", len(rm), 1)
        w = a.search(a.entry(), st) and a.search(st_nodes(a, st), rm)
        cx.ob("revoke-then-collect", "delete_secret", w is not None, "", "deleting does not revoke before it collects")


def st_nodes(a, blks):
    out = []
    for b in blks:
        out += [i for i in a.e.byblk.get(b, [])]
    return out


def stored(a, b):
    return ".vaults" in show(a.arg_term(b, 3))


def writes_after(o, b):
    return o.search(found(o, b), [x for x, i in stores(o, "blob", r"view::Record'")]) is not None


def sealed(a, blk, i):
    b = a.g.blocks[blk]
    if i is None:
        c = b.call
        return len(c.args) > 1 and bool(calls_in(a.arg_deps(blk, 1), a, SEAL + r"|box_seal$"))
    op = b.stmts[i][2]
    vals = set()
    if op[0] == "use" and op[1][0] == "p":
        vals = a.f._deep(blk, i, op[1])
    elif op[0] == "agg" and op[1][-1] == "Some":
        for x in op[3]:
            vals |= set(a.f._deep(blk, i, x))
    d = a.f.deps(vals)
    return bool(calls_in(d, a, SEAL + r"|box_seal$"))


def contains(cx, p):
    a = cx.an(p)
    if a is None:
        return
    s, o = a.under(SOME), a.under(NONE)
    ok = ret_tags(s) <= {"0"}
    pos = "1" in ret_tags(o) or None in ret_tags(o)
    if not ok:
        for b in s.g.blocks:
            if b.kind == "call" and b.call is not None and b.call.ext and b.id in s.e.reached and b.call.cbs and re.search(r"Iterator(>)?::(any|filter|find|position)$", b.call.path):
                for body in cb_bodies(a, b.id):
                    t = ret_tags(cx.an(body).under(SOME))
                    if t <= {"0"}:
                        ok = True
    cx.ob("not-contained", short(p), ok, "", "a revoked record is reported as present")
    cx.ob("contained", short(p), pos, "", "no record is ever reported as present")


def revoke(cx, p):
    a = cx.an(p)
    if a is None:
        return
    n = short(p)
    o = a.under(NONE)
    st = [b for b, i in stores(o, "revoke", r"view::Record'")]
    cx.floor("revocation marks set", len(st), 1)
    looks = [b for b in o.calls(LOOK) if field_of(o, b, 0, (".entries",))]
    cx.floor("lookups of the revoked record", len(looks), 1)
    for l in looks:
        w = o.search(found(o, l), o.rets("Ok"), avoid=st)
        cx.ob("marked", n, w is None, o.where(l), "" if w is None else "revoking an existing record succeeds without marking it: " + o.show(w))
        d = a.arg_deps(l, 1)
        rid = len(a.g.argvars) - 1
        cx.ob("marks-the-given-record", n, has_arg(d, rid), a.where(l), "the record that is revoked is not the one given")
    for b in a.calls(REMOVERS + r"|HashMap::(insert|iter_mut|values_mut)$|Extend"):
        if field_of(a, b, 0, (".entries",)) or field_of(a, b, 0, (".vaults",)):
            cx.ob("others-unaffected", n, False, a.where(b), "revoking touches other records")
    for f in ("blob", "data", "id"):
        for b, i in stores(a, f, r"view::Record'"):
            cx.ob("others-unaffected", n, False, a.where(b), "revoking changes the %s of a record" % f)


def collectors(a):
    return [b for b in a.calls(r"Iterator(>)?::(filter|partition|filter_map)$|HashMap::(retain|extract_if)$|HashMap::(iter|iter_mut)$") if entries_iter(a, b)]


def entries_iter(a, b):
    return ".entries" in show(a.arg_term(b, 0))


def collect(cx, p):
    a = cx.an(p)
    if a is None:
        return
    n = short(p)
    removes = [b for b in a.calls(REMOVERS) if field_of(a, b, 0, (".entries",)) or "OccupiedEntry" in a.call(b).path]
    cx.floor("removals in " + n, len(removes), 1)
    for r in removes:
        m = a.call(r).path.rsplit("::", 1)[1]
        if m in ("clear", "drain"):
            cx.ob("removes-only-revoked", n, False, a.where(r), "collection removes all records")
            continue
        if m in ("retain", "extract_if"):
            selector(cx, a, n, r, keep=(m == "retain"))
            continue
        d = a.arg_deps(r, 1)
        fs = [v[1] for v in calls_in(d, a, r"Iterator(>)?::(filter|partition|filter_map)$") if entries_iter(a, v[1])]
        bad = calls_in(d, a, ADAPT_BAD)
        bad = [v for v in bad if not re.search(r"::next$", a.call(v[1]).path) or not loop_next(a, v[1])]
        cx.ob("removes-all-revoked", n, not bad, a.where(r), "only some of the revoked records are collected (%s)" % ", ".join(short(a.call(v[1]).path) for v in bad))
        if fs:
            for f in set(fs):
                selector(cx, a, n, f, keep=False, mapped=a.call(f).path.endswith("filter_map"))
        else:
            # explicit loop: the push / removal only happens with the mark, and always then
            pushes = [q for q in a.calls(r"Vec::push$|HashSet::insert$|VecDeque::push") if ".entries" in show(a.arg_term(q, 1))] or [r]
            o, s = a.under(NONE), a.under(SOME)
            for q in pushes:
                cx.ob("removes-only-revoked", n, o.search(o.entry(), [q]) is None, a.where(q), "a live record is selected for removal")
            its = [v for v in a.calls(r"Iterator(>)?::next$") if entries_iter(a, v) and not calls_in(a.arg_deps(v, 0), a, r"Iterator::collect$")
                   and (pushes == [r] or a.search(found(a, v), pushes, avoid=[r]))]
            for it in its:
                w = s.search(found(s, it), [it] + s.rets(), avoid=pushes)
                cx.ob("removes-all-revoked", n, w is None, a.where(it), "a revoked record is not selected for removal")
    cols = collectors(a)
    for c in a.calls(CMP):
        if ".key" in show(a.arg_term(c, 0)) + show(a.arg_term(c, 1)) and ".vaults" in show(a.arg_term(c, 0)) + show(a.arg_term(c, 1)) and a.search(a.after(c), cols):
            ne = (a.call(c).tpath or a.call(c).path).endswith("::ne")
            w = a.search(a.e.seed(c, {(): "0" if ne else "1"}), a.rets(), avoid=cols)
            cx.ob("collects", n, w is None, a.where(c), "" if w is None else "collection with the right key does nothing: " + a.show(w))
    # the vault collected is the one named
    for l in a.calls(r"hash::map::HashMap::get_mut$"):
        if field_of(a, l, 0, (".vaults",)):
            d = a.arg_deps(l, 1)
            cx.ob("collects-the-given-vault", n, any(v[0] == "arg" for v in d), a.where(l), "the vault that is collected is not the one given")


def loop_next(a, b):
    return a.search(a.after(b), [b]) is not None


def selector(cx, a, n, f, keep, mapped=False):
    bodies = cb_bodies(a, f)
    cx.ob("selector", n, bool(bodies), a.where(f), "the selection of the records to remove is not analysable")
    for body in bodies:
        c = cx.an(body)
        s, o = ret_tags(c.under(SOME)), ret_tags(c.under(NONE))
        yes, no = ("VSome", "VNone") if mapped else ("1", "0")
        if keep:
            yes, no = no, yes
        cx.ob("removes-all-revoked", n, s <= {yes}, a.where(f), "collection leaves revoked records in place")
        cx.ob("removes-only-revoked", n, o <= {no}, a.where(f), "collection removes records that are not revoked")
