"""P09: a vault is only touched with its own key."""
from .common import *

TECHNIQUE = "must-precede / branch-feasibility analysis of the vault key comparison against every change and decryption on the inlined MIR flow graph, with provenance of the compared keys"
EXPLANATION = ("Every public operation of the vault database that takes a key is inlined. Each change of a vault's entries and each encryption or decryption of one of its records is an obligation: on every path "
               "it is preceded by a comparison of the caller's key with the key stored in that same vault, it is unreachable from the unequal outcome, and a fallible operation does not succeed after it. "
               "The key of a vault is only set when the vault is created, and creating never replaces an existing vault. The key comparison itself compares the whole guarded buffers.")
ASSUMPTIONS = ["Buffer equality compares the full contents (decided under P28)"]
NOTE = "All paths through engine::vault::view; keys of imported records are checked against the target vault, their decryption with the key of their origin is outside the target."

TOUCH = r"hash::map::(HashMap|Entry|OccupiedEntry|VacantEntry)::(insert|remove|remove_entry|retain|clear|drain|or_insert\w*|entry|insert_entry)$|Extend>::extend\w*$|HashMap as .*Extend"
LOOK = r"hash::map::HashMap::(get|get_mut|iter|iter_mut|values|values_mut|entry)$"
OPEN = r"Aead(>)?::(try_decrypt|decrypt)$"
SEAL = r"Aead(>)?::(try_encrypt|encrypt)$"


def key_args(a):
    out = []
    for i, v in enumerate(a.g.argvars):
        if "crypto_box::Key'" in str(a.g.vars[v][2]):
            out.append(i)
    return out


def key_cmps(a, ks):
    """(block, vault lookups on the vault side, key argument deps) of comparisons between a given key and a vault's key"""
    out = []
    for b in a.calls(CMP):
        c = a.call(b)
        if not c.ext and not re.search(r"crypto_box::Key|Buffer|RefEq|<&A", c.path):
            continue
        if len(c.args) < 2:
            continue
        ds = [a.arg_deps(b, i) for i in (0, 1)]
        ts = [show(a.arg_term(b, i)) for i in (0, 1)]
        for x, y in ((0, 1), (1, 0)):
            if any(has_arg(ds[x], k) for k in ks) and has_arg(ds[y], 0) and ".key" in ts[y] and ".vaults" in ts[y] and ".vaults" not in ts[x]:
                out.append((b, dep_blks(ds[y]), a.arg_term(b, x), a.arg_term(b, y)))
    return out


def check(cx):
    prog = cx.prog
    roots = []
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if re.match(r"engine::vault::view::DbView::\w+$", p) and b.local and b.pub and b.argc >= 2:
            if any("crypto_box::Key'" in str(b.locals[1 + i]) for i in range(b.argc)):
                roots.append(p)
    cx.floor("vault operations that take a key", len(roots), 8)
    nev = 0
    for p in roots:
        n = short(p)
        if p.endswith("::init_vault"):
            a = cx.an(p)
            creates(cx, a, n)
            continue
        a = cx.an(p)
        ks = key_args(a)
        cmps = key_cmps(a, ks)
        events = []
        for b in a.calls(TOUCH, ext=True):
            if field_of(a, b, 0, (".entries",)) and has_arg(a.arg_deps(b, 0), 0):
                events.append((b, "change of the entries"))
            elif field_of(a, b, 0, (".vaults",)):
                creates(cx, a, n, b)
        for b in a.calls(OPEN, ext=True):
            if ".vaults" in show(a.arg_term(b, 3)):
                events.append((b, "decryption of a record"))
        for b in a.calls(SEAL, ext=True):
            if not a.search(a.entry(), [b]):
                continue
            # sealing of something that ends up in the vault, under the caller's key
            if any(has_arg(a.arg_deps(b, 0), k) for k in ks) and not re.search(r"import", p):
                events.append((b, "encryption of a record"))
        for f in ("revoke", "blob", "data"):
            for b, i in stores(a, f, r"view::Record'"):
                if re.search(r"import", p):
                    continue
                st = a.g.blocks[b].stmts
                events.append((b, "change of a record"))
        nev += len(events)
        cx.ob("has-touching-step", n, bool(events), "", "no step that touches the vault was found in %s" % n)
        cb = [c[0] for c in cmps]
        for b, what in events:
            kk = n + ":" + what
            ok = must_precede(cx, a, "checked-before", kk, cb, [b], what + " without comparing the given key with the vault's key")
            if not ok:
                continue
            w = a.search(a.after(b), [b], avoid=cb)
            if w is not None and per_item(a, ks):
                cx.ob("checked-each", kk, False, a.where(b), what + " for a further record without comparing its key: " + a.show(w))
            for c, look, kt, vt in cmps:
                if not a.search(a.after(c), [b]):
                    continue
                w = a.search(unequal(a, c), [b], avoid=[x for x in cb if x != c])
                cx.ob("refused", kk, w is None, a.where(b), "" if w is None else "%s although the keys differ: %s" % (what, a.show(w)))
        for c, look, kt, vt in cmps:
            if a.result_kind_ret() == "Result":
                w = a.search(unequal(a, c), a.rets("Ok"))
                cx.ob("wrong-key-fails", n, w is None, a.where(c), "" if w is None else "the operation succeeds although the key is not the vault's: " + a.show(w))
    cx.floor("touching steps", nev, 12)
    key_equality(cx)
    key_field(cx)


def per_item(a, ks):
    return any("'array'" in str(a.g.vars[a.g.argvars[k]][2]) or "Vec" in str(a.g.vars[a.g.argvars[k]][2]) for k in ks)


def creates(cx, a, n, b=None):
    """a vault is only inserted when there is none under that id"""
    if b is None:
        l = [x for x in a.calls(TOUCH, ext=True) if field_of(a, x, 0, (".vaults",)) or "Entry" in a.call(x).path]
        cx.floor("vault creation steps in " + n, len(l), 1)
    else:
        l = [b]
    for x in l:
        p = a.call(x).path
        if p.endswith("HashMap::insert"):
            cont = [c for c in a.calls(r"HashMap::(contains_key|get|get_mut)$") if field_of(a, c, 0, (".vaults",))]
            ok = False
            for c in cont:
                tags = {(): "1"} if a.call(c).path.endswith("contains_key") else {(): "VSome"}
                if a.arg_term(c, 1) == a.arg_term(x, 1) and not a.search(a.entry(), [x], avoid=[c]) and not a.search(a.e.seed(c, tags), [x], avoid=[c]):
                    ok = True
            cx.ob("no-replacement", n, ok, a.where(x), "an existing vault can be replaced, with another key")
        elif re.search(r"remove|clear|retain|drain", p):
            cx.ob("no-removal", n, False, a.where(x), "a whole vault is dropped by an operation on its records")


def key_equality(cx):
    a = cx.an("<engine::vault::crypto_box::Key as core::cmp::PartialEq>::eq")
    if a is None:
        return
    l = []
    for b in a.calls(CMP):
        d0, d1 = show(a.arg_term(b, 0)), show(a.arg_term(b, 1))
        if ".key" in d0 and ".key" in d1 and "arg0" in d0 + d1 and "arg1" in d0 + d1 and re.search("Buffer", a.call(b).path):
            l.append(b)
    cx.floor("buffer comparisons in Key::eq", len(l), 1)
    for b in l:
        bad = False
        for r in a.search(unequal(a, b), a.rets()) or []:
            pass
        cx.ob("unequal-keys", "Key::eq", not returns_true(a, unequal(a, b)), a.where(b), "keys with different bytes can compare equal")
    must_precede(cx, a, "equal-needs-comparison", "Key::eq", l, true_rets(a), "keys compare equal without comparing their bytes")


def true_rets(a):
    return [("n", i) for i in a.e.ret_nodes("1")]


def returns_true(a, starts):
    return a.search(starts, [("n", i) for i in a.e.ret_nodes("1")]) is not None


def key_field(cx):
    """the stored key of a vault is only set when the vault is made"""
    a = cx.an("engine::vault::view::Vault::init_vault")
    if a is None:
        return
    t = ret_deps_cut(a, (".key",), r"^$")
    cx.ob("creation-key", "Vault::init_vault", has_arg(t, 0), "", "a new vault is not bound to the key it is created with")
    # no assignment to Vault.key anywhere
    k = 0
    for b in local_bodies(cx.prog, ("engine", "iota_stronghold")):
        if b.crate.name != "engine" or "vault::view" not in b.path:
            continue
        g = cx.an(b)
        k += 1
        for blk, i in stores(g, "key", r"vault::view::Vault'"):
            cx.ob("key-never-replaced", short(b.path), False, g.where(blk), "the key of an existing vault is overwritten")
    cx.count("functions scanned for key assignments", k)
