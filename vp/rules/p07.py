"""P07: a failing vault operation never loses the vault's key."""
from .common import *

TECHNIQUE = "typestate of the client's key store (key taken out / put back) on every path of every public operation, with provenance of the key and of its identifier"
EXPLANATION = ("Every public operation of client, vault, store, snapshot and stronghold and of the procedure runner is inlined into one flow graph. Each point at which a key that was removed from a "
               "key store has been decrypted starts an obligation: every path from there to a return of the operation passes an insertion into the same key store, under the same vault id, of a value "
               "derived from the removed entry. In addition, creating or inserting a key never replaces the key an existing vault already has, and the key store's entry is only replaced by "
               "rebuilding it as a whole.")
ASSUMPTIONS = ["a panic aborts the process (release profile), so unwinding paths do not return to a caller with the key missing",
               "an entry of the key store that cannot be decrypted is lost by definition"]
NOTE = "All paths of the analysed operations; engine and procedure failures are the failure edges of the calls between taking the key out and putting it back."

REMOVE = r"hash::map::HashMap::(remove|remove_entry)$"
GET = r"hash::map::HashMap::(get|get_mut|get_key_value)$|hash::map::Entry|Option::(cloned|copied)$"
CUT = r"hash::map::HashMap::(get|get_mut|contains_key|entry|iter|iter_mut|into_iter|values|keys|get_key_value)$"
INSERT = r"hash::map::HashMap::insert$"
ALLOC = r"memories::buffer::Buffer::alloc$"


def check(cx):
    ops = public_ops(cx.prog)
    cx.floor("public operations analysed", len(ops), 40)
    taken = used = 0
    for p in ops:
        a = cx.an(p)
        removes = [b for b in a.calls(REMOVE) if field_of(a, b, 0, (".store",)) and keystore_map(a, b)]
        gets = [b for b in a.calls(r"hash::map::HashMap::get$") if field_of(a, b, 0, (".store",)) and keystore_map(a, b)]
        used += 1 if removes or gets else 0
        inserts = [b for b in a.calls(INSERT) if field_of(a, b, 0, (".store",)) and keystore_map(a, b)]
        allocs = a.calls(ALLOC)
        for r in removes:
            k = a.arg_term(r, 1)
            good = []
            for i in inserts:
                d = arg_deps_cut(a, i, 2, CUT)
                if a.arg_term(i, 1) == k and any(v[0] in ("call", "mut") and v[1] == r for v in d) and same_place(a, r, i):
                    good.append(i)
            starts = []
            for al in allocs:
                if any(v[0] in ("call", "mut") and v[1] == r for v in arg_deps_cut(a, al, 0, CUT)):
                    starts += [x for x in a.after(al)]
            taken += 1
            if not starts:
                starts = a.e.seed(r, {(): "VSome"}) or a.after(r)
            w = a.search(starts, a.rets(), avoid=good)
            cx.ob("put-back", short(p), w is None, a.where(r),
                  "" if w is None else "the key taken out of the key store at %s is not put back (same vault, same key) on: %s" % (a.where(r), a.show(w)))
        if re.search(r"ClientVault::|Runner>::", p):
            for b in a.calls(r"hash::map::HashMap::(clear|retain|drain|extract_if)$|Iterator::for_each$"):
                if re.search("HashMap", a.call(b).path) and keystore_map(a, b) and field_of(a, b, 0, (".store",)):
                    cx.ob("no-wholesale-removal", short(p), False, a.where(b), "a vault operation drops keys of other vaults")
    cx.floor("operations that look up a vault key", used, 5)
    cx.count("points where a key is taken out", taken)
    existing_key_kept(cx)


def keystore_map(a, blk):
    """the map is the key store's (its values are byte vectors keyed by vault id)"""
    t = a.g.ty_of_op(a.call(blk).args[0])
    return "VaultId" in str(t)


def same_place(a, x, y):
    px = set(v for v in a.arg_vals(x, 0) if v[0] == "ptr")
    py = set(v for v in a.arg_vals(y, 0) if v[0] == "ptr")
    return bool(px & py) or not px or not py


def existing_key_kept(cx):
    """get_or_insert_key / create_key: with an entry present, the key returned and stored is the present one"""
    for n in ("create_key", "get_or_insert_key"):
        a = cx.an("iota_stronghold::security::keystore::KeyStore::" + n)
        if a is None:
            continue
        gets = a.calls(r"hash::map::HashMap::(get|get_mut|contains_key|entry)$")
        cx.floor("lookups in " + n, len(gets), 1)
        inserts = a.calls(INSERT)
        decs = [b for b in a.calls(ALLOC) if any(v[0] in ("call", "mut") and v[1] in gets for v in a.arg_deps(b, 0))]
        cx.floor("present keys decrypted in " + n, len(decs), 1)
        rng = set(secure_rngs(a))
        for d in decs:
            # once the present key has been decrypted, what is stored / returned derives from it
            for i in inserts:
                w = a.search(a.after(d), [i])
                if w is None:
                    continue
                cx.ob("present-key-stored", n, depends_after(a, i, 2, d, gets), a.where(i), "the key of an existing vault is replaced by another one")
            for g in gets:
                cx.ob("same-id", n, all(a.arg_term(g, 1) == a.arg_term(i, 1) for i in inserts), a.where(g), "the key is looked up and stored under different ids")
        v = a.f.deps(ret_deep(a, (":Ok", ".0")))
        cx.ob("present-key-returned", n, any(x[0] in ("call", "mut") and x[1] in gets for x in v), "", "an existing vault's key is not what the operation returns")


def depends_after(a, blk, i, d, gets):
    return any(v[0] in ("call", "mut") and v[1] in gets for v in a.arg_deps(blk, i))
