"""P30: keys and records are kept encrypted between operations, each bound to its own identity."""
from .common import *
from .p19 import chain
from ..framework import RuntimeOpaque
from .. import ir

TECHNIQUE = "information-flow analysis from plaintext to long-lived state with encryption as the only declassifier, plus agreement of the associated data at every seal and open, on the inlined MIR flow graph"
EXPLANATION = ("Every public operation of the vault database, the key store and the snapshot that encrypts or decrypts is inlined down to the provider's seal and open (for client states: the snapshot format's write and read). Whatever reaches the operation's long-lived object - by assignment, "
               "as part of a stored record, or through a container operation - must not depend on decrypted data or on the data being encrypted except through the encryption. For every seal, the associated data must be the whole identity of what is stored: the record's id, or the record's random "
               "content id that is itself encrypted in the record's metadata, or the vault id the key is filed under; and every open of the same part uses the same kind of identity, taken from the same record or lookup. The provider passes the associated data on to the cipher unchanged. "
               "The types reachable from the client state hold keys only as ciphertext, as the vault's guarded comparison copy, or in split memory.")
ASSUMPTIONS = ["the AEAD authenticates its associated data", "guarded and split memory protect what is in them (P03 - P05)", "values of the unencrypted store are not secrets (documented)"]
NOTE = "DbView, KeyStore, Snapshot and Provider; the plaintext snapshot state during a load or save is local to the operation."

SEAL = r"BoxProvider>::box_seal$"
OPEN = r"BoxProvider>::box_open$"
SWRITE = r"snapshot::logic::write(_to)?$"
SREAD = r"snapshot::logic::read(_from)?$"
SHIELD = r"Buffer(>)?::(alloc|from)$|NonContiguousMemory::alloc$|buffer::Buffer as |crypto_box::(Key|NCKey)::(load|random)$"
V = "engine::vault::"
BYTES = r"\('prim', 'u8'\)|String|str'"


class AtRest(RuntimeOpaque):
    def opaque(self, b):
        return RuntimeOpaque.opaque(self, b) or bool(re.search(SEAL + "|" + OPEN + "|" + SWRITE + "|" + SREAD, b.path))


def ids(prog):
    """field names whose type identifies a record / vault / client, and those that identify a content"""
    out = {"id": set(), "blob": set()}
    for p, ad in prog.adts.items():
        if not p.startswith(("engine::", "iota_stronghold::")):
            continue
        for v in ad["variants"]:
            for f in v["f"]:
                t = f["t"]
                if t[0] == "adt" and re.search(r"::(ChainId|RecordId|VaultId|ClientId)$", t[1]) and not f["n"].isdigit():
                    out["id"].add(f["n"])
                if t[0] == "adt" and t[1].endswith("::BlobId") and not f["n"].isdigit():
                    out["blob"].add(f["n"])
    return out


def last(path):
    n = [x for x in path if isinstance(x, str) and x.startswith(".") and not x[1:].isdigit()]
    return n[-1][1:] if n else None


class Classes:
    """what kind of identity a value is"""
    def __init__(self, a, names):
        self.a, self.names = a, names

    def arg_ty(self, i):
        t = self.a.g.vars[self.a.g.argvars[i]][2]
        while t[0] == "ref":
            t = t[1]
        return t

    def of(self, v, depth=0):
        a = self.a
        path = v[2] if len(v) > 2 and isinstance(v[2], tuple) else v[3] if len(v) > 3 and isinstance(v[3], tuple) else ()
        f = last(path)
        if f in self.names["id"]:
            return "id"
        if f in self.names["blob"]:
            return "blob"
        if v[0] == "mut" or v[0] == "call":
            c = a.call(v[1])
            if is_rng(c.path):
                return "fresh"
            if re.search(r"Iterator(>)?::next$|HashMap::(remove_entry|get_key_value)$|Map as .*::(next|into_iter|iter)$", c.path or "") and [x for x in path if x.startswith(".")][:2] == [".0", ".0"]:
                return "id"
            if v[0] == "call" and f is None and c.dest is not None:
                return self.ty(self.strip(a.g.ty_of_place(c.dest)))
        if v[0] == "arg":
            t = self.arg_ty(v[1])
            if t[0] in ("tuple", "array"):
                return "id" if re.search(r"::(ChainId|RecordId|VaultId|ClientId)'", str(t)) else None
            k = self.ty(t)
            if k is None and re.search(r"::(ChainId|RecordId|VaultId|ClientId)'", str(t)):
                ks = [x for x in path if x.startswith(".") or x == "[]"]
                return "id" if ks[:2] == ["[]", ".0"] else None
            return k
        if v[0] == "cb":
            return "id" if v[4][:1] == (".0",) or v[4] == () else None
        if v[0] in ("ptr", "init") and v[1][0] == "o" and depth < 5:
            return self.of(v[1][1], depth + 1)
        return None

    def strip(self, t):
        while t[0] == "ref" or t[0] == "adt" and re.search(r"::(Option|Result)$", t[1]):
            t = t[1] if t[0] == "ref" else t[2][0]
        return t

    def ty(self, t):
        if t[0] == "adt" and re.search(r"::(ChainId|RecordId|VaultId|ClientId)$", t[1]):
            return "id"
        if t[0] == "adt" and t[1].endswith("::BlobId"):
            return "blob"
        return None


def byte_arg(a, i):
    t = str(a.g.vars[a.g.argvars[i]][2])
    return bool(re.search(BYTES, t)) and not re.search(r"Id'|Hint'|Location'", t) or "Key'" in t


def sources(a):
    """(decrypting calls, arguments that hold plaintext)"""
    opens = set(a.calls(OPEN + "|" + SREAD))
    args = set()
    for b in a.calls(SEAL):
        for v in a.arg_deps(b, 2, cutter(a, OPEN + "|" + SEAL)):
            if v[0] == "arg" and byte_arg(a, v[1]):
                args.add(v[1])
            if v[0] in ("ptr", "init") and chain(v)[0][0] == "arg" and byte_arg(a, chain(v)[0][1]):
                args.add(chain(v)[0][1])
    for b in a.calls(SWRITE):
        for v in a.arg_deps(b, 0, cutter(a, OPEN + "|" + SEAL)):
            if v[0] == "arg" and v[1]:
                args.add((v[1], v[2][:1]))
    args = {x if isinstance(x, tuple) else (x, ()) for x in args}
    return opens, {x for x in args if x[0] != 0}


def tainted(a, deps, opens, args):
    for v in deps:
        if v[0] in ("call", "mut") and v[1] in opens:
            return "decrypted data"
        if v[0] == "arg" and any(v[1] == i and (v[2][:len(q)] == q or q[:len(v[2])] == v[2]) for i, q in args):
            return "the plaintext argument"
        if v[0] in ("ptr", "init"):
            r, ch = chain(v)
            if r[0] in ("call", "mut") and r[1] in opens:
                return "decrypted data"
            if r[0] == "arg" and any(r[1] == i for i, q in args):
                return "the plaintext argument"
    return None


PURE = r"cmp::\w+::\w+$|(::|^)(get|get_mut|contains_key|contains|iter|iter_mut|len|is_empty|keys|values|values_mut|borrow|deref|deref_mut|remove|box_seal|box_open|random|clone|next|into_iter|as_ref|as_mut|entry|as_\w+|fmt|index|index_mut|hash|eq|unwrap\w*|expect|retain)$|KeyStore::\w+$|DbView::\w+$"


STEP = r"::(get_mut|entry|or_insert\w*|or_default|values_mut|iter_mut|next|into_iter|unwrap\w*|expect|as_mut|insert_entry|into_mut|last_mut|first_mut|index_mut|and_modify|filter|map|lock|write|borrow_mut|deref_mut)$"


def mine(a, v, depth=0):
    """does this pointer lead into the object the operation works on, lookups included"""
    r, _ = chain(v)
    if r == ("arg", 0):
        return True
    if depth > 6:
        return False
    if r[0] == "v":
        return False
    if r[0] in ("call", "cb", "mut"):
        c = a.call(r[1])
        if r[0] == "cb" or re.search(STEP, c.path or ""):
            return bool(c.args) and any(w[0] in ("ptr", "init", "arg", "call", "cb", "mut") and mine(a, w, depth + 1) for w in a.arg_vals(r[1], 0))
    return False


def split(a, b, i):
    """the parts of a tuple argument that hold client secrets (the unencrypted store is none)"""
    out = set()
    for v in a.raw_vals(b, i) if hasattr(a, "raw_vals") else ():
        if v[0] != "agg":
            return None
        st = a.g.blocks[v[1]].stmts[v[2]]
        if st[2][1][0] != "tuple":
            return None
        for o in st[2][3]:
            if not re.search(r"storage::cache::Cache'|types::store::Store'", str(a.g.ty_of_op(o))[:80]):
                out |= set(a.f._deep(v[1], v[2], o))
    return out or None


def sinks(a):
    """(block, description, values) of everything written into the object the operation works on"""
    for bl in a.g.blocks:
        if bl.id not in a.e.reached:
            continue
        for i, st in enumerate(bl.stmts):
            if st[0] != "=" or not st[1][1] or "*" not in st[1][1]:
                continue
            if not any(v[0] == "o" and mine(a, ("ptr", v, p)) for v, p in a.f.resolve(bl.id, i, st[1])):
                continue
            t = a.g.ty_of_place(st[1])
            yield bl.id, last_named(st[1]) or "object", a.f._deep(bl.id, i, st[2][1]) if st[2][0] == "use" else agg_vals(a, bl.id, i, st[2]), t
        c = bl.call
        if bl.kind == "call" and c is not None and c.ext and len(c.args) > 1 and not re.search(PURE, c.path or ""):
            if any(v[0] in ("ptr", "init", "arg", "call", "cb", "mut") and mine(a, v) for v in a.arg_vals(bl.id, 0)):
                vals = set()
                for i in range(1, len(c.args)):
                    if re.search(r"::(ChainId|RecordId|VaultId|ClientId|BlobId)'", str(a.g.ty_of_op(c.args[i]))[:80]):
                        continue      # an identity, not content
                    parts = split(a, bl.id, i)
                    vals |= parts if parts is not None else set(a.arg_content(bl.id, i)) | set(deep_of(a, bl.id, a.arg_vals(bl.id, i)))
                yield bl.id, (c.path or "").rsplit("::", 1)[-1], vals, None


def last_named(pl):
    n = [e[1] for e in pl[1] if isinstance(e, tuple) and e[0] == "f" and not e[1].isdigit()]
    return n[-1] if n else None


def agg_vals(a, b, i, rv):
    out = set()
    if rv[0] == "agg":
        for o in rv[3]:
            out |= set(a.f._deep(b, i, o))
    return out


def record_fields(prog):
    """the parts of a record that hold bytes"""
    ad = prog.adts.get(V + "view::Record")
    out = set()
    for f in (ad["variants"][0]["f"] if ad else []):
        if re.search(r"Sealed|Vec'", str(f["t"])):
            out.add(f["n"])
    return out


def sealed_into(a, fields, ty=r"view::Record'?"):
    """field -> seals stored in it"""
    out = {}
    cut = cutter(a, SEAL + "|" + OPEN)

    def add(f, vals):
        d = a.f.deps(set(vals), cut) | set(vals)
        out.setdefault(f, set()).update(v[1] for v in d if v[0] in ("call", "mut") and re.search(SEAL, a.call(v[1]).path or ""))
    for bl in a.g.blocks:
        if bl.id not in a.e.reached:
            continue
        for i, st in enumerate(bl.stmts):
            if st[0] != "=":
                continue
            if st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] == V + "view::Record":
                for n, o in zip(st[2][2], st[2][3]):
                    if n in fields:
                        add(n, a.f._deep(bl.id, i, o))
            elif st[1][1] and isinstance(st[1][1][-1], tuple) and st[1][1][-1][0] == "f" and st[1][1][-1][1] in fields and a.g.ty_of_place((st[1][0], st[1][1][:-1]))[:2] == ("adt", V + "view::Record"):
                add(st[1][1][-1][1], a.f._deep(bl.id, i, st[2][1]) if st[2][0] == "use" else agg_vals(a, bl.id, i, st[2]))
        # a part that is put into its place by Option::replace and the like
        if bl.kind == "call" and bl.call and re.search(r"Option(<.*>)?::(replace|insert)$|mem::replace$", bl.call.path or "") and len(bl.call.args) > 1:
            for v in a.arg_vals(bl.id, 0):
                if v[0] == "ptr" and v[2] and str(v[2][-1]).lstrip(".") in fields:
                    add(str(v[2][-1]).lstrip("."), a.f._deep(bl.id, len(bl.stmts), bl.call.args[1]))
    return out


def aad(a, cl, b):
    vs = a.arg_content(b, 1)
    return {cl.of(v) for v in vs}, vs


def records(cx, names):
    prog = cx.prog
    fields = record_fields(prog)
    cx.ob("layout", "Record", len(fields) >= 2, "", "records hold their parts as bytes")
    used = {}
    n = 0
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if not (re.match(r"engine::vault::view::(DbView|Vault|Record)::\w+$", p) and b.pub and b.local):
            continue
        a = cx.an(p, AtRest())
        sl, op = a.calls(SEAL), a.calls(OPEN)
        if not sl and not op:
            continue
        n += 1
        k = short(p)
        cl = Classes(a, names)
        opens, args = sources(a)
        into = sealed_into(a, fields)
        flows(cx, a, k, opens, args)
        for f in sorted(into):
            for s in sorted(into[f]):
                kinds, vs = aad(a, cl, s)
                ok = bool(kinds) and None not in kinds and whole(a, s, 1)
                cx.ob("bound", "%s:%s" % (k, f), ok, a.where(s), "" if ok else "the associated data is not the identity of the record")
                ks = {"blob" if x == "fresh" else x for x in kinds}
                used.setdefault(f, {}).setdefault(frozenset(ks), []).append((k, a.where(s)))
                if "fresh" in kinds:
                    # the content id must itself be kept, encrypted, in the record
                    fresh = {v[1] for v in vs if v[0] in ("mut", "call")}
                    others = [x for g2 in into for x in into[g2] if g2 != f]
                    kept_ = [x for x in others if fresh & dep_blks(a.arg_deps(x, 2, cutter(a, SEAL)))]
                    cx.ob("content-id", "%s:%s" % (k, f), bool(kept_), a.where(s), "the random content id is not kept in the encrypted part of the record")
        stray = [s for s in sl if not any(s in x for x in into.values())]
        cx.ob("kept", k, not stray, a.where(stray[0]) if stray else "", "something is encrypted that is not stored in a record")
        for o in op:
            fs = {f for v in a.arg_content(o, 2) for f in [last(v[2] if len(v) > 2 and isinstance(v[2], tuple) else ())] if f in fields}
            for f in sorted(fs):
                kinds, vs = aad(a, cl, o)
                ok = bool(kinds) and None not in kinds and "fresh" not in kinds and whole(a, o, 1)
                cx.ob("bound", "%s:open %s" % (k, f), ok, a.where(o), "" if ok else "the associated data is not the identity of the record")
                used.setdefault(f, {}).setdefault(frozenset(kinds), []).append((k, a.where(o)))
    for f in sorted(used):
        ks = used[f]
        common = max(ks, key=lambda x: len(ks[x]))
        for kinds, where in sorted(ks.items(), key=str):
            for k, w in where:
                cx.ob("agrees", "%s:%s" % (k, f), kinds == common, w, "the associated data of this part is of another kind than elsewhere")
    cx.floor("vault operations that encrypt or decrypt", n, 6)
    cx.floor("parts of a record", len(used), 2)


def flows(cx, a, k, opens, args):
    rx = re.compile(SEAL + "|" + SWRITE + "|" + SHIELD + r"|::len$|KeyStore::(insert_key|get_or_insert_key|create_key|take_key|get_key)$")

    def cut(c, v):
        if rx.search(c.path or ""):
            return ()
        ks = [x for x in v[2] if isinstance(x, str) and x.startswith(".")] if v[0] == "call" and len(v) > 2 else []
        if (c.path or "").endswith("::next") and ks[:2] == [".0", ".0"]:
            return ()      # the key of a map entry
        return None
    m = 0
    for b, what, vals, t in sinks(a):
        m += 1
        d = a.f.deps(set(vals), cut) | set(vals)
        why = tainted(a, d, opens, args)
        cx.ob("encrypted", "%s:%s" % (k, what), why is None, a.where(b), "" if why is None else "%s is kept without encryption" % why)
    return m


def keys(cx, names):
    prog = cx.prog
    T = "iota_stronghold::security::keystore::KeyStore"
    n = 0
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if not (p.startswith(T + "::") and b.local and b.pub):
            continue
        a = cx.an(p, AtRest())
        sl, op = a.calls(SEAL), a.calls(OPEN)
        if not sl and not op:
            continue
        n += 1
        k = short(p)
        cl = Classes(a, names)
        opens, args = sources(a)
        flows(cx, a, k, opens, args)
        ins = a.calls(r"HashMap::insert$|(Vacant|Occupied)?Entry::(insert\w*|or_insert\w*)$")
        for s in sl:
            kinds, vs = aad(a, cl, s)
            ok = kinds == {"id"} and whole(a, s, 1)
            cx.ob("bound", k + ":seal", ok, a.where(s), "" if ok else "the associated data of a key is not the id of its vault")
            filed = [i for i in ins if s in dep_blks(a.arg_deps(i, len(a.call(i).args) - 1, cutter(a, SEAL)))]
            cx.ob("kept", k + ":seal", bool(filed), a.where(s), "the encrypted key is not filed")
            for i in filed:
                if len(a.call(i).args) > 2:
                    same_ = roots(a, a.arg_content(i, 1)) == roots(a, vs)
                else:
                    same_ = True
                cx.ob("own-id", k + ":seal", same_, a.where(i), "the key is filed under another id than it is bound to")
        for o in op:
            kinds, vs = aad(a, cl, o)
            ok = kinds == {"id"} and whole(a, o, 1)
            cx.ob("bound", k + ":open", ok, a.where(o), "" if ok else "the associated data of a key is not the id of its vault")
            src = dep_blks(a.arg_deps(o, 2, cutter(a, SEAL + "|HashMap::(get|get_mut|remove|remove_entry|get_key_value)$|Iterator(>)?::next$")))
            got = [x for x in src if re.search(r"HashMap::(get|get_mut|remove|remove_entry|get_key_value)$", a.call(x).path or "")]
            for x in got:
                cx.ob("own-id", k + ":open", roots(a, a.arg_content(x, 1)) == roots(a, vs), a.where(o), "a key is opened with another id than it was looked up with")
    cx.floor("key store operations that encrypt or decrypt", n, 4)


def roots(a, vs):
    """where the values come from, newtype layers aside"""
    out = set()
    for v in vs:
        ch = ()
        while v[0] in ("ptr", "init") and v[1][0] == "o":
            ch = tuple(x for x in v[2] if x.startswith(".") and not x[1:].isdigit()) + ch
            v = v[1][1]
            if v[0] == "obj":
                v = v[1]
        path = v[4] if v[0] == "cb" else v[2] if len(v) > 2 and isinstance(v[2], tuple) else ()
        ks = tuple(x for x in path if isinstance(x, str) and x.startswith("."))
        if v[0] in ("call", "mut", "cb"):
            out.add((v[0], v[1], ks[:2] if re.search(r"next$", a.call(v[1]).path or "") or v[0] == "cb" else (), ch))
        elif v[0] == "arg":
            out.add(("arg", v[1], tuple(x for x in ks if not x[1:].isdigit()) + ch))
        else:
            out.add(v)
    return out


def states(cx, names):
    prog = cx.prog
    T = "iota_stronghold::types::snapshot::Snapshot"
    n = 0
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if not (p.startswith(T + "::") and b.local and b.pub and b.argc and b.locals[1][0] == "ref" and b.locals[1][2]):
            continue
        a = cx.an(p, Coarse30())
        opens, args = sources(a)
        w = a.calls(SWRITE)
        if not (w or opens or args):
            continue
        k = short(p)
        n += 1
        flows(cx, a, k, opens, args)
        for s in w:
            # the key the state is written with is filed under the same client
            if a.call(s).path.endswith("write_to"):
                continue
            st = [i for i in a.calls(r"HashMap::insert$") if s in dep_blks(a.arg_deps(i, 2, cutter(a, SWRITE)))]
            ks = [i for i in a.calls(r"KeyStore::(insert_key|get_or_insert_key)$")]
            for i in st:
                ok = any(idroot(a, i, 1) & idroot(a, j, 1) for j in ks)
                cx.ob("own-key", k, ok, a.where(i), "a client's state is not filed together with a key of its own")
    cx.floor("snapshot operations that change it", n, 1)


class Coarse30(Coarse):
    def opaque(self, b):
        return Coarse.opaque(self, b) or bool(re.search(r"KeyStore::\w+$|DbView::\w+$|" + SWRITE + "|" + SREAD, b.path))


def idroot(a, b, i):
    out = set()
    for v in a.arg_deps(b, i):
        if v[0] == "arg" and v[1]:
            out.add(v[1])
        elif v[0] in ("cb", "call", "mut") and re.search(r"::next$", a.call(v[1]).path or ""):
            out.add(("next", v[1]))
    return out


def provider(cx):
    """the provider hands the associated data to the cipher"""
    prog = cx.prog
    n = 0
    for e in prog.impl_by_trait.get("engine::vault::crypto_box::BoxProvider", []):
        for it in e["items"]:
            if it["n"] not in ("box_seal", "box_open"):
                continue
            b = prog.bodies.get(it["u"])
            if b is None:
                continue
            a = cx.an(b)
            for c in a.calls(r"Aead(>)?::(try_encrypt|encrypt|try_decrypt|decrypt)$"):
                n += 1
                i = aad_arg(a, c)
                vs = a.arg_vals(c, i)
                ok = bool(vs) and all(v[0] in ("arg", "ptr", "init") and chain(v)[0] == ("arg", 1) for v in vs) and whole(a, c, i)
                cx.ob("passed-on", short(b.path), ok, a.where(c), "" if ok else "the cipher does not get the associated data of the operation")
    cx.floor("cipher calls of the provider", n, 2)


def aad_arg(a, c):
    return 2


def types(cx):
    """keys in the long-lived types"""
    prog = cx.prog
    start = ["iota_stronghold::types::client::Client", "iota_stronghold::types::snapshot::Snapshot", "iota_stronghold::types::stronghold::Stronghold", V + "view::DbView", "iota_stronghold::security::keystore::KeyStore"]
    seen, work = set(), [(p, p.rsplit("::", 1)[-1]) for p in start if p in prog.adts]
    cx.floor("long-lived types", len(work), 3)
    while work:
        p, path = work.pop()
        if p in seen:
            continue
        seen.add(p)
        if not p.startswith(("iota_stronghold::", "engine::")):
            continue
        if re.search(r"crypto_box::(Key|NCKey)$", p):
            continue
        for v in prog.adts[p]["variants"]:
            for f in v["f"]:
                s = str(f["t"])
                here = "%s.%s" % (p.rsplit("::", 1)[-1], f["n"])
                bare = re.search(r"crypto_box::Key'|memories::buffer::Buffer'|boxed::Boxed'|Zeroizing'|SecretKey'|Keypair'|snapshot::logic::Key'", s)
                ok = not bare or p == V + "view::Vault"
                cx.ob("no-key", here, ok, p, "" if ok else "a key or secret is kept unencrypted in a long-lived object")
                for q in re.findall(r"'((?:iota_stronghold|engine)::[\w:]+)'", s):
                    if q in prog.adts:
                        work.append((q, here))


def check(cx):
    names = ids(cx.prog)
    records(cx, names)
    keys(cx, names)
    states(cx, names)
    provider(cx)
    types(cx)
