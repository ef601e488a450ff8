"""P24: different paths address different records, the same path always the same."""
from .common import *
from .p28 import holds_secret

TECHNIQUE = "term-level derivation check of identifiers on inlined MIR (which path bytes reach which cryptographic input, and nothing else), shape agreement of all derivation sites, and origin tracking of lookup keys"
EXPLANATION = ("Identifiers are reconstructed as terms over the path components. Every identifier must be a prefix of at least 24 bytes of a cryptographic keyed hash whose inputs are whole, unmodified path components, one per input "
               "(or a quoted rendering of the path followed by the counter), so that different components cannot produce the same input; it depends on no clock, random source, address or other state. A vault identifier depends on the vault "
               "path only, a record identifier on the vault path and the record path or counter. All derivation sites of the workspace agree on that form and pass the paths they were given, vault and record components are never exchanged, "
               "identifiers are compared as a whole, the engine looks up with the identifier it was given, and identifiers made from client ids never index a key store that also holds user vaults' keys.")
ASSUMPTIONS = ["the keyed hash (HMAC-SHA-512) has no collisions in its first 24 bytes", "the Debug rendering of a byte slice is injective and ends with a bracket"]
NOTE = "All derivation functions and all their call sites in client and bindings; all lookups of the vault engine."

MAC = r"crypto::macs::hmac::HMAC_\w+$|(Blake2b|Sha\d+|Hmac|Keccak)\w*.*::(digest|finalize|chain|mac)\w*$|Digest(>)?::(digest|finalize|update)$|blake2b::\w+$|HMAC_SHA\d+$"
LOSSY = (r"::(to_lowercase|to_uppercase|to_ascii_\w+|make_ascii_\w+|trim\w*|from_utf8_lossy|to_string_lossy|from_utf8_unchecked_lossy|strip_prefix|strip_suffix|dedup\w*|truncate|retain|pop|remove|drain|resize\w*|"
         r"len|hash|finish|get|get_mut|first|last|split\w*|rsplit\w*|chunks\w*|windows|nth|take|take_while|map_while|scan|skip|skip_while|step_by|filter|filter_map|file_name|components|sort\w*|reverse|rev|rotate_\w+|count_\w+|checksum\w*|fold|sum|max|min|xor|is_empty)$")
IMPURE = r"SystemTime::|Instant::|thread_rng|OsRng|rand::|getrandom|env::(var|args|current)|process::id|thread::current|RandomState|DefaultHasher|hash::\w*Hasher|type_name|type_id"
DERIVE = r"location::derive_(vault_id|record_id|record_id_from_counter)$"
LOAD = r"LoadFromPath(>)?::load_from_path$"
VARIABLE = re.compile(r"arg\d")


class Derive(RuntimeOpaque):
    """only the derivation helpers' callers: the derivation itself, and everything else but closures, is a boundary"""
    def opaque(self, body):
        return not ("{{closure" in body.path or body.path.startswith(("core::", "<core::", "alloc::", "<alloc::", "std::")))


def leaves(a, vals, through=None):
    """path components a value depends on: last named field of a location / argument"""
    out = set()
    for v in a.f.deps(vals, through):
        if v[0] == "arg":
            names = [x for x in v[2] if isinstance(x, str) and x.startswith(".") and not x[1:].isdigit()]
            out.add((v[1], names[-1] if names else ""))
        elif v[0] == "init":
            o = v
            while o[0] == "init" and o[1][0] == "o":
                names = [x for x in o[2] if isinstance(x, str) and x.startswith(".") and not x[1:].isdigit()]
                base = o[1][1]
                if names:
                    out.add((base[1] if base[0] == "arg" else None, names[-1]))
                    break
                o = base if base[0] in ("init", "ptr") else ("", ())
                if o[0] == "ptr":
                    o = ("init", o[1], o[2])
    # a bare argument that is only the pointer to a listed field is no leaf of its own
    named = set(n for n, f in out if f)
    return set((n, f) for n, f in out if f or n not in named)


BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128, "char": 32, "bool": 1}


def narrowed(a, d):
    """operations on numbers that map different numbers to the same one"""
    out = []
    for v in d:
        if v[0] == "op":
            rv = a.g.blocks[v[1]].stmts[v[2]][2]
            if rv[0] == "cast":
                t, u = a.g.ty_of_op(rv[2]), rv[3]
                if t[0] == u[0] == "prim" and (BITS.get(u[1], 0) < BITS.get(t[1], 0) or u[1].startswith("f")):
                    out.append((v, "narrowed to %s" % u[1]))
            elif rv[0] == "bin" and re.match(r"(Div|Rem|Shr|Shl|BitAnd|BitOr|Mul)", rv[1]):
                out.append((v, "changed by %s" % rv[1]))
        elif v[0] == "call":
            c = a.call(v[1])
            if c.ext and re.search(r"num::\S*::(wrapping|saturating|overflowing|rotate|rem_euclid|div|isqrt|ilog|abs_diff|swap|reverse|leading|trailing|count)\w*$|cmp::(Ord::)?(min|max|clamp)$|hash::\S*finish$", c.path) and not re.search(MAC, c.path):
                out.append((v, "changed by %s" % short(c.path)))
    return out


def pure_input(cx, a, key, blk, i, what):
    """argument i of a hashing call is one whole component, or the quoted path and a number"""
    d = a.arg_deps(blk, i, cutter(a, MAC + "|" + LOAD + "|" + DERIVE))
    bad = calls_in(d, a, LOSSY)
    fmt = calls_in(d, a, r"fmt::format$|fmt::rt::Argument::new_\w+$|Arguments::new\w*$")
    bad = [v for v in bad if not (fmt and re.search(r"::(len|is_empty)$", a.call(v[1]).path))]
    cx.ob("whole-path", key, not bad and whole(a, blk, i), a.where(blk), "%s is shortened or changed before it is hashed%s" % (what, " by %s" % short(a.call(bad[0][1]).path) if bad else ""))
    num_ = narrowed(a, d)
    cx.ob("whole-number", key, not num_, a.where(num_[0][0][1]) if num_ else a.where(blk), "a number in %s is %s before it is hashed: different counters can give the same record" % (what, num_[0][1] if num_ else ""))
    imp = calls_in(d, a, IMPURE) or [v for v in d if v[0] == "static"] or [v for v in d if v[0] == "ptr" and v[1][0] == "o" and v[1][1][0] == "static"]
    cx.ob("deterministic", key, not imp, a.where(blk), "%s depends on %s" % (what, short(a.call(imp[0][1]).path) if imp and imp[0][0] == "call" else "shared state"))
    disp = calls_in(d, a, r"fmt::rt::Argument::new_\w+$")
    if disp:
        for v in disp:
            n = a.call(v[1])
            t = a.g.ty_of_op(n.args[0])
            while t[0] == "ref":
                t = t[1]
            num = t[0] == "prim" and t[1] != "str"
            cx.ob("unambiguous", key, num or n.path.endswith("new_debug"), a.where(v[1]), "%s is rendered without quoting next to other components: different paths can give the same text" % what)
        return
    comp = set()
    for t in alts(a.arg_term(blk, i)):
        s = show(t)
        parts = re.findall(r"\*?arg\d+(?:[:.]\w+)*", re.sub(r"\w+::HMAC\w*\([^()]*\)", "_", s))
        comp.add(len(set(parts)))
    cc = calls_in(d, a, r"::(concat|join|extend_from_slice|extend|append|push|push_str|chain|add|write_str|write_all|write|insert_str|format)$|ops::arith::Add.*::add$")
    cx.ob("unambiguous", key, not (cc and any(n > 1 for n in comp)) and not any(n > 1 for n in comp), a.where(blk), "%s joins several components without separating them: %s" % (what, show(a.arg_term(blk, i))[:160]))


def alts(t):
    return t[1] if t[0] == "alt" else [t]


def derivation(cx, body, key, want):
    """the returned identifier: cryptographic, whole, of exactly the wanted components"""
    a = cx.an(body, NoOpaque())
    macs = a.calls(MAC, ext=True)
    cx.count("keyed hashes", len(macs))
    for m in macs:
        for i in range(len(a.call(m).args) - (1 if "HMAC" in a.call(m).path else 0)):
            t = a.g.ty_of_op(a.call(m).args[i])
            if t[0] != "ref":
                continue
            pure_input(cx, a, key, m, i, "the path")
    cut = cutter(a, "^$")
    for path, names in want:
        for v in a.ret_content(path):
            d = a.f.deps([v])
            if not has_content(a, v):
                continue
            mm = calls_in(d, a, MAC)
            cx.ob("hashed", key + "".join(path), bool(mm), body.loc, "the identifier is not the output of a cryptographic hash: %s" % show(a.f.vterm(v, 6, ()))[:120])
            got = leaves(a, [v])
            comp = set(f or n for n, f in got)
            ok = any(comp == w for w in names)
            cx.ob("components", key + "".join(path), ok, body.loc, "the identifier depends on %s, expected %s" % (sorted(map(str, comp)), " or ".join(str(sorted(map(str, w))) for w in names)))
    for x in a.calls(r"(Result|Option)(<.*>)?::(unwrap_or\w*|or|or_else|map_or\w*)$"):
        d = a.arg_deps(x, 0, cutter(a, MAC))
        cx.ob("whole-path", key + ":default", not any(v[0] == "arg" for v in d), a.where(x), "components that cannot be converted all give the same identifier")
    for x in a.calls(r"\[T\]::(split_at|split_at_mut|get|get_mut|first_chunk|split_first_chunk|chunks\w*|as_chunks)$|Index(Mut)?(<.*>)?(>)?::index(_mut)?$|Iterator(>)?::take$|::truncate$|::split_off$"):
        c = a.call(x)
        if len(c.args) < 2 or not calls_in(a.arg_deps(x, 0), a, MAC):
            continue
        t = a.g.ty_of_op(c.args[1])
        if "index" in c.path and (t[0] != "adt" or "range" not in t[1].lower()):
            continue
        ns = [n for n in (num(k) for k in consts(a.arg_deps(x, 1, cutter(a, MAC)))) if n]
        cx.ob("width", key, all(n >= 24 for n in ns) or (len(ns) == 2 and max(ns) - min(ns) >= 24), a.where(x), "only %s bytes of the hash are used" % ns)
    return a


def num(k):
    try:
        if k[0] == "int":
            return int(k[1])
    except Exception:
        pass
    return None


def has_content(a, v):
    return v[0] not in ("k",)


def check(cx):
    prog = cx.prog
    # the derivation functions
    impls = [p for p in sorted(prog.by_path) if re.search(r" as iota_stronghold::utils::ids::LoadFromPath>::load_from_path$", p)]
    cx.floor("identifier types with a derivation", len(impls), 3)
    for p in impls:
        derivation(cx, prog.by_path[p][0], short(p), [((), [{0, 1}])])
    L = "iota_stronghold::types::location::"
    for f, w in (("derive_vault_id", [{0}]), ("derive_record_id", [{0, 1}]), ("derive_record_id_from_counter", [{0, 1}])):
        b = cx.fn(L + f)
        if b:
            derivation(cx, b, f, [((), w)])
    b = cx.fn(L + "Location::resolve")
    if b:
        a = derivation(cx, b, "Location::resolve", [((".0",), [{".vault_path"}]), ((".1",), [{".vault_path", ".record_path"}, {".vault_path", ".counter"}])])
        # the same form as the separate functions
        forms = {}
        for f, path in (("derive_vault_id", (".0",)), ("derive_record_id", (".1",)), ("derive_record_id_from_counter", (".1",))):
            fb = prog.by_path.get(L + f)
            if fb:
                u = cx.an(fb[0], NoOpaque())
                forms.setdefault(path, set()).update(form(u, v) for v in u.ret_content(()))
        for path, fs in forms.items():
            for v in a.ret_content(path):
                cx.ob("same-form", "Location::resolve" + path[0], form(a, v) in fs, b.loc, "a location is resolved to another identifier than the one derived from its paths: %s" % show(a.f.vterm(v, 10, ()))[:200])
    # constructors and accessors keep vault and record path apart
    for f, fields in (("generic", {".vault_path": 0, ".record_path": 1}), ("const_generic", {".vault_path": 0, ".record_path": 1}), ("counter", {".vault_path": 0, ".counter": 1}), ("const_counter", {".vault_path": 0, ".counter": 1})):
        l = prog.by_path.get(L + "Location::" + f)
        if not l:
            continue
        a = cx.an(l[0], NoOpaque())
        var = ":Generic" if "generic" in f else ":Counter"
        for fl, n in fields.items():
            d = a.f.deps(a.ret_content((var, fl)))
            cx.ob("constructor", f + fl, has_arg(d, n) and not has_arg(d, 1 - n), l[0].loc, "the %s of the location is not the given one" % fl[1:])
            lossy(cx, a, "constructor", f + fl, d, l[0].loc)
    for f, fld in (("vault_path", ".vault_path"), ("record_path", ".record_path")):
        l = prog.by_path.get(L + "Location::" + f)
        if l:
            a = cx.an(l[0], NoOpaque())
            got = [show(a.f.vterm(v, 6, ())) for v in a.ret_content(())] or [show(a.f.vterm(v, 6, ())) for v in ret_deep(a)]
            cx.ob("accessor", f, any("Generic" + fld in s for s in got), l[0].loc, "the accessor does not return the %s of a generic location" % f)
    vault_ops(cx)
    sites(cx)
    identity(cx)
    engine(cx)
    separation(cx)


def lossy(cx, a, rule, key, d, where):
    bad = calls_in(d, a, LOSSY)
    cx.ob(rule, key + ":whole", not bad, where, "the path is changed by %s" % (short(a.call(bad[0][1]).path) if bad else ""))


def form(a, v):
    """functions and operators an identifier is made with"""
    return frozenset(re.findall(r"[\w:]+(?=\()", show(a.f.vterm(v, 16, ()))))


def vault_ops(cx):
    """a vault handle keeps the whole path it was made from, and its operations address records below that path"""
    prog = cx.prog
    p = [q for q in prog.by_path if q.endswith("types::client::Client::vault")]
    if p:
        a = cx.an(p[0], RuntimeOpaque())
        d = a.f.deps(a.ret_content((".vault_path",)))
        cx.ob("handle", "Client::vault", has_arg(d, 1), a.root.loc, "the vault handle does not hold the path it was asked for")
        lossy(cx, a, "handle", "Client::vault", d, a.root.loc)
    n = 0
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if not (b.local and b.crate.name == "iota_stronghold" and re.search(r"types::(vault::ClientVault|client::Client)::\w+$", p)) or "{{" in p:
            continue
        # locations are built here
        built = []
        a = None
        m = mentions(b)
        if not any(re.search(r"Location::(const_)?(generic|counter)$", x) for x in m) and "types::location::Location" not in str(b.blocks):
            continue
        a = cx.an(p, Derive())
        for x in a.calls(r"Location::(const_)?(generic|counter)$"):
            built.append((a.where(x), a.arg_deps(x, 0), a.arg_deps(x, 1), whole(a, x, 0) and whole(a, x, 1)))
        for bl in a.g.blocks:
            if bl.id not in a.e.reached:
                continue
            for i, st in enumerate(bl.stmts):
                if st[0] == "=" and st[2][0] == "agg" and "location::Location" in str(st[2][1]):
                    ops = list(st[2][3])
                    fs = [a.f.deps(a.f._deep(bl.id, i, o)) for o in ops]
                    if len(fs) == 2:
                        built.append((a.where(bl.id), fs[0], fs[1], True))
        for where, v, r, w in built:
            n += 1
            key = short(p)
            cx.ob("location", key, w, where, "a part of the path is used")
            cx.ob("location", key + ":vault", comps(v) <= {".vault_path"} and bool(comps(v)), where, "the vault path of the record is taken from %s" % sorted(comps(v)))
            cx.ob("location", key + ":record", ".vault_path" not in comps(r), where, "the record path is taken from the vault path")
            lossy(cx, a, "location", key, v | r, where)
    cx.count("locations built by vault operations", n)


def comps(d):
    out = set()
    for v in d:
        if v[0] in ("arg", "init", "ptr"):
            for x in v[2]:
                if isinstance(x, str) and x in (".vault_path", ".record_path"):
                    out.add(x)
    for v in d:
        if v[0] == "arg" and v[1] > 0:
            out.add("argument %d" % v[1])
    return out


def sites(cx):
    """all uses of the derivation functions"""
    prog = cx.prog
    n = 0
    todo = []
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if b.crate.name not in ("iota_stronghold", "stronghold_native") or not b.local or not b.file.startswith(REPO_DIRS) or "{{closure" in p or "LoadFromPath>" in p or p.endswith("location::derive_vault_id"):
            continue
        m = set(mentions(b))
        for q in prog.bodies.values():
            if q.path.startswith(p + "::{{closure"):
                m |= mentions(q)
        if any(re.search(LOAD + "|" + DERIVE, x) for x in m):
            todo.append(p)
    res = cx.par(todo, one_site)
    n = sum(res)
    cx.floor("derivation call sites", n, 8)


def one_site(cx, p):
    a = cx.an(p, Derive())
    n = 0
    vaults = []
    for b in a.calls(LOAD + "|" + DERIVE):
        n += 1
        c = a.call(b)
        key = "%s:%s" % (short(p), short(c.path))
        for i in range(len(c.args)):
            t = a.g.ty_of_op(c.args[i])
            if t[0] == "prim":
                continue
            pure_input(cx, a, key, b, i, "the path")
        if re.search(LOAD, c.path) or re.search(LOAD, c.tpath or ""):
            x, y = show(a.arg_term(b, 0)), show(a.arg_term(b, 1))
            rec = "RecordId as" in c.path or p.endswith("derive_record_id")
            ok = x == y or re.search(r"derive_vault_id\(|load_from_path\(", x) and not re.search(r"derive_vault_id\(|load_from_path\(", y)
            cx.ob("site-form", key, ok, a.where(b), "the identifier is derived from %s and %s, elsewhere from the path alone" % (x[:60], y[:60]))
            if not rec:
                cx.ob("site-form", key, x == y, a.where(b), "the identifier is derived from %s and %s, elsewhere from the path alone" % (x[:60], y[:60]))
        if c.path.endswith("derive_vault_id"):
            vaults.append(show(a.arg_term(b, 0)))
    for b in a.calls(r"location::derive_record_id(_from_counter)?$"):
        v = show(a.arg_term(b, 0))
        if vaults:
            cx.ob("not-exchanged", short(p), v in vaults, a.where(b), "the record id is derived below vault path %s, the vault id from %s" % (v[:60], vaults[0][:60]))
        r = show(a.arg_term(b, 1))
        cx.ob("not-exchanged", short(p) + ":record", r != v and ".vault_path" not in r, a.where(b), "the record id is derived from the vault path again")
    return n


def identity(cx):
    """identifiers are equal exactly when all their bytes are"""
    prog = cx.prog
    n = 0
    for tr in ("core::cmp::PartialEq", "core::hash::Hash", "core::cmp::Ord", "core::cmp::PartialOrd"):
        for i in prog.impl_by_trait.get(tr, []):
            t = i["self_t"]
            if t[0] == "adt" and re.search(r"vault::types::utils::(Id|ChainId|RecordId|VaultId|ClientId|BlobId)$", t[1]):
                n += 1
                ok = i["derived"]
                if not ok:
                    for p, bs in prog.by_path.items():
                        for b in bs:
                            if b.impl == i["u"] or p.startswith("<%s as %s>::" % (t[1], tr)):
                                a = cx.an(b, NoOpaque())
                                ds = set()
                                sub = False
                                for c in a.calls("."):
                                    for k in range(len(a.call(c).args)):
                                        if a.call(c).ext and not whole(a, c, k):
                                            sub = True
                                    if re.search(r"\[T\]::(get|first|last|split\w*|starts_with)$|Iterator::(take|skip|step_by)$", a.call(c).path or ""):
                                        sub = True
                                for bl in a.g.blocks:
                                    for st in bl.stmts:
                                        if st[0] == "=" and "'ci'" in str(st[2]):
                                            sub = True
                                ok = not sub
                cx.ob("whole-identity", "%s:%s" % (t[1].split("::")[-1], tr.split("::")[-1]), ok, i["loc"], "identifiers are compared by a part of their bytes")
    cx.floor("identity implementations", n, 4)


def engine(cx):
    """the engine looks vaults and records up with the identifier it was given"""
    prog = cx.prog
    n = 0
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if not (b.local and b.crate.name == "engine" and re.search(r"vault::view::(DbView|Vault)::\w+$", p)):
            continue
        a = cx.an(p, Derive())
        ids = [i for i in range(b.argc) if re.search(r"utils::(VaultId|RecordId|ChainId|BlobId|Id)'", str(b.locals[i + 1]))]
        if not ids:
            continue
        for f in (".vaults", ".entries"):
            for x in lookups(a, f):
                n += 1
                d = a.arg_deps(x, 1)
                ok = any(has_arg(d, i) for i in ids) or bool(calls_in(d, a, r"Iterator(>)?::next$")) or any(v[0] == "cb" for v in d)
                cx.ob("given-id", "%s:%s" % (short(p), f), ok, a.where(x), "the lookup does not use the identifier given: %s" % show(a.arg_term(x, 1))[:100])
                bad = calls_in(d, a, r"wrapping_\w+|swap_bytes|LoadFromPath|new$|random|default$")
                cx.ob("given-id", "%s:%s" % (short(p), f), not bad, a.where(x), "the identifier is changed before the lookup")
    cx.floor("lookups of the vault engine", n, 5)


def separation(cx):
    """a key store indexed by identifiers made from client ids holds no keys of user vaults"""
    prog = cx.prog
    use = {}
    KS = r"KeyStore::(get_key|take_key|insert_key|get_or_insert_key|vault_exists|contains\w*|remove\w*)$"
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if not (b.local and b.crate.name == "iota_stronghold" and re.search(r"types::snapshot::Snapshot::\w+$|types::snapshot::Snapshot as .*>::\w+$", p)) or "{{" in p:
            continue
        a = cx.an(p, Steps24())
        for x in a.calls(KS):
            fld = set(o for o in (owner(v) for v in a.arg_vals(x, 0) if v[0] in ("ptr", "init", "arg")) if o)
            s = show(a.arg_term(x, 1))
            kind = "client" if client_made(a, x) else "vault"
            for f in fld:
                use.setdefault(f, {}).setdefault(kind, a.where(x))
    cx.floor("key stores of the snapshot", len(use), 1)
    for f, k in use.items():
        cx.ob("separate-keys", f, len(k) == 1, k.get("client", ""), "the key store %s is indexed by client ids (%s) and by vault ids (%s): a client and a vault of the same path share a key slot" % (f, k.get("client"), k.get("vault")))


class Steps24(RuntimeOpaque):
    RX = re.compile(r"KeyStore::|DbView::|snapshot::logic::|load_from_path$|derive_")

    def opaque(self, body):
        return RuntimeOpaque.opaque(self, body) or bool(self.RX.search(body.path))


def client_made(a, x):
    """the identifier is built from a client id"""
    body = a.root
    for v in a.arg_vals(x, 1) | a.arg_content(x, 1):
        for w in a.f.deps([v], cutter(a, ".")):
            if w[0] == "arg" and "utils::ClientId'" in str(body.locals[w[1] + 1]):
                return True
            if w[0] == "cb" or w[0] == "call":
                pass
    s = show(a.arg_term(x, 1))
    return "VaultId{" in s and ".0" in s and "derive_vault_id" not in s
