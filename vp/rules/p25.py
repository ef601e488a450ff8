"""P25: each procedure performs the algorithm it is asked for on the inputs given."""
from .common import *
from .p24 import LOSSY

TECHNIQUE = "selector-to-primitive table on inlined MIR: for each variant of an algorithm selector, the primitives reachable under that hypothesis; role check of every argument of a primitive by provenance; completeness of inputs by data and control dependence; wiring of locations through the executor"
EXPLANATION = ("For every procedure and every variant of its selector, the graph of the procedure is pruned to the paths on which the selector holds that variant: the cryptographic primitives reachable there (callee paths, type arguments, constants and "
               "function pointers) must be exactly the ones of that variant, every success return passes one, and its output flows into the product. Every argument of a primitive (key, message, salt, label, nonce, associated data, password, chain, "
               "public key) must originate from the whole field of that role, the i-th secret from the i-th location. Every field of every procedure must influence the product, so that none is ignored. The executor passes sources and target of "
               "the procedure to the runner, the runner opens the records of exactly those locations in that order and writes the product to the target's key, vault and record.")
ASSUMPTIONS = ["the crypto, hkdf and hmac crates implement the primitives their names say"]
NOTE = "All implementations of UseSecret, DeriveSecret and GenerateSecret, all variants of their selectors, the three executors and the client's runner."

PRIM = "iota_stronghold::procedures::primitives::"
TYPES = "iota_stronghold::procedures::types::"
ORDER = r"::(rev|reverse|sort\w*|swap|swap_remove|rotate_\w+|skip|step_by|cycle|dedup\w*|take|filter|filter_map|drain|truncate|retain|pop|remove|insert)$"


class Steps(RuntimeOpaque):
    array_index = True


class Exec(RuntimeOpaque):
    array_index = True

    def opaque(self, b):
        return RuntimeOpaque.opaque(self, b) or bool(re.search(r"Secret(<.*>)?(>)?::(generate|derive|use_secret|source|target)$|KeyStore::\w+$|view::(DbView|Record|Vault)::\w+$|Location::resolve$|clone::Clone>::clone$", b.path)) and "{{" not in b.path


class View(RuntimeOpaque):
    array_index = True

    def opaque(self, b):
        return RuntimeOpaque.opaque(self, b) or bool(re.search(r"view::Record::\w+$|view::Vault::\w+$|DbView::write$|clone::Clone>::clone$", b.path)) and "{{" not in b.path


class Flat(NoOpaque):
    def opaque(self, b):
        return "{{closure" not in b.path


# families of primitives, and how each member is recognised
HASH = {"Sha256": r"SHA2?_?256|Sha256", "Sha384": r"SHA2?_?384|Sha384", "Sha512": r"SHA2?_?512|Sha512(?!VarCore)"}
LABELS = [
    ("hash", "Sha256", r"(HMAC|PBKDF2\w*)_SHA256$|\bSHA2_32\b|sha2::Sha256\b"),
    ("hash", "Sha384", r"(HMAC|PBKDF2\w*)_SHA384$|\bSHA2_48\b|sha2::Sha384\b"),
    ("hash", "Sha512", r"(HMAC|PBKDF2\w*)_SHA512$|\bSHA2_64\b|sha2::Sha512\b"),
    ("hash", "other", r"Blake2|Sha3|Keccak|Sha1|Md5|\bSHA2_\d+\b"),
    ("cipher", "Aes256Gcm", r"aes_gcm::|AesGcm"),
    ("cipher", "XChaCha20Poly1305", r"(?i)xchacha"),
    ("cipher", "other", r"(?i)chacha|AesCbc|AesKeyWrap"),
    ("key", "Ed25519", r"signatures::ed25519::\w+::\w+$"),
    ("key", "X25519", r"keys::x25519::\w+::\w+$"),
    ("words", "English", r"wordlist::ENGLISH"),
    ("words", "Japanese", r"wordlist::JAPANESE"),
    ("words", "other", r"wordlist::[A-Z_]{3,}"),
    ("slip10", "Key", r"slip10::Key::(derive|try_from)$"),
    ("slip10", "Seed", r"slip10::Seed::\w+$"),
]

G0, G1 = "@0", "@1"
# procedure: selector field, its variants (family), roles of the primitives' arguments, sources in order, target
SPEC = {
    "Hmac": dict(sel="hash_type", fam="hash", prim=r"hmac::HMAC_\w+$", roles=[(r"hmac::HMAC_\w+$", {0: "msg", 1: G0})], src=["key"], out=(2, None)),
    "Hkdf": dict(sel="hash_type", fam="hash", prim=r"hkdf::Hkdf::expand$", roles=[(r"hkdf::Hkdf::new$", {0: "salt", 1: G0}), (r"hkdf::Hkdf::expand$", {1: "label"})], src=["ikm"], tgt="okm", out=(2, None)),
    "Pbkdf2Hmac": dict(sel="hash_type", fam="hash", prim=r"pbkdf::PBKDF2\w+$", roles=[(r"pbkdf::PBKDF2\w+$", {0: "password", 1: "salt", 2: "count"})], tgt="output", out=(3, None)),
    "ConcatKdf": dict(sel="hash", fam="hash", prim=r"Digest(>)?::finalize\w*$", roles=[], src=["shared_secret"], tgt="output"),
    "AeadEncrypt": dict(sel="cipher", fam="cipher", prim=r"Aead(>)?::(try_)?encrypt$", roles=[(r"Aead(>)?::(try_)?encrypt$", {0: G0, 1: "nonce", 2: "associated_data", 3: "plaintext"})], src=["key"]),
    "AeadDecrypt": dict(sel="cipher", fam="cipher", prim=r"Aead(>)?::(try_)?decrypt$", roles=[(r"Aead(>)?::(try_)?decrypt$", {0: G0, 1: "nonce", 2: "associated_data", 4: "ciphertext", 5: "tag"})], src=["key"]),
    "GenerateKey": dict(sel="ty", fam="key", prim=r"SecretKey::generate\w*$", roles=[], tgt="output"),
    "PublicKey": dict(sel="ty", fam="key", prim=r"SecretKey::public_key$", roles=[(r"ed25519::SecretKey::from_bytes$", {0: G0 + "~"}), (r"x25519::SecretKey::(try_from_slice|from_bytes)$", {0: G0})], src=["private_key"]),
    "Ed25519Sign": dict(prim=r"ed25519::SecretKey::sign$", roles=[(r"ed25519::SecretKey::from_bytes$", {0: G0 + "~"}), (r"SecretKey::sign$", {1: "msg"})], src=["private_key"]),
    "X25519DiffieHellman": dict(prim=r"SecretKey::diffie_hellman$", roles=[(r"x25519::SecretKey::(try_from_slice|from_bytes)$", {0: G0}), (r"x25519::PublicKey::(from_bytes|try_from_slice)$", {0: "public_key"})], src=["private_key"], tgt="shared_key"),
    "Slip10Derive": dict(sel="input", fam="slip10", variants=["Key", "Seed"], prim=r"slip10::(Key|Seed)::derive$", roles=[(r"slip10::Seed::from_bytes$|slip10::Key::try_from$|TryFrom(>)?::try_from$", {0: G0}), (r"Key::derive$", {1: "chain"}), (r"Seed::derive$", {2: "chain"})], src=["input"], tgt="output"),
    "BIP39Generate": dict(sel="language", fam="words", prim=r"bip39::mnemonic_to_seed$", roles=[(r"mnemonic_to_seed$", {1: "passphrase"})], tgt="output", out=(2, 64)),
    "BIP39Recover": dict(prim=r"bip39::mnemonic_to_seed$", roles=[(r"mnemonic_to_seed$", {0: "mnemonic", 1: "passphrase"})], tgt="output", out=(2, 64)),
    "Slip10Generate": dict(prim=r"rand::fill$|getrandom|fill_bytes$", roles=[], tgt="output"),
    "WriteVault": dict(ret="data", tgt="location"),
    "CopyRecord": dict(ret=G0, src=["source"], tgt="target"),
    "ConcatSecret": dict(prim=None, concat=[G0, G1], src=["location_a", "location_b"], tgt="output_location"),
    "AesKeyWrapEncrypt": dict(prim=r"AesKeyWrap::wrap_key$", roles=[(r"AesKeyWrap::new$", {0: G0}), (r"AesKeyWrap::wrap_key$", {1: G1})], src=["encryption_key", "wrap_key"]),
    "AesKeyWrapDecrypt": dict(prim=r"AesKeyWrap::unwrap_key$", roles=[(r"AesKeyWrap::new$", {0: G0}), (r"AesKeyWrap::unwrap_key$", {1: "wrapped_key"})], src=["decryption_key"], tgt="output"),
    "CompareSecret": dict(prim=r"PartialEq(>)?::eq$", roles=[], src=["location"]),
}
LEN = {"Sha256": 32, "Sha384": 48, "Sha512": 64}


def typenum(t):
    """value of a typenum unsigned integer type"""
    if t[0] != "adt":
        return None
    if t[1].endswith("UTerm"):
        return 0
    if t[1].endswith("uint::UInt"):
        hi = typenum(t[2][0])
        return None if hi is None else hi * 2 + (1 if t[2][1][1].endswith("B1") else 0)
    return None


def tname(t):
    """types as text; the SHA-2 wrappers by their output size"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == "adt":
        if "VarCore" in t[1] and t[1].startswith("sha2"):
            return t[1]
        sub = [tname(x) for x in t[2]]
        if t[1].endswith("CtVariableCoreWrapper"):
            n = typenum(t[2][1]) if len(t[2]) > 1 else None
            if n and sub[0].startswith("sha2"):
                # SHA-224/256 share a core, SHA-384/512 the other
                core = 256 if "256" in sub[0] else 512
                return "SHA2_%d" % n if core == (256 if n <= 32 else 512) else "SHA2_%d" % (1000 + n)
        if t[1].endswith(("UInt", "UTerm")):
            n = typenum(t)
            return str(n)
        return t[1] + ("<%s>" % ",".join(sub) if sub else "")
    if t[0] in ("ref", "ptr", "slice"):
        return tname(t[1])
    if t[0] in ("tuple",):
        return "(%s)" % ",".join(tname(x) for x in t[1])
    return str(t[0])


def fn_name(a, v):
    """callee a function value names, with its type arguments"""
    path, ctx, info = v
    try:
        ts = [a.prog_norm(x) for x in info["a"]]
    except Exception:
        ts = []
    return path, ts


def labels(cx, a, fam):
    """{(family, member): [where]} of the primitives mentioned in reachable code"""
    out = {}

    def note(text, where):
        for f, m, rx in LABELS:
            if f == fam and re.search(rx, text):
                out.setdefault(m, []).append(where)
                return
    for b in a.g.blocks:
        if b.id not in a.e.reached:
            continue
        if b.kind == "call" and b.call is not None and b.call.ext:
            n = b.call
            for p in set([n.path or "", n.tpath or ""]):
                if re.search(r"^(<)?(crypto|hkdf|hmac|digest|sha2|blake2)\b|Digest|Aead|hkdf|crypto::", p):
                    note(p, a.where(b.id))
            if re.search(r"crypto|hkdf|hmac|digest|sha2|Digest|Aead|default::Default", (n.path or "") + (n.tpath or "")):
                for t in n.targs or ():
                    note(tname(t), a.where(b.id))
        for st in b.stmts:
            if st[0] != "=":
                continue
            for o in operands(st[2]):
                if o[0] == "fn":
                    path, ctx, info = o[1]
                    if re.search(r"crypto::|hkdf|digest", path):
                        note(path, a.where(b.id))
                        for x in info.get("a", ()):
                            note(tname(a.g.prog.norm(ir_subst(ctx, x))), a.where(b.id))
                elif o[0] == "k" and isinstance(o[1], dict) and o[1].get("cdef"):
                    note(o[1]["cdef"], a.where(b.id))
    return out


def ir_subst(ctx, x):
    from .. import ir
    return ir.subst(ctx.body.crate.ty(x), ctx.subst) if isinstance(x, int) else x


def operands(rv):
    k = rv[0]
    if k == "use":
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return list(rv[3])
    if k == "rep":
        return [rv[1]]
    return []


def prim_calls(a, rx):
    """calls of a primitive, directly or through a function value; [(block, index of the first argument)]"""
    out = [(b, 0) for b in a.calls(rx, ext=True)]
    c = re.compile(rx)
    for b in a.calls(r"<indirect>|ops::function::Fn(Once|Mut)?(>)?::call(_once|_mut)?$", ext=True):
        n = a.call(b)
        fs = [v for v in a.arg_vals(b, 0) if v[0] == "fn"]
        if fs and any(c.search(str(v[1])) for v in fs):
            out.append((b, 1))
    return out


def leaf(a, vals, through=None):
    """fields of the procedure / secrets a value is made of"""
    out = set()
    for v in a.f.deps(vals, through):
        for x in roots(v):
            out.add(x)
    return out


def roots(v):
    while True:
        if v[0] == "arg":
            n = [x for x in v[2] if isinstance(x, str) and x.startswith(".")]
            if v[1] == 0 and n:
                yield n[0][1:]
            elif v[1] == 1 and n and n[0].startswith(".#"):
                yield "@" + n[0][2:]
            elif v[1] == 1:
                yield "@?"
            return
        if v[0] in ("init", "ptr") and isinstance(v[1], tuple):
            o = v[1]
            if o[0] == "o":
                b = o[1]
                if b[0] == "arg":
                    v = ("arg", b[1], tuple(b[2]) + tuple(v[2]))
                    continue
                if b[0] in ("init", "ptr"):
                    v = (b[0], b[1], tuple(b[2]) + tuple(v[2]))
                    continue
        return


def role(cx, a, key, blk, i, want, what):
    trunc = want.endswith("~")
    want = want.rstrip("~")
    cut = cutter(a, r"::(len|is_empty)$")
    d = a.arg_deps(blk, i, cut)
    got = set()
    for v in d:
        got |= set(roots(v))
    # which arm of an enum field is taken is no input of its own
    cx.ob("role", key, got == {want}, a.where(blk), "%s is made from %s, not from %s" % (what, ", ".join(sorted(got)) or "nothing given", want))
    bad = [v for v in calls_in(d, a, LOSSY) if not re.search(r"::(len|is_empty)$", a.call(v[1]).path or "")]
    if trunc:
        bad = [v for v in bad if not re.search(r"truncate$|get$|split_at$|first_chunk$|index$", a.call(v[1]).path or "")]
    cx.ob("role", key + ":whole", not bad and (trunc or whole(a, blk, i)), a.where(blk), "%s is only a part of %s%s" % (what, want, ", changed by " + short(a.call(bad[0][1]).path) if bad else ""))


def final_deps(a):
    """everything the returned product and output depend on"""
    return a.f.deps(a.ret_content((":Ok", ".0")) | a.ret_content((":Ok", ".0", ".secret")) | a.ret_content((":Ok", ".0", ".output")))


def check(cx):
    prog = cx.prog
    todo = []
    for tr, m in (("UseSecret", "use_secret"), ("DeriveSecret", "derive"), ("GenerateSecret", "generate")):
        for i in prog.impl_by_trait.get(TYPES + tr, []):
            if i["self_t"][0] == "adt" and i["crate"] is not None:
                todo.append((i["self_t"][1], tr, m))
    cx.floor("procedures", len(todo), 8)
    cx.par(sorted(set(todo)), procedure)
    executors(cx)
    runner(cx)
    engine(cx)
    dispatch(cx)
    others(cx)
    conversions(cx)


def procedure(cx, item):
    prog = cx.prog
    ty, tr, m = item
    name = ty.split("::")[-1]
    path = "<%s as %s%s>::%s" % (ty, TYPES, tr, m)
    a = cx.an(path, Steps())
    if a is None:
        return
    spec = SPEC.get(name)
    ad = prog.adts[ty]
    fields = ad["variants"][0]["f"]
    # every input influences the product
    d = final_deps(a)
    used, data = set(), set()
    for v in d:
        used |= set(roots(v))
        if payload(v):
            data |= set(roots(v))
    for b in a.g.blocks:
        if b.kind == "switch" and b.id in a.e.reached:
            for v in a.f.deps(a.f._deep(b.id, len(b.stmts), b.op)):
                used |= set(roots(v))
            for k, st in enumerate(b.stmts):
                if st[0] == "=" and st[2][0] == "discr":
                    for r, q in a.f.resolve(b.id, k, st[2][1]):
                        used |= set(roots(("arg", r[1], q) if r[0] == "arg" else ("init", r, q)))
                        used |= var_roots(a, r, q)
    src = (spec or {}).get("src", [])
    for f in fields:
        t = f["t"]
        if "location::Location'" in str(t) and f["n"] not in ((spec or {}).get("sel"),):
            continue
        one = t[0] == "adt" and prog.adts.get(t[1], {}).get("kind") == "enum" and len(prog.adts[t[1]]["variants"]) == 1
        cx.ob("used", "%s.%s" % (name, f["n"]), one or f["n"] in (used if selector(prog, t) or name == "CompareSecret" else data), a.root.loc, "the input %s has no influence on the result" % f["n"])
    for n in range(len(src)):
        cx.ob("used", "%s@%d" % (name, n), "@%d" % n in used or "@?" in used, a.root.loc, "the secret %d is not used" % n)
    locations(cx, ty, tr, name, spec, fields)
    if spec is None:
        cx.count("procedures without a table entry", 1)
        return
    if spec.get("ret"):
        for v in a.ret_content((":Ok", ".0", ".secret")):
            got = set()
            dd = a.f.deps([v], cutter(a, r"::(len|is_empty)$"))
            for x in dd:
                got |= set(roots(x))
            cx.ob("role", name, got == {spec["ret"]} and not calls_in(dd, a, LOSSY), a.root.loc, "the product is made from %s, not from the whole %s" % (sorted(got), spec["ret"]))
    if spec.get("concat"):
        concat(cx, a, name)
    if name == "ConcatKdf":
        concat_kdf(cx, a, name)
    for rx, args in spec.get("roles", []):
        ps = prim_calls(a, rx)
        for b, off in ps:
            for i, want in args.items():
                role(cx, a, "%s:%s:%d" % (name, short(rx_name(rx)), i), b, i + off, want, "argument %d of %s" % (i, short(a.call(b).path)))
    if not spec.get("prim"):
        return
    variants = [None]
    if spec.get("sel"):
        t = next((f["t"] for f in fields if f["n"] == spec["sel"]), None)
        variants = [v["n"] for v in prog.adts[t[1]]["variants"]] if t and t[0] == "adt" and t[1] in prog.adts else []
        cx.floor("variants of %s.%s" % (name, spec["sel"]), len(variants), 1)
    for v in variants:
        u = a if v is None else a.under(assume_field(spec["sel"], "V" + v))
        key = name if v is None else "%s:%s" % (name, v)
        ps = prim_calls(u, spec["prim"])
        if v is not None:
            ls = labels(cx, u, spec["fam"])
            bad = sorted(set(ls) - {v})
            cx.ob("selected", key, v in ls, a.root.loc, "no primitive of %s is used when %s is asked for" % (v, v))
            cx.ob("selected", key + ":only", not bad, ls[bad[0]][0] if bad else "", "%s is used when %s is asked for" % (", ".join(bad), v))
            for b, off in ps:
                n = u.call(b)
                if spec.get("out") and off == 0:
                    size(cx, u, key, b, spec["out"][0], LEN.get(v) if spec["fam"] == "hash" else spec["out"][1])
        else:
            for b, off in ps:
                if spec.get("out") and off == 0:
                    size(cx, u, key, b, spec["out"][0], spec["out"][1])
        w = u.search(u.entry(), u.rets("Ok"), avoid=[b for b, off in ps])
        loop_free = name != "ConcatKdf"
        if loop_free:
            cx.ob("performed", key, bool(ps) and w is None, a.root.loc, "success without running the primitive%s" % (": " + u.show(w) if w else ""))
        # its output is the product
        for b, off in ps:
            ok = any(x[0] in ("call", "mut") and x[1] == b for x in d)
            if not ok and u.call(b).dest is not None and u.g.ty_of_place(u.call(b).dest) == ("prim", "bool"):
                # a truth value decides between the results
                ok = any(s.kind == "switch" and s.id in u.e.reached and any(x[0] == "call" and x[1] == b for x in u.f.deps(u.f._deep(s.id, len(s.stmts), s.op))) for s in u.g.blocks)
            cx.ob("product", key, ok, u.where(b), "the output of %s does not reach the result" % short(u.call(b).path))
    if name == "Slip10Derive":
        for b, off in prim_calls(a, r"slip10::Seed::derive$"):
            t = show(a.arg_term(b, 1 + off))
            ks = [x for x in a.arg_deps(b, 1 + off) if x[0] == "agg"]
            names = set()
            for x in ks:
                kd = a.g.blocks[x[1]].stmts[x[2]][2][1]
                names.add(kd[2] if len(kd) > 2 else None)
            cx.ob("selected", "Slip10Derive:curve", names in ({"Ed25519"}, set(), {None}), a.where(b), "seeds are derived on curve %s" % sorted(map(str, names)))
    if name == "Slip10Generate":
        for b, off in prim_calls(a, spec["prim"]):
            cx.ob("role", "Slip10Generate:size", whole(a, b, off), a.where(b), "only a part of the seed is filled")
    if name == "CompareSecret":
        for b in a.calls(r"PartialEq(>)?::(eq|ne)$"):
            got = set()
            for i in (0, 1):
                for x in a.arg_deps(b, i):
                    got |= set(roots(x))
            cx.ob("role", "CompareSecret", got == {"expected", "@0"} and (a.call(b).tpath or a.call(b).path).endswith("eq"), a.where(b), "the comparison is of %s" % sorted(got))


def selector(prog, t):
    """an enum chooses between paths; everything else is data"""
    return t[0] == "adt" and prog.adts.get(t[1], {}).get("kind") == "enum" and not t[1].endswith("option::Option")


def payload(v):
    """for optional inputs: the payload, not only whether there is one"""
    x = v
    path = list(v[2]) if len(v) > 2 and isinstance(v[2], tuple) else []
    while x[0] in ("init", "ptr") and isinstance(x[1], tuple) and x[1][0] == "o":
        x = x[1][1]
        path = (list(x[2]) if len(x) > 2 and isinstance(x[2], tuple) else []) + path
    return ":None" not in path


def var_roots(a, r, q):
    """roots of the object a discriminant is read from"""
    out = set()
    if r[0] == "v":
        v = r[1]
        if v == a.f.arg(0)[1] if False else False:
            pass
        ctx, i, t = a.g.vars[v]
        if ctx is not None and getattr(ctx, "body", None) is a.root and 1 <= i <= a.root.argc:
            out |= set(roots(("arg", i - 1, q)))
    elif r[0] == "o":
        out |= set(roots(("ptr", r, q)))
    return out


def rx_name(rx):
    return re.sub(r"[^\w:].*$", "", rx.split("|")[0].replace(r"\w+$", "").replace("$", ""))


def size(cx, a, key, blk, i, want):
    """length of the fixed buffer a primitive writes"""
    if want is None or i >= len(a.call(blk).args):
        return
    ns = set()
    for v in a.raw_vals(blk, i):
        x = v
        if x[0] == "ptr" and x[1][0] == "v":
            t = a.g.vars[x[1][1]][2]
            if t[0] == "array" and not x[2]:
                try:
                    ns.add(int(t[2]))
                except (TypeError, ValueError):
                    pass
    if ns:
        cx.ob("length", key, ns == {want}, a.where(blk), "the output buffer holds %s bytes instead of %d" % (sorted(ns), want))


def locations(cx, ty, tr, name, spec, fields):
    """source() and target() give the locations of the roles"""
    if spec is None:
        return
    base = "<%s as %s%s>::" % (ty, TYPES, tr)
    if "src" in spec:
        a = cx.an(base + "source", Steps())
        if a is not None:
            for n, f in enumerate(spec["src"]):
                got = set()
                for v in a.ret_content((".#%d" % n,)) | a.ret_content((".#%d" % n, ":Generic", ".vault_path")) | a.ret_content((".#%d" % n, ":Generic", ".record_path")):
                    for x in a.f.deps([v]):
                        got |= set(roots(x))
                cx.ob("source", "%s:%d" % (name, n), got == {f}, a.root.loc, "secret %d is read from location %s, not from %s" % (n, sorted(got), f))
    if "tgt" in spec:
        a = cx.an(base + "target", Steps())
        if a is not None:
            got = set()
            for v in a.f.deps(a.ret_content(())):
                got |= set(roots(v))
            cx.ob("target", name, got == {spec["tgt"]}, a.root.loc, "the product goes to location %s, not to %s" % (sorted(got), spec["tgt"]))


def concat(cx, a, name):
    """the two secrets, whole, in order"""
    order = []
    for b in a.calls(r"\[T\]::(concat|join)$"):
        for v in a.arg_vals(b, 0) | a.raw_vals(b, 0):
            pass
        for v in a.arg_content(b, 0):
            if v[0] == "agg":
                for o in a.g.blocks[v[1]].stmts[v[2]][2][3]:
                    order.append((None, leaf(a, a.f._deep(v[1], v[2], o))))
        t = show(a.arg_term(b, 0))
        m = re.findall(r"arg1\.#(\d)", t)
        cx.ob("role", name, m == ["0", "1"] and not re.search(LOSSY, t.replace("(", "$")), a.where(b), "the concatenation is %s" % t[:120])
        cx.ob("role", name + ":separator", not (a.call(b).path.endswith("join")), a.where(b), "something is put between the secrets")
        return
    ext = [b for b in a.calls(r"::(extend_from_slice|extend|append|write_all|push)$") if any(re.search("@", x) for x in leaf(a, a.arg_content(b, 1) | a.arg_vals(b, 1)))]
    first = [b for b in ext if "@0" in leaf(a, a.arg_content(b, 1))]
    second = [b for b in ext if "@1" in leaf(a, a.arg_content(b, 1))]
    if first and second:
        w = a.search(a.entry(), second, avoid=first)
        cx.ob("role", name, w is None, a.root.loc, "the second secret is put before the first")
        return
    d = final_deps(a)
    cx.ob("role", name, bool(second) and not calls_in(d, a, LOSSY), a.root.loc, "the two secrets are not concatenated in order")


def concat_kdf(cx, a, name):
    """NIST SP 800-56A 5.8.1: counter, secret, algorithm, party U, party V, public and private information"""
    ups = a.calls(r"Digest(>)?::(update|chain_update|chain)$|Update(>)?::update$")
    fin = a.calls(r"Digest(>)?::finalize\w*$|FixedOutput\w*(>)?::finalize\w*$")
    cx.floor("finalised hashes of the concat KDF", len(fin), 1)
    cx.floor("hash updates of the concat KDF", len(ups), 1)
    want = [("counter", None), ("secret", "@0"), ("len(algorithm_id)", "algorithm_id"), ("algorithm_id", "algorithm_id"), ("len(apu)", "apu"), ("apu", "apu"), ("len(apv)", "apv"), ("apv", "apv"), ("pub_info", "pub_info"), ("priv_info", "priv_info")]
    at = {}
    for b in ups:
        cut = cutter(a, r"Digest(>)?::\w+$|Iterator(>)?::next$")
        d = a.arg_deps(b, 1, cut)
        got = set()
        for v in d:
            got |= set(roots(v))
        ln = bool(calls_in(d, a, r"::len$"))
        be = calls_in(d, a, r"to_(be|le|ne)_bytes$")
        if be:
            cx.ob("kdf-encoding", name, all(a.call(v[1]).path.endswith("to_be_bytes") for v in be), a.where(b), "integers are hashed in another byte order")
            n = [a.call(v[1]).path for v in be]
            cx.ob("kdf-encoding", name + ":width", all("u32" in p for p in n), a.where(b), "integers are hashed with another width than 32 bit: %s" % n[:1])
        for lab, f in want:
            if f is None and be and not ln and (not got or got == {"key_len"}):
                at.setdefault(lab, []).append(b)
            elif f is not None and lab.startswith("len(") and ln and be and got == {f}:
                at.setdefault(lab, []).append(b)
            elif f is not None and not lab.startswith("len(") and not be and got == {f}:
                at.setdefault(lab, []).append(b)
                bad = calls_in(d, a, LOSSY)
                cx.ob("kdf-input", lab + ":whole", not bad and whole(a, b, 1), a.where(b), "only a part of it is hashed")
    for lab, f in want:
        bs = at.get(lab, [])
        cx.ob("kdf-input", lab, bool(bs), a.root.loc, "%s is not hashed as an input of its own" % lab)
        if bs:
            w = a.search(a.entry(), fin, avoid=bs)
            cx.ob("kdf-round", lab, w is None, a.root.loc, "a round of the KDF can be finished without %s" % lab)
            w = a.search([x for f_ in fin for x in a.after(f_)], fin, avoid=bs)
            cx.ob("kdf-round", lab + ":next", w is None, a.root.loc, "a later round of the KDF can be finished without %s" % lab)
    for (l1, _), (l2, _) in zip(want, want[1:]):
        if at.get(l1) and at.get(l2):
            # between two finalisations l2 never comes before l1
            w = a.search([x for b in at[l2] for x in a.after(b)], at[l1], avoid=fin)
            cx.ob("kdf-order", "%s<%s" % (l1, l2), w is None, a.root.loc, "%s is hashed before %s" % (l2, l1))
    # the counter starts at one
    for b in at.get("counter", []):
        t = show(a.arg_term(b, 1, 12))
        x = re.sub(r"^u32::to_\w+\((.*)\)$", r"\1", t)
        one = re.search(r"Range\w*\{1,|RangeInclusive::new\(1,|RangeFrom\{1", x)
        add = re.match(r"(Add|\w+::(checked|wrapping|saturating)_add)\(", x) and re.search(r", 1\)(:\w+)*(\.\d)?$", x)
        fixed = re.fullmatch(r"\d+", x)
        ok = not fixed and bool(add) != bool(one) if "Iterator::next" in x else not fixed
        cx.ob("kdf-counter", name, ok, a.where(b), "the counter does not run from 1: %s" % t[:100])
    # enough rounds, and cut to the length asked for
    cut = [b for b in a.calls(r"Vec::(truncate|resize|split_off|drain)$|\[T\]::(get|split_at)$|Index(>)?::index$|Iterator(>)?::take$") if "key_len" in leaf(a, a.arg_vals(b, 1) | a.arg_content(b, 1))]
    for b in cut:
        got = leaf(a, a.arg_vals(b, 1) | a.arg_content(b, 1))
        t = show(a.arg_term(b, 1))
        cx.ob("kdf-length", name, got == {"key_len"} and not re.search(r"Add|Sub|Div|Mul|Sh[lr]|min|max", t), a.where(b), "the key is cut to %s" % t[:80])
    cx.ob("kdf-length", name + ":cut", bool(cut), a.root.loc, "the derived key is not cut to the requested length")
    divs = set()
    for b in a.g.blocks:
        if b.id not in a.e.reached:
            continue
        for k, st in enumerate(b.stmts):
            if st[0] == "=" and st[2][0] == "bin" and st[2][1] in ("Div", "Shr"):
                num = a.f.deps(a.f._deep(b.id, k, st[2][2]))
                if any("key_len" in set(roots(v)) for v in num):
                    up = calls_in(num, a, r"output_size$") or [v for v in num if v[0] == "op"]
                    divs.add((a.where(b.id), bool(calls_in(num, a, r"output_size$|div_ceil$|next_multiple_of$"))))
    rem = any(st[0] == "=" and st[2][0] == "bin" and st[2][1] == "Rem" for b in a.g.blocks if b.id in a.e.reached for st in b.stmts)
    for where, ok in divs:
        cx.ob("kdf-rounds", name, ok or rem, where, "the number of rounds is rounded down: the key is shorter than requested")


def executors(cx):
    """the default executors pass the procedure's own locations, closure and product on"""
    b = cx.fn(TYPES + "GenerateSecret::exec")
    if b:
        a = cx.an(b, Exec())
        w = a.calls(r"Runner(>)?::write_to_vault$")
        cx.floor("writes of generated secrets", len(w), 1)
        for x in w:
            cx.ob("exec-target", "GenerateSecret", only(a, x, 1, r"GenerateSecret(<.*>)?(>)?::target$"), a.where(x), "the product is not written to the procedure's target: %s" % show(a.arg_term(x, 1))[:100])
            d = a.arg_deps(x, 2)
            cx.ob("exec-product", "GenerateSecret", bool(calls_in(d, a, r"GenerateSecret(<.*>)?(>)?::generate$")) and not calls_in(d, a, LOSSY), a.where(x), "what is written is not the product: %s" % show(a.arg_term(x, 2))[:100])
    for tr, run, m in (("DeriveSecret", r"Runner(>)?::exec_proc$", "derive"), ("UseSecret", r"Runner(>)?::get_guards$", "use_secret")):
        b = cx.fn(TYPES + tr + "::exec")
        if not b:
            continue
        a = cx.an(b, Exec())
        w = a.calls(run)
        cx.floor("runs of %s" % tr, len(w), 1)
        for x in w:
            d = a.arg_deps(x, 1)
            cx.ob("exec-source", tr, only(a, x, 1, tr + r"(<.*>)?(>)?::source$") and not calls_in(d, a, ORDER), a.where(x), "the secrets opened are not the procedure's sources: %s" % show(a.arg_term(x, 1))[:100])
            if tr == "DeriveSecret":
                cx.ob("exec-target", tr, only(a, x, 2, tr + r"(<.*>)?(>)?::target$"), a.where(x), "the product is not written to the procedure's target: %s" % show(a.arg_term(x, 2))[:100])
            comp = a.calls(tr + r"(<.*>)?(>)?::%s$" % m)
            bodies = [q for q in cx.prog.bodies.values() if q.path.startswith(TYPES + tr + "::exec::{{closure")]
            direct = [q for q in bodies if any(re.search(tr + r"(<.*>)?(>)?::%s$" % m, y) for y in mentions(q))]
            cx.ob("exec-run", tr, bool(comp or direct), a.where(x), "the procedure's computation is not the one run")
    # nobody overrides the executors
    for p in sorted(cx.prog.by_path):
        if re.search(r"procedures::types::(UseSecret|DeriveSecret|GenerateSecret)(<.*>)?>::exec$", p):
            cx.ob("exec-override", short(p), False, cx.prog.by_path[p][0].loc, "a procedure with an executor of its own is not covered")


def only(a, blk, i, rx):
    """the argument is the (clone of the) result of a call matching rx on the receiver"""
    vs = a.arg_content(blk, i) | a.arg_vals(blk, i)
    d = a.f.deps(vs)
    hit = calls_in(d, a, rx)
    others = [v for v in d if v[0] == "call" and not re.search(rx + r"|clone$|into\w*$|to_owned$|from$|borrow$|deref$|as_ref$", a.call(v[1]).tpath or a.call(v[1]).path or "")]
    return bool(hit) and not others


def runner(cx):
    """the runner opens exactly the given locations, in order, and writes to the target"""
    base = "<iota_stronghold::types::client::Client as iota_stronghold::procedures::types::Runner>::"
    for m, op in (("get_guards", r"DbView::get_guards$"), ("exec_proc", r"DbView::exec_procedure$")):
        b = cx.fn(base + m)
        if not b:
            continue
        a = cx.an(b, Exec())
        ops = a.calls(op)
        cx.floor("engine runs of %s" % m, len(ops), 1)
        for x in ops:
            d = a.arg_deps(x, 1)
            cx.ob("run-order", m, has_arg(d, 1) and not calls_in(d, a, ORDER), a.where(x), "the secrets are not opened in the order of their locations")
            if m == "exec_proc":
                cx.ob("run-order", m + ":source", not has_loc(a, x, 1, 2), a.where(x), "the target location is read as a source")
        for y in a.calls(ORDER):
            n = a.call(y)
            if n.args and has_arg(a.arg_deps(y, 0, cutter(a, r"KeyStore::\w+$")), 1) and "Iterator" in (n.tpath or "") + (n.path or "") + str(a.g.ty_of_op(n.args[0])) or n.args and "Location'" in str(a.g.ty_of_op(n.args[0])):
                cx.ob("run-order", m + ":" + short(n.path), False, a.where(y), "the locations are reordered by %s" % short(n.path))
        pushed = [y for y in a.calls(r"(Vec::push|Vec::insert)$")] if True else []
        for y in pushed:
            t = a.arg_term(y, len(a.call(y).args) - 1)
            triple(cx, a, m, y, t)
        if m == "exec_proc":
            for x in ops:
                for i, part in ((3, ".0"), (4, ".1")):
                    t = show(a.arg_term(x, i))
                    cx.ob("run-target", "%s:%d" % (m, i), re.fullmatch(r"Location::resolve\(\**arg2\)" + re.escape(part), t) is not None, a.where(x), "the product is written to %s" % t[:100])
                key_of(cx, a, m, x, 2, r"Location::resolve\(\**arg2\)\.0")
    for m, op, idx in (("write_to_vault", r"DbView::write$", (2, 3)), ("revoke_data", r"DbView::revoke_record$", (2, 3))):
        b = cx.fn(base + m)
        if not b:
            continue
        a = cx.an(b, Exec())
        ops = a.calls(op)
        cx.floor("engine calls of %s" % m, len(ops), 1)
        for x in ops:
            for i, part in zip(idx, (".0", ".1")):
                t = show(a.arg_term(x, i))
                cx.ob("run-target", "%s:%d" % (m, i), re.fullmatch(r"Location::resolve\(\**arg1\)" + re.escape(part), t) is not None, a.where(x), "%s goes to %s" % (m, t[:100]))
            key_of(cx, a, m, x, 1, r"Location::resolve\(\**arg1\)\.0")
            if m == "write_to_vault":
                d = a.arg_deps(x, 4)
                cx.ob("run-data", m, has_arg(d, 2) and not calls_in(d, a, LOSSY) and whole(a, x, 4), a.where(x), "what is written is not the whole value given")
    b = cx.fn(base + "garbage_collect")
    if b:
        a = cx.an(b, Exec())
        for x in a.calls(r"DbView::garbage_collect_vault$"):
            t = show(a.arg_term(x, 2))
            cx.ob("run-target", "garbage_collect", t == "arg1" or t == "*arg1", a.where(x), "the vault collected is %s" % t[:80])


def key_of(cx, a, m, x, i, rx):
    """the key is the one of that vault"""
    ks = [v for v in a.arg_deps(x, i, cutter(a, r"KeyStore::\w+$")) if v[0] in ("call",) and re.search(r"KeyStore::", a.call(v[1]).path or "")]
    cx.ob("run-key", m, bool(ks), a.where(x), "the key does not come from the key store")
    for v in ks:
        if len(a.call(v[1]).args) > 1:
            t = show(a.arg_term(v[1], 1))
            cx.ob("run-key", m + ":vault", re.fullmatch(rx, t) is not None, a.where(v[1]), "the key is the one of vault %s" % t[:100])


def has_loc(a, x, i, n):
    return has_arg(a.arg_deps(x, i, cutter(a, r"KeyStore::\w+$|Location::resolve$")), n)


def triple(cx, a, m, blk, t):
    """(key of the vault, vault id, record id) of one location"""
    s = show(t)
    r = re.findall(r"Location::resolve\((.*?)\)\.(\d)", s)
    if not r:
        return
    src = set(x for x, n in r)
    cx.ob("run-triple", m, len(src) == 1, a.where(blk), "key, vault and record of a secret come from different locations: %s" % s[:160])
    cx.ob("run-triple", m + ":parts", bool(re.search(r"resolve\([^{}]*\)\.0, ([^,]*resolve.*)\.1\}?$", s)) or [n for x, n in r][-2:] == ["0", "1"], a.where(blk), "vault and record id are exchanged: %s" % s[:160])


def engine(cx):
    """the engine hands over the secrets of the given ids, in order, and writes the computed product"""
    V = "engine::vault::view::DbView::"
    for m in ("get_guards", "exec_procedure"):
        b = cx.fn(V + m)
        if not b:
            continue
        a = cx.an(b, View())
        gs = a.calls(r"Vault::\w+$|Record::\w+$")
        opens = [x for x in gs if "Buffer" in str(a.g.ty_of_place(a.call(x).dest))]
        cx.floor("secrets opened by %s" % m, len(opens), 1)
        fs = [x for x in a.calls(r"Fn(Once|Mut)?(>)?::call(_once|_mut)?$|<indirect>", ext=True) if "Buffer" in str([a.g.ty_of_op(o) for o in a.call(x).args])]
        cx.floor("runs of the computation in %s" % m, len(fs), 1)
        for x in fs:
            d = a.f.deps(set().union(*[a.arg_content(x, i) | a.arg_vals(x, i) for i in range(1, len(a.call(x).args))]))
            cx.ob("engine-order", m, not calls_in(d, a, ORDER), a.where(x), "the secrets are reordered before they are handed over")
            cx.ob("engine-order", m + ":given", any(v[0] in ("call", "mut") and v[1] in opens for v in d), a.where(x), "the computation does not get the opened secrets")
        for x in opens:
            ks = set(roots_n(a, x, 1, 1))
            cx.ob("engine-ids", m + ":key", ks <= {"0"}, a.where(x), "the record is opened with component %s of the triple" % sorted(ks))
            rs = set(roots_n(a, x, 2, 1))
            cx.ob("engine-ids", m + ":record", rs <= {"2"}, a.where(x), "the record opened is component %s of the triple" % sorted(rs))
        for x in lookups(a, ".vaults"):
            ks = set(roots_n(a, x, 1, 1))
            cx.ob("engine-ids", m + ":vault", ks <= {"1"}, a.where(x), "the vault is looked up with component %s of the triple" % sorted(ks))
        if m == "exec_procedure":
            for x in a.calls(r"DbView::write$"):
                for i, n in ((1, 2), (2, 3), (3, 4)):
                    t = show(a.arg_term(x, i))
                    cx.ob("engine-target", "exec_procedure:%d" % i, re.fullmatch(r"\**arg%d" % n, t) is not None, a.where(x), "the product is written with %s" % t[:80])
                d = a.arg_deps(x, 4, cutter(a, r"Fn(Once|Mut)?(>)?::call(_once|_mut)?$|<indirect>"))
                cx.ob("engine-product", m, any(v[0] == "call" and v[1] in fs for v in d) and not calls_in(d, a, LOSSY) and whole(a, x, 4), a.where(x), "what is written is not the product of the computation")


def roots_n(a, blk, i, n):
    """tuple components of argument n (a list of triples) a value is taken from"""
    for v in a.arg_vals(blk, i) | a.arg_content(blk, i):
        yield from re.findall(r"arg%d\[\]\.(\d)" % n, show(a.f.vterm(v, 8, ())))


def dispatch(cx):
    """each variant of the procedure enum runs its payload"""
    prog = cx.prog
    b = cx.fn("<%sStrongholdProcedure as %sProcedure>::execute" % (PRIM, TYPES))
    if not b:
        return
    a = cx.an(b, Flat())
    vs = [v["n"] for v in prog.adts[PRIM + "StrongholdProcedure"]["variants"]]
    cx.floor("variants of the procedure enum", len(vs), 8)

    def whole_self(tag):
        def f(aps, ty):
            if ty and ty[0] == "adt" and ty[1] == PRIM + "StrongholdProcedure":
                return "V" + tag
            return None
        return f
    for v in vs:
        u = a.under(whole_self(v))
        ex = [x for x in u.calls(r"Procedure(>)?::execute$|(Use|Derive|Generate)Secret(<.*>)?(>)?::exec$") if ":" + v in show(u.arg_term(x, 0))]
        others = [x for x in u.calls(r"Procedure(>)?::execute$|(Use|Derive|Generate)Secret(<.*>)?(>)?::exec$") if x not in ex]
        cx.ob("dispatch", v, bool(ex), b.loc, "the variant does not run its procedure")
        cx.ob("dispatch", v + ":only", not others, a.where(others[0]) if others else "", "another procedure is run")
        if ex:
            w = u.search(u.entry(), u.rets(), avoid=ex)
            cx.ob("dispatch", v + ":always", w is None, b.loc, "a path returns without running the procedure")
            for x in ex:
                cx.ob("dispatch", v + ":runner", show(u.arg_term(x, 1)).strip("*") == "arg1", u.where(x), "it runs on another runner")


def others(cx):
    """revocation and garbage collection act on the location given"""
    base = "<%s%%s as %sProcedure>::execute" % (PRIM, TYPES)
    b = cx.fn(base % "RevokeData")
    if b:
        a = cx.an(b, Exec())
        rv = a.calls(r"Runner(>)?::revoke_data$")
        gc = a.calls(r"Runner(>)?::garbage_collect$")
        cx.floor("revocations of RevokeData", len(rv), 1)
        for x in rv:
            cx.ob("role", "RevokeData", show(a.arg_term(x, 1)).strip("*") == "arg0.location", a.where(x), "the record revoked is %s" % show(a.arg_term(x, 1))[:80])
        w = a.search(a.entry(), a.rets("Ok"), avoid=rv)
        cx.ob("performed", "RevokeData", w is None, b.loc, "success without revoking")
        on, off = a.under(assume_field("should_gc", "1")), a.under(assume_field("should_gc", "0"))
        w = on.search(on.entry(), on.rets("Ok"), avoid=gc)
        cx.ob("selected", "RevokeData:should_gc", w is None and bool(gc), b.loc, "the record is not collected although it was asked for")
        cx.ob("selected", "RevokeData:!should_gc", not off.calls(r"Runner(>)?::garbage_collect$"), b.loc, "records are collected although it was not asked for")
        for x in gc:
            t = show(a.arg_term(x, 1))
            cx.ob("role", "RevokeData:gc", re.fullmatch(r"Location::resolve\(\**arg0\.location\)\.0", t) is not None, a.where(x), "the vault collected is %s" % t[:80])
            w = a.search(a.entry(), [x], avoid=rv)
            cx.ob("performed", "RevokeData:order", w is None, a.where(x), "the vault is collected before the record is revoked")
    b = cx.fn(base % "GarbageCollect")
    if b:
        a = cx.an(b, Exec())
        gc = a.calls(r"Runner(>)?::garbage_collect$")
        cx.floor("collections of GarbageCollect", len(gc), 1)
        for x in gc:
            d = a.arg_deps(x, 1)
            got = set()
            for v in d:
                got |= set(roots(v))
            cx.ob("role", "GarbageCollect", got == {"vault_path"} and not calls_in(d, a, LOSSY), a.where(x), "the vault collected depends on %s" % sorted(got))
        w = a.search(a.entry(), a.rets("Ok"), avoid=gc)
        cx.ob("performed", "GarbageCollect", w is None, b.loc, "success without collecting")
    # language names
    for p in sorted(cx.prog.by_path):
        if re.search(r"procedures::primitives::MnemonicLanguage as core::str::traits::FromStr>::from_str$", p):
            a = cx.an(p, NoOpaque())
            eqs = [x for x in a.calls(r"PartialEq(>)?::eq$|str::eq\w*$")]
            for x in eqs:
                ks = [str(k[1]).lower() for i in (0, 1) for k in consts(a.arg_deps(x, i)) if k[0] == "str"]
                for lang in ("English", "Japanese"):
                    if lang.lower() in ks:
                        u = a.under(None, lambda blk, x=x: {(): "1"} if blk == x else None)
                        got = set()
                        w = u.search(u.after(x), u.rets("Ok"))
                        for bl in u.g.blocks:
                            if bl.id in u.e.reached:
                                for st in bl.stmts:
                                    if st[0] == "=" and st[2][0] == "agg" and "MnemonicLanguage" in str(st[2][1]):
                                        if u.search(u.after(x), [bl.id], avoid=[y for y in eqs if y != x]):
                                            got.add(st[2][1][2])
                        cx.ob("language", lang, got == {lang}, a.where(x), "the name %s selects %s" % (lang, sorted(got)))


def conversions(cx):
    """outputs are handed over whole"""
    n = 0
    for p in sorted(cx.prog.by_path):
        if not re.search(r"procedures::types::ProcedureOutput as core::convert::From.*>::from$|as core::convert::(Try)?From<?.*ProcedureOutput.*>::(try_)?from$", p):
            continue
        for b in cx.prog.by_path[p]:
            if b.crate.name != "iota_stronghold" or str(b.locals[1]) == "('tuple', ())":
                continue
            a = cx.an(b, NoOpaque())
            d = a.f.deps(ret_deep(a) | a.ret_content((".0",)))
            n += 1
            unit = str(b.locals[0]) == "('tuple', ())"
            bad = calls_in(d, a, LOSSY)
            cx.ob("output", "%s:%d" % (short(p), n), unit or has_arg(d, 0) and not [v for v in bad if not re.search(r"::(len|is_empty)$", a.call(v[1]).path)], b.loc, "the output of a procedure is not handed over whole")
    cx.count("output conversions", n)
