"""P16: every encryption uses fresh randomness."""
from .common import *

TECHNIQUE = "provenance and must-precede analysis of nonce and key material at every encryption call on the inlined MIR flow graph"
EXPLANATION = ("Every call of an AEAD encryption in the repository must lie in an analysed operation. For each, every alternative of the nonce must derive from a call of the "
               "system's secure generator made in the same execution, filling the whole buffer, before the encryption on every path and again in every loop iteration; its failure "
               "must not reach the encryption. The same provenance is required of generated vault keys, master keys, record content ids, client-state keys and generated secrets. "
               "No mutable static may feed an encryption.")
ASSUMPTIONS = ["crypto::utils::rand::fill, x25519/ed25519 SecretKey::generate, getrandom, libsodium randombytes and rand's ThreadRng/OsRng are secure generators that fill the buffer they are given"]
NOTE = "Decides where nonces and keys come from on every path; the quality of the system generator is trusted. The AEAD procedure takes its nonce from the caller by design."

ENC = r"Aead(>)?::(try_encrypt|encrypt)$|AeadInPlace(>)?::encrypt\w*$|aead::Aead(>)?::encrypt$"
SEAL = "as engine::vault::crypto_box::BoxProvider>::box_seal"


def enc_calls(cx, a, name):
    out = a.calls(ENC, ext=True)
    cx.floor("encryptions in " + name, len(out), 1)
    return out


def check(cx):
    prog = cx.prog
    roots = ["engine::snapshot::logic::write", "engine::snapshot::logic::write_to"]
    seals = sorted(p for p in prog.by_path if p.endswith(SEAL) and prog.by_path[p][0].local)
    cx.floor("implementations of box_seal", len(seals), 1)
    for r in roots + seals:
        a = cx.an(r)
        if a is None:
            continue
        n = short(r)
        for e in enc_calls(cx, a, n):
            c = a.call(e)
            b = a.g.blocks[e]
            vals = set()
            for v in a.arg_vals(e, 1):
                vals |= a.f.trace(e, len(b.stmts), v[1], v[2]) if v[0] == "ptr" else {v}
            vals |= set() if vals else a.arg_content(e, 1)
            check_fresh(cx, a, "nonce", n, vals, a.where(e), "nonce", sink=e)
            st = [v for i in range(len(c.args)) for v in a.arg_deps(e, i) if "static" in str(v)]
            cx.ob("no-static", n, not st, a.where(e), "a static feeds the encryption")
    # client states are encrypted under a key of their own
    a = cx.an("iota_stronghold::types::snapshot::Snapshot::add_data")
    if a is not None:
        outer = [e for e in a.calls(ENC, ext=True) if calls_in(a.arg_deps(e, 3), a, r"bincode::.*serialize$")]
        cx.floor("encryptions of a client state", len(outer), 1)
        for e in outer:
            d = a.arg_deps(e, 0)
            given = [i for i in range(4) if has_arg(d, i)]
            cx.ob("state-key", "add_data", not given, a.where(e), "the key of a client state is taken from the input instead of being drawn anew")
        ins = [b for b in a.calls(r"keystore::KeyStore::(insert_key|get_or_insert_key)$")]
        cx.floor("client state keys stored", len(ins), 1)
    # exports
    a = cx.an("iota_stronghold::types::snapshot::Snapshot::export_to_serialized_state")
    if a is not None:
        k = 0
        for e in a.calls(ENC, ext=True):
            if has_arg(a.arg_deps(e, 0), 2):
                k += 1
                f = fresh_deps(a, a.arg_deps(e, 0), set(secure_rngs(a)))
                cx.ob("export-key", "export_to_serialized_state", bool(f), a.where(e), "the handshake does not use a fresh ephemeral key")
        cx.floor("encryptions of an export", k, 1)
    # generated values
    gens = [("engine::vault::crypto_box::Key::random", "vault key"), ("engine::vault::types::utils::BlobId::random", "record content id"),
            ("engine::vault::crypto_box::NCKey::random", "master key")]
    for p, what in gens:
        a = cx.an(p)
        if a is None:
            continue
        fresh_result(cx, a, short(p), what)
    for p in sorted(prog.by_path):
        m = re.match(r"^<iota_stronghold::procedures::\w+::(Slip10Generate|GenerateKey|BIP39Generate) as iota_stronghold::procedures::types::GenerateSecret>::generate$", p)
        if m:
            a = cx.an(p)
            fresh_result(cx, a, m.group(1), "generated secret", (":Ok", ".0", ".secret"))
            cx.count("generating procedures", 1)
    cx.floor("generating procedures", cx.counts.get("generating procedures", 0), 3)
    # newly created vault keys and content ids at their points of use
    a = cx.an("iota_stronghold::security::keystore::KeyStore::create_key")
    if a is not None:
        rngs = set(secure_rngs(a))
        l = [b for b in a.calls(r"memories::buffer::Buffer::alloc$") if fresh_deps(a, a.arg_deps(b, 0), rngs)]
        cx.floor("fresh keys allocated by create_key", len(l), 1)
    a = cx.an("engine::vault::view::DbView::write")
    if a is not None:
        k = 0
        for e in a.calls(ENC, ext=True):
            if "".join(show(a.arg_term(e, 3))) == "*arg4":
                k += 1
                ad = set()
                for v in a.arg_content(e, 2):
                    ad.add(v)
                check_fresh(cx, a, "content-id", "DbView::write", ad, a.where(e), "record content id", sink=None)
        cx.floor("encryptions of record content", k, 1)
    a = cx.an("stronghold_utils::random::random", policy=NoOpaque())
    if a is not None:
        vals = a.ret_content(())
        f = fresh_deps(a, a.f.deps(vals), set(b.id for b in a.g.blocks if b.kind == "call" and b.call and re.search(r"rand::random$|Rng::gen$", b.call.path or "")))
        cx.ob("generator", "stronghold_utils::random", bool(f), "", "the random helper no longer draws from the secure generator")
    # no encryption outside the analysed operations
    covered_bodies = set()
    for a in list(cx._an.values()):
        for c in a.g.ctxs:
            covered_bodies.add(c.body.uid)
    n = 0
    for b in local_bodies(prog, ("engine", "iota_stronghold", "stronghold_native", "runtime")):
        if any(re.search(ENC, p) for p in mentions(b)):
            n += 1
            ok = b.uid in covered_bodies or "procedures::" in b.path
            cx.ob("covered", short(b.path), ok, b.path, "an encryption outside the analysed operations")
    cx.floor("functions that encrypt", n, 2)


def fresh_result(cx, a, n, what, path=None):
    ok = (":Ok", ".0") if a.result_kind_ret() == "Result" else ()
    p = path if path is not None else ok
    vals = set()
    for v in ret_deep(a, p):
        if v[0] != "ptr":
            vals.add(v)
    rngs = set(secure_rngs(a))
    f = fresh_deps(a, a.f.deps(vals), rngs)
    cx.ob("generated", n, bool(f), "", "the %s does not come from the secure generator" % what)
    for r in f:
        for i in range(len(a.call(r).args)):
            if re.search(r"fill|randombytes_buf", a.call(r).path or ""):
                cx.ob("generated-whole", n, whole(a, r, i), a.where(r), "only a part of the %s is random" % what)
        if a.result_kind(r) is not None:
            w = a.search(a.fail(r), a.rets("Ok") if ok else a.rets())
            cx.ob("generated-failure", n, w is None, a.where(r), "a %s is handed out although drawing it failed: %s" % (what, a.show(w) if w else ""))
