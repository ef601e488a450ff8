"""P20: malformed untrusted bytes give an error, never a panic."""
from .common import *
from ..bounds import Bounds, St, short as short_
from ..graph import Graph

TECHNIQUE = "abstract interpretation: difference-bound (zone) analysis of lengths, offsets and indexes over the inlined MIR of every decoder, with variants of results and options kept apart; panicking calls must be unreachable"
EXPLANATION = ("Every decoder of outside data (snapshot files, LZ4 blocks, base64 text, ciphertexts, ids, keys, transactions, serialized snapshot states) is inlined and interpreted over symbolic integers related by difference constraints x - y <= c: lengths "
               "of slices and vectors, counters, ranges. Loops are closed by widening. At every index, range, split, slice copy, subtraction, narrow sum, division, buffer size, and at every call that panics (unwrap, expect, panic!), the constraints of all "
               "states reaching it must exclude the failure. What a transaction decrypts to must be long enough for every view on it.")
ASSUMPTIONS = ["sums of usize do not overflow (they are bounded by the length of data held in memory)", "memory and random numbers can be obtained; a guarded buffer can be opened", "external decoders (bincode, the cryptography) return errors and do not panic",
               "the guarded buffer of a key provider has 32 bytes", "shift amounts are constants",
               "Base64::decode_data pushes three bytes for every chunk of four characters"]
NOTE = "All inputs: lengths and offsets are symbolic. Contents of bytes are not tracked; memory layer and std internals are taken at their contracts. Recursion depth of external deserializers is out of scope."

SURE = r"runtime::memories::|random_vec$|rand::|getrandom|PoisonError"
E_ = "engine::"
DECODERS = [
    r"^engine::snapshot::compression::decoder::decompress$",
    r"^engine::snapshot::logic::(read|read_from)$",
    r"^engine::vault::base64::Base64::decode_data$",
    r"^<iota_stronghold::internal::provider::Provider as engine::vault::crypto_box::BoxProvider>::box_open$",
    r"^<engine::vault::types::\S+ as core::convert::TryFrom>::try_from$",
    r"^engine::vault::types::utils::\w+::load$",
    r"^<engine::vault::\S+ as engine::vault::base64::Base64Decodable>::\w+$",
    r"^<iota_stronghold::security::keyprovider::KeyProvider as core::convert::TryFrom>::try_from$",
    r"^engine::vault::crypto_box::(NCKey::(load|decrypt_key)|Key::load)$",
    r"^iota_stronghold::security::keystore::KeyStore::rebuild_keystore$",
    r"^<iota_stronghold::procedures::primitives::(AeadDecrypt|AesKeyWrapDecrypt|AesKeyWrapEncrypt|AeadEncrypt|PublicKey|Ed25519Sign|X25519DiffieHellman|Slip10Derive|ConcatSecret|CopyRecord|Hmac) as \S+>::(use_secret|derive)$",
    r"^iota_stronghold::types::client::Client::restore$",
    r"^iota_stronghold::types::snapshot::Snapshot::(get_state|get_snapshot_state|import_from_serialized_state|read_from_snapshot)$",
    r"^iota_stronghold::types::stronghold::Stronghold::(load_client|load_client_from_snapshot|load_snapshot)$",
]


class Decode(RuntimeOpaque):
    def opaque(self, b):
        return RuntimeOpaque.opaque(self, b) or bool(re.search(r"AsView(Mut)?(>)?::view|DbView::(write|init_vault)$|as \S*sync::Sync\w+>::|sync::Sync\w+::|Snapshot::(add_data|store_\w+|merge_state)$|KeyProvider::\w+$|NCKey::random$", b.path))


def base64(B, st, what, p):
    """decode_data: a multiple of four characters, p of them padding, p <= 2: what is decoded has at least p bytes, as three
    bytes are pushed for every chunk, and there is a chunk unless there is no padding"""
    if what != "overflow:Sub" or not B.g.root.path.endswith("Base64::decode_data") or p[0] != "le":
        return False
    y = (p[1][0], p[1][1] - p[2][1])
    # the minuend is the length of a vector, not of the input
    if not any(v[0] == "vec" and v[1][0] == p[2][0] and v[1][0] is not None for v in st.env.values()):
        return False
    return st.hi(y) <= 2 and any(k % 4 == 0 and r == 0 for _, r, k in st.mod)


def bounds(cx, p, bodies):
    for i, body in enumerate(bodies):
        g = Graph(cx.prog, body, Decode())
        B = Bounds(g, SURE, base64)
        if "stronghold::Stronghold::" in p:
            B.keylen = 32
        B.run(St())
        yield g, B


def label(p):
    m = re.match(r"<(\S+) as ", p)
    return (m.group(1).split("::")[-1] + "::" if m else p.split("::")[-2] + "::") + p.split("::")[-1]


def check(cx):
    n = k = 0
    for d in DECODERS:
        ps = [p for p in sorted(cx.prog.by_path) if re.search(d, p)]
        cx.floor("decoders " + d[1:40], len(ps), 0 if "Base64Decodable" in d else 1)
        for p in ps:
            for g, B in bounds(cx, p, cx.prog.by_path[p]):
                n += 1
                k += len(B.sites)
                what = label(p)
                cx.count("blocks interpreted", len(B.states))
                for (b, w), detail in sorted(B.sites.items(), key=str):
                    if (b, w) not in B.bad:
                        cx.ob("bounded", what, True, g.where(b), detail)
                for (b, w), detail in sorted(B.bad.items(), key=str):
                    cx.ob("bounded", what, False, g.where(b), "%s, for some input of %s" % (detail, what))
                cx.ob("interpreted", what, any(r in B.states for r in g.rets), "", "%s never returns" % what)
    cx.floor("decoders interpreted", n, 35)
    cx.floor("places that may panic", k, 60)
    views(cx)


def size(prog, t, depth=0):
    """bytes of a packed type"""
    if depth > 8:
        return None
    if t[0] == "prim":
        return {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "u32": 4, "u64": 8, "i64": 8, "usize": 8, "u128": 16}.get(t[1])
    if t[0] == "array" and str(t[2]).isdigit():
        s = size(prog, t[1], depth + 1)
        return None if s is None else s * int(t[2])
    if t[0] == "adt" and t[1] in prog.adts:
        ss = [size(prog, f["t"], depth + 1) for v in prog.adts[t[1]]["variants"] for f in v["f"]]
        return None if None in ss else sum(ss)
    return None


def views(cx):
    """a view is only taken of bytes that hold it"""
    need = []
    for i in cx.prog.impls:
        tr = str(i.get("trait") or i.get("tr") or "")
        if "AsView" not in tr:
            continue
    T = "engine::vault::types::transactions::"
    for a in cx.prog.adts:
        if a.startswith(T) and a.endswith("Transaction") and a.split("::")[-1] not in ("Transaction", "SealedTransaction"):
            s = size(cx.prog, ("adt", a, ()))
            need.append((a, s))
    cx.floor("views on transactions", len(need), 3)
    for p in ("<%sTransaction as core::convert::TryFrom>::try_from" % T, "<%sTransaction as core::default::Default>::default" % T):
        for body in cx.prog.by_path.get(p, ()):
            g = Graph(cx.prog, body, Decode())
            B = Bounds(g, SURE)
            B.run(St())
            pre = (("d", "Ok"), ("f", "0")) if "TryFrom" in p else ()
            got = False
            for r in g.rets:
                for st in (B.states.get(r) or {}).values():
                    st = st.copy()
                    B.blk = r
                    for s in g.blocks[r].stmts:
                        B.stmt(st, s)
                    tag = st.env.get((g.retvar, ()))
                    if pre and tag is not None and tag == ("v", "Err"):
                        continue
                    got = True
                    v = st.env.get((g.retvar, pre + (("f", "0"),)))
                    lo = st.lo(v[1]) if v is not None and v[0] == "vec" else 0
                    for a, s in need:
                        cx.ob("view", p.split(" as ")[1].split(">")[0].split("::")[-1] + "/" + a.split("::")[-1], s is not None and lo >= s, g.where(r), "a transaction of %s bytes is viewed as %s of %s bytes" % (lo, a.split("::")[-1], s))
            cx.ob("interpreted", "Transaction " + p.split("::")[-1], got, "", "%s never succeeds" % p)
