"""P01: vault secrets never leave the client in the clear."""
from .common import *

TECHNIQUE = "information-flow analysis on the inlined MIR flow graph: what results, errors, logs, panics and hints may depend on, cut only at functions that declassify (signatures, public keys, MACs, encryption)"
EXPLANATION = ("Every procedure and every public operation of the client library is inlined, down to the external cryptography and to the decryption of a record. Sources: the buffers handed to a procedure, the decrypted content of a record, the secrets "
               "a procedure generates, and what the callback of the runner returns as secret. A result, an error value, a message that is logged, printed or panicked with, or a record's hint must not depend on a source, except through a function "
               "whose result may be revealed: a public key, a signature, a MAC or a ciphertext whose key is itself secret, the message decrypted with a secret key, a chain code, a length. Errors of the cryptography are opaque. The mnemonic "
               "returned by BIP39Generate and the comparison offered by the `insecure` feature are the two documented exceptions, each restricted to exactly that value. What a procedure returns as its secret goes to the vault only.")
ASSUMPTIONS = ["error values of the external cryptography do not contain keys or plaintexts", "the external cryptography computes what it documents", "timing and other side channels are out of scope",
               "lengths are not secret"]
NOTE = "All paths of every procedure and every public function; control dependence (which error is returned) is not tracked, only data dependence."

PROC = r"procedures::types::(UseSecret|DeriveSecret|GenerateSecret)>::(use_secret|derive|generate)$"
SIZE = r"::(len|is_empty|capacity|size_hint)$|mem::size_of\w*$|num_bytes$"
OPEN = r"::public_key$|::chain_code$"                                    # declassify whatever they are given
KEYED = {                                                               # reveal what is computed under a secret key: key argument, others
    r"SecretKey::sign$|Signer::sign$|Signer>::sign$": (0, (1,)),
    r"hmac::HMAC_SHA\d+$": (1, (0,)),
    r"(Aead|Aead>)::try_encrypt$": (0, (1, 2, 3)),
    r"(Aead|Aead>)::try_decrypt$": (0, (1, 2, 4, 5)),
    r"AesKeyWrap::wrap_key$": (0, (1,)),
    r"BoxProvider(>)?::box_seal$": (0, (1, 2)),
    r"engine::snapshot::logic::(read|read_from)$": (1, (0, 2)),             # the message received, decrypted with a secret key
}
WRITE = r"engine::snapshot::logic::(write|write_to)$"                    # encryption under the snapshot key (P15/P16)
OPAQUE_ERR = re.compile(r"\('adt', '(crypto::|core::(array::TryFromSliceError|num::|fmt::Error|str::)|std::io::|core::io::|alloc::boxed::Box', \(\('adt', 'bincode|bincode::|hkdf::|getrandom::|rand::)")
LOGS = r"std::io::stdio::_e?print$|log::(__private_api::)?\w*log\w*$|Write(>)?::(write_all|write_fmt|write)$|std::fs::write$|panicking::panic_(fmt|display|str)$|tracing\w*::"
UNWRAP = r"(Result|Option)::(unwrap|expect|unwrap_err|expect_err)$|result::unwrap_failed$"
C = "iota_stronghold::"


class Secrets(RuntimeOpaque):
    def opaque(self, b):
        return RuntimeOpaque.opaque(self, b) or bool(re.search(r"crypto_box::Decrypt(>)?::decrypt$|BoxProvider>::box_\w+$|snapshot::logic::\w+$|snapshot::compression::|KeyStore::\w+$|KeyProvider(>)?::\w+$|crypto_box::N?C?Key::\w+$", b.path))


def errs_opaque(a, b):
    """the error a call may give holds nothing of its arguments"""
    t = a.g.ty_of_place(a.call(b).dest)
    if t and t[0] == "adt" and t[1].endswith("Result") and len(t[2]) > 1:
        return bool(OPAQUE_ERR.search(str(t[2][1])[:200]))
    return False


def callees(a, b):
    """names of what a call may call"""
    c = a.call(b)
    if "<indirect>" not in (c.path or ""):
        return [x for x in (c.path, c.tpath) if x]
    return [v[1] if v[0] == "fn" else "?" for v in a.f.arg(b, 0)] or ["?"]


PRODUCTS = re.compile(r"::(derive|generate)$")


class Public(Secrets):
    def opaque(self, b):
        return Secrets.opaque(self, b) or bool(re.search(PROC, b.path))


class Taint:
    def __init__(self, a, src):
        """src(v): the value is secret"""
        self.a, self.src = a, src
        self.memo = {}

    def through(self, c, v):
        a, b = self.a, v[1]
        if v[0] == "call" and len(v) > 2 and v[2][:1] == (":Err",) and c.ext and errs_opaque(a, b):
            return ()
        names = callees(a, b)
        if any(re.search(SIZE + "|" + OPEN + "|" + WRITE, n) for n in names):
            return ()
        if all(self.keyed(b, n) for n in names):
            return ()
        return None

    def keyed(self, b, n):
        """a computation that may be revealed, as its key is secret (or nothing else about it is)"""
        for rx, (k, rest) in KEYED.items():
            if re.search(rx, n):
                key = (b, n)
                if key not in self.memo:
                    self.memo[key] = True
                    c = self.a.call(b)
                    o = 1 if "<indirect>" in (c.path or "") else 0
                    self.memo[key] = rx.startswith("BoxP") or bool(self.arg(b, k + o)) or not any(self.arg(b, i + o) for i in rest if i + o < len(c.args))
                return self.memo[key]
        return False

    def arg(self, b, i):
        a = self.a
        return self.of(a.f._deep(b, a.nblk(b), a.call(b).args[i]))

    def of(self, vals):
        """a secret the values may depend on"""
        for v in self.a.f.deps(vals, self.through):
            if self.src(v):
                return v
        return None


def ret(a, path):
    return a.ret_content(path)


def guard_like(t):
    return "runtime::memories::buffer::Buffer'" in str(t)


def messages(cx, a, t, n):
    """what is logged, printed or panicked with"""
    for b in a.calls(LOGS):
        for i in range(len(a.call(b).args)):
            v = t.arg(b, i)
            cx.ob("not-logged", n, v is None, a.where(b), "a secret is written out by %s" % short(a.call(b).path))
    for b in a.calls(UNWRAP):
        c = a.call(b)
        ty = a.g.ty_of_op(c.args[-1 if "unwrap_failed" in c.path else 0])
        if ty and ty[0] == "adt" and ty[1].endswith("Result") and len(ty[2]) > 1:
            if OPAQUE_ERR.search(str(ty[2][1])[:200]) or guard_like(ty[2][1]):
                continue                       # a guarded buffer shows nothing of its content (P30)
            v = t.of(a.f.arg(b, 0, (":Err", ".0")))
            cx.ob("not-panicked", n, v is None, a.where(b), "a panic message shows a secret")


def where_ret(a, vals, t):
    for v in vals:
        if t.of([v]):
            if v[0] in ("call", "mut", "op", "agg"):
                return a.where(v[1])
    return ""


def outputs(cx, a, n, t, oks):
    for p in oks:
        vs = ret(a, p)
        cx.ob("output", n, t.of(vs) is None, where_ret(a, vs, t), "%s returns a secret" % n)
    vs = ret(a, (":Err", ".0"))
    cx.ob("error", n, t.of(vs) is None, where_ret(a, vs, t), "an error of %s contains a secret" % n)
    messages(cx, a, t, n)


def check(cx):
    procedures(cx)
    runner(cx)
    operations(cx)


def procedures(cx):
    k = 0
    for p in sorted(cx.prog.by_path):
        m = re.search(PROC, p)
        if not m or not p.startswith("<" + C):
            continue
        a = cx.an(p, Secrets())
        if a is None:
            continue
        k += 1
        n = p.split(" as ")[0].split("::")[-1]
        if m.group(2) == "generate":
            generated(cx, a, n)
            continue
        src = lambda v: v[0] == "arg" and v[1] == 1
        if n == "CompareSecret" and m.group(2) == "use_secret":
            compare(cx, a, n, src)
            continue
        outputs(cx, a, n, Taint(a, src), [(":Ok", ".0")] if m.group(2) == "use_secret" else [(":Ok", ".0", ".output")])
    cx.floor("procedures", k, 15)


def compare(cx, a, n, src):
    """documented exception of the `insecure` feature: whether the record is the expected value, nothing else"""
    class T(Taint):
        def through(self, c, v):
            if any(re.search(r"Buffer'|'slice'|::Vec'", str(self.a.g.ty_of_op(o))) for o in c.args) and c.dest is not None and str(self.a.g.ty_of_place(c.dest)) in ("('bool',)", "bool", "('prim', 'bool')") and re.search(r"PartialEq(>)?::(eq|ne)$|ct_eq$", (c.path or "") + " " + (c.tpath or "")):
                return ()
            return Taint.through(self, c, v)
    outputs(cx, a, n, T(a, src), [(":Ok", ".0")])


SECRETS = r"::generate$|rand::fill$|mnemonic_to_seed$|PBKDF2_HMAC\w*$|::random\w*$|rand::\w+$"


def generated(cx, a, n):
    sec = a.f.deps(ret(a, (":Ok", ".0", ".secret")))
    made = {v[1] for v in sec if v[0] in ("call", "mut") and a.call(v[1]).ext and any(re.search(SECRETS, x) for x in callees(a, v[1]))}
    given = {v[2][:1] for v in sec if v[0] == "arg" and v[2] and re.search(r"::Vec'|String'|'u8'|Zeroizing", fty(a, 0, v[2][:1]))}
    cx.ob("secret", n, bool(made or given), "", "the secret of %s is not recognised" % n)

    def src(v):
        return v[1] in made and (v[0] == "mut" or v[0] == "call" and v[2][:1] != (":Err",)) or v[0] == "arg" and v[2][:1] in given
    t = Taint(a, src)
    if n == "BIP39Generate":
        # documented exception: the mnemonic
        vs = ret(a, (":Ok", ".0", ".output"))
        cx.ob("output", n, bool(vs) and all(v[0] == "call" and re.search(r"bip39::wordlist::encode$", a.call(v[1]).path) and v[2] == (":Ok", ".0") for v in vs), where_ret(a, vs, t), "BIP39Generate returns something else than the mnemonic")
        outputs(cx, a, n, t, [])
        return
    outputs(cx, a, n, t, [(":Ok", ".0", ".output")])


def fty(a, i, path):
    """type of an argument, or of its field"""
    t = a.g.ty_of_place((a.g.argvars[i], ()))
    while t and t[0] == "ref":
        t = t[1]
    if path and t and t[0] == "adt" and t[1] in a.prog.adts:
        fs = {f["n"]: f["t"] for v in a.prog.adts[t[1]]["variants"] for f in v["f"]}
        t = fs.get(path[0].lstrip("."))
    return str(t)


def decrypted(a):
    """calls that decrypt the content of a record"""
    return {b for b in a.calls(r"crypto_box::Decrypt(>)?::decrypt$") if "SealedBlob" in str(a.call(b).targs) + str(a.g.ty_of_op(a.call(b).args[0]))}


def runner(cx):
    """the runner hands secrets to the procedure, and what it returns as secret to the vault"""
    for nm in ("get_guards", "exec_proc"):
        ps = [p for p in cx.prog.by_path if re.search(r"<iota_stronghold::\S* as \S*procedures::types::Runner>::%s$" % nm, p)]
        cx.floor("implementations of Runner::" + nm, len(ps), 1)
        for p in ps:
            a = cx.an(p, Secrets())
            if a is None:
                continue
            d = decrypted(a)
            fs = [b for b in a.calls(r"FnOnce(<.*>)?::call_once$|FnMut::call_mut$|Fn::call$|<indirect>$")]
            fs = [b for b in fs if a.call(b).ext]
            cx.floor("decryptions in " + nm, len(d), 1)
            cx.floor("calls of the procedure in " + nm, len(fs), 1)

            class T(Taint):
                def through(self, c, v):
                    return () if v[1] in fs else Taint.through(self, c, v)

            def src(v):
                if v[0] not in ("call", "mut"):
                    return False
                if v[1] in d:
                    return v[0] == "mut" or v[2][:1] != (":Err",)
                if v[1] in fs and nm == "exec_proc" and v[0] == "call":
                    return not (v[2][:1] == (":Err",) or ".output" in v[2])
                return False
            t = T(a, src)
            outputs(cx, a, nm, t, [(":Ok", ".0")])
            hints(cx, a, nm, t)


def hints(cx, a, n, t):
    """a record's hint is listed to anyone: it is not made of the record"""
    for b in a.calls(r"RecordHint::new$|RecordHint as .*::try_from$"):
        for i in range(len(a.call(b).args)):
            v = t.arg(b, i)
            cx.ob("hint", n, v is None, a.where(b), "the hint of a record reveals its content")


def operations(cx):
    """no public operation of the library"""
    k = 0
    names = [p for p in sorted(cx.prog.by_path) if re.match(r"iota_stronghold::types::(client::Client|vault::ClientVault|snapshot::Snapshot|stronghold::Stronghold|store::Store)::\w+$|iota_stronghold::procedures::clientrunner::\w*|<iota_stronghold::types::client::Client as \S*Runner>::(write_to_vault|revoke_data|garbage_collect)$", p)]
    cx.floor("operations of the library", len(names), 30)
    for p in names:
        a = cx.an(p, Public())
        if a is None:
            continue
        k += 1
        n = p.split("::")[-1]
        procs = a.calls(PROC.rstrip("$"))
        d = decrypted(a)
        fs = [b for b in a.calls(r"FnOnce(<.*>)?::call_once$|FnMut::call_mut$|Fn::call$|<indirect>$") if a.call(b).ext]
        written = secret_args(cx, a, p)

        class T(Taint):
            def through(self, c, v):
                return () if v[1] in fs + procs else Taint.through(self, c, v)

        def src(v):
            if v[1] in procs and v[0] == "call":
                return bool(PRODUCTS.search(a.call(v[1]).path)) and not (v[2][:1] == (":Err",) or ".output" in v[2])
            return v[0] in ("call", "mut") and v[1] in d and (v[0] == "mut" or v[2][:1] != (":Err",)) or v[0] == "arg" and v[1] in written
        t = T(a, src)
        outputs(cx, a, n, t, [(":Ok", ".0"), (":Some", ".0"), ()] if not result(a) else [(":Ok", ".0")])
        hints(cx, a, n, t)


def result(a):
    return "result::Result'" in str(a.g.ty_of_place((a.g.retvar, ())))[:60]


def secret_args(cx, a, p):
    """the arguments that become the content of a record"""
    out = set()
    for b in a.calls(r"BoxProvider(>)?::box_seal$"):
        for v in a.f.deps(a.f._deep(b, a.nblk(b), a.call(b).args[2])):
            if v[0] == "arg" and v[1] > 0 and v[2] == () and re.match(r"\('adt', 'alloc::vec::Vec', \(\('prim', 'u8'|\('slice', \('prim', 'u8'|\('adt', 'zeroize::Zeroizing'", fty(a, v[1], ())):
                out.add(v[1])
    return out
