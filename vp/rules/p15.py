"""P15: snapshot content is authenticated before it is used."""
from .common import *

TECHNIQUE = "dominance of the authenticated decryption over every use of file content, with provenance of key, nonce, tag, ciphertext and header constants on the inlined MIR flow graph"
EXPLANATION = ("In the snapshot reader every successful return must pass through the AEAD decryption and through comparisons of the magic and version bytes; assuming any of "
               "them fails (or any read of the file comes short) no successful return may be reachable; the returned content and everything decompressed or deserialized "
               "must derive from the file only through the decryption's output; key, associated data, tag and ciphertext arguments are traced to their sources. The same for the public operations that load snapshots.")
ASSUMPTIONS = ["the AEAD primitive rejects any ciphertext, tag, nonce or associated data other than the encrypted one", "read_exact fills the buffer or fails"]
NOTE = "Decides control and data dependence for every input; trusts the cipher's authentication and std's read_exact/read_to_end."

DEC = r"Aead(>)?::(try_decrypt|decrypt)$|::(try_decrypt|decrypt_in_place\w*)$"
CUT = DEC + r"|::len$|::is_empty$"
READS = r"Read(>)?::(read|read_exact|read_to_end|read_to_string|read_buf|read_vectored|bytes|take)$|^std::fs::read(_to_string)?$|read_at$"
PARTIAL = r"Read(>)?::(read|read_buf|read_vectored)$"
PARSE = r"bincode::.*deserialize|serde_json::|Deserialize(>)?::deserialize$"


def reader(cx, a, name, arg_key, arg_aad, extra_src=None):
    decs = a.calls(DEC, ext=True)
    cx.floor("decryptions in " + name, len(decs), 1)
    reads = a.calls(READS, ext=True)
    ok = a.rets("Ok")
    must_precede(cx, a, "auth-before-ok", name, decs, a.ret_main("Ok"), "content is returned without authenticated decryption")
    for d in decs:
        fails(cx, a, "auth-failure", name, d, what="content is returned although authentication failed")
        kd = a.arg_deps(d, 0)
        if arg_key is not None:
            cx.ob("key-used", name, has_arg(kd, arg_key), a.where(d), "the decryption key does not depend on the given key")
        if arg_aad is not None:
            t = a.arg_term(d, 2)
            cx.ob("aad-used", name, t == ("init", ("obj", ("arg", arg_aad, ())), ()), a.where(d), "the associated data is not the given one: " + show(t))
        for i, what in ((4, "ciphertext"), (5, "tag")):
            dd = a.arg_deps(d, i)
            cx.ob(what + "-from-input", name, bool(calls_in(dd, a, READS)), a.where(d), "the %s does not come from the input" % what)
        cx.ob("tag-not-ciphertext", name, a.arg_term(d, 4) != a.arg_term(d, 5), a.where(d), "tag and ciphertext are the same data")
        cx.ob("tag-from-input-only", name, not calls_in(a.arg_deps(d, 5), a, r"try_encrypt|blake2b|Digest"), a.where(d), "the tag is computed from the content instead of being read")
    for r in reads:
        c = a.call(r)
        cx.ob("no-partial-read", name + ":" + a.where(r).split(":")[0] + ":" + short(c.path), not re.search(PARTIAL, c.path), a.where(r), "a partial read is used, a short file goes unnoticed")
        fails(cx, a, "read-failure", name + ":" + short(c.path), r, what="content is returned although reading failed")
    rd = ret_deps_cut(a, (":Ok", ".0"), CUT)
    bad = calls_in(rd, a, READS)
    # content handed back through pointers
    deep = a.f.deps(ret_deep(a, (":Ok", ".0")), cutter(a, CUT))
    bad = bad or calls_in(deep, a, READS)
    cx.ob("only-authenticated-content", name, not bad, a.where(bad[0][1]) if bad else "", "returned content depends on file bytes that were not authenticated")
    return decs, reads


def check(cx):
    a = cx.an("engine::snapshot::logic::read_from")
    if a is not None:
        decs, reads = reader(cx, a, "read_from", 1, 2)
        # header constants
        wr = cx.an("engine::snapshot::logic::write_to")
        hdr = []
        for cname in ("engine::snapshot::logic::MAGIC", "engine::snapshot::logic::VERSION"):
            c = cx.prog.consts.get(cname)
            cx.ob("anchor", "const:" + cname, c is not None and "bytes" in (c.get("v") or {}), "", "header constant %s is gone" % cname)
            if c is None or "bytes" not in (c.get("v") or {}):
                continue
            val = ("k", ("bytes", c["v"]["bytes"]))
            hits = []
            for b, l, r, ne in comparisons(a):
                sides = []
                for i in (0, 1):
                    o = a.f.content(b, len(a.g.blocks[b].stmts), a.call(b).args[i])
                    vs = a.arg_vals(b, i)
                    sides.append((set(o) | set(vs), i))
                for (x, i), (y, j) in ((sides[0], sides[1]), (sides[1], sides[0])):
                    if val in x and whole(a, b, i) and whole(a, b, j) and calls_in(a.arg_deps(b, j), a, READS):
                        hits.append(b)
            n = cname.rsplit("::", 1)[1]
            cx.floor("comparisons with " + n, len(hits), 1)
            if hits:
                must_precede(cx, a, "header-before-ok", n, hits, a.ret_main("Ok"), "content is returned without comparing " + n)
                for h in hits:
                    w = a.search(unequal(a, h), a.rets("Ok"))
                    cx.ob("header-mismatch", n, w is None, a.where(h), "content is returned although %s differs: %s" % (n, a.show(w) if w else ""))
        # decompression only sees authenticated bytes
        for d in a.calls(r"compression::.*decompress$|decoder::\w+::?\w*decompress\w*$"):
            if a.call(d).args:
                bad = calls_in(arg_deps_cut(a, d, 0, CUT), a, READS)
                cx.ob("decompress-after-auth", "read_from", not bad, a.where(d), "unauthenticated bytes are decompressed")
                must_precede(cx, a, "decompress-order", "read_from", decs, [d], "decompression runs before authentication")
    for path, kargs in (("engine::snapshot::logic::read", 1),):
        r = cx.an(path)
        if r is not None:
            reader(cx, r, short(path), 1, 2)
    n = 0
    for root in ("iota_stronghold::types::snapshot::Snapshot::read_from_snapshot",
                 "iota_stronghold::types::snapshot::Snapshot::import_from_serialized_state",
                 "iota_stronghold::types::stronghold::Stronghold::load_snapshot",
                 "iota_stronghold::types::stronghold::Stronghold::load_client_from_snapshot"):
        b = cx.an(root)
        if b is None:
            continue
        nm = short(root)
        allowed_dec = b.calls(DEC, ext=True)
        cx.floor("decryptions reached from " + nm, len(allowed_dec), 1)
        sinks = b.calls(PARSE, ext=True) + b.calls(r"compression::.*decompress$")
        cx.floor("parsers reached from " + nm, len(sinks), 1)
        # decryptions whose ciphertext was read directly from the file / from the bytes given
        outer = [d for d in allowed_dec if calls_in(b.arg_content(d, 4), b, READS)
                 and any("OpenOptions::open" in (b.call(v[1]).path or "") or b.call(v[1]).path.endswith("File::open") for v in b.arg_deps(d, 4) if v[0] == "call")
                 or root.endswith("import_from_serialized_state") and calls_in(b.arg_content(d, 4), b, READS) and has_arg(b.arg_deps(d, 4), 1)]
        for s in sinks:
            for i in range(len(b.call(s).args)):
                dd = arg_deps_cut(b, s, i, CUT)
                bad = [v for v in calls_in(dd, b, READS)]
                if root.endswith("import_from_serialized_state"):
                    bad = bad or has_arg(dd, 1)
                cx.ob("parse-after-auth", nm + ":" + short(b.call(s).path), not bad, b.where(s), "unauthenticated input reaches a parser")
        if root.endswith("import_from_serialized_state"):
            must_precede(cx, b, "auth-before-ok", nm, outer, b.ret_main("Ok"), "a state is merged without authenticated decryption")
        else:
            fd = [d for d in outer]
            cx.floor("decryptions of file content from " + nm, len(fd), 1)
            must_precede(cx, b, "auth-before-ok", nm, fd, b.ret_main("Ok"), "a snapshot is loaded without authenticated decryption")
        for d in outer:
            fails(cx, b, "auth-failure", nm, d, what="the operation succeeds although authentication failed")
            n += 1
    cx.floor("loader decryptions checked", n, 3)
