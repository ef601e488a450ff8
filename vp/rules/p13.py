"""P13: snapshot synchronisation honours its mapping and selection and reports failure."""
from .common import *
from . import p12
from .p12 import (ALL, EXPORT, IMPORT, KEEP, LOOKUP, Origins, Sync, Tests, aimed, all_texts, alts, config, decisions, effects, entry_of, from_call, held, is_call, kept, loop_body, loops, picked,
                  provenance, reports, texts, unref, wins)

TECHNIQUE = p12.TECHNIQUE.replace("vault, record and key", "client, vault, record and key")
EXPLANATION = ("Merging a snapshot state and exporting one are inlined, with the client-level synchronisation inside, down to the vault database and to the encryption of client states. On top of the obligations of client synchronisation (P12: "
               "provenance of every imported vault, record and key; what is selected is copied, what is not is not; keep-old) it is checked that each client is written under what the client mapping gives for that very client, from the state "
               "stored under that id, with the configuration given for the source client (or the default with the given merge policy); that nothing is written for a client whose import failed, and that every failing step is reported; that the "
               "state of a client keeps its store; that the keys records are decrypted with belong to the source client. Export: every selected record is exported from its own client and vault, into the same client and vault of a blank state, "
               "which is what gets serialised, compressed and encrypted. Import: the decrypted state is what is merged, under the given configuration.")
ASSUMPTIONS = p12.ASSUMPTIONS + ["encryption of the exported bytes is covered by P15/P16"]
NOTE = "All paths of Snapshot::{merge_state, export_to_serialized_state, import_from_serialized_state, get_state, add_data} and the configuration setters, each under the stated hypotheses."

S = "iota_stronghold::types::snapshot::Snapshot::"
CFG = "iota_stronghold::sync::SyncSnapshotsConfig::"


def merge_names(x):
    x = re.sub(r"Iterator::(collect|cloned|copied|into_iter|collect)\(HashMap::keys\(arg1\.0\)\)", "KEYS", x)
    x = re.sub(r"(Iterator::(collect|cloned|copied)|IntoIterator::into_iter)\((KEYS|HashMap::(keys|into_keys)\(arg1\.0\))\)", "KEYS", x)
    x = re.sub(r"HashMap::keys\(arg1\.0\)", "KEYS", x)
    x = re.sub(r"\*?KEYS\[\]", "CC", x)
    x = x.replace("{CC | arg2.select_clients:Some.0[]}", "C")
    x = x.replace("CC", "C")
    x = re.sub(r"\*?HashMap::(get|remove|get_mut)\(arg1\.0, C\):Some\.0", "ST", x)
    return x.replace("DbView::list_vaults(ST.1)[]", "V")


def check(cx):
    p12.NORM.append(merge_names)
    try:
        merge(cx)
    finally:
        p12.NORM.pop()
    export(cx)
    importing(cx)
    states(cx)
    config(cx, CFG, (("sync_selected_clients", "select_clients"),), (("map_clients", "map_clients"),), r"load_from_path$", "snapshot")
    per_client(cx)


def read_by(v):
    """the call whose result, or whose target, a value is read from"""
    while isinstance(v, tuple) and v and v[0] in ("init", "ptr", "o") and isinstance(v[1], tuple):
        v = v[1]
    return v[1] if isinstance(v, tuple) and v and v[0] in ("call", "mut") else None


def is_fresh(a, b):
    return bool(re.search(r"HashMap::(new|with_capacity)$|HashMap as core::default::Default>::default$|Default::default$", a.call(b).path))


def merge(cx):
    n = "merge_state"
    a, m = cx.an(S + n, Sync()), cx.an(S + n, Origins(), key="origins")
    if a is None or m is None:
        return
    cc = r"\*?HashMap::get\(arg2\.client_config, C\):Some\.0"
    spec = dict(dst_db=r"^\*?(Snapshot::get_state|HashMap::\w+|Entry::\w+)\(.*\)(:\w+\.0)?\.1$", src_db=r"^ST\.1$", src_ks=r"^\*?HashMap::(get|remove)\(.*, C\):Some\.0$|^ST\.0$", dst_ks=r"^\*?(Snapshot::get_state|Entry::\w+)\(.*\)(:\w+\.0)?\.0$",
                vaults=r"^V$", map=r"^%s\.map_vaults$|^Default::default\(\)$" % cc, sel=r"^\**%s\.select_vaults:Some\.0$" % cc, recs=r"^%s\.select_records$" % cc,
                none=r"^\*?\{?transmute\(0x0+\)|^Default::default\(\)$", adts=True)
    imps = provenance(cx, a, m, n, spec)
    puts = a.calls(r"Snapshot::add_data$")
    cx.floor("client states written by the merge", len(puts), 1)
    t = decisions(cx, a, n, imps + puts)
    cx.floor("changes of the target in " + n, effects(cx, a, n, spec), 1)
    reports(cx, a, n, imps)
    C = {"C", "arg2.select_clients:Some.0[]"}
    cspec = dict(map=r"^arg2\.map_clients$")
    for b in m.calls(r"Snapshot::(get_state|add_data)$"):
        k = short(m.call(b).path)
        cx.ob("target-client", n + ":" + k, aimed(m.arg_term(b, 1, 40), C, cspec), m.where(b), "the client written to is neither the source's nor the one it is mapped to: " + " / ".join(texts(m.arg_term(b, 1, 40)))[:200])
        cx.ob("client-mapping-wins", n + ":" + k, wins(m, b, 1, C), m.where(b), "a mapped client is merged into another client than the one it is mapped to")
        cx.ob("own-snapshot", n + ":" + k, texts(m.arg_term(b, 0, 40)) == ["*arg0"], m.where(b), "another snapshot is changed")
    for b in puts:
        # same client: plain terms
        gs = [g for g in a.calls(r"Snapshot::get_state$") if g in dep_blks(a.arg_deps(b, 2))]
        near = [g for g in gs if held(a, g, 1) == held(a, b, 1)]
        cx.ob("same-client", n, bool(near), a.where(b), "a client is overwritten with a state that is not its own")
        cx.ob("state-written", n, any(i in dep_blks(a.arg_deps(b, 2)) for i in imps), a.where(b), "the state written does not hold the imported records")
        st = [read_by(v) for v in a.arg_content(b, 2, (".2",))]
        cx.ob("store-kept", n, bool(st) and all(s in gs + imps for s in st), a.where(b), "merging changes the store of a client")
        for i in imps:
            if a.result_kind(i) == "VErr":
                w = a.search(a.fail(i), [b])
                cx.ob("nothing-written-on-failure", n, w is None, a.where(i), "" if w is None else "a client is written although merging it failed: " + a.show(w))
    # the clients: configuration and keys
    tests = Tests(m)
    for b in tests.sel["ClientId"]:
        cx.ob("clients-selected-by", n, any(re.search(r"^\**arg2\.select_clients:Some\.0$", x) for x in all_texts(m.arg_term(b, 0, 40))), m.where(b), "clients are not selected by the given selection")
        cx.ob("clients-selected", n, set(texts(m.arg_term(b, 1, 40))) <= C, m.where(b), "the selection of clients is applied to something else than the source's client")
    picked(cx, m, tests, n, "ClientId", [(b, 1) for b in m.calls(r"Snapshot::(get_state|add_data)$")], r"^arg2\.select_clients:Some\.0\[\]$")
    cfgs = [b for b in m.calls(LOOKUP) if "SyncClientsConfig'" in str(m.g.ty_of_place(m.call(b).dest))]
    cx.floor("lookups of the configuration of a client", len(cfgs), 1)
    for b in cfgs:
        cx.ob("client-config", n, texts(m.arg_term(b, 0, 40)) == ["arg2.client_config"] and set(texts(m.arg_term(b, 1, 40))) <= C, m.where(b), "the configuration is looked up for something else than the source's client")
    for b in m.calls(LOOKUP):
        ty = str(m.g.ty_of_place(m.call(b).dest))
        if "crypto_box::Key'" in ty and "HashMap'" in ty and "DbView'" not in ty and "ClientId" in str(m.g.ty_of_op(m.call(b).args[1])):
            cx.ob("keys-of-client", n, set(texts(m.arg_term(b, 1, 40))) <= C, m.where(b), "the keys of another client than the source's are used")
    olds = [b for b in a.calls(KEEP) if len(a.call(b).args) > 2 and "crypto_box::Key'" in str(a.g.ty_of_op(a.call(b).args[2]))]
    for b in olds:
        for v in held(a, b, 2):
            l = from_call(v)
            ok = l is not None and re.search(LOOKUP, a.call(l).path) and held(a, l, 1) == held(a, b, 1) and v[-1][-1:] == (".0",) and has_arg(a.arg_deps(l, 0), 1)
            cx.ob("keys-of-client", n + ":collected", bool(ok), a.where(b), "the keys kept for a client are not its own")
    defaults(cx, m, tests, n)


def defaults(cx, a, t, n):
    """every decision on the merge policy is on that of the source client's configuration, or on the given one"""
    at = [(b, op) for b in t.policy for op in a.call(b).args]
    for b in a.g.blocks:
        if b.id in a.e.reached:
            at += [(b.id, ("copy", st[2][1])) for st in b.stmts if st[0] == "=" and st[2][0] == "discr" and "sync::MergePolicy'" in str(a.g.ty_of_place(st[2][1]))]
    seen = set()
    for b, op in at:
        for x in texts(a.op_term(b, op, 40)):
            x = x.lstrip("*")
            if re.match(r"^\{?'?(k|prom|const)|^\d|^MergePolicy", x):
                continue
            own = re.search(r"^HashMap::get\(arg2\.client_config, C\):Some\.0\.merge_policy$", x)
            seen |= {"own"} if own else {"given"} if x == "arg2.merge_policy" else set()
            cx.ob("merge-policy", n, bool(own) or x == "arg2.merge_policy", a.where(b), "a client is not merged under the policy of its configuration, or the given one: " + x[:200])
    cx.ob("merge-policy", n + ":both", seen == {"own", "given"}, "client/src/sync.rs", "the merge policy of the client's configuration or the given one is not used")


def export(cx):
    n = "export_to_serialized_state"
    a, m = cx.an(S + n, Sync()), cx.an(S + n, Origins(), key="origins")
    if a is None or m is None:
        return
    imps = m.calls(IMPORT)
    cx.floor("imports into the exported state", len(imps), 1)
    reports(cx, a, n, imps)
    SRC = r"^\*?Snapshot::get_state\(\*arg0, arg1\[\]\.0\):Ok\.0"
    none = r"Default::default\(\)"
    for b in imps:
        w = m.where(b)
        arg = [m.arg_term(b, i, 40) for i in range(5)]
        for e in alts(arg[4]):
            ok = bool(is_call(e, EXPORT)) and all(re.search(SRC + r"\.1$", x) for x in texts(e[2][0])) and texts(e[2][1]) == ["arg1[].1[].0"] and texts(e[2][2]) == ["arg1[].1[].1"]
            cx.ob("export-records", n, ok, w, "the records exported are not those given for their client and vault: " + show(e)[:200])
        for v in alts(arg[3]):
            l = unref(v)
            cx.ob("export-vault", n, show(v) == "arg1[].1[].0" or bool(is_call(l, LOOKUP)) and all(re.search(none, x) for x in texts(l[2][0])), w, "records are exported into another vault than their own: " + show(v)[:200])
        for k in alts(arg[1]):
            k = unref(k)
            cx.ob("export-old-key", n, bool(is_call(k, LOOKUP)) and texts(k[2][1]) == ["arg1[].1[].0"], w, "exported records are not decrypted under the key of their vault")
        for k in alts(arg[2]):
            k = entry_of(unref(k))
            cx.ob("export-new-key", n, bool(is_call(k, LOOKUP + r"|(HashMap|BTreeMap)::entry$")) and texts(k[2][1]) == texts(arg[3]) and not any("get_state" in x for x in texts(k[2][0])), w, "exported records are not encrypted under a key of the exported state")
    for b in m.calls(r"HashMap::entry$"):
        if "ClientId'" in str(m.g.ty_of_op(m.call(b).args[1])):
            for v in alts(m.arg_term(b, 1, 40)):
                l = unref(v)
                cx.ob("export-client", n, show(v) == "arg1[].0" or bool(is_call(l, LOOKUP)) and all(re.search(none, x) for x in texts(l[2][0])), m.where(b), "a client is exported under another id")
    for b in a.calls(KEEP):
        c = a.call(b)
        if len(c.args) > 2 and "ClientId'" in str(a.g.ty_of_op(c.args[1])) and "crypto_box::Key'" in str(a.g.ty_of_op(c.args[2])):
            gs = [read_by(v) for v in held(a, b, 2)]
            cx.ob("export-keys", n, all(g is not None and a.call(g).path.endswith("Snapshot::get_state") and held(a, g, 1) == held(a, b, 1) for g in gs) and bool(gs), a.where(b), "the keys kept for an exported client are not its own")
    # everything selected gets there
    t = Tests(a)
    u = t.hyp(ALL)
    for l, k in loops(u):
        st, again = loop_body(u, l)
        ends = kept(u, l) + imps + [b for b in u.calls(r"Entry::or_default$|Entry::or_insert\w*$")]
        p = u.search(st, list(again) + u.rets("Ok"), avoid=ends)
        cx.ob("export-complete", "%s:%s" % (n, k), p is None, u.where(l), "" if p is None else "a selected %s is not exported: %s" % (k, u.show(p)))
        bad = calls_in(a.arg_deps(l, 0), a, p12.CUT)
        cx.ob("export-complete", "%s:%s:all" % (n, k), not bad, a.where(l), "only some of the selected elements are exported")
        p = a.search(loop_body(a, l)[0], a.rets("Ok"), avoid=again)
        cx.ob("export-complete", "%s:%s:to-end" % (n, k), p is None, a.where(l), "the export ends before its last element")
    # what is written
    ws = a.calls(r"snapshot::logic::write$")
    cx.floor("encryptions of the exported state", len(ws), 1)
    for b in ws:
        d = a.arg_deps(b, 0)
        ser = [x for x in a.calls(r"bincode::\w*serialize\w*$|Serialize>?::serialize$") if x in dep_blks(d)]
        cmpr = [x for x in a.calls(r"engine::snapshot::compression::.*\bcompress\w*$") if x in dep_blks(d)]
        cx.ob("export-written", n, bool(ser) and bool(cmpr), a.where(b), "what is encrypted is not the serialised and compressed state")
        for x in ser:
            dd = a.arg_deps(x, 0)
            fresh = {y for y in dep_blks(dd) if is_fresh(a, y)}
            tgt = [y for y in a.calls(r"HashMap::(entry|insert|get_mut)$") if "DbView'" in str(a.g.ty_of_op(a.call(y).args[0])) and dep_blks(a.arg_deps(y, 0)) & fresh]
            cx.ob("export-state", n, bool(tgt) and not has_arg(dd, 0), a.where(x), "what is serialised is not the exported state")
        must_precede(cx, a, "export-done", n, [b], a.rets("Ok"), "the export succeeds without a written state")
        fails(cx, a, "failure-reported", n + ":write", b)
    for x in a.calls(r"bincode::\w*serialize\w*$|SecretKey::generate$"):
        if a.result_kind(x) == "VErr":
            fails(cx, a, "failure-reported", n + ":" + short(a.call(x).path), x)


class Merge(Sync):
    def opaque(self, b):
        return Sync.opaque(self, b) or b.path.endswith("Snapshot::merge_state")


def importing(cx):
    n = "import_from_serialized_state"
    a = cx.an(S + n, Merge())
    if a is None:
        return
    ms = a.calls(r"Snapshot::merge_state$")
    rd = a.calls(r"snapshot::logic::read$")
    cx.floor("merges of a received state", len(ms), 1)
    cx.floor("decryptions of a received state", len(rd), 1)
    for b in ms:
        fs = [f for f in ("select_clients", "map_clients", "client_config", "merge_policy")]
        cx.ob("merge-config", n, texts(a.arg_term(b, 2)) == ["arg4"] and all(set(a.arg_vals(b, 2, ("." + f,))) == {("arg", 4, ("." + f,))} for f in fs), a.where(b), "the received state is not merged under the given configuration")
        d = a.arg_deps(b, 1)
        cx.ob("merge-received", n, any(r in dep_blks(d) for r in rd) and has_arg(d, 1), a.where(b), "what is merged is not the received state")
        fails(cx, a, "failure-reported", n + ":merge", b)
        must_precede(cx, a, "merged", n, [b], a.rets("Ok"), "success is returned without having merged the received state")
        for x in rd + a.calls(r"bincode::\w*deserialize\w*$|engine::snapshot::compression::.*\bdecompress\w*$|DbView::get_guard$"):
            if a.result_kind(x) == "VErr":
                w = a.search(a.fail(x), [b])
                cx.ob("merge-only-valid", n + ":" + short(a.call(x).path), w is None, a.where(x), "" if w is None else "a state that could not be read is merged: " + a.show(w))
                fails(cx, a, "failure-reported", n + ":" + short(a.call(x).path), x)


class Held(RuntimeOpaque):
    def opaque(self, b):
        return RuntimeOpaque.opaque(self, b) or bool(re.search(r"KeyStore::\w+$|snapshot::logic::\w+$|crypto_box::\w+::|clone::Clone>::clone$", b.path))


def states(cx):
    """a client's state is kept and found under its own id"""
    a = cx.an(S + "get_state", Held())
    if a is not None:
        for b in a.calls(r"HashMap::get$"):
            if at_field(a, b, 0, ".states"):
                cx.ob("state-id", "get_state", texts(a.arg_term(b, 1)) == ["arg1"], a.where(b), "the state of another client is read")
        ks = a.calls(r"KeyStore::get_key$")
        cx.floor("state keys looked up", len(ks), 1)
        for b in ks:
            cx.ob("state-key-id", "get_state", has_arg(a.arg_deps(b, 1), 1), a.where(b), "a client's state is decrypted with another client's key")
    a = cx.an(S + "add_data", Held())
    if a is not None:
        ins = [b for b in a.calls(r"HashMap::insert$|Entry::insert_entry$") if at_field(a, b, 0, ".states")]
        cx.floor("states stored", len(ins), 1)
        for b in ins:
            cx.ob("state-id", "add_data", texts(a.arg_term(b, 1)) == ["arg1"], a.where(b), "a client's state is stored under another id")
        for b in a.calls(r"KeyStore::(insert_key|get_or_insert_key)$"):
            cx.ob("state-key-id", "add_data", has_arg(a.arg_deps(b, 1), 1), a.where(b), "the key of a client's state is stored under another id")
        for b in a.calls(r"HashMap::(remove|clear|retain|drain)$"):
            if at_field(a, b, 0, ".states"):
                cx.ob("others-kept", "add_data", False, a.where(b), "storing a client's state removes others")


def per_client(cx):
    a = cx.an(CFG + "config_client_sync", Sync())
    if a is None:
        return
    ins = [b for b in a.calls(r"HashMap::insert$") if at_field(a, b, 0, ".client_config")]
    cx.floor("configurations stored", len(ins), 1)
    for b in ins:
        cx.ob("client-config-stored", "config_client_sync", texts(a.arg_term(b, 2)) == ["arg2"] and has_arg(a.arg_deps(b, 1), 1) and bool(calls_in(a.arg_deps(b, 1), a, "load_from_path$")), a.where(b), "a client's configuration is not stored under its id")
    must_precede(cx, a, "client-config-stored", "config_client_sync:always", ins, a.rets(), "a client's configuration is dropped")
