"""P18: commit persists, and load restores, every component of every client."""
from .common import *

TECHNIQUE = "provenance of what is stored and restored, coverage of loops over clients, keys and states on the inlined MIR flow graph, and field coverage of the derived serialisers"
EXPLANATION = ("Every commit operation is inlined. Each iteration over the loaded clients, over the keys of a client and over the states of the snapshot must come from the whole map, unfiltered, and each element taken must "
               "be inserted into the result before the next element is taken, the file written or success returned. The stored state of a client derives from the key store, the vaults and the store of the very client "
               "looked up under the stored id. The bytes written to the file derive from the serialised states and precede every successful return. Each load operation inserts a client under the requested id whose key "
               "store, vaults and store derive from the state found under the same id, assigned on every path before the insertion. Every serialiser of a persisted type reads every field.")
ASSUMPTIONS = ["bincode and serde containers serialise what they are given", "the framing of the snapshot file is inverted by reading it (P14, P15, P33)"]
NOTE = "All paths of all commit and load operations and all persisted types; encryption and file framing are boundaries."

S = "iota_stronghold::types::stronghold::Stronghold::"
IFILTER = r"Iterator(>)?::(filter|filter_map|skip|skip_while|take|take_while|step_by|map_while|find|find_map|nth|last|position|scan)$|::(truncate|drain|split_off|retain|pop|swap_remove|dedup\w*|remove)$"
WRITE = r"engine::snapshot::logic::write_to$"
PARTS = (("key store", (".keystore",)), ("vaults", (".db",)), ("store", (".cache", ".table")))


def check(cx):
    prog = cx.prog
    ops = [p for p in sorted(prog.by_path) if p.startswith(S) and "{{" not in p and prog.by_path[p][0].pub]
    st = [0, 0, 0]
    for p in ops:
        a = cx.an(p, Coarse())
        n = short(p)
        ins = [b for b in a.calls(r"HashMap::insert$") if at_field(a, b, 0, ".states") and from_clients(a, b)]
        if ins:
            st[0] += 1
            persist(cx, a, n, ins)
        w = a.calls(WRITE)
        if w:
            st[1] += 1
            written(cx, a, n, w, ins)
        loads = [b for b in a.calls(r"HashMap::insert$") if at_field(a, b, 0, ".clients") and lookups(a, ".states")]
        if loads:
            st[2] += 1
            restored(cx, a, n, loads)
        if a.calls(r"engine::snapshot::logic::read_from$"):
            reloaded(cx, a, n)
    cx.floor("operations that store client states", st[0], 3)
    cx.floor("operations that write the snapshot file", st[1], 2)
    cx.floor("operations that load clients", st[2], 2)
    serialisers(cx)


def from_clients(a, b):
    return any(at_field(a, l, 0, ".clients") for l in map_calls(a, a.arg_deps(b, 2)))


def map_calls(a, deps):
    return [v[1] for v in deps if v[0] in ("call", "mut") and a.call(v[1]).args and re.search(r"HashMap::(get|get_mut|iter|iter_mut|values|values_mut|keys|remove|into_iter)$", a.call(v[1]).path or "")]


def persist(cx, a, n, ins):
    for b in ins:
        K = show(a.arg_term(b, 1, 30))
        d = a.arg_deps(b, 2)
        ls = [l for l in set(map_calls(a, d)) if at_field(a, l, 0, ".clients")]
        gets = [l for l in ls if re.search(r"::(get|get_mut|remove)$", a.call(l).path)]
        for l in gets:
            cx.ob("same-client", n, show(a.arg_term(l, 1, 30)) == K, a.where(b), "a state is stored under another id than that of its client")
        kd = dep_blks(a.arg_deps(b, 1))
        for x, kind, dd in iterations(a, ".clients"):
            if kind == "next" and any(v[0] == "call" and v[1] == x for v in d):
                cx.ob("same-client", n, x in kd, a.where(b), "a state is stored under another id than that of its client")
        names = set()
        for v in d:
            if v[0] in ("init", "ptr"):
                names |= set(x for x in v[2] if isinstance(x, str))
        for what, f in PARTS:
            cx.ob("part-stored", n + ":" + what, bool(names & set(f)), a.where(b), "the stored state of a client does not contain its %s" % what)
    w = a.calls(WRITE)
    loops(cx, a, n, ".clients", ins, w)
    inner = [b for b in a.calls(r"HashMap::insert$") if b not in ins]
    loops(cx, a, n, ".store", inner, ins)
    if not iterations(a, ".clients"):
        must_precede(cx, a, "client-stored", n, ins, a.rets("Ok"), "success is returned although the client was not stored")


def loops(cx, a, n, field, ins, stop):
    for b, kind, d in iterations(a, field):
        cx.ob("all-elements", n + ":" + field, not calls_in(d, a, IFILTER), a.where(b), "only some of the elements of %s are visited" % field)
        starts, again = loop_body(a, b)
        if not starts or not ins:
            continue
        if kind == "cb" and not re.search(r"for_each$", a.call(b).path):
            continue
        w = a.search(starts, list(again) + ([] if kind == "cb" else list(stop) + a.rets("Ok")), avoid=list(ins) + (kept(a, b) if kind == "next" else []))
        cx.ob("each-element", n + ":" + field, w is None, a.where(b), "" if w is None else "an element of %s is left out: %s" % (field, a.show(w)))
        # no early end of the loop that still counts as success
        if kind == "cb":
            continue
        inl = [i for i in list(ins) + kept(a, b) if a.search(starts, [i], avoid=[b])]
        if inl:
            w = a.search([y for i in inl for y in a.after(i)], list(stop) + a.rets("Ok"), avoid=[b])
            cx.ob("loop-finished", n + ":" + field, w is None, a.where(b), "" if w is None else "the loop over %s ends early: %s" % (field, a.show(w)))


def written(cx, a, n, w, ins):
    for b in w:
        d = a.arg_deps(b, 0)
        ser = calls_in(d, a, r"bincode::serialize$")
        cx.ob("states-serialised", n, bool(ser) and any(at_field(a, l, 0, ".states") for l in map_calls(a, d)), a.where(b), "the bytes written do not derive from the states of the snapshot")
        if ins:
            x = a.search(a.after(b), ins)
            cx.ob("stored-before-written", n, x is None, a.where(b), "" if x is None else "a client is stored after the file was written: " + a.show(x))
    res = [b for b in a.calls(r"HashMap::insert$") if not at_field(a, b, 0, ".states") and any(at_field(a, l, 0, ".states") for l in map_calls(a, a.arg_deps(b, 2)))]
    loops(cx, a, n, ".states", res, w)
    must_precede(cx, a, "file-written", n, w, a.rets("Ok"), "success is returned without writing the file")
    for b in res:
        d = a.arg_deps(b, 2)
        K = show(a.arg_term(b, 1, 30))
        for l in set(map_calls(a, d)):
            if at_field(a, l, 0, ".states") and a.call(l).path.endswith("::get"):
                cx.ob("same-state", n, show(a.arg_term(l, 1, 30)) == K, a.where(b), "a state is written under another id")
        t = " ".join(str(v[2]) for v in d if v[0] in ("init", "ptr") and v[1][0] == "o")
        cx.ob("state-decrypted", n, bool(calls_in(d, a, r"logic::read$")), a.where(b), "the written state lacks the keys and vaults of the client")
        cx.ob("state-store", n, ".table" in t, a.where(b), "the written state lacks the store of the client")


TY = {"keystore": r"keystore::KeyStore$", "db": r"view::DbView$", "store": r"cache::Cache$"}
FIELD = {"keystore": [(".keystore",)], "db": [(".db",)], "store": [(".store", ".cache"), (".store",)]}


def restored(cx, a, n, loads):
    sts = lookups(a, ".states")
    gets = [l for l in sts if re.search(r"::(get|get_mut|remove)$", a.call(l).path)]
    for b in loads:
        K = show(a.arg_term(b, 1, 30))
        ok = [l for l in gets if show(a.arg_term(l, 1, 30)) == K]
        for f, paths in FIELD.items():
            d = set()
            for p in paths:
                d |= a.f.deps(deep_of(a, b, a.arg_vals(b, 2, p)))
            wr = writes(a, TY[f])
            if wr:
                for x, i, op in wr:
                    if re.search("HashMap|keystore", f) and False:
                        pass
                    d |= a.f.deps(a.f._deep(x, i, op))
                client = [x for x, i, op in wr if any(v[0] == "o" for v, pp in a.f.resolve(x, i, a.g.blocks[x].stmts[i][1]))]
                if client:
                    must_precede(cx, a, "part-restored-always", n + ":" + f, client, [b], "the client is made available without its %s" % f)
            got = dep_blks(d)
            cx.ob("part-restored", n + ":" + f, bool(got & set(ok)), a.where(b), "the %s of the loaded client does not derive from the state stored under its id" % f)
            cx.ob("only-own-state", n + ":" + f, not [g for g in got if g in gets and g not in ok], a.where(b), "the loaded client receives the state stored under another id")
        idd = a.arg_vals(b, 2, (".id",))
        cx.ob("id-restored", n, show(frozenset(a.f.vterm(v, 30, ()) for v in idd)).strip("{}") == K.strip("{}") or all(short(a.call(v[1]).path).endswith("load_from_path") for v in idd if v[0] == "call"), a.where(b), "the loaded client carries another id")
    must_precede(cx, a, "client-loaded", n, loads, a.rets("Ok"), "success is returned without a client")
    refill(cx, a, n)


def writes(a, ty):
    """assignments through a pointer to a whole object of that type: (block, statement, operand)"""
    out = []
    for bl in a.g.blocks:
        if bl.id not in a.e.reached:
            continue
        for i, st in enumerate(bl.stmts):
            if st[0] == "=" and st[1][1] and st[2][0] == "use":
                e = st[1][1][-1]
                if e in ("*", ("*",)):
                    t = a.g.ty_of_place(st[1])
                    if t[0] == "adt" and re.search(ty, t[1]):
                        out.append((bl.id, i, st[2][1]))
    return out


def refill(cx, a, n):
    """each element of the loaded data is kept"""
    ins = a.calls(r"HashMap::insert$")
    m = 0
    for b in a.calls(r"Iterator(>)?::next$"):
        d = a.arg_deps(b, 0, cutter(a, r"HashMap::(get|insert)$"))
        if not calls_in(d, a, r"bincode::deserialize$"):
            continue
        m += 1
        cx.ob("all-loaded", n, not calls_in(d, a, IFILTER), a.where(b), "only some of the loaded elements are kept")
        w = a.search(a.e.seed(b, {(): "VSome"}), [b] + a.rets("Ok"), avoid=ins)
        cx.ob("each-loaded", n, w is None, a.where(b), "" if w is None else "a loaded element is left out: " + a.show(w))
        inl = [i for i in ins if a.search(a.after(i), [b])]
        w = a.search([y for i in inl for y in a.after(i)], a.rets("Ok"), avoid=[b])
        cx.ob("loading-finished", n, w is None, a.where(b), "" if w is None else "the loop over the loaded elements ends early: " + a.show(w))
    return m


def reloaded(cx, a, n):
    """a snapshot read from a file replaces the one in memory before success"""
    wr = writes(a, r"snapshot::Snapshot$")
    cx.ob("snapshot-replaced", n + ":site", bool(wr), "", "the snapshot read from the file is dropped")
    if wr:
        must_precede(cx, a, "snapshot-replaced", n, [x for x, i, o in wr], a.rets("Ok"), "success is returned although the snapshot read was not kept")
        for x, i, op in wr:
            d = a.f.deps(a.f._deep(x, i, op))
            cx.ob("snapshot-from-file", n, bool(calls_in(d, a, r"logic::read_from$")), a.where(x), "the snapshot in memory does not derive from the file")
    refill(cx, a, n)


def reachable_types(prog):
    seen, st = set(), [("adt", "iota_stronghold::types::snapshot::SnapshotState", ())]
    while st:
        t = st.pop()
        if not isinstance(t, tuple) or not t:
            continue
        if t[0] == "adt":
            if t[1] not in seen:
                seen.add(t[1])
                a = prog.adts.get(t[1])
                if a:
                    for v in a["variants"]:
                        for f in v["f"]:
                            st.append(f["t"])
            st += list(t[2])
        elif t[0] in ("tuple",):
            st += list(t[1])
        elif t[0] in ("ref", "ptr", "slice", "array"):
            st.append(t[1])
    return seen


def serialisers(cx):
    prog = cx.prog
    k = 0
    for ty in sorted(reachable_types(prog)):
        ad = prog.adts.get(ty)
        if not ad or ad["kind"] != "struct":
            continue
        bs = [b for b in prog.by_path.get("<%s as serde_core::ser::Serialize>::serialize" % ty, [])]
        if not bs or bs[0].crate.name == "runtime":
            continue
        read = set()

        def walk(x):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == "f" and isinstance(x[2], str):
                    read.add(x[2])
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                for y in x.values():
                    walk(y)
        walk(bs[0].blocks)
        k += 1
        for f in ad["variants"][0]["f"]:
            if "PhantomData" in str(f["t"])[:60]:
                continue
            cx.ob("field-serialised", ty.split("::")[-1] + "." + f["n"], f["n"] in read, "", "the field %s of the persisted type %s is not serialised" % (f["n"], ty))
    cx.floor("serialisers of persisted types", k, 6)
