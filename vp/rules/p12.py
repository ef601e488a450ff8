"""P12: synchronising clients copies exactly what the configuration selects."""
from .common import *

TECHNIQUE = "reachability on the inlined MIR flow graph under hypotheses about selection, presence and merge policy, plus value provenance of every imported vault, record and key"
EXPLANATION = ("The synchronisation of two clients and of two vaults is inlined down to the operations of the vault database. Provenance obligations on every import: it goes into the own database, the vault is the source vault or what the "
               "vault mapping gives for that very vault, the records are exported from the source's same vault in the same iteration, they are decrypted under the source's key of that vault and encrypted under the own key of the target vault. "
               "Hypothesis obligations: with the selection tests answering no, nothing is copied; with a record present and the keep-old policy, it is not copied; with everything selected and (a) no target vault, (b) no target record, (c) the "
               "replace policy and differing content, every element of every loop is carried on. The source is only read, the target only changed by the import and the creation of the target vault's key; every failing step is reported. "
               "The import, export and configuration functions are checked for identity: each record given is re-encrypted under its own id and put into the given vault, existing vaults are never replaced, exported pairs belong together, "
               "and the configuration stores the derived ids of all given paths under the field they belong to.")
ASSUMPTIONS = ["std collections behave as documented", "a record's blob id identifies its content (a fresh one is drawn on every write, P16)"]
NOTE = "All paths of sync_with, sync_vaults, DbView::{import,export}_records and the configuration setters, each under the stated hypotheses. The TOCTOU window the functions' documentation warns of is out of scope."

C = "iota_stronghold::types::client::Client::"
CFG = "iota_stronghold::sync::SyncClientsConfig::"
IMPORT = r"DbView::import_records$"
EXPORT = r"DbView::export_records$"
CONTAINS = r"\[T\]::contains$|(HashSet|BTreeSet)::contains$|HashMap::contains_key$|Vec::contains$"
LOOKUP = r"(HashMap|BTreeMap)::(get|remove|get_mut|get_key_value)$"
ADAPT = r"Iterator(>)?::(filter|filter_map|take_while|skip_while|map_while)$|Vec::(retain|retain_mut)$|HashMap::retain$"


class Sync(RuntimeOpaque):
    RX = re.compile(r"view::(DbView|Record|Vault)::\w+$|KeyStore::\w+$|load_from_path$|crypto_box::Key::\w+$|derive_(vault|record)_id$|"
                    r"clone::Clone>::clone$|(Id|BlobId|MergePolicy) as core::cmp::PartialEq>::(eq|ne)$|Snapshot::(get_state|add_data)$|snapshot::logic::\w+$|engine::snapshot::compression::")

    def opaque(self, b):
        return RuntimeOpaque.opaque(self, b) or bool(self.RX.search(b.path))


class Origins(Sync):
    maps = True


class Engine(RuntimeOpaque):
    def opaque(self, b):
        return RuntimeOpaque.opaque(self, b) or bool(re.search(r"view::Record::\w+$|crypto_box::\w+::|clone::Clone>::clone$", b.path))


def alts(t, out=True):
    """alternatives of a term; what a call left behind in an object it was given counts as that object"""
    if isinstance(t, tuple) and t and t[0] == "phi":
        o = set()
        for x in t[1]:
            o |= alts(x, out)
        return o
    if out and isinstance(t, tuple) and t and t[0] == "out":
        return set()
    if isinstance(t, tuple) and t and t[0] == "cast":
        return alts(t[1], out)
    return {t}


NORM = [lambda x: x]       # abbreviations in force (P13 names the source's clients, states and vaults)


def sh(t):
    return NORM[-1](show(t))


def texts(t):
    return sorted(sh(x) for x in alts(t))


def is_call(t, rx):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and re.search(rx, str(t[1]))


def unref(t):
    """the call whose result a term is read from (through references to it)"""
    for _ in range(6):
        if isinstance(t, tuple) and t and t[0] in ("init", "ptr") and isinstance(t[1], tuple) and t[1]:
            t = t[1][1] if t[1][0] == "obj" else t[1]
        else:
            break
    return t


def idty(a, blk, i):
    """kind of identifier (or of element) argument i of a call holds"""
    return kind_of(a.g.ty_of_op(a.call(blk).args[i]))


def kind_of(t):
    s = str(t)
    m = re.findall(r"(ClientId|VaultId|RecordId|BlobId)'", s)
    return m[0] if m else ("ClientState" if "DbView'" in s else None)


def variants_of(a, blk, i):
    """constant enum variants argument i of a call refers to"""
    out = []
    for v in a.arg_content(blk, i):
        if v[0] == "init" and v[1][0] == "o" and v[1][1][0] == "k" and v[1][1][1][0] == "prom":
            _, path, n = v[1][1][1]
            for b in a.prog.by_path.get(path, []):
                if n < len(b.promoted):
                    out += [s[2][1]["v"] for k in b.promoted[n]["blocks"] for s in k["s"] if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("enum")]
        elif v[0] == "agg" and len(v) > 1 and isinstance(v[1], tuple):
            out += [x for x in v[1] if x in ("KeepOld", "Replace")]
    return out


class Tests:
    """the decisions synchronisation makes, by what they are about"""

    def __init__(self, a):
        self.a = a
        self.sel = {"ClientId": [], "VaultId": [], "RecordId": []}
        for b in a.calls(CONTAINS + "|" + r"Iterator(>)?::any$"):
            c = a.call(b)
            if len(c.args) < 2:
                continue
            k = idty(a, b, 1) if "any" not in c.path else idty(a, b, 0)
            if "contains_key" in c.path:
                continue
            if k in self.sel:
                self.sel[k].append(b)
        self.cv = a.calls(r"DbView::contains_vault$")
        self.cr = a.calls(r"DbView::contains_record$")
        self.lrec = [b for b in a.calls(LOOKUP) if "RecordId'" in str(a.g.ty_of_place(a.call(b).dest))]
        self.keys = [b for b in a.calls(r"KeyStore::get_key$|" + LOOKUP) if "crypto_box::Key'" in str(a.g.ty_of_place(a.call(b).dest)) and "HashMap'" not in str(a.g.ty_of_place(a.call(b).dest))]
        self.state = [b for b in a.calls(LOOKUP) if "DbView'" in str(a.g.ty_of_place(a.call(b).dest))]
        self.policy = {}
        for b in a.calls(CMP):
            if "sync::MergePolicy'" in str(a.g.ty_of_op(a.call(b).args[0])):
                v = [x for i in (0, 1) for x in variants_of(a, b, i)]
                if len(set(v)) == 1:
                    self.policy[b] = (a.call(b).path.endswith("ne"), v[0])
        self.empty = [b for b in a.calls(r"(Vec|HashMap|\[T\])::is_empty$") if idty(a, b, 0)]
        self.blob = {b: a.call(b).path.endswith("ne") for b in a.calls(CMP) if idty(a, b, 0) == "BlobId"}

    def hyp(self, sel=None, vault=None, rec=None, policy=None, lrec=None, keys="VSome", differ=True, restricted=None):
        """the operation under a hypothesis; sel: {kind: '0'/'1'} answers of the selection tests"""
        m = {}
        for k, v in (sel or {}).items():
            for b in self.sel[k]:
                m[b] = {(): v}
        for b in self.cv:
            if vault:
                m[b] = {(): vault}
        for b in self.cr:
            if rec:
                m[b] = {(): rec}
        for b in self.lrec:
            if lrec:
                m[b] = {(): lrec}
        for b in self.keys:
            if keys:
                m[b] = {(): keys}
        for b in self.empty:
            m[b] = {(): "0"}
        for b in self.state:
            m[b] = {(): "VSome"}
        for b, (ne, v) in self.policy.items():
            if policy:
                m[b] = {(): "1" if ("V" + v == policy) != ne else "0"}
        for b, ne in self.blob.items():
            m[b] = {(): "1" if ne == differ else "0"}
        def pol(aps, ty):
            if policy and "sync::MergePolicy'" in str(ty)[:60]:
                return policy
            if restricted and re.match(r"\('adt', 'core::option::Option', \(\(('ref', \()?'adt', 'alloc::vec::Vec', \(\('adt', '[\w:]*::%s'" % restricted, str(ty)):
                return "VSome"
            return None
        return self.a.under(pol if policy or restricted else None, lambda b: m.get(b))


CUT = r"Iterator(>)?::(take|skip|step_by|take_while|skip_while|nth|map_while|last)$|::(truncate|drain|split_off|swap_remove|dedup\w*|pop|pop_front|pop_back)$"
ALL = {"ClientId": "1", "VaultId": "1", "RecordId": "1"}


def loops(a):
    """loops over identified things: (block of the fetch, kind)"""
    out = []
    for b in a.calls(r"Iterator(>)?::next$"):
        k = kind_of(a.g.ty_of_place(a.call(b).dest))
        if k:
            out.append((b, k))
    return out


KEEP = r"(Vec|VecDeque|HashMap|HashSet|BTreeMap|BTreeSet)::(push|push_back|insert|extend)$"


def kept(u, l):
    """calls in the body of the loop at l that put an element of its kind into a local collection"""
    k = kind_of(u.g.ty_of_place(u.call(l).dest))
    st, again = loop_body(u, l)
    out = []
    for b in u.calls(KEEP):
        c = u.call(b)
        if len(c.args) < 2 or any(v[0] == "ptr" and owner(v) for v in u.arg_vals(b, 0)):
            continue
        if idty(u, b, 1) == k and u.search(st, [b], avoid=again):
            out.append(b)
    return out


def closure_tags(u, b):
    out = set()
    rts = [rt for i, rt in u.call(b).cbs]
    for i, (blk, env) in enumerate(u.e.nodes):
        if u.g.blocks[blk].loop_of == b and any(u.e.nodes[p][0] != u.g.blocks[blk].loop_pre for p in u.e.preds[i]):
            for rt in rts:
                t = dict(env).get((("v", rt), ()))
                out.add(t if isinstance(t, str) else None)
    return out


def decisions(cx, a, n, imps):
    """copy exactly the selected, under the merge policy"""
    t = Tests(a)
    cx.floor("tests for the presence of a target vault in " + n, len(t.cv), 1)
    cx.floor("tests for the presence of a target record in " + n, len(t.cr), 1)
    cx.floor("selection tests on records in " + n, len(t.sel["RecordId"]), 1)
    worlds = {
        "vault-absent": t.hyp(ALL, vault="0"),
        "record-absent": t.hyp(ALL, vault="1", rec="0"),
        "replace": t.hyp(ALL, vault="1", rec="1", policy="VReplace"),
        "replace-unrestricted": t.hyp(ALL, vault="1", rec="1", policy="VReplace", lrec="VNone"),
        "vault-absent-unrestricted": t.hyp(ALL, vault="0", lrec="VNone"),
    }
    for w, u in worlds.items():
        for l, k in loops(u):
            st, again = loop_body(u, l)
            p = u.search(st, list(again) + u.rets("Ok"), avoid=kept(u, l) + imps)
            cx.ob("selected-copied", "%s:%s:%s" % (n, w, k), p is None, u.where(l), "" if p is None else "a %s that has to be copied (%s) is left out: %s" % (k, w, u.show(p)))
        for b in u.calls(ADAPT):
            if not kind_of(u.g.ty_of_op(u.call(b).args[0])) and not kind_of(u.call(b).targs):
                continue
            tags = closure_tags(u, b)
            cx.ob("selected-copied", "%s:%s:closure" % (n, w), tags <= {"1", "VSome"}, u.where(b), "a record that has to be copied (%s) is filtered out" % w)
    for l, k in loops(a):
        bad = calls_in(a.arg_deps(l, 0), a, CUT)
        cx.ob("all-elements", "%s:%s" % (n, k), not bad, a.where(l), "only some of the elements are synchronised: " + (short(a.call(bad[0][1]).path) if bad else ""))
        st, again = loop_body(a, l)
        p = a.search(st, a.rets("Ok"), avoid=again)
        cx.ob("all-elements", "%s:%s:to-end" % (n, k), p is None, a.where(l), "" if p is None else "the synchronisation ends before its last element: " + a.show(p))
    # what is not selected
    u = t.hyp({"RecordId": "0", "VaultId": "1", "ClientId": "1"}, lrec="VSome")
    un = record_level(u, imps, n)
    cx.ob("unselected-record", n, un is None or retained(t, imps), "" if un is None else u.where(un), "a record that is not selected is copied")
    u = t.hyp(ALL, vault="1", rec="1", policy="VKeepOld")
    un = record_level(u, imps, n)
    cx.ob("keep-old", n, un is None, "" if un is None else u.where(un), "an existing record is replaced although the policy is to keep it")
    for k in ("VaultId", "ClientId"):
        if not t.sel[k]:
            continue
        s = dict(ALL)
        s[k] = "0"
        u = t.hyp(s, restricted=k)
        groups = []
        for rx in ("BlobId'", r"view::Record'"):
            g = [l for l, kk in loops(a) if kk == k and rx in str(a.g.ty_of_place(a.call(l).dest))]
            open_ = [l for l in g if l in u.calls(r"Iterator(>)?::next$") and u.search(loop_body(u, l)[0], kept(u, l) + imps, avoid=[l])]
            if g:
                groups.append(open_)
        cx.ob("unselected-" + k, n, any(not o for o in groups), u.where(groups[0][0]) if groups and groups[0] else "", "a %s that is not selected is copied" % k)
    return t


def picked(cx, m, t, n, k, at, rx):
    """without a test of the selection: what is copied comes from the selection itself"""
    if t.sel[k]:
        return
    u = t.hyp(ALL, restricted=k).narrowed()
    for b, i in at:
        for x in alts(u.arg_term(b, i, 40)):
            if not is_call(unref(x), LOOKUP):
                cx.ob("unselected-" + k, n + ":source", bool(re.search(rx, sh(x))), m.where(b), "a %s that is not selected is copied: %s" % (k, sh(x)[:160]))


def record_level(u, imps, n):
    """a place where a record (of the source's list) is put among the ones to copy"""
    for l, k in loops(u):
        if k != "RecordId" or not decides(u, l):
            continue
        for i in kept(u, l):
            if u.search(loop_body(u, l)[0], [i], avoid=[l]):
                return i
    for b in u.calls(ADAPT):
        if "retain" in u.call(b).path or not kind_of(u.g.ty_of_op(u.call(b).args[0])) and not kind_of(u.call(b).targs):
            continue
        if not closure_tags(u, b) <= {"0", "VNone"}:
            return b
    for b in u.calls(r"Iterator(>)?::collect$|FromIterator(>)?::from_iter$"):
        if kind_of(u.g.ty_of_place(u.call(b).dest)) == "RecordId" and "view::Record'" not in str(u.g.ty_of_place(u.call(b).dest)):
            d = u.f.deps(u.arg_vals(b, 0))
            if not calls_in(d, u, ADAPT):
                return b
    return None


def decides(u, l):
    """records fetched at l still carry the source's blob id (they have not been chosen yet)"""
    return "BlobId'" in str(u.g.ty_of_place(u.call(l).dest))


def retained(t, imps):
    """the imported records are cut down to the selected ones right before the import"""
    u = t.hyp({"RecordId": "0"}, lrec="VSome")
    rs = [b for b in u.calls(r"Vec::(retain|retain_mut)$") if closure_tags(u, b) <= {"0"}]
    return bool(rs) and u.search(u.entry(), imps, avoid=rs) is None


def held(a, b, i):
    """the values argument i of a call is or refers to"""
    vs = set(a.arg_vals(b, i))
    if any(v[0] == "ptr" for v in vs):
        vs = {v for v in vs if v[0] != "ptr"} | set(a.arg_content(b, i))
    return frozenset(whole(v) for v in vs)


def whole(v):
    """a copy of what is behind a reference counts as what is behind it"""
    while v[0] == "init" and v[-1] == () and v[1][0] == "o" and v[1][1][0] == "init":
        v = v[1][1]
    return v


def from_call(v):
    """the call whose result a value is read from"""
    while isinstance(v, tuple) and v and v[0] in ("init", "ptr", "o") and isinstance(v[1], tuple):
        v = v[1]
    return v[1] if isinstance(v, tuple) and v and v[0] == "call" else None


def entry_of(k):
    if is_call(k, r"Entry::(or_insert|or_insert_with|or_insert_with_key)$") and is_call(k[2][0], r"(HashMap|BTreeMap)::entry$"):
        return k[2][0]
    return k


def lookups(a, vs):
    """the lookups by key values come from, and the other values"""
    ls, rest = [], set()
    for v in vs:
        c = from_call(v)
        if c is not None and a.call(c) and re.search(r"Entry::or_insert\w*$", a.call(c).path):
            es = {from_call(e) for e in a.arg_vals(c, 0)} - {None}
            if es and all(re.search(r"(HashMap|BTreeMap)::entry$", a.call(e).path) for e in es):
                ls += sorted(es)
                continue
        if c is not None and a.call(c) and len(a.call(c).args) > 1 and re.search(LOOKUP + r"|KeyStore::(get_or_insert_key|create_key|get_key)$", a.call(c).path):
            ls.append(c)
        else:
            rest.add(v)
    return ls, rest


def same_iteration(cx, a, n, b):
    """vault, keys and records of one import belong to the same element"""
    w = a.where(b)
    to = held(a, b, 3)
    for l in lookups(a, held(a, b, 2))[0]:
        cx.ob("target-key-same-vault", n, held(a, l, 1) == to, w, "the records are encrypted under the key of another vault than the one they are imported into")
    keys = set()
    for l in lookups(a, held(a, b, 1))[0]:
        keys |= held(a, l, 1)
    ls, rest = lookups(a, to)
    for l in ls:
        cx.ob("same-iteration", n + ":mapping", held(a, l, 1) == keys, w, "the target vault is looked up for another vault than the one copied")
    for v in rest:
        cx.ob("same-iteration", n + ":vault", keys == {v}, w, "the source key is looked up for another vault than the one copied")
    for r in a.arg_vals(b, 4):
        for k in keys:
            if r[0] == "call" and k[0] == "call" and all(re.search(r"Iterator(>)?::next$", a.call(x[1]).path) for x in (r, k)) and k[2][-1:] == (".0",):
                cx.ob("same-iteration", n + ":records", r[1] == k[1] and r[2] == k[2][:-1] + (".1",), w, "the records imported are not those exported from the vault")


def provenance(cx, a, m, n, spec):
    """where imported vaults, records and keys come from"""
    imps = m.calls(IMPORT)
    cx.floor("imports of records in " + n, len(imps), 1)
    for b in imps:
        w = m.where(b)
        arg = [m.arg_term(b, i, 30) for i in range(5)]
        # target database
        cx.ob("into-own-database", n, all(re.search(spec["dst_db"], x) for x in texts(arg[0])) and bool(texts(arg[0])), w, "records are imported into %s" % " / ".join(texts(arg[0]))[:200])
        src = set()
        for e in alts(arg[4]):
            if is_call(e, EXPORT):
                cx.ob("from-source", n, all(re.search(spec["src_db"], x) for x in texts(e[2][0])), w, "records are exported from %s" % " / ".join(texts(e[2][0]))[:200])
                src |= set(alts(e[2][1]))
                rids = [x for x in alts(e[2][2]) if not is_call(x, r"Vec::(new|with_capacity)$|Default::default$")]
                for r in rids:
                    ls = [x for x in inner(r) if is_call(x, r"list_records_with_blob_id$|list_records$")]
                    cx.ob("records-listed", n, bool(ls) and all(re.search(spec["src_db"], y) for x in ls for y in texts(x[2][0])) and all(set(texts(x[2][2])) <= set(texts(e[2][1])) for x in ls), w,
                          "the records exported are not those listed for the source's vault: " + show(r)[:200])
            else:
                cx.ob("records-exported", n, False, w, "records that were not exported from the source are imported: " + show(e)[:200])
        cx.ob("source-vaults", n, bool(src) and all(re.search(spec["vaults"], sh(x)) for x in src), w, "vaults are copied that are neither selected nor the source's own: " + " / ".join(show(x) for x in src)[:300])
        S = set(sh(x) for x in src)
        # the mapping
        mapped = 0
        for v in alts(arg[3]):
            if sh(v) in S:
                continue
            l = unref(v)
            ok = is_call(l, LOOKUP) and any(re.search(spec["map"], x) for x in texts(l[2][0])) and set(texts(l[2][1])) <= S
            mapped += ok
            cx.ob("target-vault", n, ok, w, "records are imported into a vault that is neither the source's nor the one it is mapped to: " + show(v)[:200])
        cx.ob("mapping-used", n, mapped > 0, w, "the vault mapping is not used for the vault imported into")
        cx.ob("mapping-wins", n, wins(m, b, 3, S), w, "records of a mapped vault are imported into another vault than the one it is mapped to")
        decided_on(cx, m, n, spec, S)
        # keys
        for k in alts(arg[1]):
            k = unref(k)
            cx.ob("source-key", n, bool(is_call(k, r"KeyStore::get_key$|" + LOOKUP)) and any(re.search(spec["src_ks"], x) for x in all_texts(k[2][0])) and set(texts(k[2][1])) <= S, w, "the records are not decrypted under the source's key of their vault: " + show(k)[:200])
        for k in alts(arg[2]):
            k = unref(k)
            k = entry_of(k)
            ok = bool(is_call(k, r"KeyStore::(get_or_insert_key|create_key|get_key)$|(HashMap|BTreeMap)::entry$|" + LOOKUP)) and any(re.search(spec["dst_ks"], x) for x in all_texts(k[2][0]))
            cx.ob("target-key", n, ok, w, "the records are not encrypted under a key of the own key store: " + show(k)[:200])
        same_iteration(cx, a, n, b)
        picked(cx, m, Tests(m), n, "VaultId", [(b, 3)], spec["sel"].rstrip("$") + r"\[\]$")
    return imps


def wins(m, b, i, S):
    """under the hypothesis that the mapping has an entry, argument i is what the mapping gives"""
    ls = [x for x in m.calls(LOOKUP) if re.search(r"\('adt', 'core::option::Option', \(\(?('ref', \()?'adt', '[\w:]*::(Vault|Client)Id'", str(m.g.ty_of_place(m.call(x).dest)))]
    u = m.under(None, lambda x: {(): "VSome"} if x in ls else None).narrowed()
    got = alts(u.arg_term(b, i, 30))
    return bool(got) and not [x for x in got if sh(x) in S]


def aimed(t, S, spec):
    """the vault is the source's or what the mapping gives for it (both occur)"""
    mapped = 0
    for v in alts(t):
        if sh(v) in S:
            continue
        l = unref(v)
        if not (is_call(l, LOOKUP) and any(re.search(spec["map"], x) for x in texts(l[2][0])) and set(texts(l[2][1])) <= S):
            return False
        mapped += 1
    return mapped > 0


def given(m, b, rx, spec, hits):
    """the receiver of a selection test is the given selection (or, where there is none, an empty one)"""
    tx = all_texts(m.arg_term(b, 0, 30))
    if any(re.search(rx, x) for x in tx):
        hits.add(rx)
        return True
    return bool(spec.get("none")) and all(re.search(spec["none"], x) for x in tx)


def decided_on(cx, m, n, spec, S):
    """selection tests are about the source's vault and the given selection, presence tests about the target vault"""
    t = Tests(m)
    hits = set()
    for b in t.sel["VaultId"]:
        k = 1 if "any" not in m.call(b).path else None
        cx.ob("selection-given", n + ":vaults", given(m, b, spec["sel"], spec, hits), m.where(b), "vaults are not selected by the given selection: " + show(m.arg_term(b, 0, 30))[:150])
        if k:
            cx.ob("selection-of-source", n + ":vaults", set(texts(m.arg_term(b, k, 30))) <= S, m.where(b), "the selection of vaults is applied to something else than the source's vault")
    for b in t.lrec:
        cx.ob("selection-given", n + ":records", given(m, b, spec["recs"], spec, hits), m.where(b), "records are not selected by the given selection: " + show(m.arg_term(b, 0, 30))[:150])
        cx.ob("selection-of-source", n + ":records", set(texts(m.arg_term(b, 1, 30))) <= S, m.where(b), "the selection of records is looked up for something else than the source's vault")
    cx.floor("lookups of selected records in " + n, len(t.lrec), 1)
    cx.ob("selection-given", n + ":used", {spec["sel"], spec["recs"]} <= hits, "", "the given selection is not used")
    for b in t.cv + t.cr + m.calls(r"DbView::get_blob_id$"):
        i = 2 if "get_blob_id" in m.call(b).path else 1
        cx.ob("presence-in-target", n + ":" + short(m.call(b).path), aimed(m.arg_term(b, i, 30), S, spec) and all(re.search(spec["dst_db"], x) for x in texts(m.arg_term(b, 0, 30))), m.where(b),
              "what the target already holds is not looked up in the vault imported into")


def inner(t, d=0):
    """all calls inside a term"""
    if d > 40:
        return
    if isinstance(t, frozenset):
        for x in t:
            yield from inner(x, d + 1)
    elif isinstance(t, tuple):
        if t and t[0] == "call":
            yield t
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                yield from inner(x, d + 1)


def all_texts(t):
    return sorted(sh(x) for x in alts(t, False))


def effects(cx, a, n, spec):
    """the source is only read; the target changes by imports and new keys only"""
    prog = cx.prog
    seen = 0
    for b in a.calls(r"view::DbView::\w+$|KeyStore::\w+$"):
        c = a.call(b)
        body = (prog.by_path.get(c.path) or [None])[0]
        if body is None or not body.argc:
            continue
        t = body.crate.ty(body.locals[1]) if isinstance(body.locals[1], int) else body.locals[1]
        mut = t[0] == "ref" and t[2] in (True, "mut", 1) if len(t) > 2 else False
        if not mut:
            continue
        seen += 1
        nm = c.path.rsplit("::", 1)[1]
        tx = [x for x in texts(a.arg_term(b, 0, 20))]
        cx.ob("source-only-read", n + ":" + nm, not (spec.get("src_root") and any(re.search(spec["src_root"], x) for x in tx)), a.where(b), "the source is changed by %s" % nm)
        cx.ob("target-effects", n + ":" + nm, nm in ("import_records", "get_or_insert_key", "create_key", "insert_key"), a.where(b), "synchronising changes the target by %s" % nm)
    return seen


def reports(cx, a, n, imps):
    for b in a.calls(IMPORT + "|" + EXPORT + r"|DbView::(list_records_with_blob_id|get_blob_id)$|KeyStore::(get_or_insert_key|create_key|insert_key)$|Snapshot::(get_state|add_data)$"):
        if a.result_kind(b) == "VErr":
            fails(cx, a, "failure-reported", n + ":" + short(a.call(b).path), b, what="a failing step of the synchronisation is not reported")
    # a source vault without a key
    for i in imps:
        for k in a.calls(r"KeyStore::get_key$|" + LOOKUP):
            if k in dep_blks(arg_deps_cut(a, i, 1, r"KeyStore::get_key$|" + LOOKUP)):
                w = a.search(a.e.seed(k, {(): "VNone"}), a.rets("Ok") + [i])
                cx.ob("missing-key-reported", n, w is None, a.where(k), "" if w is None else "a vault whose key is missing is passed over: " + a.show(w))


def check(cx):
    prog = cx.prog
    V = r"^DbView::list_vaults\(\*\*arg1\.db@\)\[\]$|^arg2\.select_vaults:Some\.0\[\]$"
    specs = {
        "sync_with": dict(dst_db=r"^\**arg0\.db@?$", src_db=r"^\**arg1\.db@?$", src_ks=r"^\**arg1\.keystore@?$", dst_ks=r"^\**arg0\.keystore@?$", src_root=r"arg1\.",
                          vaults=V, map=r"^arg2\.map_vaults$", sel=r"^\**arg2\.select_vaults:Some\.0$", recs=r"^arg2\.select_records$"),
        "sync_vaults": dict(dst_db=r"^\**arg0\.db@?$", src_db=r"^\**arg0\.db@?$", src_ks=r"^\**arg0\.keystore@?$", dst_ks=r"^\**arg0\.keystore@?$",
                            vaults=r"^DbView::list_vaults\(\*\*arg0\.db@\)\[\]$|^location::derive_vault_id\(arg1\)$", map=r"\{location::derive_vault_id\(arg1\), location::derive_vault_id\(arg2\)\}", sel=r"location::derive_vault_id\(arg1\)",
                            recs=r"\{location::derive_vault_id\(arg1\), arg3:Some\.0\}"),
    }
    for n, s in specs.items():
        a, m = cx.an(C + n, Sync()), cx.an(C + n, Origins(), key="origins")
        if a is None or m is None:
            continue
        imps = provenance(cx, a, m, n, s)
        decisions(cx, a, n, imps)
        cx.floor("changes of the target in " + n, effects(cx, a, n, s), 1)
        reports(cx, a, n, imps)
    engine(cx)
    config(cx)


V = "engine::vault::view::DbView::"
FETCH = r"Iterator(>)?::(next|for_each|try_for_each|map|try_fold|fold)$"


def engine(cx):
    imports(cx)
    exports(cx)
    listing(cx)


def imports(cx):
    """each given record is re-encrypted under its own id and put into the given vault; nothing else changes"""
    a = cx.an(V + "import_records", Engine())
    if a is None:
        return
    ups = a.calls(r"view::Record::update_meta$")
    cx.floor("re-encryptions of imported records", len(ups), 1)
    ins = [b for b in a.calls(r"Extend(>)?::extend$|HashMap::insert$|Entry::(or_insert\w*|insert_entry)$") if at_field(a, b, 0, ".entries") or ".entries" in show(a.arg_term(b, 0))]
    cx.floor("insertions of imported records", len(ins), 1)
    for b in ups:
        t = [texts(a.arg_term(b, i)) for i in range(5)]
        ok = t[1] == ["*arg1"] and t[3] == ["*arg2"]
        cx.ob("import-keys", "import", ok, a.where(b), "imported records are not re-encrypted from the old to the new key")
        ok = t[2] == t[4] and all(re.match(r"^\**arg4\[\]\.0(\.0)?$", x) for x in t[2] + t[4]) and all(re.match(r"^\**arg4\[\]\.1$", x) for x in t[0])
        cx.ob("import-ids", "import", ok, a.where(b), "an imported record is not re-encrypted under its own id: %s" % t)
        w = None
        sd = a.fail(b)
        w = a.search(sd, a.rets("Ok") + ins)
        cx.ob("import-failure", "import", w is None, a.where(b), "" if w is None else "a record that cannot be re-encrypted is imported or passed over: " + a.show(w))
        its = [n for n in a.calls(FETCH) if a.search(loop_body(a, n)[0], [b], avoid=loop_body(a, n)[1])]
        cx.floor("loops over the imported records", len(its), 1)
        for n in its:
            st, again = loop_body(a, n)
            w = a.search(st, ok_again(a, again), avoid=ups)
            cx.ob("import-each", "import", w is None, a.where(n), "" if w is None else "a record is imported without being re-encrypted: " + a.show(w))
            cx.ob("import-all", "import", not calls_in(a.arg_deps(n, 0), a, FILTER), a.where(n), "only some of the given records are imported")
            if a.call(n).path.endswith("next"):
                w = a.search(st, a.rets("Ok"), avoid=[n])
                cx.ob("import-to-end", "import", w is None, a.where(n), "the import ends before the last record")
    for b in ins:
        tx = texts(a.arg_term(b, 0))
        cx.ob("import-vault", "import", all(re.search(r"HashMap::(get_mut|entry)\((\*arg0\.vaults|\{\*arg0\.vaults \| [^{}]*(\{[^{}]*\}[^{}]*)*\}), arg3\)", x) for x in tx) and bool(tx), a.where(b), "records are imported into another vault than the given one: " + " / ".join(tx)[:200])
        i = len(a.call(b).args) - 1
        d = a.arg_deps(b, i)
        cx.ob("import-given", "import", has_arg(d, 4) and not calls_in(d, a, FILTER), a.where(b), "what is imported are not the given records")
    must_precede(cx, a, "import-done", "import", ins, a.rets("Ok"), "the import succeeds without having added the records")
    # the other vaults, and an existing one, stay
    muts = [b for b in a.calls(r"(HashMap|BTreeMap)::(insert|remove|clear|retain|drain|get_mut|entry|remove_entry|values_mut|iter_mut)$") if at_field(a, b, 0, ".vaults")]
    for b in muts:
        nm = a.call(b).path.rsplit("::", 1)[1]
        if nm in ("clear", "retain", "drain", "values_mut", "iter_mut", "remove", "remove_entry"):
            cx.ob("others-untouched", "import:" + nm, False, a.where(b), "importing changes vaults other than the given one or removes it")
        else:
            cx.ob("others-untouched", "import:" + nm, texts(a.arg_term(b, 1)) == ["arg3"], a.where(b), "importing changes another vault than the given one")
        if nm == "insert":
            looks = [x for x in a.calls(r"HashMap::contains_key$|HashMap::get$") if at_field(a, x, 0, ".vaults")]
            w = [x for l in looks for x in [a.search(found(a, l), [b])] if x]
            un = a.search(a.entry(), [b], avoid=looks)
            cx.ob("existing-vault-kept", "import", not w and un is None, a.where(b), "an existing vault is replaced by an empty one on import")


def exports(cx):
    a = cx.an(V + "export_records", Engine())
    if a is None:
        return
    looks = [b for b in a.calls(r"HashMap::get$") if at_field(a, b, 0, ".vaults")]
    recs = [b for b in a.calls(r"HashMap::get$") if b not in looks and ".entries" in show(a.arg_term(b, 0))]
    cx.floor("vault lookups of the export", len(looks), 1)
    cx.floor("record lookups of the export", len(recs), 1)
    for b in looks:
        cx.ob("export-vault", "export", texts(a.arg_term(b, 1)) == ["arg1"], a.where(b), "records are exported from another vault than the given one")
        w = a.search(absent(a, b), a.rets("Ok"))
        cx.ob("export-missing", "export", w is None, a.where(b), "a missing vault is not reported by the export")
    for b in recs:
        cx.ob("export-record", "export", has_arg(a.arg_deps(b, 1), 2), a.where(b), "the records exported are not the given ones")
        cx.ob("export-from", "export", all(re.search(r"HashMap::get\(\*arg0\.vaults, arg1\)", x) for x in texts(a.arg_term(b, 0))), a.where(b), "records are exported from another vault than the given one")
    u = a.under(None, lambda b: {(): "VSome"} if b in recs + looks else None)
    for b in u.calls(r"Iterator(>)?::(filter|filter_map)$"):
        t = closure_tags(u, b)
        cx.ob("export-all", "export", t <= {"1", "VSome"}, u.where(b), "a selected record that exists is not exported")
    for n in u.calls(r"Iterator(>)?::next$"):
        if "RecordId'" in str(u.g.ty_of_place(u.call(n).dest)):
            st, again = loop_body(u, n)
            w = u.search(st, list(again) + u.rets("Ok"), avoid=kept(u, n))
            cx.ob("export-all", "export:loop", w is None, u.where(n), "a selected record that exists is not exported")
    bad = calls_in(ret_value_deps(a, (":Ok", ".0")), a, r"Iterator(>)?::(take|skip|step_by|take_while|skip_while|map_while)$|Vec::(truncate|drain|pop|remove|retain|clear)$")
    cx.ob("export-all", "export:adaptors", not bad, "", "only some of the selected records are exported")


def listing(cx):
    a = cx.an(V + "list_records_with_blob_id", Engine())
    if a is None:
        return
    u = a.under(assume_field("revoke", "VNone"))
    ids = u.calls(r"view::Record::get_blob_id$")
    cx.floor("blob ids read for the listing", len(ids), 1)
    for b in u.calls(r"HashMap::(get|get_mut)$"):
        if at_field(u, b, 0, ".vaults"):
            cx.ob("list-vault", "list", texts(u.arg_term(b, 1)) == ["arg2"], u.where(b), "the records of another vault are listed")
    for b in ids:
        r, i = (sorted(x.lstrip("*") for x in texts(u.arg_term(b, k))) for k in (0, 2))
        cx.ob("list-own-id", "list", [re.sub(r"\.1$", ".0", x) for x in r] == i or any("HashMap::get" in x for x in r), u.where(b), "the blob id listed for a record is read under another record's id")
        fails(cx, u, "list-failure", "list", b, what="a record whose blob id cannot be read is left out silently")
        its = [n for n in u.calls(FETCH) if u.search(loop_body(u, n)[0], [b], avoid=loop_body(u, n)[1])]
        for n in its:
            st, again = loop_body(u, n)
            w = u.search(st, ok_again(u, again), avoid=ids)
            cx.ob("list-all", "list", w is None, u.where(n), "a readable record is left out of the listing")
            if u.call(n).path.endswith("next"):
                k = [x for x in u.calls(KEEP) if b in dep_blks(u.arg_deps(x, len(u.call(x).args) - 1))]
                w = u.search(u.e.seed(b, {(): "VOk"}), list(again) + u.rets("Ok"), avoid=k)
                cx.ob("list-all", "list:kept", w is None, u.where(n), "a readable record is left out of the listing")
    for b in u.calls(r"Iterator(>)?::(filter|filter_map)$"):
        cx.ob("list-all", "list:filter", closure_tags(u, b) <= {"1", "VSome"}, u.where(b), "a readable record is filtered out of the listing")
    for p, i, k in (("contains_vault", 1, 0), ("get_blob_id", 2, 3)):
        g = cx.an(V + p, Engine())
        if g is None:
            continue
        ls = [b for b in g.calls(r"HashMap::(get|contains_key)$") if at_field(g, b, 0, ".vaults")]
        cx.floor("vault lookups of " + p, len(ls), 1)
        for b in ls:
            cx.ob("lookup-vault", p, [x.lstrip("*") for x in texts(g.arg_term(b, 1))] == ["arg%d" % i], g.where(b), "%s looks at another vault" % p)
            if p == "contains_vault":
                cx.ob("lookup-answer", p, ret_tags(g.under(None, lambda x: {(): "1" if "contains" in g.call(b).path else "VSome"} if x == b else None)) == {"1"}
                      and ret_tags(g.under(None, lambda x: {(): "0" if "contains" in g.call(b).path else "VNone"} if x == b else None)) == {"0"}, g.where(b), "the presence of a vault is misreported")
        for b in g.calls(r"view::Record::get_blob_id$"):
            cx.ob("lookup-record", p, [x.lstrip("*") for x in texts(g.arg_term(b, 2))] == ["arg%d.0" % k], g.where(b), "%s looks at another record" % p)


def config(cx, C=CFG, lists=(("sync_selected_vaults", "select_vaults"),), maps=(("map_vaults", "map_vaults"),), derive=r"derive_vault_id$", tag="client"):
    """the setters store what they are given"""
    a = cx.an(C + "new", Sync())
    if a is not None:
        v = a.ret_content((".merge_policy",))
        cx.ob("config-policy", tag, bool(v) and all(x[0] == "arg" and x[1] == 0 for x in v), "", "the merge policy given is not the one used")
        for f in [f for _, f in lists] + [f for _, f in maps]:
            v = a.ret_content((".%s" % f,))
            cx.ob("config-empty", tag + ":" + f, not any(x[0] == "arg" for x in v), "", "a new configuration is restricted")
    for fn, f in lists:
        a = cx.an(C + fn, Sync())
        if a is None:
            continue
        st = [(b, a.nblk(b), len(a.call(b).args) - 1) for b in a.calls(SETTERS) if "get_or_insert" not in a.call(b).path if at_field(a, b, 0, "." + f) or (a.call(b).args and "." + f in show(a.arg_term(b, 0)))]
        dv = a.calls(derive)
        ws = [x for x in stores(a, f) if x[1] is not None or not (a.call(x[0]) and "get_or_insert" in (a.call(x[0]).path or ""))]
        cx.floor("assignments of %s in %s" % (f, fn), len(st) + len(ws), 1)
        cx.floor("derived ids in " + fn, len(dv), 1)
        for d in dv:
            cx.ob("config-derived", fn, all(re.match(r"^\**&?\**(AsRef::as_ref\()?arg1\[\]\)?$", x) for i in range(len(a.call(d).args)) for x in texts(a.arg_term(d, i))), a.where(d),
                  "%s derives ids from something else than the given paths: %s" % (fn, texts(a.arg_term(d, 0))))
        for b, n, i in st:
            dd = a.arg_deps(b, i)
            cx.ob("config-stored", fn, has_arg(dd, 1) and not calls_in(dd, a, FILTER), a.where(b), "%s does not select all the given paths" % fn)
        must_precede(cx, a, "config-set", fn, [b for b, _, _ in st] + [b for b, _ in ws], a.rets(), "%s does not restrict the selection" % fn)
    for fn, f in maps:
        a = cx.an(C + fn, Sync())
        if a is None:
            continue
        dv = set(a.calls(derive))
        ex = [b for b in a.calls(r"Extend(>)?::extend$|HashMap::insert$") if at_field(a, b, 0, "." + f) or "." + f in show(a.arg_term(b, 0))]
        cx.floor("entries added by " + fn, len(ex), 1)
        pairs = 0
        for b in ex:
            c = a.call(b)
            if c.path.endswith("insert"):
                ks, vs = a.arg_vals(b, 1), a.arg_vals(b, 2)
                pairs += pair(cx, a, fn, b, ks, vs, dv)
                continue
            cx.ob("config-stored", fn, has_arg(a.arg_deps(b, 1), 1) and not calls_in(a.arg_deps(b, 1), a, FILTER), a.where(b), "%s leaves out some of the given pairs" % fn)
            for x in [x for x in a.calls(r"Iterator(>)?::map$") if x in dep_blks(a.arg_deps(b, 1))]:
                heads = [k.id for k in a.g.blocks if k.loop_of == x]
                for _, rt in a.call(x).cbs:
                    ks, vs = set(), set()
                    for h in heads:
                        ks |= set(a.f.trace(h, 0, ("v", rt), (".0",)) or ())
                        vs |= set(a.f.trace(h, 0, ("v", rt), (".1",)) or ())
                    pairs += pair(cx, a, fn, x, ks, vs, dv)
        cx.floor("pairs stored by " + fn, pairs, 1)
    if C == CFG:
        records_of(cx, C)


def pair(cx, a, fn, at, ks, vs, dv):
    """key derived from the first, value from the second component of a given pair"""
    n = 0
    for vals, comp in ((ks, ".0"), (vs, ".1")):
        d = [v for v in vals if v[0] == "call" and v[1] in dv]
        n += bool(d)
        for v in d:
            for i in range(len(a.call(v[1]).args)):
                dd = a.f.deps(a.arg_content(v[1], i) | a.arg_vals(v[1], i))
                tx = show(a.arg_term(v[1], i))
                other = ".1" if comp == ".0" else ".0"
                ok = comp in re.findall(r"\.[01]", tx.replace("'", "")) and other not in re.findall(r"\.[01](?=[,)]*\)*$)", tx.replace("'", ""))[-1:]
                cx.ob("config-pair", fn + comp, ok, a.where(v[1]), "%s does not map the first path to the second: %s" % (fn, tx[-60:]))
    return n // 2


def records_of(cx, C):
    a = cx.an(C + "sync_selected_record", Sync())
    if a is None:
        return
    ins = [b for b in a.calls(r"HashMap::insert$") if at_field(a, b, 0, ".select_records")]
    ins += [b for b in a.calls(r"Entry::(insert|insert_entry)$|Extend(>)?::extend$|Vec::(extend_from_slice|append)$|core::mem::replace$") if ".select_records" in show(a.arg_term(b, 0))]
    cx.floor("selections stored by sync_selected_record", len(ins), 1)
    dr = a.calls(r"derive_record_id$")
    cx.floor("record ids derived by sync_selected_record", len(dr), 1)
    for b in dr:
        cx.ob("config-record-id", "sync_selected_record", [x.lstrip("*&") for x in texts(a.arg_term(b, 0))] == ["arg1"] and [x.lstrip("*&") for x in texts(a.arg_term(b, 1))] == ["arg2[]"], a.where(b), "record ids are not derived from the given vault and record paths")
    for b in ins:
        if a.call(b).path.endswith("HashMap::insert"):
            cx.ob("config-record-vault", "sync_selected_record", texts(a.arg_term(b, 1)) == ["location::derive_vault_id(arg1)"], a.where(b), "the selected records are stored under another vault than the given one")
            d = a.arg_deps(b, 2)
            cx.ob("config-stored", "sync_selected_record", has_arg(d, 2) and not calls_in(d, a, FILTER), a.where(b), "not all the given records are selected")
    must_precede(cx, a, "config-set", "sync_selected_record", ins, a.rets(), "sync_selected_record does not restrict the selection")
