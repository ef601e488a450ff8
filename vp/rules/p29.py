"""P29: an operation on one client only reads and writes that client's state."""
from .common import *
from .p19 import chain, norm, of_type, shared

TECHNIQUE = "exact provenance terms of the identifiers used in every access to the per-client maps, and of the shared parts of every client handle, on the inlined MIR flow graph"
EXPLANATION = ("For every public operation that is given a client path, a client handle or a client id, all accesses to the loaded clients, the snapshot's states and the keys of those states are enumerated; the key of each must be "
               "exactly the id derived from that path or carried by that argument, and the operation must not iterate over, replace or empty these maps as a whole (except by reading a snapshot file). A client handed out consists of "
               "the parts found under its own id or of the very parts registered under it. Operations of a client, vault or store handle take only locks that belong to that handle (or to the explicitly given other client), and "
               "handles created from a handle share its parts. A load reaches no insertion and no success when the client is already loaded.")
ASSUMPTIONS = ["distinct paths give distinct ids (P24)"]
NOTE = "All public operations of Stronghold, Snapshot, Client, ClientVault and Store with a client parameter, every map access on every path."

T = "iota_stronghold::types::"
MAPS = (".clients", ".states", ".state_keys")
KEYED = r"(HashMap|BTreeMap)::(get|get_mut|insert|remove|remove_entry|contains_key|entry|get_key_value|get_or_insert_with|get_many_mut)$"
BULK = r"(HashMap|BTreeMap)::(iter|iter_mut|keys|values|values_mut|drain|retain|clear|into_iter|into_keys|into_values|extend|split_off|extract_if)$|Map as .*IntoIterator>::into_iter$|Map as .*Extend.*>::extend$|core::mem::(take|swap|replace)$"
CLIENT = T + "client::Client"


def own_param(prog, body):
    """(argument index, kind) that names the client an operation works on"""
    for i, t in enumerate(body.locals[1:1 + body.argc]):
        u = t[1] if t[0] == "ref" else t
        if t[0] == "ref" and i == 0:
            continue
        if t[0] == "param" and "stronghold::Stronghold::" in body.path:
            return i, "path"
        if u[0] == "adt" and u[1] == CLIENT:
            return i, "client"
        if u[0] == "adt" and u[1].endswith("::ClientId"):
            return i, "id"
    return None


def own_rx(i, kind):
    if kind == "path":
        return r"LoadFromPath::load_from_path\(\**arg%d, \**arg%d\)" % (i, i)
    if kind == "client":
        return r"\**arg%d\.id" % i
    return r"\**arg%d" % i


def parts(prog):
    """fields of a client handle that are shared"""
    out = []
    for ch, k, el in of_type(prog, ("adt", CLIENT, ()), (), ()):
        if "@" in ch:
            f = tuple(x for x in ch[:ch.index("@")])
            if f not in out:
                out.append(f)
    return out


def accesses(a, rx):
    """(block, map field, chain root) of accesses to the per-client maps of the given object"""
    for b in a.calls(rx):
        if not a.call(b).args:
            continue
        for v in a.arg_vals(b, 0):
            if v[0] in ("ptr", "init", "arg", "cb"):
                r, ch = chain(v)
                f = [x for x in ch if x in MAPS]
                if r[0] == "arg" and f:
                    yield b, f[-1], ch


def check(cx):
    prog = cx.prog
    n1 = n2 = 0
    ps = parts(prog)
    cx.floor("shared parts of a client", len(ps), 2)
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if not (re.match(re.escape(T) + r"(stronghold::Stronghold|snapshot::Snapshot)::\w+$", p) and b.pub and b.local):
            continue
        op = own_param(prog, b)
        if op is None:
            continue
        a = cx.an(p, Coarse())
        n1 += per_client(cx, a, short(p), op, ps)
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if b.local and b.pub and re.match(re.escape(T) + r"(client::Client|vault::ClientVault|store::Store)::\w+$", p) and not re.search(r"execute_procedure", p) and b.argc and b.locals[1][0] == "ref":
            n2 += handle(cx, cx.an(p, Coarse()), short(p), ps, prog)
        elif b.local and re.match(r"<%s as iota_stronghold::procedures::types::Runner>::\w+$" % re.escape(CLIENT), p):
            n2 += handle(cx, cx.an(p, Coarse()), short(p), ps, prog)
    cx.floor("keyed accesses to the per-client maps", n1, 10)
    cx.floor("locks taken by operations of client handles", n2, 10)
    clone(cx, prog, ps)


def per_client(cx, a, n, op, ps):
    rx = own_rx(*op)
    k = 0
    looks = []
    for b, f, ch in accesses(a, KEYED):
        k += 1
        t = show(a.arg_term(b, 1, 30))
        want = r"VaultId\{%s\.0\}" % rx if f == ".state_keys" else rx
        m = a.call(b).path.rsplit("::", 1)[1]
        ok = bool(re.fullmatch(want, t))
        for l in calls_in(a.arg_deps(b, 1), a, r"load_from_path$"):
            cx.ob("whole-path", "%s:%s.%s" % (n, f, m), all(whole(a, l[1], j) for j in range(len(a.call(l[1]).args))), a.where(l[1]), "the id is derived from a part of the given path only")
        cx.ob("own-id", "%s:%s.%s" % (n, f, m), ok, a.where(b), "the entry of %s that is used is not the one of the given client: %s" % (f, t[:160]))
        if ok:
            looks.append((b, f, m))
    for b, f, ch in accesses(a, BULK):
        cx.ob("no-bulk", "%s:%s.%s" % (n, f, a.call(b).path.rsplit("::", 1)[1]), False, a.where(b), "an operation on one client works on all of %s" % f)
    for bl in a.g.blocks:
        if bl.id not in a.e.reached:
            continue
        for i, st in enumerate(bl.stmts):
            if st[0] == "=" and st[1][1]:
                for v, p in a.f.resolve(bl.id, i, st[1]):
                    if v[0] == "o":
                        r, ch = chain(("ptr", v, p))
                        if r[0] == "arg" and ch and (ch[-1] in MAPS or (ch[-1] == "@" and len(ch) > 1 and (ch[-2] in MAPS or ch[-2] == ".snapshot"))):
                            d = a.f.deps(a.f.vals(bl.id, i, st[2][1])) | a.f.deps(a.f._deep(bl.id, i, st[2][1])) if st[2][0] == "use" else set()
                            cx.ob("no-replace", "%s:%s" % (n, ch[-1] if ch[-1] != "@" else ch[-2]), bool(calls_in(d, a, r"logic::read_from$|logic::read$")), a.where(bl.id), "an operation on one client replaces the state of all clients")
    # what is handed out
    t = a.g.ty_of_place((a.g.retvar, ()))
    pre = None
    if t[0] == "adt" and t[1] == CLIENT:
        pre = ()
    elif t[0] == "adt" and t[1] == "core::result::Result" and t[2][0][0] == "adt" and t[2][0][1] == CLIENT:
        pre = (":Ok", ".0")
    regs = registrations(a, looks)
    ins = sorted(regs)
    if pre is not None:
        gets = set(b for b, f, m in looks if f == ".clients" and m in ("get", "get_mut", "remove"))
        for f in ps + [(".id",)]:
            vals = set(a.ret_content(pre + f))
            key = "%s:%s" % (n, "".join(f))
            reg = [set(regs[b](f)) for b in ins]
            if f == (".id",):
                ok = all(re.fullmatch(rx, show(a.f.vterm(v, 30, ()))) or base(v) in gets for v in vals)
                for b in ins:
                    iv = set(regs[b](f))
                    cx.ob("registered-id", n, all(re.fullmatch(rx, show(a.f.vterm(v, 30, ()))) for v in iv), a.where(b), "the client registered under the given id carries another one")
            else:
                ok = all(base(v) in gets or any(v in r for r in reg) for v in vals)
            cx.ob("handed-out", key, bool(vals) and ok, "", "the %s of the client handed out is not the one registered under its id: %s" % ("".join(f), "; ".join(show(a.f.vterm(v, 6, ()))[:100] for v in vals)))
        if ins:
            must_precede(cx, a, "registered", n, ins, a.rets("Ok"), "the client handed out is not registered")
    # a load does not replace a client that is loaded
    if ins and any(f == ".states" and m in ("get", "get_mut", "remove") for b, f, m in looks):
        def loaded(blk):
            for b, f, m in looks:
                if b == blk and f == ".clients":
                    return {(): {"contains_key": "1", "entry": "VOccupied"}.get(m, "VSome")}
            return None
        u = a.under(None, loaded)
        chk = [b for b, f, m in looks if f == ".clients" and m != "insert"]
        w = u.search(u.entry(), ins + u.rets("Ok"))
        cx.ob("not-replaced", n, bool(chk) and w is None, a.where(ins[0]), "a client that is already loaded is replaced: %s" % (a.show(w) if w else "never checked"))
    return k


def registrations(a, looks):
    """where a client is put into the loaded clients under its own id: block -> values of a field of that client"""
    out = {}
    for b, f, m in looks:
        if f == ".clients" and m == "insert":
            out[b] = lambda p, b=b: a.arg_vals(b, 2, p)
    ents = [b for b, f, m in looks if f == ".clients" and m in ("entry", "get_mut")]
    for b in a.calls(r"Entry::(or_insert|insert|insert_entry)$"):
        if any(e in dep_blks(a.arg_deps(b, 0)) for e in ents):
            out[b] = lambda p, b=b: a.arg_vals(b, 1, p)
    for bl in a.g.blocks:
        if bl.id not in a.e.reached:
            continue
        for i, st in enumerate(bl.stmts):
            if st[0] == "=" and st[1][1] and st[1][1][-1] in ("*", ("*",)) and st[2][0] == "use" and a.g.ty_of_place(st[1])[:2] == ("adt", CLIENT):
                for v, p in a.f.resolve(bl.id, i, st[1]):
                    if v[0] == "o" and v[1][0] == "call" and any(e == v[1][1] or e in dep_blks(a.arg_deps(v[1][1], 0)) for e in ents):
                        out[bl.id] = lambda p, b=bl.id, i=i, op=st[2][1]: a.f.vals_path(b, i, op, p)
    return out


def base(v):
    """call the value was obtained from, through pointers"""
    for _ in range(6):
        if v[0] in ("call", "mut"):
            return v[1]
        if v[0] in ("init", "ptr") and v[1][0] == "o":
            v = v[1][1]
            continue
        return None
    return None


LOCKS = r"::(RwLock::(read|write|try_read|try_write)|Mutex::(lock|try_lock))$"


def handle(cx, a, n, ps, prog):
    k = 0
    others = [i for i, t in enumerate(a.root.locals[1:1 + a.root.argc]) if i and (t[1] if t[0] == "ref" else t)[0] == "adt" and (t[1] if t[0] == "ref" else t)[1] == CLIENT]
    for b in a.calls(LOCKS):
        for v in a.arg_vals(b, 0):
            r, ch = chain(v) if v[0] in ("ptr", "init", "arg", "cb", "call") else ((v[0], v[1]), ())
            k += 1
            ok = r[0] == "arg" and (r[1] == 0 or r[1] in others)
            cx.ob("own-locks", "%s:%s" % (n, "".join(x for x in ch if x != "@")), ok, a.where(b), "the operation works on state that does not belong to its handle")
    return k


def clone(cx, prog, ps):
    """handles made from a handle share its parts"""
    k = 0
    for p, pre, fields in (("<%s as core::clone::Clone>::clone" % CLIENT, (), None), (CLIENT + "::vault", (".client",), None), (CLIENT + "::store", (), ((".cache",), (".store", ".cache")))):
        a = cx.an(p, Coarse())
        if a is None:
            continue
        for f in (ps + [(".id",)] if fields is None else [None]):
            src = f if fields is None else fields[1]
            dst = pre + f if fields is None else fields[0]
            vals = set(a.ret_content(dst))
            k += 1
            cx.ob("shares", short(p) + ":" + "".join(src), bool(vals) and all(show(a.f.vterm(v, 6, ())) == "*arg0" + "".join(src) for v in vals), "", "the new handle does not share %s with the one it is made from" % "".join(src))
    a = cx.an(CLIENT + "::id")
    if a is not None:
        k += 1
        cx.ob("shares", "Client::id", all(v == ("ptr", ("o", ("arg", 0, ())), (".id",)) or show(a.f.vterm(v, 6, ())) == "*arg0.id" for v in a.ret_content()), "", "the id reported is not the one of the handle")
    cx.floor("parts shared between handles", k, 4)
