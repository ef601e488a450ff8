"""P32: concurrent users of a client never observe a half-done vault operation."""
from .common import *
from .p08 import LOCK, ends, lock_class, reach
from .p19 import chain

TECHNIQUE = "lockset analysis (two-phase locking per client) over guard lifetimes on the inlined MIR flow graph of every public operation"
EXPLANATION = ("For every public operation that takes an exclusive lock on a part of a client (keys, vaults, store), no lock of that client is acquired after one of them has been released on any path: the operation is two-phase and "
               "therefore serialisable against all others. Releases and acquisitions are computed from the guards' drops. Iterations over different clients are told apart by the element they fetch. An operation composed of several complete "
               "changing operations (revoke, then garbage collection) may run them one after the other; the synchronisation operations, documented as not atomic, are two-phase from the first change on for each vault. For the maps of loaded clients and the in-memory snapshot, an exclusive lock is not taken after an earlier lock on the same map was released.")
ASSUMPTIONS = ["DbView, KeyStore and Cache are only reachable through these locks (P27, type structure)"]
NOTE = "All pairs of acquisitions on every path of every public operation; revoke-then-collect in delete_secret counts as two operations."

PARTS = (".keystore", ".db", ".cache")
SYNC = re.compile(r"client::Client::sync_(with|vaults)$")
MAPS = (".clients", ".snapshot", ".key_location")


def obj(a, blk):
    """(root, chain without the final lock field, lock field)"""
    out = set()
    for v in a.arg_vals(blk, 0):
        r, ch = chain(v) if v[0] in ("ptr", "init", "arg", "cb", "call") else ((v[0], v[1]), ())
        ch = [x for x in ch if x != "@"]
        if not ch:
            # the part was taken apart before: a handle's own lock
            out.add((r, (), "?"))
            continue
        own = ch[:-1]
        if ch[-1] == ".cache" and own and own[-1] == ".store":
            own = own[:-1]
        out.add((r, tuple(own), ch[-1]))
    return out


def mode(a, blk):
    return "write" if re.search(r"::(write|lock)$", a.call(blk).path) else "read"


def unit(a, blk, ops):
    """outermost complete operation, other than the root, that the block belongs to"""
    best = None
    c = a.g.ctxs[a.g.blocks[blk].ctx] if isinstance(a.g.blocks[blk].ctx, int) else a.g.blocks[blk].ctx
    while c is not None and c.parent is not None:
        if c.body.path in ops:
            best = c
        c = c.parent if not isinstance(c.parent, int) else a.g.ctxs[c.parent]
    return best


def analyse(cx, p):
    ops = set(public_ops(cx.prog))
    a = cx.an(p, RuntimeOpaque())
    acq = set(b for b in a.calls(LOCK, ext=True))
    if not acq:
        return 0
    end = ends(a, acq)
    objs = {b: obj(a, b) for b in acq}
    modes = {b: mode(a, b) for b in acq}
    units = {b: unit(a, b, ops) for b in acq}
    wunits = set(id(units[b]) for b in acq if units[b] is not None and modes[b] == "write")
    written = set(o[:2] for b in acq if modes[b] == "write" for o in objs[b] if o[2] in PARTS)
    cx.ob("two-phase", short(p), True)
    n = 0
    sync = bool(SYNC.search(p))
    for x in sorted(acq):
        after = []
        for b in end[x]:
            for i in a.e.byblk.get(b, []):
                after += a.e.succ[i]
        for ox in objs[x]:
            fetch = {ox[0][1]} if ox[0][0] in ("call", "mut") and isinstance(ox[0][1], int) else set()
            if sync:
                if modes[x] == "read":
                    continue
                fetch = set(a.calls(r"Iterator(>)?::next$"))
            hit = reach(a, after, fetch)
            for y in sorted(acq & hit):
                for oy in objs[y]:
                    if ox[:2] != oy[:2]:
                        continue
                    n += 1
                    if ox[2] in PARTS and oy[2] in PARTS:
                        if ox[:2] not in written:
                            continue
                        if units[x] is not units[y] and id(units[x]) in wunits and id(units[y]) in wunits:
                            continue
                    elif not (ox[2] == oy[2] and ox[2] in MAPS and modes[y] == "write"):
                        continue
                    cx.ob("two-phase", "%s:%s.%s-%s.%s" % (short(p), ox[2], modes[x], oy[2], modes[y]), False, a.where(y),
                          "between the release of %s (taken at %s) and the lock of %s another thread can change the client this operation works on" % (ox[2], a.where(x), oy[2]))
    return len(acq)


def check(cx):
    ops = public_ops(cx.prog)
    cx.floor("public operations analysed", len(ops), 40)
    n = sum(cx.par(ops, analyse))
    cx.floor("lock acquisitions", n, 30)
