"""P26: no failure of an internal step is swallowed."""
from ..graph import Policy, TooBig
from .common import *

TECHNIQUE = "fault seeding on the inlined MIR flow graph: for every fallible call of every public operation, reachability of a success return from its failure outcome"
EXPLANATION = ("Every public or trait-implementing function of the workspace is inlined (procedures one by one with their runner). For every reachable call that returns a Result, its failure outcome is "
               "followed through the operation: no return that reports success may be reached (any return, when the function has no way to report failure); panicking is not reporting success. "
               "For the outcomes of low-level memory calls that report failure as a number, see P04.")
ASSUMPTIONS = ["a vault key held in memory decrypts under the master key that encrypted it (the key store reports a key that does not as absent)",
               "logging and destructors of std are not steps of an operation"]
NOTE = "All fallible calls on all paths of the inlined operations; code derived by serde is left out."

# the key store treats a key that cannot be decrypted as not there: see ASSUMPTIONS
ACCEPT_IN = r"crypto_box::NCKey.*::decrypt_key$"


def roots(prog):
    out = []
    for p in sorted(prog.by_path):
        b = prog.by_path[p][0]
        if not b.local or not b.file.startswith(REPO_DIRS) or "{{" in p or "/tests" in b.file or b.crate.name == "stronghold_derive":
            continue
        if not (b.pub or " as " in p):
            continue
        if re.search(r"::de::|::ser::|as core::(fmt|clone|convert|cmp)::|serde", p):
            continue
        # composed of procedures that are analysed one by one
        # no way to return an error: P22 decides what they return instead
        if b.crate.name == "stronghold_native" and b.abi not in (None, "Rust"):
            continue
        if re.search(r"::execute_procedure(_chained)?$|::exec_proc$|StrongholdProcedure as .*::execute$", p):
            continue
        out.append(p)
    return out


def chain(a, blk):
    c = a.g.blocks[blk].ctx
    while c is not None:
        yield c
        c = c.parent


def within(a, blk, rx):
    return any(re.search(rx, c.body.path) for c in chain(a, blk))


class Modular(Policy):
    """operations that can report failure themselves are analysed on their own"""
    def __init__(self, prog, root):
        self.uids = {}
        self.client = root.crate.name not in ("runtime", "stronghold_utils")
        for p in ROOTS:
            for b in prog.by_path[p]:
                self.uids[b.uid] = p

    def opaque(self, body):
        if self.client and body.crate.name in ("runtime", "stronghold_utils") and body.local:
            return True
        return body.uid in self.uids and reports(body)


class Shallow(Policy):
    def opaque(self, body):
        return body.local


def reports(b):
    t = b.locals[0]
    return t[0] == "adt" and t[1] == "core::result::Result"


# formatting and logging; the page size and the home directory have defaults
ACCEPT = r"core::fmt::|(^|[ <])(env_)?log(ger)?::|unistd::sysconf$|std::env::var(_os)?$"
# listing shows the records that can be read and leaves out the others (revoked ones): documented
LISTING = r"DbView::list_hints_and_ids$"
# the failure of a destructor's own clean-up cannot be reported to anyone
CLEANUP = r"ops::drop::Drop>::drop$|::zeroize$"
# a missing file is a documented outcome, and so is recovering the lock of plain values
LOCK = r"sync::(poison::)?(mutex::)?Mutex::lock$"


def not_missing(a):
    def f(b):
        c = a.call(b)
        if re.search(CMP, c.tpath or c.path) and "kind" in show(a.arg_term(b, 0)) + show(a.arg_term(b, 1)):
            return {(): "1" if (c.tpath or c.path).endswith("ne") else "0"}
        return None
    return f


def one(cx, p):
    root = cx.prog.by_path[p][0]
    pol = Modular(cx.prog, root)
    pol.uids.pop(root.uid, None)
    try:
        a = cx.an(p, pol)
    except TooBig:
        a = cx.an(p, Shallow())
    kinds = a.calls(r"io::error::Error::kind$")
    if kinds:
        a = a.under(None, not_missing(a))
    again = a.calls(r"ops::function::Fn(Mut)?::call(_mut)?$|Mutex::try_lock$") if root.crate.name == "stronghold_stm" else []
    n = 0
    rk = a.result_kind_ret()
    for blk in a.g.blocks:
        if blk.kind != "call" or blk.call is None or blk.id not in a.e.reached or a.result_kind(blk.id) != "VErr":
            continue
        c = blk.call
        path = c.path or c.tpath
        if re.search(ACCEPT_IN, path) or within(a, blk.id, ACCEPT_IN) or within(a, blk.id, CLEANUP):
            continue
        if re.search(ACCEPT, path) or (root.crate.name == "runtime" and re.search(LOCK, path)):
            continue
        n += 1
        if re.search(LISTING, p) and "Record::get" in " ".join(x.body.path for x in chain(a, blk.id)) + path:
            continue
        seeds = a.fail(blk.id)
        w = a.search(seeds, a.rets("Ok") if rk == "Result" else a.rets(), avoid=again)
        cx.ob("propagated", short(p) + ":" + short(path), w is None, a.where(blk.id), "" if w is None else "a failure is swallowed: " + a.show(w))
    cx.count("fallible calls", n)


ROOTS = []


def check(cx):
    global ROOTS
    ROOTS = roots(cx.prog)
    cx.par(ROOTS, one)
    cx.floor("operations", len(ROOTS), 200)
    cx.floor("fallible steps", cx.counts.get("fallible calls", 0), 300)
