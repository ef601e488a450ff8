"""P05: split-memory keys reconstruct exactly and no single share reveals them."""
from .common import *
from .p08 import LOCK, ends
from ..xor import Xnf, strip

TECHNIQUE = "value-flow normal form (set of terms combined by exclusive-or, with hash as an uninterpreted function) of every share that is stored and of the value that is handed out, compared as sets; lock-region and must-pass rules for the refresh"
EXPLANATION = ("The content of every share stored by creation and refresh, and of the buffer handed out by reading, is computed from the inlined code as the set of terms that are xored together (the payload, fresh random bytes, the old "
               "shares, hashes of such sets). Reading defines how the two shares are combined; substituting the shares that creation stores must give exactly the payload, and substituting the shares that a refresh stores must give exactly "
               "the combination of the old ones. The two stored shares must each be masked by random bytes drawn in the same execution from a secure generator. Reading and refreshing take both shares under both locks held together, a refresh "
               "replaces both shares or none, every successful read refreshes, every configuration stores the shares in the kind of memory it names, and the RAM and fragment memories hand back what was put in. No other "
               "code builds or replaces shares.")
ASSUMPTIONS = ["the hash is a function of its input; FileMemory hands back what was put in (decided in P06)", "the payload of an allocation has the 32 bytes of its size argument (an overlong payload is truncated by the xor)"]
NOTE = "All code of the split memory and of the RAM / fragment share containers, every storage configuration, any number of refreshes (by induction over one refresh)."

M = "runtime::memories::noncontiguous_memory::"
NC = M + "NonContiguousMemory"
ALLOC = r"(RamMemory|FileMemory)::alloc$|Frag(<.*>)?::alloc_(initialized|default)$|Frag.* as .*Alloc.*>::alloc$"
READ = r"(RamMemory|FileMemory)( as .*)?(>)?::unlock$|frag::Frag::get$"
KINDS = {"FullFile": [("File",), ("File",)], "FullRam": [("Ram",), ("Ram",)], "RamAndFile": [("File",), ("Ram",)], "FragAllocation": [("Frag",), ("Frag",)]}
SHARDS = ("shard1", "shard2")


class Shares(NoOpaque):
    RX = re.compile(r"memories::(ram_memory::RamMemory|file_memory::FileMemory|frag::Frag)(::| as .*::)\w+$|memories::buffer::Buffer::(alloc|borrow)$|clone::Clone>::clone$|drop::Drop>::drop$|Boxed::\w+$|boxed::Shared")

    def opaque(self, body):
        return bool(self.RX.search(body.path))


def root(v):
    for _ in range(8):
        if v[0] in ("init", "ptr"):
            v = v[1]
        elif v[0] in ("o", "obj"):
            v = v[1]
        else:
            break
    return v


class Shards:
    """view of one operation of the split memory"""

    def __init__(self, cx, a):
        self.cx, self.a = cx, a
        self.reads = {}
        self.drawn = {}
        for b in a.calls(READ):
            s = show(a.arg_term(b, 0, 8))
            m = [n for n in SHARDS if re.search(r"^\*arg0\.%s@" % n, s)]
            if len(m) == 1:
                self.reads[b] = m[0]
        self.locks = {}
        for b in a.calls(LOCK, ext=True):
            s = show(a.arg_term(b, 0, 6))
            for n in SHARDS:
                if re.search(r"^\*arg0\.%s$" % n, s):
                    self.locks[b] = n
        self.ends = ends(a, set(self.locks))
        self.rngs = set(secure_rngs(a))
        self.x = Xnf(a, self.atom)

    def held(self, l, blk):
        a = self.a
        return a.search(a.entry(), [blk], avoid=[l]) is None and all(a.search(a.after(e), [blk], avoid=[l]) is None for e in self.ends[l])

    def section(self, blk):
        """the lock acquisitions held at blk: one per share"""
        return frozenset(l for l in self.locks if self.held(l, blk))

    def atom(self, v):
        r = root(v)
        if r[0] == "call" and r[1] in self.reads:
            return ("S", self.reads[r[1]], self.section(r[1]))
        if v[0] in ("call", "mut") and v[1] in self.rngs:
            self.drawn[v[1]] = v
            return ("R", v[1])
        if r[0] == "arg":
            return ("P", r[1], tuple(x for x in (v[2] if v[0] == "init" else ()) if x != "[]"))
        return None

    def share(self, v):
        """(kind, normal forms, block) of a stored share given its origin"""
        if v[0] != "call":
            return None
        p = self.a.call(v[1]).path
        if re.search(r"(RamMemory|FileMemory)::alloc$", p):
            return ("Ram" if "RamMemory" in p else "File", self.x.arg(v[1], 0), v[1], 0)
        if p.endswith("alloc_initialized") and v[2][-1:] in ((".0",), (".1",)) and v[2][:2] == (":Ok", ".0") and len(v[2]) == 3:
            i = 1 if v[2][-1] == ".0" else 2
            return ("Frag", self.x.arg(v[1], i), v[1], i)
        return None


def subst(nf, m):
    out = frozenset()
    for t in nf:
        if t[0] == "S" and t[1] in m:
            out ^= m[t[1]]
        elif t[0] == "H":
            out ^= frozenset([("H", subst(t[1], m))])
        else:
            out ^= frozenset([t])
    return out


def names(nf):
    """shares occurring in a normal form, with their lock sections"""
    out = set()
    for t in nf:
        if t[0] == "S":
            out.add((t[1], t[2]))
        elif t[0] == "H":
            out |= names(t[1])
    return out


def plain(nf):
    """normal form without lock sections"""
    return frozenset(("S", t[1]) if t[0] == "S" else ("H", plain(t[1])) if t[0] == "H" else t for t in nf)


def masks(nf):
    out = set()
    for t in nf:
        if t[0] == "R":
            out.add(t)
        elif t[0] == "H":
            out |= masks(t[1])
    return out


def pretty(nf):
    def one(t):
        if t[0] == "S":
            return t[1]
        if t[0] == "R":
            return "random"
        if t[0] == "P":
            return "payload"
        if t[0] == "H":
            return "H(" + pretty(t[1]) + ")"
        return str(t[1])[:80]
    return " ^ ".join(sorted(one(t) for t in nf)) or "0"


def locked_pair(cx, s, key, nf, at):
    """both shares of a combination are read while both locks are held"""
    n = names(nf)
    secs = set(x[1] for x in n)
    ok = len(secs) == 1 and set(s.locks[l] for x in secs for l in x) == set(SHARDS)
    cx.ob("consistent-read", key, ok, at, "the two shares are not read while both of their locks are held together: a refresh in between makes the combination wrong")


def covers(cx, s, key):
    for o in s.x.ops:
        r = s.x.covers(o)
        cx.ob("all-bytes", key, r is None, s.a.where(o[1]), r or "")


def sizes(cx, a, key, blk, i):
    t = show(a.arg_term(blk, i, 6))
    cx.ob("size", key, bool(re.match(r"^(\*?arg\d+(\.\w+)?|32|.*::len\(.*\))$", t)) and (not re.match(r"^\d+$", t) or t == "32"), a.where(blk), "the size is %s" % t[:120])


def stored(s):
    """(block, share name, {kind: origins}) of every replacement of a share"""
    a = s.a
    out = []

    def origins(f):
        return {k: f((":" + k, ".0")) for k in ("Ram", "File", "Frag")}

    for b in a.calls(r"RefCell::(replace|swap)$|mem::(replace|swap)$|ptr::write$|Cell::set$|Mutex::set$"):
        t = show(a.arg_term(b, 0, 6))
        for n in SHARDS:
            if re.search(r"arg0\.%s(@|$)" % n, t):
                out.append((b, n, origins(lambda p: a.arg_vals(b, 1, p))))
    for b in a.g.blocks:
        if b.id not in a.e.reached:
            continue
        for i, st in enumerate(b.stmts):
            if st[0] == "=" and st[1][1]:
                for r, p in a.f.resolve(b.id, i, st[1]):
                    if root(("ptr", r, p))[0] == "arg":
                        for n in SHARDS:
                            if tuple(p) == ("." + n, "@", "@") and st[2][0] == "use":
                                out.append((b.id, n, origins(lambda q: a.f.vals_path(b.id, i, st[2][1], q))))
                            elif "." + n in p and st[2][0] != "ref" and tuple(p) != ("." + n, "@", "@"):
                                out.append((b.id, n, {}))
    return out


def share_forms(cx, s, key, name, src, at):
    """normal forms of what is stored as share `name`; (kind, form, block) triples"""
    out = []
    n = 0
    for k, vs in src.items():
        for v in vs:
            n += 1
            x = s.share(v)
            cx.ob("share-source", key + ":" + name, x is not None and x[0] == k, at, "what is stored in %s is not allocated by a share container: %s" % (name, show(s.a.f.vterm(v, 6, ()))[:160]))
            if x is not None:
                for f in x[1]:
                    out.append((k, f, x[2]))
                if k != "Frag":
                    sizes(cx, s.a, key + ":" + name, x[2], 1)
    cx.ob("share-source", key + ":" + name + ":any", n > 0, at, "no allocated share is stored in %s" % name)
    return out


def one_form(cx, key, forms, at):
    fs = set(plain(f) for _, f, _ in forms)
    cx.ob("share-form", key, len(fs) == 1, at, "the share does not have one content for all configurations: " + " / ".join(sorted(pretty(f) for f in fs))[:300])
    return fs.pop() if len(fs) == 1 else None


def kinds(cx, s, key, srcs, place, at):
    for cfg, want in KINDS.items():
        u = s.a.under(place(cfg))
        got = []
        for n in SHARDS:
            got.append(tuple(sorted(k for k, vs in srcs[n].items() if any(v[0] == "call" and v[1] in u.e.reached for v in vs))))
        cx.ob("kind", "%s:%s" % (key, cfg), sorted(got) == sorted(want), at, "configuration %s stores its shares in %s" % (cfg, got))


def combination(cx):
    """how reading combines the shares"""
    a = cx.an("<" + NC + " as runtime::locked_memory::LockedMemory>::unlock", Shares())
    if a is None:
        return None
    s = Shards(cx, a)
    bufs = [b for b in a.calls(r"Buffer::alloc$|Boxed::new$") if b in a.e.reached]
    out = [v for v in a.ret_content((":Ok", ".0"))]
    src = set(root(v)[1] for v in out if root(v)[0] == "call")
    cx.ob("handed-out", "unlock", bool(src) and all(x in bufs for x in src), a.where(a.g.entry) if hasattr(a.g, "entry") else "", "what is handed out is no newly filled buffer")
    forms = set()
    for b in src & set(bufs):
        if re.search(r"Buffer::alloc$", a.call(b).path):
            for f in s.x.arg(b, 0):
                forms.add(plain(f))
                locked_pair(cx, s, "unlock", f, a.where(b))
            sizes(cx, a, "unlock", b, 1)
    at = a.where(min(src)) if src else ""
    cx.ob("combination", "unlock", len(forms) == 1, at, "reading does not combine the shares in one way: " + " / ".join(sorted(pretty(f) for f in forms))[:400])
    covers(cx, s, "unlock")
    c = forms.pop() if len(forms) == 1 else None
    if c is not None:
        cx.ob("combination", "both-shares", set(n for n, in [(x[1],) for x in flat(c)]) == set(SHARDS), at, "reading uses %s" % pretty(c))
        cx.ob("combination", "only-shares", all(x[0] == "S" for x in flat(c)), at, "reading mixes in something that is no share: %s" % pretty(c))
    st = stored(s)
    for n in SHARDS:
        w = a.search(a.entry(), a.rets("Ok"), avoid=[b for b, m, _ in st if m == n])
        cx.ob("refreshes", n, w is None, at, "the key can be read without renewing %s: %s" % (n, a.show(w) if w else ""))
    cx.count("read combinations", 1 if c else 0)
    return c


def flat(nf):
    for t in nf:
        if t[0] == "H":
            yield from flat(t[1])
        else:
            yield t


def creation(cx, comb):
    a = cx.an(NC + "::alloc", Shares())
    if a is None:
        return
    s = Shards(cx, a)
    at = a.where(0)
    srcs, forms = {}, {}
    for n in SHARDS:
        srcs[n] = {k: a.ret_content((":Ok", ".0", "." + n, "@", "@", ":" + k, ".0")) for k in ("Ram", "File", "Frag")}
        forms[n] = one_form(cx, "alloc:" + n, share_forms(cx, s, "alloc", n, srcs[n], at), at)
    covers(cx, s, "alloc")
    kinds(cx, s, "alloc", srcs, lambda cfg: (lambda aps, ty: "V" + cfg if "NCConfig" in str(ty)[:120] else None), at)
    cfgs = a.ret_content((":Ok", ".0", ".config"))
    cx.ob("config-kept", "alloc", bool(cfgs) and all(root(v) == ("arg", 2, ()) for v in cfgs), at, "the memory does not keep the configuration it was allocated with")
    masked(cx, s, "alloc", forms, at)
    if comb is not None and None not in forms.values():
        got = subst(comb, forms)
        cx.ob("reconstructs", "alloc", got == frozenset([("P", 0, ())]), at, "reading the shares that creation stores gives %s instead of the payload (shares: %s | %s)" % (pretty(got), pretty(forms["shard1"]), pretty(forms["shard2"])))


def masked(cx, s, key, forms, at):
    for n, f in forms.items():
        if f is None:
            continue
        m = masks(f)
        cx.ob("masked", "%s:%s" % (key, n), bool(m), at, "%s is stored as %s, without a fresh random mask" % (n, pretty(f)))
        for t in m:
            check_fresh(cx, s.a, "mask", "%s:%s" % (key, n), [s.drawn[t[1]]], at, "mask")
            c = s.a.call(t[1])
            for i in range(len(c.args)):
                if re.search(r"fill", c.path or "") and i == len(c.args) - 1:
                    cx.ob("mask-whole", "%s:%s" % (key, n), whole(s.a, t[1], i), s.a.where(t[1]), "only a part of the mask is random")
                    sz = [v for v in s.a.arg_content(t[1], i) if v[0] == "call" and s.a.call(v[1]).path.endswith("from_elem")]
                    for v in sz:
                        sizes(cx, s.a, "mask:%s:%s" % (key, n), v[1], 1)


def refreshing(cx, comb, path, key):
    a = cx.an(path, Shares())
    if a is None:
        return
    s = Shards(cx, a)
    st = stored(s)
    at = a.where(st[0][0]) if st else a.where(0)
    by = {n: [x for x in st if x[1] == n] for n in SHARDS}
    cx.ob("refresh", key + ":both", all(by.values()), at, "a refresh does not replace both shares")
    if not all(by.values()):
        return
    forms, srcs = {}, {}
    for n in SHARDS:
        fs = []
        srcs[n] = {}
        for b, _, src in by[n]:
            fs += share_forms(cx, s, key, n, src, a.where(b))
            for k, vs in src.items():
                srcs[n].setdefault(k, set()).update(vs)
            sec = s.section(b)
            cx.ob("refresh-locked", "%s:%s" % (key, n), set(s.locks[l] for l in sec) == set(SHARDS), a.where(b), "%s is replaced without holding both locks" % n)
        for k, f, b in fs:
            if len(set(x for x, _ in names(f))) > 1 or True:
                for sec in set(x[1] for x in names(f)):
                    cx.ob("consistent-read", key + ":" + n, set(s.locks[l] for l in sec) == set(SHARDS), a.where(b), "an old share is read without holding both locks")
        secs = set(x[1] for _, f, _ in fs for x in names(f))
        srcs[n + "#"] = secs
        forms[n] = one_form(cx, key + ":" + n, fs, at)
    cx.ob("consistent-read", key, len(srcs["shard1#"] | srcs["shard2#"]) <= 1, at, "the old shares that a refresh combines are read at different times")
    covers(cx, s, key)
    kinds(cx, s, key, srcs, lambda cfg: assume_field("config", "V" + cfg), at)
    masked(cx, s, key, forms, at)
    if comb is not None and None not in forms.values():
        got = subst(comb, forms)
        cx.ob("reconstructs", key, got == comb, at, "reading after a refresh gives %s instead of %s" % (pretty(got), pretty(comb)))
        # an old share must not show through the new one: the mask is more than the other share's content
    # both or none
    blks = {n: [b for b, _, _ in by[n]] for n in SHARDS}
    for n, o in (SHARDS, SHARDS[::-1]):
        for b in blks[n]:
            w = a.search(a.after(b), a.g.rets, avoid=blks[o])
            v = a.search(a.entry(), [b], avoid=blks[o])
            cx.ob("both-or-none", "%s:%s" % (key, n), w is None or v is None, a.where(b), "%s can be replaced without replacing %s: %s" % (n, o, a.show(w) if w else ""))
            # the same critical section
            for c in blks[o]:
                cx.ob("both-or-none", "%s:%s:section" % (key, n), s.section(b) == s.section(c), a.where(b), "the shares are replaced in different critical sections")
    if key == "refresh":
        w = a.search(a.entry(), a.rets("Ok"), avoid=blks["shard1"])
        cx.ob("refreshes", "refresh", w is None, at, "a refresh can report success without renewing the shares: %s" % (a.show(w) if w else ""))


def containers(cx):
    """RAM and fragment shares hand back what was put in"""
    class Box(NoOpaque):
        def opaque(self, body):
            return bool(re.search(r"Frag::alloc_default$|Boxed::\w+$|Buffer::(alloc|borrow)$|boxed::Shared", body.path))
    R = "runtime::memories::ram_memory::RamMemory"
    a = cx.an(R + "::alloc", Box())
    if a is not None:
        v = a.ret_content((":Ok", ".0", ".buf"))
        ok = bool(v)
        for x in v:
            ok = ok and x[0] == "call" and a.call(x[1]).path.endswith("Buffer::alloc") and has_only(a, x[1], 0, 0) and show(a.arg_term(x[1], 1, 4)) == "arg1" and whole(a, x[1], 0)
        cx.ob("container", "ram:alloc", ok, a.where(0), "the memory does not hold the payload: %s" % [show(a.f.vterm(x, 5, ()))[:120] for x in v])
        sz = a.ret_content((":Ok", ".0", ".size"))
        cx.ob("container", "ram:size", bool(sz) and all(x == ("arg", 1, ()) for x in sz), a.where(0), "the memory does not record its size")
    a = cx.an("<" + R + " as runtime::locked_memory::LockedMemory>::unlock", Box())
    if a is not None:
        v = a.ret_content((":Ok", ".0"))
        ok = bool(v)
        for x in v:
            ok = ok and x[0] == "call" and a.call(x[1]).path.endswith(("Buffer::alloc", "Clone>::clone")) and bool(re.match(r"^\*?\*?(\*arg0\.buf$|Buffer::borrow\(\*arg0\.buf\))", show(a.arg_term(x[1], 0, 8)))) and whole(a, x[1], 0)
        cx.ob("container", "ram:unlock", ok, a.where(0), "reading the memory does not give its content: %s" % [show(a.f.vterm(x, 6, ()))[:160] for x in v])
    a = cx.an("runtime::memories::buffer::Buffer::alloc", Box())
    if a is not None:
        n = 0
        for b in a.calls(r"copy_from_slice$|clone_from_slice$|copy_nonoverlapping$|ptr::copy$"):
            n += 1
            d = 1 if "slice" in a.call(b).path else 0
            cx.ob("container", "buffer:copy", whole(a, b, d) and whole(a, b, 1 - d) and show(a.arg_term(b, d, 6)) == "*arg0", a.where(b), "the buffer is not filled with the whole payload")
        cx.ob("container", "buffer:filled", n > 0, a.where(0), "the buffer is not filled with the payload")
    a = cx.an("runtime::memories::frag::Frag::alloc_initialized", Box())
    if a is not None:
        got = {}
        for b in a.g.blocks:
            if b.id not in a.e.reached:
                continue
            for i, st in enumerate(b.stmts):
                if st[0] == "=" and "*" in st[1][1] and st[2][0] == "use":
                    w = set(x for x in (a.f.vals(b.id, i, st[2][1])) if x[0] == "arg" and x[1] in (1, 2))
                    if w:
                        got.setdefault(frg(a, b.id, i, st[1]), set()).update(x[1] for x in w)
            if b.kind == "call" and b.call is not None and re.search(r"ptr::(\w+::)*write\w*$|mem::replace$|NonNull::write$", b.call.path or ""):
                w = set(x[1] for x in a.arg_vals(b.id, 1) if x[0] == "arg")
                got.setdefault(frg_t(show(a.arg_term(b.id, 0, 8))), set()).update(w)
        cx.ob("container", "frag:alloc", got.get(0) == {1} and got.get(1) == {2}, a.where(0), "the two fragments are not filled with the two given values in order: %s" % got)
        for j in (0, 1):
            v = a.ret_content((":Ok", ".0", ".%d" % j))
            v = [x for x in v if x[0] != "arg"]
            ok = bool(v) and all(frg_t(show(a.f.vterm(x, 6, ()))) == j for x in v)
            cx.ob("container", "frag:order%d" % j, ok, a.where(0), "the fragments are handed back in another order: %s" % [show(a.f.vterm(x, 6, ()))[:120] for x in v])
    a = cx.an("runtime::memories::frag::Frag::get", Box())
    if a is not None:
        v = a.ret_content((":Ok", ".0"))
        ok = bool(v) and all("arg0.ptr" in show(a.f.vterm(x, 6, ())) for x in v)
        cx.ob("container", "frag:get", ok, a.where(0), "reading a fragment gives %s" % [show(a.f.vterm(x, 6, ()))[:120] for x in v])


def frg_t(t):
    m = re.search(r"alloc_default\(.*\):Ok\.0\.([01])", t)
    return int(m.group(1)) if m else None


def frg(a, blk, idx, pl):
    """which of the two fragments a store goes to"""
    out = set()
    t = show(a.f.dterm(blk, idx, ("p", (pl[0], pl[1][:pl[1].index("*")]), False), 8, ()))
    out.add(frg_t(t))
    if out == {None}:
        # the fragment was moved into a local of its own
        for r, p in a.f.resolve(blk, idx, pl):
            for v in a.f.trace(blk, idx, r, ()):
                out.add(frg_t(show(a.f.vterm(v, 6, ()))))
    out.discard(None)
    return out.pop() if len(out) == 1 else None


def has_only(a, blk, i, n):
    """argument i is the content of the function's parameter n, unchanged"""
    return show(a.arg_term(blk, i, 4)) == "*arg%d" % n


def cloning(cx):
    a = cx.an("<" + NC + " as core::clone::Clone>::clone", Shares())
    if a is None:
        return
    s = Shards(cx, a)
    at = a.where(0)
    for n in SHARDS:
        vs = a.ret_content(("." + n, "@", "@"))
        ok = bool(vs) and all(re.match(r"^\*?(RefCell::clone\(|Clone::clone\(|MemoryShard::clone\()*\*?arg0\.%s@" % n, show(a.f.vterm(v, 8, ()))) for v in vs)
        cx.ob("clone", n, ok, at, "the copy's %s is %s" % (n, [show(a.f.vterm(v, 8, ()))[:120] for v in vs]))
    # the copies are taken while both locks are held
    cl = [b for b in a.calls(r"Clone(>)?::clone$") if re.search(r"arg0\.shard[12]", show(a.arg_term(b, 0, 8)))]
    for b in cl:
        cx.ob("clone", "locked", set(s.locks[l] for l in s.section(b)) == set(SHARDS), a.where(b), "a share is copied without holding both locks: a refresh in between makes the copy unreadable")
    cx.ob("clone", "copies", len(cl) >= 2, at, "the shares are not copied")
    v = a.ret_content((".config",))
    cx.ob("clone", "config", bool(v) and all("arg0.config" in show(a.f.vterm(x, 6, ())) for x in v), at, "the copy has another configuration")


def others(cx):
    """nothing else builds split memories or replaces shares"""
    prog = cx.prog
    roots = {NC + "::alloc", "<" + NC + " as core::clone::Clone>::clone"}
    n = 0
    for b in local_bodies(prog, ("runtime", "engine", "iota_stronghold")):
        n += 1
        made = agg_of(b, "NonContiguousMemory")
        if made:
            cx.ob("builder", short(b.path), b.path in roots or called_only_by(prog, b, roots), b.loc, "builds a split memory outside the analysed constructors")
        if re.search(r"NonContiguousMemory( as .*)?(>)?::\w+$", b.path) and b.argc and not re.search(r"::(unlock|refresh|alloc|update|serialize|visit_seq|fmt)$", b.path):
            a = cx.an(b, Shares())
            for blk, name, _ in stored(Shards(cx, a)):
                cx.ob("builder", "stores:" + short(b.path), called_only_by(prog, b, roots | {NC + "::refresh"}), a.where(blk), "%s is replaced outside the analysed refresh" % name)
    cx.count("functions searched for builders", n)
    upd = cx.an("<" + NC + " as runtime::locked_memory::LockedMemory>::update", type("U", (Shares,), {"opaque": lambda self, b: Shares.opaque(self, b) or b.path == NC + "::alloc"})())
    if upd is not None:
        v = upd.ret_content()
        c = upd.calls(r"NonContiguousMemory::alloc$")
        cx.ob("update", "through-alloc", bool(c) and all(x[0] == "call" and x[1] in c for x in v), upd.where(0), "updating does not go through a fresh allocation")
        for b in c:
            cx.ob("update", "payload", "arg1" in show(upd.arg_term(b, 0, 6)), upd.where(b), "updating does not store the new payload")


def agg_of(body, name):
    """the body builds a value of the type"""
    for b in body.blocks:
        for st in b["s"]:
            if st[0] == "=" and st[2][0] == "agg" and str(st[2][1].get("p", "")).endswith("::" + name):
                return True
    return False


def called_only_by(prog, body, roots, depth=0):
    callers = [b for b in prog.bodies.values() if b.local and body.path in mentions(b)]
    return bool(callers) and depth < 4 and all(c.path in roots or called_only_by(prog, c, roots, depth + 1) for c in callers)


def check(cx):
    comb = combination(cx)
    creation(cx, comb)
    refreshing(cx, comb, NC + "::refresh", "refresh")
    refreshing(cx, comb, "<" + NC + " as runtime::locked_memory::LockedMemory>::unlock", "read-refresh")
    containers(cx)
    cloning(cx)
    others(cx)
    cx.floor("obligations", len(cx.obs), 30)
