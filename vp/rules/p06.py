"""P06: file-backed secret memory is masked on disk and locked after every access."""
from .common import *
from .p05 import root, pretty, masks, covers, sizes
from ..xor import Xnf

TECHNIQUE = "value-flow normal form (exclusive-or sets) of everything written to and read from the file; typestate of the file's access rights over all paths of the inlined code; must-pass rules for clearing and removal"
EXPLANATION = ("Each operation of the file-backed memory is inlined down to the file-system calls. Every byte sequence written to a file is the payload xored with random bytes drawn in the same execution over its whole length, or zeros; the same "
               "random bytes are what the value keeps, and reading xors the file's content with exactly them. After every call that makes a file accessible or writes, creates, copies or reads it, every return passes a call "
               "that takes all access rights away from that file (on failing paths at least the attempt, or the removal of the file), and a failure to do so is reported. When all file-system calls succeed, zeroizing and dropping pass, "
               "on every path, a write of zeros of the full size to the file and then its removal, before the name or the size are forgotten. File names are random. No other function of the module touches files.")
ASSUMPTIONS = ["file-system calls do what they promise; in particular set_permissions with mode 0 makes the file inaccessible (the super-user is not bound by it) and a failed clearing may leave the file behind (best effort)"]
NOTE = "All operations of FileMemory and every file-system call site in the runtime crate."

F = "runtime::memories::file_memory::FileMemory"
OPS = {"alloc": F + "::alloc", "unlock": "<" + F + " as runtime::locked_memory::LockedMemory>::unlock", "clone": "<" + F + " as core::clone::Clone>::clone",
       "zeroize": "<" + F + " as zeroize::Zeroize>::zeroize", "drop": "<" + F + " as core::ops::drop::Drop>::drop"}
FS = r"^std::fs::|^std::os::.*fs::|^<?std::fs::(File|OpenOptions)"
PERM = r"std::fs::set_permissions$|std::fs::File::set_permissions$"
WRITE = r"io::write::Write(>)?::(write|write_all|write_vectored|write_fmt)$|std::fs::write$|FileExt(>)?::write\w*$"
CREATE = r"std::fs::File::(create\w*|options)$|OpenOptions::open$"
READ = r"std::fs::(read|read_to_string)$|io::read::Read(>)?::read\w*$|std::fs::File::open$"
COPY = r"std::fs::copy$"
REMOVE = r"std::fs::remove_file$"


class Files(NoOpaque):
    def opaque(self, body):
        return bool(re.search(r"Buffer::(alloc|borrow)$|Boxed::\w+$|boxed::Shared", body.path))


class V:
    def __init__(self, cx, name, a):
        self.cx, self.name, self.a = cx, name, a
        self.rngs = set(secure_rngs(a))
        self.drawn = {}
        self.x = Xnf(a, self.atom)
        self.stops = [b.id for b in a.g.blocks if b.kind == "stop" and b.id in a.e.reached]

    def atom(self, v):
        r = root(v)
        if v[0] in ("call", "mut") and v[1] in self.rngs:
            self.drawn[v[1]] = v
            return ("R", v[1])
        if r[0] == "call" and re.search(READ, (self.a.call(r[1]).tpath or "") + "\n" + self.a.call(r[1]).path, re.M):
            return ("F", self.file(r[1]))
        if v[0] == "mut" and re.search(r"Read(>)?::read\w*$", self.a.call(v[1]).tpath or self.a.call(v[1]).path):
            return ("F", self.file(v[1]))
        if r[0] == "arg":
            return ("P", r[1], tuple(x for x in (v[2] if v[0] == "init" else ()) if x != "[]"))
        return None

    def file(self, blk, i=0):
        """the file an argument denotes: own, new or unknown"""
        a = self.a
        d = a.arg_deps(blk, i)
        own = any(v[0] == "init" and root(v) == ("arg", 0, ()) and ".fname" in v[2] for v in d)
        new = any(v[0] in ("call", "mut") and (v[1] in self.rngs) for v in d) or bool(calls_in(d, a, r"sample_iter$|sample$|Alphanumeric|temp"))
        return "own" if own and not new else "new" if new and not own else "?"

    def modes(self, blk):
        """the access rights a call sets"""
        a = self.a
        i = len(a.call(blk).args) - 1
        out = set()
        for v in a.arg_vals(blk, i):
            if v[0] in ("mut", "call"):
                c = a.call(v[1])
                if re.search(r"::(set_mode|from_mode)$", c.path):
                    for w in a.arg_vals(v[1], len(c.args) - 1):
                        out.add(str(w[1][-1]) if w[0] == "k" else "?")
                elif c.path.endswith("set_readonly"):
                    out.add("ro")
                elif not c.path.endswith("permissions"):
                    out.add("?")
        return out or {"?"}

    def locks(self, f):
        return [b for b in self.a.calls(PERM) if self.modes(b) == {"0"} and self.file(b) == f]

    def attempts(self, f):
        """lock attempts: the call itself or the query it depends on"""
        out = set()
        for b in self.locks(f):
            out.add(b)
            d = self.a.arg_deps(b, len(self.a.call(b).args) - 1)
            out |= set(v[1] for v in d if v[0] == "call" and self.a.call(v[1]).path.endswith("metadata"))
        return out

    def opened(self):
        """(block, file, what) of calls after which a file may be accessible"""
        a = self.a
        for b in a.calls(PERM):
            if self.modes(b) != {"0"}:
                yield b, self.file(b), "its access rights are widened"
        for b in a.calls(CREATE):
            yield b, self.file(b, len(a.call(b).args) - 1 if "OpenOptions" in a.call(b).path else 0), "it is created"
        for b in a.calls(r"std::fs::write$"):
            yield b, self.file(b), "it is written"
        for b in a.calls(COPY):
            yield b, self.file(b, 1), "it is copied to"


def access(cx, v):
    a = v.a
    n = 0
    for b, f, what in v.opened():
        n += 1
        key = "%s:%s:%s" % (v.name, f, a.call(b).path.rsplit("::", 1)[1])
        cx.ob("known-file", key, f in ("own", "new"), a.where(b), "a file that is neither the memory's own nor a newly named one is accessed")
        lock, att = v.locks(f), v.attempts(f) | set(x for x in a.calls(REMOVE) if v.file(x) == f or f == "new")
        ok = a.e.seed(b, {(): "VOk"})
        # dropping the memory clears and removes its file (decided on its own)
        gone = list(a.calls(REMOVE)) + (a.drops(lambda t: t[0] == "adt" and t[1] == F) if f == "new" else [])
        oks = a.rets("Ok") if a.result_kind_ret() else a.g.rets
        if v.name in ("zeroize", "drop"):
            continue
        w = a.search(ok, oks, avoid=lock)
        cx.ob("locked-after", key, w is None, a.where(b), "after %s, the operation can succeed with the file left accessible: %s" % (what, a.show(w) if w else ""))
        panics = [x for x in a.calls(r"(Result|Option)::(expect|unwrap)$") if not any(y[0] == "call" and y[1] == b for y in a.arg_deps(x, 0))] if f == "own" else []
        w = a.search(ok, list(a.g.rets) + panics + (v.stops if f == "own" else []), avoid=list(att) + gone)
        cx.ob("locked-on-failure", key, w is None, a.where(b), "after %s, the operation can end without even trying to lock or remove the file: %s" % (what, a.show(w) if w else ""))
    for f in ("own", "new"):
        for b in v.locks(f):
            if a.result_kind(b) is not None:
                oks = a.rets("Ok") if a.result_kind_ret() else a.g.rets
                w = a.search(a.fail(b), oks, avoid=[x for x in v.locks(f) if x != b])
                cx.ob("lock-failure", "%s:%s" % (v.name, f), w is None, a.where(b), "a failure to lock the file is not reported: %s" % (a.show(w) if w else ""))
    # nothing opens the file again after the lock
    return n


def entire(a, blk, i):
    """whole(), where viewing a slice as bytes (types::bytes) is no sub-slice"""
    if whole(a, blk, i):
        return True
    bad = [v for v in a.raw_vals(blk, i)]
    for v in bad:
        while v[0] == "ptr" and v[1][0] == "o":
            v = v[1][1]
        if v[0] == "call":
            b = a.g.blocks[v[1]]
            if not (b.call.path.endswith("from_raw_parts") and "::as_bytes" in b.ctx.body.path):
                return False
            # the pointer and length both come from the whole slice
            if not (whole(a, v[1], 0) and re.search(r"size_of_val|len\(|size\(|size_of", show(a.arg_term(v[1], 1, 8)))):
                return False
    return True


def written(cx, v):
    a = v.a
    forms = []
    for b in a.calls(WRITE):
        c = a.call(b)
        i = 1
        p = a.g.ty_of_op(c.args[0])
        if "File" not in str(p) and not c.path.startswith("std::fs"):
            continue
        for nf in v.x.arg(b, i):
            key = "%s:write" % v.name
            zero = nf == frozenset()
            m = set(t for t in nf if t[0] == "R")
            plain = set(t for t in nf if t[0] != "R")
            cx.ob("masked", key, zero or bool(m), a.where(b), "%s reaches the disk without a fresh random mask" % pretty(nf))
            for t in m:
                check_fresh(cx, a, "mask", key, [v.drawn[t[1]]], a.where(b), "mask", b)
                r = a.call(t[1])
                cx.ob("mask-whole", key, whole(a, t[1], len(r.args) - 1), a.where(t[1]), "only a part of the mask is random")
            forms.append((b, nf, zero))
            if not zero:
                cx.ob("whole-write", key, entire(a, b, i), a.where(b), "only a part is written")
                if c.path.endswith("::write") and not c.path.startswith("std::fs"):
                    cx.ob("whole-write", key + ":all", False, a.where(b), "a partial write is taken for a complete one")
    covers_(cx, v)
    return forms


def covers_(cx, v):
    for o in v.x.ops:
        r = v.x.covers(o)
        cx.ob("all-bytes", v.name, r is None, v.a.where(o[1]), r or "")


def nfs(v, path):
    """normal forms of (a part of) the returned value"""
    a = v.a
    out = set()
    for r in a.g.rets:
        if r in a.e.reached:
            b = a.g.blocks[r]
            vs, st, seen = set(), list(a.f.trace(r, len(b.stmts), ("v", a.g.retvar), tuple(path))), set()
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    if x[0] == "ptr":
                        st.extend(a.f.trace(r, len(b.stmts), x[1], x[2]))
                    else:
                        vs.add(x)
            if vs:
                out |= v.x.nf(vs)
    return out


def named(cx, v, pre):
    """the file the value names is the random one that was created"""
    a = v.a
    d = set()
    for x in ret_deep(a, pre + (".fname",)):
        d |= a.f.deps([x])
    own = any(x[0] == "init" and ".fname" in x[2] for x in d)
    cx.ob("name", v.name, (bool(fresh_deps(a, d, v.rngs)) or bool(calls_in(d, a, r"sample_iter$|sample$"))) and not own, a.where(0), "the file's name is not drawn at random")


def check(cx):
    prog = cx.prog
    views = {}
    for n, p in OPS.items():
        a = cx.an(p, Files())
        if a is not None:
            views[n] = V(cx, n, a)
    total = sum(access(cx, v) for v in views.values())
    v = views.get("alloc")
    if v is not None:
        a = v.a
        forms = written(cx, v)
        real = [(b, f) for b, f, z in forms if not z]
        cx.ob("stored", "alloc", bool(real), a.where(0), "the payload is not written to the file")
        w = a.search(a.entry(), a.rets("Ok"), avoid=[b for b, _ in real])
        cx.ob("stored", "alloc:always", w is None, a.where(0), "the allocation can succeed without writing the payload: %s" % (a.show(w) if w else ""))
        keep = nfs(v, (":Ok", ".0", ".noise"))
        for b, f in real:
            want = f ^ frozenset([("P", 0, ())])
            cx.ob("recoverable", "alloc", keep == {want}, a.where(b), "the file holds %s but the noise that is kept is %s" % (pretty(f), "/".join(pretty(k) for k in keep)))
            cx.ob("payload", "alloc", ("P", 0, ()) in f and len([t for t in f if t[0] != "R"]) == 1, a.where(b), "the file holds %s" % pretty(f))
            if not a.call(b).path.startswith("std::fs"):
                pass
        sz = a.ret_content((":Ok", ".0", ".size"))
        cx.ob("size", "alloc", bool(sz) and all(x == ("arg", 1, ()) for x in sz), a.where(0), "the memory does not record its size")
        for t in set(t for _, f in real for t in f if t[0] == "R"):
            for s in [x for x in a.arg_content(t[1], len(a.call(t[1]).args) - 1) if x[0] == "call" and a.call(x[1]).path.endswith("from_elem")]:
                sizes(cx, a, "mask", s[1], 1)
        named(cx, v, (":Ok", ".0"))
        for b in a.calls(WRITE):
            if a.result_kind(b) is not None:
                fails(cx, a, "write-failure", "alloc", b, what="a failed write is not reported")
        for b in a.calls(CREATE):
            if a.result_kind(b) is not None:
                fails(cx, a, "write-failure", "alloc:create", b, what="a failed creation is not reported")
    v = views.get("unlock")
    if v is not None:
        a = v.a
        written(cx, v)
        src = set(root(x)[1] for x in a.ret_content((":Ok", ".0")) if root(x)[0] == "call")
        bufs = [b for b in src if re.search(r"Buffer::alloc$", a.call(b).path)]
        cx.ob("read", "unlock", bool(bufs) and len(bufs) == len(src), a.where(0), "what is handed out is no newly filled buffer")
        for b in bufs:
            got = v.x.arg(b, 0)
            want = frozenset([("F", "own"), ("P", 0, (".noise",))])
            cx.ob("read", "unlock:content", got == {want}, a.where(b), "reading gives %s instead of the file's content xored with the kept noise" % " / ".join(pretty(g) for g in got))
            cx.ob("read", "unlock:size", show(a.arg_term(b, 1, 4)) == "*arg0.size", a.where(b), "reading gives a buffer of another size")
        covers_(cx, v)
        for b in a.calls(READ):
            if a.result_kind(b) is not None:
                fails(cx, a, "read-failure", "unlock", b, what="a failed read is not reported")
    v = views.get("clone")
    if v is not None:
        a = v.a
        forms = written(cx, v)
        keep = nfs(v, (".noise",))
        cp = a.calls(COPY)
        real = [(b, f) for b, f, z in forms if not z]
        al = a.calls(r"FileMemory::alloc$")
        cx.ob("clone", "has-file", bool(cp or real), a.where(0), "the copy gets no file of its own")
        w = a.search(a.entry(), a.g.rets, avoid=cp + [b for b, _ in real])
        cx.ob("clone", "always", w is None, a.where(0), "a copy can be made without a file of its own: %s" % (a.show(w) if w else ""))
        for b in cp:
            cx.ob("clone", "copy", v.file(b, 0) == "own" and v.file(b, 1) == "new", a.where(b), "the copy's file is not a copy of the memory's own file under a new name")
            cx.ob("clone", "noise", keep == {frozenset([("P", 0, (".noise",))])}, a.where(b), "the copy of the file is kept with the noise %s" % "/".join(pretty(k) for k in keep))
            cx.ob("clone", "copy-failure", a.search(a.fail(b), a.g.rets) is None if a.result_kind(b) else True, a.where(b), "a failed copy of the file goes unnoticed")
        for b, f in real:
            want = {frozenset(t for t in f if t[0] == "R")}
            cx.ob("clone", "re-masked", keep == want or keep == {f ^ frozenset([("F", "own"), ("P", 0, (".noise",))])}, a.where(b), "the copy's file holds %s but it keeps the noise %s" % (pretty(f), "/".join(pretty(k) for k in keep)))
        if cp:
            sz = a.ret_content((".size",))
            cx.ob("clone", "size", bool(sz) and all(x[0] == "init" and ".size" in x[2] for x in sz), a.where(0), "the copy has another size")
        named(cx, v, ())
    for n in ("zeroize", "drop"):
        v = views.get(n)
        if v is not None:
            clearing(cx, v)
    others(cx, total)


def clearing(cx, v):
    a = v.a
    FSR = re.compile(FS + r"|io::write::Write")

    def happy(blk):
        c = a.call(blk)
        if c is not None and (FSR.search(c.path) or FSR.search(c.tpath or "")):
            return {(): "VOk"}
        return None
    forms = written(cx, v)
    zeros = [b for b, f, z in forms if z]
    u = a.under(None, happy)
    rem = [b for b in a.calls(REMOVE) if v.file(b) == "own"]
    for what, blks in (("cleared", zeros), ("removed", rem)):
        w = u.search(u.entry(), u.g.rets, avoid=blks)
        cx.ob(what, v.name, bool(blks) and w is None, a.where(0), "the file can be left without being %s: %s" % (what, u.show(w) if w else "no such call"))
    must = [b for b in rem]
    for b in rem:
        w = u.search(u.entry(), [b], avoid=zeros)
        cx.ob("cleared", v.name + ":before", w is None, a.where(b), "the file can be removed without being overwritten: %s" % (u.show(w) if w else ""))
    for b in zeros:
        f = v.file(b)
        cx.ob("cleared", v.name + ":file", f == "own", a.where(b), "zeros are written to another file")
        d = a.arg_deps(b, 1)
        cx.ob("cleared", v.name + ":size", any(x[0] == "init" and ".size" in x[2] for x in d), a.where(b), "the number of zeros is not the memory's size")
        t = " ".join(show(a.arg_term(x, 1, 5)) for x in [y[1] for y in a.arg_content(b, 1) if y[0] == "call" and a.call(y[1]).path.endswith("from_elem")])
        cx.ob("cleared", v.name + ":size-exact", not re.search(r"\b(Sub|Div|Rem|Shr|min|BitAnd)\w*\(", t), a.where(b), "fewer zeros than the memory's size are written: %s" % t[:100])
    # the name and size are still there when the file is cleared
    own = set(zeros) | set(rem)
    for fld in ("fname", "size"):
        for b in stores_of(a, fld):
            w = a.search(a.after(b), list(own))
            cx.ob("forgotten-early", "%s:%s" % (v.name, fld), w is None, a.where(b), "the file's %s is forgotten before it is cleared: %s" % (fld, a.show(w) if w else ""))
            z = u.search(u.entry(), [b], avoid=rem)
            cx.ob("forgotten-early", "%s:%s:kept" % (v.name, fld), z is None, a.where(b), "the file's %s is forgotten without removing the file: %s" % (fld, a.show(z) if z else ""))


def stores_of(a, fld):
    out = set()
    for b in a.g.blocks:
        if b.id not in a.e.reached:
            continue
        for i, st in enumerate(b.stmts):
            if st[0] == "=" and st[1][1]:
                for r, p in a.f.resolve(b.id, i, st[1]):
                    if root(("ptr", r, p)) == ("arg", 0, ()) and p[:1] == ("." + fld,):
                        out.add(b.id)
        if b.kind == "call" and b.call is not None and b.call.args and re.search(r"::clear$|zeroize$|mem::(take|replace|swap)$|::truncate$|::pop$|::set_file_name$", b.call.path or ""):
            for x in a.arg_vals(b.id, 0):
                if x[0] == "ptr" and root(x) == ("arg", 0, ()) and x[2][:1] == ("." + fld,):
                    out.add(b.id)
    return out


def others(cx, total):
    """every file-system call site of the runtime crate belongs to one of the analysed operations"""
    prog = cx.prog
    seen = set()
    for n, p in OPS.items():
        a = cx.an(p, Files())
        if a is not None:
            seen |= set(c.body.uid for c in a.g.ctxs)
    n = 0
    for b in local_bodies(prog, ("runtime",)):
        fs = sorted(m for m in mentions(b) if re.search(FS, m) and not m.startswith("std::fs::FileType"))
        if fs:
            n += 1
            cx.ob("other-access", short(b.path), b.uid in seen, b.loc, "%s touches files outside the analysed operations (%s)" % (b.path, fs[0]))
        for x in b.blocks:
            for st in x["s"]:
                if st[0] == "=" and st[2][0] == "agg" and str(st[2][1].get("p", "")).endswith("file_memory::FileMemory"):
                    cx.ob("constructor", short(b.path), b.path in (OPS["alloc"], OPS["clone"]) or b.uid in seen, b.loc, "%s builds a file-backed memory outside the analysed operations" % b.path)
    cx.floor("functions with file-system calls", n, 1)
    cx.floor("calls that make a file accessible", total, 3)
    up = cx.an("<" + F + " as runtime::locked_memory::LockedMemory>::update", type("U", (Files,), {"opaque": lambda self, b: Files.opaque(self, b) or b.path == OPS["alloc"] or b.path.endswith("Drop>::drop")})())
    if up is not None:
        c = up.calls(r"FileMemory::alloc$")
        cx.ob("update", "through-alloc", bool(c) and all(x[0] == "call" and x[1] in c for x in up.ret_content()), up.where(0), "updating does not go through a fresh allocation")
        for b in c:
            cx.ob("update", "payload", "arg1" in show(up.arg_term(b, 0, 6)), up.where(b), "updating does not store the new payload")
