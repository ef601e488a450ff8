"""Provenance of values on a Graph: for any access path at any program point, the set of origins that
may reach it (reaching definitions through locals, references, smart pointers, locks and closures).

origins (vals):
  ('ptr', root, path)            the address of an access path
  ('arg', i, path)               (part of) argument i of the root, at entry
  ('k', key)                     a constant, key = hashable description
  ('call', blk, path)            result of the external call terminating blk (or part of it)
  ('op', blk, idx)               result of an arithmetic / comparison / cast rvalue
  ('agg', blk, idx)              an aggregate as a whole
  ('cb', callblk, argi, j, path) argument j of the closure passed as argument argi of an external call
  ('init', root, path)           content of an object the root did not create, at entry
  ('mut', blk, argi, path)       content written by an external call through its argument argi
  ('fn', path)  ('static', p, path)
roots: ('v', var) or ('o', val): the object a pointer value of unknown target points to
path steps: '.field'  ':Variant'  '[]'  '@' (content of lock/cell)
"""
import re

MAXPATH = 10


def step(e):
    if isinstance(e, tuple):
        if e[0] == "f":
            return "." + e[1]
        if e[0] == "d":
            return ":" + e[1]
        return "[]"
    return "[]" if e == "[]" else None   # 's' subslice: identity


def constkey(k):
    v = k.get("v")
    if v is None:
        return ("gen", k.get("cdef") or k.get("gen") or "?")
    if "int" in v:
        return ("int", v["int"])
    if "str" in v:
        return ("str", v["str"])
    if "bytes" in v:
        return ("bytes", v["bytes"])
    if "static" in v:
        return ("static", v["static"])
    if "zst" in v:
        return ("zst",)
    if "fnaddr" in v:
        return ("fnaddr", v["p"])
    if "mem" in v:
        return ("mem", tuple(v["mem"]))
    return ("other",)


def promoted_value(prog, path, n):
    """constant a promoted reference points to, when it is a plain constant"""
    for b in prog.by_path.get(path, ()):
        if n < len(b.promoted):
            pr = b.promoted[n]
            if len(pr["blocks"]) != 1:
                return None
            d = {}
            for st in pr["blocks"][0]["s"]:
                if st[0] == "=" and len(st[1]) == 1:
                    d[st[1][0]] = st[2]
            rv = d.get(0)
            for _ in range(6):
                if rv is None:
                    return None
                if rv[0] == "ref" and len(rv[1]) == 1:
                    rv = d.get(rv[1][0])
                elif rv[0] == "use" and "k" in rv[1]:
                    return constkey(rv[1]["k"])
                elif rv[0] == "use" and "c" in rv[1] and len(rv[1]["c"]) == 1:
                    rv = d.get(rv[1]["c"][0])
                elif rv[0] == "use" and "m" in rv[1] and len(rv[1]["m"]) == 1:
                    rv = d.get(rv[1]["m"][0])
                else:
                    return None
    return None


PTR_TYPES = re.compile(r"::(Box|Arc|Rc|MutexGuard|RwLockReadGuard|RwLockWriteGuard|Ref|RefMut|MappedMutexGuard)$")
LOCK_NEW = re.compile(r"::(RwLock|Mutex|Cell|RefCell|UnsafeCell|SyncUnsafeCell|ManuallyDrop|MaybeUninit)::new$")
ALLOC_NEW = re.compile(r"::(Arc|Box|Rc)::new$")
LOCK_ACQ = re.compile(r"::(RwLock::(read|write|try_read|try_write)|Mutex::(lock|try_lock))$")
INTO_INNER = re.compile(r"::(RwLock|Mutex|Cell|RefCell|UnsafeCell|ManuallyDrop)::into_inner$")

# result is a pointer to the same storage as argument 0 points to
SAMEPTR = re.compile(
    r"(::as_slice|::as_mut_slice|::as_ptr|::as_mut_ptr|::as_bytes|::as_str|::as_path|::as_mut|::as_ref|::borrow_mut|::borrow|"
    r"slice::raw::from_raw_parts|slice::raw::from_raw_parts_mut|::from_raw_parts|::from_raw_parts_mut|::from_raw_parts_mut|ptr::slice_from_raw_parts_mut|ptr::slice_from_raw_parts|"
    r"(\*(mut|const) T|NonNull)::(add|offset|sub|byte_add|wrapping_add|wrapping_sub)|::cast|::cast_mut|::cast_const|::new_unchecked|NonNull::new|NonNull::as_ptr|::leak|::into_raw|::by_ref|"
    r"::get_mut_unchecked|Path::new|::as_os_str|Pin::new|::deref|::deref_mut|::get_unchecked|::as_chunks|Unique::new_unchecked|"
    r"::as_byte_slice|::to_ptr|::get_ref|::as_mut_bytes|Arc::as_ptr|::as_non_null_ptr|as_ref_unchecked)$")
SAMEPTR_OK = re.compile(r"(NonNull::new|try_from_raw)$")
# result content equals content argument 0 points to (or is)
COPYOF = re.compile(
    r"(::to_vec|::to_owned|::into_boxed_slice|::into_vec|::into_bytes|::into_boxed_bytes|::into_owned|::to_path_buf|"
    r"PathBuf::from|String::from|Vec::from|::into_os_string|String::from_utf8|::to_string|hint::black_box|::from_raw|ptr::read|ptr::read_volatile|intrinsics::read_via_copy|intrinsics::volatile_load|"
    r"::assume_init|identity|::into_inner_unchecked|::must_use)$")
CLONE = re.compile(r"::clone::Clone::clone$|Clone>::clone$|::cloned$|::copied$|::clone_from$")
INTO = re.compile(r"(core::convert::Into::into|core::convert::From::from)$")
DEREF = re.compile(r"(core::ops::deref::Deref::deref|core::ops::deref::DerefMut::deref_mut|core::convert::AsRef::as_ref|core::convert::AsMut::as_mut|core::borrow::Borrow::borrow|core::borrow::BorrowMut::borrow_mut)$")
NONMUT = re.compile(
    r"(deref_mut|as_mut|as_mut_slice|as_mut_ptr|iter_mut|index_mut|get_mut|borrow_mut|by_ref|::next|last_mut|first_mut|"
    r"split_at_mut|chunks_mut|chunks_exact_mut|into_iter|entry|get_unchecked_mut|from_raw_parts_mut|as_mut_bytes|::leak|"
    r"ptr::drop_in_place|mem::forget|mem::drop|::into_raw|Box::from_raw|::cast|T::add|NonNull::add|slice_from_raw_parts_mut|NonNull::new|new_unchecked|"
    r"::size_hint|::len|mlock|munlock|mprotect|madvise)$")
FULLWRITE = re.compile(r"(copy_from_slice|clone_from_slice|::fill|ptr::write|ptr::write_volatile|ptr::write_bytes|write_via_move|volatile_store|"
                       r"HMAC_SHA\w+|PBKDF2_HMAC_SHA\w+|crypto::hashes::sha::\w+|mnemonic_to_seed|Zeroize::zeroize|Zeroize>::zeroize)$")
IT_ITER = re.compile(r"::(iter|iter_mut)$")
IT_INTO = re.compile(r"IntoIterator::into_iter$|IntoIterator>::into_iter$")
IT_SAME = re.compile(r"::(rev|skip|take|step_by|filter|inspect|by_ref|peekable|fuse|skip_while|take_while|cycle)$")
TRY_EACH = re.compile(r"Iterator::try_for_each$")
IT_NEXT = re.compile(r"Iterator::(next|next_back|last|nth)$|Iterator>::(next|next_back|last|nth)$")
MAP_TYPES = re.compile(r"(HashMap|BTreeMap)$")
MAP_INSERT = re.compile(r"(HashMap|BTreeMap)::insert$")
MAP_ENTRY = re.compile(r"(HashMap|BTreeMap)::entry$")
SEQ_TYPES = re.compile(r"(alloc::vec::Vec|collections::vec_deque::VecDeque|LinkedList)$")


class Flow:
    def __init__(self, g, models=None, feasible=None):
        self.g = g
        self.maps = getattr(g.policy, "maps", False)
        self.models = models or []      # list of (regex, fn(flow, call, path) -> (vals, queries) | None)
        self.feasible = feasible
        self._exp = {}
        self._sol = {}
        self._busy = set()
        self.vardefs = {}
        self.objdefs = {}
        self.objkeys = {}
        self._tm = {}
        self._index()

    # ------------------------------------------------------------------ indexing
    def _add(self, root, blk, idx, kind, path, data):
        if root[0] == "v":
            d = self.vardefs.setdefault(root[1], {})
        else:
            d = self.objdefs.setdefault(root, {})
        l = d.setdefault(blk, [])
        for e in l:
            if e[0] == idx and e[1] == kind and e[2] == path and e[3] == data:
                return False
        l.append((idx, kind, path, data))
        l.sort(key=lambda e: -e[0])
        return True

    def _index(self):
        g = self.g
        self.single = {}
        stores = []
        refmut = []
        for b in g.blocks:
            for i, st in enumerate(b.stmts):
                if st[0] == "=":
                    pl = st[1]
                    if "*" in pl[1]:
                        stores.append((b.id, i, pl, ("asg", st[2])))
                    else:
                        self._add(("v", pl[0]), b.id, i, "def", self.apath(pl[1]), ("asg", st[2]))
                elif st[0] == "cpy":
                    stores.append((b.id, i, None, ("cpy", st)))
                elif st[0] == "sd":
                    pass
            c = b.call
            if b.kind == "call" and c is not None and not c.ctxs:
                n = len(b.stmts)
                if c.dest is not None:
                    if "*" in c.dest[1]:
                        stores.append((b.id, n, c.dest, ("res",)))
                    else:
                        self._add(("v", c.dest[0]), b.id, n, "def", self.apath(c.dest[1]), ("res",))
                refmut.append(b)
        for v, d in self.vardefs.items():
            if len(d) == 1:
                (blk, l), = d.items()
                if len(l) == 1 and l[0][2] == ():
                    self.single[v] = (blk,) + l[0]
        self.addr_taken = set()
        # stores through pointers and external mutation: iterate to a fixpoint
        for rnd in range(4):
            changed = False
            self._exp.clear()
            self._sol.clear()
            for blk, i, pl, data in stores:
                if pl is None:
                    st = data[1]
                    aps = [(r, p) for r, p in self.pointees(blk, i, st[2])]
                else:
                    aps = self.resolve(blk, i, pl)
                for root, path in aps:
                    if self._add(root, blk, i, "def" if len(aps) == 1 else "may", path, data):
                        changed = True
            for b in refmut:
                for root, path, kind, data in self._call_effects(b):
                    if self._add(root, b.id, len(b.stmts), kind, path, data):
                        changed = True
            for v in list(self.single):
                d = self.vardefs[v]
                if len(d) != 1 or len(next(iter(d.values()))) != 1:
                    del self.single[v]
                    changed = True
            if not changed:
                break
        self._exp.clear()
        self._sol.clear()

    def _call_effects(self, b):
        """definitions an external call makes through its arguments"""
        c = b.call
        out = []
        n = len(b.stmts)
        p = c.path or ""
        last = p
        for m in self.models:
            if m[0] == "eff" and (m[1].search(p) or m[1].search(c.tpath or "")):
                r = m[2](self, b, c)
                if r is not None:
                    return r
        if ALLOC_NEW.search(p):
            return [(("o", ("call", b.id, ())), (), "def", ("arg", 0))]
        if re.search(r"mem::(replace|take|swap)$", p):
            if p.endswith("swap"):
                for i, j in ((0, 1), (1, 0)):
                    aps = self.pointees(b.id, n, c.args[i])
                    for r, q in aps:
                        out.append((r, q, "def" if len(aps) == 1 else "may", ("deref", j)))
                return out
            aps = self.pointees(b.id, n, c.args[0])
            for r, q in aps:
                out.append((r, q, "def" if len(aps) == 1 else "may", ("arg", 1) if p.endswith("replace") else ("val", ("k", ("default",)))))
            return out
        if re.search(r"::Cell::(set|replace)$", p):
            for r, q in self.pointees(b.id, n, c.args[0]):
                out.append((r, q + ("@",), "def", ("arg", 1)))
            return out
        if re.search(r"(ptr::write|ptr::write_volatile|intrinsics::write_via_move|intrinsics::volatile_store|mut_ptr::write)$", p) or re.search(r"\*mut T::write(_volatile)?$", p):
            aps = self.pointees(b.id, n, c.args[0])
            for r, q in aps:
                out.append((r, q, "def" if len(aps) == 1 else "may", ("arg", 1)))
            return out
        if re.search(r"(copy_from_slice|clone_from_slice)$", p):
            aps = self.pointees(b.id, n, c.args[0])
            for r, q in aps:
                out.append((r, q, "def" if len(aps) == 1 else "may", ("deref", 1)))
            return out
        if re.search(r"ptr::copy(_nonoverlapping)?$", p):
            aps = self.pointees(b.id, n, c.args[1])
            for r, q in aps:
                out.append((r, q, "def" if len(aps) == 1 else "may", ("deref", 0)))
            return out
        if re.search(r"(Vec::push|VecDeque::push_back)$", p):
            for r, q in self.pointees(b.id, n, c.args[0]):
                out.append((r, q + ("[]",), "may", ("arg", 1)))
            return out
        if re.search(r"(Vec::extend_from_slice|Vec::append|Extend>?::extend)$", p):
            for r, q in self.pointees(b.id, n, c.args[0]):
                out.append((r, q, "may", ("deref", 1)))
            return out
        if NONMUT.search(p) or NONMUT.search(c.tpath or ""):
            return out
        for i, a in enumerate(c.args):
            t = self.g.ty_of_op(a)
            if t[0] in ("ref", "ptr") and t[2]:
                aps = self.pointees(b.id, n, a)
                for r, q in aps:
                    out.append((r, q, "def" if len(aps) == 1 and FULLWRITE.search(p) else "may", ("mut", i)))
        return out

    # ------------------------------------------------------------------ places
    def apath(self, proj):
        out = []
        for e in proj:
            if e == "*":
                raise ValueError
            s = step(e)
            if s is not None:
                out.append(s)
        return tuple(out)

    def resolve(self, blk, idx, pl):
        """access paths a place denotes just before instruction idx of blk"""
        v, proj = pl
        aps = [(("v", v), ())]
        for e in proj:
            if e == "*":
                nxt = []
                for r, p in aps:
                    for val in self.trace(blk, idx, r, p):
                        x = self._target(val)
                        if x not in nxt:
                            nxt.append(x)
                aps = nxt
            else:
                s = step(e)
                if s is not None:
                    aps = [(r, p + (s,)) for r, p in aps]
        return aps

    def _target(self, val):
        if val[0] == "ptr":
            return (val[1], val[2])
        return (("o", val), ())

    def vals(self, blk, idx, op):
        """origins of an operand just before instruction idx of blk"""
        if op[0] == "k":
            k = constkey(op[1])
            if k[0] == "static":
                return frozenset([("ptr", ("o", ("static", k[1])), ())])
            if "prom" in op[1] and k[0] == "gen":
                return frozenset([("k", ("prom", op[2].body.path, op[1]["prom"]))])
            return frozenset([("k", k)])
        if op[0] == "fn":
            return frozenset([("fn", op[1][0])])
        out = set()
        for r, p in self.resolve(blk, idx, op[1]):
            out |= self.trace(blk, idx, r, p)
        return frozenset(out)

    def vals_path(self, blk, idx, op, path):
        if not path:
            return self.vals(blk, idx, op)
        if op[0] != "p":
            return frozenset(self._sub(v, path) for v in self.vals(blk, idx, op))
        out = set()
        for r, p in self.resolve(blk, idx, op[1]):
            out |= self.trace(blk, idx, r, p + tuple(path))
        return frozenset(out)

    def pointees(self, blk, idx, op):
        out = []
        for v in self.vals(blk, idx, op):
            t = self._target(v)
            if t not in out:
                out.append(t)
        return out

    def content(self, blk, idx, op, path=()):
        """origins of the memory the operand points to"""
        out = set()
        for r, p in self.pointees(blk, idx, op):
            out |= self.trace(blk, idx, r, p + tuple(path))
        return frozenset(out)

    # argument k of the call terminating blk
    def arg(self, blk, i, path=()):
        b = self.g.blocks[blk]
        return self.vals_path(blk, len(b.stmts), b.call.args[i], path)

    def argc(self, blk, i, path=()):
        b = self.g.blocks[blk]
        return self.content(blk, len(b.stmts), b.call.args[i], path)

    # ------------------------------------------------------------------ solver
    def trace(self, blk, idx, root, path):
        if root[0] == "v" and root[1] in self.single:
            q = ("s", root[1], path)
        else:
            q = ("t", blk, idx, root, path)
        r = self._sol.get(q)
        if r is not None:
            return r
        if q in self._busy:
            return frozenset()
        self._busy.add(q)
        leaves = set()
        seen = {q}
        st = [q]
        while st:
            x = st.pop()
            s = self._sol.get(x) if x is not q else None
            if s is not None:
                leaves |= s
                continue
            lv, subs = self._expand(x)
            leaves |= lv
            for y in subs:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        self._busy.discard(q)
        r = frozenset(leaves)
        self._sol[q] = r
        return r

    def q(self, blk, idx, root, path):
        if len(path) > MAXPATH:
            path = path[:MAXPATH]
        if root[0] == "v" and root[1] in self.single:
            return ("s", root[1], path)
        return ("t", blk, idx, root, path)

    def _expand(self, q):
        r = self._exp.get(q)
        if r is None:
            r = self._expand0(q)
            self._exp[q] = r
        return r

    def _expand0(self, q):
        lv, subs = set(), []
        if q[0] == "s":
            blk, idx, kind, dpath, data = self.single[q[1]]
            self._def(blk, idx, data, q[2], lv, subs)
            return lv, subs
        _, blk, idx, root, path = q
        defs = self.vardefs.get(root[1]) if root[0] == "v" else self.objdefs.get(root)
        if not defs:
            self._initial(root, path, lv)
            return lv, subs
        seen = set()
        st = [(blk, idx)]
        while st:
            b, i = st.pop()
            stop = False
            for e in defs.get(b, ()):
                if e[0] >= i:
                    continue
                _i, kind, dpath, data = e
                n = len(dpath)
                if path[:n] == dpath:
                    self._def(b, e[0], data, path[n:], lv, subs)
                    if kind == "def" and "[]" not in dpath:
                        stop = True
                        break
                elif dpath[:len(path)] == path:
                    # a part of what is asked for is overwritten here
                    self._def(b, e[0], data, (), lv, subs)
            if stop:
                continue
            if b == self.g.entry:
                self._initial(root, path, lv)
            for p in self.g.preds[b]:
                if p not in seen and (self.feasible is None or (p, b) in self.feasible):
                    seen.add(p)
                    st.append((p, 1 << 30))
        return lv, subs

    def _initial(self, root, path, lv):
        if root[0] == "v":
            v = root[1]
            if v in self.g.argvars:
                lv.add(("arg", self.g.argvars.index(v), path))
        else:
            if not path and root[0] == "o" and root[1][0] == "k" and root[1][1][0] == "prom":
                k = promoted_value(self.g.prog, root[1][1][1], root[1][1][2])
                if k is not None:
                    lv.add(("k", k))
                    return
            lv.add(("init", root, path))

    def _sub(self, val, path):
        if not path:
            return val
        k = val[0]
        if k == "ptr":
            if path[0] == ":Some" or path[0] == ":Ok":
                return val
            return val     # fields of a pointer wrapper (Box/NonNull internals)
        if k in ("arg", "call", "init", "mut"):
            return val[:-1] + (val[-1] + tuple(path),)
        if k == "cb":
            return val[:-1] + (val[-1] + tuple(path),)
        if k == "static":
            return val
        return val

    def _opq(self, blk, idx, op, path, lv, subs):
        """value of operand with further path"""
        if op[0] == "p":
            for r, p in self.resolve(blk, idx, op[1]):
                subs.append(self.q(blk, idx, r, p + tuple(path)))
        else:
            for v in self.vals(blk, idx, op):
                lv.add(self._sub(v, path))

    def _derefq(self, blk, idx, op, path, lv, subs):
        for r, p in self.pointees(blk, idx, op):
            subs.append(self.q(blk, idx, r, p + tuple(path)))

    def _def(self, blk, idx, data, path, lv, subs):
        """contribution of one definition for the remaining path"""
        k = data[0]
        if k == "asg":
            self._rv(blk, idx, data[1], path, lv, subs)
        elif k == "res":
            self._res(blk, path, lv, subs)
        elif k == "arg":
            b = self.g.blocks[blk]
            self._opq(blk, idx, b.call.args[data[1]], path, lv, subs)
        elif k == "deref":
            b = self.g.blocks[blk]
            self._derefq(blk, idx, b.call.args[data[1]], path, lv, subs)
        elif k == "mut":
            lv.add(("mut", blk, data[1], path))
        elif k == "val":
            lv.add(data[1])
        elif k == "cpy":
            self._derefq(blk, idx, data[1][1], path, lv, subs)

    def _rv(self, blk, idx, rv, path, lv, subs):
        k = rv[0]
        if k == "use":
            self._opq(blk, idx, rv[1], path, lv, subs)
        elif k in ("ref", "addr"):
            for r, p in self.resolve(blk, idx, rv[1]):
                lv.add(("ptr", r, p))
        elif k == "cast":
            kind = rv[1]
            if kind.startswith(("IntToInt", "FloatTo", "IntToFloat")):
                if path:
                    return
                lv.add(("op", blk, idx))
            else:
                self._opq(blk, idx, rv[2], path, lv, subs)
        elif k in ("bin", "un", "discr"):
            if k == "bin" and path == (".1",):
                lv.add(("op", blk, idx))
            else:
                lv.add(("op", blk, idx))
        elif k == "agg":
            kd, names, ops = rv[1], rv[2], rv[3]
            if not path:
                lv.add(("agg", blk, idx))
                return
            p0 = path[0]
            rest = path[1:]
            if kd[0] == "adt" and kd[2] is not None:
                if p0 == ":" + kd[2]:
                    if not rest:
                        lv.add(("agg", blk, idx))
                        return
                    for n, o in zip(names, ops):
                        if rest[0] == "." + n:
                            self._opq(blk, idx, o, rest[1:], lv, subs)
                return
            if kd[0] == "array":
                if p0 == "[]":
                    for o in ops:
                        self._opq(blk, idx, o, rest, lv, subs)
                elif p0[:2] == ".#" and int(p0[2:]) < len(ops):
                    self._opq(blk, idx, ops[int(p0[2:])], rest, lv, subs)
                return
            if kd[0] == "rawptr":
                if ops:
                    self._opq(blk, idx, ops[0], path, lv, subs)
                return
            for n, o in zip(names, ops):
                if p0 == "." + n:
                    self._opq(blk, idx, o, rest, lv, subs)
                    return
            # content access path on a struct used as a container: give the aggregate
            if p0 in ("[]", "@"):
                lv.add(("agg", blk, idx))
        elif k == "rep":
            if path and path[0] == "[]":
                self._opq(blk, idx, rv[1], path[1:], lv, subs)
            else:
                lv.add(("op", blk, idx))
        elif k == "tls":
            lv.add(("static", rv[1], path))
        elif k == "cbarg":
            self._cbarg(rv[1], rv[2], rv[3], path, lv, subs)
        else:
            lv.add(("op", blk, idx))

    # ------------------------------------------------------------------ external calls
    def _res(self, blk, path, lv, subs):
        b = self.g.blocks[blk]
        c = b.call
        n = len(b.stmts)
        p = c.path or ""
        tp = c.tpath or ""
        for m in self.models:
            if m[0] == "res" and (m[1].search(p) or m[1].search(tp)):
                if m[2](self, b, c, path, lv, subs):
                    return
        if c.rec:
            lv.add(("call", blk, path))
            return
        if re.search(r"::(Arc|Rc)::from$", p) or ALLOC_NEW.search(p):
            if c.args:
                lv.add(("ptr", ("o", ("call", blk, ())), ()))
                return
        if p.endswith("box_assume_init_into_vec_unsafe"):
            # vec![..]: the array written into the fresh box
            for v in self.vals(blk, n, c.args[0]):
                if v[0] == "call" and v[2] == ():
                    subs.append(self.q(blk, n, ("o", ("call", v[1], (".0",))), (".value", ".value") + tuple(path)))
                else:
                    lv.add(("call", blk, path))
            return
        if LOCK_NEW.search(p):
            if path and path[0] == "@":
                self._opq(blk, n, c.args[0], path[1:], lv, subs)
            else:
                lv.add(("call", blk, path))
            return
        if LOCK_ACQ.search(p):
            if len(path) >= 2 and path[0] == ":Ok":
                for r, q in self.pointees(blk, n, c.args[0]):
                    lv.add(("ptr", r, q + ("@",)))
            else:
                lv.add(("call", blk, path))
            return
        if INTO_INNER.search(p):
            rest = path
            if p.split("::")[-2] in ("RwLock", "Mutex"):
                if path[:2] == (":Ok", ".0"):
                    rest = path[2:]
                else:
                    lv.add(("call", blk, path))
                    return
            self._opq(blk, n, c.args[0], ("@",) + tuple(rest), lv, subs)
            return
        if re.search(r"::Cell::(get|take)$", p):
            self._derefq(blk, n, c.args[0], ("@",) + tuple(path), lv, subs)
            return
        if re.search(r"::Cell::replace$", p):
            self._derefq(blk, n, c.args[0], ("@",) + tuple(path), lv, subs)
            return
        if re.search(r"RefCell::(borrow|borrow_mut)$|(UnsafeCell|Cell|MaybeUninit)::(get|get_mut|as_ptr|as_mut_ptr)$|(Mutex|RwLock)::get_mut$", p):
            for r, q in self.pointees(blk, n, c.args[0]):
                lv.add(("ptr", r, q + ("@",)))
            return
        if re.search(r"mem::(replace|take)$", p):
            self._derefq(blk, n, c.args[0], path, lv, subs)
            return
        if CLONE.search(tp) or CLONE.search(p):
            if re.search(r"::cloned$|::copied$", p) and "iter" in p:
                lv.add(("call", blk, path))
                return
            self._derefq(blk, n, c.args[0], path, lv, subs)
            return
        if DEREF.search(tp) or DEREF.search(p):
            t = self.g.ty_of_op(c.args[0])
            t = t[1] if t[0] in ("ref", "ptr") else t
            if t[0] == "adt" and PTR_TYPES.search(t[1]):
                self._derefq(blk, n, c.args[0], (), lv, subs)
            else:
                for r, q in self.pointees(blk, n, c.args[0]):
                    lv.add(("ptr", r, q))
            return
        if re.search(r"ops::index::(Index::index|IndexMut::index_mut)$", tp) or re.search(r"ops::index::Index(Mut)?>::index(_mut)?$", p):
            t = self.g.ty_of_op(c.args[0])
            t = t[1] if t[0] in ("ref", "ptr") else t
            it = self.g.ty_of_op(c.args[1])
            if t[0] == "adt" and ("Map" in t[1] or "Set" in t[1]):
                lv.add(("call", blk, path))
                return
            rng = it[0] == "adt" and "range" in it[1].lower()
            for r, q in self.pointees(blk, n, c.args[0]):
                lv.add(("ptr", r, q if rng else q + ("[]",)))
            return
        if re.search(r"\[T\]::(get|get_mut|first|last|first_mut|last_mut|get_unchecked|get_unchecked_mut)$", p):
            if path[:2] == (":Some", ".0") or "unchecked" in p:
                it = self.g.ty_of_op(c.args[1]) if len(c.args) > 1 else ("prim", "usize")
                rng = it[0] == "adt" and "range" in it[1].lower()
                for r, q in self.pointees(blk, n, c.args[0]):
                    lv.add(("ptr", r, q if rng else q + ("[]",)))
            else:
                lv.add(("call", blk, path))
            return
        if re.search(r"TryInto(>)?::try_into$|TryFrom(>)?::try_from$", tp) and c.args and path[:2] == (":Ok", ".0"):
            t, d = self.g.ty_of_op(c.args[0]), self.g.ty_of_place(c.dest)
            if t[0] == "ref" and t[1][0] == "slice" and d[0] == "adt" and len(d[2]) == 2 and d[2][0][0] == "ref" and d[2][0][1][0] == "array":
                # a slice seen as an array: the same memory
                for r, q in self.pointees(blk, n, c.args[0]):
                    lv.add(("ptr", r, q))
                return
        if re.search(r"\[T\]::(split_at|split_at_mut)$", p):
            if path:
                for r, q in self.pointees(blk, n, c.args[0]):
                    lv.add(("ptr", r, q))
            else:
                lv.add(("call", blk, path))
            return
        if SAMEPTR.search(p) or SAMEPTR.search(tp):
            t = self.g.ty_of_op(c.args[0]) if c.args else None
            if t is not None:
                inner = t[1] if t[0] in ("ref", "ptr") else None
                if inner is not None and inner[0] == "adt" and PTR_TYPES.search(inner[1]):
                    self._derefq(blk, n, c.args[0], (), lv, subs)
                else:
                    self._opq(blk, n, c.args[0], (), lv, subs)
                return
        if INTO.search(tp) and len(c.args) == 1:
            t = self.g.ty_of_op(c.args[0])
            if t[0] == "ref":
                # conversion from a reference to something owned: content copy
                self._derefq(blk, n, c.args[0], path, lv, subs)
            else:
                self._opq(blk, n, c.args[0], path, lv, subs)
            return
        if COPYOF.search(p) or COPYOF.search(tp):
            t = self.g.ty_of_op(c.args[0]) if c.args else ("other", "")
            rest = path
            if p.endswith("from_utf8"):
                if path[:2] != (":Ok", ".0"):
                    lv.add(("call", blk, path))
                    return
                rest = path[2:]
            if p.endswith("Box::from_raw"):
                self._opq(blk, n, c.args[0], path, lv, subs)
            elif t[0] in ("ref", "ptr"):
                self._derefq(blk, n, c.args[0], rest, lv, subs)
            else:
                self._opq(blk, n, c.args[0], rest, lv, subs)
            return
        if path and path[0] == ":Err" and TRY_EACH.search(tp) and len(c.cbs) == 1:
            # a failing short-circuiting iteration returns the failure of its closure
            subs.append(self.q(blk, n, ("v", c.cbs[0][1]), tuple(path)))
            return
        if IT_NEXT.search(tp) or IT_NEXT.search(p):
            if path[:2] == (":Some", ".0"):
                its = set()
                for r, q in self.pointees(blk, n, c.args[0]):
                    its |= self.trace(blk, n, r, q)
                done = False
                for v in its:
                    if self._elem(v, path[2:], lv, subs, 0):
                        done = True
                    elif v[0] in ("mut",):
                        pass
                    else:
                        lv.add(("call", blk, path))
                        done = True
                if not done:
                    lv.add(("call", blk, path))
            else:
                lv.add(("call", blk, path))
            return
        lv.add(("call", blk, path))

    def _iscontainer(self, t):
        t = t[1] if t[0] in ("ref", "ptr") else t
        if t[0] in ("slice", "array"):
            return True
        return t[0] == "adt" and bool(SEQ_TYPES.search(t[1]))

    def _elem(self, v, rest, lv, subs, depth):
        """element of the iterator value v; False if unknown"""
        if depth > 8 or v[0] != "call" or v[2] != ():
            return False
        blk = v[1]
        b = self.g.blocks[blk]
        c = b.call
        n = len(b.stmts)
        p, tp = c.path or "", c.tpath or ""
        if IT_ITER.search(p) and c.args:
            t = self.g.ty_of_op(c.args[0])
            if self._iscontainer(t):
                for r, q in self.pointees(blk, n, c.args[0]):
                    lv.add(("ptr", r, q + ("[]",)))
                return True
            return False
        if IT_INTO.search(tp) or IT_INTO.search(p):
            t = self.g.ty_of_op(c.args[0])
            if t[0] == "ref" and self._iscontainer(t):
                for r, q in self.pointees(blk, n, c.args[0]):
                    lv.add(("ptr", r, q + ("[]",)))
                return True
            if self._iscontainer(t):
                self._opq(blk, n, c.args[0], ("[]",) + tuple(rest), lv, subs)
                return True
            if self.maps and t[0] == "adt" and MAP_TYPES.search(t[1]) and rest and rest[0] in (".0", ".1"):
                return self._mapelem(self.vals(blk, n, c.args[0]), rest, lv, subs, depth)
            ok = False
            for x in self.vals(blk, n, c.args[0]):
                ok |= self._elem(x, rest, lv, subs, depth + 1)
            return ok
        if IT_SAME.search(p) or IT_SAME.search(tp):
            ok = False
            for x in self.vals(blk, n, c.args[0]):
                ok |= self._elem(x, rest, lv, subs, depth + 1)
            return ok
        if re.search(r"::enumerate$", tp) or re.search(r"::enumerate$", p):
            if rest and rest[0] == ".1":
                ok = False
                for x in self.vals(blk, n, c.args[0]):
                    ok |= self._elem(x, rest[1:], lv, subs, depth + 1)
                return ok
            return False
        if re.search(r"::zip$", tp) or re.search(r"::zip$", p):
            if rest and rest[0] in (".0", ".1"):
                ok = False
                i = int(rest[0][1])
                for x in self.vals(blk, n, c.args[i]):
                    if self._elem(x, rest[1:], lv, subs, depth + 1):
                        ok = True
                if not ok:
                    t = self.g.ty_of_op(c.args[i])
                    if t[0] == "ref" and self._iscontainer(t):
                        for r, q in self.pointees(blk, n, c.args[i]):
                            lv.add(("ptr", r, q + ("[]",)))
                        return True
                    if self._iscontainer(t):
                        self._opq(blk, n, c.args[i], ("[]",) + tuple(rest[1:]), lv, subs)
                        return True
                return ok
            return False
        if re.search(r"::(cloned|copied)$", tp) or re.search(r"::(cloned|copied)$", p):
            sub = set()
            s2 = []
            ok = False
            for x in self.vals(blk, n, c.args[0]):
                ok |= self._elem(x, (), sub, s2, depth + 1)
            for y in s2:
                sub |= self.trace(*y[1:]) if y[0] == "t" else self.trace(0, 0, ("v", y[1]), y[2])
            for x in sub:
                r, q = self._target(x)
                subs.append(self.q(blk, n, r, q + tuple(rest)))
            return ok
        if re.search(r"Iterator::map$", tp) and c.cbs:
            for i, rt in c.cbs:
                subs.append(self.q(blk, n, ("v", rt), tuple(rest)))
            return True
        return False

    def _entries(self):
        """HashMap::entry calls -> what is done with the entry (the or_insert calls; None: something else)"""
        if getattr(self, "_ent", None) is None:
            self._ent = {}
            for b in self.g.blocks:
                if b.kind == "call" and b.call is not None and b.call.args and re.search(r"(entry::|map::)?(Entry|OccupiedEntry|VacantEntry)::\w+$", b.call.path or ""):
                    for x in self.vals(b.id, len(b.stmts), b.call.args[0]):
                        if x[0] == "call":
                            ok = re.search(r"Entry::(or_insert|insert_entry)$", b.call.path)
                            self._ent.setdefault(x[1], []).append(b.id if ok else None)
        return self._ent

    def _mapelem(self, vals, rest, lv, subs, depth):
        """key (.0) / value (.1) of an element of a local map, from what was inserted into it"""
        seen, st, ok = set(), list(vals), False
        while st:
            v = st.pop()
            if v in seen:
                continue
            seen.add(v)
            if v[0] in ("mut", "call"):
                b = self.g.blocks[v[1]]
                c = b.call
                n = len(b.stmts)
                p = c.path or ""
                if v[0] == "mut" and MAP_INSERT.search(p) and v[2] == 0:
                    self._opq(v[1], n, c.args[1 + int(rest[0][1])], tuple(rest[1:]), lv, subs)
                    ok = True
                    continue
                if v[0] == "call" and v[2] == () and re.search(r"(HashMap|BTreeMap)::(new|with_capacity)$|Default(>)?::default$", p):
                    for e, us in self._entries().items():
                        if us and all(u is not None for u in us) and re.search(MAP_ENTRY, self.g.blocks[e].call.path or "") and v in self.argc(e, 0):
                            eb = self.g.blocks[e]
                            for ub, o in [(eb, eb.call.args[1])] if rest[0] == ".0" else [(self.g.blocks[u], self.g.blocks[u].call.args[1]) for u in us]:
                                self._opq(ub.id, len(ub.stmts), o, tuple(rest[1:]), lv, subs)
                            ok = True
                    continue
            if v[0] in ("call", "arg", "init"):
                lv.add((v[0], v[1], v[2] + ("[]",) + tuple(rest)))
            elif v[0] == "agg":
                b = self.g.blocks[v[1]]
                for o in b.stmts[v[2]][2][3]:
                    self._opq(v[1], v[2], o, tuple(rest), lv, subs)
            else:
                lv.add(v)
            ok = True
        return ok

    def _cbarg(self, cblk, ai, j, path, lv, subs):
        b = self.g.blocks[cblk]
        c = b.call
        n = len(b.stmts)
        tp = c.tpath or ""
        m = re.search(r"Iterator::(\w+)$", tp)
        if m and c.args:
            nm = m.group(1)
            if nm in ("map", "for_each", "all", "any", "flat_map", "filter_map", "try_for_each", "find_map", "position", "map_while") and j == 0 or (
                    nm in ("fold", "try_fold") and j == 1):
                ok = False
                for v in self.vals(cblk, n, c.args[0]):
                    if self._elem(v, path, lv, subs, 0):
                        ok = True
                    elif v[0] == "ptr":
                        for w in self.trace(cblk, n, v[1], v[2]):
                            if self._elem(w, path, lv, subs, 0):
                                ok = True
                if ok:
                    return
            if nm in ("filter", "find", "inspect", "skip_while", "take_while") and j == 0:
                lv.add(("cb", cblk, ai, j, path))
                return
        lv.add(("cb", cblk, ai, j, path))

    # ------------------------------------------------------------------ terms
    def term(self, vals, depth=12, seen=()):
        """normal form of a set of origins (hash-consed nested tuples); equal terms denote equal values when all
        calls involved are pure"""
        ts = set()
        for v in vals:
            ts.add(self.vterm(v, depth, seen))
        if len(ts) == 1:
            return next(iter(ts))
        return ("phi", frozenset(ts))

    def vterm(self, v, depth=12, seen=()):
        key = (v, depth)
        r = self._tm.get(key)
        if r is not None:
            return r
        if v in seen or depth <= 0:
            return ("...",)
        s2 = seen + (v,)
        k = v[0]
        if k == "call":
            b = self.g.blocks[v[1]]
            c = b.call
            n = len(b.stmts)
            args = tuple(self.dterm(v[1], n, a, depth - 1, s2) for a in c.args)
            r = ("call", c.tpath or c.path, args, v[2])
        elif k == "mut":
            b = self.g.blocks[v[1]]
            c = b.call
            n = len(b.stmts)
            args = tuple(self.dterm(v[1], n, a, depth - 1, s2) for j, a in enumerate(c.args) if j != v[2])
            r = ("out", c.tpath or c.path, v[2], args, v[3])
        elif k == "op":
            b = self.g.blocks[v[1]]
            rv = b.stmts[v[2]][2]
            if rv[0] == "bin":
                r = ("op", rv[1].replace("WithOverflow", ""), self.dterm(v[1], v[2], rv[2], depth - 1, s2), self.dterm(v[1], v[2], rv[3], depth - 1, s2))
            elif rv[0] == "un":
                r = ("op", rv[1], self.dterm(v[1], v[2], rv[2], depth - 1, s2))
            elif rv[0] == "cast":
                r = ("cast", self.dterm(v[1], v[2], rv[2], depth - 1, s2))
            elif rv[0] == "rep":
                r = ("rep", self.dterm(v[1], v[2], rv[1], depth - 1, s2))
            else:
                r = (rv[0],)
        elif k == "agg":
            b = self.g.blocks[v[1]]
            rv = b.stmts[v[2]][2]
            r = ("agg", rv[1][1:] if rv[1][0] != "closure" else rv[1], tuple(self.dterm(v[1], v[2], o, depth - 1, s2) for o in rv[3]))
        elif k == "ptr":
            r = ("ptr", self.rterm(v[1], depth - 1, s2), v[2])
        elif k == "cb":
            b = self.g.blocks[v[1]]
            r = ("cb", b.call.tpath, v[2], v[3], self.dterm(v[1], len(b.stmts), b.call.args[0], depth - 1, s2), v[4])
        elif k == "init":
            r = ("init", self.rterm(v[1], depth - 1, s2), v[2])
        else:
            r = v
        if not seen:
            self._tm[key] = r
        return r

    def rterm(self, root, depth, seen):
        if root[0] == "v":
            c, l, t = self.g.vars[root[1]]
            return ("local", c.body.names.get(l, "_"), c.id if root[1] not in self.g.argvars else "arg")
        return ("obj", self.vterm(root[1], depth, seen))

    def dterm(self, blk, idx, op, depth, seen):
        """term of an argument: pointers are replaced by the content they point to"""
        vals = self.vals(blk, idx, op)
        out = set()
        for v in vals:
            if v[0] == "ptr":
                cs = self.trace(blk, idx, v[1], v[2])
                if cs:
                    for x in cs:
                        if x[0] == "ptr":
                            cs2 = self.trace(blk, idx, x[1], x[2])
                            for y in (cs2 or [x]):
                                out.add(self.vterm(y, depth, seen))
                        else:
                            out.add(self.vterm(x, depth, seen))
                    continue
            out.add(self.vterm(v, depth, seen))
        if len(out) == 1:
            return next(iter(out))
        return ("phi", frozenset(out))

    # ------------------------------------------------------------------ dependencies
    def deps(self, vals, through=None, at=None):
        """transitive closure of everything the origins may depend on: set of vals, following call
        arguments, operands and pointed-to content.  through(call, val) -> list of argument indices to
        follow (None: all)."""
        out = set()
        st = list(vals)
        while st:
            v = st.pop()
            if v in out:
                continue
            out.add(v)
            k = v[0]
            if k in ("call", "mut"):
                b = self.g.blocks[v[1]]
                c = b.call
                n = len(b.stmts)
                idxs = through(c, v) if through else None
                for i, a in enumerate(c.args):
                    if idxs is not None and i not in idxs:
                        continue
                    st.extend(self._deep(v[1], n, a))
                if k == "call" or True:
                    for i, rt in c.cbs:
                        if idxs is None or i in idxs:
                            st.extend(self.trace(v[1], n, ("v", rt), ()))
            elif k == "op":
                b = self.g.blocks[v[1]]
                rv = b.stmts[v[2]][2]
                for o in rv[1:]:
                    if isinstance(o, tuple) and o and o[0] in ("p", "k", "fn"):
                        st.extend(self._deep(v[1], v[2], o))
                if rv[0] == "discr":
                    for r, p in self.resolve(v[1], v[2], rv[1]):
                        st.extend(self.trace(v[1], v[2], r, p))
            elif k == "agg":
                b = self.g.blocks[v[1]]
                rv = b.stmts[v[2]][2]
                for o in rv[3]:
                    st.extend(self._deep(v[1], v[2], o))
            elif k == "cb":
                b = self.g.blocks[v[1]]
                st.extend(self._deep(v[1], len(b.stmts), b.call.args[0]))
            elif k == "ptr":
                pass
            elif k == "init":
                if v[1][0] == "o":
                    st.append(v[1][1])
        return out

    def _deep(self, blk, idx, op):
        out = set()
        for v in self.vals(blk, idx, op):
            out.add(v)
            if v[0] == "ptr":
                seen = set()
                st = [(v, 0)]
                while st:
                    w, d = st.pop()
                    if w in seen or d > 3:
                        continue
                    seen.add(w)
                    for x in self.trace(blk, idx, w[1], w[2]):
                        out.add(x)
                        if x[0] == "ptr":
                            st.append((x, d + 1))
        return out
