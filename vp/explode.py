"""Path-correlation: the graph split by what is known about enum variants, booleans and drop flags held in
live locals (finite partitions per block, joined when there are too many).  Nodes: (block, env)."""
from .flow import step
import sys

CAP = 40


class Exploded:
    def __init__(self, g, flow, cap=CAP, start_env=None, max_nodes=1600000, assume=None, assume_call=None):
        # hypotheses: assume(access paths, type) -> variant / boolean tag of a place read without known content;
        # assume_call(block) -> {path suffix: tag} of the result of an external call
        self.assume = assume
        self.assume_call = assume_call
        self.g = g
        self.flow = flow
        self.cap = cap
        self.max_nodes = max_nodes
        self._live()
        self._kills()
        self.nodes = []          # (blk, env)
        self.index = {}
        self.succ = []
        self.capped = 0
        self._dest = {}
        self._run(start_env or ())
        self._finish()

    # ---------------------------------------------------------------- liveness
    def _uses(self, b):
        """(use-before-def set, def set) of whole locals in a block; plus address-taken"""
        ue, df = set(), set()

        def useplace(pl, write=False):
            v, proj = pl
            for e in proj:
                if isinstance(e, tuple) and e[0] == "i":
                    if e[1] not in df:
                        ue.add(e[1])
            if write and not proj:
                df.add(v)
                return
            if v not in df:
                ue.add(v)

        def useop(o):
            if o[0] == "p":
                useplace(o[1])

        for st in b.stmts:
            if st[0] == "=":
                rv = st[2]
                k = rv[0]
                if k in ("ref", "addr"):
                    if "*" not in rv[1][1]:
                        self.addr.add(rv[1][0])
                    useplace(rv[1])
                elif k == "discr":
                    useplace(rv[1])
                elif k == "agg":
                    for o in rv[3]:
                        useop(o)
                else:
                    for o in rv[1:]:
                        if isinstance(o, tuple) and o and o[0] in ("p", "k", "fn"):
                            useop(o)
                useplace(st[1], True)
            elif st[0] == "cpy":
                for o in st[1:]:
                    useop(o)
            elif st[0] == "dead":
                df.add(st[1])
        if b.kind == "switch" or b.kind == "assert":
            useop(b.op)
        elif b.kind == "call" and b.call is not None:
            if b.call.ext or b.call.ctxs:
                for a in b.call.args:
                    useop(a)
            if b.call.ext and b.call.dest is not None:
                useplace(b.call.dest, True)
        elif b.kind == "drop" and b.drop:
            useplace(b.drop[0])
        elif b.kind == "ret":
            if self.g.retvar not in df:
                ue.add(self.g.retvar)
        return ue, df

    def _live(self):
        g = self.g
        self.tryeach, self.trypre = set(), {}
        for b in g.blocks:
            if b.loop_of is not None and b.loop_pre is not None:
                c = g.blocks[b.loop_of].call
                if c.tpath and c.tpath.endswith("Iterator::try_for_each") and len(c.cbs) == 1 and c.dest is not None \
                        and not c.dest[1] and g.vars[c.dest[0]][2][:2] == ("adt", "core::result::Result"):
                    self.tryeach.add(b.loop_of)
                    self.trypre[b.loop_pre] = b.loop_of
        self.addr = set()
        self.cbret = {}
        for b in g.blocks:
            if b.call is not None and b.call.cbs:
                for i, rt in b.call.cbs:
                    self.addr.add(rt)
                    self.cbret.setdefault(b.id, []).append(rt)
        ud = [self._uses(b) for b in g.blocks]
        live = [set(u) for u, d in ud]
        work = list(range(len(g.blocks)))[::-1]
        inq = set(work)
        work = list(range(len(g.blocks)))
        inq = set(work)
        while work:
            x = work.pop()
            inq.discard(x)
            out = set()
            for s in g.blocks[x].succ:
                out |= live[s]
            u, d = ud[x]
            n = u | (out - d)
            if len(n) != len(live[x]):
                live[x] = n
                for p in g.preds[x]:
                    if p not in inq:
                        inq.add(p)
                        work.append(p)
        self.live = live

    def _kills(self):
        """per (block, idx): access paths possibly written through pointers / by external calls"""
        k = {}
        f = self.flow
        for v, d in f.vardefs.items():
            for blk, l in d.items():
                b = self.g.blocks[blk]
                for idx, kind, path, data in l:
                    if idx < len(b.stmts):
                        st = b.stmts[idx]
                        if st[0] == "=" and st[1][0] == v and "*" not in st[1][1]:
                            continue
                    elif data == ("res",):
                        continue
                    k.setdefault((blk, idx), []).append((("v", v), path))
        for r, d in f.objdefs.items():
            for blk, l in d.items():
                for idx, kind, path, data in l:
                    k.setdefault((blk, idx), []).append((r, path))
        self.kills = k
        self.ctxvars = {}
        for i, (c, l, t) in enumerate(self.g.vars):
            self.ctxvars.setdefault(c.id, set()).add(i)

    # ---------------------------------------------------------------- environments
    def ap(self, blk, idx, pl):
        if "*" not in pl[1]:
            return (("v", pl[0]), self.flow.apath(pl[1]))
        key = (blk, idx, pl)
        r = self._dest.get(key, 0)
        if r == 0:
            aps = self.flow.resolve(blk, idx, pl)
            r = aps[0] if len(aps) == 1 else None
            self._dest[key] = r
        return r

    @staticmethod
    def _kill(env, root, path):
        n = len(path)
        for k in [k for k in env if k[0] == root and k[1][:n] == path]:
            del env[k]
        # symbolic tags that refer to the overwritten place
        for k in [k for k, v in env.items() if isinstance(v, tuple) and v[1][0] == root and v[1][1][:n] == path]:
            del env[k]

    @staticmethod
    def _killvar(env, v):
        r = ("v", v)
        for k in [k for k, t in env.items() if k[0] == r or (isinstance(t, tuple) and t[1][0] == r)]:
            del env[k]

    def _copy(self, env, src, dst):
        if src is None or src == dst:
            return
        n = len(src[1])
        for k, v in list(env.items()):
            if k[0] == src[0] and k[1][:n] == src[1]:
                env[(dst[0], dst[1] + k[1][n:])] = v

    def _block(self, blk, env0):
        """yield (succ, env) pairs"""
        g = self.g
        b = g.blocks[blk]
        env = dict(env0)
        for i, st in enumerate(b.stmts):
            if st[0] == "=":
                self._assign(env, blk, i, st[1], st[2])
                for r, p in self.kills.get((blk, i), ()):
                    self._kill(env, r, p)
            elif st[0] == "dead":
                self._killvar(env, st[1])
        n = len(b.stmts)
        if b.exit_of is not None:
            for c in g.blocks[b.exit_of].call.ctxs:
                vs = self.ctxvars[c.id]
                for k in [k for k, t in env.items() if (k[0][0] == "v" and k[0][1] in vs) or (isinstance(t, tuple) and t[1][0][0] == "v" and t[1][0][1] in vs)]:
                    del env[k]
        kd = b.kind
        if kd == "switch":
            yield from self._switch(b, env)
            return
        if kd == "assert":
            o = b.op
            if o[0] == "p":
                a = self.ap(blk, n, o[1])
                t = env.get(a)
                want = "1" if b.assertion["x"] else "0"
                if isinstance(t, str) and t in ("0", "1") and t != want:
                    return
            for s in b.succ:
                yield s, env
            return
        ck = (("cbok", b.loop_of), ()) if b.loop_of in self.tryeach else None
        if blk in self.trypre:
            env[(("cbok", self.trypre[blk]), ())] = "fresh"
        if ck is not None and ck in env and env[ck] != "fresh":
            rt = self.cbret[b.loop_of][0]
            if env.get((("v", rt), ())) != "VOk":
                del env[ck]
        if b.loop_of is not None and self._cbfail(env, b.loop_of):
            # short-circuiting adaptors stop at the first failing closure call
            yield b.succ[-1], env
            return
        if kd == "call" and b.call is not None and b.call.ext:
            fail = self._cbfail(env, b.id) or self._argfail(env, b)
            good = env.pop((("cbok", blk), ()), None) is not None and not fail
            for r, p in self.kills.get((blk, n), ()):
                self._kill(env, r, p)
            if b.call.dest is not None:
                a = self.ap(blk, n, b.call.dest)
                if a is not None:
                    self._kill(env, a[0], a[1])
            for rt in self.cbret.get(b.id, ()):
                self._killvar(env, rt)
            if self.assume_call is not None and b.call.dest is not None:
                a = self.ap(blk, n, b.call.dest)
                for suf, t in (self.assume_call(blk) or {}).items() if a is not None else ():
                    env[(a[0], a[1] + suf)] = t
            if fail and b.call.dest is not None and not b.call.dest[1]:
                t = g.vars[b.call.dest[0]][2]
                a = (("v", b.call.dest[0]), ())
                if t[0] == "adt" and t[1] == "core::result::Result":
                    env[a] = "VErr"
                elif t[0] == "adt":
                    env[(a[0], ("!",))] = "VErr"
            elif good and b.call.dest is not None and not b.call.dest[1]:
                # try_for_each: no closure run failed
                env.setdefault((("v", b.call.dest[0]), ()), "VOk")
        for k, s in enumerate(b.succ):
            if ck is not None and ck in env and k < len(b.succ) - 1:
                e2 = dict(env)
                e2[ck] = "1"
                yield s, e2
            else:
                yield s, env

    def _cbfail(self, env, cb):
        return any(env.get((("v", rt), ())) == "VErr" for rt in self.cbret.get(cb, ()))

    def _argfail(self, env, b):
        """an iterator whose lazily run closure failed is consumed by this call"""
        for a in b.call.args:
            if a[0] == "p" and "*" not in a[1][1]:
                if env.get((("v", a[1][0]), ("!",))) == "VErr":
                    return True
        return False

    def _assign(self, env, blk, i, pl, rv):
        dst = self.ap(blk, i, pl)
        k = rv[0]
        if dst is None:
            return
        if k == "use":
            o = rv[1]
            if o[0] == "p":
                src = self.ap(blk, i, o[1])
                if src is not None:
                    tmp = {}
                    n = len(src[1])
                    for kk, v in env.items():
                        if kk[0] == src[0] and kk[1][:n] == src[1]:
                            tmp[(dst[0], dst[1] + kk[1][n:])] = v
                    self._kill(env, dst[0], dst[1])
                    env.update(tmp)
                    if not tmp and self.assume is not None:
                        t = self.assume([src], self.g.ty_of_place(o[1]))
                        if t is not None:
                            env[dst] = t
                            return
                    if not tmp and not o[2] and src[0][0] == "v" and self._isbool(pl):
                        env[dst] = ("cp", src)
                    return
            self._kill(env, dst[0], dst[1])
            if o[0] == "k":
                v = o[1].get("v") or {}
                if "int" in v and self._isbool(pl):
                    env[dst] = v["int"]
            return
        if k == "agg":
            kd, names, ops = rv[1], rv[2], rv[3]
            tmp = {}
            base = dst[1]
            if kd[0] == "adt" and kd[2] is not None:
                base = dst[1] + (":" + kd[2],)
            for nme, o in zip(names, ops):
                if o[0] == "p":
                    src = self.ap(blk, i, o[1])
                    if src is not None:
                        n = len(src[1])
                        for kk, v in env.items():
                            if kk[0] == src[0] and kk[1][:n] == src[1]:
                                tmp[(dst[0], base + ("." + nme,) + kk[1][n:])] = v
            self._kill(env, dst[0], dst[1])
            if kd[0] == "adt" and kd[2] is not None:
                env[dst] = "V" + kd[2]
            env.update(tmp)
            return
        if k == "discr":
            self._kill(env, dst[0], dst[1])
            src = self.ap(blk, i, rv[1])
            if src is None:
                if self.assume is not None:
                    t = self.assume(self.flow.resolve(blk, i, rv[1]), rv[3])
                    for num, nm in rv[2].items():
                        if t is not None and nm == t[1:]:
                            env[dst] = num
                return
            t = env.get(src)
            if not isinstance(t, str) and self.assume is not None:
                t = self.assume([src], rv[3]) or t
            if isinstance(t, str) and t[0] == "V":
                for num, nm in rv[2].items():
                    if nm == t[1:]:
                        env[dst] = num
                        return
            else:
                env[dst] = ("dof", src, tuple(rv[2].items()))
            return
        if k == "un" and rv[1] == "Not":
            self._kill(env, dst[0], dst[1])
            if rv[2][0] == "p":
                src = self.ap(blk, i, rv[2][1])
                t = env.get(src)
                if t in ("0", "1"):
                    env[dst] = "1" if t == "0" else "0"
                elif src is not None and self._isbool(pl):
                    env[dst] = ("not", src)
            return
        if k == "bin" and rv[1] in ("Eq", "Ne") and self._isbool(pl):
            self._kill(env, dst[0], dst[1])
            vals = []
            for o in rv[2:]:
                if o[0] == "k":
                    v = (o[1].get("v") or {}).get("int")
                    vals.append(v)
                else:
                    src = self.ap(blk, i, o[1])
                    t = env.get(src)
                    vals.append(t if isinstance(t, str) and t[0] != "V" else None)
            if vals[0] is not None and vals[1] is not None:
                eq = vals[0] == vals[1]
                env[dst] = "1" if eq == (rv[1] == "Eq") else "0"
            return
        self._kill(env, dst[0], dst[1])

    def _isbool(self, pl):
        t = self.g.ty_of_place(pl)
        return t[0] == "prim" and t[1] in ("bool", "isize", "i8", "u8", "i32")

    def _learn(self, env, ap, val):
        """record value of a boolean local and what follows from it; False if contradictory"""
        t = env.get(ap)
        if isinstance(t, str):
            return t == val
        env[ap] = val
        if isinstance(t, tuple):
            if t[0] == "not":
                return self._learn(env, t[1], "1" if val == "0" else "0")
            if t[0] == "cp":
                return self._learn(env, t[1], val)
            if t[0] == "dof":
                m = dict(t[2])
                if val in m:
                    x = env.get(t[1])
                    if isinstance(x, str) and x[0] == "V" and x[1:] != m[val]:
                        return False
                    env[t[1]] = "V" + m[val]
        return True

    def _switch(self, b, env):
        o = b.op
        n = len(b.stmts)
        if o[0] == "k":
            v = (o[1].get("v") or {}).get("int")
            if v is not None:
                for lab, s in zip(b.labels, b.succ):
                    if lab == v:
                        yield s, env
                        return
                yield b.succ[-1], env
                return
            for s in b.succ:
                yield s, env
            return
        a = self.ap(b.id, n, o[1])
        t = env.get(a) if a is not None else None
        if isinstance(t, str) and t[0] != "V":
            for lab, s in zip(b.labels, b.succ):
                if lab == t:
                    yield s, env
                    return
            yield b.succ[-1], env
            return
        isbool = self.g.ty_of_place(o[1]) == ("prim", "bool")
        dof = dict(t[2]) if isinstance(t, tuple) and t[0] == "dof" else None
        known = env.get(t[1]) if dof is not None else None
        for lab, s in zip(b.labels, b.succ):
            e2 = dict(env)
            if lab is not None:
                if dof is not None and lab not in dof:
                    continue
                if a is not None:
                    if not self._learn(e2, a, lab):
                        continue
            else:
                if dof is not None:
                    rest = [x for x in dof if x not in b.labels]
                    if not rest:
                        continue
                    if len(rest) == 1:
                        if not self._learn(e2, a, rest[0]):
                            continue
                elif isbool and a is not None:
                    others = [l for l in b.labels if l is not None]
                    if others == ["0"]:
                        if not self._learn(e2, a, "1"):
                            continue
                    elif others == ["1"]:
                        if not self._learn(e2, a, "0"):
                            continue
            yield s, e2

    # ---------------------------------------------------------------- exploration
    def _prune(self, blk, env):
        live = self.live[blk]
        out = []
        for k, v in env.items():
            r = k[0]
            if r[0] == "v" and r[1] not in live and r[1] not in self.addr:
                continue
            if isinstance(v, tuple) and v[0] in ("cp", "not"):
                q = v[1][0]
                if q[0] == "v" and q[1] not in live and q[1] not in self.addr:
                    continue
            out.append((k, v))
        return frozenset(out)

    @staticmethod
    def _reduce(env, hard):
        out = []
        for k, v in env:
            if k[0][0] != "v":
                continue
            if isinstance(v, tuple) and v[1][0][0] != "v":
                continue
            if k[1] and k[1][0] == ":Err" or (hard and k[1] and k[1] != ("!",)):
                continue
            out.append((k, v))
        return frozenset(out)

    def _node(self, blk, env):
        k = (blk, env)
        i = self.index.get(k)
        if i is None:
            l = self.count.get(blk, 0)
            if l >= self.cap // 4:
                # many partitions: forget what is known about heap objects and error payloads first,
                # then everything but whole locals
                env = self._reduce(env, l >= self.cap)
                k = (blk, env)
                i = self.index.get(k)
                if i is not None:
                    return i
            if l >= 3 * self.cap:
                # too many partitions: keep only what all of them agree on
                self.capped += 1
                w = self.wide.get(blk)
                if w is None:
                    w = env
                nw = frozenset(w & env)
                if blk in self.wide and nw == self.wide[blk]:
                    i = self.index.get((blk, nw))
                    if i is not None:
                        return i
                self.wide[blk] = nw
                env = nw
                k = (blk, env)
                i = self.index.get(k)
                if i is not None:
                    return i
            self.count[blk] = l + 1
            i = len(self.nodes)
            self.nodes.append(k)
            self.index[k] = i
            self.succ.append([])
            self.work.append(i)
            if i > self.max_nodes:
                raise RuntimeError("partition graph too large for " + self.g.root.path)
        return i

    def _run(self, start):
        self.work = []
        self.count = {}
        self.wide = {}
        self.entry = self._node(self.g.entry, frozenset(start))
        self._drain()
        self.main = len(self.nodes)
        self.feasible = set()
        for i, l in enumerate(self.succ):
            for j in l:
                self.feasible.add((self.nodes[i][0], self.nodes[j][0]))
        self.reached = set(b for b, e in self.nodes)

    def _finish(self):
        self.preds = [[] for _ in self.nodes]
        for i, l in enumerate(self.succ):
            for x in l:
                self.preds[x].append(i)
        self.byblk = {}
        for i, (b, e) in enumerate(self.nodes):
            self.byblk.setdefault(b, []).append(i)

    def seed(self, blk, tags):
        """nodes reached by leaving call block blk with the given tags on its result (path suffix -> tag);
        one per partition of blk reachable from the entry"""
        out = []
        b = self.g.blocks[blk]
        if b.call is None or b.call.dest is None:
            return out
        if b.call.ext:
            a = self.ap(blk, len(b.stmts), b.call.dest)
            starts = [i for i in self.byblk.get(blk, []) if i < self.main]
        else:
            # inlined call: leave its exit block
            x = self.g.blocks[b.call.exit]
            a = self.ap(x.id, 0, b.call.dest)
            starts = [i for i in self.byblk.get(x.id, []) if i < self.main]
            blk = x.id
        if a is None:
            return out
        self.count = {}
        self.wide = {}
        for i in starts:
            for s, e in self._block(blk, self.nodes[i][1]):
                e = dict(e)
                ok = True
                for k in [k for k, v in e.items() if isinstance(v, tuple) and v[1] == a]:
                    del e[k]
                for suf, t in tags.items():
                    k = (a[0], a[1] + suf)
                    old = e.get(k)
                    if isinstance(old, str) and old != t:
                        ok = False
                    e[k] = t
                if ok:
                    j = self._node(s, self._prune(s, e))
                    if j not in out:
                        out.append(j)
        self._drain()
        self._finish()
        return out

    def _drain(self):
        while self.work:
            i = self.work.pop()
            blk, env = self.nodes[i]
            out = []
            for s, e in self._block(blk, env):
                j = self._node(s, self._prune(s, e))
                if j not in out:
                    out.append(j)
            self.succ[i] = out

    # ---------------------------------------------------------------- returns
    def ret_nodes(self, variant=None):
        """exploded return nodes; variant: 'Ok' / 'Err' / 'Some' .. filters on the tag of the returned value (nodes
        whose tag is unknown are included for every variant)"""
        out = []
        for i, (b, env) in enumerate(self.nodes):
            if self.g.blocks[b].kind == "ret":
                if variant is None:
                    out.append(i)
                else:
                    # effects of the statements in the block itself
                    e = dict(env)
                    bl = self.g.blocks[b]
                    for k, st in enumerate(bl.stmts):
                        if st[0] == "=":
                            self._assign(e, b, k, st[1], st[2])
                    t = e.get((("v", self.g.retvar), ()))
                    if not isinstance(t, str) or t == "V" + variant or t == variant:
                        out.append(i)
        return out
