"""P11: a failed procedure chain leaves none of its products behind."""
from .common import *

TECHNIQUE = "path-sensitive control-flow obligations on the chain executor (which steps, log entries and revocations each path may and must pass), plus a value-provenance table of what each procedure variant writes against what it reports"
EXPLANATION = ("The chain executor is inlined with the single steps as boundaries. Obligations: every element of the given list is executed, in order, none filtered; after a failing step no further step runs and no success is returned, "
               "the error returned is that step's error; after a successful step its reported location is logged before the next step; nothing is logged for a step that has not succeeded; on failure the whole log is iterated to its end, "
               "each element is revoked on the same client, and a failing revocation does not end the loop; revoked locations come from the log only. For every procedure type the location its execution writes to (argument of the runner's "
               "writing methods) is computed and must be exactly the one reported by its variant; variants whose execution writes nothing report none.")
ASSUMPTIONS = ["a single step leaves no record behind when it fails (its write is its last fallible action, P07/P26)"]
NOTE = "All paths of execute_procedure_chained, all variants of StrongholdProcedure and all implementations of the procedure traits."

P = "iota_stronghold::procedures::"
SP = P + "primitives::StrongholdProcedure"
EXEC = r"StrongholdProcedure as .*Procedure>::execute$"
REVOKE = r"types::client::Client as .*Runner>::revoke_data$|Runner::revoke_data$"
WRITERS = {"write_to_vault": 1, "exec_proc": 2}
SHRINK = r"Vec::(truncate|drain|split_off|retain|retain_mut|swap_remove|dedup\w*|clear|remove|pop)$"
GROW = r"(Vec|VecDeque)::(push|push_back|push_front|insert|append|extend_from_slice)$|Extend(>)?::extend$"


class Steps(RuntimeOpaque):
    """chain level: a single step, its report and the runner are boundaries"""

    def opaque(self, b):
        return RuntimeOpaque.opaque(self, b) or bool(re.search(EXEC + "|" + REVOKE + r"|StrongholdProcedure::\w+$", b.path))


class Payload(RuntimeOpaque):
    """procedure level: the runner and the computation are boundaries"""

    def opaque(self, b):
        return RuntimeOpaque.opaque(self, b) or bool(re.search(r"Runner(>)?::\w+$|Secret(<.*>)?(>)?::(generate|derive|use_secret)$|clone::Clone>::clone$", b.path))


def check(cx):
    prog = cx.prog
    reports = chain(cx)
    if reports is None:
        return
    table(cx, prog, reports)


def chain(cx):
    a = cx.an("iota_stronghold::types::client::Client::execute_procedure_chained", Steps())
    if a is None:
        return None
    ex = a.calls(EXEC)
    cx.floor("executed steps in the chain", len(ex), 1)
    rev = a.calls(REVOKE)
    cx.floor("revocations in the chain", len(rev), 1)
    reps = [b for b in a.calls(r"StrongholdProcedure::\w+$") if b not in ex and "Location" in str(a.g.ty_of_place(a.call(b).dest))]
    cx.floor("reports of written locations in the chain", len(reps), 1)
    nexts = [b for b in a.calls(r"Iterator(>)?::(next|for_each|try_for_each)$") if has_arg(a.arg_deps(b, 0), 1)]
    steps, step_loops, heads = [], {}, {}
    for e in ex:
        d = a.arg_deps(e, 0)
        src = [n for n in nexts if a.search(loop_body(a, n)[0], [e], avoid=nexts)]
        step_loops[e] = src
        cx.ob("step-from-list", "execute", has_arg(d, 1) and not calls_in(d, a, FILTER) and not calls_in(d, a, SHRINK + r"|Iterator(>)?::rev$|::reverse$|sort"), a.where(e), "the executed steps are not exactly the given ones in the given order")
        cx.ob("step-on-self", "execute", a.arg_term(e, 1) == a.arg_term(rev[0], 0) if rev else False, a.where(e), "the steps do not run on the client they were given to")
        steps += src
        w = a.search(a.fail(e), ex)
        cx.ob("failure-stops", "execute", w is None, a.where(e), "a step runs after an earlier one failed: " + (a.show(w) if w else ""))
        fails(cx, a, "failure-reported", "execute", e)
        # every element fetched is executed
        for n in src:
            st, again = loop_body(a, n)
            heads[n] = (st, again)
            w = a.search(st, ok_again(a, again) + a.rets(), avoid=ex)
            cx.ob("step-not-skipped", "execute", w is None, a.where(n), "a step of the chain is skipped: " + (a.show(w) if w else ""))
            w = a.search(a.e.seed(e, {(): "VOk"}), a.rets(), avoid=again)
            cx.ob("chain-complete", "execute", w is None, a.where(e), "the chain ends before its last step: " + (a.show(w) if w else ""))
    cx.floor("loops over the given steps", len(set(steps)), 1)
    # the error handed back is the one of the failing step
    ev = set()
    for t in err_terms(a):
        ev.add(show(t))
    for t in ev:
        cx.ob("error-is-the-steps", t[:80], bool(re.match(r"Procedure::execute\(.*\):Err\.0$", t)), "", "the error returned is not the failing step's own: " + t[:200])
    cx.floor("error values returned by the chain", len(ev), 1)
    # the log
    logs = [b for b in a.calls(GROW) if any(r in dep_blks(a.f.deps(deep_of(a, b, a.arg_vals(b, len(a.call(b).args) - 1)))) for r in reps)]
    cx.floor("log entries for written locations", len(logs), 1)
    # the reported location is logged between the step's success and the next step, however it is spelled: under the
    # hypothesis that the step reports a location
    u = a.under(None, lambda b: {(): "VSome"} if b in reps else None)
    for e in ex:
        for n in step_loops[e]:
            w = u.search(u.e.seed(e, {(): "VOk"}), heads[n][1] + u.rets(), avoid=logs)
            cx.ob("logged", "execute", w is None, a.where(e), "a step that wrote a record is not logged for the rollback: " + (u.show(w) if w else ""))
            w = a.search(heads[n][0], logs, avoid=ex)
            cx.ob("logged-after-success", "execute", w is None, a.where(e), "a step is logged before it succeeded: " + (a.show(w) if w else ""))
    for b in logs:
        for r in reps:
            if r not in dep_blks(a.arg_deps(b, 1)):
                continue
            for e in ex:
                cx.ob("logged-own", "execute", a.arg_term(r, 0) == a.arg_term(e, 0), a.where(b), "the location logged is not the one of the step that ran")
        cx.ob("log-whole", "log", not calls_in(a.f.deps(a.arg_vals(b, 1)), a, FILTER), a.where(b), "only some of the written locations are logged")
        for e in ex:
            w = a.search(a.fail(e), [b])
            cx.ob("no-log-on-failure", "execute", w is None, a.where(b), "the failing step is logged as having written its record")
    tg = [v for b in logs for v in a.arg_vals(b, 0) if v[0] == "ptr"]
    for b in a.calls(SHRINK):
        if any(v in tg for v in a.arg_vals(b, 0)):
            inroll = all(a.search(a.e.seed(e, {(): "VOk"}), [b], avoid=ex) is None for e in ex)
            cx.ob("log-kept", short(a.call(b).path), inroll and b in fetches(a, rev), a.where(b), "entries are removed from the log of written records")
    # rollback
    for r in rev:
        d = a.arg_deps(r, 1)
        cx.ob("revoke-logged-only", "revoke", any(x in dep_blks(d) for x in reps) and all(t in reps or not a.call(t).path.startswith("iota_stronghold") or t in ex for t in dep_blks(d)) and not consts_loc(d), a.where(r), "a record is revoked that was not logged as written by this chain: " + show(a.arg_term(r, 1))[:200])
        w = a.search(a.entry(), [r], avoid=ex)
        cx.ob("revoke-after-failure", "revoke", w is None, a.where(r), "a record is revoked without a step having failed")
        for e in ex:
            w = a.search(a.e.seed(e, {(): "VOk"}), [r], avoid=ex)
            cx.ob("revoke-on-failure-only", "revoke", w is None, a.where(r), "records are revoked although all steps succeeded")
    fe = fetches(a, rev)
    cx.floor("loops over the log", len(fe), 1)
    for e in ex:
        w = a.search(a.fail(e), a.rets(), avoid=[f for f in fe])
        cx.ob("rollback-on-failure", "execute", w is None, a.where(e), "a failing step returns without rolling back: " + (a.show(w) if w else ""))
    for f in fe:
        d = a.arg_deps(f, 0)
        cx.ob("rollback-whole", "log", not [v for v in calls_in(d, a, FILTER + "|" + SHRINK) if v[1] != f and not a.call(v[1]).path.endswith("Iterator::next")], a.where(f), "the rollback does not go through the whole log")
        st, again = loop_body(a, f) if not a.call(f).path.endswith("::pop") else (a.e.seed(f, {(): "VSome"}), [f])
        ag = ok_again(a, again)
        w = a.search(st, ag + a.rets(), avoid=rev)
        cx.ob("rollback-each", "log", w is None, a.where(f), "a logged record is not revoked: " + (a.show(w) if w else ""))
        for r in rev:
            for tags in ({(): "VErr"}, {(): "VOk"}):
                w = a.search(a.e.seed(r, tags), a.rets(), avoid=again)
                cx.ob("rollback-to-the-end", "log", w is None, a.where(r), "the rollback ends before all records are revoked: " + (a.show(w) if w else ""))
    if reps:
        c = a.call(reps[0])
        return c.path
    return None


def consts_loc(d):
    return [v for v in d if v[0] == "arg" and v[1] not in (0, 1)]


def err_terms(a):
    out = set()
    for r in a.g.rets:
        if r in a.e.reached:
            n = len(a.g.blocks[r].stmts)
            for v in a.f.trace(r, n, ("v", a.g.retvar), (":Err", ".0")) or ():
                out.add(a.f.vterm(v, 12, ()))
            for v in a.f.trace(r, n, ("v", a.g.retvar), (":Err.0",)) or ():
                out.add(a.f.vterm(v, 12, ()))
    return out


def fetches(a, rev):
    """calls that fetch the elements that are revoked"""
    out = []
    for b in a.calls(r"Iterator(>)?::(next|for_each|try_for_each|all|any|fold)$|Vec::pop$|VecDeque::pop_(front|back)$"):
        if a.call(b).path.endswith("next") or "pop" in a.call(b).path:
            st = a.e.seed(b, {(): "VSome"})
            again = [b]
        else:
            st, again = loop_body(a, b)
        if any(a.search(st, [r], avoid=again) for r in rev):
            # the inner loop only: not the loop over the steps
            if not has_step(a, b):
                out.append(b)
    return out


def has_step(a, b):
    if "pop" in a.call(b).path:
        return False
    st, again = loop_body(a, b)
    return any(a.search(st, [e], avoid=again) for e in a.calls(EXEC))


def reported(cx, path):
    """variant -> reported location field, from the reporting function"""
    a = cx.an(path, Payload())
    out = {}
    if a is None:
        return a, out
    for v in a.ret_content((":Some", ".0")):
        t = show(a.f.vterm(v, 12, ()))
        m = re.match(r"\**arg0:(\w+)\.0((?:[.:]\w+)+)$", t)
        if m:
            out.setdefault(m.group(1), set()).add(m.group(2))
        else:
            cx.ob("report-known", t[:80], False, "", "a location is reported that is not a field of the procedure: " + t[:200])
    return a, out


def table(cx, prog, rep):
    a, out = reported(cx, rep)
    if a is None:
        return
    cx.floor("variants reporting a written location", len(out), 5)
    n = 0
    for v in prog.adts[SP]["variants"]:
        name = v["n"]
        ty = v["f"][0]["t"]
        tn = ty[1] if ty[0] == "adt" else None
        ex = executes(cx, prog, tn)
        if ex is None:
            cx.ob("variant-executes", name, False, "", "no execution of %s found" % name)
            continue
        # how the variant is reported
        t = ret_tags(a.under(lambda aps, ty, n=name: "V" + n if aps and all(x[0] == ("o", ("arg", 0, ())) and x[1] == () for x in aps) and ty[0] == "adt" and ty[1] == SP else None))
        want = set()
        for b in ex:
            w = cx.an(b, Payload())
            for blk in w.calls(r"Runner(>)?::(%s)$" % "|".join(WRITERS)):
                m = w.call(blk).path.rsplit("::", 1)[1]
                term = show(w.arg_term(blk, WRITERS[m]))
                mm = re.match(r"\**arg0((?:[.:]\w+)+)$", term)
                n += 1
                cx.ob("writes-to-field", name, bool(mm), w.where(blk), "%s writes to a location that is not one of its parameters: %s" % (name, term[:200]))
                if mm:
                    want.add(mm.group(1))
                x = w.search(w.e.seed(blk, {(): "VOk"}), w.rets("Err"))
                cx.ob("write-is-last", name, x is None, w.where(blk), "%s can still fail after its record is written, which the chain then does not revoke: %s" % (name, w.show(x) if x else ""))
        if want:
            cx.ob("reports-written", name, t == {"VSome"}, "", "%s writes a record but does not (always) report it" % name)
            cx.ob("reports-same", name, out.get(name) == want, "", "%s writes to %s but reports %s" % (name, sorted(want), sorted(out.get(name, []))))
        else:
            cx.ob("reports-none", name, t == {"VNone"}, "", "%s writes nothing but reports a location" % name)
    cx.floor("writes of procedures", n, 5)


def executes(cx, prog, tn):
    """bodies that execute a procedure of that type"""
    out = []
    for tr in ("Procedure",):
        l = prog.by_path.get("<%s as %stypes::%s>::execute" % (tn, P, tr), [])
        out += l[:1]
    if out:
        return out
    for k in ("GenerateSecret", "DeriveSecret", "UseSecret"):
        l = prog.by_path.get("<%s as %stypes::%s>::exec" % (tn, P, k), [])
        if l:
            return l[:1]
    return None
