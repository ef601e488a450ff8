"""P14: writing a snapshot replaces the old file atomically."""
import re
from .common import *

TECHNIQUE = "path-sensitive typestate of the snapshot file (open, write, sync, rename) over the inlined MIR flow graph, with value provenance of the paths"
EXPLANATION = ("The public snapshot writer is inlined into one control-flow graph; every file operation in it is an obligation: "
               "temporary path derived from the target and from fresh randomness, opened with create_new, every write followed by a sync before the rename, "
               "rename from exactly that temporary path onto exactly the target on every successful return, no other mutation of the target, no failure of a step "
               "reaching the rename or a success return; who-may-write: no other function of engine/client/bindings changes files.")
ASSUMPTIONS = ["std::fs::rename is atomic on the file system used", "std write_all either writes everything or fails"]
NOTE = ("Sound for the paths of the analysed MIR (unwinding ignored: release profile is panic=abort); trusts std's file API semantics.")

MUTATORS = r"^std::fs::(write|copy|rename|remove_file|remove_dir|remove_dir_all|hard_link|set_permissions)$|std::fs::File::(create|create_new|create_buffered|set_len|set_permissions|options)$|std::fs::OpenOptions::open$|unix::fs::symlink$"
WRITES = r"io::(write::)?Write(>)?::(write_all|write|write_fmt|write_vectored|write_all_vectored)$|io::copy(::copy)?$|::write_at$|::write_all_at$|io::Write>::"
SYNC = r"std::fs::File::(sync_all|sync_data)$"
OPEN = r"std::fs::OpenOptions::open$|std::fs::File::(create|create_new)$|^std::fs::write$"
RENAME = r"^std::fs::rename$"
RAND = r"crypto::utils::rand::fill|getrandom|rand::|random|tempfile"

CLIENT_ROOTS = [
    "iota_stronghold::types::snapshot::Snapshot::write_to_snapshot",
    "iota_stronghold::types::stronghold::Stronghold::commit",
    "iota_stronghold::types::stronghold::Stronghold::commit_with_keyprovider",
]


def check(cx):
    a = cx.an("engine::snapshot::logic::write_to")
    if a is None:
        return
    plain, path = 0, 1
    renames = a.calls(RENAME)
    opens = a.calls(OPEN)
    writes = [w for w in a.calls(WRITES, ext=True)]
    syncs = a.calls(SYNC)
    cx.floor("rename calls in write_to", len(renames), 1)
    cx.floor("file opens in write_to", len(opens), 1)
    cx.floor("write calls in write_to", len(writes), 2)
    cx.floor("sync calls in write_to", len(syncs), 1)
    must_precede(cx, a, "rename-on-success", "write_to", renames, a.ret_main("Ok"), "a success return is reached without renaming the temporary file over the target")
    target_terms = set()
    for r in renames:
        dst = a.arg_term(r, 1)
        src = a.arg_term(r, 0)
        target_terms.add(dst)
        cx.ob("rename-target", "write_to", dst == ("init", ("obj", ("arg", path, ())), ()) or dst == ("arg", path, ()), a.where(r),
              "the rename target is not the path given by the caller: " + show(dst))
        tmps = [a.arg_term(o, len(a.call(o).args) - 1 if "OpenOptions" in a.call(o).path else 0) for o in opens]
        cx.ob("rename-source", "write_to", src in tmps, a.where(r), "the renamed file is not the one that was opened and written: " + show(src))
        fails(cx, a, "rename-failure", "write_to", r)
    for o in opens:
        c = a.call(o)
        pi = 1 if "OpenOptions" in c.path else 0
        deps = a.arg_deps(o, pi)
        t = a.arg_term(o, pi)
        cx.ob("temp-not-target", "write_to", t not in target_terms and bool(calls_in(deps, a, RAND)), a.where(o),
              "the file opened for writing is not a fresh, randomly named one: " + show(t))
        cx.ob("temp-same-directory", "write_to", has_arg(deps, path) and not calls_in(deps, a, r"env::temp_dir|tempfile|home_dir|current_dir|Path::file_name$"), a.where(o),
              "the temporary file is not placed next to the target: " + show(t))
        if "OpenOptions" in c.path:
            od = a.arg_deps(o, 0)
            cn = calls_in(od, a, r"OpenOptions::create_new$")
            ok = False
            for v in cn:
                for x in a.arg_vals(v[1], 1):
                    if x == ("k", ("int", "1")):
                        ok = True
            cx.ob("temp-create-new", "write_to", ok, a.where(o), "the temporary file is not opened with create_new(true)")
        else:
            cx.ob("temp-create-new", "write_to", c.path.endswith("create_new"), a.where(o), "the temporary file is not created exclusively")
        fails(cx, a, "open-failure", "write_to", o)
        w = a.search(a.fail(o), renames + writes)
        cx.ob("open-failure-stops", "write_to", w is None, a.where(o), "work continues after the open failed")
    plain_written = []
    for n, w in enumerate(writes):
        c = a.call(w)
        key = "write#%d" % n
        cx.ob("write-complete", "write_to:" + short(c.path) , not re.search(r"::(write|write_vectored|write_at)$", c.path), a.where(w),
              "a partial write call is used, its short counts are not retried")
        x = a.search(a.after(w), renames, avoid=syncs)
        cx.ob("sync-before-rename", "write_to:" + show(a.arg_term(w, 1))[:60], x is None, a.where(w),
              "the rename is reached without syncing this write: " + (a.show(x) if x else ""))
        x = a.search(a.fail(w), renames + a.rets("Ok"))
        cx.ob("write-failure", "write_to:" + show(a.arg_term(w, 1))[:60], x is None, a.where(w),
              "a failed write still leads to the rename or to success: " + (a.show(x) if x else ""))
        if has_arg(a.arg_deps(w, 1), plain):
            plain_written.append(w)
    cx.ob("content-written", "write_to", bool(plain_written), "", "the content handed in is never written")
    if plain_written:
        must_precede(cx, a, "content-before-rename", "write_to", plain_written, renames, "the rename is reached before the content is written")
    bw = a.calls(r"BufWriter::(new|with_capacity)$|LineWriter::new$")
    if bw:
        fl = a.calls(r"Write::flush$|BufWriter::into_inner$|Write>::flush$")
        for b in bw:
            x = a.search(a.after(b), syncs, avoid=fl)
            cx.ob("flush-before-sync", "write_to", bool(fl) and x is None, a.where(b), "buffered content is not flushed before the sync")
    for s in syncs:
        ft = a.arg_term(s, 0)
        x = a.search(a.fail(s), renames + a.rets("Ok"))
        cx.ob("sync-failure", "write_to", x is None, a.where(s), "a failed sync still leads to the rename or to success: " + (a.show(x) if x else ""))
        od = a.arg_deps(s, 0)
        cx.ob("sync-same-file", "write_to", any(v[0] == "call" and v[1] in opens for v in od), a.where(s), "the synced file is not the temporary file")
    # other mutations inside the writer
    for m in a.calls(MUTATORS):
        c = a.call(m)
        if m in renames or m in opens:
            continue
        t = a.arg_term(m, 0)
        if c.path.endswith("remove_file"):
            tmps = [a.arg_term(r, 0) for r in renames]
            cx.ob("no-other-mutation", "write_to:" + short(c.path), t in tmps, a.where(m), "a file other than the temporary one is removed: " + show(t))
            x = a.search(a.after(m), renames)
            cx.ob("no-removal-before-rename", "write_to", x is None, a.where(m), "the temporary file is removed before the rename")
        else:
            cx.ob("no-other-mutation", "write_to:" + short(c.path), False, a.where(m), "another file mutation in the snapshot writer: " + c.path)
    # callers report the failure
    for root in CLIENT_ROOTS:
        b = cx.an(root)
        if b is None:
            continue
        evs = b.calls(RENAME) + b.calls(OPEN) + b.calls(SYNC)
        cx.floor("file operations reached from " + short(root), len(evs), 3)
        for e in evs:
            fails(cx, b, "caller-reports", short(root) + ":" + site(b, e), e)
    # who may change files
    allowed = set(c.body.uid for c in a.g.ctxs)
    n = 0
    pat = re.compile(MUTATORS)
    for b in local_bodies(cx.prog, ("engine", "iota_stronghold", "stronghold_native", "stronghold_utils")):
        for i, p, rp, t in raw_calls(b):
            if pat.search(p) or pat.search(rp):
                n += 1
                if b.uid in allowed:
                    continue
                if p.endswith("OpenOptions::open"):
                    # reading is fine: no write / append / truncate / create option in the body
                    m = mentions(b)
                    if not any(x.startswith("std::fs::OpenOptions::") and x.rsplit("::", 1)[1] in ("write", "append", "truncate", "create", "create_new") for x in m):
                        continue
                if b.path.startswith("stronghold_utils::"):
                    continue
                cx.ob("who-may-write", short(b.path) + ":" + short(p), False, "%s:%s" % (b.file, t["l"]),
                      "%s changes files outside the atomic snapshot writer (%s)" % (b.path, p))
    cx.floor("file mutation sites in the library", n, 2)
