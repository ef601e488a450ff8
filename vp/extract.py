"""Runs the MIR fact extractor over /repo's current tree (both cargo packages), with a cache keyed by the
content of every source and manifest file."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
WORK = os.environ.get("VP_WORK", os.path.join(VERIF, ".work"))
DRIVER = os.path.join(VERIF, "driver")
CRATES = ["stronghold_utils", "stronghold_derive", "runtime", "engine", "iota_stronghold", "stronghold_native"]
STM = ["stronghold_stm"]


class ExtractError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "RUSTC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def run(cmd, cwd, e, log):
    with open(log, "ab") as f:
        f.write(("$ %s\n" % " ".join(cmd)).encode())
        f.flush()
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
    return p.returncode


def tree_files():
    out = []
    for base, dirs, files in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules", "products"))
        for f in sorted(files):
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock", "rust-toolchain", "rust-toolchain.toml") or rel.endswith(".cargo"):
                out.append(os.path.join(base, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in tree_files():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    for r, d, fs in os.walk(os.path.join(DRIVER, "src")):
        for f in sorted(fs):
            with open(os.path.join(r, f), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def driver_path():
    return os.path.join(DRIVER, "target", "release", "vpfacts")


def build_driver(log):
    rc = run(["cargo", "+nightly", "build", "--release", "--offline"], DRIVER, env(), log)
    if rc != 0 or not os.path.exists(driver_path()):
        raise ExtractError("the fact extractor does not build; see " + log)


CONFIGS = {"tests": ["--features", "iota_stronghold/insecure"],   # as the stable tests build it
           "default": []}


def extract(config="tests"):
    """returns (facts dir, list of crates)"""
    os.makedirs(WORK, exist_ok=True)
    log = os.path.join(WORK, "extract.log")
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash() + ("" if config == "tests" else "-" + config)
        out = os.path.join(WORK, "facts", h)
        if os.path.exists(os.path.join(out, "done")):
            return out, CRATES + STM
        t = time.time()
        with open(log, "wb"):
            pass
        build_driver(log)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e = env()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        e["VPFACTS_OUT"] = tmp
        e["VPFACTS_CRATES"] = ",".join(CRATES + STM)
        e["RUSTC_WORKSPACE_WRAPPER"] = driver_path()
        tgt = os.path.join(WORK, "target")
        e["CARGO_TARGET_DIR"] = tgt
        # cargo's freshness cache would skip the extractor: forget the workspace's own crates
        bd = os.path.join(tgt, "debug", "build")
        for d in (os.listdir(bd) if os.path.isdir(bd) else []):
            if d.startswith(("stronghold", "iota_stronghold", "iota-stronghold")):
                shutil.rmtree(os.path.join(bd, d), ignore_errors=True)
        fp = os.path.join(tgt, "debug", ".fingerprint")
        for d in (os.listdir(fp) if os.path.isdir(fp) else []):
            if d.startswith(("stronghold", "iota_stronghold", "iota-stronghold")):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        base = ["cargo", "+nightly", "check", "--offline"]
        if run(base + ["--workspace", "--lib"] + CONFIGS[config], REPO, e, log) != 0:
            raise ExtractError("the workspace does not compile; see " + log)
        if run(base + ["--lib"], os.path.join(REPO, "stm"), e, log) != 0:
            raise ExtractError("stm does not compile; see " + log)
        for c in CRATES + STM:
            if not os.path.exists(os.path.join(tmp, c + ".json")):
                raise ExtractError("no facts for crate %s" % c)
        with open(os.path.join(tmp, "done"), "w") as f:
            f.write("%.1f\n" % (time.time() - t))
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        # keep the newest few fact sets only
        fd = os.path.join(WORK, "facts")
        old = sorted((os.path.join(fd, d) for d in os.listdir(fd)), key=os.path.getmtime)
        for d in old[:-8]:
            if d != out:
                shutil.rmtree(d, ignore_errors=True)
        return out, CRATES + STM


if __name__ == "__main__":
    t = time.time()
    print(extract(), "%.1fs" % (time.time() - t))
