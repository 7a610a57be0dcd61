"""Build the rustc driver and dump the facts of /repo's current tree (type-checks it, runs nothing)."""
import os, subprocess, shutil, sys, glob, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PDDL_REPO", "/repo")
WORK = os.environ.get("PDDL_WORK", os.path.join(VERIF, ".work"))
DRIVER = os.path.join(VERIF, "driver")


class DumpError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=900):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def sysroot():
    rc, out = sh(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise DumpError("no nightly toolchain: " + out)
    return out.strip()


def build_driver():
    rc, out = sh(["cargo", "+nightly", "build", "--offline", "--quiet", "--manifest-path", os.path.join(DRIVER, "Cargo.toml")])
    if rc:
        raise DumpError("driver does not build:\n" + out)
    return os.path.join(DRIVER, "target", "debug", "pddl-facts")


def tree_hash(repo=None):
    repo = repo or REPO
    h = hashlib.sha256()
    files = [os.path.join(repo, "Cargo.toml"), os.path.join(repo, "Cargo.lock"), os.path.join(repo, "README.md")]
    files += glob.glob(os.path.join(repo, "*.rs"))
    for d, ds, fs in os.walk(os.path.join(repo, "src")):
        files += [os.path.join(d, f) for f in fs]
    for d in ("driver/src",):
        for dd, ds, fs in os.walk(os.path.join(VERIF, d)):
            files += [os.path.join(dd, f) for f in fs]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def dump(repo=None, features=None, tag="default", force=False, release=False, target=None):
    """-> path of the facts file.  The result is keyed by a hash of the analysed sources."""
    repo = repo or REPO
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = tree_hash(repo)
        out = os.path.join(WORK, "facts-%s-%s.json" % (tag, key))
        if os.path.exists(out) and not force:
            return out
        drv = build_driver()
        tgt = os.path.join(WORK, "target-" + (target or tag))
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        tmp = out + ".tmp"
        for old in glob.glob(os.path.join(WORK, "facts-%s-*" % tag)):
            os.remove(old)
        env["PDDL_FACTS_OUT"] = tmp
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["CARGO_TARGET_DIR"] = tgt
        env["CARGO_INCREMENTAL"] = "0"
        env.pop("RUSTFLAGS", None)
        if release:
            env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
            env["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
        for pat in ("debug/.fingerprint/pddl-*", "debug/build/pddl*", "debug/deps/*pddl*"):
            for p in glob.glob(os.path.join(tgt, pat)):
                if os.path.isdir(p):
                    shutil.rmtree(p)
                else:
                    os.remove(p)
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(repo, "Cargo.toml")]
        cmd += features or []
        rc, log = sh(cmd, env=env)
        if rc or not os.path.exists(tmp):
            raise DumpError("the crate does not type-check (or was not re-analysed):\n" + log[-4000:])
        os.rename(tmp, out)
        return out
    finally:
        lock.close()


if __name__ == "__main__":
    print(dump(force=True))
