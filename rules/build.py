"""Builds the MIR driver and dumps the type-checked program from /repo's working tree."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ROWAN_REPO", "/repo")
CACHE = os.environ.get("ROWAN_CACHE", os.path.join(VERIF, ".cache"))


class BuildError(Exception):
    pass


def _run(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True)
    return r.returncode, r.stdout


def sysroot():
    rc, out = _run(["rustc", "+nightly", "--print", "sysroot"], VERIF)
    if rc:
        raise BuildError("no nightly toolchain: " + out)
    return out.strip()


def _digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def driver():
    d = os.path.join(VERIF, "driver")
    tgt = os.path.join(CACHE, "driver")
    rc, out = _run(["cargo", "+nightly", "build", "--offline", "-q", "--manifest-path",
                    os.path.join(d, "Cargo.toml")], d, {"CARGO_TARGET_DIR": tgt})
    if rc:
        raise BuildError("driver does not build:\n" + out[-4000:])
    return os.path.join(tgt, "debug", "rowan-mir")


def _dump(cwd, crates, tgt, out, args):
    drv = driver()
    # forget that cargo already checked these crates (it would skip the wrapper)
    for sub in (".fingerprint", "build"):
        fp = os.path.join(tgt, "debug", sub)
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n in crates or any(n.startswith(c + "-") for c in crates):
                    shutil.rmtree(os.path.join(fp, n))
    os.makedirs(out, exist_ok=True)
    for n in os.listdir(out):
        if any(n.startswith(c + ".") for c in crates):
            os.remove(os.path.join(out, n))
    env = {"ROWAN_MIR_OUT": out, "ROWAN_MIR_CRATES": ",".join(crates), "CARGO_TARGET_DIR": tgt,
           "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"), "RUSTC_WORKSPACE_WRAPPER": drv,
           "CARGO_INCREMENTAL": "0"}
    want = [os.path.join(out, f"{c}.{cfg}.json") for c in crates for cfg in ("debug", "release")]
    for attempt in (0, 1):
        rc, o = _run(["cargo", "+nightly", "check", "--offline"] + args, cwd, env)
        if rc:
            raise BuildError("the analysed tree does not build:\n" + o[-4000:])
        if all_exist(want):
            return
        shutil.rmtree(tgt, ignore_errors=True)
    raise BuildError(f"no dump of {crates}:\n" + o[-2000:])


def all_exist(paths):
    return not [p for p in paths if not os.path.exists(p)]


def dump_repo():
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)
    out = os.path.join(CACHE, "out")
    _dump(REPO, ["rowan", "xtask"], os.path.join(CACHE, "tgt"), out,
          ["--workspace", "--all-features", "--lib", "--bins"])
    return out


def dump_models():
    d = os.path.join(VERIF, "models")
    out = os.path.join(CACHE, "out_models")
    stamp = os.path.join(out, "stamp")
    srcs = [os.path.join(d, "src", "lib.rs"), os.path.join(d, "Cargo.toml")]
    srcs += [os.path.join(VERIF, "driver", "src", f) for f in ("main.rs", "dump.rs", "json.rs")]
    dig = _digest(srcs)
    if os.path.exists(stamp) and open(stamp).read() == dig and os.path.exists(os.path.join(out, "models.release.json")):
        return out
    _dump(d, ["models"], os.path.join(CACHE, "tgt_models"), out, ["--lib"])
    with open(stamp, "w") as f:
        f.write(dig)
    return out


def dump_spec():
    """the specification functions, compiled against the analysed tree's public interface"""
    d = os.path.join(CACHE, "spec")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    src = os.path.join(VERIF, "spec")
    for f in os.listdir(os.path.join(d, "src")):
        os.remove(os.path.join(d, "src", f))
    for f in os.listdir(os.path.join(src, "src")):
        shutil.copy(os.path.join(src, "src", f), os.path.join(d, "src", f))
    with open(os.path.join(src, "Cargo.toml.in")) as f, open(os.path.join(d, "Cargo.toml"), "w") as g:
        g.write(f.read().replace("@REPO@", REPO))
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    out = os.path.join(CACHE, "out_spec")
    _dump(d, ["spec"], os.path.join(CACHE, "tgt_spec"), out, ["--lib"])
    return out


def spec(reuse=False):
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(CACHE, "out_spec")
        if not (reuse and os.path.exists(os.path.join(out, "spec.release.json"))):
            dump_spec()
        return out


def all(reuse=False):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        m = dump_models()
        out = os.path.join(CACHE, "out")
        if not (reuse and os.path.exists(os.path.join(out, "rowan.release.json"))):
            dump_repo()
        return out, m


if __name__ == "__main__":
    t = time.time()
    print(all(), round(time.time() - t, 1), "s")
