#!/usr/bin/env python3
"""plant.py [ID...]: (re)creates /verif/seeded/<id>/ from tools/bugs.py and confirms each change
in a scratch copy: applies, is formatted, passes the stable tests, demo 0 before and nonzero after."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from bugs import BUGS

DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change (run in the repository's root)
exec python3 - "$(cd "$(dirname "$0")" && pwd)/demo.rs" "$(pwd)" <<'P'
import os, shutil, subprocess, sys, tempfile
src, repo = sys.argv[1:]
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + "/src")
    shutil.copy(src, d + "/src/main.rs")
    for l in (repo + "/Cargo.lock", "/opt/vp/Cargo.lock"):
        if os.path.exists(l):
            shutil.copy(l, d + "/Cargo.lock")
            break
    with open(d + "/Cargo.toml", "w") as f:
        f.write(f"""[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rowan = {{ path = "{repo}", features = ["serde1"] }}
serde = "*"
[profile.dev]
debug = 0
[workspace]
""")
    e = dict(os.environ, CARGO_TARGET_DIR=d + "/target")
    if subprocess.run(["cargo", "build", "-q", "--offline"@REL@], cwd=d, env=e, timeout=250).returncode:
        sys.exit(3)
    r = subprocess.run([d + "/target/@PROF@/demo"], cwd=d, timeout=120).returncode
    sys.exit(0 if r == 0 else 1)
P
'''
DEMO_FAIL_BUILD = None


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def make(bug, work):
    d = os.path.join(V, "seeded", bug["id"])
    sh(["git", "checkout", "-q", "--", "."], work)
    for f, old, new in bug["edits"]:
        p = os.path.join(work, f)
        s = open(p).read()
        if s.count(old) != 1:
            return f"{f}: text occurs {s.count(old)} times: {old[:60]!r}"
        with open(p, "w") as g:
            g.write(s.replace(old, new))
    r = sh(["cargo", "fmt", "--", "--check"], work)
    if r.returncode:
        sh(["cargo", "fmt"], work)
    diff = sh(["git", "diff"], work).stdout
    tgt = {"CARGO_TARGET_DIR": os.path.join(work, "target")}
    r = sh(["cargo", "test", "--workspace", "--all-features", "--lib", "--bins", "--tests", "--examples", "--no-fail-fast", "--offline"], work, tgt)
    r2 = sh(["cargo", "test", "--workspace", "--all-features", "--doc", "--offline"], work, tgt)
    if r.returncode or r2.returncode:
        return "tests fail or it does not build: " + (r.stdout + r2.stdout)[-1500:]
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(diff)
    rel = bug.get("release")
    demo = bug.get("demo_sh") or DEMO.replace("@REL@", ', "--release"' if rel else "").replace("@PROF@", "release" if rel else "debug")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(demo)
    if bug.get("demo"):
        with open(os.path.join(d, "demo.rs"), "w") as f:
            f.write(bug["demo"])
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
    bad = sh(["bash", os.path.join(d, "demo.sh")], work)
    sh(["git", "checkout", "-q", "--", "."], work)
    good = sh(["bash", os.path.join(d, "demo.sh")], work)
    if good.returncode:
        return "demo fails on the unchanged tree: " + good.stdout[-1500:]
    if bad.returncode != 1:
        return f"demo with the change exits {bad.returncode}: " + bad.stdout[-1500:]
    return None


if __name__ == "__main__":
    ids = sys.argv[1:]
    work = tempfile.mkdtemp(prefix="plant")
    shutil.rmtree(work)
    shutil.copytree("/repo", work, symlinks=True)
    try:
        for b in BUGS:
            if ids and b["id"] not in ids or not ids and os.path.exists(os.path.join(V, "seeded", b["id"], "meta.json")):
                continue
            m = make(b, work)
            print(b["id"], "ok" if m is None else "FAILED " + m, flush=True)
            if m is not None:
                shutil.rmtree(os.path.join(V, "seeded", b["id"]), ignore_errors=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
