#!/usr/bin/env python3
"""catches.py [BUG…]: run the check of each planted bug's property on a patched scratch copy and
record which rule reported it (tools/catches.json; read by mkdesign.py)"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, "tools", "catches.json")


def one(b):
    meta = json.load(open(f"{V}/seeded/{b}/meta.json"))
    d = tempfile.mkdtemp(prefix="catch", dir="/tmp")
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("target"))
        if subprocess.run(["git", "apply", f"{V}/seeded/{b}/patch.diff"], cwd=d + "/repo").returncode:
            return b, dict(property=meta["property"], caught=False, rule="patch does not apply")
        env = {k: v for k, v in os.environ.items() if k not in ("ROWAN_REUSE", "ROWAN_REUSE_SPEC")}
        env.update(ROWAN_REPO=d + "/repo", ROWAN_CACHE=d + "/cache")
        p = subprocess.run([V + "/check", meta["property"]], env=env, capture_output=True, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        w = [l for l in p.stdout.splitlines() if l.startswith("  ") or ":" in l][:3]
        return b, dict(property=meta["property"], caught=p.returncode == 1 and bool(v), lines=[x[:300] for x in w if not x.startswith("VIOLATION")])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    res = json.load(open(OUT)) if os.path.exists(OUT) and sys.argv[1:] else {}
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for b, r in ex.map(one, ids):
            res[b] = r
            print(b, r["caught"], str(r.get("lines"))[:200], flush=True)
    json.dump(res, open(OUT, "w"), indent=1, sort_keys=True)
