"""run.py ID [...]: decide properties on the current tree of /repo"""
import importlib, os, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
MODULES = {
    "C01": "props_arc", "C03": "props_arc", "C21": "props_arc", "C02": "props_types", "C22": "props_types",
    "C07": "props_place", "C08": "props_nav", "C15": "props_typed", "C16": "props_spec", "C17": "props_spec", "C18": "props_spec",
    "C19": "props_spec", "C23": "props_spec", "C24": "props_spec", "C25": "props_spec", "C28": "props_spec", "C06": "props_spec", "C05": "props_cache", "C04": "props_spec", "C14": "props_eq", "C20": "props_spec", "C10": "props_mut", "C11": "props_mut", "C09": "props_mem", "C13": "props_sll", "C12": "props_edit", "C26": "props_cfg", "C27": "props_xtask", "C29": "props_user", "C30": "props_text", "C31": "props_deep", "C33": "props_copy",
}


def check(pid):
    import base
    import build

    t0 = time.time()
    try:
        base.prog("release")
        m = importlib.import_module(MODULES[pid])
        meta = m.CHECKS[pid]
        rep = base.Rep()
        try:
            meta["run"](rep)
        except (build.BuildError, base.Missing):
            raise
        except Exception as x:
            if os.environ.get("RULE_DEBUG"):
                raise
            rep.unk("rule", pid, f"rule failed: {x!r:.200}")
    except build.BuildError as x:
        print(f"{pid}: cannot analyse: {x}")
        return 2
    except base.Missing as x:
        rep.unk("anchor", str(x), "anchor not found")
    return base.finish(pid, rep, t0, meta)


if __name__ == "__main__":
    rc = 0
    ids = sys.argv[1:] or sorted(MODULES)
    for pid in ids:
        if len(ids) == 1:
            rc = check(pid)
            continue
        sys.stdout.flush()
        child = os.fork()
        if not child:
            rc = check(pid)
            sys.stdout.flush()
            os._exit(rc)
        rc = max(rc, os.waitstatus_to_exitcode(os.waitpid(child, 0)[1]))
    sys.exit(rc)
