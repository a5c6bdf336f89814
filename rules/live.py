"""Which locals of a MIR body are used later (backward dataflow)."""


def locals_in(x, out):
    if isinstance(x, dict):
        if isinstance(x.get("l"), int):
            out.add(x["l"])
        for v in x.values():
            locals_in(v, out)
    elif isinstance(x, list):
        for v in x:
            locals_in(v, out)
    return out


def rw(s):
    """(read, overwritten) by a statement or terminator"""
    k = s["k"]
    if k == "dead":
        return set(), {s["l"]}
    if k in ("=", "call"):
        p = s["p" if k == "=" else "d"]
        r = locals_in({n: v for n, v in s.items() if n != ("p" if k == "=" else "d")}, set())
        if p.get("p"):
            return locals_in(p, r), set()
        return r, {p["l"]}
    if k == "ret":
        return {0}, set()
    return locals_in(s, set()), set()


def succs(t):
    out = [t.get("t"), t.get("u"), t.get("else")] + [a[1] for a in t.get("arms") or ()]
    return [x for x in out if isinstance(x, int)]


def live_in(b, real_drop):
    """per block the locals that are used from its start on; real_drop(local): does dropping it run code"""
    if getattr(b, "_live", None) is None:
        b._live = {}
    key = frozenset(l for l in range(len(b.locals)) if real_drop(l))
    if key in b._live:
        return b._live[key]
    live = [set() for _ in b.blocks]
    todo = True
    while todo:
        todo = False
        for i in range(len(b.blocks) - 1, -1, -1):
            blk = b.blocks[i]
            t = blk["t"]
            cur = set()
            for n in succs(t):
                cur |= live[n]
            for s in [t] + blk["s"][::-1]:
                r, w = rw(s)
                if s["k"] == "drop":
                    r = {l for l in r if l in key}
                cur = (cur - w) | r
            if cur != live[i]:
                live[i] = cur
                todo = True
    b._live[key] = live
    return live
