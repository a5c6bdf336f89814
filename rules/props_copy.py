"""C33: a copy for update, or of a subtree, is the same tree."""
from cur import *
from intrinsics import fresh
from props_place import cursor_engine

CFU, CS = f"<{NODE}>::clone_for_update", f"<{NODE}>::clone_subtree"


def copies(rep, P, name, mut):
    C = Cur(P)
    b = P.body(name)
    if b is None:
        raise Missing(name)

    def atom(e, st, c):
        v = e.load(st, c.args[0])
        r = fresh("copy", v)
        st.event("copy", r, v)
        return r

    e = cursor_engine(P, mut, drops=True, atoms={CFU: atom})
    me_h = mk("param", "self")
    outs = e.analyse(b, [me_h])
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = f"{where(b)} mutable={mut}"
    up = name == CFU
    me = mk("ini", C.fld(e, e.load(St(), me_h), 0, NODE))
    for o in outs:
        if o.kind == "panic":
            if up and mut:
                rep.ok("editable", w)
            else:
                rep.unk("content", w, f"may panic: {o.why}")
            continue
        if o.kind != "ret":
            continue
        if up and mut:
            rep.bad("editable", w, "an element of an editable tree is copied for update")
            continue
        st = o.st
        p = C.fld(e, o.val, 0, NODE)
        if p.op != "addr" or not any(ev[0] == "alloc" and ev[1] is p for ev in st.events()):
            if any(x.op == "ap!" and x.a[0] == "init" or "init!" in repr(x)[:8] for x in subterms(p)):
                continue  # the copy already had a live element at that place
            if thin(p) is thin(C.fld(e, e.load(St(), me_h), 0, NODE)):
                if not up and mut == 0 and C.opt(st, C.fld(e, me, C.parent)) is None:
                    rep.ok("content", w)  # an immutable root is as good as its copy
                else:
                    rep.bad("content", w, "returns the element itself, not a copy")
                continue
            rep.unk("content", w, f"copy {p!r:.80} not recognised")
            continue
        c = C.content(e, st, p)
        get = lambda i: C.fld(e, c, i)
        root = C.opt(st, C.fld(e, me, C.parent)) is None
        g, want = get(C.green), C.fld(e, me, C.green)
        gp = lambda x: C.vfld(e, x, C.gnode, 0, GREEN)
        if g is want or g.op == "agg" and g.a[1] == C.gnode and thin(gp(g)) is thin(gp(want)):
            rep.ok("content", w)
        elif g.op == "agg" and g.a[1] != C.gnode:
            rep.bad("content", w, "the copy of a node is a token")
        elif g.op == "agg" and interpreted(gp(g)) and not fresh_data(st, gp(g)):
            rep.bad("content", w, f"the copy's green data is {gp(g)!r:.80}, not that of the element")
        else:
            rep.unk("content", w, f"green data of the copy not recognised: {g!r:.80}")
        par = C.opt(st, get(C.parent))
        off, idx = get(C.offset), get(C.index)
        if not up or root:
            m = get(C.mut)
            if m.op == "i":
                rep.check(m.a[0] == int(up), "editable", w, "the copy for update is not editable" if up else "the copy of a subtree is editable")
            if par is None:
                rep.ok("place", w)
            elif par is False:
                rep.unk("place", w, "parent of the copy not recognised")
            else:
                rep.bad("place", w, "the copy of a root has a parent" if up else "the copy of a subtree has a parent")
            if off is ZERO:
                rep.ok("place", w)
            elif interpreted(off):
                rep.bad("place", w, f"the copy is a root, but begins at {off!r:.60}")
            else:
                rep.unk("place", w, f"offset {off!r:.60} not recognised")
            continue
        mine = C.opt(st, C.fld(e, me, C.parent))
        cs = [ev for ev in st.events() if ev[0] == "copy"]
        if par is None:
            rep.bad("place", w, "the copy of an element with a parent has none")
            continue
        if par is False or mine is False:
            rep.unk("place", w, "parent of the copy not recognised")
            continue
        ok = [ev for ev in cs if thin(C.fld(e, ev[1], 0, NODE)) is thin(par)]
        if ok and mine is not None and thin(C.fld(e, ok[0][2], 0, NODE)) is thin(mine):
            rep.ok("place", w)
        elif ok and interpreted(ok[0][2]):
            rep.bad("place", w, "the copy's parent is a copy of something else than the parent")
        elif mine is not None and thin(par) is thin(mine):
            rep.bad("place", w, "the copy hangs below the original's parent")
        else:
            rep.unk("place", w, f"parent {par!r:.80} of the copy not recognised")
        for n, x, y in (("index", idx, C.fld(e, me, C.index)), ("offset", off, C.fld(e, me, C.offset))):
            if x is y:
                rep.ok("place", w)
            else:
                rep.put(BAD if interpreted(x) else UNK, "place", w, f"the copy's {n} is {x!r:.80}, expected {y!r:.60}")


def fresh_data(st, p):
    return any(x.op in ("at", "ap!", "phi") or repr(x).startswith("H") for x in subterms(p))


def run(rep):
    P = prog()
    for name in (CFU, CS):
        for mut in (0, 1):
            try:
                copies(rep, P, name, mut)
            except Missing as x:
                rep.unk("anchor", str(x), "anchor not found")


CHECKS = {
    "C33": dict(run=run, technique="rules over the memory of every path: what the element returned by a copying function refers to",
                explanation="clone_for_update and clone_subtree are interpreted on all paths, for immutable and editable trees. The element returned must have the green data of the element copied; for an update it must have the same index and offset and "
                "hang below the copy of its parent (by induction the way to the root is copied), or be a root like the original; the copy of a subtree is a root which begins at 0. Copying an editable tree for update must panic.",
                rules={"content": "the copy refers to the same green data", "place": "the copy stands where the original does (for update), or is a root (subtree)", "editable": "an element of an editable tree is not copied for update"},
                note="That editing a copy leaves the original alone is C03 with C12; that the copy is editable is C10; that the typed functions delegate is C15 and C24.",
                assumptions=["an element found again in the list of live elements has the place it was looked up by (C13)"]),
}

if __name__ == "__main__":
    import collections

    rep = Rep()
    run(rep)
    for x in rep.es:
        if x.st != OK:
            print(x.st, x.rule, x.where[-60:], str(x.msg)[:200])
    print(collections.Counter((x.st, x.rule) for x in rep.es))
