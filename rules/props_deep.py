"""C31: the deepest element is found.

Descending from a node always to the child that contains the range, until there is none, ends at the smallest element that contains it
if no level misses a child that does. So: the lookup in one level misses none (props_green), asks for the right range (here), and the
descents go on as long as there is a child (compared with their specifications)."""
from cur import *
from intrinsics import fresh
import build
import equiv
import props_green
from equiv import NONE
from props_place import good_sums, cursor_engine
from props_spec import pairs

AT = "<rowan::green::node::GreenNodeData>::child_at_range"
FN = f"<{NODE}>::child_or_token_at_range"
TR = "models::TextRange"


def lookup(rep, mut):
    P = prog()
    C = Cur(P)
    b = P.body(FN)
    if b is None or P.body(AT) is None:
        raise Missing(FN)

    def atom(e, st, c):
        r = fresh("child-at", *c.args)
        st.event("child-at", r, c.args)
        return r

    e = cursor_engine(P, mut, drops=True, atoms={AT: atom})
    args = [mk("param", "self"), mk("param", "range")]
    outs = e.analyse(b, args)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = f"{where(b)} mutable={mut}"
    ptr = C.fld(e, e.load(St(), args[0]), 0, NODE)
    me = mk("ini", ptr)
    for o in outs:
        if o.kind != "ret":
            continue
        qs = [ev for ev in o.st.events() if ev[0] == "child-at"]
        if len(qs) != 1:
            rep.unk("lookup", w, f"{len(qs)} lookups among the children")
            continue
        g, r = qs[0][2]
        found = o.st.facts.value(mk("discr", qs[0][1], 1))
        none = o.val.op == "agg" and o.val.a[1] == 0
        if found == 1 and none:
            known = all(x.op in ("eq0", "discr", "le") for x, _ in o.st.facts.log)
            rep.put(BAD if known else UNK, "lookup", w, "a child that was found is not returned")
            continue
        root = C.opt(o.st, C.fld(e, me, C.parent)) is None
        lo, hi = (e.project(r, ("f", i, TR, 2)) for i in (0, 1))
        a, z = (e.project(args[1], ("f", i, TR, 2)) for i in (0, 1))
        d, d2 = sub(a, lo), sub(z, hi)
        starts = {C.fld(e, me, C.offset)} if mut == 0 else set(good_sums(C, e, o, ptr))
        if root:
            starts.add(ZERO)
        if d in starts and d2 is d:
            rep.ok("lookup", w)
        elif d is not d2 and interpreted(d) and interpreted(d2) and not any(x.op == "phi" for t in (d, d2) for x in subterms(t)):
            rep.bad("lookup", w, f"looks for a range moved by {d!r:.80} at its start and by {d2!r:.80} at its end")
        elif d is d2 and not root and (d is ZERO or d is C.fld(e, me, C.offset) or mut == 0 and interpreted(d) and not any(x.op == "phi" for x in subterms(d))):
            rep.bad("lookup", w, f"the range is looked for relative to {d!r:.80}, expected the start of the node")
        else:
            rep.unk("lookup", w, f"range looked for not recognised: {d!r:.80}")


RESOLVE = "<rowan::ast::SyntaxNodePtr>::try_to_node"


def named(t, n):
    return t.op == "ap" and str(t.a[0]).rsplit("::", 1)[-1] == n


def about(log):
    """{node: {"is": [answers of the comparisons with what is recorded], "child": is there a child node, "odd": something else was asked}}"""
    r = {}
    for x, v in log:
        nodes = {y.a[1][0] for y in subterms(x) if y.op == "ap" and isinstance(y.a[1], tuple) and str(y.a[0]).rsplit("::", 1)[-1] in ("text_range", "kind", "child_or_token_at_range") and len(y.a[1]) and isinstance(y.a[1][0], T)}
        nodes = {n for n in nodes if not any(n is not m and n in subterms(m) for m in nodes)}
        for n in nodes:
            d = r.setdefault(n, {"is": [], "child": None, "odd": False})
            asked = [y for y in subterms(x) if named(y, "child_or_token_at_range") and y.a[1][0] is n]
            if asked:
                if x.op == "eq0" and x.a[0].op == "discr" and x.a[0].a[0] is asked[0]:
                    d["child"] = not v if d["child"] is not False else False
                elif x.op == "eq0" and x.a[0].op == "discr":
                    d["child"] = False if not v else d["child"]
                else:
                    d["odd"] = True
            elif x.op in ("eq0", "beq") and any(y.op == "param" and y.a[0] == "ptr" for y in subterms(x)):
                d["is"].append(v)
            else:
                d["odd"] = True
    return r


def resolve(rep):
    """a pointer's node is not passed over: the descent leaves a node only after it was found not to be the one"""
    P = equiv.spec_prog()
    equiv.PROG = P
    b = P.body(RESOLVE)
    if b is None:
        raise Missing(RESOLVE)
    ptr, root = mk("param", "ptr"), mk("param", "root")
    e = equiv.engine_for(P, b)
    outs = e.analyse(b, [ptr, root])
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = where(b)
    for L in all_loops(outs):
        for i, bk in enumerate(L.backs):
            if bk.facts is None:
                continue
            ab = about(bk.facts.log)
            for x in L.phis:
                nx = x[4][i]
                for y in {y for y in subterms(nx) if named(y, "child_or_token_at_range")} if nx is not UNDEF else ():
                    d = ab.get(y.a[1][0], {"is": [], "child": None, "odd": False})
                    if False in d["is"]:
                        rep.ok("passed-over", w)
                    else:
                        rep.put(UNK if d["odd"] else BAD, "passed-over", w, "goes on below a node that may be the one recorded")
    for o in outs:
        if o.kind != "ret" or o.val.op != "agg" or o.val.a[1] != 0:
            continue
        log = o.st.facts.log
        ab = about(log)
        up = [v for x, v in log if x.op == "eq0" and any(named(y, "parent") for y in subterms(x))]
        if up and up[-1] is False:
            rep.ok("given-up", w)
        elif any(x.op == "eq0" and x.a[0].op == "discr" and x.a[0].a[0].op == "phi" and v for x, v in log):
            rep.ok("given-up", w)  # all nodes on the way have been looked at
        elif not ab:
            rep.unk("given-up", w, "gives up without a test that is recognised")
        else:
            for n, d in ab.items():
                if d["odd"]:
                    rep.unk("given-up", w, f"tests of {n!r:.60} not recognised")
                elif False not in d["is"]:
                    rep.bad("given-up", w, "gives up at a node that may be the one recorded")
                elif d["child"] is False:
                    rep.ok("given-up", w)
                else:
                    rep.bad("given-up", w, "gives up although there may be a node below that contains the range recorded")


def all_loops(outs):
    r, todo = {}, [o.st for o in outs]
    while todo:
        st = todo.pop()
        for ev in st.events():
            if ev[0] == "loop" and id(ev[1]) not in r:
                r[id(ev[1])] = ev[1]
                todo += list(ev[1].backs) + [ev[1].hst]
    return list(r.values())


def run(rep):
    for mut in (0, 1):
        try:
            lookup(rep, mut)
        except Missing as x:
            rep.unk("lookup", str(x), "anchor not found")
    for f in (props_green.child_place, resolve):
        try:
            f(rep)
        except (Missing, build.BuildError) as x:
            rep.unk("anchor", str(x)[:200], "anchor not found")
    pairs("c23_covering", "c19_new", "c19_try_to_node", "c19_to_node")(rep)


CHECKS = {
    "C31": dict(run=run, technique="dataflow over MIR: the search among the children is monotone and misses none, is asked for the right range, and the descents agree with their specifications step by step",
                explanation="A descent to the child containing a range ends at the smallest element containing it if every level finds such a child when there is one. That is decided in three parts: the binary search among the children (for "
                "arbitrary children lying one after the other, also empty ones) compares monotonically and reaches a child containing a range that is not empty; the range it is asked for is the one wanted relative to the node's start; "
                "covering_element and SyntaxNodePtr go on until there is no such child, comparing on every level (relational comparison with specification functions). By induction over the depth the deepest element is found, and a "
                "pointer's node, which is on the way, is not passed over.",
                rules={"lookup": "the children are asked for the range relative to the node's start, and what is found is returned", "search-order": "the comparison of the binary search is monotone over children that lie one after the other",
                       "child-found": "a child that contains a range which is not empty is not missed", "child-at-range": "the child returned contains the range", "passed-over": "resolving a pointer goes on below a node only after that was found to have another kind or range",
                       "given-up": "resolving gives up only where no node on the way is left", "same-as-spec": "the descents go on, stop and check as specified"},
                note="The induction over depth is by hand. A lookup which is no single binary search is left undecided. ",
                assumptions=["children lie one after the other (C04)", "binary_search_by as documented", "offsets noted in elements are right (C07)"]),
}

if __name__ == "__main__":
    import collections

    rep = Rep()
    run(rep)
    for x in rep.es:
        if x.st != OK:
            print(x.st, x.rule, x.where[-60:], str(x.msg)[:200])
    print(collections.Counter((x.st, x.rule) for x in rep.es))
