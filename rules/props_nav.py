"""C08: a navigation step returns the nearest element of the requested sort."""
from cur import *

N, T_, E_ = "<rowan::cursor::SyntaxNode>::", "<rowan::cursor::SyntaxToken>::", "<rowan::utility_types::NodeOrToken>::"
# name -> (origin, direction, only nodes, has predicate)
STEPS = {}
for o, d in (("first", 1), ("last", -1)):
    STEPS[N + o + "_child"] = (o, d, True, False)
    STEPS[N + o + "_child_or_token"] = (o, d, False, False)
STEPS[N + "first_child_by_kind"] = ("first", 1, True, True)
STEPS[N + "first_child_or_token_by_kind"] = ("first", 1, False, True)
STEPS[N + "next_sibling"] = ("self", 1, True, False)
STEPS[N + "prev_sibling"] = ("self", -1, True, False)
STEPS[N + "next_sibling_by_kind"] = ("self", 1, True, True)
STEPS[N + "to_next_sibling"] = ("self", 1, True, False)
for X in (N, T_, E_):
    STEPS[X + "next_sibling_or_token"] = ("self", 1, False, False)
    STEPS[X + "prev_sibling_or_token"] = ("self", -1, False, False)
    STEPS[X + "next_sibling_or_token_by_kind"] = ("self", 1, False, True)
STEPS[E_ + "to_next_sibling_or_token"] = ("self", 1, False, False)


def handle_ptr(C, e, st, v, t):
    """the pointer inside a handle value of type t (a node, token or element, or a reference to one)"""
    while t and t[0] == "ref":
        r, p, _ = target(v)
        v, t = e.read(st, r, p), t[2]
    if t[0] != "adt":
        return None
    if t[1] in (NODE, TOKEN):
        return C.fld(e, v, 0, t[1])
    if t[1] == NOT:
        var = v.a[1] if v.op == "agg" else st.facts.value(mk("discr", v, 1))
        if var is None:
            return None
        inner = C.vfld(e, v, var, 0, NOT)
        return C.fld(e, inner, 0, (NODE, TOKEN)[var])
    return None


def describe(C, e, st, p):
    """content of the element p points to"""
    sub_ = subterms(p)
    for ev in sll_inits(st):
        if ev[4] in sub_:
            return ev[3][1]
    return C.content(e, st, p)


def entries(C, e, b, args):
    """entry states: what holds for every element (its index is one of its parent's children)"""
    t = b.sig_in[0]
    while t[0] == "ref":
        t = t[2]
    sts = [St()]
    if t[1] == NOT:
        v = args[0]
        if b.sig_in[0][0] == "ref":
            v = e.load(sts[0], v)
        sts = [s for s in (St().assume(eqi(e.discr(sts[0], v, NOT), Int(k))) for k in (0, 1))]
    r = []
    for s in sts:
        p = handle_ptr(C, e, s, args[0], b.sig_in[0])
        if p is None:
            return [St()]
        par = C.fld(e, mk("ini", p), C.parent)
        d = mk("discr", par, 1)
        r.append(s.assume(eqi(d, ZERO)))
        s1 = s.assume(eqi(d, ONE))
        pp = C.opt(s1, par)
        arr, n, gp = C.children(e, St(), pp)
        r.append(s1.assume(lt(C.fld(e, mk("ini", p), C.index), n)))
    return [x for x in r if x is not None]


def same_arr(C, e, st, pp, el):
    arr, n, gp = C.children(e, st, pp)
    return el.op == "elem" and el.a[0] is arr


def kinds_of(C, e, st, el):
    """the term for the kind of child element el, per variant"""
    r = {}
    H = "rowan::green::node::GreenNodeHead"
    HT = "rowan::green::token::GreenTokenHead"
    for var, h in ((C.cnode, H), (C.ctok, HT)):
        gp = C.payload(e, st, el, var)
        hd = C.header(e, st, gp)
        r[var] = C.fld(e, hd, field(C.P, h, "kind"), h)
    return r


def rejections(C, e, st, pp, only_nodes, matcher):
    """{index: why} of children of pp this state's facts and events show not to match,
    {index} shown to match, and predicate calls with something else than a kind"""
    arr, n, gp = C.children(e, st, pp)
    rej, acc, nodes = {}, set(), set()
    for x, val in st.facts.log:
        d = None
        if x.op == "eq0":
            for y in (x.a[0],) + tuple(t for t, _ in lin_of(x.a[0])[1]):
                if y.op == "discr" and y.a[0].op == "elem" and y.a[0].a[0] is arr:
                    d = y
        if d is None:
            continue
        i = d.a[0].a[1]
        k = st.facts.value(d)
        if k is None:
            continue
        if only_nodes and k != C.cnode:
            rej[i] = "token"
        nodes.add(i) if k == C.cnode else None
    odd = []
    acc = {}
    for ev in st.events():
        if ev[0] != "user":
            continue
        a = ev[2]
        if len(a) == 1 and a[0].op == "agg" and a[0].a[0] == "(tuple)" and len(a[0].a[2]) == 1:
            a = a[0].a[2]
        if len(a) != 1:
            odd.append(ev)
            continue
        k = strip1(a[0])
        E = find_elem(k)
        if E is None or E.op != "elem" or E.a[0] is not arr:
            odd.append(ev)
            continue
        ks = kinds_of(C, e, st, E)
        var = st.facts.value(mk("discr", E, 1))
        ok = [v for v, t in ks.items() if strip1(t) is k]
        if not ok or var is not None and var not in ok:
            odd.append(ev)
            continue
        t = st.facts.decide(ev[3]) if ev[3].op != "agg" else None
        if t is False:
            rej[E.a[1]] = "predicate"
        elif t is True:
            acc[E.a[1]] = True
    return rej, acc, nodes, odd


def strip1(t):
    while t.op == "agg" and len(t.a[2]) == 1:
        t = t.a[2][0]
    if t.op == "fld" and t.a[4] == 1 and t.a[3].endswith("SyntaxKind"):
        t = t.a[0]
    return t


def intervals(C, e, st, pp, only_nodes, matcher):
    """[(first, beyond, direction)]: children shown not to match by the loops on this path"""
    r = []
    for ev in st.events():
        if ev[0] != "loop":
            continue
        L = ev[1]
        if not L.backs:
            continue
        rejs = [rejections(C, e, b, pp, only_nodes, matcher)[0] for b in L.backs]
        for region, path, ph, init, nexts in L.phis:
            if ph.op not in ("phi", "lin"):
                continue
            ds = set()
            for nx in nexts:
                d = sub(nx, ph) if nx.op not in ("agg", "undef", "addr") else None
                ds.add(d.a[0] if d is not None and d.op == "i" else None)
            if len(ds) != 1:
                continue
            (d,) = ds
            if d not in (1, -1):
                continue
            cs = None
            for rj in rejs:
                c = set()
                for i in rj:
                    x = sub(i, ph)
                    if x.op == "i":
                        c.add(x.a[0])
                cs = c if cs is None else cs & c
            for c in cs or ():
                r.append((add(init, Int(c)), add(ph, Int(c)), d))
    return r


def c08_step(rep, b, mut, spec):
    P = prog()
    C = Cur(P)
    origin, dr, only_nodes, pred = spec
    e = cursor_engine(P, mut, drops=True)
    args = [mk("param", b.locals[i + 1].get("n") or f"arg{i}") for i in range(b.argc)]
    outs = []
    for s in entries(C, e, b, args):
        outs += e.analyse(b, args, st=s)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = f"{where(b)} mutable={mut}"
    nret = 0
    for o in outs:
        if o.kind != "ret":
            if o.kind == "panic":
                log = o.st.facts.log
                # the last thing tested is that others hold the element, too
                x, v = log[-1] if log else (TRUE, True)
                l = lin_of(x.a[0]) if x.op == "eq0" else None
                shared = v is False and l is not None and l[0] == -1 and len(l[1]) == 1 and l[1][0][1] == 1 and l[1][0][0].op == "fld" and l[1][0][0].a[2] == C.rc
                rep.put(BAD if shared and not mut and all(interpreted(x) for x, _ in log) else UNK, "step", w, f"{'fails if somebody else holds the element, too' if shared else 'may panic'}: {o.why}")
            continue
        st = o.st
        sp = handle_ptr(C, e, ST0, args[0], b.sig_in[0]) if b.sig_in[0][0] != "adt" or b.sig_in[0][1] != NOT else handle_ptr(C, e, with_facts(st), args[0], b.sig_in[0])
        if sp is None:
            sp = handle_ptr(C, e, with_facts(st), args[0], b.sig_in[0])
        if sp is None:
            rep.unk("step", w, "element navigated from not recognised")
            continue
        ini = mk("ini", sp)
        if origin == "self":
            ov = C.fld(e, ini, C.parent)
            pp = C.opt(st, ov)
            if pp is None:
                if o.val.op == "agg" and o.val.a[1] == 1:
                    rep.bad("step", w, "an element without parent has no siblings, but one is returned")
                else:
                    rep.ok("step", w)
                continue
            if pp is False:
                if o.val is NONE:
                    rep.bad("step", w, "returns nothing without looking whether there is a parent")
                else:
                    rep.unk("step", w, "parent not known")
                continue
            start = add(C.fld(e, ini, C.index), Int(dr))
        else:
            pp = sp
        # parents are nodes
        g = C.fld(e, mk("ini", pp), C.green)
        if st.facts.value(mk("discr", g, 1)) == C.gtok:
            continue
        # tree content as it was at the start
        arr, n, gp = C.children(e, ST0, pp)
        if origin == "first":
            start = ZERO
        elif origin == "last":
            start = sub(n, ONE)
        nret += 1
        c08_path(rep, C, e, o, w, pp, n, start, dr, only_nodes, pred, b.sig_out)
    if nret == 0:
        rep.unk("step", w, "no path reaches the siblings")


ST0 = St()


def with_facts(st):
    s = St()
    s.facts = st.facts
    return s


def has_phi(t):
    return any(x.op == "phi" for x in subterms(t))


def c08_path(rep, C, e, o, w, pp, n, start, dr, only_nodes, pred, rty):
    st = o.st
    s0 = with_facts(st)
    s0.ev = st.ev
    rej, acc, nodes, odd = rejections(C, e, s0, pp, only_nodes, None)
    other = False  # candidates that are not looked at in the parent's content
    for ev in odd:
        sure = interpreted(ev[2][0]) and not has_phi(ev[2][0])
        other = other or not sure
        rep.put(BAD if sure else UNK, "predicate", w, f"the predicate is asked about {ev[2]!r:.160}, not the kind of a candidate")
    for ev in st.events():
        if ev[0] == "user" and pred:
            rep.ok("predicate", w)
    iv = intervals(C, e, s0, pp, only_nodes, None)
    res = None
    if o.val.op != "agg" or o.val.a[0] != OPTION:
        rep.unk("step", w, f"result {o.val!r:.100} not recognised")
        return
    if o.val.a[1] == 1:
        h = o.val.a[2][0]
        rt = rty[2][0] if rty and rty[0] == "adt" and rty[1] == OPTION else None
        p = handle_ptr(C, e, st, h, rt) if rt else None
        if p is None:
            rep.unk("step", w, f"result {o.val!r:.100} not recognised")
            return
        if rt[1] == NOT:
            isnode = (h.a[1] if h.op == "agg" else st.facts.value(mk("discr", h, 1))) == 0
        else:
            isnode = rt[1] == NODE
        v = describe(C, e, st, p)
        par = C.opt(st, C.fld(e, v, C.parent))
        if par is None or par is False:
            rep.unk("step", w, "parent of the result not known")
            return
        if par is not pp:
            rep.put(BAD if interpreted(par, ("null",)) and not has_phi(par) else UNK, "step", w, f"result is a child of {par!r:.80}, expected of {pp!r:.80}")
            return
        res = C.fld(e, v, C.index)
        el, _ = C.child(e, ST0, pp, res)
        k = st.facts.value(mk("discr", el, 1))
        if k is not None and isnode is not None and (k == C.cnode) != isnode:
            rep.bad("step", w, "a token is returned as node or a node as token")
            return
        if only_nodes and k == C.ctok:
            rep.bad("step", w, "returns a token")
            return
        if only_nodes and k is None:
            rep.unk("step", w, "sort of the returned element not known")
            return
        if pred and res not in acc:
            if res in rej:
                rep.bad("step", w, "returns an element the predicate rejected")
            elif other:
                rep.unk("step", w, "returns an element that was perhaps not asked about")
            elif res not in acc:
                rep.bad("step", w, "returns an element the predicate was not asked about")
            return
    cur = start
    used = True
    steps = 0
    while used and steps < 50:
        steps += 1
        used = False
        if res is not None and (cur is res or st.facts.equal(cur, res)):
            break
        for lo, hi, d in iv:
            if d == dr and lo is cur and hi is not cur:
                cur, used = hi, True
                break
        if used:
            continue
        if cur in rej:
            cur, used = add(cur, Int(dr)), True
    if res is not None:
        if cur is res or st.facts.equal(cur, res):
            rep.ok("step", w)
            return
        ends = [hi for lo, hi, d in iv]
        # where does the chain of examined elements that ends at the result begin?
        s = res
        seen = True
        k = 0
        while seen and k < 50:
            seen = False
            k += 1
            for lo, hi, d in iv:
                if d == dr and hi is s and lo is not s:
                    s, seen = lo, True
                    break
            if not seen:
                q = sub(s, Int(dr))
                if q in rej:
                    s, seen = q, True
        d = sub(s, cur)
        if d.op == "i" and d.a[0] != 0 or interpreted(d) and not any(x.op == "phi" for x in subterms(d)) and st.facts.equal(s, cur) is not True:
            rep.bad("step", w, f"the search begins at {s!r:.100}, expected {cur!r:.100}")
        else:
            rep.unk("step", w, f"elements between {cur!r:.100} and the result {res!r:.100} not accounted for")
        return
    # nothing returned: exhausted?
    beyond = st.facts.decide(le(n, cur)) if dr > 0 else st.facts.decide(le(add(cur, ONE), ZERO))
    if beyond:
        rep.ok("step", w)
    elif not other and all(interpreted(p) or p.op == "ap!" and p.a[0] == "user" for p, _ in st.facts.log):
        rep.bad("step", w, f"returns nothing although candidate {cur!r:.120} may exist and match")
    else:
        rep.unk("step", w, f"returns nothing; candidate {cur!r:.120}")


def c08(rep):
    P = prog()
    items = []
    for name, spec in STEPS.items():
        bs = P.by_name.get(name, [])
        if not bs:
            rep.unk("step", name, "function not found")
        for b in bs:
            if b.sig_out and (b.key.startswith("rowan::cursor")):
                # lookups by kind in editable trees walk over handles: compared with their specification (c08m_)
                items += [(b, m, spec) for m in ((0,) if spec[3] else (0, 1))]
    pmap(rep, _c08, items)


def _c08(rep, it):
    c08_step(rep, *it)


def run(rep):
    import props_spec

    c08(rep)
    props_spec.pairs("c08_", "c08m_")(rep)


CHECKS = {
    "C08": dict(
        run=run,
        technique="value provenance over MIR with loop summaries: the set of candidates examined before the result; comparison with specification functions for composed steps",
        explanation="For each navigation step the MIR is interpreted abstractly on all paths (loops by fixpoint over their loop variables). "
        "For each path the index range of siblings shown not to match (by their variant or by the caller's predicate) is computed from "
        "the loop summaries and path conditions, and has to connect the starting position gaplessly with the returned element, or with the end of the "
        "list if nothing is returned. Composed steps (first/last/next/previous token, ancestors, siblings) are compared path by path with a specification "
        "function written in terms of the simple steps: same conditions, same calls, same result, same loop recurrences.",
        rules={"step": "every candidate between the starting point and the result is shown not to match and the result matches",
               "predicate": "the predicate is asked about the kind of a candidate child", "same-as-spec": "the function agrees with its specification on every path"},
        assumptions=["an element's index is a valid position among its parent's children (C07, C12)"],
        note="All paths of all navigation steps, for both immutable and editable trees; undecided paths are listed in the evidence and raise no alarm.",
    ),
}

if __name__ == "__main__":
    import collections

    rep = Rep()
    t = time.time()
    c08(rep)
    print(collections.Counter((e.st, e.rule) for e in rep.es), time.time() - t)
    for k, n in collections.Counter((e.st, e.rule, e.where, e.msg) for e in rep.es if e.st != OK).items():
        print(n, *[str(x)[:300] for x in k])
