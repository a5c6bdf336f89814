"""Rules on the green layer."""
from equiv import *
import equiv

CHILDREN = "rowan::green::node::Children"
GCHILD = "rowan::green::node::GreenChild"
SI = "models::SliceIter"
IT, DE, EX = ("core::iter::traits::" + x for x in ("iterator::Iterator", "double_ended::DoubleEndedIterator", "exact_size::ExactSizeIterator"))


def green_children(rep):
    """the iterator over the children of a green node does what the iterator over its slice of children does, seen through GreenChild::as_ref"""
    P = spec_prog()
    equiv.PROG = P
    a = P.adts.get(CHILDREN)
    if a is None or [t[1] for n, t in a["fields"][0] if t[0] == "adt"] != [SI] or len(a["fields"][0]) != 1:
        rep.unk("green-children", CHILDREN, "not a wrapper of a slice iterator")
        return
    conv = P.body(f"<{GCHILD}>::as_ref")
    if conv is None:
        raise Missing("GreenChild::as_ref")
    for tr, m in [(IT, x) for x in ("next", "nth", "count", "last", "size_hint")] + [(DE, x) for x in ("next_back", "nth_back")] + [(EX, "len")]:
        b, s = P.body(f"<{CHILDREN} as {tr}>::{m}"), P.body(f"<{SI} as {tr}>::{m}")
        if b is None:
            continue
        outs = []
        for x, wrap in ((b, True), (s, False)):
            e = engine_for(P, x)
            st = St()
            lo, hi, sl = mk("param", "lo"), mk("param", "hi"), mk("param", "children")
            st.facts = st.facts.assume(le(lo, hi))
            v = agg(SI, 0, tuple({"s": sl, "lo": lo, "hi": hi}[n] for n, _ in fields_of(P, SI)))
            if wrap:
                v = agg(CHILDREN, 0, (v,))
            reg = mk("at", mk("param", "it"))
            st.mem[reg] = v
            byref = x.sig_in[0][0] == "ref"
            args = [mk("param", "it") if byref else v]
            if x.argc > 1:
                args.append(mk("param", "n"))
            os_ = []
            for o in e.analyse(x, args, st=st):
                if not wrap and o.kind == "ret" and m in ("next", "nth", "last", "next_back", "nth_back"):
                    if o.val.op != "agg":
                        raise Missing("option of SliceIter")
                    if o.val.a[1] == 1:
                        for o2 in e.analyse(conv, [o.val.a[2][0]], st=o.st):
                            o2.val = Some(o2.val) if o2.kind == "ret" else o2.val
                            os_.append(o2)
                        continue
                os_.append(o)
            for o in os_:
                if o.kind == "ret" and byref:
                    w = e.read(o.st, reg, ())
                    if wrap and w.op == "agg":
                        w = w.a[2][0]
                    o.val = agg("(tuple)", 0, (o.val, w))
            outs.append(os_)
            if wrap:
                rep.funcs |= {n for n in e.calls if n.startswith(("rowan", "<rowan"))} | {x.name}
                rep.paths += len(os_)
        compare(rep, "green-children", f"{short(CHILDREN)}::{m}", *outs)


GDATA = "rowan::green::node::GreenNodeData"
TR = "models::TextRange"


def given(st, *cs):
    """the state under further conditions, None if they cannot be"""
    st = st.fork()
    for c in cs:
        f = st.facts.assume(c)
        if f is None:
            return None
        st.facts = f
    return None if infeasible(st.facts.log) or clash(st.facts.log) else st


def one(e, name, args, st):
    """[(value, state)] of a call that returns"""
    b = e.prog.body(name)
    if b is None:
        raise Missing(name)
    return [(o.val, o.st) for o in e.run(b, {}, args, st, 3) if o.kind == "ret"]


def search(e, st, c):
    """binary search: what is found compares equal; nothing is said of what is not found"""
    s, f = c.args
    n = ENG.slen(s)
    i = mk("param", f"found{len(e.searches)}")
    e.searches.append((s, f, st.fork(), c))
    outs = []
    st2 = given(st, le(ZERO, i), lt(i, n))
    R = "core::result::Result"
    for o in e.call_value(st2, f, [ENG.pelem(s, i)], c.d + 1, None, c.site) if st2 else ():
        if o.kind != "ret":
            outs.append(o)
            continue
        v = e.discr(o.st, o.val, "core::cmp::Ordering")
        for yes, x in e.branch(o.st, e.discr_is(v, 1)):
            if yes:
                outs.append(Out("ret", agg(R, 0, (i,)), x))
    st3 = given(st, le(ZERO, i), le(i, n))
    if st3:
        outs.append(Out("ret", agg(R, 1, (i,)), st3))
    return outs


def child_place(rep):
    P = spec_prog()
    equiv.PROG = P
    all_children(rep, P)
    b = P.body(f"<{GDATA}>::child_at_range")
    if b is None:
        raise Missing("GreenNodeData::child_at_range")
    w = "GreenNodeData::child_at_range"
    e = engine_for(P, b, extra={**greens(), "<slice>::binary_search_by": search})
    e.searches = []
    self_, rng = mk("param", "self"), mk("param", "range")
    lo, hi = mk("param", "start"), mk("param", "end")
    st = St()
    st.facts = st.facts.assume(le(ZERO, lo)).assume(le(lo, hi))
    r = agg(TR, 0, tuple(lo if n == "start" else hi for n, _ in fields_of(P, TR)))
    if b.argc != 2 or b.sig_in[1][:2] != ("adt", TR):
        raise Missing("parameters of child_at_range")
    sl = one(e, f"<{GDATA}>::slice", [self_], st.fork())
    if len(sl) != 1:
        raise Missing("GreenNodeData::slice")
    sl = sl[0][0]
    outs = e.analyse(b, [self_, r], st=st)
    rep.funcs |= {n for n in e.calls if n.startswith(("rowan", "<rowan"))} | {b.name}
    rep.paths += len(outs)
    n = ENG.slen(sl)
    some = 0
    for o in outs:
        if o.kind == "panic":
            # an inconsistent state of the search is not excluded here
            continue
        if o.kind != "ret" or o.val.op != "agg":
            rep.unk("child-at-range", w, f"result {o.val!r:.100}")
            continue
        if o.val.a[1] == 0:
            complete(rep, w, e, o, sl, lo, hi)
            continue
        some += 1
        t = o.val.a[2][0]
        if t.op != "agg" or len(t.a[2]) != 3:
            rep.unk("child-at-range", w, f"result {t!r:.100}")
            continue
        i, off, ch = t.a[2]
        s0 = o.st
        s0 = given(s0, le(ZERO, i))
        if s0 is None:
            continue
        el = ENG.pelem(sl, i)
        same(rep, "child-at-range", w, s0.facts, lt(i, n), "an index past the last child")
        for x, s in one(e, f"<{GCHILD}>::rel_offset", [el], s0.fork()):
            if infeasible(s.facts.log):
                continue
            same(rep, "child-at-range", w, s.facts, eqi(x, off), f"offset {off!r:.60} instead of {x!r:.60}")
        for x, s in one(e, f"<{GCHILD}>::as_ref", [el], s0.fork()):
            if infeasible(s.facts.log):
                continue
            v = veq(pval(e, s, ch, None), pval(e, s, x, None), s.facts)
            rep.check(v if v is not False or not definite_index(ch, el) else False, "child-at-range", w, f"child {ch!r:.80} instead of {x!r:.80}")
        for x, s in one(e, f"<{GCHILD}>::rel_range", [el], s0.fork()):
            g = {m: e.project(x, ("f", k, TR, 2)) for k, (m, _) in enumerate(fields_of(P, TR))}
            same(rep, "child-at-range", w, s.facts, le(g["start"], lo), "a child that begins after the range does")
            same(rep, "child-at-range", w, s.facts, le(hi, g["end"]), "a child that ends before the range does")
    if not some:
        rep.unk("child-at-range", w, "nothing is ever found")


def definite_index(x, y):
    return False


def same(rep, rule, w, F, c, msg):
    """the condition holds on this path"""
    if F.decide(c) is True or infeasible(F.log + ((c, False),)):
        return rep.ok(rule, w)
    if infeasible(F.log):
        return
    ts = {t for t in subterms(c)}
    if F.decide(c) is False or witness(list(F.log) + [(c, False)]):
        return rep.bad(rule, w, msg)
    rep.unk(rule, w, msg)


def complete(rep, w, e, o, sl, lo, hi):
    """a child that contains a range which is not empty is not missed"""
    P = e.prog
    if len(e.searches) != 1:
        return rep.unk("child-found", w, "not one binary search")
    s, f, st, c = e.searches[0]
    if s is not sl:
        return rep.unk("child-found", w, "the search is over something else")
    j, i = mk("param", "other"), mk("param", "found0")
    n = ENG.slen(sl)
    base = given(o.st, lt(lo, hi))
    if base is None:
        return rep.ok("child-found", w)

    def ends(st, k):
        r = []
        for x, s2 in one(e, f"<{GCHILD}>::rel_range", [ENG.pelem(sl, k)], st.fork()):
            g = {m: e.project(x, ("f", q, TR, 2)) for q, (m, _) in enumerate(fields_of(P, TR))}
            r.append((g["start"], g["end"], s2))
        return r

    err = not any(at is lt(i, n) and v for at, v in o.st.facts.log)
    ordered(rep, w, e, st, sl, f, ends)
    cases = []
    here = given(base, lt(i, n))
    for a, b, s1 in ends(here, i) if here else ():
        s3 = given(s1, le(a, lo), le(hi, b))
        if s3:
            cases.append((s3, i, 2))
    base = given(base, le(ZERO, j), lt(j, n))
    for a, b, s1 in ends(base, j) if base else ():
        # child j contains the range
        s1 = given(s1, le(a, lo), le(hi, b))
        for x, y, s2 in ends(s1, i) if s1 else ():
            # children lie one after the other
            for s3, k in ((given(s2, lt(j, i), le(b, x)), 0), (given(s2, lt(i, j), le(y, a)), 2)):
                if s3:
                    cases.append((s3, j, k))
    if not cases:
        rep.ok("child-found", w)
    for s3, k, side in cases:
        # the search compares less for what lies before, greater from the place on where nothing was found
        bad = []
        s4 = given(st, *[a if v else mk("not", a) for a, v in s3.facts.log])
        for q in e.call_value(s4, f, [ENG.pelem(sl, k)], 5, None, None) if err else [None]:
            if q is None:
                bad.append(s3.facts.log)
            elif q.kind == "ret":
                d = e.discr(q.st, q.val, "core::cmp::Ordering")
                for yes, z in e.branch(q.st, e.discr_is(d, side)):
                    if yes and given(z):
                        bad.append(z.facts.log)
        if not bad:
            rep.ok("child-found", w)
        elif any(witness(list(l)) for l in bad):
            rep.bad("child-found", w, "a child that contains the range is missed")
        else:
            rep.unk("child-found", w, "is a child that contains the range missed?")


def ordered(rep, w, e, st, sl, f, ends):
    """the children are sorted by the comparison of the search"""
    j, k, n = mk("param", "one"), mk("param", "another"), ENG.slen(sl)
    s0 = given(st, le(ZERO, j), lt(j, k), lt(k, n))
    for a, b, s1 in ends(s0, j) if s0 else ():
        for x, y, s2 in ends(s1, k):
            s3 = given(s2, le(b, x))
            if s3 is None:
                continue
            bad = []
            for p in e.call_value(s3.fork(), f, [ENG.pelem(sl, j)], 5, None, None):
                for q in e.call_value(p.st.fork(), f, [ENG.pelem(sl, k)], 5, None, None) if p.kind == "ret" else ():
                    if q.kind != "ret":
                        continue
                    d, d2 = e.discr(q.st, p.val, "core::cmp::Ordering"), e.discr(q.st, q.val, "core::cmp::Ordering")
                    for u, v in ((2, 0), (2, 1), (1, 0)):
                        for yes, z in e.branch(q.st, e.discr_is(d, u)):
                            for yes2, z2 in e.branch(z, e.discr_is(d2, v)) if yes else ():
                                if yes2 and given(z2):
                                    bad.append(z2.facts.log)
            if not bad:
                rep.ok("search-order", w)
            elif any(witness(list(l)) for l in bad):
                rep.bad("search-order", w, "the children are not sorted by the comparison of the search")
            else:
                rep.unk("search-order", w, "are the children sorted by the comparison of the search?")


def clash(log):
    d = {}
    return any(d.setdefault(a, v) != v for a, v in log)


def all_children(rep, P):
    b = P.body(f"<{GDATA}>::children")
    if b is None:
        raise Missing("GreenNodeData::children")
    e = engine_for(P, b)
    self_ = mk("param", "self")
    sl = one(e, f"<{GDATA}>::slice", [self_], St())[0][0]
    rep.funcs.add(b.name)
    for o in e.analyse(b, [self_], st=St()):
        rep.paths += 1
        x = o.val
        while x.op == "agg" and x.a[0] == CHILDREN:
            x = x.a[2][0]
        if o.kind != "ret" or x.op != "agg" or x.a[0] != SI:
            rep.unk("all-children", "GreenNodeData::children", f"result {x!r:.100}")
            continue
        d = dict(zip([n for n, _ in fields_of(P, SI)], x.a[2]))
        same(rep, "all-children", "GreenNodeData::children", o.st.facts, eqi(d["lo"], ZERO), "does not begin with the first child")
        same(rep, "all-children", "GreenNodeData::children", o.st.facts, eqi(d["hi"], ENG.slen(sl)), "does not end with the last child")
        rep.check(True if d["s"] is sl else None, "all-children", "GreenNodeData::children", f"iterates over {d['s']!r:.80}")


if __name__ == "__main__":
    r = Rep()
    child_place(r)
    import collections

    for k, v in collections.Counter((x.st, x.rule, x.where, x.msg) for x in r.es).items():
        print(v, str(k)[:400])
