"""C30: comparing two texts gives the same answer however they are split into tokens.

The comparison consumes both texts step by step. Rules over the paths and loop summaries of the step function give, by induction
over the steps, that what was consumed of both is the same text: nothing is left out, both sides go on by the same length,
and only over text that agrees."""
from equiv import *
from intrinsics import fresh

ST = "rowan::syntax_text::SyntaxText"
ZIP = "rowan::syntax_text::zip_texts"
PIECES = f"<{ST}>::tokens_with_ranges"
ALL = "core::iter::traits::iterator::Iterator::all"


def side_of(t, phis, seen=None):
    """the iterators a value came from at first"""
    seen = set() if seen is None else seen
    r = set()
    for x in subterms(t):
        if x.op == "param" and str(x.a[0]).startswith("side"):
            r.add(x)
        elif x.op == "phi" and x not in seen:
            seen.add(x)
            for v in phis.get(x, ())[:1]:
                r |= side_of(v, phis, seen)
    return r


def all_phis(outs):
    r, todo, seen = {}, [o.st for o in outs], set()
    while todo:
        st = todo.pop()
        for ev in st.events():
            if ev[0] == "loop" and id(ev[1]) not in seen:
                seen.add(id(ev[1]))
                L = ev[1]
                for x in L.phis:
                    r[x[2]] = [v for v in (x[3],) + tuple(x[4]) if v is not UNDEF]
                todo += list(L.backs) + [L.hst]
    return r


def loops(outs):
    r, todo = {}, [o.st for o in outs]
    while todo:
        st = todo.pop()
        for ev in st.events():
            if ev[0] == "loop" and id(ev[1]) not in r:
                r[id(ev[1])] = ev[1]
                todo += list(ev[1].backs) + [ev[1].hst]
    return list(r.values())


def one_side(t, phis):
    s = side_of(t, phis)
    return next(iter(s)) if len(s) == 1 else None


def asked(st):
    """[(iterator, its answer)] in order"""
    r = []
    for ev in st.events():
        if ev[0] == "user" and ev[3].op == "ap!" and ev[3].a[0] == "usernext":
            s = side_of(ev[3], {})
            r.append((next(iter(s)) if len(s) == 1 else None, ev[3]))
    return r


def emptiness(log, phis):
    """{iterator: [value]}: tests whether what is left of the current token of that side is empty"""
    r = {}
    for x, v in log:
        if x.op == "eq0":
            l = lin_of(x.a[0])
            ts = [t for t, _ in l[1]]
            if len(ts) == 2 and l[0] == 0 and sum(k for _, k in l[1]) == 0 and all(t.op in ("fld", "phi") for t in ts):
                s = one_side(x.a[0], phis)
                if s is not None:
                    r.setdefault(s, []).append((v, x.a[0]))
    return r


def prefixes(log, phis):
    """[(side of the text, side of its prefix, value, text, prefix)]"""
    r = []
    for x, v in log:
        if x.op == "ap" and isinstance(x.a[0], str) and x.a[0].rsplit("::", 1)[-1] == "starts_with" and len(x.a[1]) == 2:
            r.append((one_side(x.a[1][0], phis), one_side(x.a[1][1], phis), v) + tuple(x.a[1]))
    return r


def zip_rule(rep, P):
    b = P.body(ZIP)
    if b is None:
        raise Missing(ZIP)
    args = [mk("param", f"side{i}") for i in range(b.argc)]
    e = engine_for(P, b, extra=SEQS)
    outs = e.analyse(b, args)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    phis = all_phis(outs)
    w = where(b)
    for o in outs:
        if o.kind == "panic":
            known = all(prefixes([(x, v)], phis) if x.op == "ap" else interpreted(x, ("ap!",)) for x, v in o.st.facts.log)
            rep.put(BAD if known and loops(outs) else UNK, "advance", w, f"may panic: {o.why}")
            continue
        if o.kind != "ret" or o.val.op != "agg" or o.val.a[0] != OPTION:
            rep.unk("result", w, f"{o.kind} {o.val!r:.80} not recognised")
            continue
        log = o.st.facts.log
        if o.val.a[1] == 1:
            ps = prefixes(log, phis)
            no = [(x, y) for x, y, v, *_ in ps if v is False and x is not None and y is not None and x is not y]
            if any((y, x) in no for x, y in no):
                rep.ok("differ", w)
            elif ps and all(x is not None and y is not None for x, y, *_ in ps) and loops(outs):
                rep.bad("differ", w, "texts are said to differ although one may begin with the other: " + "; ".join(f"{a!r:.60} starts with {c!r:.60}: {v}" for _, _, v, a, c in ps))
            else:
                rep.unk("differ", w, "tests of the texts not recognised")
        else:
            q = asked(o.st)
            if q and o.st.facts.value(mk("discr", q[-1][1], 1)) == 0:
                rep.ok("end", w)
            else:
                rep.put(BAD if loops(outs) and all(interpreted(x, ("ap", "ap!")) for x, _ in log) else UNK, "end", w, "stops without a difference before either text has ended")
        skipped(rep, w, o.st, 0, phis)
    again = set()
    for L in loops(outs):
        for bk in L.backs:
            q = asked(bk)
            again |= {x for i, (x, _) in enumerate(q) if any(y is x for y, _ in q[:i])}
    for L in loops(outs):
        for x in L.phis:
            a = side_of(x[3], phis) if x[3] is not UNDEF else ()
            for v in x[4]:
                y = v
                while y.op == "fld":
                    y = y.a[0]
                if y.op == "ap!" and y.a[0] == "usernext" and len(a) == 1 and side_of(y, phis) != a:
                    rep.bad("skip", w, "goes on with a piece of the other text")
    for L in loops(outs):
        for i, bk in enumerate(L.backs):
            if bk.facts is None:
                continue
            skipped(rep, w, bk, len(L.hst.events()), phis)
        moved(rep, w, L, phis, again)


def skipped(rep, w, st, start, phis):
    """the next piece is asked for only when nothing is left of the current one"""
    had, em = set(), emptiness(st.facts.log, phis)
    looped = False
    for k, ev in enumerate(st.events()):
        looped = looped or ev[0] == "loop"
        if ev[0] != "user" or ev[3].op != "ap!" or ev[3].a[0] != "usernext":
            continue
        s = side_of(ev[3], {})
        s = next(iter(s)) if len(s) == 1 else None
        if not looped and s not in had and k < start + 2:
            had.add(s)  # the first piece
            continue
        if k < start:
            continue
        mine = [v for v, _ in em.get(s, ())]
        if s is not None and True in mine:
            rep.ok("skip", w)
        elif s is not None and em:
            rep.bad("skip", w, f"the next piece of {s!r:.30} is asked for although something may be left of the current one")
        else:
            rep.unk("skip", w, "test whether something is left not recognised")


def piece(t):
    """(start, end, range, token) of a compared text"""
    if t.op != "ap" or not str(t.a[0]).endswith("::index") or len(t.a[1]) != 2:
        return None
    x, r = t.a[1]
    if x.op != "ap" or not str(x.a[0]).endswith("::text"):
        return None
    if r.op == "agg" and len(r.a[2]) == 2:
        return *r.a[2], r, x.a[1][0]
    g = [mk("fld", r, None, k, "models::TextRange", 2) for k in (0, 1)]
    return g[0], g[1], r, x.a[1][0]


def moved(rep, w, L, phis, again):
    """both sides go on by the same length, the smaller one, over text that agrees"""
    for i, bk in enumerate(L.backs):
        log = bk.facts.log[:]
        ps = [p for p in prefixes(log, phis)]
        if not ps:
            continue  # a loop that only skips
        cur, odd = {}, None
        for a, c, _, ta, tc in ps:
            for s, t in ((a, ta), (c, tc)):
                r = piece(t)
                if s is None or r is None or cur.get(s, r) != r:
                    odd = t
                else:
                    cur[s] = r
        if odd is not None or len(cur) != 2:
            rep.put(BAD if odd is not None and odd.op == "ap" and str(odd.a[0]).endswith("::text") else UNK, "advance", w, f"compared is {odd!r:.100}, not what is left of the current tokens")
            continue
        for s, c in cur.items():
            if bk.facts.decide(eqi(c[0], c[1])) is not False and s not in again:
                rep.bad("advance", w, f"goes on with the same piece of {s!r:.30} although nothing may be left of it")
        if not any(v is True for _, _, v, *_ in ps):
            rep.bad("advance", w, "goes on although neither text begins with the other")
            continue
        delta, seen = {}, {}
        for x in L.phis:
            init, nx = x[3], x[4][i]
            if init is UNDEF or nx is UNDEF or init.op == "agg" or nx.op in ("agg", "undef", "addr"):
                continue
            s = one_side(init, phis)
            if s is None or init.op != "fld":
                continue
            c = next((v for k, v in cur.items() if k is s), None)
            if c is None:
                continue
            k = init.a[2]
            inner = init.a[0]
            if inner.op == "fld" and inner.a[3] == "models::TextRange" or init.a[3] == "models::TextRange":
                if k == 0:
                    delta[s] = sub(nx, c[0])
                    seen[s] = c
                elif nx is not c[1] and not (nx.op == "fld" and nx.a[2] == 1 and nx.a[0] is c[2]):
                    rep.put(BAD if interpreted(nx, ("ap", "ap!")) else UNK, "advance", w, f"the end of what is left becomes {nx!r:.100}")
        if len(delta) != 2:
            rep.unk("advance", w, "how far the texts go on not recognised")
            continue
        (s1, d1), (s2, d2) = delta.items()
        if d1 is not d2:
            rep.bad("advance", w, f"one text goes on by {d1!r:.100}, the other by {d2!r:.100}")
            continue
        l1, l2 = (sub(seen[s][1], seen[s][0]) for s in (s1, s2))
        if d1 is l1 and bk.facts.decide(le(l1, l2)) or d1 is l2 and bk.facts.decide(le(l2, l1)):
            rep.ok("advance", w)
        elif d1 is l1 or d1 is l2:
            rep.bad("advance", w, f"both texts go on by {d1!r:.100}, perhaps more than is left of one")
        else:
            rep.put(BAD if interpreted(d1) else UNK, "advance", w, f"both texts go on by {d1!r:.100}, not by what was compared")


def eq_rule(rep, P):
    b = P.body(f"<{ST} as core::cmp::PartialEq<{ST}>>::eq")
    if b is None or P.body(PIECES) is None:
        raise Missing("comparison of texts")

    def zipped(e, st, c):
        r = fresh("zip", *c.args)
        st.event("zip", r, tuple(e.load(st, a) for a in c.args))
        return r

    def rest(e, st, c):
        v = e.load(st, c.args[0])
        r = fresh("all", v)
        st.event("all", r, v, c.args[1])
        return r

    args = [mk("param", "lhs"), mk("param", "rhs")]
    e = engine_for(P, b, extra=dict(SEQS, **{ZIP: zipped, ALL: rest, PIECES: lambda e, st, c: mk("ap", "pieces", (e.load(st, c.args[0]),))}))
    outs = e.analyse(b, args)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = where(b)
    ri = field(P, ST, "range")
    n = P.nfields(ST, 0)
    lens = []
    for a in args:
        r = e.project(e.load(St(), a), ("f", ri, ST, n))
        lens.append(sub(e.project(r, ("f", 1, "models::TextRange", 2)), e.project(r, ("f", 0, "models::TextRange", 2))))
    same = eqi(lens[0], lens[1])
    texts = [mk("ap", "pieces", (e.load(St(), a),)) for a in args]
    for o in outs:
        if o.kind != "ret":
            if o.kind == "panic":
                rep.unk("answer", w, f"may panic: {o.why}")
            continue
        zs = [ev for ev in o.st.events() if ev[0] == "zip"]
        al = [ev for ev in o.st.events() if ev[0] == "all"]
        f = o.st.facts
        for val, facts in both_ways(o.val, f):
            l = facts.decide(same)
            if any(len(z[2]) != 2 or {z[2][0], z[2][1]} != set(texts) for z in zs):
                known = all(isinstance(x, T) and x in texts for z in zs for x in z[2])
                rep.put(BAD if known else UNK, "answer", w, "compares something else than the two texts")
                continue
            z = [facts.value(mk("discr", ev[1], 1)) for ev in zs]
            some = [facts.decide(ev[1]) for ev in al]
            if val is True:
                # all of both was consumed: as long as each other, and no difference before one of them ended
                if l is True and z == [0] and False not in some:
                    rep.ok("answer", w)
                elif l is False:
                    rep.bad("answer", w, "texts of different length are called equal")
                elif 1 in z or False in some:
                    rep.bad("answer", w, "texts are called equal although a difference was found")
                elif not z and l is True:
                    rep.bad("answer", w, "texts are called equal without a comparison")
                elif l is None and z == [0] and len(some) < 2:
                    rep.bad("answer", w, "texts are called equal without looking whether something is left of them, and perhaps of different length")
                elif l is None and z == [0]:
                    rep.bad("answer", w, "texts are called equal without comparing their lengths: of the token looked at last something may be left")
                else:
                    rep.unk("answer", w, f"equal: length {l}, difference {z}, rest {some}")
            elif val is False:
                if l is False or 1 in z or False in some:
                    rep.ok("answer", w)
                elif z == [0] and all(x is True for x in some):
                    rep.bad("answer", w, "texts are called different although no difference was found")
                else:
                    rep.unk("answer", w, f"different: length {l}, difference {z}, rest {some}")
            else:
                rep.unk("answer", w, f"answer {o.val!r:.80} not recognised")
    # what is left is looked at for being empty
    for ev in {ev[3]: ev for o in outs for ev in o.st.events() if ev[0] == "all"}.values():
        x = mk("param", "item#")
        r = e.call_value(St(), ev[3], [x], 40, None, "")
        if len(r) == 1 and r[0].kind == "ret":
            v = r[0].val
            t = e.project(x, ("f", 1, "(tuple)", 2))
            want = eqi(e.project(t, ("f", 0, "models::TextRange", 2)), e.project(t, ("f", 1, "models::TextRange", 2)))
            if v is want:
                rep.ok("rest", w)
            else:
                rep.put(BAD if v.op in ("not", "i") else UNK, "rest", w, f"what is left is tested for {v!r:.100}")


def both_ways(v, f):
    if v.op == "i":
        return [(bool(v.a[0]), f)]
    d = f.decide(v)
    if d is not None:
        return [(d, f)]
    r = []
    for k in (True, False):
        g = f.assume(v, k)
        if g is not None:
            r.append((k, g))
    return r


def run(rep):
    P = prog()
    for f in (zip_rule, eq_rule):
        try:
            f(rep, P)
        except Missing as x:
            rep.unk("anchor", str(x), "anchor not found")


CHECKS = {
    "C30": dict(run=run, technique="loop-invariant rules over dataflow summaries: every round of the comparison consumes equal text of both sides, and nothing else",
                explanation="The comparison of two texts consumes both piece by piece. Its MIR is interpreted for arbitrary iterators over pieces; the paths through it, and one round of each of its loops, are checked for the rules that make the induction go through: "
                "the next piece is asked for only if nothing is left of the current one; both sides go on by the same length, the smaller of what is left; only after one current piece was found to begin with the other; 'different' only if neither "
                "begins with the other; 'no difference' only when one side has ended. The answer then follows from the lengths being equal.",
                rules={"skip": "no text is left out", "advance": "both sides go on by the smaller of what is left, over text that agrees", "differ": "a difference is reported only where neither piece begins with the other",
                       "end": "no difference is reported only when one side has no more pieces", "answer": "equal exactly if the lengths are equal and no difference was found", "rest": "what is left is tested for being empty"},
                note="That the pieces of a text are its tokens' text in order is C18. A comparison organised in another way (without a step function of that name over two iterators) is left undecided. ",
                assumptions=["str::starts_with and slicing behave as documented", "the pieces of a text are as long as its range together (C18)"]),
}

if __name__ == "__main__":
    import collections

    rep = Rep()
    run(rep)
    for x in rep.es:
        if x.st != OK:
            print(x.st, x.rule, x.where[-50:], str(x.msg)[:200])
    print(collections.Counter((x.st, x.rule) for x in rep.es))
