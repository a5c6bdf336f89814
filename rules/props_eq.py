"""C14: equality and hashing agree; what equality means."""
from cur import *

VALUE = ("ap", "ptreq", "beq", "and", "fat")
EMPTY = ("countme::Count", "core::marker::PhantomData")
OFFSET_MUT = "<rowan::cursor::NodeData>::offset_mut"


def pairs_of(log):
    """[(x, y)] values which the facts make equal, largest first"""
    r = []
    for p, v in log:
        if not v:
            continue
        if p.op in ("beq", "ptreq"):
            r.append((p.a[0], p.a[1]))
            x, y = p.a
            while x.op == y.op == "ap" and x.a[0] == y.a[0] and len(x.a[1]) == len(y.a[1]) == 1 and "utf8" in str(x.a[0]):
                x, y = x.a[1][0], y.a[1][0]
                r.append((x, y))
        elif p.op == "and":
            r += pairs_of([(x, True) for x in p.a])
        elif p.op == "eq0":
            c, atoms = lin_of(p.a[0])
            if c == 0 and len(atoms) == 2:
                (x, i), (y, j) = list(atoms.items()) if isinstance(atoms, dict) else list(atoms)
                if i == -j:
                    r.append((x, y))
    return r


def mentions(t, a):
    return a in subterms(t)


class Side:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def unify(self, log):
        """substitution from terms over b to terms over a, by the facts"""
        m = {}
        for x, y in pairs_of(log):
            for u, w in ((x, y), (y, x)):
                if mentions(w, self.b) and not mentions(u, self.b):
                    m.setdefault(w, u)
                    if w.op == "fat" and u.op == "fat":
                        m.setdefault(w.a[0], u.a[0])
        return m


def rewrite(t, m):
    for _ in range(4):
        n = subst(t, m)
        if n is t:
            return t
        t = n
    return t


def leaves(P, e, t, v, d=0):
    """what a value consists of, as far as its type tells"""
    if t and t[0] == "adt" and t[1] in EMPTY:
        return []
    if v.op == "agg" and d < 6:
        return [v] if not v.a[2] else [y for i, x in enumerate(v.a[2]) for y in leaves(P, e, None, x, d + 1)]
    if t and t[0] == "adt" and d < 6 and (t[1] in P.adts and (P.adts[t[1]]["local"] or t[1].startswith("models::"))):
        fs = fields_of(P, t[1], 0)
        if fs and len(P.adts[t[1]].get("variants", [0])) == 1 and t[1].startswith(("models::", "rowan::ast", "rowan::green::SyntaxKind")):
            return [y for i, (_, ft) in enumerate(fs) for y in leaves(P, e, ft, e.project(v, ("f", i, t[1], len(fs))), d + 1)]
    return [v]


def written(P, e, o):
    """the sequence of values a path feeds to the hasher"""
    r = []
    for x in o.st.events():
        if x[0] == "hash":
            t = x[1]
            r += leaves(P, e, t, x[2])
        elif x[0] in ("loop", "unknown", "havoc"):
            return None
    return r


def truth(e, o):
    """states in which the comparison is true / false on this path"""
    if o.val.op == "i":
        return [(o.val.a[0] != 0, o.st)]
    return [(bool(v), s) for v, s in e.branch(o.st, o.val)]


def impls(P):
    """{type: (eq body, hash body)}"""
    eqs, hs = {}, {}
    for b in functions(P, "rowan"):
        if not b.impl_of:
            continue
        s = b.sig_in[0] if b.sig_in else None
        if not s or s[0] != "ref" or s[2][0] != "adt":
            continue
        if b.item == "eq" and b.impl_of == "core::cmp::PartialEq" and len(b.sig_in) == 2 and b.sig_in[1] and b.sig_in[1][0] == "ref" and b.sig_in[1][2] and b.sig_in[1][2][:2] == s[2][:2]:
            eqs[s[2][1]] = b
        if b.item == "hash" and b.impl_of == "core::hash::Hash":
            hs[s[2][1]] = b
    return eqs, hs


def atoms_for(P, mut):
    if mut == 0:
        return {}
    return {OFFSET_MUT: lambda e, st, c: mk("ap", "offset", (thin(c.args[0]),))}


def agree(rep, it):
    t, eb, hb, mut = it
    P = prog()
    w = f"{short(t)} mutable={mut}" if mut is not None else short(t)
    e1, e2 = (cursor_engine(P, mut or 0, atoms=atoms_for(P, mut)) for _ in range(2))
    a, b = mk("param", "self"), None
    try:
        eo = e1.analyse(eb)
        ho = e2.analyse(hb)
    except Stop as x:
        return rep.unk("agree", w, f"{x}")
    rep.funcs |= {eb.name, hb.name}
    rep.paths += len(eo) + len(ho)
    pa, pb = param_terms(e1, eb)
    ha, _ = param_terms(e2, hb)
    if any(o.kind not in ("ret", "panic", "abort") for o in eo + ho):
        rep.unk("agree", w, "paths cut")
    for o in eo:
        if o.kind != "ret":
            continue
        for v, s in truth(e1, o):
            if not v:
                continue
            S = Side(pa, pb)
            m = S.unify(s.facts.log)
            for h1 in ho:
                for h2 in ho:
                    if h1.kind != "ret" or h2.kind != "ret":
                        continue
                    j = s.fork()
                    ok = True
                    for p, val in h1.st.facts.log:
                        q = subst(p, {ha: pa})
                        if j.facts.assume(q, val) is None:
                            ok = False
                            break
                    for p, val in h2.st.facts.log if ok else ():
                        q = rewrite(subst(p, {ha: pb}), m)
                        if j.facts.assume(q, val) is None:
                            ok = False
                            break
                    if not ok or infeasible(tuple(j.facts.log)):
                        continue
                    w1, w2 = written(P, e2, h1), written(P, e2, h2)
                    if w1 is None or w2 is None:
                        rep.unk("agree", w, "values hashed in a loop")
                        continue
                    m2 = S.unify(j.facts.log)
                    w1 = [rewrite(subst(x, {ha: pa}), m2) for x in w1]
                    w2 = [rewrite(subst(x, {ha: pb}), m2) for x in w2]
                    if len(w1) != len(w2):
                        rep.bad("agree", w, f"equal values feed {len(w1)} and {len(w2)} values to the hasher")
                        continue
                    for x, y in zip(w1, w2):
                        same_ = x is y or j.facts.equal(x, y) is True
                        if same_:
                            rep.ok("agree", w)
                        else:
                            rep.put(BAD if interpreted(x, VALUE) and interpreted(y, VALUE) else UNK, "agree", w,
                                    f"equal values may hash differently: {x!r:.80} against {y!r:.80} are hashed, but are not compared by eq ({where(eb)}, {where(hb)})")


def param_terms(e, b):
    ns = [b.locals[i + 1].get("n") or f"arg{i}" for i in range(b.argc)]
    return mk("param", ns[0]), mk("param", ns[1]) if len(ns) > 1 else None


def place_of(C, e, st, b, v, which):
    """(green pointer, offset) of the element handle v points to"""
    import props_nav

    t = b.sig_in[0]
    while t[0] == "ref":
        r, p, _ = target(v)
        v, t = e.read(st, r, p), t[2]
    if t[1].startswith("rowan::api"):
        f = next((i for i, (n, ft) in enumerate(fields_of(C.P, t[1], 0)) if ft and ft[0] == "adt" and ft[1] in (NODE, TOKEN)), None)
        if f is None:
            raise Missing("raw")
        t = fields_of(C.P, t[1], 0)[f][1]
        v = e.project(v, ("f", f, b_self(b), C.P.nfields(b_self(b), 0)))
    p = C.fld(e, v, 0, t[1])
    c = C.content(e, st, p)
    g = C.vfld(e, C.fld(e, c, C.green), C.gnode if t[1] == NODE else C.gtok, 0, GREEN)
    return g, C.fld(e, c, C.offset)


def b_self(b):
    t = b.sig_in[0]
    while t[0] == "ref":
        t = t[2]
    return t[1]


def identity(rep, it):
    """cursor elements are equal iff green pointer and offset are"""
    t, eb = it
    P = prog()
    C = Cur(P)
    e = cursor_engine(P, 0)
    eo = e.analyse(eb)
    rep.funcs.add(eb.name)
    pa, pb = param_terms(e, eb)
    ga, oa = place_of(C, e, St(), eb, pa, 0)
    gb, ob = place_of(C, e, St(), eb, pb, 1)
    w = where(eb)
    for o in eo:
        if o.kind != "ret":
            rep.unk("identity", w, o.kind)
            continue
        for v, s in truth(e, o):
            dg = s.facts.decide(e.ptreq(ga, gb))
            do = s.facts.equal(oa, ob)
            if v:
                rep.check(True if dg and do else sure(s), "identity", w, "elements may compare equal although they " + ("are made from different green elements" if not dg else "are at different places"))
            else:
                rep.check(True if dg is False or do is False else sure(s), "identity", w, "an element compares different from one with the same green element at the same place")


def sure(s):
    """facts consist of inputs only"""
    return False if all(interpreted(p, VALUE) and not any(x.op == "phi" for x in subterms(p)) for p, _ in s.facts.log) else None


KIND = "rowan::green::SyntaxKind"
GREENS = {"rowan::green::node::GreenNodeData": 0, "rowan::green::node::GreenNode": 1, "rowan::green::token::GreenTokenData": 0, "rowan::green::token::GreenToken": 1}


def parts(C, e, b, v, owned):
    """(kind, fat pointer to the children or the text) of a green element"""
    P = C.P
    HS = "rowan::arc::HeaderSlice"
    if owned:
        c = C.content(e, St(), v)
        p = C.fld(e, c, 0, b_self(b))
        while p.op == "agg" and len(p.a[2]) == 1:
            p = p.a[2][0]
        while True:
            r, path, _ = target(p)
            break
        AI = "rowan::arc::ArcInner"
        v = addr(r, path + (("f", field(P, AI, "data"), AI, 2),))
    hs = C.content(e, St(), v)
    h = C.fld(e, hs, field(P, HS, "header"), HS)
    head = "rowan::green::node::GreenNodeHead" if "node" in b_self(b) else "rowan::green::token::GreenTokenHead"
    k = C.fld(e, C.fld(e, h, field(P, head, "kind"), head), 0, KIND)
    n = C.fld(e, hs, field(P, HS, "length"), HS)
    return k, n, C.fld(e, hs, field(P, HS, "slice"), HS)


def content(rep, it):
    """green elements are equal iff kind and content are"""
    t, eb, owned = it
    P = prog()
    C = Cur(P)
    e = cursor_engine(P, 0)
    eo = e.analyse(eb)
    rep.funcs.add(eb.name)
    pa, pb = param_terms(e, eb)
    w = where(eb)
    ka, na, sa = parts(C, e, eb, pa, owned)
    kb, nb, sb = parts(C, e, eb, pb, owned)
    for o in eo:
        if o.kind != "ret":
            rep.unk("content", w, o.kind)
            continue
        for v, s in truth(e, o):
            m = Side(pa, pb).unify(s.facts.log)
            if v:
                dk = rewrite(kb, m) is rewrite(ka, m) or s.facts.equal(ka, kb) is True
                ds = any(cut(C, e, x, y, sa, sb) for x, y in pairs_of(s.facts.log)) or rewrite(sb, m) is rewrite(sa, m)
                rep.check(True if dk and ds else sure(s), "content", w, "values may compare equal although their " + ("contents differ" if dk else "kinds differ"))
            else:
                fs = [p for p, val in s.facts.log if not val and (p.op == "beq" or p.op == "eq0") and about_content(p, pa, pb)]
                rep.check(True if fs else sure(s), "content", w, "values with the same kind and content may compare different")


def about_content(p, a, b):
    """a comparison of the same part of both values (not of addresses)"""
    ps = pairs_of([(p, True)])
    return any(subst(x, {a: b}) is y or subst(y, {a: b}) is x for x, y in ps)


def cut(C, e, x, y, sa, sb):
    """x, y: the whole slices sa and sb"""
    for u, w in ((x, y), (y, x)):
        if u.op == w.op == "fat":
            if C.content(e, St(), u.a[0]) is sa and C.content(e, St(), w.a[0]) is sb:
                return True
        if u is sa and w is sb:
            return True
    return False


def run(rep):
    P = prog()
    eqs, hs = impls(P)
    its = []
    for t in sorted(hs):
        if t not in eqs:
            rep.unk("agree", t, "no comparison with itself")
            continue
        if t.startswith(("rowan::cursor", "rowan::api")):
            its += [(t, eqs[t], hs[t], 0), (t, eqs[t], hs[t], 1)]
        else:
            its.append((t, eqs[t], hs[t], None))
    pmap(rep, agree, its)
    pmap(rep, identity, [(t, b) for t, b in eqs.items() if t in (NODE, TOKEN) or t.startswith("rowan::api")])
    pmap(rep, content, [(t, eqs[t], o) for t, o in GREENS.items() if t in eqs])
    for t in list(GREENS) + [NODE, TOKEN]:
        if t not in eqs:
            rep.unk("anchor", t, "no comparison")


CHECKS = {
    "C14": dict(run=run, technique="path-sensitive dataflow over MIR: the values fed to the hasher related to the comparisons made by eq",
                explanation="Every type with both PartialEq and Hash is found by its impls. eq and hash are interpreted abstractly. On every path on which eq is true, hash is run on both sides and the two sequences of values fed to "
                "the hasher must be equal by the equalities established on that path. For cursor and typed elements eq must be decided by the green pointer and the offset alone; for green elements by kind and content.",
                rules={"agree": "values which eq finds equal feed the same sequence to the hasher", "identity": "cursor elements are equal iff green pointer and offset are", "content": "green elements are equal iff kind and children or text are, wherever they are stored"},
                assumptions=["Eq and Hash of the user's types and of the standard library agree"], note=""),
}

if __name__ == "__main__":
    import collections

    r = Rep()
    run(r)
    for k, v in collections.Counter((x.st, x.rule, x.where, x.msg) for x in r.es).items():
        if k[0] != "ok":
            print(v, str(k)[:300])
    print(collections.Counter((x.st, x.rule) for x in r.es))
