"""The node cache hands out only what was asked for."""
from equiv import *
import equiv

NC = "rowan::green::node_cache::"
RAW = "hashbrown::raw_entry::"
GN, GT = "rowan::green::node::GreenNode", "rowan::green::token::GreenToken"


def interned(e, st, t):
    """a reference to some element of the cache"""
    k = mk("param", "interned")
    reg = mk("at", k)
    if reg not in st.mem:
        st.mem[reg] = agg(NC + "NoHash", 0, (mk("param", "found"),))
    return addr(reg, ())


def lookup(e, st, c):
    """nothing was found, or something that the predicate accepts; nothing is assumed of the hash"""
    s = st.fork()
    k = interned(e, s, None)
    outs = [Out("ret", agg(RAW + "RawEntryMut", 1, (mk("ap", "vacant", ()),)), st)]
    for o in look(e, s, c.args[-1], k, c.d + 1, c.site):
        if o.kind != "ret":
            outs.append(o)
            continue
        for yes, s2 in e.branch(o.st, eqi(o.val, ONE)):
            if yes:
                outs.append(Out("ret", agg(RAW + "RawEntryMut", 0, (mk("ap", "occupied", (k,)),)), s2))
    return outs


def key(e, st, c):
    v = c.args[0]
    v = e.load(st, v) if v.op == "addr" else v
    return v.a[1][0] if v.op == "ap" and v.a[0] == "occupied" else None


def put(e, st, c):
    st.event("put", c.args[1], c.args[2], c.site)
    return agg("(tuple)", 0, (fresh("stored"), fresh("stored")))


def entries(e, st, c):
    return mk("ap", "entries", ())


def new_node(e, st, c):
    """what GreenNode::new is given"""
    r = mk("ap", "new", (c.args[0], listed(e, st, c.args[1])))
    st.event("new", r, c.site)
    return r


def listed(e, st, it):
    """the list an iterator yields, as a mapping of the elements of a sequence"""
    if it.op == "agg" and it.a[0] == "models::VecIter":
        d = dict(zip([n for n, _ in fields_of(e.prog, "models::VecIter")], it.a[2]))
        v = I.ENG.seq_of(d["v"]) if False else ENG.seq_of(d["v"])
        if d["lo"] is ZERO and st.facts.equal(d["hi"], ENG.seq_len(v)):
            return v
        return mk("ap", "part", (v, d["lo"], d["hi"]))
    if it.op == "agg" and it.a[0] == "models::Map":
        d = dict(zip([n for n, _ in fields_of(e.prog, "models::Map")], it.a[2]))
        x = mk("param", "item")
        outs = e.call_value(st.fork(), d["f"], [x], 40, None, None)
        if len(outs) == 1 and outs[0].kind == "ret" and len(outs[0].st.facts.log) == len(st.facts.log):
            return mk("ap", "each", (outs[0].val, listed(e, st, d["i"])))
    return mk("ap", "list", (it,))


def hooks():
    H = {"<hashbrown::map::HashMap>::raw_entry_mut": entries, f"<{RAW}RawEntryBuilderMut>::from_hash": lookup,
         f"<{RAW}RawOccupiedEntryMut>::key": key, f"<{RAW}RawVacantEntryMut>::insert_with_hasher": put,
         f"<{GN}>::new": new_node, f"<{GT}>::new": call_atom("new")}
    return dict(greens(), **H)


def look(e, st, f, k, d, site):
    s = St()
    s.mem = dict(st.mem)
    for a, v in st.facts.log:
        if not equiv.has_phi(a):
            s.facts = s.facts.assume(a, v)
    e.lookups.append((s, f, k, site))
    return e.call_value(st, f, [k], d, None, site)


def cache(rep):
    P = spec_prog()
    equiv.PROG = P
    token(rep, P)
    node(rep, P)


def run(rep, P, m, want):
    b = P.body(f"<{NC}NodeCache>::{m}")
    if b is None:
        raise Missing(f"NodeCache::{m}")
    names = [b.locals[i + 1].get("n") or f"arg{i}" for i in range(b.argc)]
    if [n for n in names if n != "self"] != want:
        raise Missing(f"parameters of NodeCache::{m}")
    e = engine_for(P, b, extra=hooks())
    e.lookups = []
    args = {n: mk("param", n) for n in names}
    outs = e.analyse(b, [args[n] for n in names], st=St())
    rep.funcs |= {x for x in e.calls if x.startswith(("rowan", "<rowan"))} | {b.name}
    rep.paths += len(outs)
    return e, outs, args


def same(rep, rule, w, F, x, y, msg):
    """x and y are the same number on this path"""
    c = eqi(x, y)
    if F.decide(c) is True:
        rep.ok(rule, w)
    elif F.decide(c) is False or witness([(a, v) for a, v in F.log if touches(a, x, y)] + [(c, False)]):
        rep.bad(rule, w, msg)
    else:
        rep.unk(rule, w, msg)


def touches(a, *xs):
    """does the condition speak about the numbers?"""
    ts = {t for x in xs for t, _ in lin_of(x)[1]}
    return bool(ts & set(subterms(a)))


def kind_no(e, st, v):
    """the number of a SyntaxKind"""
    return e.project(v, ("f", 0, "rowan::green::SyntaxKind", 1))


def token(rep, P):
    e, outs, a = run(rep, P, "token", ["kind", "text"])
    w = "NodeCache::token"
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        n += 1
        t = o.val.a[2][1] if o.val.op == "agg" and len(o.val.a[2]) == 2 else None
        F = o.st.facts
        if t is not None and t.op == "ap" and t.a[0] == "new":
            k, x = t.a[1]
            same(rep, "asked-for", w, F, kind_no(e, o.st, k), kind_no(e, o.st, a["kind"]), f"new token of kind {k!r:.80}")
            rep.check(True if x is a["text"] else False if x.op in ("param", "str") or x.op == "subsl" else None, "asked-for", w, f"new token with text {x!r:.80}")
        elif t is FOUND:
            k2, x2 = content(e, P, o.st, t)
            same(rep, "asked-for", w, F, k2, kind_no(e, o.st, a["kind"]), "an interned token of another kind may be handed out")
            c = mk("beq", *sorted((x2, a["text"]), key=lambda x: x.id))
            v = [val for at, val in F.log if c in subterms(at)]
            if any(is_true(at, val, c) for at, val in F.log):
                rep.ok("asked-for", w)
            elif v or not all(plain(at) for at, _ in F.log):
                rep.unk("asked-for", w, "is the text of the interned token the same?")
            else:
                rep.bad("asked-for", w, "an interned token with another text may be handed out")
        else:
            rep.unk("asked-for", w, f"result {o.val!r:.100}")
    if not n:
        rep.unk("asked-for", w, "no path returns")


FOUND = mk("param", "found")


def plain(at):
    """no text is compared, at most the lengths of texts"""
    return all(x.op != "ap" or x.a[0] in ("len", "fat", "from_utf8_unchecked") for x in subterms(at)) and not any(x.op == "beq" for x in subterms(at))


def by_content(outs):
    """elements are compared by what they hold, not only by identity"""
    logs = [o.st.facts.log for o in outs] + [b.facts.log for o in outs for ev in o.st.events() if ev[0] == "loop" for b in ev[1].backs]
    return any(x.op == "beq" and not any(y.op == "agg" and y.a[0] == "(tuple)" for y in subterms(x)) for l in logs for at, _ in l for x in subterms(at))


def is_true(at, val, c):
    return val and at is eqi(c, ONE) or not val and at is eqi(c, ZERO)


def content(e, P, st, t):
    """kind and text of a token"""
    d = {}
    st = st.fork()
    reg = mk("at", mk("param", "content"))
    st.mem[reg] = t
    for m in ("kind", "text"):
        b = P.body("<rowan::green::token::GreenTokenData>::" + m)
        if b is None:
            raise Missing("GreenTokenData::" + m)
        data = [o.val for o in e.run(P.body(f"<{GT} as core::ops::deref::Deref>::deref"), {}, [addr(reg, ())], st.fork(), 1) if o.kind == "ret"]
        outs = [o.val for o in e.run(b, {}, [data[0]], st.fork(), 1) if o.kind == "ret"] if len(data) == 1 else []
        if len(outs) != 1:
            raise Missing("GreenTokenData::" + m)
        d[m] = outs[0]
    return kind_no(e, st, d["kind"]), d["text"]


def node(rep, P):
    e, outs, a = run(rep, P, "node", ["kind", "children", "first_child"])
    w = "NodeCache::node"
    first, kids = a["first_child"], mk("at", a["children"])
    b = P.body("spec::build::spec::same_node")
    fits = True
    base = e.content(St(), kids)
    for st, f, k, site in e.lookups:
        r, e2 = Rep(), engine_for(P, b, extra=hooks())
        e2.envs = e.envs
        s = st.fork()
        reg = mk("at", mk("param", "candidate"))
        s.mem[reg] = FOUND
        ps = [o for o in e2.call_value(st.fork(), f, [k], 3, None, None)]
        qs = e2.run(b, {}, [addr(reg, ()), a["kind"], addr(kids, ()), first], s, 3)
        fl = Flat()
        ps, qs = [fl.out(o) for o in ps], [fl.out(o) for o in qs]
        # what the predicate turns down is only not shared
        yes = [o for o in ps if o.kind == "ret" and o.val is not ZERO]
        if not yes:
            rep.unk("same-children", w, "nothing is ever shared")
        compare(r, "same-children", w, ps, qs)
        compare_peeled(r, "same-children", w, yes, qs)
        for x in r.es:
            if x.st == BAD and (x.msg.startswith("result 0 instead of 1") or by_content(yes) or not all(plain(at) for o in yes for at, _ in o.st.facts.log)):
                x.st = UNK
            fits = fits and x.st == OK
        rep.merge(r)
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        n += 1
        F = o.st.facts
        t = o.val.a[2][1] if o.val.op == "agg" and len(o.val.a[2]) == 2 else None
        if t is FOUND:
            rep.check(True if fits else None, "asked-for", w, "is the interned node the one asked for?")
        elif t is not None and t.op == "ap" and t.a[0] == "new":
            k, l = t.a[1]
            same(rep, "asked-for", w, F, kind_no(e, o.st, k), kind_no(e, o.st, a["kind"]), f"new node of kind {k!r:.80}")
            want = mk("ap", "each", (e.project(mk("param", "item"), ("f", 1, "(tuple)", 2)), None))
            item = l.a[1][0] if l.op == "ap" and l.a[0] == "each" else None
            sq = l.a[1][1] if item is not None else None
            if item is not want.a[1][0] or sq.op != "seq" or any(x[0] != "s" or x[1] is not base for x in sq.a[0]) or len(sq.a[0]) != 1:
                rep.unk("asked-for", w, f"new node of {l!r:.120}")
            else:
                x = sq.a[0][0]
                same(rep, "asked-for", w, F, x[2], first, f"the new node begins with child {x[2]!r:.60}")
                same(rep, "asked-for", w, F, x[3], mk("vlen", x[1]), f"the new node ends before child {x[3]!r:.60}")
        else:
            rep.unk("asked-for", w, f"result {o.val!r:.100}")
        left = seq_norm(e.read(o.st, kids, ()))
        if left.op == "seq" and len(left.a[0]) == 1 and left.a[0][0][0] == "s":
            x = left.a[0][0]
            same(rep, "consumed", w, F, x[2], ZERO, "earlier children are taken")
            same(rep, "consumed", w, F, x[3], first, f"children up to {x[3]!r:.60} are left, not up to the first of the node")
        elif left.op == "seq" and not left.a[0]:
            same(rep, "consumed", w, F, first, ZERO, "earlier children are taken")
        else:
            rep.unk("consumed", w, f"left are {left!r:.100}")
    if not n:
        rep.unk("asked-for", w, "no path returns")


KIDS = mk("at", mk("param", "children"))

CHECKS = {
    "C05": dict(run=cache, technique="path-sensitive dataflow over MIR of the cache's lookups, with the interned element left open: what is handed out is what was asked for, by the conditions of the path; "
                "the predicate of the node lookup is compared path by path with a specification function",
                explanation="NodeCache::token and NodeCache::node are interpreted abstractly on all paths. A lookup by hash may find any element that its predicate accepts, whatever the hash. "
                "On each path the element returned is either newly made of the kind and text (children) asked for, or an interned one which the path's conditions show to be the same. ",
                rules={"asked-for": "the element returned has the kind and the text or children asked for", "same-children": "the predicate of the node lookup accepts only nodes of this kind with just these children",
                       "consumed": "the children from the first on are taken, no others"},
                assumptions=["hashbrown returns only entries its predicate accepts", "GreenNode::new and GreenToken::new make what they are given (C04)"],
                note="Pointer equality of elements is taken as equality of content, as both are alive. Which equal elements are in fact shared is not decided. "),
}

if __name__ == "__main__":
    r = Rep()
    cache(r)
    import collections
    for k, v in collections.Counter((x.st, x.rule, x.where, x.msg) for x in r.es).items():
        print(v, str(k)[:400])
