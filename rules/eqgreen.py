"""Green elements under construction: what is put into the allocation is kept as a value."""
from equiv import *

HS = "rowan::arc::HeaderSlice"
A = "rowan::arc::"
G = "rowan::green::"
GC = G + "node::GreenChild"
DATA = {G + "node::GreenNode": G + "node::GreenNodeData", G + "token::GreenToken": G + "token::GreenTokenData"}


def collected(e, st, it, d, t=None):
    """[outcome whose value is the list of what the iterator yields]"""
    if it.op == "agg" and it.a[0] == "models::VecIter":
        x = as_list(e, st, it)
        if x is not None:
            return [Out("ret", x, st)]
    b = e.prog.body("models::iter::collect")
    env = {g: ("other", "?") for g in b.generics}
    if t is None or t[0] == "other":
        t = e.type_of(it)
    if t is None and it.op != "agg":
        return None
    env["I"] = t or (("adt", it.a[0], (("other", "?"),) * 4))
    return e.run(b, env, [it], st, d + 1)


def as_list(e, st, it):
    d = dict(zip([n for n, _ in fields_of(e.prog, "models::VecIter")], it.a[2]))
    v = ENG.seq_of(d["v"])
    if d["lo"] is ZERO and st.facts.equal(d["hi"], ENG.seq_len(v)):
        return v
    return None


def whole(x):
    """a list that is all of another is that one"""
    while x.op == "seq" and len(x.a[0]) == 1:
        s = x.a[0][0]
        if s[0] != "s" or s[2] is not ZERO or s[3] is not ENG.seq_len(s[1]):
            break
        x = s[1]
    return x


def hs(P, header, items):
    v = {"header": header, "length": mk("ap", "<str>::len", (items.a[1][0],)) if items.op == "ap" and items.a[0] == "bytes" else ENG.seq_len(items), "slice": items}
    return agg(HS, 0, tuple(v[n] for n, _ in fields_of(P, HS)))


def from_iter(e, st, c):
    head, it = c.args
    if it.op == "ap" and it.a[0].endswith("<str>::bytes"):
        return hs(e.prog, head, mk("ap", "bytes", (it.a[1][0],)))
    outs = collected(e, st, it, c.d, c.atys[1] if c.atys else (c.a or [None])[-1])
    if outs is None:
        return None
    for o in outs:
        if o.kind == "ret":
            o.val = hs(e.prog, head, o.val)
    return outs


def same_value(e, st, c):
    return c.args[0]


def get_mut(e, st, c):
    v = e.load(st, c.args[0])
    # the only owner
    return Some(c.args[0]) if v.op == "agg" and v.a[0] == HS else None


def deref(name):
    def h(e, st, c):
        v = e.load(st, c.args[0])
        if v.op == "ap" and v.a[0] == "owned":
            return v.a[1][0]
        x = v.a[2][0] if v.op == "agg" and v.a[0] in DATA and v.a[2] else v
        if x.op != "agg" or x.a[0] != HS:
            return None
        reg = mk("at", mk("ap", "green", (x,)))
        st.mem[reg] = x if DATA[name] in e.prog.transparent else agg(DATA[name], 0, (x,))
        return addr(reg, ())

    return h


def slice_(e, st, c):
    v = e.load(st, c.args[0])
    if v.op != "agg" or v.a[0] != HS:
        return None
    x = dict(zip([n for n, _ in fields_of(e.prog, HS)], v.a[2]))["slice"]
    if x.op == "ap" and x.a[0] == "bytes":
        return x
    i = [n for n, _ in fields_of(e.prog, HS)].index("slice")
    n = e.prog.nfields(HS, 0)
    return ENG.fat(addr(*sub_place(c.args[0], ("f", i, HS, n))), ENG.seq_len(x))


def sub_place(p, s):
    b, path = ENG.target(p)
    return b, path + (s,)


def utf8(e, st, c):
    x = c.args[0]
    return x.a[1][0] if x.op == "ap" and x.a[0] == "bytes" else None


def parts(e, st, c):
    v = e.load(st, c.args[0])
    x = v.a[2][0] if v.op == "agg" and v.a[0] in DATA and v.a[2] else v
    if x.op != "agg" or x.a[0] != HS:
        return None
    return whole(dict(zip([n for n, _ in fields_of(e.prog, HS)], x.a[2]))["slice"])


def part(k):
    def h(e, st, c):
        d = {"rel_offset": c.args[0], "node": c.args[1], "token": c.args[1]}
        fs = [n for n, _ in e.prog.adts[GC]["fields"][k]]
        return agg(GC, k, tuple(d[n] for n in fs)) if set(fs) <= set(d) else None

    return h


def to_string(e, st, c):
    return mk("ap", "owned", (c.args[0],))


def building():
    r = dict(greens())
    r.update({f"<{A}ThinArc>::from_header_and_iter": from_iter, f"<{A}Arc>::get_mut": get_mut, "spec::green::parts_of": parts, f"<{HS}>::slice": slice_,
              "spec::green::node_part": part(0), "spec::green::token_part": part(1), "core::str::converts::from_utf8_unchecked": utf8,
              "<str as alloc::borrow::ToOwned>::to_owned": to_string, "drop:" + A + "Arc": nodrop, "drop:" + A + "ThinArc": nodrop})
    for n in ("into_thin", "from_thin"):
        r[f"<{A}Arc>::{n}"] = same_value
    for n in DATA:
        r[f"<{n} as core::ops::deref::Deref>::deref"] = deref(n)
    return r


def new_node(e, st, c):
    """a new node, by its kind and the list of its children"""
    outs = listed(e, st, c.args[1], c)
    if outs is None:
        return None
    for o in outs:
        if o.kind == "ret":
            o.val = mk("ap", "new", (c.args[0], whole(o.val)))
    return outs


def listed(e, st, x, c):
    t = (c.a or [None])[-1]
    if x.op == "agg" and x.a[0] in e.prog.adts and not x.a[0].startswith("models::"):
        return None
    if x.op == "seq" or x.op in ("phi", "elem") or t and t[:2] == ("adt", "alloc::vec::Vec"):
        return [Out("ret", ENG.seq_of(x), st)]
    if x.op == "agg":
        return collected(e, st, x, c.d, t)
    return None


def splice(e, st, c):
    import intrinsics as I

    v = e.load(st, c.args[0])
    n = ENG.seq_len(v)
    t = c.atys[1] if c.atys else None
    r = I.rng(e, st, c.args[1], t, n)
    new = c.args[2]
    outs = collected(e, st, new, c.d, (c.a or [None])[-1]) if r is not None and new.op == "agg" else None
    if outs is None:
        w = mk("ap", "spliced", (v, c.args[1], new))
        e.store(st, c.args[0], w)
        return agg("models::Empty", 0, (UNIT,))
    lo, hi = r
    res = []
    for o in outs:
        if o.kind != "ret":
            res.append(o)
            continue
        for ok, s in e.branch(o.st, mk("and", le(lo, hi), le(hi, n))):
            if not ok:
                res.append(Out("panic", None, s, ("splice range", c.site)))
                continue
            s = s.fork()
            f = I.seq_split(e, s, v, lo)
            b = I.seq_split(e, s, v, hi)
            if f is None or b is None:
                return None
            e.store(s, c.args[0], ENG.seq_mk(f[0] + ENG.seq_of(o.val).a[0] + b[1]))
            res.append(Out("ret", UNIT, s))
    return res


def insert(e, st, c):
    import intrinsics as I

    v = e.load(st, c.args[0])
    res = []
    for ok, s in e.branch(st, le(c.args[1], ENG.seq_len(v))):
        if not ok:
            res.append(Out("panic", None, s, ("insert", c.site)))
            continue
        s = s.fork()
        f = I.seq_split(e, s, v, c.args[1])
        if f is None:
            return None
        e.store(s, c.args[0], ENG.seq_mk(f[0] + (("e", c.args[2]),) + f[1]))
        res.append(Out("ret", UNIT, s))
    return res


def remove(e, st, c):
    import intrinsics as I

    v = e.load(st, c.args[0])
    res = []
    for ok, s in e.branch(st, lt(c.args[1], ENG.seq_len(v))):
        if not ok:
            res.append(Out("panic", None, s, ("remove", c.site)))
            continue
        s = s.fork()
        f = I.seq_split(e, s, v, c.args[1])
        b = I.seq_split(e, s, v, add(c.args[1], ONE))
        if f is None or b is None:
            return None
        e.store(s, c.args[0], ENG.seq_mk(f[0] + b[1]))
        res.append(Out("ret", e.project(v, ("x", c.args[1])), s))
    return res


def editing():
    r = dict(greens())
    r.update({f"<{G}node::GreenNode>::new": new_node, "<alloc::vec::Vec>::splice": splice, "<alloc::vec::Vec>::insert": insert, "<alloc::vec::Vec>::remove": remove})
    return r
