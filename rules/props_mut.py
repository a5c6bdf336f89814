"""Mutability of trees: who may edit, and what editable trees hand out."""
from cur import *
from props_place import api_functions, modular, HARD

EDITS = ["<rowan::cursor::SyntaxNode>::detach", "<rowan::cursor::SyntaxToken>::detach", "<rowan::utility_types::NodeOrToken>::detach", "<rowan::cursor::SyntaxNode>::splice_children"]
MAKE_MUT = {"<rowan::cursor::SyntaxNode>::new_root_mut", "<rowan::cursor::SyntaxNode>::clone_for_update"}
CFU = "<rowan::cursor::SyntaxNode>::clone_for_update"


def must(P, n):
    bs = P.by_name.get(n)
    if not bs:
        raise Missing(n)
    return bs[0]


def changed(C, e, st, fields):
    """[(region, field name)] of elements that existed before and were written"""
    r = []
    for region, v in node_contents(st):
        if region.op != "at":
            continue
        ini = e.default(region)
        for n in fields:
            i = getattr(C, n)
            if C.fld(e, v, i) is not C.fld(e, ini, i):
                r.append((region, n))
    return r


PLACE = ("parent", "index", "green", "offset", "mut")


def guard(rep, it):
    """editing an immutable tree panics, with nothing changed"""
    name, mut = it
    P = prog()
    C = Cur(P)
    b = must(P, name)
    e = cursor_engine(P, mut, drops=True)
    outs = e.analyse(b)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = f"{where(b)} mutable={mut}"
    if not outs:
        rep.unk("guard", w, "no path")
    for o in outs:
        if o.kind == "ret":
            rep.bad("guard", w, "returns instead of panicking")
        elif o.kind in ("panic", "abort"):
            ch = changed(C, e, o.st, PLACE + ("rc",)) if mut == 0 else []
            ev = [x for x in o.st.events() if x[0] in ("sll", "hdrop", "free")] if mut == 0 else []
            rep.check(not ch and not ev, "guard", w, f"the tree is changed before the panic: {[n for _, n in ch] + [x[:2] for x in ev]}")
        else:
            rep.unk("guard", w, o.kind)
    for st, kind in states(outs):
        if kind == "iteration" and mut == 0:
            ch = changed(C, e, st, PLACE)
            rep.check(not ch, "guard", w, f"the tree is changed before the panic: {[n for _, n in ch]}")


def flags(rep, it):
    """mutability of new elements, and what is written to existing ones"""
    b, mut = it
    P = prog()
    C = Cur(P)
    e = cursor_engine(P, mut, drops=True, atoms=modular(P, b) if b.name in HARD or b.name in EDITS else None)
    outs = e.analyse(b)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = f"{where(b)} mutable={mut}"
    for st, kind in states(outs):
        for region, v in node_contents(st):
            flag = C.fld(e, v, C.mut)
            if region.op == "heap":
                par = C.opt(st, C.fld(e, v, C.parent))
                if par is False:
                    rep.unk("flag", w, "parent not known")
                elif par is not None:
                    pm = C.fld(e, C.content(e, st, par), C.mut)
                    same = pm is flag or st.facts.equal(pm, flag)
                    rep.check(True if same else False if pm.op == flag.op == "i" else None, "flag", w, f"an element with mutable={flag!r:.40} below a parent with {pm!r:.40}")
                else:
                    want = ONE if b.name in MAKE_MUT or mut == 1 and b.name in EDITS else ZERO
                    rep.check(flag is want if flag.op == "i" else None, "flag", w, f"a new root with mutable={flag!r:.40}")
                continue
            ini = e.default(region)
            if flag is not C.fld(e, ini, C.mut):
                rep.bad("flag-kept", w, "the mutability of an existing element is written")
            if freed(st, region):
                continue
            ch = [n for n in ("parent", "index", "green", "offset") if C.fld(e, v, getattr(C, n)) is not C.fld(e, ini, getattr(C, n))]
            if not ch:
                continue
            if mut == 1:
                if b.name in EDITS or b.impl_of == "core::ops::drop::Drop" and ch:
                    continue
                rep.bad("in-place", w, f"navigation in an editable tree writes {ch} of an existing element")
                continue
            rc = C.fld(e, ini, C.rc)
            d = st.facts.decide(eqi(rc, ONE))
            if d is not True and infeasible(tuple(st.facts.log) + ((eqi(rc, ONE), False),)):
                d = True
            rep.check(True if d is True else False if interpreted(rc) and not any(x.op == "phi" for x in subterms(rc)) else None, "in-place", w,
                      f"{ch} of an existing element are written while other handles to it may exist")
    if mut == 0:
        # the only new roots are those of new trees
        pass


def reports(rep, mut):
    """is_mutable says what the element says"""
    P = prog()
    b = must(P, "<rowan::cursor::SyntaxNode>::is_mutable")
    e = cursor_engine(P, mut)
    rep.funcs.add(b.name)
    for o in e.analyse(b):
        rep.check(o.val is Int(mut) if o.kind == "ret" and o.val.op == "i" else None, "reports", f"{where(b)} mutable={mut}", f"reports {o.val!r:.40}")


def c10(rep):
    P = prog()
    pmap(rep, guard, [(n, 0) for n in EDITS] + [(CFU, 1)])
    pmap(rep, reports, [0, 1])
    items = sorted(((b, m) for b in api_functions(P) for m in (0, 1)), key=lambda x: -len(x[0].blocks))
    pmap(rep, flags, items)


# ------------------------------------------------------------------ C11
NDATA, TDATA = "rowan::green::node::GreenNodeData", "rowan::green::token::GreenTokenData"


def lends(P, t, d=0):
    """the type can hold a borrow of green node data"""
    if t is None or d > 6:
        return False
    if t[0] == "ref":
        return t[2] == ("adt", NDATA, ()) or lends(P, t[2], d + 1)
    if t[0] == "adt":
        n = t[1]
        if n in ("rowan::green::node::Children", "rowan::green::node::GreenNode", "rowan::green::token::GreenToken") or n.startswith("rowan::cursor"):
            return n == "rowan::green::node::Children"
        return any(lends(P, x, d + 1) for x in t[2] if isinstance(x, tuple)) or n == "alloc::borrow::Cow" and any(x == ("adt", NDATA, ()) for x in t[2])
    if t[0] in ("tuple",):
        return any(lends(P, x, d + 1) for x in t[1])
    if t[0] in ("slice", "array"):
        return lends(P, t[1], d + 1)
    return False


def borrowed(v, d=0):
    """pointers handed out: (what, through which constructor)"""
    if v.op == "agg":
        if v.a[0] == "alloc::borrow::Cow":
            return [v.a[2][0]] if v.a[1] == 0 else []
        if v.a[0].startswith(("rowan::green", "rowan::cursor")) and "Children" not in v.a[0]:
            return []
        return [y for x in v.a[2] for y in borrowed(x, d + 1)]
    if v.op in ("addr", "fat", "fld", "ap!"):
        return [v]
    return []


def escape(rep, b):
    P = prog()
    e = cursor_engine(P, 1, drops=True)
    outs = e.analyse(b)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = where(b)
    for o in outs:
        if o.kind != "ret":
            continue
        v = o.val
        if b.sig_out[0] == "adt" and b.sig_out[1] == "alloc::borrow::Cow" and v.op != "agg":
            rep.unk("no-borrow", w, f"result {v!r:.80}")
            continue
        x = [y for y in borrowed(v) if interior(y)]
        rep.check(False if x else True, "no-borrow", w, f"hands out {x[0] if x else None!r:.100} from an editable tree")


def interior(t):
    """the pointer comes out of an element of the tree"""
    return any(x.op == "fld" and x.a[3] == ND for x in subterms(t))


def lent(rep, mut):
    """green() is the green node of this node"""
    P = prog()
    C = Cur(P)
    b = must(P, "<rowan::cursor::SyntaxNode>::green")
    e = cursor_engine(P, mut, drops=True)
    w = f"{where(b)} mutable={mut}"
    rep.funcs.add(b.name)
    for o in e.analyse(b):
        if o.kind != "ret":
            continue
        self_ = mk("param", "self")
        s0 = St()
        c = e.content(s0, e.project(e.content(s0, mk("at", self_)), ("f", 0, NODE, 1)).a[0]) if False else None
        v = o.val
        if v.op != "agg":
            rep.unk("own-green", w, f"result {v!r:.80}")
            continue
        p = v.a[2][0]
        while p.op == "agg" and len(p.a[2]) == 1:
            p = p.a[2][0]
        p = thin(p)
        fs = [x for x in subterms(p) if x.op == "fld" and x.a[3] == ND]
        if len(fs) != 1:
            rep.unk("own-green", w, f"result {p!r:.80}")
            continue
        f = fs[0]
        own = f.a[2] == C.green and not any(x.op == "fld" and x.a[3] == ND for x in subterms(f.a[0]) if x is not f)
        rep.check(own, "own-green", w, f"the result is {p!r:.100}")


def c11(rep):
    P = prog()
    fs = [b for pre in ("rowan::cursor", "rowan::api", "rowan::ast", "rowan::syntax_text", "rowan::utility_types") for b in functions(P, pre)
          if (b.exported or b.impl_of) and not is_fmt(b) and lends(P, b.sig_out) and reaches_tree(P, b)]
    rep.funcs |= {b.name for pre in ("rowan::cursor", "rowan::api", "rowan::ast", "rowan::syntax_text") for b in functions(P, pre) if b.exported or b.impl_of}
    pmap(rep, escape, fs)
    pmap(rep, lent, [0, 1])
    if not fs:
        rep.unk("no-borrow", "cursor", "no function hands out green nodes")


def reaches_tree(P, b):
    return any(t for t in b.sig_in)


CHECKS = {
    "C10": dict(run=c10, technique="path-sensitive dataflow over MIR: guards of the editing operations, the mutability of every element constructed, and the conditions under which an existing element is written",
                explanation="Abstract interpretation of the MIR of every exported function and trait method of the cursor layer, once for immutable and once for editable trees. "
                "In an immutable tree no path of an editing operation returns, and none has written to an element before it panics. Every element constructed has its parent's mutability; roots are editable only "
                "where a mutable constructor makes them. The mutability of an existing element is never written; its place is written only by edits, or where the path has established that its reference count is one.",
                rules={"guard": "editing an immutable tree (or making an editable copy of an editable one) never returns and changes nothing", "flag": "a new element has its parent's mutability; a new root is editable only if made by a mutable constructor",
                       "flag-kept": "the mutability of an existing element is never written", "in-place": "an existing element is written by navigation only in an immutable tree and when its reference count is one",
                       "reports": "is_mutable reports the flag"},
                note="Functions the analysis cannot finish are listed as undecided in the evidence and raise no alarm. "),
    "C11": dict(run=c11, technique="escape analysis over MIR: every exported function whose type can lend green node data, analysed for editable trees",
                explanation="The signatures of all exported functions and trait methods of the cursor and typed layers are searched for results that can hold a borrow of green node data. "
                "Each such function is interpreted abstractly for an editable tree: no path may return a pointer out of an element of the tree. green() is also shown to be the green node of the node itself.",
                rules={"no-borrow": "no path returns a borrow out of an editable tree", "own-green": "green() is the green node of this very node"},
                note=""),
}

if __name__ == "__main__":
    import collections

    r = Rep()
    {"C10": c10, "C11": c11}[sys.argv[1]](r)
    for k, v in collections.Counter((x.st, x.rule, x.where, x.msg) for x in r.es).items():
        if k[0] != "ok":
            print(v, str(k)[:300])
    print(collections.Counter((x.st, x.rule) for x in r.es))
