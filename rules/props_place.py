"""C07: every element reached by navigation knows its own place in the tree."""
from cur import *

HARD = {"<rowan::cursor::SyntaxNode>::splice_children", "<rowan::cursor::SyntaxNode>::token_at_offset"}


def api_functions(P):
    """functions of the cursor layer that can be entered from outside of it"""
    for b in functions(P, "rowan::cursor"):
        if is_fmt(b) or not (b.exported or b.impl_of):
            continue
        if b.impl_of == "core::ops::drop::Drop":
            continue
        yield b


def opaque_call(P, n, ret=None):
    """a call of an operation that is analysed on its own"""

    def h(e, st, c):
        r = fresh("op:" + short(n), *c.args)
        st.event("op", n, tuple(c.args), r, c.site)
        return UNIT if ret == ("tuple", ()) else r

    return h


def modular(P, b):
    """the other exported operations as atoms"""
    return {x.name: opaque_call(P, x.name, x.sig_out) for x in api_functions(P) if x.name != b.name and not x.impl_of}


def place_fn(rep, it):
    b, mut = it
    c07_function(rep, b, mut, atoms=modular(prog(), b) if b.name in HARD else None)


def offsets_mut(rep, b):
    """the start computed for an element of an editable tree: sum of the relative offsets up to the root"""
    P = prog()
    C = Cur(P)
    e = cursor_engine(P, 1, drops=True)
    outs = e.analyse(b)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = where(b) + " mutable=1"
    any_ = False
    for o in outs:
        if o.kind != "ret":
            continue
        hit = False
        for L in loops_of(o.st):
            ptr = [x for x in L.phis if x[2].op in ("phi",) and any(is_parent(C, e, n, x[2], L.backs[i]) for i, n in enumerate(x[4]))]
            num = [x for x in L.phis if x not in ptr and x[2].op in ("phi", "lin") and all(isnum(sub(n, x[2])) or True for n in x[4])]
            for _, _, pp, pi, pn in ptr:
                if not all(is_parent(C, e, n, pp, L.backs[i]) for i, n in enumerate(pn)):
                    rep.unk("offset-sum", w, "an iteration does not go to the parent")
                    continue
                for _, _, ph, init, nexts in num:
                    if subterms(ph) & subterms(pp) and ph is pp:
                        continue
                    good = True
                    for i, nx in enumerate(nexts):
                        if nx.op in ("agg", "undef", "addr", "fat"):
                            good = None
                            break
                        d = sub(nx, ph)
                        want = rel_of(C, e, L.backs[i], pp)
                        if d not in want:
                            good = False if interpreted(d) and any(x.op == "ini" for x in subterms(d)) and good is not None else None
                            msg = f"an iteration adds {d!r:.200}, expected the relative offset of the element among its siblings"
                            break
                    if good is None:
                        continue
                    hit = any_ = True
                    if not good:
                        rep.bad("offset-sum", w, msg)
                    elif init is not ZERO:
                        rep.put(BAD if init.op == "i" or interpreted(init) and not has_phi(init) else UNK, "offset-sum", w, f"sum starts at {init!r:.60}")
                    else:
                        rep.ok("offset-sum", w)
    if not any_:
        rep.unk("offset-sum", w, "no sum over the ancestors recognised")


def known_range(rep, it):
    """the range an element reports: from its start, as long as its green data says"""
    b, mut = it
    P = prog()
    C = Cur(P)
    e = cursor_engine(P, mut, drops=True)
    w = where(b) + f" mutable={mut}"
    outs = e.analyse(b)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    ptr = C.fld(e, e.load(St(), mk("param", b.locals[1].get("n") or "arg0")), 0, b.sig_in[0][2][1])
    node = b.sig_in[0][2][1] == NODE
    me = mk("ini", ptr)
    for o in outs:
        if o.kind != "ret":
            continue
        v = o.val
        if v is None or v.op != "agg" or not v.a[0].endswith("::TextRange") or len(v.a[2]) != 2:
            rep.unk("range", w, f"range {v!r:.100} not recognised")
            continue
        start, end = v.a[2]
        if any(x.op in ("agg", "undef", "addr", "fat") for x in (start, end)):
            rep.unk("range", w, "start or end not recognised")
            continue
        root = C.opt(o.st, C.fld(e, me, C.parent)) is None
        noted = C.fld(e, me, C.offset)
        if mut == 0:
            if start is noted or root and start is ZERO:
                rep.ok("range", w)
            else:
                rep.put(BAD if interpreted(start) and not has_phi(start) else UNK, "range", w, f"starts at {start!r:.120}, expected the offset noted in the element")
        else:
            sums = good_sums(C, e, o, ptr)
            if start in sums or root and start is ZERO:
                rep.ok("range", w)
            elif not root and (start.op == "i" or start is noted):
                rep.bad("range", w, f"starts at {start!r:.60} wherever the element is in the editable tree")
            elif interpreted(start) and not has_phi(start) and deep(C, e, o.st, ptr):
                rep.bad("range", w, f"starts at {start!r:.100}: what is before its ancestors is not counted")
            else:
                rep.unk("range", w, f"start {start!r:.100} not recognised")
        n = sub(end, start)
        g = C.fld(e, me, C.green)
        if node:
            want = text_len_of(C, e, ptr)
            if n is want:
                rep.ok("range", w)
            else:
                rep.put(BAD if interpreted(n) and not has_phi(n) else UNK, "range", w, f"length {n!r:.120}, expected {want!r:.100}")
        elif n.op == "i" or g not in subterms(n):
            rep.put(BAD if n.op == "i" else UNK, "range", w, f"length {n!r:.120} is not that of the token's text")
        else:
            rep.ok("range", w)


def deep(C, e, st, p):
    """nothing on the path says how many ancestors the element at p has"""
    for _ in range(30):
        q = C.opt(st, C.fld(e, mk("ini", p), C.parent))
        if q is None:
            return False
        if q is False:
            return True
        p = q
    return False


def text_len_of(C, e, ptr):
    """the length noted in the header of the green node of the element at ptr"""
    H = "rowan::green::node::GreenNodeHead"
    return C.fld(e, C.header(e, St(), C.children(e, St(), ptr)[2]), field(C.P, H, "text_len"), H)


def has_phi(t):
    return any(x.op == "phi" for x in subterms(t))


def good_sums(C, e, o, ptr):
    """loop variables which are the sum of the relative offsets from the element at ptr up to the root"""
    r = set()
    for L in loops_of(o.st):
        ups = [x for x in L.phis if x[2].op == "phi" and x[4] and all(is_parent(C, e, n, x[2], L.backs[i]) for i, n in enumerate(x[4]))]
        for u in ups:
            for _, _, ph, init, nexts in L.phis:
                if ph.op not in ("phi", "lin") or init is not ZERO:
                    continue
                if all(nx.op not in ("agg", "undef", "addr", "fat") and sub(nx, ph) in rel_of(C, e, L.backs[i], u[2]) for i, nx in enumerate(nexts)):
                    r.add(ph)
    return r


def is_parent(C, e, n, ph, st):
    if n.op in ("agg", "undef"):
        return False
    q = C.opt(st, C.fld(e, mk("ini", ph), C.parent))
    return q is not None and q is not False and thin(n) is thin(q)


def rel_of(C, e, st, p):
    """relative offset of the element p points to, as found in its parent's children"""
    c = mk("ini", p)
    q = C.opt(st, C.fld(e, c, C.parent))
    if not isinstance(q, T):
        return ()
    el, n = C.child(e, St(), q, C.fld(e, c, C.index))
    return tuple(C.rel(e, el, v) for v in (0, 1))


def run(rep):
    P = prog()
    bs = [b for b in api_functions(P)]
    items = sorted(((b, m) for b in bs for m in (0, 1)), key=lambda x: -len(x[0].blocks))
    pmap(rep, place_fn, items)
    for n in ("<rowan::cursor::NodeData>::offset_mut",):
        for b in P.by_name.get(n, []):
            pmap(rep, offsets_mut, [b])
    for n in ("<rowan::cursor::SyntaxNode>::text_range", "<rowan::cursor::SyntaxToken>::text_range"):
        bs = P.by_name.get(n, [])
        if not bs:
            rep.unk("range", n, "function not found")
        pmap(rep, known_range, [(b, m) for b in bs for m in (0, 1)])


CHECKS = {
    "C07": dict(
        run=run,
        technique="value provenance over MIR: every element constructed in the cursor layer, all paths, loops by fixpoint",
        explanation="Abstract interpretation of the MIR of every exported function and trait method of the cursor layer, "
        "once for immutable and once for editable trees, following calls into all private helpers and across the green layer. "
        "At every return and at the end of every loop iteration each element (NodeData) that was created or whose place was "
        "overwritten is inspected: its green data has to be the payload of child number `index` of the green data of `parent`, "
        "of the sort (node/token) found there, its offset the parent's plus that child's relative offset, its mutability the parent's; "
        "without a parent, index and offset have to be zero.",
        rules={"place": "the green data of a created element is the payload of child `index` of its parent's green data",
               "place-nature": "it is a node iff that child is a node", "place-offset": "offset = parent's offset + relative offset of the child",
               "place-mutable": "mutability equals the parent's", "place-root": "a root has index 0 and offset 0",
               "offset-sum": "the start of an element of an editable tree is the sum of the relative offsets of it and its ancestors",
               "range": "the range reported is from the noted offset (immutable) or that sum (editable), and as long as the green data says"},
        assumptions=["relative offsets stored in green children are right (decided by C04)", "the tree is well placed before the operation"],
        note="All paths of all exported cursor operations; functions the analysis cannot finish are listed as undecided in the evidence and raise no alarm.",
    ),
}
