"""What the cursor layer's values mean: elements, their place in the tree, ownership of handles."""
from base import *


class Cur:
    """field indices and term builders for one program"""

    def __init__(self, P):
        self.P = P
        f = lambda n: field(P, ND, n)
        self.rc, self.parent, self.index = f("rc"), f("parent"), f("index")
        self.green, self.mut, self.offset = f("green"), f("mutable"), f("offset")
        self.n = P.nfields(ND, 0)
        self.gnode, self.gtok = variant(P, GREEN, "Node"), variant(P, GREEN, "Token")
        self.cnode, self.ctok = variant(P, GCHILD, "Node"), variant(P, GCHILD, "Token")

    def fld(self, e, v, i, adt=ND):
        return e.project(v, ("f", i, adt, self.P.nfields(adt, 0)))

    def vfld(self, e, v, var, i, adt):
        return e.project(v, ("v", var, i, adt, self.P.nfields(adt, var)))

    def content(self, e, st, p):
        r, path, _ = target(p)
        return e.read(st, r, path)

    def children(self, e, st, pp):
        """the value holding the children of the element pp points to, and their number"""
        c = self.content(e, st, pp)
        g = self.fld(e, c, self.green)
        gp = self.vfld(e, g, self.gnode, 0, GREEN)
        arr = self.content(e, st, gp)
        HS = "rowan::arc::HeaderSlice"
        si, li = field(self.P, HS, "slice"), field(self.P, HS, "length")
        return self.fld(e, arr, si, HS), self.fld(e, arr, li, HS), gp

    def header(self, e, st, gp):
        HS = "rowan::arc::HeaderSlice"
        return self.fld(e, self.content(e, st, gp), field(self.P, HS, "header"), HS)

    def child(self, e, st, pp, j):
        arr, n, gp = self.children(e, st, pp)
        return e.project(arr, ("x", j)), n

    def payload(self, e, st, el, var):
        """pointer to the green data of child element el seen as variant var (of GreenChild)"""
        own = GN if var == self.cnode else GT
        fs = fields_of(self.P, GCHILD, var)
        i = next((i for i, (n, t) in enumerate(fs) if t and t[0] == "adt" and t[1] == own), None)
        if i is None:
            raise Missing("payload of GreenChild")
        v = self.vfld(e, el, var, i, GCHILD)
        p = self.fld(e, v, 0, own)
        r, path, _ = target(p)
        AI = "rowan::arc::ArcInner"
        return addr(r, path + (("f", field(self.P, AI, "data"), AI, 2),))

    def rel(self, e, el, var):
        i = field(self.P, GCHILD, "rel_offset", var)
        return self.vfld(e, el, var, i, GCHILD)

    def opt(self, st, v):
        """payload of an Option value that is Some, None if it is None, False if unknown"""
        if v.op == "agg":
            return v.a[2][0] if v.a[1] == 1 else None
        d = st.facts.value(mk("discr", v, 1))
        if d == 0:
            return None
        if d == 1:
            return fld(v, 1, 0, OPTION, 1)
        return False


def find_elem(t):
    """the elem(array, index) a pointer to green data points into"""
    for _ in range(40):
        if t.op == "elem":
            return t
        if t.op == "addr":
            if t.a[0].op == "at" and not any(s[0] == "x" for s in t.a[1]):
                t = t.a[0].a[0]
                continue
            if any(s[0] == "x" for s in t.a[1]):
                # pointer into a slice: &arr[i].f.g
                v = mk("ini", t.a[0].a[0]) if t.a[0].op == "at" else None
                return None
            return None
        if t.op == "fat":
            t = t.a[0]
            continue
        if t.op in ("fld", "ini"):
            t = t.a[0]
            continue
        return None
    return None


PRIM_OPS = {"i", "lin", "fld", "ini", "param", "elem", "slen", "at", "addr", "phi", "heap", "agg", "vlen", "discr", "eq0", "le0", "not", "null", "str", "fn"}


def interpreted(t, allow=()):
    """t is built from inputs only (no result of an unknown call)"""
    for x in subterms(t):
        if x.op in PRIM_OPS or x.op in allow:
            continue
        return False
    return True


def differ(a, b, st=None):
    """True: certainly different in general; False: equal; None: cannot tell"""
    if a is b:
        return False
    if st is not None and a.op not in ("agg", "addr") and b.op not in ("agg", "addr"):
        q = st.facts.equal(a, b)
        if q is True:
            return False
        if q is False:
            return True
    if a.op == "agg" and b.op == "agg":
        if a.a[0] != b.a[0]:
            return None
        if a.a[1] != b.a[1]:
            return True
        r = False
        for x, y in zip(a.a[2], b.a[2]):
            d = differ(x, y, st)
            if d:
                return True
            if d is None:
                r = None
        return r
    if not interpreted(a) or not interpreted(b):
        return None
    pa = [x for x in subterms(a) if x.op == "phi"]
    pb = [x for x in subterms(b) if x.op == "phi"]
    d = sub(a, b) if isnum(a) and isnum(b) else None
    if d is not None and d.op == "i":
        return d.a[0] != 0
    if set(pa) != set(pb):
        # loop variables of different loops: their relation is not tracked
        return None if pa and pb else (True if d is None else None)
    return True


def isnum(t):
    return t.op in ("i", "lin", "fld", "phi", "slen", "vlen", "ap", "mul", "elem")


# ------------------------------------------------------------------ C07
def node_contents(st):
    for region, v in st.mem.items():
        if region.op in ("at", "heap") and v.op == "agg" and v.a[0] == ND:
            yield region, v


def sll_inits(st):
    for ev in st.events():
        if ev[0] == "sll" and ev[1] in ("init", "link"):
            yield ev


def placed(C, e, st, v, rep, rule, w, offsets=True):
    """the NodeData v stands at its place below its parent"""
    par = C.opt(st, C.fld(e, v, C.parent))
    idx, g, off, mut = (C.fld(e, v, i) for i in (C.index, C.green, C.offset, C.mut))
    if par is False:
        rep.unk(rule, w, f"parent not known: {C.fld(e, v, C.parent)!r:.120}")
        return
    if par is None:
        return root_placed(C, e, st, v, rep, rule, w)
    var = None
    if g.op == "agg":
        var = g.a[1]
        gp = g.a[2][0]
    else:
        d = st.facts.value(mk("discr", g, 1))
        if d is None:
            rep.unk(rule, w, "node/token nature of the green element not known")
            return
        var, gp = d, fld(g, d, 0, GREEN, 1)
    cv = C.cnode if var == C.gnode else C.ctok
    el, n = C.child(e, st, par, idx)
    want = C.payload(e, st, el, cv)
    if thin(gp) is not thin(want):
        E = find_elem(thin(gp))
        if E is not None and E.op == "elem" and el.op == "elem":
            if E.a[0] is el.a[0]:
                d = sub(E.a[1], idx)
                if d.op == "i" and d.a[0] != 0:
                    rep.bad(rule, w, f"index {idx!r:.100} recorded for the element found at index {E.a[1]!r:.100}")
                elif differ(E.a[1], idx, st):
                    rep.bad(rule, w, f"index {idx!r:.100} recorded for the element found at index {E.a[1]!r:.100}")
                elif E.a[1] is idx:
                    rep.bad(rule, w, "green element is taken as the wrong sort of element")
                else:
                    rep.unk(rule, w, f"index {idx!r:.100} vs {E.a[1]!r:.100}")
                return
            if interpreted(E.a[0]) and interpreted(el.a[0]) and not any(x.op == "phi" for x in subterms(E.a[0]) | subterms(el.a[0])):
                rep.bad(rule, w, f"parent is {par!r:.80} but the element comes from the children of another node")
                return
        rep.unk(rule, w, f"green element {gp!r:.150} not recognised as child {idx!r:.60} of {par!r:.80}")
        return
    rep.ok(rule, w)
    # node/token nature: the path must have seen the variant
    d = st.facts.value(mk("discr", el, 1))
    if d is not None and d != cv:
        rep.bad(rule + "-nature", w, "a node is built from a token or a token from a node")
    else:
        rep.put(OK if d is not None else UNK, rule + "-nature", w, "variant of the child not tested on this path")
    if offsets:
        po = C.fld(e, C.content(e, st, par), C.offset)
        wo = add(po, C.rel(e, el, cv))
        if off is wo:
            rep.ok(rule + "-offset", w)
        else:
            # both sorts of child carry the offset; a path that has not looked gives either
            wo2 = add(po, C.rel(e, el, 1 - cv))
            df = differ(off, wo, st)
            if off is wo2 and d is None:
                rep.unk(rule + "-offset", w, "variant of the child not known")
            elif df:
                rep.bad(rule + "-offset", w, f"offset is {off!r:.200}, expected {wo!r:.200}")
            else:
                rep.unk(rule + "-offset", w, f"offset is {off!r:.200}, expected {wo!r:.200}")
    pm = C.fld(e, C.content(e, st, par), C.mut)
    if pm is mut or st.facts.equal(pm, mut):
        rep.ok(rule + "-mutable", w)
    else:
        rep.put(BAD if pm.op == "i" and mut.op == "i" else UNK, rule + "-mutable", w, f"mutability {mut!r:.60} below a parent with {pm!r:.60}")


def root_placed(C, e, st, v, rep, rule, w):
    idx, off = C.fld(e, v, C.index), C.fld(e, v, C.offset)
    for n, x in (("index", idx), ("offset", off)):
        if x is ZERO:
            rep.ok(rule + "-root", w)
        else:
            rep.put(BAD if x.op == "i" else UNK, rule + "-root", w, f"root with {n} {x!r:.80}")


def loops_of(st, seen=None):
    """all loops on the path, inner ones included"""
    seen = {} if seen is None else seen
    for ev in st.events():
        if ev[0] == "loop" and id(ev[1]) not in seen:
            seen[id(ev[1])] = ev[1]
            for b in ev[1].backs:
                loops_of(b, seen)
    return list(seen.values())


def states(outs):
    """every state at which something may be observed: the ends of paths and of loop iterations"""
    seen = {}
    for o in outs:
        if o.kind == "ret":
            yield o.st, "return"
        for L in loops_of(o.st):
            if id(L) not in seen:
                seen[id(L)] = L
                for b in L.backs:
                    yield b, "iteration"


def c07_function(rep, b, mut, atoms=None):
    P = prog()
    C = Cur(P)
    e = cursor_engine(P, mut, drops=True, atoms=atoms)
    outs = e.analyse(b)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    n = 0
    for st, kind in states(outs):
        for region, v in node_contents(st):
            ini = e.default(region)
            if region.op == "at":
                same = all(C.fld(e, v, i) is C.fld(e, ini, i) for i in (C.parent, C.index, C.green, C.offset))
                if same:
                    continue
                if freed(st, region):
                    continue
            par = C.opt(st, C.fld(e, v, C.parent))
            placed(C, e, st, v, rep, "place", f"{where(b)} mutable={mut}", offsets=(mut == 0))
            n += 1
        for ev in sll_inits(st):
            v = ev[3][1]
            if v.op == "agg" and v.a[0] == ND:
                placed(C, e, st, v, rep, "place", f"{where(b)} mutable={mut} [{ev[1]}]", offsets=False)
                n += 1
    return n


def freed(st, region):
    for ev in st.events():
        if ev[0] == "free":
            r, p, _ = target(ev[1])
            if r is region:
                return True
    return False
