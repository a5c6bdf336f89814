"""C13: the list of an editable node's live children, and their indices, follow every edit."""
from edits import *
from props_place import api_functions, modular

AR = "rowan::sll::AddToSllResult"
DELTA = "rowan::utility_types::Delta"
NULL = mk("null")


class Links:
    def __init__(self):
        P = self.P = prog()
        self.C = Cur(P)
        self.first, self.next, self.prev = (field(P, ND, n) for n in ("first", "next", "prev"))
        self.env = ("adt", ND, ())

    def fn(self, name):
        b = next((b for b in self.P.by_name.get(name, ()) if not b.model), None)
        if b is None:
            raise Missing(name)
        return b

    def run(self, e, b, args=None, st=None):
        return e.analyse(b, args=args, env={g: self.env for g in b.generics}, st=st)

    def var(self, n):
        if AR not in self.P.adts:
            raise Missing(AR)
        return variant(self.P, AR, n)


def feasible(st, atom, v):
    """can the path be taken with the condition so?"""
    q = st.facts.assume(atom, v)
    return q is not None and not infeasible(tuple(q.log))


def le(a, b):
    return le0(sub(a, b))


# ---------------------------------------------------------------- the list operations
class Heap:
    """a state in which a few list members are known and all differ"""

    def __init__(self, K, e):
        self.K, self.e, self.st, self.at = K, e, St(), {}

    def elem(self, name):
        r = mk("heap", "#" + name, uid())
        K = self.K
        vs = [mk("param", f"{name}.{n}") for n, t in fields_of(K.P, ND, 0)]
        vs[K.C.mut] = ONE
        self.st.mem[r] = agg(ND, 0, tuple(vs))
        self.at[name] = r
        return addr(r, ())

    def ptr(self, name):
        return addr(self.at[name], ())

    def set(self, name, f, p):
        self.e.write(self.st, self.at[name], (("f", f, ND, self.K.C.n),), p)

    def get(self, st, name, f):
        return self.e.read(st, self.at[name], (("f", f, ND, self.K.C.n),))

    def ring(self, *names):
        for a, b in zip(names, names[1:] + names[:1]):
            self.set(a, self.K.next, self.ptr(b))
            self.set(b, self.K.prev, self.ptr(a))

    def piece(self, *names):
        """members next to each other in a longer list"""
        for a, b in zip(names, names[1:]):
            self.set(a, self.K.next, self.ptr(b))
            self.set(b, self.K.prev, self.ptr(a))

    def cell(self, name, p):
        r = mk("heap", "#" + name, uid())
        self.st.mem[r] = p
        self.at[name] = r
        return addr(r, ())


def named_ptr(h, p):
    if p is NULL or p.op == "null":
        return "null"
    if p.op == "addr" and not p.a[1]:
        for n, r in h.at.items():
            if r is p.a[0]:
                return n
    return None


def after(rep, rule, w, h, outs, want, head=None):
    """want: {(member, "next"|"prev"): member}; everything else is as it was"""
    K = h.K
    n = 0
    for o in outs:
        if o.kind != "ret":
            if o.kind not in ("panic", "abort"):
                rep.unk(rule, w, o.kind)
                continue
            rep.put(UNK if infeasible(tuple(o.st.facts.log)) else BAD, rule, w, f"stops: {o.why}")
            continue
        n += 1
        for name, r in h.at.items():
            v = o.st.mem[r]
            if name == "head":
                p = named_ptr(h, v)
                if p != head:
                    rep.put(UNK if p is None else BAD, rule, w, f"the list's head is {p or v!r:.40}, not {head}")
                continue
            v0 = h.st.mem[r]
            if v.op != "agg" or v.a[0] != ND:
                rep.unk(rule, w, f"contents of {name} not known")
                continue
            for i, (fname, t) in enumerate(fields_of(K.P, ND, 0)):
                x, x0 = v.a[2][i], v0.a[2][i]
                which = {K.next: "next", K.prev: "prev"}.get(i)
                if which is None:
                    if x is not x0:
                        rep.put(BAD if differ(x, x0) else UNK, rule, w, f"{fname} of {name} changes to {x!r:.40}")
                    continue
                exp = want.get((name, which))
                if exp is None:
                    if x is not x0:
                        rep.put(BAD if named_ptr(h, x) else UNK, rule, w, f"{which} of {name} becomes {named_ptr(h, x) or x!r:.40}, it should stay")
                    continue
                p = named_ptr(h, x)
                if p != exp:
                    rep.put(UNK if p is None and x is not x0 else BAD, rule, w, f"{which} of {name} is {p or x!r:.40}, not {exp}")
    rep.check(True if n else None, rule, w, "no path returns")


def unlink(rep):
    K = Links()
    b = K.fn("rowan::sll::unlink")
    e = cursor_engine(K.P, 1, sll=False)
    rep.funcs.add(b.name)
    for what, names, ring, heads in (("alone", "E", True, "E"), ("of two", "EP", True, "EP"), ("of more", "PEN", False, "PENX")):
        for hd in heads:
            h = Heap(K, e)
            for n in names + ("X" if hd == "X" else ""):
                h.elem(n)
            (h.ring if ring else h.piece)(*names)
            c = h.cell("head", h.ptr(hd))
            outs = K.run(e, b, [c, h.ptr("E")], h.st.fork())
            rep.paths += len(outs)
            if names == "E":
                want, head = {("E", "next"): "E", ("E", "prev"): "E"}, "null"
            elif names == "EP":
                want, head = {("E", "next"): "E", ("E", "prev"): "E", ("P", "next"): "P", ("P", "prev"): "P"}, "P"
            else:
                want = {("E", "next"): "E", ("E", "prev"): "E", ("P", "next"): "N", ("N", "prev"): "P"}
                head = "N" if hd == "E" else hd
            after(rep, "unlink", f"{where(b)} element {what}, head {hd}", h, outs, want, head)


def insert(rep):
    K = Links()
    b = K.fn("<rowan::sll::AddToSllResult>::add_to_sll")
    e = cursor_engine(K.P, 1, sll=False)
    rep.funcs.add(b.name)
    alone = {("E", "next"): "E", ("E", "prev"): "E"}
    cases = [
        ("EmptyHead", "empty list", "", True, None, alone, "E"),
        ("SmallerThanHead", "before one", "H", True, "H", {("E", "next"): "H", ("E", "prev"): "H", ("H", "next"): "E", ("H", "prev"): "E"}, "E"),
        ("SmallerThanHead", "before several", "LH", False, "H", {("E", "next"): "H", ("E", "prev"): "L", ("H", "prev"): "E", ("L", "next"): "E"}, "E"),
        ("SmallerThanNotHead", "after the only one", "C", True, "C", {("E", "next"): "C", ("E", "prev"): "C", ("C", "next"): "E", ("C", "prev"): "E"}, "C"),
        ("SmallerThanNotHead", "after one of several", "CN", False, "X", {("E", "next"): "N", ("E", "prev"): "C", ("C", "next"): "E", ("N", "prev"): "E"}, "X"),
        ("SmallerThanNotHead", "after the last", "CN", False, "N", {("E", "next"): "N", ("E", "prev"): "C", ("C", "next"): "E", ("N", "prev"): "E"}, "N"),
        ("NoHead", "no list", "", True, "X", alone, "X"),
    ]
    for v, what, names, ring, hd, want, head in cases:
        vi = K.var(v)
        h = Heap(K, e)
        h.elem("E")
        for n in names:
            h.elem(n)
        if hd is not None and hd not in h.at:
            h.elem(hd)
        if names:
            (h.ring if ring else h.piece)(*names)
        c = h.cell("head", h.ptr(hd) if hd else NULL)
        pay = () if v == "NoHead" else (h.ptr("C"),) if v == "SmallerThanNotHead" else (c,)
        r = mk("heap", "#result", uid())
        st = h.st.fork()
        st.mem[r] = agg(AR, vi, pay)
        outs = K.run(e, b, [addr(r, ()), h.ptr("E")], st)
        rep.paths += len(outs)
        after(rep, "insert", f"{where(b)} {what}", h, outs, want, head)


def walk(e, K, L, want):
    """the loop's variable that goes from member to member: (phi, first, field it follows), or None"""
    for region, path, ph, init, nexts in L.phis:
        if ph.op != "phi" or not nexts:
            continue
        r, p, _ = target(ph)
        for f, name in ((K.next, "next"), (K.prev, "prev")):
            nx = e.default(r)
            if all(n is K.C.fld(e, nx, f) for n in nexts):
                return ph, init, name
    return None


def link(rep):
    """where the element goes: after the last one with a smaller index; an equal one is reported"""
    K = Links()
    b = K.fn("rowan::sll::link")
    e = cursor_engine(K.P, 1, sll=False)
    h, E = [mk("param", b.locals[i + 1].get("n") or f"arg{i}") for i in range(2)]
    outs = K.run(e, b)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = where(b)
    st0 = St()
    hd = e.load(st0, h)
    names = {K.var(n): n for n in ("NoHead", "EmptyHead", "SmallerThanHead", "SmallerThanNotHead", "AlreadyInSll")}
    key = lambda st, p: K.C.fld(e, K.C.content(e, st, p), K.C.index)
    isnull = mk("ptreq", *sorted((NULL, hd), key=lambda x: x.id))
    for o in outs:
        if o.kind != "ret":
            rep.put(UNK if infeasible(tuple(o.st.facts.log)) or o.kind not in ("panic", "abort") else BAD, "link", w, f"{o.kind}: {o.why}")
            continue
        st, v = o.st, o.val
        changed = [r for r, x in node_contents(st) if r.op in ("at",) and x is not e.default(r) and any(K.C.fld(e, x, f) is not K.C.fld(e, e.default(r), f) for f in (K.next, K.prev, K.C.index))]
        if changed:
            rep.unk("link", w, "links change while looking")
            continue
        if v.op != "agg" or v.a[0] != AR:
            rep.unk("link", w, "result not known")
            continue
        n = names.get(v.a[1])
        pay = v.a[2][0] if v.a[2] else None
        ok = True
        loops = [ev[1] for ev in st.events() if ev[0] == "loop"]
        wk = walk(e, K, loops[0], None) if len(loops) == 1 else None
        if n == "EmptyHead":
            ok = not feasible(st, isnull, False)
            msg = "an empty list is reported although there are members"
        elif n == "SmallerThanHead":
            ok = not feasible(st, le(key(st, hd), key(st, E)), True)
            msg = "an element not before the head is to become the head"
        elif n in ("SmallerThanNotHead", "AlreadyInSll"):
            if feasible(st, isnull, True) and st.facts.decide(isnull) is None:
                ok, msg = False, "a member of a possibly empty list is reported"
            elif n == "AlreadyInSll":
                a, c = key(st, pay), key(st, E)
                ok = st.facts.equal(a, c) is True
                if not ok:
                    ok = False if feasible(st, le(add(a, ONE), c), True) or feasible(st, le(add(c, ONE), a), True) else None
                msg = "an element with another index is reported as being in the list already"
            else:
                ok = not feasible(st, le(key(st, E), key(st, pay)), True)
                msg = "the element is put after one whose index is not smaller"
                if ok and pay is not hd:
                    # the one after it has a greater index: those passed on the way back have
                    hc = K.C.content(e, st0, hd)
                    if wk is not None and wk[0] is pay and wk[2] == "prev" and (wk[1] is hd or wk[1] is K.C.fld(e, hc, K.next)):
                        ok, msg = False, "the search begins at the front: members behind may have smaller indices"
                    elif wk is None or wk[0] is not pay or wk[2] != "prev" or wk[1] is not K.C.fld(e, K.C.content(e, st0, hd), K.prev):
                        ok, msg = None, "the way to the place is not followed"
        else:
            ok, msg = None, "unexpected result"
        rep.check(ok, "link", f"{w} {n}", msg)
        for L in loops:
            wk = walk(e, K, L, None)
            for bk in L.backs:
                if wk is None or wk[2] != "prev":
                    rep.unk("link", w, "the search is not followed")
                    continue
                # passing a member whose index is not greater leaves the order
                rep.check(not feasible(bk, le(key(bk, wk[0]), key(bk, E)), True), "link", f"{w} passing a member", "a member is passed whose index is not greater")


def adjust(rep):
    K = Links()
    b = K.fn("rowan::sll::adjust")
    e = cursor_engine(K.P, 1, sll=False)
    ps = [mk("param", b.locals[i + 1].get("n") or f"arg{i}") for i in range(3)]
    if len(b.sig_in) != 3 or b.sig_in[0][0] != "ref" or b.sig_in[2][:2] != ("adt", DELTA):
        raise Missing("parameters of sll::adjust")
    E, frm, by = ps
    outs = K.run(e, b)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = where(b)
    plus = variant(K.P, DELTA, "Add")
    seen = set()

    def visit(st, L, end):
        wk = walk(e, K, L, None)
        if wk is None:
            rep.unk("adjust", w, "the walk is not followed")
            return
        ph, init, way = wk
        if init is not E:
            rep.unk("adjust", w, f"starts at {init!r:.40}")
            return
        mine = {y[2] for y in L.phis} - {ph}
        if any(x in mine for a, _ in st.facts.log for x in subterms(a)):
            rep.unk("adjust", w, "the walk is steered by more than the place it has come to")
            return
        r = target(ph)[0]
        k0 = K.C.fld(e, e.default(r), K.C.index)
        k1 = K.C.fld(e, e.content(st, r), K.C.index)
        for v in (0, 1):
            amt = fld(by, v, 0, DELTA, 1)
            s = st.assume(eqi(mk("discr", by, 1), Int(v)))
            s = s and s.assume(le(ONE, amt))
            if s is None:
                continue
            for hit in (True, False):
                q = s.assume(le(frm, k0), hit)
                if q is None or infeasible(tuple(q.facts.log)):
                    continue
                want = (add(k0, amt) if v == plus else sub(k0, amt)) if hit else k0
                same = k1 is want or q.facts.equal(k1, want) is True
                rep.check(True if same else False if interpreted(k1) else None, "adjust", f"{w} {'index in range' if hit else 'smaller index'}, {'Add' if v == plus else 'Sub'}", f"index becomes {k1!r:.60}, not {want!r:.60}")
        nx = K.C.fld(e, e.default(r), K.next if way == "next" else K.prev)
        back = mk("ptreq", *sorted((nx, E), key=lambda x: x.id))
        if end:
            ok = not feasible(st, back, False)
            rep.check(True if ok else False if way == "next" else None, "adjust", f"{w} end of the walk", "the walk may end before every member was seen")
        else:
            rep.check(not feasible(st, back, True), "adjust", f"{w} next member", "the walk may go on past the member it began with")

    for o in outs:
        if o.kind != "ret":
            if o.kind not in ("panic", "abort"):
                rep.unk("adjust", w, o.kind)
            continue
        loops = [ev[1] for ev in o.st.events() if ev[0] == "loop"]
        if len(loops) != 1:
            rep.unk("adjust", w, "no single walk over the list")
            continue
        visit(o.st, loops[0], True)
        if id(loops[0]) not in seen:
            seen.add(id(loops[0]))
            for bk in loops[0].backs:
                visit(bk, loops[0], False)


# ---------------------------------------------------------------- how the operations are used
def cell_of(p):
    """(region, path) of the list head an operation is given"""
    if p.op == "agg" and len(p.a[2]) == 1:
        p = p.a[2][0]
    r, path, _ = target(p)
    return r, path


def heads(K, p, cell):
    """is it the list of the element p points to?"""
    r, path = cell
    r2, path2, _ = target(p)
    want = path2 + (("f", K.first, ND, K.C.n),)
    if r is r2:
        return path == want
    return False if r.op in ("at", "heap") and interpreted(r) and interpreted(r2) and not any(x.op == "phi" for x in subterms(r) | subterms(r2)) else None


def snap_index(K, e, v):
    return K.C.fld(e, v, K.C.index) if v is not UNDEF and v is not None and (v.op in ("ini", "agg")) else None


def joins(rep, w, K, e, s):
    C = K.C
    absent = [n for n in SLL if K.P.body(n) is None]
    if absent and s.joined:
        rep.unk("listed", w, f"no function {absent[0]}")
        return
    adds = s.sll("add_to_sll")
    for region, p, v0, v1 in s.joined:
        mine = [(i, ev) for i, ev in adds if region_of(ev[2][1]) is region]
        if not mine:
            sure = (not s.loops() or not anywhere(s, ("add_to_sll",))) and all(region_of(ev[2][1]).op in ("at", "heap") for _, ev in adds) and not any(ev[0] == "call" for ev in s.evs)
            rep.put(BAD if sure else UNK, "listed", w, f"an element that gets the parent {p!r:.60} is not entered in its list")
            continue
        if len(mine) > 1:
            rep.bad("listed", w, "an element is entered twice")
            continue
        i, ev = mine[0]
        res = ev[3][0]
        at = [(j, x) for j, x in s.sll("init", "link") if x[4] is res]
        if not at:
            rep.unk("listed", w, f"place {res!r:.60} not known")
            continue
        j, x = at[0]
        ok = heads(K, p, cell_of(x[2][0]))
        rep.check(ok, "listed", w, f"an element of the parent {p!r:.60} is entered in the list {cell_of(x[2][0])[0]!r:.60}")
        k0 = snap_index(K, e, x[3][1])
        k1 = C.fld(e, v1, C.index)
        if k0 is None:
            rep.unk("listed", w, "index at the time not known")
        else:
            d = differ(k0, k1, s.to)
            rep.check(True if d is False else False if d else None, "listed", w, f"the place is looked for by index {k0!r:.60}, the element has {k1!r:.60}")
        dup = eqi(mk("discr", res, 1), Int(K.var("AlreadyInSll")))
        dv = s.to.facts.value(e.discr(s.to, res, AR))
        rep.check(dv != K.var("AlreadyInSll") and s.to.facts.decide(dup) is not True, "listed", w, "a second element is made for a child that has one")
        moved = [(k, y) for k, y in s.sll("adjust") if k < i or k > i]
        if v0 is None:
            rep.check(not moved, "shift", w, "indices are shifted although no child is inserted")
            continue
        # attached: later siblings move up
        first = None
        isnull = None
        for k, y in moved:
            idx = C.fld(e, v1, C.index)
            d = sub(y[3][1], idx)
            who = region_of(y[2][0])
            if y[3][2].op != "agg":
                rep.unk("shift", w, "direction not known")
            elif y[3][2].a[1] != variant(K.P, DELTA, "Add"):
                continue
            else:
                isnull = True
                amt = y[3][2].a[2][0]
                rep.check(True if amt is ONE else False if amt.op == "i" else None, "shift", w, f"indices move up by {amt!r:.30}")
                rep.check(True if d is ZERO else False if d.op == "i" else None, "shift", w, f"on inserting at {idx!r:.40} indices from {y[3][1]!r:.40} on move up")
                rep.check(False if who is region else None if k > i else True, "shift", w, "the walk starts at the element inserted" if who is region else "indices move after the element is entered")
        if not isnull:
            fp = C.fld(e, C.content(e, s.frm if region_of(p) in s.frm.mem else s.to, p), K.first)
            q = mk("ptreq", *sorted((NULL, fp), key=lambda x: x.id))
            f = s.to.facts.decide(q)
            rep.check(True if f is True else None if s.loops() and fp.op == "phi" else False, "shift", w, "a child is inserted and the indices of the live children behind it stay")


def leaves(rep, w, K, e, s):
    absent = [n for n in SLL if K.P.body(n) is None]
    if absent and s.left:
        rep.unk("unlisted", w, f"no function {absent[0]}")
        return
    C = K.C
    for region, p, v0, v1, gone in s.left:
        un = [(i, ev) for i, ev in s.sll("unlink") if region_of(ev[2][1]) is region]
        if not un:
            sure = not anywhere(s, ("unlink",)) and not any(ev[0] == "call" for ev in s.evs)
            rep.put(BAD if sure else UNK, "unlisted", w, f"an element {'released' if gone else 'taken out'} stays in the list of {p!r:.60}")
            continue
        if len(un) > 1:
            rep.bad("unlisted", w, "an element is taken out twice")
        i, ev = un[0]
        rep.check(heads(K, p, cell_of(ev[2][0])), "unlisted", w, f"a child of {p!r:.60} is taken out of the list {cell_of(ev[2][0])[0]!r:.60}")
        fr = [k for k, x in enumerate(s.evs) if x[0] == "free" and region_of(x[1]) is region]
        if fr:
            rep.check(True, "unlisted", w, "")
        downs = [(k, y) for k, y in s.sll("adjust") if y[3][2].op == "agg" and y[3][2].a[1] == variant(K.P, DELTA, "Sub")]
        if gone:
            continue
        if not downs:
            sure = not s.loops() or all(not [x for x in L.phis if x[1] and x[1][-1][:2] == ("f", C.index)] for L in s.loops())
            rep.put(BAD if sure else UNK, "shift", w, "a child is taken out and the indices of the live children behind it stay")
        for k, y in downs:
            idx = C.fld(e, v0, C.index)
            d = sub(y[3][1], idx)
            who = region_of(y[2][0])
            amt = y[3][2].a[2][0]
            rep.check(True if amt is ONE else False if amt.op == "i" else None, "shift", w, f"indices move down by {amt!r:.30}")
            if who is region:
                rep.check(k < i, "shift", w, "indices move down after the element left the list")
                rep.check(True if d is ONE else False if d.op == "i" else None, "shift", w, f"on taking out {idx!r:.40} indices from {y[3][1]!r:.40} on move down")
            else:
                # a walk that starts elsewhere may pass the element itself
                rep.check(True if d is ONE else False if d.op == "i" and d is not ZERO else None, "shift", w, f"on taking out {idx!r:.40} indices from {y[3][1]!r:.40} on move down")


def protocol(rep, b):
    K = Links()
    outs = None
    for mod in (False, True):
        e = ledger_engine(K.P, 1, atoms=modular(K.P, b) if mod else None, budget=300000)
        try:
            outs = e.analyse(b)
            break
        except Undecided as x:
            if "budget" not in str(x) or mod:
                raise
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = where(b)
    n = 0
    for s, L in stretches(e, K.C, outs):
        if infeasible(tuple(s.to.facts.log)):
            continue
        n += 1
        for r in s.unclear:
            rep.unk("listed", w, f"parent of {r!r:.80} not known")
        joins(rep, w, K, e, s)
        leaves(rep, w, K, e, s)
        if not s.joined and not [x for x in s.left if not x[4]] and s.sll("adjust"):
            rep.unk("shift", w, "indices move although nothing joins or leaves")
    if n:
        rep.ok("listed", w)


def guarded(f):
    def g(rep, *a):
        try:
            f(rep, *a)
        except (Undecided, Missing) as x:
            rep.unk(f.__name__, f.__name__, str(x)[:200])

    return g


def leaf(rep, it):
    guarded({"unlink": unlink, "insert": insert, "link": link, "adjust": adjust}[it])(rep)


def item(rep, it):
    if isinstance(it, str):
        leaf(rep, it)
    else:
        protocol(rep, it)


def run(rep):
    P = prog()
    pmap(rep, item, ["unlink", "insert", "link", "adjust"] + sorted(api_functions(P), key=lambda b: -len(b.blocks)))


CHECKS = {
    "C13": dict(run=run, technique="heap-shape analysis of the sibling list over MIR (case enumeration on symbolic rings, loop invariants by induction) and a protocol analysis of its uses in every exported function",
                explanation="The functions of the sibling list are interpreted on symbolic rings: removal of any of the elements of a ring of one, two or three and of an element with unknown neighbours, insertion into a ring, "
                "the search for the place of an index (each exit and each iteration), and the shift of indices. The search has to pass exactly the elements with greater indices and to insert in front of the first that is not; "
                "the shift has to visit every element from the edited one on and change exactly the indices of those concerned. Then every exported function and trait method of the cursor layer is analysed for editable trees: an element that comes to have a parent is "
                "entered in the parent's list (under its index, and an existing entry is used instead), one that loses its parent or is released is taken out, and an edit at an index is accompanied by the shift of the others.",
                rules={"unlink": "removal of an element leaves the rest of the ring linked and moves the head", "insert": "insertion links the element on both sides", "link": "the place in the list is found by index; an element found there is returned",
                       "adjust": "exactly the elements behind the edit get an index shifted by one", "listed": "an element that gets a parent is entered in its list", "unlisted": "an element that loses its parent or is released is taken out", "shift": "an edit of the child list comes with the shift of the indices behind it"},
                note="The ring is assumed sorted and closed on entry (induction over the operations analysed). "),
}
if __name__ == "__main__":
    import collections

    r = Rep()
    run(r)
    for k, v in collections.Counter((x.st, x.rule, x.where, x.msg) for x in r.es).items():
        if k[0] != "ok":
            print(v, str(k)[:400])
    print(collections.Counter((x.st, x.rule) for x in r.es))
