"""C12: an edit rebuilds the green tree from the edited node up to the root."""
from edits import *
from props_mem import phis_in
from props_place import api_functions, modular

GNT, GTT = "rowan::green::node::GreenNode", "rowan::green::token::GreenToken"


def base_in(e, C, st, p):
    """the allocation of the green node of the element p points to, in a state"""
    r = region_of(p)
    if r.op not in ("at", "heap"):
        return None
    v = node_of(e, C, st, r)
    if v is None:
        if r.op != "at":
            return None
        v = e.default(r)
    g = C.fld(e, v, C.green)
    if g.op == "agg":
        return arc_base(e, g.a[2][0]) if g.a[1] == C.gnode else None
    if g.op == "phi" and not g.a:
        return None
    return arc_base(e, fld(g, C.gnode, 0, GREEN, 1))


def content(e, C, st, r):
    v = node_of(e, C, st, r)
    return v if v is not None else e.default(r)


def element(e, el):
    """(is a node, the pointer it owns, its handle) of an owned green element"""
    if el.op != "agg" or len(el.a[2]) != 1:
        return None
    node = el.a[1] == 0
    return node, handle_base(e, el.a[2][0], GNT if node else GTT), el.a[2][0]


NUMS = ("i", "lin", "fld", "param", "phi", "vlen")


class Edit:
    def __init__(self, rep, w, e, C, s, L):
        self.rep, self.w, self.e, self.C, self.s, self.L = rep, w, e, C, s, L
        self.just = []  # (element, new green node of it, what from)
        self.used = set()

    def base(self, g):
        return handle_base(self.e, g, GNT)

    def same(self, a, b):
        """equal, different, unknown"""
        if a is b:
            return True
        d = differ(a, b, self.s.to)
        if d is None and self.L is not None:
            # in the first iteration of a loop
            x = at_entry(self.L, sub(a, b)) if a.op in NUMS and b.op in NUMS else None
            if x is not None and not phis_in(x) and interpreted(x) and not infeasible((*self.L.entry.facts.log, (eqi(x, ZERO), False))):
                return False
        if d is None and a.op in NUMS and b.op in NUMS:
            # the result of a search from the front: what it stops at has to settle the place
            x = sub(a, b)
            for L in self.s.loops():
                for y in L.phis:
                    if y[2] in (a, b) and y[3] is ZERO and y[4] and all(sub(z, y[2]) is ONE for z in y[4]) and not infeasible((*self.s.to.facts.log, (eqi(x, ZERO), False))):
                        return False
        return None if d is None else not d

    def put(self, r, rule, msg):
        self.rep.check(r, rule, self.w, msg)

    def find(self, names, p):
        """edits of the green node of the element p points to"""
        b = base_in(self.e, self.C, self.s.frm, p)
        out = []
        for i, ev in self.s.edits():
            if ev[1] in names and arc_base(self.e, ev[2][0]) is b:
                out.append((i, ev))
        return out

    def sources(self):
        e, C, s = self.e, self.C, self.s
        for region, p, v0, v1, gone in s.left:
            if gone:
                continue
            idx = C.fld(e, v0, C.index)
            c = self.find(("remove_child",), p)
            if len(c) != 1:
                other = [ev for _, ev in s.edits() if id(ev) not in self.used]
                sure = not c and not other and not any(ev[0] == "call" for ev in s.evs) and not self.inner_edits()
                self.put(False if sure else None, "taken-out", f"an element is taken out of {p!r:.60} and the content of that node stays" if sure else "edit not found")
                continue
            ev = c[0][1]
            self.used.add(id(ev))
            self.put(self.same(ev[2][1], idx), "taken-out", f"the element at {idx!r:.60} is taken out, the content at {ev[2][1]!r:.60} removed")
            for k, y in s.sll("adjust"):
                if k < c[0][0]:
                    hit = feasible_(s.to, le(y[2][1], idx), True)
                    self.put(False if hit and interpreted(y[2][1]) and not phis_in(y[2][1]) else None if hit else True, "taken-out", f"indices from {y[2][1]!r:.60} on are shifted before the content at {idx!r:.60} is removed by that index")
            self.just.append((region_of(p), ev[3], "removal"))
        for region, p, v0, v1 in s.joined:
            if v0 is None:
                continue
            idx = C.fld(e, v1, C.index)
            c = self.find(("insert_child",), p)
            if len(c) != 1:
                other = [ev for _, ev in s.edits() if id(ev) not in self.used]
                sure = not c and not other and not any(ev[0] == "call" for ev in s.evs) and not self.inner_edits()
                self.put(False if sure else None, "put-in", f"an element is attached to {p!r:.60} and the content of that node stays" if sure else "edit not found")
                continue
            ev = c[0][1]
            self.used.add(id(ev))
            self.put(self.same(ev[2][1], idx), "put-in", f"the element gets the index {idx!r:.60}, its content is put at {ev[2][1]!r:.60}")
            x = element(e, ev[2][2])
            b = s.base(s.to, C.fld(e, v1, C.green))
            if x is None or b is None:
                self.put(None, "put-in", "content put in not known")
            else:
                d = x[1] is b
                self.put(True if d else False if interpreted(x[1]) and x[1].op == b.op else None, "put-in", f"the content {x[1]!r:.60} is put in for an element with the content {b!r:.60}")
            # at an impossible place the edit stops half way: it has to have been excluded
            n = C.children(e, s.frm, p)[1]
            self.put(True if not feasible_(s.to, le(add(n, ONE), ev[2][1]), True) else False, "bounds", f"{ev[2][1]!r:.60} may lie behind the end of the children of {p!r:.60} when the element is already attached")
            self.just.append((region_of(p), ev[3], "insertion"))

    def inner_edits(self):
        seen = {}
        for L in self.s.loops():
            inner(L, seen)
        return any(ev[0] in ("edit", "call") for L in seen.values() for b in L.backs for ev in b.events()[len(L.hst.events()):])

    def pairs_of(self, L):
        """variables of a loop that hold an element and its new content: an iteration puts it there"""
        gs = [y for y in L.phis if y[2].op == "phi"]
        out = []
        for y in gs:
            r = mk("at", y[2])
            for st, n in [(b, len(L.hst.events())) for b in L.backs]:
                s = Stretch(self.e, self.C, L.hst, st, n, "")
                b = s.written.get(r)
                if b is not None:
                    for z in gs:
                        if self.base(z[2]) is b and (y, z) not in out:
                            out.append((y, z))
        if not L.backs or not out:
            for y in gs:
                b = self.s.written.get(mk("at", y[2]))
                for z in gs:
                    if b is not None and self.base(z[2]) is b:
                        out.append((y, z))
        return out

    def steps(self):
        """the parent of an element with new content gets new content"""
        e, C, s = self.e, self.C, self.s
        for i, ev in s.edits():
            if ev[1] != "replace_child" or id(ev) in self.used:
                continue
            x = element(e, ev[2][2])
            hit = [j for j in self.just if x is not None and x[0] and (j[1] is x[2] or self.base(j[1]) is x[1])]
            if not hit:
                continue
            r = hit[0][0]
            v = content(e, C, s.frm, r)
            p = C.opt(s.to, C.fld(e, v, C.parent))
            if p is None or p is False:
                self.put(None, "up", "parent not known")
                continue
            self.used.add(id(ev))
            bp = base_in(e, C, s.frm, p)
            ab = arc_base(e, ev[2][0])
            self.put(True if ab is bp else None if bp is None or not interpreted(ab) else False, "up", f"not the content of the parent {p!r:.60} is changed but {ab!r:.60}")
            idx = C.fld(e, v, C.index)
            self.put(self.same(ev[2][1], idx), "up", f"in the parent of an element at {idx!r:.60} the content at {ev[2][1]!r:.60} is replaced")
            self.just.append((region_of(p), ev[3], "step"))

    def run(self):
        e, C, s, L = self.e, self.C, self.s, self.L
        passed = set()
        self.sources()
        mine = self.pairs_of(L) if L else []
        for y, z in mine:
            self.just.append((mk("at", y[2]), z[2], "loop variable"))
        self.steps()
        self.steps()
        for L2 in s.loops():
            for y, z in self.pairs_of(L2):
                r0, g0 = region_of(y[3]), z[3]
                hit = [k for k, j in enumerate(self.just) if j[0] is r0 and j[1] is g0]
                passed.update(hit)
                if not hit:
                    self.put(False if [j for j in self.just if (j[0] is r0) != (j[1] is g0)] and interpreted(y[3]) else None, "loop-entry", f"{y[3]!r:.60} is to get the content {g0!r:.60}")
                else:
                    self.put(True, "loop-entry", "")
                self.just.append((mk("at", y[2]), z[2], "in loop"))
        # what is put where
        for r, b in s.written.items():
            c = [j for j in self.just if j[0] is r]
            if any(self.base(j[1]) is b for j in c):
                self.put(True, "written", "")
            else:
                self.put(False if c and interpreted(b) else None, "written", f"{r!r:.60} gets the content {b!r:.60}" + (f", not {self.base(c[0][1])!r:.60}" if c else ""))
        # no change is lost
        nexts = [(region_of(y[4][i]), z[4][i]) for y, z in mine for i in range(len(L.backs)) if L.backs[i] is s.to] if L else []
        for k, (r, g, what) in enumerate(self.just):
            done = s.written.get(r) is self.base(g)
            if what == "in loop":
                if not done:
                    continue  # left in front of the write: the loop's own rule
            elif not (done or k in passed or (r, g) in nexts):
                sure = not self.inner_edits() and not any(ev[0] == "call" for ev in s.evs) and (not L or bool(mine) or not nexts)
                self.put(False if sure and what != "loop variable" else None, "kept", f"the new content of {r!r:.60} is not put there")
                continue
            else:
                self.put(True, "kept", "")
            if not done:
                continue
            p = C.opt(s.to, C.fld(e, content(e, C, s.to, r), C.parent))
            if p is None:
                self.put(True, "to-root", "")
            elif p is False:
                self.put(None, "to-root", f"parent of {r!r:.60} not known")
            else:
                up = [j for j in self.just if j[0] is region_of(p)]
                sure = not any(ev[0] == "call" for ev in s.evs) and not (self.inner_edits() and what != "in loop")
                self.put(True if up else False if sure else None, "to-root", f"{r!r:.60} has new content, its parent {p!r:.60} keeps the old")
        for (r, g) in nexts:
            self.put(True if any(j[0] is r and j[1] is g for j in self.just) else None, "loop-step", f"{r!r:.60} is to get {g!r:.60} next")


def feasible_(st, atom, v):
    if atom.op == "i":
        return bool(atom.a[0]) == v
    d = st.facts.decide(atom)
    if d is not None:
        return d == v
    return not infeasible(tuple(st.facts.log) + ((atom, v),))


# ------------------------------------------------------------------ runs of edits
def at_entry(L, t, which=None):
    """a term over the loop variables at entry, or at the end of an iteration"""
    m = {y[2]: (y[3] if which is None else y[4][which]) for y in L.phis if y[2].op == "phi"}
    return subst(t, m)


def splice(rep, w, e, C, P, outs, params):
    """the run of children [start, end) is taken out and the new ones are put at start, start + 1, ..."""
    seen = {}
    n = 0
    for o in outs:
        if o.kind == "ret":
            for ev in o.st.events():
                if ev[0] == "loop":
                    inner(ev[1], seen)
    rng = params[1]
    start, end = (e.project(rng, ("f", i, "core::ops::range::Range", 2)) for i in (0, 1))
    for L in seen.values():
        k = len(L.hst.events())
        cnt = [y for y in L.phis if y[2].op == "phi" and y[4] and all(sub(x, y[2]) is ONE for x in y[4]) and isnum(y[3])]
        for i, b in enumerate(L.backs):
            if infeasible(tuple(b.facts.log)):
                continue
            evs = b.events()[k:]
            ins = [ev for ev in evs if ev[0] == "edit" and ev[1] == "insert_child"]
            out = [ev for ev in evs if ev[0] == "op" and ev[1].endswith("::detach")]
            if len(ins) == 1:
                at = ins[0][2][1]
                a0, a1 = at_entry(L, at), at_entry(L, at, i)
                d0, d1 = sub(a0, start), sub(a1, at)
                n += 1
                rep.check(True if d0 is ZERO else False if d0.op == "i" or interpreted(a0) and not phis_in(a0) else None, "splice", w, f"the first new child is put at {a0!r:.60}, not at {start!r:.40}")
                rep.check(True if d1 is ONE else False if d1.op == "i" and interpreted(at) else None, "splice", w, f"the next new child is put {d1!r:.40} places further")
            elif not ins and "Iterator>::next" not in str(L.name):
                here = [x for x in cnt if x[3] is ZERO]
                if not here or not any("SyntaxElementChildren" in str(y[1]) for y in L.phis):
                    continue
                c = here[0][2]
                lo, hi = le(start, c), le(add(c, ONE), end)
                if out:
                    n += 1
                    bad = feasible_(b, lo, False) or feasible_(b, hi, False)
                    rep.check(False if bad else True, "splice", w, "a child outside of the range is taken out")
                elif taken_here(L):
                    n += 1
                    both = not infeasible(tuple(b.facts.log) + ((lo, True), (hi, True)))
                    rep.check(False if both else True, "splice", w, "a child within the range is left in")
    rep.check(True if n else None, "splice", w, "no loop recognised")


def taken_here(L):
    """some iteration of the loop takes an element out"""
    k = len(L.hst.events())
    return any(ev[0] == "op" and ev[1].endswith("::detach") for b in L.backs for ev in b.events()[k:])


def isnum(t):
    return t.op in NUMS


def one(rep, b):
    P = prog()
    C = Cur(P)
    outs = None
    for mod in (False, True):
        e = ledger_engine(P, 1, atoms=modular(P, b) if mod else None, budget=300000)
        try:
            outs = e.analyse(b)
            break
        except Undecided as x:
            if "budget" not in str(x) or mod:
                raise
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = where(b)
    for s, L in stretches(e, C, outs):
        if infeasible(tuple(s.to.facts.log)):
            continue
        if not (s.written or s.edits() or [x for x in s.left if not x[4]] or [x for x in s.joined if x[2] is not None]):
            continue
        Edit(rep, f"{w} {s.end}" + (f" [{L.name}]" if L else ""), e, C, s, L).run()
    if mod and b.name.endswith("::splice_children"):
        splice(rep, w, e, C, P, outs, [mk("param", b.locals[i + 1].get("n") or f"arg{i}") for i in range(b.argc)])


def run(rep):
    P = prog()
    pmap(rep, one, sorted(api_functions(P), key=lambda b: -len(b.blocks)))


CHECKS = {
    "C12": dict(run=run, technique="linear rebuild analysis (dataflow) over MIR: every edit of the shape is matched with the edit of the content, and new content is followed up to the root by loop induction",
                explanation="Abstract interpretation of the MIR of every exported function and trait method of the cursor layer for editable trees, with the edits of green nodes as atomic operations. On each path and in each iteration of each loop, an element that "
                "leaves its parent has to come with the removal of the child at its index from that parent's content, one that gets a parent with the insertion of its own content at its index. The new content has to be stored in that parent, and "
                "from there on in each ancestor: the content of the parent is replaced at the index of the element changed, until an element without parent is reached. An insertion has to be known to lie within bounds before anything changes. "
                "In splice_children the children of the given range are taken out and the new ones are put at consecutive places from its start.",
                rules={"taken-out": "an element that leaves its parent is removed from the parent's content, at its index", "put-in": "an attached element's content is inserted at its index", "bounds": "the place is within bounds", "written": "what is stored as content of an element is the content made for it",
                       "kept": "content made for an element is stored in it", "up": "the parent's content is replaced at the index of the changed element", "to-root": "the change goes on until there is no parent", "loop-entry": "loop variables start with the edited element and its content",
                       "loop-step": "they go on to the parent and its content", "splice": "which children splice_children takes out and where it puts the new ones"},
                note="What the edits of green nodes themselves do is C04; that the content is owned once is C09; indices of the other live elements are C13. "),
}
if __name__ == "__main__":
    import collections

    r = Rep()
    if len(sys.argv) > 1:
        for b in functions(prog(), "rowan"):
            if b.name == sys.argv[1]:
                one(r, b)
    else:
        run(r)
    for k, v in collections.Counter((x.st, x.rule, x.where, x.msg) for x in r.es).items():
        if k[0] != "ok":
            print(v, str(k)[:400])
    print(collections.Counter((x.st, x.rule) for x in r.es))
