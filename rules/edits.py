"""What an edit of a tree does on a stretch of a path: which elements join or leave which parent, which green trees are put where."""
from ledger import *


class Stretch:
    """the changes between two states of a path"""

    def __init__(self, e, C, frm, to, start, end):
        self.e, self.C, self.frm, self.to, self.end = e, C, frm, to, end
        self.evs = to.events()[start:]
        self.joined, self.left, self.unclear = [], [], []
        self.written = {}  # region -> base of the green tree put there
        for region in set(frm.mem) | set(to.mem):
            if region.op not in ("at", "heap"):
                continue
            v1 = node_of(e, C, to, region)
            if v1 is None:
                continue
            v0 = node_of(e, C, frm, region)
            if v0 is None and region.op == "at":
                v0 = e.default(region)
            gone = freed_in(self.evs, region)
            p1, p0 = C.fld(e, v1, C.parent), C.fld(e, v0, C.parent) if v0 is not None else None
            if v0 is None:
                q = C.opt(to, p1)
                if q is False:
                    self.unclear.append(region)
                elif q is not None and not gone:
                    self.joined.append((region, q, v0, v1))
                continue
            if p1 is not p0 or gone:
                a, b = C.opt(to, p0), C.opt(to, p1)
                if a is False or b is False:
                    self.unclear.append(region)
                else:
                    if a is not None:
                        self.left.append((region, a, v0, v1, gone))
                    if b is not None and not gone:
                        self.joined.append((region, b, v0, v1))
            g1, g0 = C.fld(e, v1, C.green), C.fld(e, v0, C.green)
            if g1 is not g0 and not gone:
                b = self.base(to, g1)
                if b is not None:
                    self.written[region] = b

    def base(self, st, g):
        if g.op == "agg":
            return arc_base(self.e, g.a[2][0])
        d = st.facts.value(self.e.discr(st, g, GREEN))
        if g.op == "phi" or d is None:
            return None
        return arc_base(self.e, fld(g, d, 0, GREEN, 1))

    def sll(self, *names):
        return [(i, ev) for i, ev in enumerate(self.evs) if ev[0] == "sll" and ev[1] in names]

    def edits(self):
        return [(i, ev) for i, ev in enumerate(self.evs) if ev[0] == "edit"]

    def loops(self):
        return [ev[1] for ev in self.evs if ev[0] == "loop"]


def inner(L, seen):
    if id(L) in seen:
        return
    seen[id(L)] = L
    for b in L.backs:
        for ev in b.events()[len(L.hst.events()):]:
            if ev[0] == "loop":
                inner(ev[1], seen)


def stretches(e, C, outs):
    """every whole path, and every iteration of every loop on one"""
    seen = {}
    for o in outs:
        if o.kind != "ret":
            continue
        yield Stretch(e, C, St(), o.st, 0, "return"), None
        for ev in o.st.events():
            if ev[0] == "loop":
                inner(ev[1], seen)
    for L in seen.values():
        for b in L.backs:
            yield Stretch(e, C, L.hst, b, len(L.hst.events()), "iteration"), L


def region_of(p):
    r, path, _ = target(thin(p))
    return r if not path else addr(r, path)


def anywhere(s, names):
    """list operations of a kind on the stretch or within its loops"""
    out = [ev for _, ev in s.sll(*names)]
    seen = {}
    for L in s.loops():
        inner(L, seen)
    for L in seen.values():
        for b in L.backs:
            out += [ev for ev in b.events()[len(L.hst.events()):] if ev[0] == "sll" and ev[1] in names]
    return out
