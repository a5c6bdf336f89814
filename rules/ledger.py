"""Linear accounting: what happens to the count of every element (and every owned green tree) on a stretch of a path."""
from cur import *

CLS = {NODE: "h", TOKEN: "h", GN: "g", GT: "g"}
AI = "rowan::arc::ArcInner"


def noted(e, st, v, t, site):
    st.event("hdrop", t[1], v, site)
    return [Out("ret", UNIT, st)]


def sll_init(e, st, c):
    """without a head there is no list: an element without parent joins none"""
    r = sll_atom("rowan::sll::init")(e, st, c)
    h = c.args[0]
    none = h.op == "agg" and h.a[1] == 0
    AR = "rowan::sll::AddToSllResult"
    if none and AR in e.prog.adts:
        return agg(AR, variant(e.prog, AR, "NoHead"), ())
    return r


def ledger_engine(P, mut, atoms=None, follow=False, edits=True, budget=900000):
    at = {"rowan::sll::init": sll_init, "drop:" + GN: noted, "drop:" + GT: noted}
    if edits:
        at.update(edit_atoms(P))
    at.update(atoms or {})
    return cursor_engine(P, mut, drops=not follow, atoms=at, budget=budget)


EDIT = "<rowan::green::node::GreenNodeData>::"
EDITS = [EDIT + m for m in ("remove_child", "insert_child", "replace_child", "splice_children")]


def edit_atoms(P):
    """edits of green nodes: they take over what they are given and return a new owned node"""

    def at(n):
        def h(e, st, c):
            r = fresh("green:" + n.rsplit("::", 1)[1], *c.args)
            st.event("edit", n.rsplit("::", 1)[1], tuple(c.args), r, c.site)
            return r

        return h

    return {n: at(n) for n in EDITS}


def place(p):
    """what a pointer to an element points to, as a key"""
    r, path, _ = target(thin(p))
    return r if not path else addr(r, path)


def arc_base(e, p):
    """the counted allocation a pointer to green data lies in"""
    p = thin(p)
    while p.op == "agg" and len(p.a[2]) == 1:
        p = p.a[2][0]
    p = thin(p)
    if p.op == "addr" and p.a[1] and p.a[1][-1][0] == "f" and p.a[1][-1][2] == AI:
        return thin(addr(p.a[0], p.a[1][:-1]))
    i = field(e.prog, AI, "data")
    return mk("cont", p, mk("offset", AI, i))


def handle_base(e, v, t):
    """the pointer inside an owned green element"""
    p = v if t in e.prog.transparent else e.project(v, ("f", 0, t, e.prog.nfields(t, 0)))
    while p.op == "agg" and len(p.a[2]) >= 1:
        p = p.a[2][0]
    return thin(p)


NAMED = {}


def named(P, n):
    if id(P) not in NAMED:
        bs = sorted((b for b in P.bodies.values() if not b.model), key=lambda b: b.key.startswith("rowan::cursor"))
        NAMED[id(P)] = {b.name: b for b in bs}
    return NAMED[id(P)].get(n)


class Led:
    """sum of terms by key"""

    def __init__(self):
        self.d = {}
        self.opaque = []
        self.calls = []

    def add(self, k, n, why):
        c, w = self.d.get(k, (ZERO, ()))
        self.d[k] = (add(c, n), w + (why,))

    def subst(self, m):
        r = Led()
        r.opaque = self.opaque
        for k, (n, w) in self.d.items():
            k2 = subst(k, m)
            if k2[0] == "h" and k2[1].op == "at":
                k2 = ("h", place(k2[1].a[0]))
            c, w0 = r.d.get(k2, (ZERO, ()))
            r.d[k2] = (add(c, subst(n, m)), w0 + w)
        return r


def own(events, start):
    return events[start:]


def phi_map(events):
    m = {}
    for ev in events:
        if ev[0] == "loop":
            for region, path, ph, init, nexts in ev[1].phis:
                if ph.op == "phi":
                    m[ph] = subst(init, m)
    return m


def handles(e, st, v, t, tag):
    """[(state, [(class, key, value)])]: the handles in a value of type t, by what dropping it would release"""
    s = st.fork()
    n = len(s.events())
    loc_ = mk("heap", "#" + tag, uid())
    s.mem[loc_] = v
    r = []
    for o in e.drop(s, loc_, (), t, 1, "#"):
        if o.kind != "ret":
            continue
        evs = o.st.events()[n:]
        hs = []
        for ev in evs:
            if ev[0] == "hdrop":
                hs.append((CLS[ev[1]], key_of(e, ev[1], ev[2])))
            elif ev[0] in ("dropv", "drop"):
                hs.append(("?", (str(ev[1]), ev[2])))
        q = o.st
        q.mem.pop(loc_, None)
        q.ev = s.ev
        r.append((q, hs))
    return r


def key_of(e, t, v):
    if CLS[t] == "h":
        p = e.project(v, ("f", 0, t, e.prog.nfields(t, 0)))
        return ("h", place(p))
    return ("g", handle_base(e, v, t))


def node_of(e, C, st, region):
    v = st.mem.get(region)
    return v if v is not None and v.op == "agg" and v.a[0] == ND else None


def owner(e, C, st, v):
    """key of the green tree an element owns (a root does), None, or False if not known"""
    par = C.opt(st, C.fld(e, v, C.parent))
    if par is False:
        return False
    if par is not None:
        return None
    g = C.fld(e, v, C.green)
    if g.op == "agg":
        return ("g", arc_base(e, g.a[2][0]))
    d = st.facts.value(e.discr(st, g, GREEN))
    if d is None:
        return ("g?", g)
    return ("g", arc_base(e, fld(g, d, 0, GREEN, 1)))


def segment(e, C, frm, to, start, led):
    """changes between two states of a path: counts, parent links, roots' green trees, handles dropped"""
    evs = own(to.events(), start)
    seen = set(to.mem) | set(frm.mem)
    for region in seen:
        if region.op not in ("at", "heap"):
            continue
        v1 = node_of(e, C, to, region)
        if v1 is None:
            continue
        v0 = node_of(e, C, frm, region)
        if v0 is None and region.op == "at":
            v0 = e.default(region)
        gone = freed_in(evs, region)
        rc1 = C.fld(e, v1, C.rc)
        rc0 = C.fld(e, v0, C.rc) if v0 is not None else ZERO
        led.add(("h", region), sub(rc1, rc0), "count")
        l1 = None if gone else C.opt(to, C.fld(e, v1, C.parent))
        l0 = C.opt(to, C.fld(e, v0, C.parent)) if v0 is not None else None
        if v0 is not None and C.fld(e, v0, C.parent) is C.fld(e, v1, C.parent) and not gone:
            pass
        elif l0 is False or l1 is False:
            led.opaque.append(f"parent of {region!r:.80} not known")
        else:
            if l1 is not None:
                led.add(("h", place(l1)), Int(-1), "parent link")
            if l0 is not None:
                led.add(("h", place(l0)), ONE, "parent link removed")
        same = v0 is not None and not gone and all(C.fld(e, v0, i) is C.fld(e, v1, i) for i in (C.parent, C.green))
        if not same:
            o1 = None if gone else owner(e, C, to, v1)
            o0 = owner(e, C, to, v0) if v0 is not None else None
            if o0 is False or o1 is False:
                led.opaque.append(f"root or not: {region!r:.80}")
            else:
                if o1 is not None:
                    led.add(o1, Int(-1), "owned by a root")
                if o0 is not None:
                    led.add(o0, ONE, "was owned by a root")
    for ev in evs:
        if ev[0] == "hdrop":
            # the handle goes, and so does what it counts
            led.add(key_of(e, ev[1], ev[2]), Int(-1), f"dropped at {ev[3]}")
        elif ev[0] == "edit":
            b = named(e.prog, EDIT + ev[1])
            led.calls.append((ev[3], b.sig_out, 1, f"made at {ev[4]}"))
            for a, t in zip(ev[2], b.sig_in):
                if ev[1] != "splice_children":
                    led.calls.append((a, t, -1, "passed on"))
        elif ev[0] == "atomic" and ev[1] in ("fetch_add", "fetch_sub"):
            p = ev[2]
            r, path, _ = target(p)
            b = addr(r, path[:-1]) if path and path[-1][0] == "f" else p
            n = ev[3][0]
            led.add(("g", thin(b)), n if ev[1] == "fetch_add" else sub(ZERO, n), f"count at {ev[-1]}")
        elif ev[0] == "dropv" and ev[1][0] in ALIAS:
            led.calls.append((ev[2], ev[1], -1, f"dropped at {ev[3]}"))
        elif ev[0] in ("dropv", "drop"):
            led.opaque.append(f"{ev[0]} of {ev[1]!r:.80}")
        elif ev[0] == "call":
            b = named(e.prog, ev[1])
            if b is not None and b.sig_in is not None and len(b.sig_in) == len(ev[2]):
                # the balance of the function called is shown where it is analysed
                led.calls.append((ev[3], b.sig_out, 1, f"result of {ev[1]}"))
                for a, t in zip(ev[2], b.sig_in):
                    if t[0] in ("ref", "ptr") and t[1] and e.needs_drop(t[2]):
                        led.opaque.append(f"{ev[1]} changes {a!r:.40}")
                    led.calls.append((a, t, -1, f"passed to {ev[1]}"))
                continue
            for a in ev[2]:
                if a is not UNDEF and a.op == "agg" and any(x.op == "agg" and x.a[0] in CLS for x in subterms(a)):
                    led.opaque.append("handle passed to the caller's code")
    return led


def named_handles(e, s, l, v):
    """the keys of what is held in a value of unknown type: those counted"""
    t = e.type_of(v)
    if t is not None and t[0] == "adt" and t[1] in CLS:
        return [key_of(e, t[1], v)]
    if v.op == "i":
        return []
    for t in (NODE, TOKEN, GN, GT):
        k = key_of(e, t, v)
        if k in l.d:
            return [k]
    r = []
    for k in l.d:
        x = k[1]
        x = x.a[0] if x.op == "at" else x
        while x is not v and x.op == "fld":
            x = x.a[0]
        if k[0] == "h" and x is v and present(s, k[1]) is not False:
            r.append(k)
    return r or [("?", v)]


def resolve(e, s, l):
    """the ledger with values of unknown type by what they hold"""
    r = Led()
    r.opaque = l.opaque
    r.d = {k: x for k, x in l.d.items() if k[0] != "?"}
    for k, (n, w) in l.d.items():
        if k[0] == "?":
            for k2 in named_handles(e, s, r, k[1]):
                c, w0 = r.d.get(k2, (ZERO, ()))
                r.d[k2] = (add(c, n), w0 + w)
    return r


def present(st, k):
    """is there a value of the variant the term k looks into?"""
    r = True
    for x in subterms(k):
        if x.op == "fld" and x.a[1] is not None:
            v = x.a[0]
            d = v.a[1] if v.op == "agg" else st.facts.value(mk("discr", v, 1))
            if d is None:
                r = None
            elif d != x.a[1]:
                return False
    return r


def expand(e, s, led, items):
    """[(state, ledger)] with the handles in the values [(value, type, sign, tag)] added"""
    work = [(s, [])]
    for v, t, sign, tag in list(led.calls) + list(items):
        if v is UNDEF or t is None or unsized(t) and not (t[0] == "adt" and t[1] in CLS) or not e.needs_drop(t):
            continue
        work = [(q, hs + [(sign, tag, x) for x in h]) for s, hs in work for q, h in handles(e, s, v, t, tag)]
    res = []
    for s, hs in work:
        l = Led()
        l.d, l.opaque = dict(led.d), list(led.opaque)
        for sign, tag, h in hs:
            l.add(("?", h[1][1]) if h[0] == "?" else h[1], Int(sign), tag)
        res.append((s, l))
    return res


def freed_in(evs, region):
    for ev in evs:
        if ev[0] == "free":
            r, p, _ = target(ev[1])
            if r is region and not p:
                return True
    return False
