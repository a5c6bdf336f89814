"""C01: reference counts of green elements; C21: making green elements."""
from ledger import *
import props_mem as pm

ORD = ("Relaxed", "Release", "Acquire", "AcqRel", "SeqCst")
REL, ACQ = ("Release", "AcqRel", "SeqCst"), ("Acquire", "AcqRel", "SeqCst")
MAXC = 2 ** 64 - 2 ** 16  # this many references must not be handed out
GREENS = (GN, GT)


def order(t):
    """the memory ordering a term stands for"""
    if t.op == "agg" and t.a[0].endswith("Ordering") and not t.a[2]:
        return ORD[t.a[1]] if t.a[1] < len(ORD) else None
    return None


def counted(P):
    """the types which own one reference to a counted allocation: those inside green elements, by their Drop"""
    r = []
    for i in P.impls.get("core::ops::drop::Drop", ()):
        t = i["self"]
        if t[0] == "adt" and t[1] not in (NODE, TOKEN) and t[1] in P.adts and any(
                ft and points_to(P, ft, AI) for var in P.adts[t[1]]["fields"] for _, ft in var):
            r.append(t)
    return r


def points_to(P, t, adt):
    if t[0] == "adt":
        return any(x and (x[0] == "adt" and x[1] == adt or points_to(P, x, adt)) for x in t[2]) if t[1].startswith("core::") else False
    return t[0] in ("ptr", "ref") and t[2] is not None and t[2][0] == "adt" and t[2][1] == adt


def green_functions(P):
    for b in functions(P, "rowan"):
        if ("::green::" in b.name or "::arc::" in b.name or "green::" in b.key) and b.sig_out is not None and not is_fmt(b):
            yield b


def count_base(ev):
    """the allocation whose count an atomic operation works on"""
    r, path, _ = target(ev[2])
    return thin(addr(r, path[:-1])) if path and path[-1][0] == "f" and path[-1][2] == AI else None


def is_raw(t):
    return t is not None and (t[0] == "ptr" or t[0] == "adt" and t[1] == "core::ptr::non_null::NonNull")


# ------------------------------------------------------------------ balance
def owned_in(e, t):
    return t is not None and t[0] not in ("ref", "ptr") and not unsized(t) and e.needs_drop(t)


def balance(rep, b):
    P = prog()
    e = ledger_engine(P, None, follow=True, atoms={"drop:" + n: noted for n in CLS if CLS[n] == "g"}, edits=False, budget=300000)
    C = Cur(P)
    outs = e.analyse(b)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = where(b)
    raw_out = is_raw(b.sig_out)
    for o in outs:
        if o.kind != "ret":
            continue
        evs = o.st.events()
        for ev in evs:
            if ev[0] == "atomic" and ev[1] == "store" and count_base(ev) is not None:
                rep.bad("balance", w, f"the count is overwritten at {ev[-1]}")
        born = [(target(ev[1]), ev[2]) for ev in evs if ev[0] == "ptrwrite"]
        born = [(addr(r, q[:-1]), n) for (r, q, _), n in born if r.op != "param" and q and q[-1][0] == "f" and q[-1][2] == AI and q[-1][1] == field(P, AI, "count")]
        consumed = any(ev[0] == "call" and "alloc" in ev[1] for ev in evs) or any(ev[0] in ("user", "loop") for ev in evs)
        for s, led in pm.whole(e, C, b, o):
            given = led.opaque and taken(e, led, evs)
            if given:
                led.opaque = [x for x in led.opaque if not x.startswith(("handle passed", "drop"))]
            for ev in evs:
                if ev[0] in ("dropv", "drop") and (ev[0] == "drop" or ev[1][0] not in ALIAS):
                    led.add(("?", ev[2]), Int(-1), f"dropped at {ev[3]}")
            for p, n in born:
                led.add(("g", thin(p)), n, "made")
            l = pm.settle(resolve(e, s, led), s)
            if raw_out and any(owned_in(e, t) for t in b.sig_in):
                k = ("g", raw_base(e, o.val))
                if any(x is not ZERO for x, _ in l.d.values()):
                    l.add(k, Int(-1), "given out as a raw pointer")
            elif owned_in(e, b.sig_out) and any(is_raw(t) for t in b.sig_in):
                for (p, t) in pm.params(b):
                    if is_raw(t):
                        l.add(("g", raw_base(e, p)), ONE, "taken over from a raw pointer")
            pieces(e, s, l, [t for t in CLS if CLS[t] == "g"])
            bad = [(k, n, y) for k, (n, y) in l.d.items() if n is not ZERO and not (k[0] in ("h", "g") and present(s, k[1]) is False)]
            if not bad:
                rep.ok("balance", w)
            for k, n, y in bad:
                if k[0] == "?" and (k[1].op == "i" or pm.user_value(k[1])):
                    rep.ok("balance", w)
                    continue
                sure = n.op == "i" and not l.opaque and not consumed and k[0] == "g" and interpreted(k[1], ("cont", "offset", "ap!", "fat")) and not infeasible(tuple(s.facts.log))
                if k[1] in [thin(p) for p, _ in born] and n.op == "i" and not l.opaque and not any(ev[0] == "loop" and ev[1].phis and k[1] in set(subterms(mk("all", *[x for _, _, ph, i, ns in ev[1].phis for x in [i] + list(ns)]))) for ev in evs):
                    sure = not infeasible(tuple(s.facts.log))
                rep.put(BAD if sure else UNK, "balance", w, f"green element {k[1]!r:.100}: {n!r:.40} reference too many ({', '.join(y)[:200]})" + (f" [{l.opaque[0]}]" if l.opaque else ""))


def taken(e, led, evs):
    """handles passed by value to functions outside the library: they are theirs from then on"""
    for ev in evs:
        if ev[0] == "call" and named(e.prog, ev[1]) is None:
            todo = [a for a in ev[2] if a is not UNDEF]
            while todo:
                x = todo.pop()
                if x.op == "agg" and x.a[0] in CLS:
                    led.add(key_of(e, x.a[0], x), Int(-1), f"passed to {ev[1]}")
                elif x.op == "agg":
                    todo += [y for y in x.a[2] if isinstance(y, T) and y is not UNDEF]
    return True


def pieces(e, s, l, ts):
    """lists in a ledger as the sum of their items; the ranges of a list which cancel go"""
    ends = {}
    items = []
    for k, (n, y) in list(l.d.items()):
        if k[0] != "?" or n.op != "i" or n is ZERO or not (k[1].op == "seq" or k[1].op in ("ini", "fld", "param") and listlike(e, k[1])):
            continue
        ts_ = [x for x in (e.type_of(p[1]) for p in (k[1].a[0] if k[1].op == "seq" else ((0, k[1]),)) if p[0] != "e") if x is not None and x[0] == "adt" and len(x[2])]
        if ts_ and not any(e.needs_drop(x[2][0]) for x in ts_):
            del l.d[k]
            continue
        ps = k[1].a[0] if k[1].op == "seq" else (("s", k[1], ZERO, mk("vlen", k[1])),)
        del l.d[k]
        for p in ps:
            if p[0] == "s":
                for at, g in ((p[3], n.a[0]), (p[2], -n.a[0])):
                    if at is not ZERO:
                        d = ends.setdefault(p[1], {})
                        d[at] = d.get(at, 0) + g
            else:
                items.append((p[1], n, y))
    for base, d in ends.items():
        d = {a: n for a, n in d.items() if n and s.facts.decide(eqi(a, ZERO)) is not True}
        while True:
            # [0, j+1) and not [0, j): item j
            m = next(((a, b) for a, n in d.items() if n > 0 for b, n2 in d.items() if n2 < 0 and dist(s, a, b)), None)
            if m is None:
                break
            a, b = m
            if dist(s, a, b) == 2:
                d[a] -= 1
                d[b] += 1
                d = {a: n for a, n in d.items() if n}
                continue
            up = dist(s, a, b) > 0
            items.append((e.project(base, ("x", b if up else a)), ONE if up else Int(-1), ("item",)))
            d[a] -= 1
            d[b] += 1
            d = {a: n for a, n in d.items() if n}
        for a, n in d.items():
            l.add(("?", mk("upto", base, a)), Int(n), "items of a list")
            l.opaque.append(f"items of {base!r:.60} not told apart")
    for v, n, y in items:
        todo = [v]
        while todo:
            x = todo.pop()
            if x.op == "agg" and x.a[0] not in CLS:
                todo += list(x.a[2])
            elif x.op == "agg":
                l.add(key_of(e, x.a[0], x), n, y[0])
            elif x.op in ("i", "lin", "str"):
                pass
            else:
                ks = [k for k in l.d if k[0] == "g" and holds(k[1], x) and present(s, k[1]) is not False]
                t = e.type_of(x)
                if not ks and t is not None and e.needs_drop(t):
                    ks = named_handles(e, s, l, x)
                for k2 in ks:
                    l.add(k2, n, y[0])


def dist(s, a, b):
    """1 / -1: a is the end of item b / b of item a; 2: the same; 0: not known"""
    d = sub(a, b)
    for n, r in ((ONE, 1), (Int(-1), -1), (ZERO, 2)):
        if d is n or d.op != "i" and s.facts.decide(eqi(d, n)) is True:
            return r
    return 0


def holds(k, x):
    while isinstance(k, T) and k is not x and k.op == "fld":
        k = k.a[0]
    return k is x


def listlike(e, v):
    t = e.type_of(v)
    return t is not None and t[0] == "adt" and t[1] == "alloc::vec::Vec"


def raw_base(e, p):
    while p.op == "agg" and len(p.a[2]) >= 1:
        p = p.a[2][0]
    q = thin(p)
    # a pointer to the data or to the allocation itself
    return arc_base(e, q) if not (q.op == "cont") else q


# ------------------------------------------------------------------ sharing
def share(rep, b):
    """what a new reference does besides counting"""
    P = prog()
    e = ledger_engine(P, None, follow=True, atoms={"drop:" + n: noted for n in CLS if CLS[n] == "g"}, edits=False, budget=300000)
    outs = e.analyse(b)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = where(b)
    for o in outs:
        evs = o.st.events()
        up = [ev for ev in evs if ev[0] == "atomic" and ev[1] == "fetch_add" and count_base(ev) is not None]
        for ev in up:
            old = ev[4]
            f = o.st.facts.assume(eqi(old, Int(MAXC)), True)
            if o.kind == "ret":
                back = any(x[0] == "atomic" and x[1] == "fetch_sub" and count_base(x) is count_base(ev) for x in evs)
                rep.check(f is None or (None if back or not interpreted(old) else False), "overflow", w, f"a count near overflow is taken further at {ev[-1]}")
            elif o.kind == "panic":
                back = any(x[0] == "atomic" and x[1] == "fetch_sub" and count_base(x) is count_base(ev) for x in evs)
                rep.check(True if f is None or back else False if interpreted(old) else None, "overflow", w, f"a panic after counting at {ev[-1]} leaves the count one too high each time; it can still overflow")
            else:
                rep.ok("overflow", w)


# ------------------------------------------------------------------ releasing
def release(rep, t):
    P = prog()
    e = ledger_engine(P, None, follow=True, edits=False, budget=300000)
    for k in list(e.atoms):
        if k.startswith("drop:"):
            del e.atoms[k]
    st = St()
    p = mk("param", "self")
    loc_ = mk("heap", "#dropped", uid())
    st.mem[loc_] = p
    e.reset() if hasattr(e, "reset") else None
    outs = e.drop(st, loc_, (), t, 0, "#")
    w = f"drop of {tname(t)}"
    base = handle_base(e, p, t[1])
    rep.funcs.add(w)
    rep.paths += len(outs)
    for o in outs:
        if o.kind not in ("ret",):
            rep.unk("release", w, f"path ends with {o.kind}")
            continue
        evs = o.st.events()
        downs = [(i, ev) for i, ev in enumerate(evs) if ev[0] == "atomic" and ev[1] == "fetch_sub" and count_base(ev) is base]
        other = [ev for ev in evs if ev[0] == "atomic" and ev[1] not in ("load", "fetch_sub")]
        if any(ev[0] in ("loop", "call", "user") for ev in evs) or other:
            rep.unk("release", w, f"{[ev[:2] for ev in evs][:4]}")
            continue
        frees = [(i, ev) for i, ev in enumerate(evs) if ev[0] == "free"]
        drops = [(i, ev) for i, ev in enumerate(evs) if ev[0] in ("dropv", "drop")]
        if len(downs) != 1 or downs[0][1][3][0] is not ONE:
            rep.bad("release", w, f"{len(downs)} references are given back where one is dropped")
            continue
        i0, d = downs[0]
        rep.check(order(d[3][1]) in REL if order(d[3][1]) else None, "order", w, f"giving up a reference at {d[-1]} is {order(d[3][1])}: what was done with it may come after the memory is released elsewhere")
        last = o.st.facts.decide(eqi(d[4], ONE))
        if last is None:
            # both cases take this path
            rep.check(False if interpreted(d[4]) else None, "release", w, f"the memory is {'released' if frees else 'kept'} whether or not {d[4]!r:.40} was the last reference")
            continue
        if last is False:
            rep.check(not frees and not drops, "release", w, "the memory is released while references are left")
            continue
        if len(frees) != 1:
            rep.bad("release", w, f"the memory is released {len(frees)} times when the last reference goes")
            continue
        rep.ok("release", w)
        first = min([frees[0][0]] + [i for i, _ in drops])
        sync = order(d[3][1]) in ("AcqRel", "SeqCst") or any(
            ev[0] == "atomic" and ev[1] == "load" and order(ev[3][-1]) in ACQ and count_base(ev) is base or ev[0] == "fence" and order(ev[1]) in ACQ for ev in evs[i0:first])
        rep.check(sync, "order", w, "the memory is released without synchronising with the threads that gave up their references before")
        fp = frees[0][1][1]
        rp, pp, _ = target(fp)
        whole_ = thin(addr(rp, pp)) is base or addr(rp, pp) is base
        rep.check(True if whole_ else None, "release", w, f"{fp!r:.80} is released instead of {base!r:.40}")
        # everything in it is dropped, once
        want = parts(P, e, pointee(P, t)) if pointee(P, t) else None
        have = sorted(repr(ev[1]) for _, ev in drops)
        if want is None:
            rep.unk("contents", w, "type of the contents not known")
        elif have == sorted(want):
            rep.ok("contents", w)
        else:
            known = all(h in want for h in have)
            lost = [x for x in set(want) if have.count(x) < want.count(x)]
            twice = [x for x in set(want) if have.count(x) > want.count(x)]
            rep.put(BAD if known else UNK, "contents", w, "of what the element holds, " + "; ".join([f"{x:.80} is never dropped" for x in lost] + [f"{x:.80} is dropped more than once" for x in twice]))
        HS = "rowan::arc::HeaderSlice"
        if HS in P.adts and fp.op == "fat":
            n = fp.a[1]
            want = e.read(St(), rp, pp + (("f", field(P, AI, "data"), AI, 2), ("f", field(P, HS, "length"), HS, 3)))
            rep.check(True if n is want else differ_(n, want), "contents", w, f"{n!r:.60} children are dropped where {want!r:.60} are stored")


def differ_(a, b):
    d = differ(a, b)
    return None if d is None else not d


def pointee(P, t):
    """the type of the data behind an owner of a counted allocation"""
    a = P.adts.get(t[1])
    g = (a["raw"].get("generics") or []) if a else []
    env = dict(zip(g, t[2]))

    def find(x):
        if x is None:
            return None
        if x[0] == "adt" and x[1] == AI:
            return x[2][-1]
        if x[0] == "adt" and x[1] in P.adts and P.adts[x[1]]["local"]:
            return pointee(P, x)
        for y in x[2] if x[0] == "adt" else [x[2]] if x[0] in ("ptr", "ref") else ():
            r = find(y)
            if r:
                return r
        return None

    for var in a["fields"] if a else ():
        for n, ft in var:
            r = find(tsubst(ft, env) if ft else None)
            if r:
                return r
    return None


def parts(P, e, t):
    """the types of the parts of t with something to drop, as drop events show them"""
    if t[0] == "array":
        t = ("slice", t[1])
    if t[0] == "adt" and t[1] in P.adts and P.adts[t[1]]["local"] and P.adts[t[1]]["kind"] == "struct":
        env = dict(zip(P.adts[t[1]]["raw"].get("generics") or [], t[2]))
        r = []
        for _, ft in P.adts[t[1]]["fields"][0]:
            if ft is None:
                return None
            x = parts(P, e, tsubst(ft, env))
            if x is None:
                return None
            r += x
        return r
    return [repr(t)] if e.needs_drop(t) else []


# ------------------------------------------------------------------ sole owners
def unique(rep, b):
    P = prog()
    e = ledger_engine(P, None, follow=True, edits=False, budget=300000)
    outs = e.analyse(b)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = where(b)
    for o in outs:
        if o.kind != "ret":
            continue
        v = o.val
        if v.op == "agg" and v.a[0] == OPTION:
            if v.a[1] == 0:
                rep.ok("unique", w)
                continue
            v = v.a[2][0]
        base = arc_base(e, thin(v))
        reads = [ev for ev in o.st.events() if ev[0] == "atomic" and count_base(ev) is base]
        if base.op == "cont" or not interpreted(base):
            rep.unk("unique", w, f"{v!r:.80}")
            continue
        one = [ev for ev in reads if o.st.facts.decide(eqi(ev[4], ONE)) is True]
        if not one:
            rep.bad("unique", w, "mutable access is handed out although other references may exist")
        else:
            rep.check(any(order(x) in ACQ for ev in one for x in ev[3]) or any(ev[0] == "fence" and order(ev[1]) in ACQ for ev in o.st.events()), "unique", w, "mutable access is handed out without synchronising with the threads that gave up their references")


# ------------------------------------------------------------------ making
def makers(P):
    """functions which allocate, to what they return"""
    ts = {t[1] for t in counted(P)}
    r = []
    for b in functions(P, "rowan"):
        if b.sig_out is not None and b.sig_out[0] == "adt" and b.sig_out[1] in ts and reaches_alloc(P, b):
            r.append(b)
    if not r:
        r = [b for b in functions(P, "rowan") if b.sig_out is not None and b.sig_out[0] == "adt" and b.sig_out[1] in GREENS and b.name.endswith("::new") and reaches_alloc(P, b)]
    return r


def calls(b):
    """(block, callee key or None, callee name) of the calls in a body"""
    for i, blk in enumerate(b.blocks):
        t = blk.get("t") or {}
        if t.get("k") == "call" and t["f"].get("k") == "fn":
            yield i, t["f"].get("rkey") or t["f"].get("key"), t["f"].get("res") or t["f"].get("n") or ""


def reaches_alloc(P, b, seen=None):
    seen = set() if seen is None else seen
    if b.key in seen:
        return False
    seen.add(b.key)
    for i, k, n in calls(b):
        if n.startswith("alloc::alloc::alloc") or k in P.bodies and not P.bodies[k].model and reaches_alloc(P, P.bodies[k], seen):
            return True
    return False


def steady(st, t):
    """loop variables which never change, by what they are"""
    for _ in range(4):
        m = {}
        for ev in st.events():
            if ev[0] == "loop":
                for region, path, ph, init, nexts in ev[1].phis:
                    if ph.op == "phi" and nexts and all(x is ph for x in nexts):
                        m[ph] = init
        u = subst(t, m) if m else t
        if u is t:
            break
        t = u
    return t


def making(rep, b):
    P = prog()
    e = ledger_engine(P, None, follow=True, edits=False, budget=300000)
    outs = e.analyse(b)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = where(b)
    HS = "rowan::arc::HeaderSlice"
    fc, fd = field(P, AI, "count"), field(P, AI, "data")
    fh, fl, fs = field(P, HS, "header"), field(P, HS, "length"), field(P, HS, "slice")
    step = lambda i: (("f", fd, AI, 2), ("f", i, HS, 3))
    for o in outs:
        if o.kind != "ret":
            continue
        st = o.st
        evs = st.events()
        allocs = [ev for ev in evs if ev[0] == "call" and ev[1] == "alloc::alloc::alloc"]
        if len(allocs) != 1:
            rep.unk("layout", w, f"{len(allocs)} allocations")
            continue
        lay, A = allocs[0][2][0], allocs[0][3]
        v = o.val
        while v.op == "agg" and len(v.a[2]) >= 1:
            v = v.a[2][0]
        if thin(v) is not thin(A):
            rep.unk("layout", w, f"returns {v!r:.60}")
            continue
        reg, pre, _ = target(A)
        rd = lambda *p: steady(st, e.read(st, reg, pre + tuple(p)))
        n = rd(*step(fl))
        cnt = rd(("f", fc, AI, 2))
        hd = rd(*step(fh))
        for what, x in (("count", cnt), ("header", hd), ("length", n)):
            raw = x is UNDEF or any(y.op in ("ini", "at") and y.a[0] is thin(A) for y in subterms(x)) or x.op in ("fld", "ini") and not interpreted(x) and any(y is A for y in subterms(x))
            rep.check(not raw, "header", w, f"the {what} is never written")
        while cnt.op == "agg" and len(cnt.a[2]) >= 1:
            cnt = cnt.a[2][0]
        rep.check(True if cnt is ONE else False if cnt.op == "i" else None, "header", w, f"the first owner is counted as {cnt!r:.40}")
        f = st.facts.decide(mk("ptreq", *sorted((mk("null"), A), key=lambda x: x.id)))
        rep.check(True if f is False else None if f is None and not any("null" in repr(p) for p, _ in st.facts.log) and False else (False if not any("null" in repr(p) for p, _ in st.facts.log) else None), "null", w, "an allocation that failed is used")
        layout(rep, w, P, e, lay, n, st)
        slots(rep, w, e, st, evs, A, reg, pre + step(fs), n)
        last = [ev for ev in evs if ev[0] == "user" and ev[1].op == "next" or ev[0] == "user" and "next(" in repr(ev[1])]
        if not last:
            rep.bad("surplus", w, "items the iterator still has are left in it")
        else:
            d = st.facts.value(mk("discr", last[-1][3], 1))
            after = evs.index(last[-1]) > max([i for i, ev in enumerate(evs) if ev[0] == "loop"] + [-1])
            rep.check(True if d == 0 and after else False if after or not any(ev[0] == "loop" for ev in evs) else None, "surplus", w, "the iterator is not asked whether it has more items than it announced")


def app(t, name):
    """the arguments if t is the result of the named function"""
    if t.op in ("ap", "ap!") and (t.a[0] == name or str(t.a[0]).endswith("::" + name)):
        return [x for x in t.a[1] if isinstance(x, T)]
    return None


def layout(rep, w, P, e, lay, n, st):
    HS = "rowan::arc::HeaderSlice"
    t = lay
    while t.op == "fld":
        t = t.a[0]
    args = app(t, "from_size_align") or app(t, "from_size_align_unchecked")
    if not args or len(args) < 2:
        rep.unk("layout", w, f"{lay!r:.100}")
        return
    size, align = args[0], args[1]
    base, rounded = size, False
    xs = app(size, "binBitAnd")
    if xs:
        m = [(app(x, "bitnot"), y) for x, y in (xs, xs[::-1])]
        m = [(x[0], y) for x, y in m if x]
        if m:
            mask, other = m[0]
            base, rounded = sub(other, mask), True
            rep.check(True if add(mask, ONE) is align else differ_(add(mask, ONE), align), "layout", w, f"the size is rounded up to {add(mask, ONE)!r:.60}, the alignment is {align!r:.60}")
    want = add(mk("offset", AI, field(P, AI, "data")), mk("offset", HS, field(P, HS, "slice")))
    rest = sub(base, want)
    sizes = [x for x in subterms(base) if app(x, "size_of")]
    if len(sizes) == 1 and rest is mul(sizes[0], n) and rounded:
        ty = app(sizes[0], "size_of")[0].a[0]
        rep.check(True if str(ty).startswith("('param'") else None, "layout", w, f"items of type {ty!r:.60}")
    else:
        simple = all(x.op in ("offset", "mul", "ty", "loc", "ap!") or app(x, "size_of") or x.op in PRIM_OPS for x in subterms(base))
        rep.check(False if simple and (rounded or base is size and size.op == "lin") and len(sizes) <= 1 else None, "layout", w, f"{size!r:.160} bytes are allocated for {n!r:.40} items")
    ty = app(align, "align_of")
    if ty:
        ty = ty[0].a[0]
        rep.check(True if str(ty).startswith(f"('adt', '{AI}'") else False if str(ty).startswith(("('param'", "('prim'")) else None, "layout", w, f"the alignment is that of {ty!r:.60}")
    else:
        rep.check(None if align.op != "i" or align.a[0] >= 8 else False, "layout", w, f"alignment {align!r:.60}")


def slots(rep, w, e, st, evs, A, reg, spath, n):
    """every slot of the slice written once, and nothing beyond"""
    Ls = [ev[1] for ev in evs if ev[0] == "loop"]
    none = st.facts.decide(eqi(n, ZERO))
    wl = []
    for L in Ls:
        for bk in L.backs:
            new = bk.events()[len(L.hst.events()):]
            if any(ev[0] == "ptrwrite" for ev in new):
                wl.append(L)
                break
    if not wl:
        direct = [ev for ev in evs if ev[0] == "ptrwrite" and target(ev[1])[0] is reg and tuple(target(ev[1])[1])[:len(spath)] == tuple(spath)]
        if direct:
            rep.unk("slots", w, "items are written outside a loop")
        else:
            rep.check(True if none else False if none is None and n.op != "i" and not copies(evs) else None if copies(evs) or none is None else False, "slots", w, f"{n!r:.40} items are announced and none is written")
        return
    if len(wl) != 1:
        rep.unk("slots", w, "items are written in several loops")
        return
    L = wl[0]
    steps = [(ph, init, nexts) for region, path, ph, init, nexts in L.phis if ph.op == "phi"]
    counters = [sub(ph, init) for ph, init, nexts in steps if isnum(init) and nexts and all(x is add(ph, ONE) for x in nexts)]
    downs = [(ph, init) for ph, init, nexts in steps if nexts and all(x is sub(ph, ONE) for x in nexts)]
    ks = counters + [sub(init, ph) for ph, init in downs]
    for bk in L.backs:
        new = bk.events()[len(L.hst.events()):]
        wr = [ev for ev in new if ev[0] == "ptrwrite"]
        if len(wr) != 1:
            rep.check(False if not wr and not copies(new) else None, "slots", w, f"{len(wr)} slots are written in a round of the loop")
            continue
        p = wr[0][1]
        k = position(p, steps, reg, spath, ks)
        if k is None:
            rep.unk("slots", w, f"written to: {p!r:.100}")
            continue
        rep.check(k is not False, "slots", w, f"the items do not go one after the other into the slots: {p!r:.80}")
        val = wr[0][2]
        if not ks and by_items(bk.facts.log[len(L.hst.facts.log):]):
            rep.bad("slots", w, "items are written for as long as the iterator has some, whatever it announced")
        if ks:
            room = [bk.facts.decide(le(add(k_, ONE), n)) for k_ in ks]
            rep.check(True if True in room else False if bounded(bk, ks, n) else None, "slots", w, f"an item is written although there may be no slot left for it")
        if val is not None and val.op == "fld" and val.a[1] == 1:
            some = bk.facts.value(mk("discr", val.a[0], 1))
            rep.check(True if some == 1 else None, "slots", w, f"{val!r:.60} may not be an item")
    if ks:
        done = [st.facts.decide(le(n, k_)) for k_ in ks]
        rep.check(True if True in done else False if bounded(st, ks, n) else None, "slots", w, "the element is complete before every announced item was written")
    else:
        rep.unk("slots", w, "rounds of the loop are not counted")


def by_items(log):
    """do only the iterator's items keep the loop going?"""
    return all(p.op == "eq0" or p.op == "discr" or "discr(usernext" in repr(p)[:20] for p, _ in log) and all("discr(usernext" in repr(p) for p, _ in log) and bool(log)


def bounded(st, ks, n):
    """nothing else than the counters bounds the loop: what the facts leave open is possible"""
    return not infeasible(tuple(st.facts.log)) and all(interpreted(k) for k in ks) and not any("ptreq" in repr(p) and "phi" in repr(p) for p, _ in st.facts.log)


def copies(evs):
    return any(ev[0] == "call" and any(x in ev[1] for x in ("copy", "write", "extend", "for_each", "fold")) for ev in evs)


def position(p, steps, reg, spath, ks):
    """does p point to the slot of this round? (None: not known)"""
    for ph, init, nexts in steps:
        if ph is p or thin(p) is ph:
            r, q, _ = target(init)
            at_start = r is reg and tuple(q)[:len(spath)] == tuple(spath)
            if not at_start:
                return False if r is reg and (not q or all(x[0] == "f" for x in q)) else None
            one = all(next_slot(x, ph) for x in nexts)
            return True if one else (False if all(x is ph or moved(x, ph) is not None for x in nexts) else None)
    r, q, _ = target(p)
    if r is reg and q and q[-1][0] == "x":
        return True if any(q[-1][1] is k for k in ks) else None
    for ph, init, nexts in steps:
        if any(x is ph for x in subterms(p)):
            m = moved(p, ph)
            if m is not None and m is not ZERO:
                return False
    return None


def moved(x, ph):
    """by how many items x is further than ph"""
    if x is ph:
        return ZERO
    if x.op == "addr" and x.a[0].op == "at" and x.a[0].a[0] is ph and len(x.a[1]) == 1 and x.a[1][0][0] == "x":
        return x.a[1][0][1]
    return None


def next_slot(x, ph):
    return moved(x, ph) is ONE


def run_c21(rep):
    P = prog()
    bs = makers(P)
    if not bs:
        raise Missing("function that makes a counted allocation")
    for b in bs:
        # for this function the items come from the caller's iterator
        pmap(rep, making, [b])
    for b in bs:
        unwinding(rep, b)


def unwinding(rep, b):
    P = prog()
    ts = {t[1] for t in counted(P)} | set(GREENS)
    start = {i for i, k, n in calls(b) if n.startswith("alloc::alloc::alloc") or k in P.bodies and not P.bodies[k].model and reaches_alloc(P, P.bodies[k])}
    after, todo = set(), [b.blocks[i]["t"].get("t") for i in start]
    while todo:
        i = todo.pop()
        if i is None or i in after:
            continue
        after.add(i)
        t = b.blocks[i].get("t") or {}
        todo += [t.get("t"), t.get("u")] if t.get("k") != "switch" else []
        if t.get("k") == "switch":
            todo += succ(t)
    bad = [i for i in after if b.blocks[i].get("c") and b.blocks[i]["t"]["k"] == "drop" and mentions(P, b.tys[b.blocks[i]["t"]["p"]["t"]], ts)]
    rep.check(not bad, "unwinding", where(b), f"an unfinished element is dropped when the iterator panics ({[b.blocks[i]['t']['sp'] for i in bad][:2]})")


def succ(t):
    r = []
    for k, v in t.items():
        if k in ("arms", "else"):
            for x in v if isinstance(v, list) else [v]:
                x = x[-1] if isinstance(x, list) else x
                if isinstance(x, int):
                    r.append(x)
    return r


def mentions(P, t, ts):
    return t is not None and t[0] == "adt" and t[1] in ts


def run_c01(rep):
    P = prog()
    ts = counted(P)
    if not ts:
        raise Missing("owner of a counted allocation")
    save = dict(CLS)
    for t in ts:
        CLS[t[1]] = "g"
    try:
        drops = {i["items"]["drop"] for i in P.impls.get("core::ops::drop::Drop", ()) if "drop" in i["items"]}
        fs = [b for b in green_functions(P) if b.key not in drops]
        pmap(rep, balance, fs)
        pmap(rep, share, [b for b in fs if b.name.endswith(("::clone", "::to_owned"))])
        pmap(rep, release, [("adt", g, ()) for g in GREENS] + ts)
        pmap(rep, unique, [b for b in fs if takes_owner(b, ts)])
    finally:
        CLS.clear()
        CLS.update(save)


def takes_owner(b, ts):
    t = b.sig_in[0] if b.sig_in else None
    out = b.sig_out
    if out[0] == "adt" and out[1] == OPTION:
        out = out[2][0]
    return t is not None and t[0] == "ref" and t[1] and t[2] is not None and t[2][0] == "adt" and t[2][1] in [x[1] for x in ts] + list(GREENS) and out[0] == "ref" and out[1]


def tname(t):
    return t[1]


# ------------------------------------------------------------------ never changed
def data_types(P):
    """the types green elements are made of, behind the pointer"""
    r, todo = set(), [AI] + [n for n in (DATA_N, DATA_T) if n in P.adts]
    for g in GREENS:
        t = pointee(P, ("adt", g, ()))
        todo += inner_adts(t) if t else []
    while todo:
        n = todo.pop()
        a = P.adts.get(n)
        if a is None or not a["local"] or n in r or n in GREENS or n in [t[1] for t in counted(P)]:
            continue
        r.add(n)
        for var in a["fields"]:
            for _, t in var:
                todo += inner_adts(t)
    return r


DATA_N, DATA_T = "rowan::green::node::GreenNodeData", "rowan::green::token::GreenTokenData"


def inner_adts(t):
    if t is None:
        return []
    if t[0] == "adt":
        return [t[1]] + [y for x in t[2] for y in inner_adts(x)]
    if t[0] in ("array", "slice"):
        return inner_adts(t[1])
    if t[0] == "tuple":
        return [y for x in t[1] for y in inner_adts(x)]
    return []


def is_data(t, D):
    return t is not None and (t[0] == "adt" and t[1] in D or t[0] in ("slice", "array") and is_data(t[1], D))


def write_sites(b, D):
    """places in green data which a body writes to, or makes writable pointers to"""
    r = []
    for blk in b.blocks:
        for s in blk["s"]:
            if s["k"] != "=":
                continue
            rv = s.get("r") or {}
            ps = [s["p"]] if s["p"].get("p") else []
            if rv.get("k") in ("rawptr", "ref") and rv.get("mut"):
                ps.append(rv["p"])
            for p in ps:
                t, deref = b.tys[b.locals[p["l"]]["t"]], False
                for q in p.get("p", ()):
                    if q["k"] == "deref":
                        deref = True
                        t = t[2] if t is not None and t[0] in ("ref", "ptr") else None
                        if is_data(t, D):
                            r.append(s["sp"])
                    elif q["k"] == "f":
                        if deref and q.get("adt") in D:
                            r.append(s["sp"])
                        t = b.tys[q["t"]] if q.get("t") is not None else None
                    else:
                        t = None
            if rv.get("k") == "cast":
                t1 = b.tys[rv["t"]] if isinstance(rv.get("t"), int) else None
                if t1 is not None and t1[0] in ("ptr", "ref") and t1[1] and is_data(t1[2], D):
                    r.append(s["sp"])
    return sorted(set(r))


def exposes(t, D):
    """does a value of type t let its holder write to green data?"""
    if t is None:
        return False
    if t[0] in ("ref", "ptr"):
        return bool(t[1]) and is_data(t[2], D) or exposes(t[2], D)
    if t[0] == "adt":
        return any(exposes(x, D) for x in t[2])
    if t[0] == "tuple":
        return any(exposes(x, D) for x in t[1])
    return False


def same_value(e, P, v, d, name=""):
    """is v what was there before? [(where it differs, definite?)]"""
    if v is d:
        return []
    if v.op == "agg" and v.a[0] in P.adts and v.a[1] is not None:
        fs = P.adts[v.a[0]]["fields"][v.a[1]]
        r = []
        for i, x in enumerate(v.a[2]):
            n, t = fs[i] if i < len(fs) else (str(i), None)
            if v.a[0] == AI and n == "count" or t is not None and t[0] == "adt" and (t[1].startswith("core::marker") or t[1].startswith("countme")):
                continue
            y = e.project(d, ("f", i, v.a[0], len(v.a[2])) if len(P.adts[v.a[0]]["fields"]) == 1 else ("v", v.a[1], i, v.a[0], len(v.a[2])))
            q = same_value(e, P, x, y, (name + "." if name else "") + n)
            if t is not None and t[0] == "adt" and ("cell" in t[1].lower() or "atomic" in t[1].lower() or "sync" in t[1].lower()) and n not in ("kind", "text_len", "rel_offset", "length", "slice", "header"):
                q = [(w, False) for w, _ in q]
            r += q
        return r
    z = differ(v, d) if v is not UNDEF else None
    return [(f"{name or 'value'}: {v!r:.60} instead of {d!r:.60}", True)] if z else [] if z is False else [(f"{name or 'value'}: {v!r:.60}", False)]


def unchanged(rep, b):
    P = prog()
    D = data_types(P)
    e = ledger_engine(P, None, follow=True, atoms={"drop:" + n: noted for n in CLS if CLS[n] == "g"}, edits=b.key.startswith("rowan::cursor"), budget=300000)
    outs = e.analyse(b)
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = where(b)
    bad = []
    for o in outs:
        if o.kind not in ("ret", "panic"):
            continue
        st = o.st
        made = [thin(ev[3]) for ev in st.events() if ev[0] == "call" and ev[1].startswith("alloc::alloc::alloc")]
        gone = [target(ev[1])[0] for ev in st.events() if ev[0] == "free"]
        for region, v in list(st.mem.items()):
            if region.op != "at" or any(x in made for x in subterms(region.a[0])) or region in gone:
                continue
            v = steady(st, v)
            if v.op == "agg" and v.a[0] in D:
                bad += [(region, x, sure and interpreted(region.a[0], ("cont", "offset", "fat", "ap!")) and not infeasible(tuple(st.facts.log))) for x, sure in same_value(e, P, v, e.default(region))]
    if not bad:
        rep.ok("unchanged", w)
    for region, x, sure in bad:
        rep.put(BAD if sure else UNK, "unchanged", w, f"green element {region.a[0]!r:.60} which was there before is changed: {x}")


def helper(b, D, ts):
    """takes writable access to green data as an argument: decided where it is called"""
    for t in b.sig_in or ():
        if exposes(t, D) or t is not None and t[0] in ("ref", "ptr") and t[1] and t[2] is not None and t[2][0] == "adt" and t[2][1] in ts or is_raw(t) and is_data(t[2] if t[0] == "ptr" else t[2][0], D):
            return True
    return False


def run_c03(rep):
    P = prog()
    ts = [t[1] for t in counted(P)]
    D = data_types(P)
    if not any(n in D for n in (DATA_N, DATA_T)) or not ts:
        raise Missing("green data")
    outer = {DATA_N, DATA_T, *GREENS, *D}
    for b in functions(P, "rowan"):
        if b.exported and b.sig_out is not None:
            rep.check(not (exposes(b.sig_out, D)), "exports", where(b), f"writable access to green data is handed out: {b.sig_out!r:.100}")
    for tr in ("core::ops::deref::DerefMut", "core::borrow::BorrowMut", "core::convert::AsMut", "core::ops::index::IndexMut"):
        hit = [i for i in P.impls.get(tr, ()) if i["self"][0] == "adt" and i["self"][1] in outer | set(ts) and (i["self"][1] not in ts)]
        rep.check(not hit, "exports", tr, f"implemented for {[i['self'][1] for i in hit]}")
    sites = {b.key: (b, write_sites(b, D)) for b in P.bodies.values() if not b.model and b.key.startswith("rowan") and "spec::" not in b.key}
    sites = {k: v for k, v in sites.items() if v[1]}
    for k, (b, s) in sorted(sites.items()):
        rep.ok("sites", f"{where(b)}: {s}"[:200])
    todo = {b.key: b for b in green_functions(P)}
    # whatever else writes to green data, and through helpers its callers
    work = [b for b, _ in sites.values()]
    callers = {}
    for b in P.bodies.values():
        if not b.model:
            for _, k, _ in calls(b):
                callers.setdefault(k, set()).add(b.key)
    seen = set()
    while work:
        b = work.pop()
        if b.key in seen:
            continue
        seen.add(b.key)
        if helper(b, D, ts) or b.kind == "Closure":
            work += [P.bodies[k] for k in callers.get(b.key, ())] + ([P.bodies[b.parent]] if b.parent in P.bodies else [])
        else:
            todo[b.key] = b
    save = dict(CLS)
    for t in ts:
        CLS[t] = "g"
    try:
        pmap(rep, unchanged, [b for k, b in sorted(todo.items()) if b.kind != "Closure" and not (helper(b, D, ts) and not b.exported)])
    finally:
        CLS.clear()
        CLS.update(save)


CHECKS = {
    "C01": dict(run=run_c01, technique="linear accounting of references on every path of the MIR of the green layer; ordering rules on its atomic operations",
                explanation="Every function of the green layer is interpreted path by path down to the atomic operations. References counted up and down are added up per element against the owners that come in (arguments, items taken out of lists) and go out "
                "(results, items put into lists, raw pointers): the sum is zero on every path. Dropping each owning type is interpreted down to the release of the memory.",
                rules={"balance": "on every path, the references counted are those of the owners made, kept and dropped; raw pointers made from owners carry theirs over", "overflow": "no path goes on with a count near overflow",
                       "release": "dropping an owner gives one reference back, and the memory is released once, exactly when it was the last", "order": "giving back is a release, and an acquire comes before the memory is released",
                       "contents": "what the element holds is dropped once, as many children as are stored", "unique": "mutable access needs an acquiring read of a count of one"},
                note="Ownership that passes through lists is followed item by item; through a loop over run-time many items it is not, and is left to the compiler's drop elaboration. ",
                assumptions=["std's atomics, Box, Vec and hashbrown's map behave as documented", "the compiler's drop elaboration is right"]),
}

CHECKS["C21"] = dict(run=run_c21, technique="symbolic layout arithmetic and loop-progress analysis of the allocating function's MIR; unwind-path analysis",
                explanation="The function which allocates green elements is interpreted for an arbitrary iterator. The size and alignment it asks for are compared, as terms, with what the type layout needs for the number of items stored; "
                "the loop which fills the slots is analysed for position, progress and bounds; every way to return is required to have asked the iterator for one more item and got none. The MIR's unwind edges are followed for what they drop.",
                rules={"layout": "size and alignment are those of the header and the stored number of items, rounded up", "header": "count, header and length are written; the count is one", "null": "a failed allocation is not used",
                       "slots": "slot k is written in round k and only if k is less than the stored length; the element is complete only if the rounds are as many", "surplus": "the iterator was asked for one more item and had none",
                       "unwinding": "no unwind path drops the unfinished element"},
                note="Covers every iterator, including ones whose len lies or changes from call to call. ",
                assumptions=["std's Layout, alloc and ptr::write behave as documented"])

CHECKS["C03"] = dict(run=run_c03, technique="effect analysis: writes to green data enumerated in the MIR and interpreted for whether the element existed before; signatures checked for writable access",
                explanation="All places in the MIR where green data is written, or a writable pointer to it is made, are enumerated by type. Every function of the green layer, and every other function with such a place (callers included where it takes the access as an argument), "
                "is interpreted path by path: green data not allocated on the same path is the same at the end, except for reference counts. No exported signature or trait impl hands out writable access.",
                rules={"exports": "no exported function or trait gives writable access to green data", "sites": "where green data is written or made writable (enumeration)", "unchanged": "on every path, elements that existed before are as they were"},
                note="A write the MIR makes through a pointer of an unrelated type (after a transmute) is seen by the interpretation of the function, not by the enumeration. ",
                assumptions=["the caller's code has no unsafe access to green data"])

if __name__ == "__main__":
    import collections, sys as _s

    rp = Rep()
    {"C21": run_c21, "C03": run_c03}.get(_s.argv[-1], run_c01)(rp)
    for x in rp.es:
        if x.st != "ok":
            print(x.st, x.rule, x.where, str(x.msg)[:200])
    print(collections.Counter((x.st, x.rule) for x in rp.es))
