"""C09: cursor memory is released exactly when the last handle goes away."""
from ledger import *
from props_place import api_functions


class Note(str):
    """a reason for uncertainty which does not concern the keys `apart`"""

    def __new__(cls, s, apart):
        r = str.__new__(cls, s)
        r.apart = apart
        return r


def hidden(l, k):
    """what keeps the count of k from being certain (who owns green trees says nothing about handles)"""
    return [x for x in l.opaque if not (k[0] == "h" and x.startswith("root or not")) and k not in getattr(x, "apart", ())]


def params(b):
    for i in range(b.argc):
        yield mk("param", b.locals[i + 1].get("n") or f"arg{i}"), b.sig_in[i] if i < len(b.sig_in) else None


def whole(e, C, b, o):
    """[(state, ledger)] of a path from entry to return, or to a panic"""
    led = segment(e, C, St(), o.st, 0, Led())
    items = [(o.val, b.sig_out, -1, "result")] if o.kind == "ret" else []
    if gives_up(b):
        # after its drop an element handle is no more
        p, t = next(params(b))
        r, path, _ = target(p)
        led.add(key_of(e, t[2][1], e.default(r)), ONE, "dropped")
        return [(o.st.fork(), led)]
    for p, t in params(b):
        if t is None:
            continue
        if t[0] == "ref" and t[1] and t[2] is not None and e.needs_drop(t[2]) and not unsized(t[2]):
            r, path, _ = target(p)
            items.append((e.read(o.st, r, path), t[2], -1, f"left in {p!r}"))
            items.append((e.default(r) if not path else UNDEF, t[2], 1, f"was in {p!r}"))
        elif t[0] not in ("ref", "ptr"):
            items.append((p, t, 1, f"argument {p!r}"))
    return expand(e, o.st.fork(), led, items)


def first(st, m):
    """can the path be taken with the loop variables at their initial values? (False: certainly not)"""
    f = Facts()
    for p, v in st.facts.log:
        f = f.assume(settled(subst(p, m)), v)
        if f is None:
            return False
    return True


def settled(t):
    """tests of values that are known"""
    m = {}
    for x in subterms(t):
        if x.op == "discr" and x.a[0].op == "agg":
            m[x] = Int(x.a[0].a[1])
    return subst(t, m) if m else t


def balanced(rep, rule, w, e, s, led, m):
    l = settle(resolve(e, s, led).subst(m), s)
    bad = [(k, n, why) for k, (n, why) in l.d.items() if n is not ZERO and not (k[0] in ("h", "g") and present(s, k[1]) is False)]
    if not bad:
        rep.ok(rule, w)
        return
    for k, n, why in bad:
        sure = n.op == "i" and not hidden(l, k) and k[0] in ("h", "g") and interpreted(k[1], ("cont", "offset", "ap!", "fat")) and not infeasible(tuple(s.facts.log))
        if k[0] == "?" and (k[1].op == "i" or user_value(k[1])) or n.op == "i" and n.a[0] == -1 and from_caller(k[1]):
            rep.ok(rule, w)
            continue
        what = {"h": "element", "g": "green tree"}.get(k[0], "value")
        rep.put(BAD if sure else UNK, rule, w, f"{what} {k[1]!r:.100}: count is off by {n!r:.60} ({', '.join(why)[:200]})" + (f" [{l.opaque[0]}]" if l.opaque else ""))


def from_caller(k):
    """a handle the caller's code returned"""
    return any(x.op == "ap!" and x.a[0] in ("usernext", "user") for x in subterms(k))


def user_value(v):
    """something the caller supplied, or made from it"""
    while v.op in ("ap!", "ap", "fld", "ini", "at") or v.op not in PRIM_OPS and v.a and isinstance(v.a[0], T):
        v = v.a[0] if isinstance(v.a[0], T) else v.a[1] if len(v.a) > 1 and isinstance(v.a[1], T) else mk("param", "?")
    return v.op in ("param", "user", "clone", "hashed")


def settle(l, s):
    """keys which the facts make equal are one"""
    ks = [k for k, (n, _) in l.d.items() if n is not ZERO and k[0] in ("h", "g")]
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            if a[0] != b[0] or a not in l.d or b not in l.d:
                continue
            pa, pb = (x[1].a[0] if x[1].op == "at" else x[1] for x in (a, b))
            if s.facts.decide(mk("ptreq", *sorted((pa, pb), key=lambda x: x.id))) is True:
                n, w = l.d.pop(b)
                c, w0 = l.d[a]
                l.d[a] = (add(c, n), w0 + w)
    return l


def callees(P, b):
    """the other functions of the interface, by what is shown for each of them"""
    return {x.name: True for x in api_functions(P) if x is not b and x.name != b.name and x.sig_in is not None
            and not any(t[0] in ("ref", "ptr") and t[1] for t in x.sig_in) and not any("closure" in repr(t) for t in x.sig_in)}


def gives_up(b):
    return b.name in tuple(f"<{t} as core::ops::drop::Drop>::drop" for t in (NODE, TOKEN))


def balance(rep, it):
    b, mut = it
    P = prog()
    C = Cur(P)
    outs = None
    for modular in (False, True):
        e = ledger_engine(P, mut, follow=gives_up(b), atoms=callees(P, b) if modular else None, budget=300000)
        try:
            outs = e.analyse(b)
            break
        except Undecided as x:
            if "budget" not in str(x) or modular:
                raise
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    w = f"{where(b)} mutable={mut}"
    loops = {}
    for o in outs:
        if o.kind != "ret":
            if o.kind not in ("panic", "abort"):
                rep.unk("balance", w, o.kind)
            continue
        for s, led in whole(e, C, b, o):
            m = phi_map(o.st.events())
            if not m or first(s, m):
                balanced(rep, "balance", w, e, s, led, m)
            for L, l in by_loop(o.st, resolve(e, s, led)):
                loops.setdefault(id(L), (L, []))[1].append((s, l))
        frees(rep, w, e, C, o.st)
    for L, ends in loops.values():
        iteration(rep, w, e, C, L, ends)


def by_loop(st, led):
    """the ledger in terms of each loop's variables"""
    Ls = [ev[1] for ev in st.events() if ev[0] == "loop"]
    for i, L in enumerate(Ls):
        m = {}
        for L2 in Ls[i + 1:]:
            for region, path, ph, init, nexts in L2.phis:
                if ph.op == "phi":
                    m[ph] = subst(init, m)
        if not m or first(st, m):
            yield L, led.subst(m)


def held_by(t, phs):
    """is t something in the variables?"""
    xs = subterms(t)
    return phs & xs and all(x.op in ("phi", "fld", "at", "addr", "cont", "offset", "fat", "i") and (x.op != "phi" or x in phs) for x in xs)


def iteration(rep, w, e, C, L, ends):
    phs = {x[2] for x in L.phis if x[2].op == "phi"}
    cs = {}
    name = f"{w} [{L.name}]"
    for s, led in ends:
        for k, (n, _) in led.d.items():
            if n is not ZERO and k[0] in ("h", "g") and held_by(k[1], phs) and present(s, k[1]) is not False:
                cs.setdefault(k, []).append(n)
    # what the variables hold must not depend on how the loop is left
    held = {}
    known = True  # is it known what they hold?
    for k, ns in cs.items():
        if any(n is not ns[0] for n in ns):
            rep.put(BAD if all(n.op == "i" for n in ns) and not any(hidden(l, k) for _, l in ends) else UNK, "balance-exit", name, f"{k[1]!r:.100} is off by {' or '.join(sorted({repr(n)[:40] for n in ns}))} depending on how the loop is left")
            known = False
            continue
        held[k] = ns[0]
        for s, led in ends:
            n = led.d.get(k, (ZERO, ()))[0]
            p = present(s, k[1])
            if n is not ns[0] and p is not False:
                known = False
                rep.put(UNK if p is None or led.opaque else BAD, "balance-exit", name, f"{k[1]!r:.100} is off by {ns[0]!r:.40} on some ways out of the loop and not on others")
    for i, bst in enumerate(L.backs):
        nx = {x[2]: x[4][i] for x in L.phis if x[2].op == "phi"}
        led = segment(e, C, L.hst, bst, len(L.hst.events()), Led())
        m = phi_map(bst.events()[len(L.hst.events()):])
        put = in_lists(e, led, nx)
        ss = cases(bst, [k[1] for k in held] + [subst(k[1], nx) for k in held])
        for s, l in [x for s in ss for x in expand(e, s.fork(), led, put)]:
            if m and not first(s, m):
                continue
            for k, n in held.items():
                # the loop's variables hold -n of k, before and after
                if present(s, k[1]) is not False:
                    l.add(k, sub(ZERO, n), "held by the loop")
                k2 = (k[0], subst(k[1], nx))
                if present(s, k2[1]) is not False:
                    if "h" == k[0] and k2[1].op == "at":
                        k2 = (k[0], place(k2[1].a[0]))
                    l.add(k2, n, "held by the next iteration")
            off = [k for k, (n, _) in l.d.items() if n is not ZERO and k[0] in ("h", "g")]
            if known and any(silent(k, phs, held, nx) for k in off):
                known = False
            if not known:
                # no variable of the loop holds these, whatever it is
                l.opaque.append(Note("what the loop holds is not known", {k for k in off if k[0] == "h" and apart(k, phs, L)}))
            balanced(rep, "balance-loop", name, e, s, l, m)


def apart(k, phs, L):
    """does no variable of the loop ever hold the element of k?"""
    p = k[1].a[0] if k[1].op == "at" else k[1]
    if subterms(p) & phs or not interpreted(p) or any(x.op == "heap" for x in subterms(p)):
        return False
    vs = [v for x in L.phis for v in (x[3],) + tuple(x[4])]
    return not any(may_hold(v, p) for v in vs)


def may_hold(v, p):
    """may p be (part of) the value v? What is read out of the element at p does not count"""
    if v is UNDEF or v is p:
        return True
    if v.op == "agg":
        return any(may_hold(x, p) for x in v.a[2])
    if v.op in ("i", "lin", "str", "null"):
        return False
    if v.op in ("fld", "ini"):
        return not interpreted(v)
    return p in subterms(v)


def silent(k, phs, held, nx):
    """does k belong to a variable which is empty wherever the loop is left?"""
    t = k[1]
    if subterms(t) & phs:
        return not any(subterms(h[1]) >= subterms(t) for h in held)
    p = t.a[0] if t.op == "at" else t
    return any(p in subterms(v) for v in nx.values()) and not any(same_key(subst_key(h, nx), k) for h in held)


def subst_key(k, m):
    k = (k[0], subst(k[1], m))
    return ("h", place(k[1].a[0])) if k[0] == "h" and k[1].op == "at" else k


def same_key(a, b):
    return a[0] == b[0] and a[1] is b[1]


def in_lists(e, led, nx):
    """the values an iteration appends to lists"""
    out = []
    for ph, v in nx.items():
        if v.op != "seq":
            continue
        for x in v.a[0]:
            if x[0] == "s":
                if x[1] is not ph or x[2] is not ZERO or x[3] is not mk("vlen", ph):
                    led.opaque.append(f"part of the list {x[1]!r:.40}")
                continue
            t = e.type_of(x[1])
            if t is None:
                led.opaque.append(f"{x[1]!r:.60} goes into a list")
            else:
                out.append((x[1], t, -1, "goes into a list"))
    return out


def cases(st, ks, cap=64):
    """the state, by what the values the terms look into are"""
    work = [st]
    for k in ks:
        nxt = []
        for s in work:
            xs = [x for x in subterms(k) if x.op == "fld" and x.a[1] is not None and x.a[0].op != "agg" and s.facts.value(mk("discr", x.a[0], 1)) is None]
            q = [s]
            for x in xs:
                c = eqi(mk("discr", x.a[0], 1), Int(x.a[1]))
                q = [y for z in q for y in (z.assume(c), z.assume(c, False)) if y is not None]
            nxt += q
        work = nxt
        if len(work) > cap:
            return [st]
    return work


def frees(rep, w, e, C, st):
    """what is released has no references left; what has none left is released"""
    evs = st.events()
    fr = [target(ev[1])[0] for ev in evs if ev[0] == "free"]
    if len(set(fr)) != len(fr):
        rep.bad("free", w, "an element is released twice")
    loops = [ev[1] for ev in evs if ev[0] == "loop"]
    releasing = [L for L in loops if any(ev[0] == "free" for b in L.backs for ev in b.events()[len(L.hst.events()):])]
    zero = {}  # loop variables that point to elements without references
    for L in releasing:
        for region, path, ph, init, nexts in L.phis:
            if ph.op != "phi" or mk("at", ph) not in fr and not any(freed_in(b.events()[len(L.hst.events()):], mk("at", ph)) for b in L.backs):
                continue
            rs = [none_left(e, C, L.entry, init)] + [none_left(e, C, b, x) for b, x in zip(L.backs, nexts)]
            zero[mk("at", ph)] = False if False in rs else None if None in rs else True
            rep.put(OK if zero[mk("at", ph)] else BAD if False in rs else UNK, "free-loop", f"{w} [{L.name}]", "an element is released in a loop although references may be left")
            for b in L.backs:
                gone_or_kept(rep, f"{w} [{L.name}]", e, C, b, L, {target(x)[0] for x in nexts})
    for region, v in node_contents(st):
        if region.op != "at":
            continue
        rc1, rc0 = C.fld(e, v, C.rc), C.fld(e, e.default(region), C.rc)
        d = sub(rc1, rc0)
        z = st.facts.equal(rc1, ZERO)
        if region in zero:
            continue
        if region in fr:
            rep.check(True if z else False if interpreted(rc1) and not phis_in(region) else None, "free", w, f"{region!r:.80} is released with {rc1!r:.60} references left")
        elif d.op == "i" and d.a[0] < 0:
            # in front of a loop that releases elements: it may go on from this one
            next_ = releasing and any(target(x[3])[0] is region or region.a[0] in subterms(x[3]) for L in releasing for x in L.phis)
            rep.check(True if z is False or next_ else False if interpreted(rc1) and not phis_in(rc1) else None, "free", w, f"{region!r:.80} is given up and not released although {rc1!r:.60} references are left, possibly none")


def phis_in(t):
    return any(x.op == "phi" for x in subterms(t))


def none_left(e, C, st, p):
    r, path, _ = target(p)
    v = node_of(e, C, st, r) or e.default(r)
    rc = C.fld(e, v, C.rc)
    z = st.facts.equal(rc, ZERO)
    return True if z else False if z is False or st.mem.get(r) is None and not phis_in(rc) else None


def gone_or_kept(rep, w, e, C, st, L, next_):
    """an iteration that takes a reference away leaves some, releases the element or passes it to the next"""
    evs = st.events()[len(L.hst.events()):]
    for region, v in node_contents(st):
        if region.op != "at" or freed_in(evs, region) or region in next_:
            continue
        v0 = node_of(e, C, L.hst, region) or e.default(region)
        rc1 = C.fld(e, v, C.rc)
        d = sub(rc1, C.fld(e, v0, C.rc))
        if d.op == "i" and d.a[0] < 0:
            rep.put(OK if st.facts.equal(rc1, ZERO) is False else UNK, "free-loop", w, f"{region!r:.80} is given up in a loop")


def run(rep):
    P = prog()
    items = sorted({(b.key, m): (b, m) for b in list(api_functions(P)) + [b for b in functions(P, "rowan") if gives_up(b)] for m in (0, 1)}.values(), key=lambda x: -len(x[0].blocks))
    pmap(rep, balance, items)


CHECKS = {
    "C09": dict(run=run, technique="linear accounting (ownership dataflow) over MIR: per path and per loop iteration, changes of every reference count against the handles and parent links that appear and disappear",
                explanation="Abstract interpretation of the MIR of every exported function and trait method of the cursor layer, for immutable and for editable trees. On each path, for every element touched, the change of its "
                "reference count has to equal the handles the function returns, leaves behind or keeps minus those it was given, plus the parent links it creates minus those it removes; likewise for the green trees that "
                "roots own. Loops are checked by what their variables hold: on entry, over each iteration and on every exit. An element whose count drops is released exactly when no reference is left. "
                "The drop of a node and of a token handle is analysed in full, the drops of handles elsewhere are counted.",
                rules={"balance": "over a path, counts change by the handles and parent links gained or lost", "balance-loop": "the same over one iteration, with what the loop's variables hold", "balance-exit": "what the variables hold does not depend on how the loop is left",
                       "free": "an element is released once, when no reference is left, and whenever none is", "free-loop": "the same for elements released in loops"},
                note="Elements reached through the sibling list of an editable tree are taken to be alive (C13). Functions the analysis cannot finish are analysed with the other exported functions taken as balanced. "),
}
if __name__ == "__main__":
    import collections

    r = Rep()
    P = prog()
    if len(sys.argv) > 1:
        for b in functions(P, "rowan"):
            if b.name == sys.argv[1]:
                for m in (0, 1):
                    balance(r, (b, m))
    else:
        run(r)
    for k, v in collections.Counter((x.st, x.rule, x.where, x.msg) for x in r.es).items():
        if k[0] != "ok":
            print(v, str(k)[:400])
    print(collections.Counter((x.st, x.rule) for x in r.es))
