"""C15: the typed layer is the untyped tree seen through the language."""
from equiv import *
import equiv

KFR = "rowan::api::Language::kind_from_raw"
PAIRS_NODE = "rowan::api::SyntaxNode"
# untyped operations that are not expressible by each other
PRIMITIVE = set("""parent first_child last_child first_child_or_token last_child_or_token next_sibling prev_sibling
next_sibling_or_token prev_sibling_or_token first_child_by_kind first_child_or_token_by_kind next_sibling_by_kind
next_sibling_or_token_by_kind kind text_range index text green is_mutable detach splice_children replace_with
token_at_offset covering_element child_or_token_at_range clone_subtree clone_for_update new_root new_root_mut
next skip_subtree children children_with_tokens preorder preorder_with_tokens by_kind first_token last_token next_token prev_token
descendants descendants_with_tokens siblings siblings_with_tokens""".split())
PAIRS = {  # typed type -> untyped type
    "rowan::api::SyntaxNode": NODE, "rowan::api::SyntaxToken": TOKEN,
    "rowan::api::SyntaxNodeChildren": "rowan::cursor::SyntaxNodeChildren",
    "rowan::api::SyntaxElementChildren": "rowan::cursor::SyntaxElementChildren",
    "rowan::api::Preorder": "rowan::cursor::Preorder",
    "rowan::api::PreorderWithTokens": "rowan::cursor::PreorderWithTokens",
}


def typed_prog(config="release"):
    P = prog(config)
    wrappers(P)
    equiv.PROG = P
    return P


def op_atom(e, st, c):
    b = c.body
    if b is None or not b.key.startswith("rowan::cursor"):
        return None
    if c.atys is None:
        c.atys = b.sig_in
    return e.opaque(c, b.name)


def typed_engine(P):
    at = {}
    for b in functions(P, "rowan::cursor"):
        if (b.exported or b.impl_of) and not (b.impl_of or "").endswith(("Clone", "Drop", "From", "Deref")):
            if b.name.endswith(("::Node", "::Token")):
                continue
            at[b.name] = op_atom
    for t in HANDLES:
        at[f"<{t} as core::clone::Clone>::clone"] = val_clone
        at["drop:" + t] = nodrop
        at.pop(f"<{t} as core::ops::drop::Drop>::drop", None)
    return PureEngine(P, atoms=at, budget=200000)


def is_identity(e, st, f, depth=0):
    """the callable f returns its argument: True / False / None"""
    x = mk("param", "item#")
    try:
        outs = e.call_value(st.fork(), f, [x], 40, None, "")
    except Undecided:
        return None
    res = True
    for o in outs:
        if o.kind != "ret":
            return None
        q = veq(o.val, x, o.st.facts)
        if q is not True:
            q2 = sub_identity(e, o.st, o.val, x)
            if q2 is not True:
                res = False if q is False and q2 is not None else None
                break
    return res


def sub_identity(e, st, v, x):
    """x taken apart and put together again with its parts unchanged"""
    if v.op == "agg" and len(v.a[2]):
        k = st.facts.value(mk("discr", x, 1))
        n = len(PROG_().adts[v.a[0]]["variants"]) if v.a[0] in PROG_().adts else 0
        if k is None and n:
            k = st.facts.value(mk("discr", x, n - 1))
        if n > 1 and k is not None and k != v.a[1]:
            return False
        return all3(veq(y, fld(x, v.a[1] if n > 1 else None, i, v.a[0], len(v.a[2])), st.facts) for i, y in enumerate(v.a[2]))
    return None


def PROG_():
    return equiv.PROG


def unwrap_maps(e, st, v):
    """(inner iterator, True/False/None: only identities were mapped over it)"""
    r = True
    while v.op == "agg" and v.a[0] == "models::Map":
        names = [n for n, _ in PROG_().adts["models::Map"]["fields"][0]]
        f = v.a[2][names.index("f")]
        q = is_identity(e, st, f)
        r = all3((r, q))
        v = v.a[2][1 - names.index("f")]
    return v, r


def fn_arg(t):
    while t and t[0] == "ref":
        t = t[2]
    return t and t[0] == "param" and t[1].startswith("impl Fn")


def matcher_ok(v, pname):
    """v calls the caller's predicate with the language's kind of its argument"""
    if v.op != "lam":
        return None
    u = v.a[0]
    if u.op != "ap" or u.a[0] != "user":
        return False if known(v) and u.op in ("i", "not") else None
    f, args = u.a[1][0], u.a[1][1:]
    if not any(x.op == "param" and x.a[0] == pname for x in subterms(f)):
        return None
    if len(args) == 1 and args[0].op == "agg" and args[0].a[0] == "(tuple)" and len(args[0].a[2]) == 1:
        args = args[0].a[2]
    if len(args) != 1:
        return None
    a = strip1_(args[0])
    if a.op == "ap" and a.a[0] == KFR:
        x = a.a[1][0]
        if strip1_(x).op == "param" and strip1_(x).a[0] == "arg#":
            return True
        return None
    return False if known(a) else None


def strip1_(t):
    while t.op == "agg" and len(t.a[2]) == 1:
        t = t.a[2][0]
    return t


def method_pair(rep, it):
    b, cb, variants = it
    P = typed_prog()
    e = typed_engine(P)
    w = where(b)
    method = b.item
    names = [b.locals[i + 1].get("n") or f"arg{i}" for i in range(b.argc)]
    args = [mk("param", n) for n in names]
    outs = e.analyse(b, list(args))
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    for o in outs:
        one(rep, P, e, b, cb, variants, o, args, names, w, method)


def expected(e, b, cb, variants, st, args):
    """(operation, its arguments) expected on this path, or None"""
    vs = [pval(e, St(), a, t) for a, t in zip(args, b.sig_in)]
    if variants:
        k = st.facts.value(mk("discr", vs[0], 1))
        if k is None:
            return None
        vs[0] = fld(vs[0], k, 0, NOT, 1)
        cb = variants[k]
    return cb, vs


def one(rep, P, e, b, cb, variants, o, args, names, w, method):
    rule = "delegates"
    if o.kind != "ret":
        rep.unk(rule, w, f"{o.kind}: {o.why}")
        return
    x = expected(e, b, cb, variants, o.st, args)
    if x is None:
        rep.unk(rule, w, "variant of the element not known")
        return
    cb, vs = x
    if cb is None:
        rep.unk(rule, w, "no untyped operation of this name")
        return
    st = o.st
    prim = method in PRIMITIVE
    occ = [ev for ev in st.events() if ev[0] == "ocall"]
    other = [ev for ev in st.events() if ev[0] not in ("ocall",)]
    mutcall = cb.sig_in and any(t and t[0] in ("ref", "ptr") and t[1] for t in cb.sig_in)
    val, ident = unwrap_maps(e, st, o.val)
    if mutcall:
        if len(occ) != 1 or other:
            rep.put(BAD if prim and all(ev[1].startswith("<rowan::cursor") for ev in occ) and not other else UNK, rule, w,
                    f"performs {[short(ev[1]) for ev in occ] or 'nothing'} instead of {short(cb.name)}")
            return
        ev = occ[0]
        if ev[1] != cb.name:
            rep.put(BAD if prim else UNK, rule, w, f"performs {short(ev[1])} instead of {short(cb.name)}")
            return
        got, gname, res = ev[2], ev[1], ev[3]
    else:
        if any(ev[0] in ("user", "effect", "loop") or ev[0] == "ocall" for ev in st.events()):
            rep.unk(rule, w, "does more than the untyped operation")
            return
        res = None
        core = val
        for _ in range(6):
            if core.op == "ap" and core.a[0] == KFR:
                core = core.a[1][0]
            elif core.op == "agg" and len(core.a[2]) == 1:
                q = strip_proj(core.a[2][0])
                if q is None:
                    break
                core = q
            elif core.op in ("fld", "discr"):
                core = strip_proj(core) or core
                break
            else:
                break
        F = st.facts
        # a result of a call, possibly taken apart: find the call
        calls = [t for t in subterms(val) if t.op == "ap" and t.a[0] != KFR and t.a[0] != "user"]
        for p, _ in st.facts.log:
            calls += [t for t in subterms(p) if t.op == "ap" and t.a[0] not in (KFR, "user")]
        mine = [t for t in calls if t.a[0] == cb.name]
        if not mine:
            if any(t.op == "agg" and str(t.a[0]).startswith(("models::", "core::iter")) for t in subterms(val)):
                # a chain of iterator adaptors
                rep.unk(rule, w, "result not recognised")
                return
            d = prim and (known(val) and bool(calls) or val.op == "i" or val is UNIT or val is NONE)
            if not calls and method == "clone":
                d = False
            rep.put(BAD if d else UNK, rule, w, f"result {val!r:.150} does not come from {short(cb.name)}")
            return
        call = mine[0]
        got, gname, res = call.a[1], call.a[0], call
    # arguments
    ok = True
    for i, (g, v) in enumerate(zip(got, vs)):
        if fn_arg(b.sig_in[i]):
            q = matcher_ok(g, names[i])
            m = f"predicate passed on as {g!r:.150}, expected the predicate applied to the language's kind"
        elif isinstance(g, T) and isinstance(v, T):
            if mutcall and i == 0 and b.sig_in[0][0] == "ref":
                v2 = mk("ini", args[0])
                q = all3((veq(g, v, st.facts),)) if g is v else (True if g is v2 or g is args[0] else veq(g, v, st.facts))
            else:
                g2, idn = unwrap_maps(e, st, g)
                q = veq(g2, v, st.facts)
                if q is True and idn is not True:
                    q = idn
                if q is False and g2.op == "agg" and g2.a[0].startswith("models::"):
                    q = into_iter_of(g2, v)
            m = f"argument {names[i]} passed on as {g!r:.150}"
        else:
            q, m = None, "arguments not recognised"
        if q is not True:
            rep.put(BAD if q is False else UNK, rule, w, f"{short(gname)}: {m}")
            ok = False
    if len(got) != len(vs):
        rep.unk(rule, w, "number of arguments")
        ok = False
    if not ok:
        return
    # result
    if method == "kind":
        want = mk("ap", KFR, (res,))
        if strip_kfr(val) is None:
            rep.put(BAD if known(val) else UNK, rule, w, "the kind is not translated by the language")
            return
        v2 = strip_kfr(val)
        q = veq(v2, res, st.facts)
    elif b.sig_out == ("tuple", ()):
        q = True
    else:
        q = same_shape(e, st, val, res)
    if q is True and ident is not True:
        q = ident
    rep.check(q, rule, w, f"result {o.val!r:.200} is not that of {short(cb.name)}")


def into_iter_of(g, v):
    return None


def strip_kfr(v):
    if v.op == "ap" and v.a[0] == KFR and len(v.a[1]) == 1:
        return strip1_(v.a[1][0])
    return None


def strip_proj(t):
    for _ in range(8):
        if t.op == "ap":
            return t
        if t.op == "fld":
            t = t.a[0]
            continue
        if t.op == "agg" and len(t.a[2]) == 1:
            t = t.a[2][0]
            continue
        return None
    return None


def same_shape(e, st, v, r, depth=0):
    """v is r, whatever way it was taken apart and put together"""
    if v is r:
        return True
    q = veq(v, r, st.facts)
    if q is True:
        return True
    if v.op == "agg" and depth < 5:
        n = len(PROG_().adts[v.a[0]]["variants"]) if v.a[0] in PROG_().adts else {OPTION: 2}.get(v.a[0], 1)
        if n > 1:
            k = st.facts.value(mk("discr", r, 1))
            for m in range(2, n):
                k = k if k is not None else st.facts.value(mk("discr", r, m))
            if k is None:
                k2 = st.facts.decide(eqi(mk("discr", r, n - 1), Int(v.a[1])))
                if k2 is not True:
                    return None if k2 is None else False
                k = v.a[1]
            if k != v.a[1]:
                return False
            var = k
        else:
            var = None
        return all3(same_shape(e, st, y, fld(r, var, i, v.a[0], len(v.a[2])), depth + 1) for i, y in enumerate(v.a[2]))
    return q


def conversions(rep, b):
    """a conversion between the layers keeps the element"""
    P = typed_prog()
    e = typed_engine(P)
    x = mk("param", "value")
    outs = e.analyse(b, [x])
    rep.funcs.add(b.name)
    rep.paths += len(outs)
    for o in outs:
        w = where(b)
        if o.kind != "ret":
            rep.unk("conversion", w, f"{o.kind}")
            continue
        q = same_shape(e, o.st, o.val, x)
        if b.sig_out[1] == NOT and b.sig_in[0][1] != NOT and o.val.op == "agg":
            # an element made of a node or token
            var = 0 if b.sig_in[0][1].endswith("SyntaxNode") else 1
            q = o.val.a[1] == var and veq(o.val.a[2][0], x, o.st.facts)
        rep.check(q, "conversion", w, f"returns {o.val!r:.150}")


def run(rep):
    P = typed_prog()
    untyped = {}
    for b in functions(P, "rowan::cursor"):
        if b.self_ty and b.self_ty[0] == "adt" and b.item:
            untyped.setdefault((b.self_ty[1], b.item), b)
    items, convs = [], []
    for b in functions(P, "rowan::api"):
        t = b.self_ty
        if b.impl_of == "core::convert::From":
            convs.append(b)
            continue
        if not t or t[0] != "adt" or not (b.exported or b.impl_of):
            continue
        tr = (b.impl_of or "").rsplit("::", 1)[-1]
        if b.item in ("ancestors", "parent_ancestors") and t[1] != PAIRS_NODE:
            continue
        if tr in ("Debug", "Language") or tr == "Display":
            continue
        if b.item in ("clone", "eq", "hash", "ne", "assert_receiver_is_total_eq", "assert_fields_are_eq"):
            continue
        if t[1] in PAIRS:
            items.append((b, untyped.get((PAIRS[t[1]], b.item)), None))
        elif t[1] == NOT:
            vs = (untyped.get((NODE, b.item)), untyped.get((TOKEN, b.item)))
            items.append((b, None, vs))
    pmap(rep, method_pair, items)
    pmap(rep, conversions, convs)
    import props_spec

    props_spec.pairs("c15_")(rep)


CHECKS = {
    "C15": dict(
        run=run,
        technique="delegation check by value provenance over MIR: typed method vs the untyped operation of the same name",
        explanation="Every exported method, iterator implementation and conversion of the typed layer is interpreted abstractly with the wrappers "
        "transparent and the operations of the untyped layer as uninterpreted functions. On every path the result has to be the result of the same-named "
        "untyped operation applied to exactly the same receiver and arguments (elements taken apart and put together again variant by variant count as the same), "
        "predicates have to be the caller's predicate composed with Language::kind_from_raw, kinds have to be translated by it, and mapping over iterators has to be the identity.",
        rules={"delegates": "typed method = untyped method of the same name on the wrapped element", "conversion": "From between layers returns its argument"},
        assumptions=["Language::kind_from_raw is a function of its argument"],
        note="All exported methods of the typed layer, all paths, for every language.",
    ),
}

if __name__ == "__main__":
    import collections

    rep = Rep()
    t = time.time()
    run(rep)
    print(collections.Counter((e.st, e.rule) for e in rep.es), time.time() - t)
    for k, n in collections.Counter((e.st, e.rule, e.where, e.msg) for e in rep.es if e.st != OK).items():
        print(n, *[str(x)[:400] for x in k])
