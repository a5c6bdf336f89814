"""Serialization as a sequence of effects: what is announced, keys, values, each of which may fail."""
import equiv
from equiv import *

SER = "serde_core::ser::"
SUB = mk("param", "#serializer")
FMT = mk("param", "#formatter")
STATE = mk("ap", "ser:state", ())


def step(e, st, what, args, site, ok):
    """one call of the serializer: it may report an error"""
    n = equiv.effects(st)
    r = mk("ap", "ser:" + what, (Int(n),) + args)
    st.event("ocall", "ser:" + what, args, r, site)
    d = mk("discr", r, 1)
    outs = []
    for k, x in ((ZERO, ok), (ONE, fld(r, 1, 0, RESULT, 1))):
        s = st.fork().assume(eqi(d, k))
        if s is not None:
            outs.append(Out("ret", agg(RESULT, k.a[0], (x,)), s))
    return outs


def then_ok(e, outs, f, ok=None):
    """go on where it worked; ok: the result in place of what the last step returned"""
    r = []
    for o in outs:
        if o.kind != "ret":
            r.append(o)
            continue
        d = e.discr(o.st, o.val, RESULT)
        for v, s in e.branch(o.st, eqi(d, ZERO)):
            if v:
                r += f(s)
            else:
                er = o.val.a[2][0] if o.val.op == "agg" else fld(o.val, 1, 0, RESULT, 1)
                r.append(Out("ret", agg(RESULT, 1, (er,)), s))
    return r


def strip(e, st, v, t):
    while t and t[0] == "ref" and not unsized(t[2]):
        v, t = e.load(st, v), t[2]
    if t and t[0] == "ref":
        v, t = e.load(st, v), t[2]
    return v, t


def value(e, st, c, v, t):
    """a value is serialized: v is a reference to a value of type t"""
    v, t = strip(e, st, v, t)
    if t and t[0] == "adt" and t[1] not in ("rowan::api::SyntaxNode", "rowan::api::SyntaxToken"):
        b = e.prog.impls.get(SER + "Serialize") or ()
        r = e.dispatch(c, SER + "Serialize", "serialize", (t,))
        if isinstance(r, tuple) and r[0] is not None and r[0].key.split("::")[0].strip("<") in ("rowan", "spec"):
            return e.call_named(st, c.d + 1, SER + "Serialize::serialize", SER + "Serialize", (t, ("param", "S")), None, None, [v, SUB],
                                (("ref", False, t), ("param", "S")), None, c.site)
    x = v if t and unsized(t) else e.load(st, v)
    return step(e, st, "value", (x,), c.site, UNIT)


def begin(what):
    def h(e, st, c):
        n = c.args[1] if len(c.args) > 1 else NONE
        st.event("announce", what, n, c.site)
        return step(e, st, what, (), c.site, STATE)

    return h


def serialize(e, st, c):
    """a call of Serialize::serialize with a serializer"""
    t = c.a[0]
    if t and t[0] == "adt" and e.stack and e.stack[-1].split("::")[1:2] and len(e.stack) == 1:
        return None
    return value(e, st, c, c.args[0], t)


def entry(e, st, c):
    k, v = c.args[1], c.args[2]
    kt, vt = c.a[1], c.a[2]
    return then_ok(e, value_key(e, st, c, k, kt), lambda s: then_ok(e, value(e, s, c, v, vt), lambda s2: [Out("ret", agg(RESULT, 0, (UNIT,)), s2)]))


def value_key(e, st, c, k, kt):
    v, t = strip(e, st, k, kt)
    return step(e, st, "key", (v if t and unsized(t) else e.load(st, v),), c.site, UNIT)


def key(e, st, c):
    return value_key(e, st, c, c.args[1], c.a[1])


def val(e, st, c):
    return then_ok(e, value(e, st, c, c.args[1], c.a[1]), lambda s: [Out("ret", agg(RESULT, 0, (UNIT,)), s)])


def element(e, st, c):
    return then_ok(e, step(e, st, "element", (), c.site, UNIT), lambda s: val(e, s, c))


def end(e, st, c):
    return step(e, st, "end", (), c.site, UNIT)


def collect(e, st, c):
    v, t = strip(e, st, c.args[1], c.a[1])
    tr = "core::fmt::Display"

    def put(s):
        if t and t[0] == "adt" and t[1] == "core::fmt::Arguments":
            a = e.load(s, v)
            if a.op != "agg" or a.a[0] != "#fmt":
                return equiv.emit(e, s, a, "display", c.site)
            outs = [Out("ret", Ok_(UNIT), s)]
            for x in a.a[2]:
                outs = then_ok(e, outs, lambda q, x=x: emit_piece(e, q, c, FMT, x))
            return outs
        return e.call_named(s, c.d + 1, tr + "::fmt", tr, (t,), None, None, [v, FMT], (("ref", False, t), ("ref", True, ("adt", "core::fmt::Formatter", ()))), None, c.site)

    return then_ok(e, step(e, st, "str", (), c.site, UNIT), lambda s: then_ok(e, put(s), lambda s2: step(e, s2, "str-end", (), c.site, UNIT)))


def opaque_string(e, st, c):
    return fresh("string", *c.args)


def count(e, st, c):
    """the length of a list"""
    v = c.args[0]
    if v.op != "agg" or v.a[0] != "models::VecIter":
        return None
    d = dict(zip([n for n, _ in fields_of(e.prog, "models::VecIter")], v.a[2]))
    return sub(d["hi"], d["lo"])


def prim(e, st, c):
    return step(e, st, "value", (c.args[1],), c.site, UNIT)


def serializing():
    r = dict(formats(), **LISTS)
    S = SER + "Serializer::"
    for m in ("map", "seq"):
        r[S + "serialize_" + m] = begin(m)
    r[S + "collect_str"] = collect
    r[S + "serialize_str"] = prim
    r[SER + "SerializeMap::serialize_entry"] = entry
    r[SER + "SerializeMap::serialize_key"] = key
    r[SER + "SerializeMap::serialize_value"] = val
    r[SER + "SerializeSeq::serialize_element"] = element
    for m in ("Map", "Seq"):
        r[SER + f"Serialize{m}::end"] = end
    r["models::iter::count"] = r["core::iter::traits::iterator::Iterator::count"] = count
    r[SER + "Serialize::serialize"] = serialize
    for n in ("alloc::fmt::format", "alloc::string::ToString::to_string"):
        r[n] = opaque_string
    return r


def announced(rep, name):
    """as many entries as announced"""
    P = spec_prog()
    equiv.PROG = P
    b = P.body(f"spec::{name.replace('!', 'imp')}")
    if b is None:
        raise Missing(name)
    e = engine_for(P, b, extra=serializing())
    outs = e.analyse(b)
    w = name.replace("::!::", "::")
    rep.paths += len(outs)
    for o in outs:
        if o.kind != "ret":
            continue
        stack = []
        for ev in o.st.events():
            if ev[0] == "announce":
                stack.append([ev[1], ev[2], 0, False, ev[3]])
            elif not stack:
                continue
            elif ev[0] == "loop":
                if any(x[0] == "ocall" for s in ev[1].backs for x in equiv.own_events(ev[1], s)):
                    stack[-1][3] = True
            elif ev[0] == "ocall" and ev[1] in ("ser:key", "ser:element"):
                if o.st.facts.value(mk("discr", ev[3], 1)) == 0:
                    stack[-1][2] += 1
            elif ev[0] == "ocall" and ev[1] == "ser:end":
                what, n, k, loop, site = stack.pop()
                good = None
                if n.op == "agg" and n.a[1] == 0:
                    good = True
                elif n.op == "agg":
                    m = n.a[2][0]
                    if not loop:
                        good = m.a[0] == k if m.op == "i" else None
                    elif m.op == "i":
                        good = False
                    elif m.op == "vlen" and m.a[0].op == "ap":
                        good = True if m.a[0].a[0] == "cwt" else False
                rep.check(good, "announced", f"{w} {what}", f"announces {n!r:.60} entries at {site}, makes {'one for each child' if loop else k}")
            elif ev[0] == "ocall" and ev[1].startswith("ser:") and o.st.facts.value(mk("discr", ev[3], 1)) == 1:
                break


def shapes(rep):
    pmap(rep, announced, equiv.spec_names("c20_"))
