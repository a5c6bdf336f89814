"""Standard-library functions whose effect on abstract values is given directly."""
from terms import *
import engine as E
from engine import Out, UNIT, NULL, addr, target, fat, slen, thin, pelem, seq_of, seq_mk, seq_len, seq_get, fresh, Undecided, ALIAS

TABLE = {}
PREFIX = []


def d(*names):
    def f(h):
        for n in names:
            TABLE[n] = h
        return h

    return f


def px(*names):
    def f(h):
        for n in names:
            PREFIX.append((n, h))
        return h

    return f


def alias(a, *names):
    for n in names:
        TABLE[n] = TABLE[a]


def ident(e, st, c):
    return c.args[0]


def rd(e, st, c):
    return e.load(st, c.args[0])


def unit(e, st, c):
    return UNIT


for n in (
    "core::hint::must_use", "core::convert::identity", "core::hint::black_box",
    "<core::cell::Cell>::new", "<core::cell::Cell>::into_inner", "<core::cell::Cell>::as_ptr", "<core::cell::Cell>::get_mut",
    "<core::cell::Cell>::from_mut",
    "<core::cell::UnsafeCell>::new", "<core::cell::UnsafeCell>::get", "<core::cell::UnsafeCell>::into_inner",
    "<core::ptr::non_null::NonNull as core::convert::From<&param>>::from",
    "<core::ptr::non_null::NonNull>::from_ref", "<core::ptr::non_null::NonNull>::from_mut",
    "<core::ptr::non_null::NonNull>::new_unchecked", "<core::ptr::non_null::NonNull>::as_ptr",
    "<core::mem::manually_drop::ManuallyDrop>::new", "<core::mem::manually_drop::ManuallyDrop>::into_inner",
    "<core::mem::manually_drop::ManuallyDrop as core::ops::deref::Deref>::deref",
    "<core::mem::manually_drop::ManuallyDrop as core::ops::deref::DerefMut>::deref_mut",
    "<core::mem::maybe_uninit::MaybeUninit>::new", "<core::mem::maybe_uninit::MaybeUninit>::assume_init",
    "<alloc::boxed::Box>::into_raw", "<alloc::boxed::Box>::from_raw", "<alloc::boxed::Box>::leak",
    "<core::sync::atomic::Atomic>::new", "<core::sync::atomic::Atomic>::into_inner",
    "<core::num::nonzero::NonZero>::get", "<core::num::nonzero::NonZero>::new_unchecked",
    "<ptr>::cast_mut", "<ptr>::cast_const", "<alloc::boxed::Box as core::ops::deref::Deref>::deref_",
    "<text_size::size::TextSize as core::convert::From<u32>>::from", "<text_size::size::TextSize>::new",
    "<u32 as core::convert::From<text_size::size::TextSize>>::from",
    "<text_size::size::TextSize>::to_u32", "<usize as core::convert::From<text_size::size::TextSize>>::from",
    "core::iter::traits::iterator::Iterator::by_ref",
    "<core::fmt::Arguments>::as_str",
):
    TABLE[n] = ident


@d("<core::ptr::non_null::NonNull>::cast", "<ptr>::cast")
def _(e, st, c):
    return thin(c.args[0])


for n in ("<core::cell::Cell>::get", "<core::ptr::non_null::NonNull>::as_ref", "<core::ptr::non_null::NonNull>::as_mut",
          "core::ptr::read", "<ptr>::read", "<core::ptr::non_null::NonNull>::read",
          "<alloc::boxed::Box as core::ops::deref::Deref>::deref", "<alloc::boxed::Box as core::ops::deref::DerefMut>::deref_mut",
          "<alloc::boxed::Box as core::convert::AsRef>::as_ref", "<alloc::boxed::Box as core::borrow::Borrow>::borrow"):
    TABLE[n] = rd


@d("<core::cell::Cell>::set", "core::ptr::write", "<ptr>::write", "<core::ptr::non_null::NonNull>::write")
def _(e, st, c):
    if c.name.startswith("core::ptr") or c.name.startswith("<ptr"):
        st.event("ptrwrite", c.args[0], c.args[1], c.site)
    e.store(st, c.args[0], c.args[1])
    return UNIT


@d("<core::cell::Cell>::replace", "core::mem::replace", "core::ptr::replace")
def _(e, st, c):
    old = e.load(st, c.args[0])
    e.store(st, c.args[0], c.args[1])
    return old


@d("<core::cell::Cell>::update")
def _(e, st, c):
    outs = e.call_value(st, c.args[1], [e.load(st, c.args[0])], c.d, None, c.site)
    r = []
    for o in outs:
        if o.kind == "ret":
            e.store(o.st, c.args[0], o.val)
            o.val = UNIT
        r.append(o)
    return r


@d("core::mem::swap", "<core::cell::Cell>::swap")
def _(e, st, c):
    a, b = e.load(st, c.args[0]), e.load(st, c.args[1])
    e.store(st, c.args[0], b)
    e.store(st, c.args[1], a)
    return UNIT


def default_of(t):
    if t is None:
        return None
    if t[0] == "prim":
        if t[1] == "str":
            return None
        return ZERO
    if t[0] == "adt" and t[1] == OPTION:
        return NONE
    if t[0] == "adt" and t[1] == "alloc::vec::Vec":
        return mk("seq", ())
    if t == ("tuple", ()):
        return UNIT
    if t[0] == "adt" and t[1] in ("core::cell::Cell",):
        return default_of(t[2][0])
    return None


@d("<core::cell::Cell>::take", "core::mem::take")
def _(e, st, c):
    t = c.a[0] if c.a else c.dty
    old = e.load(st, c.args[0])
    v = default_of(t)
    if v is None:
        v = mk("ap", "default", (mk("ty", str(t)),))
    e.store(st, c.args[0], v)
    return old


@d("core::default::Default::default")
def _(e, st, c):
    return default_of(c.a[0] if c.a else None)


@d("<alloc::vec::Vec>::new", "<alloc::vec::Vec as core::default::Default>::default", "models::prim::vec_empty", "<alloc::vec::Vec>::with_capacity")
def _(e, st, c):
    return mk("seq", ())


@d("core::ptr::null", "core::ptr::null_mut", "core::ptr::non_null::NonNull::dangling_")
def _(e, st, c):
    return NULL


@d("<ptr>::is_null")
def _(e, st, c):
    return e.ptreq(c.args[0], NULL)


@d("<ptr>::as_ref", "<ptr>::as_mut", "<core::ptr::non_null::NonNull>::new")
def _(e, st, c):
    r = []
    for n, s in e.branch(st, e.ptreq(c.args[0], NULL)):
        r.append(Out("ret", NONE if n else Some(c.args[0]), s))
    return r


@d("<core::num::nonzero::NonZero>::new")
def _(e, st, c):
    r = []
    for n, s in e.branch(st, eqi(c.args[0], ZERO)):
        r.append(Out("ret", NONE if n else Some(c.args[0]), s))
    return r


@d("<ptr>::as_ref_unchecked")
def _(e, st, c):
    return c.args[0]


@d("core::ptr::eq", "core::ptr::addr_eq", "<core::ptr::non_null::NonNull as core::cmp::PartialEq>::eq")
def _(e, st, c):
    a, b = c.args
    if c.method == "eq" and "non_null" in c.name:
        a, b = e.load(st, a), e.load(st, b)
    return e.ptreq(a, b)


def padd(p, n):
    r, path, _ = target(p)
    if path and path[-1][0] == "x":
        return addr(r, path[:-1] + (("x", add(path[-1][1], n)),))
    return addr(r, path + (("x", n),))


@d("<ptr>::add", "<ptr>::offset", "<ptr>::wrapping_add", "<core::ptr::non_null::NonNull>::add")
def _(e, st, c):
    n = c.args[1]
    if n.op == "offset" or any(x.op == "offset" for x in subterms(n)):
        return mk("ap", "padd", (c.args[0], n))
    return padd(c.args[0], n)


@d("<ptr>::sub", "<ptr>::wrapping_sub", "<ptr>::byte_sub")
def _(e, st, c):
    p, n = c.args
    if n.op == "offset":
        if p.op == "addr" and p.a[1] and p.a[1][-1][0] == "f" and p.a[1][-1][2] == n.a[0] and p.a[1][-1][1] == n.a[1]:
            return addr(p.a[0], p.a[1][:-1])
        return mk("cont", thin(p), n)
    return padd(p, sub(ZERO, n))


@d("core::intrinsics::offset_of")
def _(e, st, c):
    t = c.a[0]
    return mk("offset", t[1] if t[0] == "adt" else str(t), c.args[1].a[0] if c.args[1].op == "i" else -1)


@d("core::ptr::slice_from_raw_parts", "core::ptr::slice_from_raw_parts_mut", "core::slice::raw::from_raw_parts",
   "core::slice::raw::from_raw_parts_mut", "<core::ptr::non_null::NonNull>::slice_from_raw_parts", "core::ptr::metadata::from_raw_parts")
def _(e, st, c):
    return fat(c.args[0], c.args[1])


@d("<alloc::boxed::Box>::new", "alloc::boxed::Box::new")
def _(e, st, c):
    r = mk("heap", uid())
    st.mem[r] = c.args[0]
    p = addr(r, ())
    st.event("alloc", p, c.args[0], c.site)
    return p


@d("core::mem::forget")
def _(e, st, c):
    st.event("forget", c.args[0], c.a[0] if c.a else None, c.site)
    return UNIT


@d("core::mem::drop")
def _(e, st, c):
    r = mk("loc", c.d, -2)
    st.mem[r] = c.args[0]
    t = c.a[0] if c.a else None
    outs = e.drop(st, r, (), t, c.d + 1, c.site)
    for o in outs:
        o.st.mem.pop(r, None)
    return outs


@d("core::ptr::drop_in_place", "<core::mem::manually_drop::ManuallyDrop>::drop")
def _(e, st, c):
    r, p, _ = target(c.args[0])
    return e.drop(st, r, p, c.a[0] if c.a else None, c.d + 1, c.site)


@d("<core::mem::manually_drop::ManuallyDrop>::take")
def _(e, st, c):
    return e.load(st, c.args[0])


@d("core::mem::size_of", "core::mem::align_of", "core::mem::size_of_val", "core::any::type_name")
def _(e, st, c):
    return mk("ap", c.method, (mk("ty", repr(c.a[0] if c.a else None)),) + tuple(c.args))


@d("core::clone::Clone::clone")
def _(e, st, c):
    t = c.a[0] if c.a else None
    return clone(e, st, c, t)


def clone(e, st, c, t):
    v = e.load(st, c.args[0])
    if t is None:
        return None
    if t[0] in ("prim", "ref", "ptr", "fndef", "fnptr", "never"):
        return v
    if t[0] == "adt" and t[1] in ("core::ptr::non_null::NonNull", "core::marker::PhantomData", "models::TextRange", "countme::Count"):
        return v
    if t[0] == "closure" and v.op == "agg":
        return v
    if t[0] in ALIAS:
        vt = e.type_of(v)
        if vt and vt[0] == "closure":
            return v
        r = fresh("clone", v)
        st.event("call", "clone", (v,), r, c.site)
        return r
    if t[0] == "tuple":
        if all(x[0] in ("prim", "ref", "ptr") for x in t[1]):
            return v
    return None


@d("core::marker::PhantomData::clone", "<core::marker::PhantomData as core::clone::Clone>::clone", "<countme::Count>::new", "<countme::Count as core::clone::Clone>::clone",
   "<countme::Count as core::default::Default>::default")
def _(e, st, c):
    return UNIT


@d("<core::marker::PhantomData as core::cmp::PartialEq<core::marker::PhantomData>>::eq", "<countme::Count as core::cmp::PartialEq<countme::Count>>::eq")
def _(e, st, c):
    return ONE


@d("<core::marker::PhantomData as core::hash::Hash>::hash", "<countme::Count as core::hash::Hash>::hash")
def _(e, st, c):
    return UNIT


# ------------------------------------------------------------------ comparisons
def strip(e, st, t, v):
    """through references: the compared value and its type"""
    while t is not None and t[0] == "ref" and t[2] and not (t[2][0] in ("slice", "other") or t[2] == ("prim", "str")):
        v = e.load(st, v)
        t = t[2]
    return t, v


NUM = ("u8", "u16", "u32", "u64", "usize", "isize", "i8", "i16", "i32", "i64", "char", "u128")


def isnum(t):
    return t is not None and t[0] == "prim" and t[1] in NUM


def beq(a, b):
    if a.op == "str" and b.op == "str":
        return ONE if a is b else ZERO
    return mk("beq", *sorted((a, b), key=lambda x: x.id))


def eqval(e, st, t, a, b, c):
    """a == b for values of type t: a truth term, or None"""
    if t is None:
        return beq(a, b)
    if t[0] in ("ref",):
        return eqval(e, st, t[2], e.load(st, a), e.load(st, b), c) if not E.unsized(t[2]) else beq(a, b)
    if isnum(t):
        return eqi(a, b)
    if t == ("prim", "bool"):
        return e.bin("Eq", a, b, t)
    if t[0] == "ptr" or t[0] == "adt" and t[1] == "core::ptr::non_null::NonNull":
        return e.ptreq(a, b)
    if t == ("tuple", ()) or t[0] == "adt" and t[1] == "core::marker::PhantomData":
        return ONE
    if t[0] == "tuple":
        r = ONE
        for i, x in enumerate(t[1]):
            p = ("f", i, "(tuple)", len(t[1]))
            y = eqval(e, st, x, e.project(a, p), e.project(b, p), c)
            if y is None:
                return None
            r = y if r is ONE else mk("and", r, y)
        return r
    if a is b:
        return ONE
    return beq(a, b)


@d("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def _(e, st, c):
    ne = c.method == "ne"
    t = c.a[0] if c.a else None
    a, b = c.args
    # dispatch an eq impl of the pointee
    n = 0
    while t is not None and t[0] == "ref" and not E.unsized(t[2]):
        a, b = e.load(st, a), e.load(st, b)
        t = t[2]
        n += 1
    u = c.a[1] if len(c.a) > 1 else None
    for _ in range(n):
        u = u[2] if u and u[0] == "ref" else u
    if t is not None and t[0] == "ref" and u is not None and u[0] == "ref" and u[2] and u[2][0] == "adt":
        a, b = e.load(st, a), e.load(st, b)
        t = t[2]
        n += 1
    if t is not None and t[0] in ("ref", "prim", "slice") and len(c.a) > 1 and e.prog.impls.get("core::cmp::PartialEq"):
        u = c.a[1]
        for _ in range(n):
            u = u[2] if u and u[0] == "ref" else u
        if u and u[0] == "adt" and u[1].startswith("rowan::"):
            r = e.dispatch(c, "core::cmp::PartialEq", "eq", (t, u))
            if isinstance(r, tuple) and r[0] is not None:
                c.args = [a, b]
                outs = e.call_body(c, *r)
                if ne:
                    for o in outs:
                        if o.kind == "ret":
                            o.val = e.bin("Eq", o.val, ZERO, ("prim", "bool"))
                return outs
    if t is not None and t[0] in ("adt", "tuple") or t is not None and t[0] in ALIAS:
        if t[0] == "tuple":
            return eq_tuple(e, st, c, t, a, b, ne)
        if t[0] == "adt" and t[1] not in ("core::ptr::non_null::NonNull", "core::marker::PhantomData"):
            import types

            u = c.a[1] if len(c.a) > 1 else t
            for _ in range(n):
                u = u[2] if u and u[0] == "ref" else u
            for m in ("eq", "ne") if not ne else ("ne", "eq"):
                if m == "ne" and not ne:
                    continue
                r = e.dispatch(c, "core::cmp::PartialEq", m, (t, u))
                nm = None
                if r is None:
                    from program import MODEL_OF
                    for p, mm in MODEL_OF.items():
                        if p.startswith(f"<{rev(t[1])} as core::cmp::PartialEq<") and p.endswith("::"):
                            r = (e.prog.body(mm + "eq"), dict(zip(e.prog.body(mm + "eq").generics, t[2])))
                            m = "eq"
                if r is None and t[1] == "models::TextRange":
                    r = (e.prog.body("<models::TextRange>::eq"), {})
                    m = "eq"
                if isinstance(r, tuple) and r[0] is not None:
                    c.args = [a, b]
                    outs = e.call_body(c, *r)
                    if ne and m == "eq":
                        for o in outs:
                            if o.kind == "ret":
                                o.val = neg(o.val)
                    return outs
    if t is not None and t[0] == "ref" and E.unsized(t[2]):
        va, vb = e.load(st, a), e.load(st, b)
    else:
        va, vb = e.load(st, a) if not (t and E.unsized(t)) else a, e.load(st, b) if not (t and E.unsized(t)) else b
    r = eqval(e, st, t, va, vb, c)
    return neg(r) if ne else r


def rev(n):
    from program import ADT_MAP

    for k, v in ADT_MAP.items():
        if v == n:
            return k
    return n


def eq_tuple(e, st, c, t, pa, pb, ne):
    """lexicographic comparison through the elements' own eq"""
    outs = [Out("ret", ONE, st)]
    n = len(t[1])
    for i, x in enumerate(t[1]):
        ra, qa, _ = target(pa)
        rb, qb, _ = target(pb)
        step = ("f", i, "(tuple)", n)
        nxt = []
        for o in outs:
            if o.kind != "ret":
                nxt.append(o)
                continue
            for v, s in e.branch(o.st, o.val):
                if not v:
                    nxt.append(Out("done", ZERO, s))
                    continue
                nxt += e.call_named(s.fork(), c.d, "core::cmp::PartialEq::eq", "core::cmp::PartialEq", (x, x), None, None,
                                    [addr(ra, qa + (step,)), addr(rb, qb + (step,))], None, None, c.site)
        done = [o for o in nxt if o.kind == "done"]
        outs = [o for o in nxt if o.kind != "done"]
        for o in done:
            o.kind = "fin"
        outs += done
    for o in outs:
        if o.kind == "fin":
            o.kind = "ret"
        if o.kind == "ret" and ne:
            o.val = neg(o.val)
    return outs


for n in ("<&param as core::cmp::PartialEq<&param>>::eq", "<(U, T) as core::cmp::PartialEq<(U, T)>>::eq"):
    pass


@d("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def _(e, st, c):
    t = c.a[0] if c.a else None
    a, b = e.load(st, c.args[0]), e.load(st, c.args[1])
    t, a2 = strip(e, st, t, a)
    _, b2 = strip(e, st, c.a[0], b)
    if t and t[0] == "adt" and t[1] == "core::cell::Cell":
        t = t[2][0]
    if isnum(t):
        return {"lt": lt(a2, b2), "le": le(a2, b2), "gt": lt(b2, a2), "ge": le(b2, a2)}[c.method]
    if t and t[0] == "ptr":
        return mk("ap", "p" + c.method, (a2, b2))
    return mk("ap", "ord_" + c.method, (a2, b2))


def cmp3(e, st, a, b):
    r = []
    rest = st
    for k, p in ((0, lt(a, b)), (1, eqi(a, b)), (2, lt(b, a))):
        s = st.assume(p)
        if s is not None:
            r.append(Out("ret", agg(ORDERING, k, ()), s.fork() if s is st else s))
    return r


@d("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def _(e, st, c):
    t = c.a[0] if c.a else None
    a, b = c.args
    while t is not None and t[0] == "ref":
        a, b = e.load(st, a), e.load(st, b)
        t = t[2]
    if t is not None and t[0] == "adt" and t[1] == "core::cell::Cell":
        t = t[2][0]
    if isnum(t):
        outs = cmp3(e, st, e.load(st, a), e.load(st, b))
        if c.method == "partial_cmp":
            for o in outs:
                o.val = Some(o.val)
        return outs
    return mk("ap", c.method, (e.load(st, a), e.load(st, b)))


@d("<core::cmp::Ordering>::then_with_")
def _(e, st, c):
    return None


@d("<core::cmp::Ordering>::is_lt", "<core::cmp::Ordering>::is_le", "<core::cmp::Ordering>::is_gt", "<core::cmp::Ordering>::is_ge",
   "<core::cmp::Ordering>::is_eq", "<core::cmp::Ordering>::is_ne")
def _(e, st, c):
    v = e.discr(st, c.args[0], ORDERING)
    return {"is_lt": eqi(v, ZERO), "is_le": le(v, ONE), "is_gt": eqi(v, Int(2)), "is_ge": le(ONE, v), "is_eq": eqi(v, ONE),
            "is_ne": neg(eqi(v, ONE))}[c.method]


@d("<core::cmp::Ordering>::reverse")
def _(e, st, c):
    v = c.args[0]
    if v.op == "agg":
        return agg(ORDERING, 2 - v.a[1], ())
    return mk("ap", "reverse", (v,))


def minmax(e, st, c):
    a, b = c.args
    t = c.a[0] if c.a else None
    if not isnum(t):
        return None
    r = []
    for v, s in e.branch(st, le(a, b)):
        x = a if v == (c.method == "min") else b
        r.append(Out("ret", x, s))
    return r


for n in ("core::cmp::min", "core::cmp::max", "core::cmp::Ord::min", "core::cmp::Ord::max"):
    TABLE[n] = minmax


# ------------------------------------------------------------------ numbers
def ints(*ms):
    return [f"<{t}>::{m}" for t in ("u8", "u16", "u32", "u64", "usize", "isize") for m in ms] + [f"<text_size::size::TextSize>::{m}" for m in ms]


@d(*ints("checked_sub"))
def _(e, st, c):
    a, b = c.args
    return [Out("ret", Some(sub(a, b)) if v else NONE, s) for v, s in e.branch(st, le(b, a))]


@d(*ints("checked_add", "checked_mul"))
def _(e, st, c):
    a, b = c.args
    r = add(a, b) if c.method == "checked_add" else mul(a, b)
    if r.op == "i" and r.a[0] < 1 << 31 or not e.overflow:
        return Some(r)
    o = mk("ovf", r)
    return [Out("ret", NONE if v else Some(r), s) for v, s in e.branch(st, o)]


@d(*ints("saturating_sub"))
def _(e, st, c):
    a, b = c.args
    return [Out("ret", sub(a, b) if v else ZERO, s) for v, s in e.branch(st, le(b, a))]


@d(*ints("wrapping_add", "saturating_add", "unchecked_add"))
def _(e, st, c):
    a, b = c.args
    if b.op == "i" and b.a[0] >= (1 << 64) - 4096:
        b = Int(b.a[0] - (1 << 64))
    return add(a, b)


@d(*ints("wrapping_sub", "unchecked_sub"))
def _(e, st, c):
    return sub(c.args[0], c.args[1])


@d(*ints("abs_diff"))
def _(e, st, c):
    a, b = c.args
    return [Out("ret", sub(a, b) if v else sub(b, a), s) for v, s in e.branch(st, le(b, a))]


def arith(e, st, c):
    t = c.a[0] if c.a else None
    if not isnum(t):
        return None
    b = c.args[1]
    bt = c.a[1] if len(c.a) > 1 else t
    if bt and bt[0] == "ref" or b.op == "addr":
        b = e.load(st, b)
    elif bt and bt[0] in ALIAS:
        b = b
    m = c.method
    if m in ("add", "sub"):
        return add(c.args[0], b) if m == "add" else sub(c.args[0], b)
    v = e.load(st, c.args[0])
    e.store(st, c.args[0], add(v, b) if m == "add_assign" else sub(v, b))
    return UNIT


for n in ("core::ops::arith::Add::add", "core::ops::arith::Sub::sub", "core::ops::arith::AddAssign::add_assign", "core::ops::arith::SubAssign::sub_assign"):
    TABLE[n] = arith


@d("core::convert::From::from", "core::convert::Into::into", "core::convert::TryFrom::try_from", "core::convert::TryInto::try_into")
def _(e, st, c):
    a = c.a
    if len(a) >= 2:
        s, t = a[0], a[1]
        if c.method in ("try_from", "try_into"):
            if isnum(s) and isnum(t):
                return agg(RESULT, 0, (c.args[0],))
            return None
        if c.method in ("into",):
            s, t = t, s  # Into<T> for U: <T as From<U>>::from
        # s: target, t: source
        if s == t or isnum(s) and isnum(t):
            return c.args[0]
        if s[0] == "adt" and s[1] == OPTION and t == s[2][0]:
            return Some(c.args[0])
        if s[0] == "adt" and s[1] == "core::ptr::non_null::NonNull" and t[0] == "ref":
            return c.args[0]
        if c.method == "into":
            return e.call_named(st, c.d, "core::convert::From::from", "core::convert::From", (s, t), None, None, c.args, c.atys, c.dty, c.site)
        if s[0] in ALIAS:
            # the type the value has
            vt = e.type_of(c.args[0])
            if vt and vt[0] == "adt" and t[0] in ALIAS:
                return None
    return None


alias("core::convert::From::from")


@d("core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow")
def _(e, st, c):
    return mk("ap", "as_ref", (e.load(st, c.args[0]),))


# ------------------------------------------------------------------ Fn traits, references
@d("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def _(e, st, c):
    f, tup = c.args
    n = len(tup.a[2]) if tup.op == "agg" else None
    if n is None:
        t = c.atys[1] if c.atys else None
        n = len(t[1]) if t and t[0] == "tuple" else 1
    args = [e.project(tup, ("f", i, "(tuple)", n)) for i in range(n)]
    if c.method != "call_once" and f.op not in ("addr",) :
        # &F where F is opaque
        v = e.load(st, f)
        if v.op in ("fn", "agg") or v.op == "addr":
            f = v if v.op != "agg" else f
    return e.call_value(st, f, args, c.d, c.dty, c.site)


def ref_iter(e, st, c):
    """<&mut I as Iterator>::m"""
    t = c.a[0] if c.a else None
    if t and t[0] == "ref" and t[1]:
        a0 = e.load(st, c.args[0]) if c.method in ("next", "next_back", "nth", "size_hint", "nth_back", "len", "try_fold", "find", "find_map", "position", "any", "all", "rfind", "try_for_each") else None
        if a0 is not None and c.method in ("next", "next_back", "nth", "nth_back", "size_hint", "len"):
            return e.call_named(st, c.d, c.name, c.trait, (t[2],) + tuple(c.a[1:]), None, None, [a0] + list(c.args[1:]), None, c.dty, c.site)
        return None
    if t and t[0] in ALIAS and c.method in ("next", "next_back"):
        r = fresh("usernext", c.args[0])
        p = e.panics(st, c.site)
        st.event("user", mk("ap", "Iterator::next", (c.args[0],)), (), r, st.mem, c.site)
        return p + [E.Out("ret", r, st)]
    return None


for n in ("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back",
          "core::iter::traits::iterator::Iterator::size_hint", "core::iter::traits::exact_size::ExactSizeIterator::len"):
    TABLE[n] = ref_iter


@d("core::iter::traits::collect::IntoIterator::into_iter")
def _(e, st, c):
    t = c.a[0] if c.a else None
    v = c.args[0]
    vt = e.type_of(v)
    if t is None or t[0] in ALIAS:
        if vt is None:
            return e.panics(st, c.site) + [E.Out("ret", v, st)] if e.unwind else v
        t = vt
    if t[0] == "adt":
        if t[1] == OPTION:
            return agg("models::OptIter", 0, (v,))
        if t[1] == "alloc::vec::Vec":
            return agg("models::VecIter", 0, (v, ZERO, seq_len(v)))
        return v
    if t[0] == "array":
        s = mk("seq", tuple(("e", x) for x in v.a[2])) if v.op == "agg" and v.a[0] == "#arr" else v
        return agg("models::VecIter", 0, (s, ZERO, Int(t[2]) if isinstance(t[2], int) else seq_len(s)))
    if t[0] == "ref":
        if t[2] and t[2][0] == "slice":
            return agg("models::SliceIter", 0, (v, ZERO, slen(v)))
        if t[2] and t[2][0] == "array":
            return agg("models::SliceIter", 0, (v, ZERO, Int(t[2][2])))
        if t[2] and t[2][0] == "adt" and t[2][1] == "alloc::vec::Vec":
            return agg("models::SliceIter", 0, (vslice(e, st, v), ZERO, seq_len(e.load(st, v))))
    return v


@d("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def _(e, st, c):
    t = c.a[0] if c.a else None
    if t is None:
        return None
    if t[0] == "ref" or t[0] == "adt" and t[1] == "alloc::boxed::Box":
        return e.load(st, c.args[0])
    if t[0] == "adt" and t[1] == "alloc::vec::Vec":
        return vslice(e, st, c.args[0])
    return None


# ------------------------------------------------------------------ slices and vectors
def vslice(e, st, p):
    return fat(p, seq_len(e.load(st, p)))


@d("<alloc::vec::Vec>::as_slice", "<alloc::vec::Vec as core::ops::deref::Deref>::deref")
def _(e, st, c):
    return vslice(e, st, c.args[0])


@d("models::prim::slice_len", "<slice>::len")
def _(e, st, c):
    return slen(c.args[0])


@d("models::prim::slice_elem", "<slice>::get_unchecked")
def _(e, st, c):
    return pelem(c.args[0], c.args[1])


@d("models::slice::subslice")
def _(e, st, c):
    return subslice(*c.args)


def subslice(s, lo, hi):
    if s.op == "subsl":
        lo, hi, s = add(s.a[1], lo), add(s.a[1], hi), s.a[0]
    if lo is ZERO and hi is slen(s):
        return s
    return mk("subsl", s, lo, hi)


@d("models::slice::any_index", "models::slice::any_upto")
def _(e, st, c):
    r = fresh("idx", c.args[0])
    s = st.assume(lt(r, c.args[0]) if c.method == "any_index" else le(r, c.args[0]))
    return [Out("ret", r, s)] if s is not None else ([Out("ret", c.args[0], st)])


@d("models::unreached")
def _(e, st, c):
    return []


@d("models::prim::panic_option", "models::prim::panic_range", "core::panicking::panic", "core::panicking::panic_fmt",
   "core::panicking::assert_failed", "core::panicking::unreachable_default_msg", "core::panicking::panic_default_msg",
   "core::option::unwrap_failed", "core::option::expect_failed", "core::panicking::panic_bounds_check", "std::rt::begin_panic",
   "core::panicking::unreachable_display", "core::panicking::panic_display", "core::panicking::panic_explicit")
def _(e, st, c):
    return [Out("panic", None, st, (c.name, c.site))]


@d("std::process::abort", "alloc::alloc::handle_alloc_error", "core::intrinsics::abort")
def _(e, st, c):
    return [Out("abort", None, st, (c.name, c.site))]


@d("core::hint::unreachable_unchecked")
def _(e, st, c):
    return []


@d("<alloc::vec::Vec>::len")
def _(e, st, c):
    return seq_len(e.load(st, c.args[0]))


@d("<alloc::vec::Vec>::is_empty")
def _(e, st, c):
    return eqi(seq_len(e.load(st, c.args[0])), ZERO)


@d("<alloc::vec::Vec>::push", "models::prim::vec_push")
def _(e, st, c):
    v = seq_of(e.load(st, c.args[0]))
    e.store(st, c.args[0], seq_mk(v.a[0] + (("e", c.args[1]),)))
    return UNIT


@d("models::prim::vec_elem")
def _(e, st, c):
    return e.project(e.load(st, c.args[0]), ("x", c.args[1]))


def seq_split(e, st, v, n):
    """[(state, front segs, back segs)] split of the sequence at position n, or None"""
    segs = seq_of(v).a[0]
    pos = ZERO
    for k, s in enumerate(segs):
        if st.facts.equal(pos, n):
            return segs[:k], segs[k:]
        if s[0] == "e":
            pos = add(pos, ONE)
            continue
        end = add(pos, sub(s[3], s[2]))
        if st.facts.equal(end, n):
            return segs[: k + 1], segs[k + 1 :]
        if st.facts.decide(le(n, end)) or len(segs) == 1:
            m = add(s[2], sub(n, pos))
            return segs[:k] + (("s", s[1], s[2], m),), (("s", s[1], m, s[3]),) + segs[k + 1 :]
        pos = end
    if st.facts.equal(pos, n):
        return segs, ()
    return None


def last(e, st, v):
    """[(state, element or None, remaining sequence)]"""
    segs = seq_of(v).a[0]
    if not segs:
        return [(st, None, v)]
    s = segs[-1]
    if s[0] == "e":
        return [(st, s[1], seq_mk(segs[:-1]))]
    r = []
    for emp, s2 in e.branch(st, le(s[3], s[2])):
        if emp:
            r += [(a, b, x) for a, b, x in last(e, s2, seq_mk(segs[:-1]))]
        else:
            hi = sub(s[3], ONE)
            r.append((s2, mk("elem", s[1], hi), seq_mk(segs[:-1] + (("s", s[1], s[2], hi),))))
    return r


@d("<alloc::vec::Vec>::pop")
def _(e, st, c):
    r = []
    for s, x, rest in last(e, st, e.load(st, c.args[0])):
        s = s.fork()
        e.store(s, c.args[0], rest)
        r.append(Out("ret", NONE if x is None else Some(x), s))
    return r


@d("<alloc::vec::Vec>::last_")
def _(e, st, c):
    return None


@d("<alloc::vec::Vec>::clear")
def _(e, st, c):
    e.store(st, c.args[0], mk("seq", ()))
    return UNIT


@d("<alloc::vec::Vec>::truncate")
def _(e, st, c):
    sp = seq_split(e, st, e.load(st, c.args[0]), c.args[1])
    if sp is None:
        return None
    e.store(st, c.args[0], seq_mk(sp[0]))
    return UNIT


def rng(e, st, r, t, n):
    """(lo, hi) of a range value over a sequence of length n"""
    name = t[1] if t and t[0] == "adt" else (r.a[0] if r.op == "agg" else None)
    if name is None:
        return None
    k = name.split("::")[-1]
    g = lambda i, m: e.project(r, ("f", i, name, m))
    if k == "Range":
        return g(0, 2), g(1, 2)
    if k == "RangeFrom":
        return g(0, 1), n
    if k == "RangeTo":
        return ZERO, g(0, 1)
    if k == "RangeInclusive" and r.op == "ap" and r.a[0].endswith("RangeInclusive>::new"):
        return r.a[1][0], add(r.a[1][1], ONE)
    if k == "RangeToInclusive":
        return ZERO, add(g(0, 1), ONE)
    if k == "RangeFull":
        return ZERO, n
    return None


@d("<alloc::vec::Vec>::drain")
def _(e, st, c):
    v = e.load(st, c.args[0])
    n = seq_len(v)
    r = rng(e, st, c.args[1], c.atys[1] if c.atys else None, n)
    if r is None:
        return None
    lo, hi = r
    outs = []
    for ok, s in e.branch(st, le(lo, hi)):
        if not ok:
            outs.append(Out("panic", None, s, ("drain range", c.site)))
            continue
        sp = seq_split(e, s, v, lo)
        if sp is None:
            return None
        front, rest = sp
        if hi is not n:
            sp = seq_split(e, s, seq_mk(rest) if rest else mk("seq", ()), sub(hi, lo))
            if sp is None:
                return None
            mid, tail = sp
        else:
            mid, tail = rest, ()
        s = s.fork()
        e.store(s, c.args[0], seq_mk(front + tail))
        m = seq_mk(mid) if mid else mk("seq", ())
        s.event("drain", c.args[0], v, lo, hi, m, c.site)
        outs.append(Out("ret", agg("models::VecIter", 0, (m, ZERO, sub(hi, lo))), s))
    return outs


@d("<alloc::vec::Vec as core::ops::index::Index<param>>::index", "core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut",
   "<slice as core::ops::index::Index<param>>::index")
def _(e, st, c):
    t = c.a[0] if c.a else None
    it = c.atys[1] if c.atys else (c.a[1] if len(c.a) > 1 else None)
    s = c.args[0]
    if t and t[0] == "adt" and t[1] == "alloc::vec::Vec":
        s = vslice(e, st, s)
    elif not (t and t[0] == "slice"):
        return None
    n = slen(s)
    outs = []
    if isnum(it):
        for ok, x in e.branch(st, lt(c.args[1], n)):
            outs.append(Out("ret", pelem(s, c.args[1]), x) if ok else Out("panic", None, x, ("bounds", c.site)))
        return outs
    r = rng(e, st, c.args[1], it, n)
    if r is None:
        return None
    for ok, x in e.branch(st, mk("and", le(r[0], r[1]), le(r[1], n))):
        outs.append(Out("ret", subslice(s, *r), x) if ok else Out("panic", None, x, ("bounds", c.site)))
    return outs


@d("<slice>::get")
def _(e, st, c):
    s = c.args[0]
    it = c.atys[1] if c.atys else None
    n = slen(s)
    if isnum(it):
        return [Out("ret", Some(pelem(s, c.args[1])) if ok else NONE, x) for ok, x in e.branch(st, lt(c.args[1], n))]
    r = rng(e, st, c.args[1], it, n)
    if r is None:
        return None
    return [Out("ret", Some(subslice(s, *r)) if ok else NONE, x) for ok, x in e.branch(st, mk("and", le(r[0], r[1]), le(r[1], n)))]


@d("<alloc::vec::Vec>::remove", "<alloc::vec::Vec>::swap_remove")
def _(e, st, c):
    v = e.load(st, c.args[0])
    sp = seq_split(e, st, v, c.args[1])
    if sp is None or c.method != "remove":
        return None
    f, r = sp
    x = e.project(v, ("x", c.args[1]))
    if not r:
        return None
    if r[0][0] == "e":
        r = r[1:]
    else:
        s = r[0]
        r = (("s", s[1], add(s[2], ONE), s[3]),) + r[1:]
    e.store(st, c.args[0], seq_mk(f + r))
    return x


@d("<alloc::vec::Vec>::insert")
def _(e, st, c):
    v = e.load(st, c.args[0])
    sp = seq_split(e, st, v, c.args[1])
    if sp is None:
        return None
    e.store(st, c.args[0], seq_mk(sp[0] + (("e", c.args[2]),) + sp[1]))
    return UNIT


# ------------------------------------------------------------------ atomics
def atomic(e, st, c):
    p = c.args[0]
    old = e.load(st, p)
    m = c.method
    order = [x for x in c.args[1:] if x.op == "agg" and "Ordering" in x.a[0] or x.op == "const"]
    st.event("atomic", m, p, tuple(c.args[1:]), old, c.site)
    if m == "load":
        return old
    if m == "store":
        e.store(st, p, c.args[1])
        return UNIT
    if m == "fetch_add":
        e.store(st, p, add(old, c.args[1]))
        return old
    if m == "fetch_sub":
        e.store(st, p, sub(old, c.args[1]))
        return old
    e.store(st, p, fresh("atomic", old))
    return fresh("atomic", old)


PREFIX.append(("<core::sync::atomic::Atomic>::", atomic))


@d("core::sync::atomic::fence")
def _(e, st, c):
    st.event("fence", c.args[0], c.site)
    return UNIT


# ------------------------------------------------------------------ hashing
@d("core::hash::Hash::hash")
def _(e, st, c):
    t = c.a[0] if c.a else None
    v = c.args[0]
    while t is not None and t[0] == "ref":
        v = e.load(st, v)
        t = t[2]
    if t is not None and t[0] == "adt" and t[1] in e.prog.adts and e.prog.adts[t[1]]["local"]:
        c.args = [v] + list(c.args[1:])
        r = e.dispatch(c, "core::hash::Hash", "hash", (t,) + tuple(c.a[1:]))
        if isinstance(r, tuple):
            return e.call_body(c, *r)
    if t is not None and t[0] == "tuple":
        r, p, _ = target(v)
        outs = [Out("ret", UNIT, st)]
        for i, x in enumerate(t[1]):
            q = addr(r, p + (("f", i, "(tuple)", len(t[1])),))
            outs = e.then(outs, lambda o: e.call_named(o.st, c.d, c.name, c.trait, (x,) + tuple(c.a[1:]), None, None, [q, c.args[1]], None, None, c.site))
        return outs
    val = v if t is not None and E.unsized(t) else e.load(st, v)
    st.event("hash", t, val, c.args[1], c.site)
    hv = e.load(st, c.args[1])
    if hv is not UNDEF:
        e.store(st, c.args[1], mk("ap", "hashed", (hv, val)))
    return UNIT


@d("core::hash::Hasher::write_u8", "core::hash::Hasher::write_u16", "core::hash::Hasher::write_u32", "core::hash::Hasher::write_u64",
   "core::hash::Hasher::write_usize", "core::hash::Hasher::write_isize", "core::hash::Hasher::write", "core::hash::Hasher::write_length_prefix", "core::hash::Hasher::write_str")
def _(e, st, c):
    st.event("hash", ("prim", c.method[6:]), c.args[1], c.args[0], c.site)
    hv = e.load(st, c.args[0])
    if hv is not UNDEF:
        e.store(st, c.args[0], mk("ap", "hashed", (hv, c.args[1])))
    return UNIT


@d("<rustc_hash::FxHasher>::default", "<rustc_hash::FxHasher as core::default::Default>::default")
def _(e, st, c):
    return mk("ap", "hasher0", ())


@d("core::hash::Hasher::finish", "<rustc_hash::FxHasher as core::hash::Hasher>::finish")
def _(e, st, c):
    return mk("ap", "finish", (e.load(st, c.args[0]),))


# ------------------------------------------------------------------ strings: deterministic, uninterpreted
def pure(e, st, c):
    return mk("ap", c.res or c.name, tuple(c.args))


for n in ("<str>::len", "<str>::is_empty", "<str>::contains", "<str>::find", "<str>::starts_with", "<str>::is_char_boundary", "<str>::as_bytes",
          "<str>::as_ptr", "<str>::chars", "<str>::bytes", "core::str::converts::from_utf8_unchecked", "<text_size::size::TextSize>::of",
          "<str as core::ops::index::Index<text_size::range::TextRange>>::index", "<str as core::ops::index::Index<param>>::index"):
    TABLE[n] = pure


@d("<str>::is_empty")
def _(e, st, c):
    return eqi(mk("ap", "<str>::len", (c.args[0],)), ZERO)


@d("<str>::len", "<text_size::size::TextSize>::of")
def _(e, st, c):
    a = c.args[0]
    if c.method == "of" and c.a and c.a[0][0] == "ref" and c.a[0][2][0] == "ref":
        a = e.load(st, a)
    if a.op == "str":
        return Int(len(a.a[0].encode()))
    return mk("ap", "<str>::len", (a,))


@d("<alloc::borrow::Cow>::into_owned")
def cow_owned(e, st, c):
    v = c.args[0]
    if v.op != "agg" or not c.a:
        return None
    if v.a[1] == 1:
        return v.a[2][0]
    return e.call_named(st, c.d, "alloc::borrow::ToOwned::to_owned", "alloc::borrow::ToOwned", tuple(x for x in c.a if x[0] != "lt")[:1], None, None, [v.a[2][0]], None, c.dty, c.site)
