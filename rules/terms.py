"""Values of the dataflow domain: hash-consed provenance terms, and facts about them.

A term says where a value comes from (a parameter, a field of a memory cell, the result of a call,
an element of a sequence ...).  Integer terms are kept in linear normal form so that equal offsets
have equal terms however the code computes them.  Facts are the branch conditions of a path; they
only prune paths that contradict themselves (same condition assumed both ways), there is no solver.
"""


class T:
    __slots__ = ("op", "a", "id", "dep")
    _table = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op, a)
    t = T._table.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        T._n += 1
        t.id = T._n
        t.dep = None
        T._table[k] = t
    return t


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


def fresh(name, *a):
    return mk("ap!", name, tuple(a), uid())


UNDEF = mk("undef")
UNIT = mk("agg", "(tuple)", 0, ())


def Int(n):
    return mk("i", n)


ZERO = Int(0)
ONE = Int(1)


def lin_of(t):
    if t.op == "i":
        return t.a[0], ()
    if t.op == "lin":
        return t.a[0], t.a[1]
    return 0, ((t, 1),)


def from_lin(c, atoms):
    atoms = tuple(sorted(((t, k) for t, k in atoms if k != 0), key=lambda x: x[0].id))
    if not atoms:
        return Int(c)
    if c == 0 and len(atoms) == 1 and atoms[0][1] == 1:
        return atoms[0][0]
    return mk("lin", c, atoms)


def add(a, b, kb=1):
    ca, aa = lin_of(a)
    cb, ab = lin_of(b)
    d = dict(aa)
    for t, k in ab:
        d[t] = d.get(t, 0) + kb * k
    return from_lin(ca + kb * cb, d.items())


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a.op == "i":
        a, b = b, a
    if b.op == "i":
        c, at = lin_of(a)
        return from_lin(c * b.a[0], [(t, k * b.a[0]) for t, k in at])
    ca, aa = lin_of(a)
    cb, ab = lin_of(b)
    d = {}
    for t, k in aa:
        if cb:
            d[t] = d.get(t, 0) + k * cb
        for u, l in ab:
            x, y = (t, u) if t.id <= u.id else (u, t)
            m = mk("mul", x, y)
            d[m] = d.get(m, 0) + k * l
    for u, l in ab:
        if ca:
            d[u] = d.get(u, 0) + l * ca
    return from_lin(ca * cb, d.items())


def _form(lin):
    """lin = s*form + c with the first coefficient of form positive"""
    c, at = lin_of(lin)
    if not at:
        return None, 0, c
    s = 1 if at[0][1] > 0 else -1
    f = from_lin(0, [(t, k * s) for t, k in at])
    return f, s, c


def le0(x):
    """x <= 0"""
    if x.op == "i":
        return Int(1 if x.a[0] <= 0 else 0)
    return mk("le0", x)


def eq0(x):
    if x.op == "i":
        return Int(1 if x.a[0] == 0 else 0)
    f, s, c = _form(x)
    return mk("eq0", from_lin(c * s, lin_of(f)[1]))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def le(a, b):
    return le0(sub(a, b))


def eqi(a, b):
    return eq0(sub(a, b))


def neg(p):
    if p.op == "i":
        return Int(0 if p.a[0] else 1)
    if p.op == "not":
        return p.a[0]
    if p.op == "le0":
        # !(x <= 0)  ==  1 - x <= 0
        return le0(sub(ONE, p.a[0]))
    return mk("not", p)


def agg(adt, variant, fields):
    fields = tuple(fields)
    if fields and adt not in ("#arr",):
        # eta: an aggregate of all the fields of one value is that value
        f0 = fields[0]
        if f0.op == "fld" and f0.a[2] == 0:
            v = f0.a[0]
            if f0.a[3] == adt and all(
                x.op == "fld" and x.a[0] is v and x.a[2] == i and x.a[3] == adt and x.a[1] == f0.a[1]
                for i, x in enumerate(fields)
            ) and (f0.a[1] is None or f0.a[1] == variant) and f0.a[4] == len(fields):
                return v
    return mk("agg", adt, variant, fields)


OPTION = "core::option::Option"
RESULT = "core::result::Result"
ORDERING = "core::cmp::Ordering"


def Some(x):
    return agg(OPTION, 1, (x,))


NONE = mk("agg", OPTION, 0, ())


def fld(v, variant, i, adt, n):
    """i-th field of v (of the given variant of adt, which has n fields there)"""
    return mk("fld", v, variant, i, adt, n)


def maxuid(t):
    """largest uid occurring in t (how recently t can have come into being)"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return max((maxuid(x) for x in t), default=0)
        return 0
    if t.dep is None:
        m = max((maxuid(x) for x in t.a), default=0)
        if t.op in ("ap!", "heap", "phi", "loc"):
            m = max(m, t.a[-1] if t.op != "loc" else t.a[0])
        t.dep = m
    return t.dep


def subst(t, m, memo=None):
    """replace the terms in m"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("i", "str", "param", "heap", "loc", "phi", "undef"):
        r = t
    elif t.op == "lin":
        r = Int(t.a[0])
        for x, k in t.a[1]:
            r = add(r, subst(x, m, memo), k)
    elif t.op == "le0":
        r = le0(subst(t.a[0], m, memo))
    elif t.op == "eq0":
        r = eq0(subst(t.a[0], m, memo))
    elif t.op == "not":
        r = neg(subst(t.a[0], m, memo))
    elif t.op == "agg":
        r = agg(t.a[0], t.a[1], tuple(subst(x, m, memo) for x in t.a[2]))
    elif t.op == "fld":
        v = subst(t.a[0], m, memo)
        if v.op == "agg" and (t.a[1] is None or v.a[1] == t.a[1]) and t.a[2] < len(v.a[2]):
            r = v.a[2][t.a[2]]
        else:
            r = mk("fld", v, *t.a[1:])
    else:
        r = mk(t.op, *(subst(x, m, memo) for x in t.a))
    memo[t] = r
    return r


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return str(t)
    if depth > 14:
        return "…"
    s = lambda x: show(x, depth + 1)
    op, a = t.op, t.a
    if op == "i":
        return str(a[0])
    if op == "lin":
        parts = [("" if k == 1 else "-" if k == -1 else f"{k}*") + s(x) for x, k in a[1]]
        if a[0]:
            parts.append(str(a[0]))
        return "(" + " + ".join(parts).replace("+ -", "- ") + ")"
    if op == "agg":
        n = a[0].split("::")[-1]
        return f"{n}#{a[1]}({', '.join(s(x) for x in a[2])})"
    if op == "fld":
        v = "" if a[1] is None else f"#{a[1]}"
        return f"{s(a[0])}{v}.{a[2]}"
    if op == "ini":
        return f"{s(a[0])}"
    if op == "at":
        return f"*{s(a[0])}"
    if op == "addr":
        p = "".join(_step(x) for x in a[1])
        return f"&{s(a[0])}{p}"
    if op == "loc":
        return f"L{a[0]}.{a[1]}"
    if op == "heap":
        return f"H{a[0]}"
    if op == "param":
        return a[0]
    if op == "fat":
        return f"fat({s(a[0])},{s(a[1])})"
    if op in ("ap", "ap!"):
        n = a[0].split("::")[-1] if isinstance(a[0], str) else s(a[0])
        u = f"!{a[2]}" if op == "ap!" else ""
        return f"{n}{u}({', '.join(s(x) for x in a[1])})"
    if op == "le0":
        return f"[{s(a[0])} <= 0]"
    if op == "eq0":
        return f"[{s(a[0])} == 0]"
    if op == "not":
        return f"!{s(a[0])}"
    if op == "str":
        return repr(a[0])
    return f"{op}({', '.join(s(x) for x in a)})"


def _step(x):
    if x[0] == "f":
        return f".{x[1]}"
    if x[0] == "v":
        return f"#{x[1]}.{x[2]}"
    if x[0] == "x":
        return f"[{show(x[1])}]"
    return str(x)


def subterms(t, seen=None):
    """all subterms, each once"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        stack.extend(x.a)
    return seen


class Facts:
    """Branch facts of one path. Persistent: assume() returns a new object or None."""

    __slots__ = ("bounds", "ne", "truth", "log")

    def __init__(self):
        self.bounds = {}
        self.ne = {}
        self.truth = {}
        self.log = ()

    def copy(self):
        f = Facts()
        f.bounds, f.ne, f.truth, f.log = dict(self.bounds), dict(self.ne), dict(self.truth), self.log
        return f

    # -- integer forms
    def _range(self, form):
        lo, hi = self.bounds.get(form, (None, None))
        c, at = lin_of(form)
        if len(at) == 1 and at[0][1] == 1 and c == 0:
            t = at[0][0]
            if lo is None and not signed(t):
                lo = low(t)
            if hi is None and t.op == "discr":
                hi = t.a[1]
            return lo, hi
        # combine the bounds of the atoms
        l2, h2 = 0, 0
        for t, k in at:
            tl, th = self._range(t)
            if k < 0:
                tl, th = th, tl
            l2 = None if (l2 is None or tl is None) else l2 + k * tl
            h2 = None if (h2 is None or th is None) else h2 + k * th
        if l2 is not None:
            lo = l2 if lo is None else max(lo, l2)
        if h2 is not None:
            hi = h2 if hi is None else min(hi, h2)
        return lo, hi

    def decide(self, p):
        """True / False / None"""
        if p.op == "i":
            return p.a[0] != 0
        if p.op == "not":
            d = self.decide(p.a[0])
            return None if d is None else not d
        if p.op == "le0":
            f, s, c = _form(p.a[0])
            lo, hi = self._range(f)
            if s > 0:  # f <= -c
                if hi is not None and hi <= -c:
                    return True
                if lo is not None and lo > -c:
                    return False
            else:  # f >= c
                if lo is not None and lo >= c:
                    return True
                if hi is not None and hi < c:
                    return False
            return None
        if p.op == "eq0":
            f, s, c = _form(p.a[0])
            v = -c * s
            lo, hi = self._range(f)
            if lo is not None and lo == hi:
                return lo == v
            if lo is not None and v < lo or hi is not None and v > hi:
                return False
            if v in self.ne.get(f, ()):
                return False
            return None
        if p.op in ("and", "or"):
            x, y = self.decide(p.a[0]), self.decide(p.a[1])
            if p.op == "and":
                if x is False or y is False:
                    return False
                return True if x and y else None
            if x or y:
                return True
            return False if x is False and y is False else None
        return self.truth.get(p)

    def assume(self, p, val=True):
        d = self.decide(p)
        if d is not None:
            return self if d == val else None
        if p.op == "not":
            return self.assume(p.a[0], not val)
        if p.op == "and" and val or p.op == "or" and not val:
            f = self.assume(p.a[0], val)
            return f and f.assume(p.a[1], val)
        f = self.copy()
        f.log = f.log + ((p, val),)
        if p.op == "le0":
            if not val:
                q = neg(p)
                if q.op != "le0":
                    return None
                form, s, c = _form(q.a[0])
            else:
                form, s, c = _form(p.a[0])
            lo, hi = f.bounds.get(form, (None, None))
            if s > 0:
                hi = -c if hi is None else min(hi, -c)
            else:
                lo = c if lo is None else max(lo, c)
            f.bounds[form] = (lo, hi)
            return f._tighten(form)
        if p.op == "eq0":
            form, s, c = _form(p.a[0])
            v = -c * s
            if val:
                f.bounds[form] = (v, v)
                return f
            f.ne[form] = f.ne.get(form, frozenset()) | {v}
            return f._tighten(form)
        f.truth[p] = val
        return f

    def _tighten(self, form):
        lo, hi = self._range(form)
        ne = self.ne.get(form, ())
        while lo is not None and lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            return None
        self.bounds[form] = (lo, hi)
        return self

    def value(self, t):
        """the integer t is known to equal, or None"""
        if t.op == "i":
            return t.a[0]
        c, at = lin_of(t)
        form, s, cc = _form(t)
        lo, hi = self._range(form)
        if lo is not None and lo == hi:
            return s * lo + cc
        return None

    def equal(self, a, b):
        if a is b:
            return True
        try:
            return self.decide(eqi(a, b))
        except Exception:
            return None


LOW = {}  # (adt, field index) -> lower bound of that field in any valid state


def low(t):
    if t.op == "fld":
        return LOW.get((t.a[3], t.a[2]), 0)
    return 0


SIGNED = set()


def signed(t):
    return t in SIGNED


def infeasible(log, cap=160):
    """no integers meet the linear conditions among these (by elimination; False if not found out)"""
    les, eqs, nes, seen = [], [], [], set()

    def row(a):
        c, at = lin_of(a)
        return c, dict(at)

    for a, v in log:
        while a.op == "not":
            a, v = a.a[0], not v
        if a.op == "and" and v or a.op == "or" and not v:
            return infeasible(tuple(x for x in log if x[0] is not a) + ((a.a[0], v), (a.a[1], v)), cap)
        if a.op not in ("le0", "eq0"):
            continue
        c, r = row(a.a[0])
        if a.op == "le0":
            les.append((c, r) if v else (1 - c, {t: -k for t, k in r.items()}))
        elif v:
            eqs.append((c, r))
        else:
            nes.append((c, r))
        seen |= set(r)
    F = Facts()
    for t in seen:
        lo, hi = F._range(t)
        if lo is not None:
            les.append((lo, {t: -1}))
        if hi is not None:
            les.append((-hi, {t: 1}))

    def put(x, t, e):
        """x with t replaced according to the equation e, in which t has coefficient 1 or -1"""
        k = x[1].get(t, 0)
        if not k:
            return x
        f = -k * e[1][t]
        r = dict(x[1])
        for u, j in e[1].items():
            r[u] = r.get(u, 0) + f * j
        return x[0] + f * e[0], {u: j for u, j in r.items() if j}

    while eqs:
        e = eqs.pop()
        t = next((t for t, k in e[1].items() if abs(k) == 1), None)
        if t is None:
            if not e[1]:
                if e[0]:
                    return True
                continue
            les += [e, (-e[0], {t: -k for t, k in e[1].items()})]
            continue
        eqs, les, nes = [put(x, t, e) for x in eqs], [put(x, t, e) for x in les], [put(x, t, e) for x in nes]
    if any(not r and c == 0 for c, r in nes):
        return True

    def key(x):
        return tuple(sorted((t.id, k) for t, k in x[1].items()))

    def tidy(rows):
        best = {}
        for x in rows:
            if not x[1]:
                if x[0] > 0:
                    return None
                continue
            k = key(x)
            if k not in best or best[k][0] < x[0]:
                best[k] = x
        return list(best.values())

    les = tidy(les)
    # what is at most and not equal is less
    for _ in range(3):
        if les is None:
            return True
        more = [(c + 1, r) for c, r in les if any(c == d and r == q or c == -d and r == {t: -k for t, k in q.items()} for d, q in nes)]
        if not more:
            break
        les = tidy(les + more)
    while les:
        ts = {}
        for c, r in les:
            for t, k in r.items():
                p, n = ts.get(t, (0, 0))
                ts[t] = (p + (k > 0), n + (k < 0))
        t = min(ts, key=lambda t: (ts[t][0] * ts[t][1] - ts[t][0] - ts[t][1], t.id))
        up = [x for x in les if x[1].get(t, 0) > 0]
        dn = [x for x in les if x[1].get(t, 0) < 0]
        les = [x for x in les if not x[1].get(t, 0)]
        if len(up) * len(dn) + len(les) > cap:
            return False
        for a in up:
            for b in dn:
                ka, kb = -b[1][t], a[1][t]
                r = {}
                for u, k in a[1].items():
                    r[u] = r.get(u, 0) + ka * k
                for u, k in b[1].items():
                    r[u] = r.get(u, 0) + kb * k
                les.append((ka * a[0] + kb * b[0], {u: k for u, k in r.items() if k}))
        les = tidy(les)
    return les is None
