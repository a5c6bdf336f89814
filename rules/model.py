"""Small concrete trees as models of the conditions of paths.

A difference between a path of a function and a path of its specification is reported only if there
is a small tree (and values of the other inputs) under which the conditions of both hold and what
they do differs. This filters out differences that come from facts about trees or texts the
comparison of terms does not know. Functions of caller-supplied code and sinks are uninterpreted."""
import random, time
from terms import *
from program import tsubst

NOT = "rowan::utility_types::NodeOrToken"


class Bad(Exception):
    """no value in this model"""


class Unknown(Exception):
    """not interpreted"""


class N:
    __slots__ = ("kind", "kids", "parent", "text", "start", "end", "ix", "name", "mut")

    def __init__(self, kind, *kids, text=None):
        self.kind, self.kids, self.text, self.parent, self.ix = kind, kids, text, None, 0
        for i, k in enumerate(kids):
            k.parent, k.ix = self, i

    @property
    def tok(self):
        return self.text is not None

    def place(self, at, name):
        self.start, self.name = at, name
        if self.tok:
            at += len(self.text)
        for i, k in enumerate(self.kids):
            at = k.place(at, f"{name}.{i}")
        self.end = at
        return at

    def all(self):
        yield self
        for k in self.kids:
            yield from k.all()

    def __repr__(self):
        return f"<{self.name}>"


def tok(k, t):
    return N(k, text=t.encode())


def trees():
    a = N(1, tok(5, "ab"), N(2, tok(6, ""), N(3), tok(5, "c")), N(2, tok(7, "é"), N(3, tok(5, "xy"))), tok(6, "z"))
    b = N(1, tok(5, "ab"))
    c = N(1)
    d = N(1, N(2, N(2, tok(5, "a")), N(3, tok(6, "b"))), N(4))
    r = N(2, N(3), tok(5, "a"), tok(5, "b"), N(4), N(3, tok(6, "c"), tok(5, "d"), tok(7, "ef")))
    out = []
    for i, t in enumerate((a, d, b, c, r)):
        t.place(0, f"t{i}")
        for x in t.all():
            x.mut = i % 2
        out.append(t)
    return out


class U:
    """the value of an uninterpreted function"""
    __slots__ = ("f", "a", "h")

    def __init__(self, f, *a):
        self.f, self.a = f, a
        self.h = hash((f, a))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or isinstance(o, U) and self.h == o.h and self.f == o.f and self.a == o.a

    def __repr__(self):
        return f"{self.f}{self.a}"


def V(i, *f):
    return ("v", i, f)


SOME, NIL = (lambda x: V(1, x)), V(0)
opt = lambda x: NIL if x is None else SOME(x)
el = lambda x: V(1, x) if x.tok else V(0, x)


def sib(x, step, want):
    p = x.parent
    if p is None:
        return None
    i = x.ix + step
    while 0 <= i < len(p.kids):
        if want(p.kids[i]):
            return p.kids[i]
        i += step
    return None


ANY = lambda x: True
NODES = lambda x: not x.tok


def first(it):
    return next(iter(it), None)


def leaves(x):
    return [y for y in x.all() if y.tok]


def tokens_beside(x, step):
    """the token after (before) x"""
    y = x
    while y is not None:
        s = sib(y, step, ANY)
        while s is not None:
            t = leaves(s)
            if t:
                return t[0 if step > 0 else -1]
            if True:
                # a sibling without tokens ends the search (documented behaviour of the library)
                return None
        y = y.parent
    return None


def rng_of(v):
    if not (isinstance(v, tuple) and v[0] == "v"):
        raise Unknown()
    a, b = v[2]
    return a, b


def inside(x, r):
    a, b = rng_of(r)
    if not isinstance(a, int) or not isinstance(b, int):
        raise Unknown()
    return x.start <= a and b <= x.end


def at_range(n, r):
    """the child that the library's search finds for a range"""
    a, b = rng_of(r)
    c = [k for k in n.kids if k.start <= a and b <= k.end]
    if len(c) > 1:
        raise Unknown()  # which of several neighbours is C04's and C23's concern
    return c[0] if c else None


def need(x, c):
    if not isinstance(x, c):
        raise Unknown()
    return x


NAVF = {
    "parent": lambda x: opt(x.parent),
    "kind": lambda x: V(0, x.kind),
    "index": lambda x: x.ix,
    "text_range": lambda x: V(0, x.start, x.end),
    "is_mutable": lambda x: x.mut,
    "first_child": lambda x: opt(first(k for k in x.kids if not k.tok)),
    "last_child": lambda x: opt(first(k for k in reversed(x.kids) if not k.tok)),
    "first_child_or_token": lambda x: opt(first(el(k) for k in x.kids)),
    "last_child_or_token": lambda x: opt(first(el(k) for k in reversed(x.kids))),
    "next_sibling": lambda x: opt(sib(x, 1, NODES)),
    "prev_sibling": lambda x: opt(sib(x, -1, NODES)),
    "next_sibling_or_token": lambda x: opt((lambda y: y and el(y))(sib(x, 1, ANY))),
    "prev_sibling_or_token": lambda x: opt((lambda y: y and el(y))(sib(x, -1, ANY))),
    "first_token": lambda x: opt(edge(x, 0)),
    "last_token": lambda x: opt(edge(x, -1)),
}


def edge(x, i):
    while not x.tok:
        if not x.kids:
            return None
        x = x.kids[i]
    return x


def pre(x, tokens):
    r = []

    def go(y):
        if y.tok and not tokens:
            return
        v = el(y) if tokens else y
        r.append(V(0, v))
        for k in y.kids:
            go(k)
        r.append(V(1, v))

    go(x)
    return tuple(r)


LISTS = {
    "cwt": lambda x: tuple(el(k) for k in x.kids),
    "children": lambda x: tuple(k for k in x.kids if not k.tok),
    "dwt": lambda x: tuple(el(k) for k in x.all()),
    "desc": lambda x: tuple(k for k in x.all() if not k.tok),
    "pre": lambda x: pre(x, False),
    "pwt": lambda x: pre(x, True),
}
FREE = ("oc:emit", "emit", "cached", "user", "ser:", "rowan::ast::", "rowan::api::Language", "replace_child", "insert_child", "remove_child", "spliced", "new", "owned", "param", "fld",
        "param", "fn", "lam", "str", "oc:<str as core::fmt::Display>::fmt", "clone", "alternate", "from_utf8", "ty", "is_char", "cache", "format", "#fmt", "agg", "ini", "at", "fat", "addr", "elem",
        "vlen", "alloc::fmt::format", "const", "seq", "ap")


def free(x):
    """two such values differ if they are written differently"""
    if isinstance(x, U):
        f = str(x.f).rsplit("rowan::green", 1)[-1]
        n = f.rsplit("::", 1)[-1]
        return (any(f.startswith(k) or n.startswith(k) for k in FREE) or "::cast" in f) and all(free(y) for y in x.a)
    if isinstance(x, tuple):
        return all(free(y) for y in x)
    return True


class Model:
    """values of the parameters and, as far as used, of the uninterpreted functions"""

    def __init__(self, params, rnd, scale=0):
        self.p = params
        self.scale = scale
        self.num = {}
        self.rnd = rnd
        self.memo = {}

    def const(self, c):
        """large bounds are brought within reach of small trees"""
        if self.scale and LARGE[0] <= abs(c) <= LARGE[1]:
            return c - self.scale if c > 0 else c + self.scale
        return c

    # -- choices
    def number(self, u, hi=None):
        if u not in self.num:
            self.num[u] = self.rnd.choice((0, 1)) if hi == 1 else self.rnd.randrange(0, min(hi if hi is not None else 4, 4) + 1)
        return self.num[u]

    def key(self, x):
        """what decides whether a cast succeeds"""
        if isinstance(x, U) and x.f == "discr" and isinstance(x.a[0], U) and x.a[0].f.endswith("AstNode::cast") and isinstance(x.a[0].a[-1], N):
            n = x.a[0].a[-1]
            return U("rowan::ast::AstNode::can_cast", *x.a[0].a[:-1], U("rowan::api::Language::kind_from_raw", V(0, n.kind)))
        return x

    def ev(self, t):
        if t.id in self.memo:
            r = self.memo[t.id]
        else:
            try:
                r = self.ev_(t)
            except (AttributeError, TypeError, ValueError, IndexError, KeyError) as e:
                raise Unknown(str(e))
            self.memo[t.id] = r
        return r

    def args(self, ts):
        return tuple(self.ev(x) if isinstance(x, T) else x for x in ts)

    def int(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, U):
            return self.number(self.key(v))
        if isinstance(v, tuple) and v[0] == "v" and len(v[2]) == 1:
            return self.int(v[2][0])
        raise Unknown("int")

    def ev_(self, t):
        o, a = t.op, t.a
        if o == "i":
            return self.const(a[0])
        if o == "str":
            return U("str", a[0])
        if o == "param":
            if a[0] not in self.p:
                return U("param", a[0])
            return self.p[a[0]]
        if o == "phi":
            if t in self.p:
                return self.p[t]
            raise Unknown("phi")
        if o == "ini":
            if a[0].op == "param":
                return self.ev(a[0])
            return U("ini", self.ev(a[0]))
        if o == "lin":
            r = self.const(a[0])
            for x, k in a[1]:
                r += k * self.int(self.ev(x))
            return r
        if o == "mul":
            r = 1
            for x in a:
                r *= self.int(self.ev(x))
            return r
        if o == "agg":
            if a[0] in ("#fmt", "#fmtarg") or a[0].startswith("{closure"):
                return U(a[0], a[1], *self.args(a[2]))
            f = self.args(a[2])
            return V(a[1], *f)
        if o == "fld":
            v = self.ev(a[0])
            if isinstance(v, tuple) and v and v[0] == "v":
                if a[1] is not None and v[1] != a[1]:
                    raise Bad()
                if a[2] >= len(v[2]):
                    raise Unknown("field")
                return v[2][a[2]]
            if isinstance(v, U) and v.f.endswith("AstNode::cast") and a[1] == 1:
                return U("ast", v.a[-1])
            return U("fld", v, a[1], a[2])
        if o == "discr":
            v = self.ev(a[0])
            if isinstance(v, tuple) and v and v[0] == "v":
                return v[1]
            if a[0].op == "cmp3":
                x, y = (self.int(self.ev(z)) for z in a[0].a[:2])
                return 0 if x < y else 1 if x == y else 2
            if isinstance(v, U):
                return U("discr", v)
            raise Unknown("discr")
        if o == "vlen":
            v = self.ev(a[0])
            if isinstance(v, tuple):
                return len(v)
            return U("vlen", v)
        if o == "elem":
            v, i = self.ev(a[0]), self.ev(a[1])
            if isinstance(v, tuple):
                i = self.int(i)
                if not 0 <= i < len(v):
                    raise Bad()
                return v[i]
            return U("elem", v, self.int(i))
        if o in ("le0", "eq0"):
            x = self.int(self.ev(a[0]))
            return int(x <= 0 if o == "le0" else x == 0)
        if o == "not":
            return 1 - self.int(self.ev(a[0]))
        if o == "and":
            return self.int(self.ev(a[0])) & self.int(self.ev(a[1]))
        if o == "or":
            return self.int(self.ev(a[0])) | self.int(self.ev(a[1]))
        if o in ("beq", "ptreq"):
            x, y = self.args(a[:2])
            if x == y:
                return 1
            if all(isinstance(z, U) and "kind_from_raw" in str(z.f) for z in (x, y)) or not any(isinstance(z, U) for z in (x, y)):
                return 0
            return U(o, *sorted((x, y), key=repr))
        if o == "ap":
            f, v = a[0], self.args(a[1])
            if isinstance(f, str) and f.endswith("::index") and len(v) == 2 and isinstance(v[0], bytes):
                k = a[1][1].a[0].rsplit("::", 1)[-1] if a[1][1].op == "agg" else ""
                f = {"RangeFrom": "sub_from", "RangeTo": "sub_to"}.get(k, f)
                v = (v[0], v[1][2][0]) if k in ("RangeFrom", "RangeTo") else v
            if isinstance(f, str) and f.startswith("oc:") and len(v) > 1 and a[1][0].op == "i":
                v = v[1:]  # how many calls there were before depends on how it is written
            return self.ap(f, v)
        if o == "seq":
            r = ()
            for x in a[0]:
                if x[0] == "s":
                    v, lo, hi = self.ev(x[1]), self.int(self.ev(x[2])), self.int(self.ev(x[3]))
                    if not isinstance(v, tuple):
                        raise Unknown("seq")
                    if not 0 <= lo <= hi <= len(v):
                        raise Bad()
                    r += v[lo:hi]
                elif x[0] == "e":
                    r += (self.ev(x[1]),)
                else:
                    raise Unknown("seq")
            return r
        if o in ("at", "fat", "addr", "fn", "lam", "const", "ty", "upd", "subsl"):
            return U(o, *(self.ev(x) if isinstance(x, T) else str(x) for x in a))
        raise Unknown(o)

    def ap(self, f, a):
        if not isinstance(f, str):
            return U("user", self.ev(f), *a)
        n = f.rsplit("::", 1)[-1]
        if f.startswith(("<SyntaxNode>::", "<SyntaxToken>::")) and a and isinstance(a[0], N):
            x = a[0]
            if (x.tok) != f.startswith("<SyntaxToken>"):
                raise Unknown("sort")
            if len(a) == 1:
                if n == "text" and x.tok:
                    return x.text
                if n in ("next_token", "prev_token"):
                    return opt(tokens_beside(x, 1 if n == "next_token" else -1))
                if n in NAVF:
                    return NAVF[n](x)
            if n == "child_or_token_at_range":
                c = at_range(x, a[1])
                return opt(c and el(c))
        if f.startswith("<NodeOrToken>::") and len(a) == 1 and n in NAVF:
            return NAVF[n](a[0][2][0])
        if f in LISTS and isinstance(a[0], N):
            return LISTS[f](a[0])
        if f == "eqh":
            x, y = (z[2][0] if isinstance(z, tuple) and z[0] == "v" else z for z in a)
            return int(x is y) if isinstance(x, N) and isinstance(y, N) else U(f, *a)
        if n == "kind_from_raw" and len(a) >= 1:
            return U("rowan::api::Language::kind_from_raw", *a)
        if n == "syntax" and isinstance(a[-1], U) and a[-1].f == "ast":
            return a[-1].a[0]
        r = self.text(f, n, a)
        if r is not None:
            return r
        return U(f, *a)

    def text(self, f, n, a):
        """functions of strings"""
        if not a or not isinstance(a[0], bytes):
            if n == "next" and isinstance(a[0], U) and a[0].f == "chars":
                s = a[0].a[0].decode()
                return opt(U("char", s[0])) if s else NIL
            return None
        s = a[0]
        if n == "len":
            return len(s)
        if n == "is_empty":
            return int(not s)
        if n == "chars":
            return U("chars", s)
        if n == "is_char_boundary":
            i = self.int(a[1])
            return int(i == len(s) or 0 <= i < len(s) and (s[i] & 0xC0) != 0x80)
        if n == "index":
            r = a[1]
            if isinstance(r, tuple) and len(r[2]) == 2:
                lo, hi = (self.int(x) for x in r[2])
            elif isinstance(r, tuple) and len(r[2]) == 1:
                raise Unknown("range")
            else:
                raise Unknown("range")
            return cut(s, lo, hi)
        if n == "sub_from":
            return cut(s, self.int(a[1]), len(s))
        if n == "sub_to":
            return cut(s, 0, self.int(a[1]))
        if n in ("contains", "find", "starts_with", "strip_prefix", "ends_with", "eq") and len(a) > 1:
            t = a[1]
            if isinstance(t, U):
                if t.f != "param" or n not in ("contains", "find"):
                    return None
                i = U("charpos", s, t)
                # a character given by the caller: any one of the text or none
                k = self.num.setdefault(U("char", t), self.rnd.choice("abcéz"))
                if isinstance(k, int):
                    k = "abcéz"[k % 5]
                t = k.encode()
            if n == "contains":
                return int(t in s)
            if n == "find":
                i = s.find(t)
                return opt(None if i < 0 else i)
            if n == "starts_with":
                return int(s.startswith(t))
            if n == "ends_with":
                return int(s.endswith(t))
            if n == "strip_prefix":
                return SOME(s[len(t):]) if s.startswith(t) else NIL
            if n == "eq":
                return int(s == t)
        return None

    # -- conditions
    def holds(self, a, v):
        """whether condition a has the value v; free values are chosen so that it does"""
        while a.op == "not":
            a, v = a.a[0], not v
        if a.op == "and" and v or a.op == "or" and not v:
            return self.holds(a.a[0], v) and self.holds(a.a[1], v)
        if a.op in ("le0", "eq0"):
            c, at = lin_of(a.a[0])
            s, fr = self.const(c), []
            for t, k in at:
                x = self.ev(t)
                hi = t.a[1] if t.op == "discr" else None
                if isinstance(x, tuple) and x and x[0] == "v" and len(x[2]) == 1:
                    x = x[2][0]
                if isinstance(x, U):
                    x = self.key(x)
                    if x in self.num:
                        s += k * self.num[x]
                    else:
                        fr.append((x, k, hi))
                else:
                    s += k * self.int(x)
            while len(fr) > 1:
                x, k, hi = fr.pop()
                s += k * self.number(x, hi)
            if fr:
                x, k, hi = fr[0]
                top = min(hi if hi is not None else 40, 40)
                ok = [i for i in range(0, top + 1) if ((s + k * i <= 0) if a.op == "le0" else (s + k * i == 0)) == v]
                if not ok:
                    return False
                self.num[x] = self.rnd.choice(ok[:3] + ok[-1:])
                self.memo = {}
                return True
            return ((s <= 0) if a.op == "le0" else (s == 0)) == v
        x = self.ev(a)
        if isinstance(x, U):
            x = self.key(x)
            if x not in self.num:
                self.num[x] = int(v)
                self.memo = {}
            return bool(self.num[x]) == v
        return bool(self.int(x)) == v


def cut(s, lo, hi):
    if not 0 <= lo <= hi <= len(s):
        raise Bad()
    r = s[lo:hi]
    try:
        r.decode()
        s[:lo].decode()
    except UnicodeDecodeError:
        raise Bad()
    return r


# ------------------------------------------------------------------ paths in a model
SHOWN = ("user", "effect", "ocall")
OTHER = ("call", "alloc", "free", "forget", "ptrwrite")


class Run:
    """the ways a path can be taken in a model: loops are gone round as long as their conditions hold"""

    def __init__(self, m, turns=9):
        self.m, self.turns, self.out, self.fuel = m, turns, [], 4000

    def save(self):
        m = self.m
        return dict(m.num), dict(m.p), len(self.out)

    def back(self, s):
        m = self.m
        m.num, m.p = dict(s[0]), dict(s[1])
        m.memo = {}
        del self.out[s[2]:]

    def value(self, x):
        if isinstance(x, T):
            return self.m.ev(x)
        if isinstance(x, (tuple, list)):
            return tuple(self.value(y) for y in x)
        return x

    def conds(self, log):
        """the conditions hold, as far as the loop variables in them have values; the others"""
        later = []
        for a, v in log:
            if not self.bound(a):
                later.append((a, v))
                continue
            try:
                ok = self.m.holds(a, v)
            except Bad:
                ok = False
            if not ok:
                if TRACE is not None:
                    TRACE[(a, v)] = TRACE.get((a, v), 0) + 1
                return None
        return later

    def bound(self, a):
        return all(y in self.m.p for y in phis(a))

    def events(self, evs, log):
        """each way to go on from here: yields once the events have happened and the conditions hold"""
        if not evs:
            if self.conds(log) == []:
                yield
            return
        # loops to come begin anew
        for e in evs:
            if e[0] == "loop":
                for y in e[1].phis:
                    if self.m.p.pop(y[2], None) is not None:
                        self.m.memo = {}
        log = self.conds(log)
        if log is None:
            return
        x = evs[0]
        if x[0] in SHOWN:
            try:
                self.out.append((x[0], self.value(x[1]), self.value(x[2])))
            except Bad:
                return
            yield from self.events(evs[1:], log)
        elif x[0] == "loop":
            L = x[1]
            ph = [y for y in L.phis if y[2].op == "phi"]
            try:
                vals = [self.value(y[3]) for y in ph]
            except Bad:
                return
            self.set(ph, vals)
            yield from self.turn(L, ph, evs, log, 0)
        elif x[0] in OTHER:
            raise Unknown(x[0])
        else:
            yield from self.events(evs[1:], log)

    def set(self, ph, vals):
        for y, v in zip(ph, vals):
            self.m.p[y[2]] = v
        self.m.memo = {}

    def turn(self, L, ph, evs, log, k):
        self.fuel -= 1
        if self.fuel < 0:
            return
        s = self.save()
        ways = [self.leave, self.again]
        if self.m.rnd.random() < 0.5:
            ways.reverse()
        for w in ways:
            yield from w(L, ph, evs, log, k)
            self.back(s)

    def leave(self, L, ph, evs, log, k):
        yield from self.events(evs[1:], log)

    def again(self, L, ph, evs, log, k):
        if k >= self.turns:
            return
        n = len(L.hst.events())
        s = self.save()
        for i, b in enumerate(L.backs):
            evs2 = [e for e in b.events()[n:] if e[0] in SHOWN + OTHER + ("loop",)]
            # the loops within begin anew
            for e in evs2:
                if e[0] == "loop":
                    for y in e[1].phis:
                        self.m.p.pop(y[2], None)
            self.m.memo = {}
            for _ in self.events(evs2, b.facts.log):
                try:
                    vals = [self.value(y[4][i]) for y in ph]
                except Bad:
                    continue
                self.set(ph, vals)
                yield from self.turn(L, ph, evs, log, k + 1)
                self.set(ph, vals)
            self.back(s)

    def path(self, o):
        """(result, events) of each way to take the path"""
        s = self.save()
        n = len(self.out)
        evs = [e for e in o.st.events() if e[0] in SHOWN + OTHER + ("loop",)]
        for _ in self.events(evs, o.st.facts.log):
            try:
                v = self.value(o.val) if o.val is not None else None
            except Bad:
                continue
            yield v, list(self.out[n:])
        self.back(s)


PHIS = {}


def phis(a):
    if a.id not in PHIS:
        PHIS[a.id] = tuple(y for y in subterms(a) if y.op == "phi")
    return PHIS[a.id]


def apart(x, y):
    """values that certainly differ"""
    return x != y and free(x) and free(y)


# ------------------------------------------------------------------ inputs
def generics(a):
    r = []

    def go(t):
        if isinstance(t, tuple):
            if t and t[0] == "param":
                if t[1] not in r:
                    r.append(t[1])
                return
            for x in t:
                go(x)

    for f in a["fields"]:
        for _, t in f:
            go(t)
    return r


class Inputs:
    """values of the types of the parameters"""

    def __init__(self, P):
        self.P = P
        self.trees = trees()
        self.count = 0

    def choose(self, t, rnd, root):
        ns = list(root.all())
        k = t[0]
        if k in ("ref", "ptr"):
            return self.choose(t[2], rnd, root)
        if k == "prim":
            if t[1] == "bool":
                return rnd.choice((0, 1))
            if t[1] == "str":
                return rnd.choice((b"", b"a", b"ab", b"abc", "é".encode(), b"abcxyz", "abcé".encode(), b"abcd", b"b"))
            if t[1] == "char":
                return U("param", "char")
            return rnd.randrange(0, 10)
        if k == "tuple":
            return V(0, *(self.choose(x, rnd, root) for x in t[1]))
        if k == "adt":
            n = t[1]
            if n.endswith("cursor::SyntaxNode") or n.endswith("api::SyntaxNode"):
                return rnd.choice([x for x in ns if not x.tok])
            if n.endswith("::SyntaxToken"):
                c = [x for x in ns if x.tok]
                if not c:
                    raise Bad()
                return rnd.choice(c)
            if n in ("core::option::Option",):
                return NIL if rnd.random() < 0.3 else SOME(self.choose(t[2][0], rnd, root))
            if n.endswith("TextRange"):
                a, b = sorted((rnd.randrange(0, root.end + 2), rnd.randrange(0, root.end + 2)))
                if rnd.random() < 0.5:
                    x = rnd.choice(ns)
                    a, b = x.start, x.end
                return V(0, a, b)
            if n.endswith("TextSize"):
                return rnd.randrange(0, root.end + 2)
            if n == "alloc::vec::Vec":
                return tuple(self.choose(t[2][0], rnd, root) for _ in range(rnd.choice((0, 1, 1, 2, 3))))
            if n.startswith("rowan::green::") and n.rsplit("::", 1)[-1] in ("GreenNode", "GreenToken", "GreenNodeData", "GreenTokenData") or n in ("rowan::cow_mut::CowMut", "core::fmt::Formatter"):
                return self.opaque(n)
            a = self.P.adts.get(n)
            if a and len(a["fields"]) >= 1 and n.startswith(("rowan::cursor", "rowan::utility", "rowan::ast", "core::ops::range", "rowan::api", "rowan::syntax_text", "rowan::green::SyntaxKind", "rowan::green::builder")):
                if n == NOT:
                    i = rnd.randrange(2)
                    ty = t[2][i]
                    return V(i, self.choose(ty, rnd, root))
                i = rnd.randrange(len(a["fields"]))
                env = dict(zip(generics(a), t[2]))
                fs = [f[1] for f in a["fields"][i]]
                if n in self.P.transparent:
                    return self.choose(tsubst(fs[self.P.transparent[n]], env), rnd, root)
                r = V(i, *(self.choose(tsubst(f, env), rnd, root) for f in fs))
                return self.valid(n, r, [f[0] for f in a["fields"][i]], rnd)
        if k in ("param", "alias", "other"):
            if k == "alias" and "Kind" in str(t):
                return U("rowan::api::Language::kind_from_raw", V(0, rnd.choice((1, 2, 3, 5, 6))))
            return self.opaque(str(t[1]))
        raise Unknown(f"type {t}")

    def opaque(self, n):
        self.count += 1
        return U("param", f"{n}#{self.count}")

    def valid(self, n, v, names, rnd):
        """states of iterators and builders that can arise"""
        if n.endswith("GreenNodeBuilder"):
            return self.builder(v, names)
        if "start" in names and "next" in names and n.endswith(("Preorder", "PreorderWithTokens")):
            x = v[2][names.index("next")]
            if isinstance(x, tuple) and x[1] == 1:
                x = x[2][0][2][0]
                x = x if isinstance(x, N) else x[2][0]
                up = []
                while x is not None:
                    up.append(x)
                    x = x.parent
                f = list(v[2])
                y = rnd.choice([y for y in up if not y.tok])
                f[names.index("start")] = V(0, y) if n.endswith("WithTokens") else y
                return V(v[1], *f)
        if "parent" in names and "next" in names:
            x = v[2][names.index("next")]
            if isinstance(x, tuple) and x[1] == 1:
                x = x[2][0]
                x = x if isinstance(x, N) else x[2][0]
                if x.parent is None:
                    raise Bad()
                f = list(v[2])
                f[names.index("parent")] = x.parent
                return V(v[1], *f)
        return v

    def builder(self, v, names):
        """the parents' positions lie within the children, in order"""
        f = list(v[2])
        p, c = names.index("parents"), names.index("children")
        n = len(f[c])
        ix = sorted(x[2][1] % (n + 1) for x in f[p])
        f[p] = tuple(V(0, x[2][0], i) for x, i in zip(f[p], ix))
        return V(v[1], *f)

    def values(self, types, rnd, root):
        params = {}
        self.count = 0
        for n, t in types.items():
            try:
                params[n] = self.choose(t, rnd, root)
            except Unknown:
                pass
            except Bad:
                return None
        if "tnode" in types and "start" in params:
            x = params["tnode"]
            a, b = sorted((rnd.randrange(x.start, x.end + 1), rnd.randrange(x.start, x.end + 1)))
            params["start"], params["end"] = a, b
        if "unode" in types and "ostart" in params:
            x = params["unode"]
            a, b = sorted((rnd.randrange(x.start, x.end + 1), rnd.randrange(x.start, x.end + 1)))
            params["ostart"], params["oend"] = a, b
        return params


TRACE = None
LARGE = 250, 1 << 24


def shift(ps):
    """how much less the large constants of these paths (bounds of counts, say) are in the models"""
    cs = set()

    def at(t):
        for y in subterms(t):
            if y.op in ("i", "lin") and isinstance(y.a[0], int) and LARGE[0] <= abs(y.a[0]) <= LARGE[1]:
                cs.add(abs(y.a[0]))

    def events(st):
        for a, _ in st.facts.log:
            at(a)
        for e in st.events():
            if e[0] == "loop":
                for b in e[1].backs:
                    for a, _ in b.facts.log:
                        at(a)

    for p in ps:
        events(p.st)
        if p.val is not None:
            at(p.val)
    return min(cs) - 3 if cs else 0


def differ(inputs, types, p, q, tries=3000, seed=7, seconds=4.0):
    """a model in which both paths are taken and do something different: True, with the values of the inputs.
    False: both are taken in some models, but do the same; None: no model found, or not evaluable"""
    rnd = random.Random(seed)
    held = 0
    unknown = None
    scale = shift([p, q])
    t0 = time.time()
    for i in range(tries):
        if time.time() - t0 > seconds:
            break
        root = inputs.trees[(0, 1, 0, 4, 2, 1, 3)[i % 7]]
        params = inputs.values(types, rnd, root)
        if params is None:
            continue
        try:
            m = Model(params, rnd, scale)
            r = Run(m)
            for v, ev in r.path(p):
                m.memo = {}
                for w, ev2 in Run(m).path(q):
                    held += 1
                    if p.kind != q.kind or apart(v, w) or differing(ev, ev2):
                        return True, f"{show_params(params)}: {p.kind} {v!r:.80} / {q.kind} {w!r:.80}"
                    break
                break
            if held > 60:
                return False, None
        except Bad:
            continue
        except (Unknown, RecursionError) as e:
            unknown = f"{type(e).__name__} {e}"
            if not held and i > 300:
                break
    if held:
        return False, None
    return None, unknown


def TRACE_TOP():
    return sorted(((n, str(k)[:160]) for k, n in TRACE.items() if isinstance(k, str)), reverse=True)[:5]


def differ_any(inputs, types, ps, qs, tries=100000, seed=11, seconds=12.0):
    """the same for all the paths of both: a model in which a path of the one and a path of the other are taken and differ.
    (found or None, path of the one, number of models in which paths of both were taken)"""
    rnd = random.Random(seed)
    held, t0 = 0, time.time()
    scale = shift(ps + qs)
    order = list(range(len(ps)))
    hits = [0] * len(ps)
    for i in range(tries):
        if time.time() - t0 > seconds:
            break
        root = inputs.trees[(0, 1, 0, 4, 2, 1, 3)[i % 7]]
        params = inputs.values(types, rnd, root)
        if params is None:
            continue
        rnd.shuffle(order)
        order.sort(key=lambda k: hits[k] > 20)
        for k in order[:40]:
            p = ps[k]
            try:
                m = Model(params, rnd, scale)
                for v, ev in Run(m).path(p):
                    m.memo = {}
                    keep = dict(m.num), dict(m.p)
                    got = False
                    qo = list(qs)
                    rnd.shuffle(qo)
                    for q in qo:
                        try:
                            for w, ev2 in Run(m).path(q):
                                got = True
                                held += 1
                                hits[k] += 1
                                if q.kind != "free" and (p.kind != q.kind or apart(v, w) or differing(ev, ev2)):
                                    more = f", events {ev!r:.160} / {ev2!r:.160}" if differing(ev, ev2) else ""
                                    return f"{show_params(params)}: {p.kind} {v!r:.80} / {q.kind} {w!r:.80}{more}", k, held
                                break
                        except Bad:
                            pass
                        m.num, m.p, m.memo = dict(keep[0]), dict(keep[1]), {}
                        if got:
                            break
                    break
            except (Bad, Unknown, RecursionError) as e:
                if TRACE is not None and not isinstance(e, Bad):
                    TRACE[str(e)] = TRACE.get(str(e), 0) + 1
                continue
    if TRACE is not None:
        print(held, hits, TRACE_TOP())
    return None, None, held


def differing(a, b):
    if len(a) != len(b):
        return True
    return any(x[0] != y[0] or apart(x[1], y[1]) or apart(x[2], y[2]) for x, y in zip(a, b))


def show_params(p):
    return ", ".join(f"{k}={v!r}" for k, v in p.items() if isinstance(k, str))[:160]
