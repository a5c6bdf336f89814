"""Path-sensitive interprocedural dataflow over MIR in the provenance domain of terms.py.

Every path of a function is followed with abstract values (where did this value come from), callees
are expanded through their bodies, loops are summarised by a fixpoint (loop-carried values become
phi terms with an initial and a next value), branch conditions are recorded as facts.  Nothing is
executed and no solver is asked: a path is dropped only when it assumes a condition both ways.
"""
import sys
from terms import *
from terms import _form
from program import tsubst, unify, MODEL_OF

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class St:
    __slots__ = ("mem", "facts", "ev")

    def __init__(self):
        self.mem, self.facts, self.ev = {}, Facts(), None

    def fork(self):
        s = St()
        s.mem, s.facts, s.ev = dict(self.mem), self.facts, self.ev
        return s

    def event(self, *e):
        self.ev = (self.ev, e)

    def events(self, upto=None):
        r, e = [], self.ev
        while e is not None and e is not upto:
            r.append(e[1])
            e = e[0]
        r.reverse()
        return r

    def assume(self, p, v=True):
        """this state restricted to p == v, or None"""
        f = self.facts.assume(p, v)
        if f is None:
            return None
        if f is self.facts:
            return self
        s = self.fork()
        s.facts = f
        return s


class Loop:
    pass


class Out:
    __slots__ = ("kind", "val", "st", "why")

    def __init__(self, kind, val, st, why=None):
        self.kind, self.val, self.st, self.why = kind, val, st, why

    def __repr__(self):
        return f"<{self.kind} {self.val} {self.why or ''}>"


UNWINDING = mk("unwinding")
NULL = mk("null")
ALIAS = ("param", "alias", "other")


def loc(depth, l):
    return mk("loc", depth, l)


def addr(region, path, meta=None):
    if not path and region.op == "at":
        p = region.a[0]
    else:
        p = mk("addr", region, path)
    return fat(p, meta)


def fat(p, meta):
    if meta is None:
        return p
    if p.op == "fat":
        p = p.a[0]
    if meta is slen(p):
        return p
    return mk("fat", p, meta)


def slen(p):
    """length of the slice p points to"""
    if p.op == "fat":
        return p.a[1]
    if p.op == "subsl":
        return sub(p.a[2], p.a[1])
    if p.op == "addr" and p.a[0].op == "at":
        return mk("slen", p.a[0].a[0])
    return mk("slen", p)


def thin(p):
    return p.a[0] if p.op == "fat" else p


def target(p):
    """(region, path, meta) a pointer points to"""
    meta = None
    if p.op == "fat":
        p, meta = p.a[0], p.a[1]
    if p.op == "addr":
        return p.a[0], p.a[1], meta
    return mk("at", p), (), meta


def unsized(t):
    if t is None:
        return False
    if t[0] == "slice" or t == ("prim", "str"):
        return True
    if t[0] == "adt":
        return any(x and unsized(x) for x in t[2][-1:])
    return False


def pelem(s, i):
    """pointer to element i of the slice s points to"""
    if s.op == "subsl":
        return pelem(s.a[0], add(s.a[1], i))
    r, p, _ = target(s)
    return addr(r, p + (("x", i),))


def cfg_loops(body):
    """natural loops: header -> set of blocks"""
    if body.loops is not None:
        return body.loops
    succ = []
    for b in body.blocks:
        t = b["t"]
        k = t["k"]
        if k == "switch":
            s = [x[1] for x in t["arms"]] + [t["else"]]
        else:
            s = [t[x] for x in ("t",) if t.get(x) is not None] if k in ("goto", "drop", "call", "assert") else []
        succ.append(s)
    n = len(succ)
    order, state = [], [0] * n
    stack = [(0, iter(succ[0]))]
    state[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if not state[s]:
                state[s] = 1
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = {b: i for i, b in enumerate(reversed(order))}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            preds[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in sorted(rpo, key=rpo.get):
            if b == 0:
                continue
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while rpo[x] > rpo[y]:
                                x = idom[x]
                            while rpo[y] > rpo[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True
    loops = {}
    for b in rpo:
        for s in succ[b]:
            x = b
            while x != s and x != 0:
                x = idom[x]
            if x == s:
                body_ = loops.setdefault(s, {s})
                w = [b]
                while w:
                    y = w.pop()
                    if y not in body_:
                        body_.add(y)
                        w.extend(preds[y])
    body.loops = loops
    return loops


class Engine:
    def __init__(self, prog, atoms=None, assume=None, budget=150000, unwind=False, overflow=False):
        self.prog = prog
        self.atoms = atoms or {}
        self.field_assume = assume or {}
        self.budget = budget
        self.steps = 0
        self.envs = {}
        self.stack = []
        self.unwind = unwind
        self.frames = []  # the calls under way: (frame, call terminator)
        self.asking = []  # with unwind: the states in which code of the caller is called
        self.overflow = overflow
        self.consts = {}
        self.visited = set()
        self.calls = set()
        self.undef_reads = 0
        self.unroll = 0
        self.known_variant = None
        import intrinsics

        self.intr = intrinsics.TABLE
        self.intr_prefix = intrinsics.PREFIX
        for p, ad in prog.adts.items():
            if ad["kind"] == "struct" or True:
                for var in ad["fields"]:
                    for i, (n, t) in enumerate(var):
                        if t and t[0] == "prim" and t[1] in ("isize", "i8", "i16", "i32", "i64"):
                            LOW[(p, i)] = None

    # ------------------------------------------------------------ values
    def project(self, v, step):
        k = step[0]
        if k == "f":
            _, i, adt, n = step
            if v.op == "agg" and i < len(v.a[2]):
                return v.a[2][i]
            if v is UNDEF:
                return UNDEF
            fa = self.field_assume.get((adt, i))
            if fa is not None and v.op == "ini":
                return fa
            return fld(v, None, i, adt, n)
        if k == "v":
            _, var, i, adt, n = step
            if v.op == "agg" and v.a[1] == var and i < len(v.a[2]):
                return v.a[2][i]
            if v is UNDEF:
                return UNDEF
            return fld(v, var, i, adt, n)
        if k == "x":
            if v.op == "agg" and step[1].op == "i":
                j = step[1].a[0]
                if 0 <= j < len(v.a[2]):
                    return v.a[2][j]
            if v.op == "upd":
                d = eqi(v.a[1], step[1])
                if d.op == "i":
                    return v.a[2] if d.a[0] else self.project(v.a[0], step)
            if v.op == "seq":
                r = seq_get(v, step[1])
                if r is not None:
                    return r
            return mk("elem", v, step[1])
        raise Undecided("projection " + str(step))

    def default(self, region):
        if region.op == "at":
            return mk("ini", region.a[0])
        return UNDEF

    def content(self, st, region):
        v = st.mem.get(region)
        if v is None:
            if region.op == "prom":
                return self.promoted(st, region)
            v = self.default(region)
        return v

    def read(self, st, region, path):
        v = self.content(st, region)
        for s in path:
            v = self.project(v, s)
        return v

    def load(self, st, p):
        """*p"""
        if p.op == "fat":
            p = p.a[0]
        r, path, _ = target(p)
        return self.read(st, r, path)

    def upd(self, v, path, val):
        if not path:
            return val
        s = path[0]
        if s[0] == "x":
            if v.op == "agg" and s[1].op == "i" and 0 <= s[1].a[0] < len(v.a[2]):
                f = list(v.a[2])
                f[s[1].a[0]] = self.upd(f[s[1].a[0]], path[1:], val)
                return agg(v.a[0], v.a[1], f)
            old = self.project(v, s)
            return mk("upd", v, s[1], self.upd(old, path[1:], val))
        if s[0] == "f":
            _, i, adt, n = s
            var = v.a[1] if v.op == "agg" else 0
            pre = "f"
        else:
            _, var, i, adt, n = s
            pre = "v"
        if v.op == "agg" and len(v.a[2]) == n and v.a[1] == var:
            f = list(v.a[2])
        elif v is UNDEF:
            f = [UNDEF] * n
        else:
            f = [self.project(v, ("f", j, adt, n) if pre == "f" else ("v", var, j, adt, n)) for j in range(n)]
        f[i] = self.upd(f[i], path[1:], val)
        return agg(adt, var, f)

    def write(self, st, region, path, val):
        if path:
            val = self.upd(self.content(st, region), path, val)
        st.mem[region] = val

    def store(self, st, p, val):
        r, path, _ = target(p)
        self.write(st, r, path, val)

    def promoted(self, st, region):
        key = region.a[0]
        if key in self.consts:
            return self.consts[key]
        b = self.prog.promoted.get(key) or self.prog.bodies.get(key)
        r = None
        if b is not None:
            s = St()
            try:
                outs = self.run(b, {}, [], s, 40, keep=True)
                if len(outs) == 1 and outs[0].kind == "ret":
                    r = self.freeze(outs[0].val, outs[0].st, key)
            except Undecided:
                r = None
        if r is None:
            r = mk("const", key)
        self.consts[key] = r
        return r

    def freeze(self, v, st, key):
        """a constant's value, with the memory it points to attached as constant regions"""
        m = {}

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, T):
                return x
            if x.op == "addr" and x.a[0].op in ("loc", "heap"):
                k = f"{key}@{x.a[0].id}"
                if k not in self.consts:
                    self.consts[k] = UNDEF
                    self.consts[k] = go(self.content(st, x.a[0]))
                return addr(mk("prom", k), go(x.a[1]))
            if x.op in ("agg",):
                return agg(x.a[0], x.a[1], go(x.a[2]))
            if x.op == "fat":
                return fat(go(x.a[0]), x.a[1])
            return x

        return go(v)

    def discr(self, st, v, adt):
        n = len(self.prog.adts[adt]["variants"]) if adt in self.prog.adts else {OPTION: 2, RESULT: 2, ORDERING: 3}.get(adt)
        if v.op == "agg":
            return Int(v.a[1])
        if v.op == "cmp3":  # three-way comparison of two integers
            return mk("discr", v, 2)
        if v is UNDEF:
            raise Undecided("discriminant of a moved value")
        if self.known_variant is not None and v.op == "fld":
            k = self.known_variant(v, adt)
            if k is not None:
                return Int(k)
        return mk("discr", v, (n or 1 << 30) - 1)

    def norm(self, st, v):
        """replace enums whose variant the path knows by that variant"""
        if v.op == "agg":
            return agg(v.a[0], v.a[1], [self.norm(st, x) for x in v.a[2]])
        return v

    def variants(self, st, v, adt):
        """[(variant, state)] for the feasible variants of v"""
        d = self.discr(st, v, adt)
        k = st.facts.value(d)
        if k is not None:
            return [(k, st)]
        n = len(self.prog.adts[adt]["variants"]) if adt in self.prog.adts else 2
        r = []
        for i in range(n):
            s = st.assume(eqi(d, Int(i)))
            if s is not None:
                r.append((i, s))
        return r

    # ------------------------------------------------------------ frames
    def ty(self, fr, i):
        return tsubst(fr.b.tys[i], fr.env) if i is not None else None

    def nf(self, t, adt, variant):
        if adt is not None:
            n = self.prog.nfields(adt, variant)
            if n is not None:
                return n
        if t:
            if t[0] == "tuple":
                return len(t[1])
            if t[0] == "closure":
                return len(t[2])
        if adt == OPTION or adt == RESULT:
            return 1
        if adt == "core::ops::range::Range":
            return 2
        return None

    def place(self, st, fr, p):
        region, path, meta = loc(fr.d, p["l"]), (), None
        proj = p.get("p") or ()
        t = self.ty(fr, fr.b.locals[p["l"]]["t"])
        var = None
        for x in proj:
            k = x["k"]
            if k == "deref":
                v = self.read(st, region, path)
                if v is UNDEF:
                    raise Undecided(f"deref of undefined value in {fr.b.name}")
                region, path, meta = target(v)
                if v.op == "subsl":
                    region, path, meta = mk("at", v), (), None
                t = t[2] if t and t[0] in ("ref", "ptr") else t[2][0] if t and t[0] == "adt" and t[2] else None
                var = None
            elif k == "f":
                i = x["i"]
                ft = self.ty(fr, x["t"])
                ad = x.get("adt")
                ad = self.prog_adt(ad)
                if ad in self.prog.transparent and var is None:
                    if self.prog.transparent[ad] != i:
                        if unsized(ft) or True:
                            region, path, meta = mk("zst"), (), None
                    t = ft
                    continue
                n = self.nf(t, ad, var)
                if n is None:
                    n = i + 1 if ad is None else None
                if n is None:
                    raise Undecided(f"field of unknown type {ad}")
                name = ad or ("{closure}" if t and t[0] == "closure" else "(tuple)")
                if var is not None and not (ad and self.is_struct(ad)):
                    path = path + (("v", var, i, name, n),)
                else:
                    path = path + (("f", i, name, n),)
                if region.op == "at" and region.a[0].op == "cont" and len(path) == 1 and path[0][0] == "f":
                    off = region.a[0].a[1]
                    if off.a == (path[0][2], i):
                        region, path = mk("at", region.a[0].a[0]), ()
                if not unsized(ft):
                    meta = None
                t, var = ft, None
            elif k == "d":
                var = x["v"]
            elif k == "i":
                idx = self.read(st, loc(fr.d, x["l"]), ())
                path = path + (("x", idx),)
                t = t[1] if t and t[0] in ("slice", "array") else None
                meta = None
            elif k == "ci":
                if x["e"]:
                    raise Undecided("index from end")
                path = path + (("x", Int(x["o"])),)
                t = t[1] if t and t[0] in ("slice", "array") else None
                meta = None
            else:
                raise Undecided("place " + k)
        return region, path, meta, t

    def prog_adt(self, ad):
        from program import ADT_MAP

        return ADT_MAP.get(ad, ad)

    def is_struct(self, ad):
        a = self.prog.adts.get(ad)
        return a is not None and a["kind"] != "enum"

    def get(self, st, fr, p):
        region, path, meta, t = self.place(st, fr, p)
        if region.op == "zst":
            return UNIT
        return self.read(st, region, path)

    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("copy", "move"):
            region, path, meta, t = self.place(st, fr, o["p"])
            if region.op == "zst":
                return UNIT
            v = self.read(st, region, path)
            if k == "move" and region.op == "loc":
                self.write(st, region, path, UNDEF)
            return v
        if k == "const":
            return self.const(st, fr, o)
        if k == "rtcheck":
            return ZERO
        raise Undecided("operand " + k)

    def opty(self, fr, o):
        if o["k"] in ("copy", "move"):
            return self.ty(fr, o["p"]["t"])
        if o["k"] == "const":
            return self.ty(fr, o["t"])
        return ("prim", "bool")

    def const(self, st, fr, o):
        t = self.ty(fr, o["t"])
        v = o["v"]
        if isinstance(v, int) and t[0] == "prim":
            if t[1] in ("isize", "i64") and v >= 1 << 63:
                v -= 1 << 64
            elif t[1] == "i32" and v >= 1 << 31:
                v -= 1 << 32
            return Int(v)
        if t[0] == "fndef":
            return mk("fn", t[1], t[2], t[3])
        if o["s"] is not None:
            return mk("str", o["s"])
        d = o["def"]
        if d is not None:
            if d in self.prog.promoted:
                v = self.promoted(st, mk("prom", d))
                return v
            if d in self.prog.bodies:
                return self.promoted(st, mk("prom", d))
            return mk("const", d)
        if t == ("tuple", ()) or t[0] == "closure" and not t[2]:
            return self.closure(t[1], t[3] or (), ()) if t[0] == "closure" else UNIT
        if t[0] == "adt":
            a = self.prog.adts.get(t[1])
            if a and a["kind"] != "enum" and not any(a["fields"]):
                return agg(t[1], 0, ())
            if t[1] == "core::marker::PhantomData":
                return UNIT
        if v is not None:
            m = str(v)
            if t[0] == "adt" and t[1] in self.prog.adts:
                a = self.prog.adts[t[1]]
                try:
                    n = int(m, 16) if m.startswith("0x") else int(m)
                    fs = a["fields"]
                    if a["kind"] == "enum":
                        if all(not f for f in fs):
                            if t[1] == ORDERING:
                                n = (n + 1) & 255
                            return agg(t[1], n, ())
                    elif len(fs[0]) == 1:
                        return Int(n) if t[1] in self.prog.transparent else agg(t[1], 0, (Int(n),))
                except ValueError:
                    pass
            return mk("const", t[1] if len(t) > 1 and isinstance(t[1], str) else str(t), m)
        return mk("const", str(t))

    def closure(self, key, env, fs):
        env = dict(env)
        eid = repr(sorted(env.items()))
        name = "{closure}" + key + "@" + str(hash(eid))
        self.envs[name] = (key, env)
        return agg(name, 0, fs)

    def rvalue(self, st, fr, r):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k in ("ref", "rawptr"):
            region, path, meta, t = self.place(st, fr, r["p"])
            if region.op == "zst":
                return addr(region, ())
            return addr(region, path, meta)
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "bin":
            a = self.operand(st, fr, r["a"])
            b = self.operand(st, fr, r["b"])
            return self.bin(r["op"], a, b, self.opty(fr, r["a"]))
        if k == "un":
            v = self.operand(st, fr, r["o"])
            if r["op"] == "Not":
                t = self.opty(fr, r["o"])
                if t == ("prim", "bool"):
                    return neg(v)
                return mk("ap", "bitnot", (v,))
            if r["op"] == "Neg":
                return sub(ZERO, v)
            if r["op"] == "PtrMetadata":
                return slen(v)
            return mk("ap", "un" + r["op"], (v,))
        if k == "discr":
            region, path, meta, t = self.place(st, fr, r["p"])
            v = self.read(st, region, path)
            if t and t[0] == "adt":
                return self.discr(st, v, t[1])
            return mk("discr", v, 1 << 30)
        if k == "agg":
            fs = [self.operand(st, fr, o) for o in r["fs"]]
            ak = r["ak"]
            if ak == "adt":
                p = self.prog_adt(r["p"])
                if p in self.prog.transparent:
                    return fs[self.prog.transparent[p]]
                if p == "core::marker::PhantomData":
                    return UNIT
                return agg(p, r["v"], fs)
            if ak == "tuple":
                return agg("(tuple)", 0, fs)
            if ak == "array":
                return agg("#arr", 0, fs)
            if ak == "closure":
                return self.closure(r["key"], fr.env, fs)
            if ak == "rawptr":
                return fat(fs[0], fs[1])
            raise Undecided("aggregate " + ak)
        if k == "repeat":
            v = self.operand(st, fr, r["o"])
            return mk("ap", "repeat", (v, r["n"]))
        raise Undecided("rvalue " + k)

    def cast(self, st, fr, r):
        v = self.operand(st, fr, r["o"])
        ck = r["ck"]
        to, frm = self.ty(fr, r["t"]), self.ty(fr, r["from"])
        if ck == "IntToInt":
            w = {"u8": 8, "u16": 16, "i8": 8, "i16": 16}.get(to[1] if to[0] == "prim" else None)
            wf = {"u8": 8, "u16": 16, "bool": 1, "i8": 8, "i16": 16}.get(frm[1] if frm[0] == "prim" else None, 64)
            if w and wf > w and v.op != "i":
                return mk("ap", "trunc", (v, Int(w)))
            return v
        if "Unsize" in ck:
            if frm[0] in ("ref", "ptr") and frm[2] and frm[2][0] == "array" and frm[2][2] is not None and to[2] and to[2][0] == "slice":
                return fat(v, Int(frm[2][2]))
            return v
        if ck == "PtrToPtr" and to[0] in ("ptr", "ref") and not unsized(to[2]):
            return thin(v)
        if ck == "PointerExposeProvenance":
            return mk("ap", "ptrint", (v,))
        return v

    def ptreq(self, a, b):
        a, b = thin(a), thin(b)
        if a is b:
            return ONE

        def obj(x):
            return x.op == "null" or x.op == "addr" and x.a[0].op in ("heap", "loc", "prom")

        if obj(a) and obj(b):
            if a.op == "addr" and b.op == "addr" and a.a[0] is b.a[0]:
                return ZERO if a.a[1] != b.a[1] else ONE
            return ZERO
        for x, y in ((a, b), (b, a)):
            if x.op == "addr" and x.a[0].op in ("heap", "loc") and y.op != "phi" and maxuid(y) < (x.a[0].a[0] if x.a[0].op == "heap" else 0):
                return ZERO
            if x.op == "null" and y.op == "addr":
                return ZERO
        if a.id > b.id:
            a, b = b, a
        return mk("ptreq", a, b)

    def bin(self, op, a, b, t):
        k = t[0] if t else None
        if op in ("Eq", "Ne"):
            if k in ("ptr", "ref", "fnptr") or a.op in ("null", "addr", "fat") or b.op in ("null", "addr", "fat"):
                r = self.ptreq(a, b)
            elif t == ("prim", "bool"):
                if b.op == "i":
                    r = a if b.a[0] else neg(a)
                elif a.op == "i":
                    r = b if a.a[0] else neg(b)
                elif a is b:
                    r = ONE
                else:
                    r = mk("beq", *sorted((a, b), key=lambda x: x.id))
            else:
                r = eqi(a, b)
            return r if op == "Eq" else neg(r)
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op == "AddWithOverflow":
            return agg("(tuple)", 0, (add(a, b), ZERO))
        if op == "MulWithOverflow":
            return agg("(tuple)", 0, (mul(a, b), ZERO))
        if op == "SubWithOverflow":
            sg = t and t[0] == "prim" and t[1].startswith("i")
            return agg("(tuple)", 0, (sub(a, b), ZERO if sg else lt(a, b)))
        if op in ("BitAnd", "BitOr", "BitXor") and t == ("prim", "bool"):
            if op == "BitXor":
                return neg(self.bin("Eq", a, b, t))
            z = op == "BitAnd"
            for x, y in ((a, b), (b, a)):
                if x.op == "i":
                    return (y if x.a[0] else ZERO) if z else (ONE if x.a[0] else y)
            if a is b:
                return a
            return mk("and" if z else "or", a, b)
        return mk("ap", "bin" + op, (a, b))

    # ------------------------------------------------------------ running
    def branch(self, st, cond):
        """[(bool, state)]"""
        d = st.facts.decide(cond)
        if d is not None:
            return [(d, st)]
        r = []
        for v in (True, False):
            f = st.facts.assume(cond, v)
            if f is not None:
                s = st.fork()
                s.facts = f
                r.append((v, s))
        return r

    def run(self, body, env, args, st, depth, keep=False):
        """all outcomes of calling body with args"""
        if depth > 60:
            raise Undecided("call depth")
        self.visited.add(body.key)
        fr = Loop()
        fr.b, fr.env, fr.d = body, env, depth
        for i, a in enumerate(args):
            st.mem[loc(depth, i + 1)] = a
        self.stack.append(body.key)
        try:
            outs, exits, backs = self.exec(fr, 0, st, None, None)
        finally:
            self.stack.pop()
        for o in outs:
            if o.kind == "ret":
                o.val = self.read(o.st, loc(depth, 0), ())
            if not keep:
                self.kill(o.st, body, depth)
        return outs

    def kill(self, st, body, depth):
        for l in range(len(body.locals)):
            st.mem.pop(loc(depth, l), None)
        for l in range(-1, -12, -1):
            if st.mem.pop(loc(depth, l), None) is None:
                break

    def exec(self, fr, start, st, within, header):
        outs, exits, backs = [], [], []
        loops = cfg_loops(fr.b)
        work = [(start, st)]
        first = True
        while work:
            b, s = work.pop()
            if not first or within is None:
                if header is not None and b == header:
                    backs.append(s)
                    continue
                if within is not None and b not in within:
                    exits.append((b, s))
                    continue
                if b in loops:
                    o, ex = self.loop(fr, b, loops[b], s)
                    outs += o
                    for x in ex:
                        work.append(x)
                    continue
            first = False
            self.steps += 1
            if self.steps > self.budget:
                raise Undecided("path budget exceeded")
            for nb, ns in self.block(fr, b, s, outs):
                work.append((nb, ns))
        return outs, exits, backs

    def block(self, fr, b, st, outs):
        """one block; returns [(next block, state)], appends outcomes to outs"""
        blk = fr.b.blocks[b]
        for s in blk["s"]:
            k = s["k"]
            if k == "=":
                v = self.rvalue(st, fr, s["r"])
                region, path, meta, t = self.place(st, fr, s["p"])
                if region.op != "zst":
                    self.assign(st, fr, region, path, v, s)
            elif k == "dead":
                st.mem.pop(loc(fr.d, s["l"]), None)
            elif k == "setd":
                region, path, meta, t = self.place(st, fr, s["p"])
                if t and t[0] == "adt" and self.nf(t, t[1], s["v"]) == 0:
                    self.write(st, region, path, agg(t[1], s["v"], ()))
                else:
                    cur = self.read(st, region, path)
                    if not (cur.op == "agg" and cur.a[1] == s["v"]):
                        raise Undecided("set discriminant")
            elif k == "intr":
                pass
            else:
                raise Undecided("statement " + k)
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "ret":
            outs.append(Out("ret", None, st))
            return []
        if k == "unreachable":
            return []
        if k in ("resume", "terminate"):
            why = st.mem.get(UNWINDING)
            outs.append(Out("panic", None, st, None if why is None else ("caller", *why.a)))
            return []
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "assert":
            v = self.operand(st, fr, t["o"])
            r = []
            for c, s in self.branch(st, v):
                if c == t["e"]:
                    r.append((t["t"], s))
                else:
                    outs.append(Out("panic", None, s, (t["n"], t["sp"])))
            return r
        if k == "drop":
            region, path, meta, ty = self.place(st, fr, t["p"])
            r = []
            for o in self.drop(st, region, path, ty, fr.d + 1, t["sp"]):
                if o.kind == "ret":
                    if region.op == "loc":
                        self.write(o.st, region, path, UNDEF)
                    r.append((t["t"], o.st))
                else:
                    outs.append(o)
            return r
        if k == "call":
            args = [self.operand(st, fr, a) for a in t["args"]]
            atys = [self.opty(fr, a) for a in t["args"]]
            dreg, dpath, dmeta, dty = self.place(st, fr, t["d"])
            r = []
            self.frames.append((fr, t))
            try:
                res = self.call(st, fr, t["f"], args, atys, dty, t["sp"])
            finally:
                self.frames.pop()
            for o in res:
                if o.kind == "ret":
                    if t["t"] is None:
                        continue
                    if dreg.op != "zst":
                        self.write(o.st, dreg, dpath, o.val)
                    r.append((t["t"], o.st))
                elif self.unwind and o.kind == "panic" and o.why and o.why[0] == "caller" and t["u"] is not None:
                    # the caller's code panicked: what this function has is dropped
                    o.st.mem[UNWINDING] = mk("why", *o.why[1:])
                    r.append((t["u"], o.st))
                else:
                    outs.append(o)
            return r
        raise Undecided("terminator " + k)

    def assign(self, st, fr, region, path, v, s):
        self.write(st, region, path, v)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t["o"])
        ty = self.ty(fr, t["ty"])
        r = []
        if ty == ("prim", "bool"):
            arms = {a[0]: a[1] for a in t["arms"]}
            for c, s in self.branch(st, v):
                r.append((arms.get(int(c), t["else"]), s))
            return r
        conv = (lambda x: (x + 1) & 255) if ty == ("prim", "i8") else (lambda x: x)
        k = st.facts.value(v)
        if k is not None:
            for x, bb in t["arms"]:
                if conv(x) == k:
                    return [(bb, st)]
            return [(t["else"], st)]
        rest = st
        for x, bb in t["arms"]:
            if rest is None:
                break
            c = self.discr_is(v, conv(x))
            s = rest.assume(c)
            if s is not None:
                r.append((bb, s.fork() if s is rest else s))
            rest = rest.assume(c, False)
        if rest is not None:
            d = self.discr_rest(rest, v, [conv(x) for x, _ in t["arms"]])
            if d is not None:
                r.append((t["else"], d))
        return r

    def discr_is(self, v, k):
        if v.op == "discr" and v.a[0].op == "cmp3":
            a, b = v.a[0].a
            return lt(a, b) if k == 0 else eqi(a, b) if k == 1 else lt(b, a)
        return eqi(v, Int(k))

    def discr_rest(self, st, v, ks):
        if v.op == "discr" and v.a[0].op == "cmp3":
            left = [k for k in (0, 1, 2) if k not in ks]
            if not left:
                return None
            if len(left) == 1:
                return st.assume(self.discr_is(v, left[0]))
        return st

    # ------------------------------------------------------------ loops
    def loop(self, fr, h, blocks, st):
        peels = 0
        pouts, pexits = [], []
        entries = [st]
        base = uid()
        if self.unroll:
            r = self.unrolled(fr, h, blocks, st)
            if r is not None:
                return r
        while peels < 2:
            nxt, changed = [], False
            for e in entries:
                p = self.peel(fr, h, blocks, e)
                if p is None:
                    nxt.append(e)
                else:
                    o, ex, backs = p
                    pouts += o
                    pexits += ex
                    nxt += backs
                    changed = True
            entries = nxt
            if not changed:
                break
            peels += 1
        for e in entries:
            o, ex = self.fixloop(fr, h, blocks, e)
            pouts += o
            pexits += ex
        return pouts, pexits

    def unrolled(self, fr, h, blocks, st):
        """the loop round by round, if it ends within self.unroll rounds"""
        todo, outs, exits = [st], [], []
        for _ in range(self.unroll):
            nxt = []
            for s in todo:
                o, ex, backs = self.dry(fr, h, blocks, s)
                outs += o
                exits += ex
                nxt += backs
            if not nxt:
                return outs, exits
            if len(nxt) > 4:
                return None
            todo = nxt
        return None

    def dry(self, fr, h, blocks, st):
        return self.exec(fr, h, st.fork(), blocks, h)

    def peel(self, fr, h, blocks, st):
        outs, exits, backs = self.dry(fr, h, blocks, st)
        if not backs:
            return outs, exits, []
        cands = None
        for b in backs:
            c = {}
            for region, path, old, new in self.diffs(fr, st, b):
                if new is not UNDEF and old is not UNDEF and (new.op == "i" or new.op == "agg" and not new.a[2]):
                    c[(region, path)] = new
            cands = c if cands is None else {k: v for k, v in cands.items() if c.get(k) is v}
        if not cands:
            return None
        for b in backs:
            o2, e2, b2 = self.dry(fr, h, blocks, b)
            for x in b2:
                cands = {k: v for k, v in cands.items() if self.read(x, *k) is v}
        if not cands:
            return None
        return outs, exits, backs

    def diffs(self, fr, hst, bst):
        r = []
        for region in set(hst.mem) | set(bst.mem):
            if region.op == "loc" and region.a[0] > fr.d:
                continue
            old = hst.mem.get(region)
            new = bst.mem.get(region)
            if region.op == "heap" and old is None:
                continue
            if old is new:
                continue
            if region.op in ("at",) and old is None and self.variant(region, hst):
                continue
            old = self.default(region) if old is None else old
            new = self.default(region) if new is None else new
            self.leafdiff(region, (), old, new, r)
        return r

    def variant(self, region, hst):
        b = hst_base(hst)
        return maxuid(region) > b

    def leafdiff(self, region, path, old, new, r):
        if old is new or old is UNDEF:
            return
        if new.op == "agg" and new is not UNDEF and new.a[0] != "#arr":
            adt, var, fs = new.a
            struct = adt == "(tuple)" or adt.startswith("{closure}") or self.is_struct(adt)
            if struct and len(fs):
                n = len(fs)
                for i in range(n):
                    step = ("f", i, adt if not adt.startswith("{closure}") else adt, n)
                    self.leafdiff(region, path + (step,), self.project(old, step), fs[i], r)
                return
            if old.op == "agg" and old.a[1] == var and old.a[0] == adt and len(fs):
                n = len(fs)
                for i in range(n):
                    step = ("v", var, i, adt, n)
                    self.leafdiff(region, path + (step,), old.a[2][i], fs[i], r)
                return
        r.append((region, path, old, new))

    def fixloop(self, fr, h, blocks, st):
        base = uid()
        phis = {}
        outer = st.mem.get(BASE)
        st = st.fork()
        st.mem[BASE] = Int(base)
        undef = set()
        for _ in range(20):
            hst = st.fork()
            for (region, path), ph in phis.items():
                self.write(hst, region, path, ph)
            for region, path in undef:
                self.write(hst, region, path, UNDEF)
            self.invariants(hst, phis, st, None)
            outs, exits, backs = self.exec(fr, h, hst.fork(), blocks, h)
            new = False
            for b in backs:
                for region, path, old, nw in self.diffs(fr, hst, b):
                    if any(k[0] is region and k[1] == path[: len(k[1])] and any(x[0] == "v" for x in path[len(k[1]):]) for k in phis):
                        # the variable for the whole value covers its variants
                        continue
                    if (region, path) not in phis:
                        # a deeper phi is subsumed by one for the whole value
                        for k in [k for k in phis if k[0] is region and k[1][: len(path)] == path]:
                            del phis[k]
                        if nw is UNDEF and all(self.read(x, region, path) is UNDEF for x in backs):
                            if (region, path) not in undef:
                                undef.add((region, path))
                                new = True
                            continue
                        # all values of the unit type are the same
                        phis[(region, path)] = UNIT if old is UNIT else mk("phi", f"{fr.b.name}:{h}", uid())
                        new = True
            if not new:
                break
        else:
            raise Undecided("loop does not converge")
        # loop variables that step together are one variable
        groups = {}
        for (region, path), ph in phis.items():
            steps = []
            for b in backs:
                d = sub(self.read(b, region, path), ph)
                steps.append(d.a[0] if d.op == "i" else None)
            if backs and None not in steps and any(steps):
                groups.setdefault(tuple(steps), []).append((region, path))
        joined = False
        for g in groups.values():
            g.sort(key=lambda k: phis[k].id)
            i0 = self.read(st, *g[0])
            for k in g[1:]:
                ik = self.read(st, *k)
                if i0.op in ("agg", "undef") or ik.op in ("agg", "undef"):
                    continue
                phis[k] = add(phis[g[0]], sub(ik, i0))
                joined = True
        # final pass, with what the steps of the loop variables imply
        inv = {}
        for (region, path), ph in phis.items():
            nx = [self.read(b, region, path) for b in backs]
            init = self.read(st, region, path)
            ks = []
            for x in nx:
                if ph.op == "phi" and x.op in ("lin", "phi", "i") and init.op in ("lin", "i", "fld", "phi", "slen", "ap", "ap!", "param"):
                    d = sub(x, ph)
                    ks.append(d.a[0] if d.op == "i" else None)
                else:
                    ks.append(None)
            if ks and all(k is not None and k >= 0 for k in ks) and any(ks):
                inv[ph] = le(init, ph)
            elif ks and all(k is not None and k <= 0 for k in ks) and any(ks):
                inv[ph] = le(ph, init)
        if inv or joined:
            hst = st.fork()
            for (region, path), ph in phis.items():
                self.write(hst, region, path, ph)
            for region, path in undef:
                self.write(hst, region, path, UNDEF)
            for c in inv.values():
                s = hst.assume(c)
                if s is not None:
                    hst = s
            outs, exits, backs = self.exec(fr, h, hst.fork(), blocks, h)
        L = Loop()
        L.name, L.header = fr.b.name, h
        L.entry, L.hst, L.backs, L.base = st, hst, backs, base
        L.exits = [s for _, s in exits]
        L.outs = list(outs)
        L.phis = [(region, path, ph, self.read(st, region, path), [self.read(b, region, path) for b in backs]) for (region, path), ph in phis.items()]
        L.depth = fr.d
        L.writes = []
        for b in backs:
            for region, v in b.mem.items():
                if region.op == "at" and hst.mem.get(region) is None and maxuid(region) > base:
                    L.writes.append((region, v))
        for s in L.exits + [o.st for o in outs]:
            # the loop came before what this iteration did
            s.ev = splice(s.ev, hst.ev, ("loop", L))
            if outer is None:
                s.mem.pop(BASE, None)
            else:
                s.mem[BASE] = outer
        return outs, exits

    def invariants(self, hst, phis, st, _):
        pass

    # ------------------------------------------------------------ drops
    def needs_drop(self, t, seen=()):
        if t is None:
            return False
        k = t[0]
        if k in ("prim", "ref", "ptr", "fndef", "fnptr", "never", "const"):
            return False
        if k == "adt":
            n = t[1]
            if n in ("core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit", "core::ptr::non_null::NonNull", "core::marker::PhantomData", "countme::Count", "core::fmt::Arguments"):
                return False
            if self.drop_impl(t):
                return True
            if n in ("alloc::boxed::Box", "alloc::vec::Vec", "alloc::string::String", "hashbrown::map::HashMap"):
                return True
            if t in seen:
                return False
            a = self.prog.adts.get(n)
            if a and (a["local"] or a["raw"].get("local") is False):
                env = self.adt_env(n, t)
                for var in a["fields"]:
                    for _, ft in var:
                        if ft and self.needs_drop(tsubst(ft, env), seen + (t,)):
                            return True
                if any(f for f in a["fields"]):
                    known = all(ft is not None for var in a["fields"] for _, ft in var)
                    if known:
                        return False
            return any(self.needs_drop(x, seen + (t,)) for x in t[2] if x)
        if k == "tuple":
            return any(self.needs_drop(x, seen) for x in t[1])
        if k == "closure":
            return any(self.needs_drop(x, seen) for x in t[2])
        if k in ("array", "slice"):
            return self.needs_drop(t[1], seen)
        return True

    def adt_env(self, n, t):
        a = self.prog.adts.get(n)
        g = a["raw"].get("generics") if a else None
        if g:
            return dict(zip(g, t[2]))
        return {}

    def drop_impl(self, t):
        for i in self.prog.impls.get("core::ops::drop::Drop", ()):
            if i["self"][0] == "adt" and t[0] == "adt" and i["self"][1] == t[1]:
                env = {}
                unify(i["self"], t, env)
                return self.prog.bodies[i["items"]["drop"]], env
        return None

    def drop(self, st, region, path, t, depth, site):
        """drop glue for the value at a place"""
        if not self.needs_drop(t):
            return [Out("ret", UNIT, st)]
        v = self.read(st, region, path)
        if v is UNDEF:
            return [Out("ret", UNIT, st)]
        k = t[0]
        if k == "adt":
            if v.op == "agg" and v.a[0] == "models::VecIter" != t[1] and t[1] not in self.prog.transparent:
                return [Out("ret", UNIT, st)]
            h = self.atoms.get("drop:" + t[1])
            if h is not None:
                if h is True:
                    st.event("drop", t[1], v, site)
                    return [Out("ret", UNIT, st)]
                return h(self, st, v, t, site)
            outs = [Out("ret", UNIT, st)]
            di = self.drop_impl(t)
            if di:
                b, env = di
                if b.key in self.stack:
                    st.event("drop", t[1], v, site)
                    return outs
                outs = self.run(b, env, [addr(region, path)], st, depth)
            return self.then(outs, lambda o: self.drop_fields(o.st, region, path, t, depth, site))
        if k == "tuple" or k == "closure":
            ts = t[1] if k == "tuple" else t[2]
            outs = [Out("ret", UNIT, st)]
            name = v.a[0] if v.op == "agg" else ("(tuple)" if k == "tuple" else "{closure}")
            for i, ft in enumerate(ts):
                if self.needs_drop(ft):
                    p = path + (("f", i, name, len(ts)),)
                    outs = self.then(outs, lambda o: self.drop(o.st, region, p, ft, depth, site))
            return outs
        if k in ALIAS:
            # a value of a type parameter: find its type from the value
            vt = self.type_of(v)
            if vt is not None and vt[0] not in ALIAS:
                return self.drop(st, region, path, vt, depth, site)
        st.event("dropv", t, v, site)
        return [Out("ret", UNIT, st)]

    def drop_fields(self, st, region, path, t, depth, site):
        n = t[1]
        if n == "alloc::boxed::Box":
            p = self.read(st, region, path)
            r, pp, _ = target(p)
            outs = self.drop(st, r, pp, t[2][0], depth, site)

            def fin(o):
                o.st.event("free", p, self.load(o.st, p), site)
                return [o]

            return self.then(outs, fin)
        if n in ("alloc::vec::Vec", "hashbrown::map::HashMap", "alloc::string::String"):
            st.event("dropv", t, self.read(st, region, path), site)
            return [Out("ret", UNIT, st)]
        a = self.prog.adts.get(n)
        if a is None or not a["fields"]:
            if n in (OPTION,):
                pass
            else:
                st.event("dropv", t, self.read(st, region, path), site)
                return [Out("ret", UNIT, st)]
        env = self.adt_env(n, t)
        if n in self.prog.transparent:
            i = self.prog.transparent[n]
            ft = a["fields"][0][i][1]
            ft = tsubst(ft, env) if ft else None
            return self.drop(st, region, path, ft, depth, site) if ft else [Out("ret", UNIT, st)]
        v = self.read(st, region, path)
        res = []
        kind = a["kind"] if a else "enum"
        vs = self.variants(st, v, n) if kind == "enum" else [(0, st)]
        for var, s in vs:
            outs = [Out("ret", UNIT, s.fork())]
            fs = a["fields"][var]
            for i, (_, ft) in enumerate(fs):
                ft = tsubst(ft, env) if ft else None
                if ft and self.needs_drop(ft):
                    step = ("f", i, n, len(fs)) if kind != "enum" else ("v", var, i, n, len(fs))
                    outs = self.then(outs, lambda o: self.drop(o.st, region, path + (step,), ft, depth, site))
            res += outs
        return res

    def then(self, outs, f):
        r = []
        for o in outs:
            if o.kind == "ret":
                r += f(o)
            else:
                r.append(o)
        return r

    # ------------------------------------------------------------ calls
    def type_of(self, v):
        if v.op == "agg":
            n = v.a[0]
            if n.startswith("{closure}"):
                key, env = self.envs.get(n, (None, None))
                b = self.prog.bodies.get(key)
                if b is not None:
                    t = b.tys[b.locals[1]["t"]]
                    t = t[2] if t[0] == "ref" else t
                    return tsubst(t, env)
                return ("closure", key, tuple(self.type_of(x) or ("other", "?") for x in v.a[2]), None)
            if n == "(tuple)":
                return ("tuple", tuple(self.type_of(x) or ("other", "?") for x in v.a[2]))
            if n in self.prog.adts:
                g = self.prog.adts[n]["raw"].get("generics") or ()
                return ("adt", n, tuple(("other", "?") for _ in g))
        if v.op == "fn":
            return ("fndef", v.a[0], v.a[1], v.a[2])
        if v.op in ("i", "lin", "slen"):
            return ("prim", "usize")
        if v.op in ("addr", "fat", "null", "subsl"):
            return ("ptr", False, ("other", "?"))
        if v.op == "fld" and v.a[3] in self.prog.adts:
            try:
                t = self.prog.adts[v.a[3]]["fields"][v.a[1] or 0][v.a[2]][1]
            except IndexError:
                t = None
            if t is not None and closed(t):
                return t
        return None

    def call(self, st, fr, f, args, atys, dty, site):
        if f["k"] != "fn":
            v = self.operand(st, fr, f["o"])
            return self.call_value(st, v, args, fr.d + 1, dty, site)
        a = tuple(tsubst(fr.b.tys[i], fr.env) if isinstance(i, int) else ("const", i) for i in f.get("a") or ())
        key, ra = f.get("rkey"), None
        if key:
            ra = tuple(tsubst(fr.b.tys[i], fr.env) if isinstance(i, int) else ("const", i) for i in f.get("ra") or ())
        return self.call_named(st, fr.d + 1, f["n"], f.get("trait"), a, key or f.get("key"), ra, args, atys, dty, site, f.get("res"))

    def call_named(self, st, depth, name, trait, a, key, ra, args, atys, dty, site, res=None):
        c = Loop()
        c.name, c.trait, c.a, c.args, c.atys, c.dty, c.site, c.d, c.res, c.st = name, trait, a, args, atys, dty, site, depth, res, st
        method = name.rsplit("::", 1)[1]
        c.method = method
        c.body = self.prog.bodies.get(key) if key is not None else None
        # a call of a trait method: our own dispatch, since Self may be known better here
        if trait is not None:
            b = self.dispatch(c, trait, method, a)
            if b is not None:
                if isinstance(b, list):
                    return b
                body, env = b
                return self.call_body(c, body, env)
            h = self.intr.get(name)
            if h is not None:
                r = h(self, st, c)
                if r is not None:
                    return self.outs(r, st)
        if res is None and trait is not None and a and a[0][0] == "adt" and a[0][1] in ("core::option::Option", "core::result::Result"):
            # a library implementation selected inside a model
            res = f"<{a[0][1]} as {trait}" + (f"<{a[0][1]}>" if method == "from_residual" else "") + f">::{method}"
        for n in (name, res):
            if n is None:
                continue
            h = self.atoms.get(n)
            if h is not None:
                r = self.atom(c, n, h)
                if r is not None:
                    return r
            h = self.intr.get(n)
            if h is not None:
                r = h(self, st, c)
                if r is not None:
                    return self.outs(r, st)
            for p, m in MODEL_OF.items():
                if n.startswith(p) and "::" not in n[len(p):]:
                    b = self.prog.body(m + n[len(p):] if m.endswith("::") else m)
                    if b is not None:
                        g = a
                        if " as " in p and a and p[0] == "<":
                            s0 = a[0]
                            while s0[0] == "ref":
                                s0 = s0[2]
                            g = s0[2] if s0[0] == "adt" else s0[1:2]
                            if method == "from_residual" and len(g) == 2 and len(a) > 1 and a[1][0] == "adt":
                                g = (g[0], a[1][2][1], g[1])
                            elif method == "from_residual" and len(g) == 2:
                                g = (g[0], g[1], g[1])  # the residual of the same type
                            g = tuple(x for x in g if isinstance(x, tuple)) + tuple(a[2:] if trait and "PartialEq" in trait or method == "from_residual" else a[1:])
                        return self.call_body(c, b, dict(zip(b.generics, g)))
        if key is not None and key in self.prog.bodies:
            b = self.prog.bodies[key]
            targs = ra if ra is not None else a
            return self.call_body(c, b, dict(zip(b.generics, targs)))
        for n in (name, res):
            if n is None:
                continue
            for p, h in self.intr_prefix:
                if n.startswith(p):
                    r = h(self, st, c)
                    if r is not None:
                        return self.outs(r, st)
        return self.opaque(c, res or name)

    def outs(self, r, st):
        if isinstance(r, T):
            return [Out("ret", r, st)]
        return r

    def atom(self, c, name, h):
        if h is True:
            r = fresh(name, *c.args)
            c.st.event("call", name, tuple(c.args), r, c.site)
            return [Out("ret", r, c.st)]
        r = h(self, c.st, c)
        return None if r is None else self.outs(r, c.st)

    def call_body(self, c, body, env):
        h = self.atoms.get(body.name)
        c.body = body
        self.calls.add(body.name)
        if h is not None:
            r = self.atom(c, body.name, h)
            if r is not None:
                return r
        if len([k for k in self.stack if k == body.key]) > (1 if body.model else 0):
            if body.model:
                if len([k for k in self.stack if k == body.key]) > 6:
                    return self.opaque(c, body.name)
            else:
                return self.opaque(c, body.name)
        return self.run(body, env, c.args, c.st, c.d)

    def opaque(self, c, name):
        """nothing is known about this call: fresh result, memory behind &mut arguments is lost"""
        r = fresh(name, *c.args)
        for a, t in zip(c.args, c.atys or ()):
            if t and t[0] in ("ref", "ptr") and t[1] and a is not UNDEF and a.op in ("addr",):
                self.store(c.st, a, fresh("hav", a))
        c.st.event("call", name, tuple(c.args), r, c.site)
        return [Out("ret", r, c.st)]

    def dispatch(self, c, trait, method, a):
        """(body, env) of the implementation, None if unknown, or outcomes"""
        if not a:
            return None
        sty = a[0]
        if sty[0] in ALIAS and c.args:
            v = c.args[0]
            vt = self.type_of(v)
            if vt is None and v is not UNDEF and v.op in ("addr", "fat"):
                try:
                    x = self.load(c.st, v)
                    vt = self.type_of(x)
                except Undecided:
                    vt = None
            if vt is not None:
                sty = vt
        if sty[0] == "adt" and c.args and "iter::traits" in trait and sty[1] != "models::VecIter" and sty[1] not in self.prog.transparent:
            v = c.args[0]
            try:
                if v is not UNDEF and v.op in ("addr", "fat", "param"):
                    v = self.load(c.st, v)
            except Undecided:
                pass
            if v is not UNDEF and v.op == "agg" and v.a[0] == "models::VecIter":
                # an iterator given by an atom
                sty = ("adt", "models::VecIter", (("other", "?"),))
                a = (sty,) + tuple(a[1:])
        best = None
        for i in self.prog.impls.get(trait, ()):
            if i["neg"]:
                continue
            env = {}
            r = unify(i["self"], sty, env)
            if not r:
                continue
            if sty[0] in ALIAS:
                continue
            for p, t in zip(i["targs"][1:], a[1:]):
                x = unify(p, t, env) if p and t else True
                if not x:
                    r = False
                    break
                if x == "weak":
                    r = "weak"
            if not r:
                continue
            if i["self"][0] == "param":
                r = "blanket"
            if r is True:
                best = (i, env)
                break
            if best is None:
                best = (i, env)
        if best is None and sty[0] == "adt" and sty[1] == "core::ops::range::Range":
            b = self.prog.body("models::range::" + method)
            if b is not None:
                return b, dict(zip(b.generics, (sty,)))
        if best is None:
            return None
        i, env = best
        k = i["items"].get(method)
        if k is not None and k in self.prog.bodies:
            b = self.prog.bodies[k]
            # the method's own generics follow the trait's arguments
            own = [g for g in b.generics if g not in self.impl_generics(i)]
            e = dict(env)
            e.update(zip(own, a[len(i["targs"]):]))
            c.a = a
            return b, e
        # a provided method
        b = self.prog.body(trait + "::" + method)
        if b is not None:
            e = dict(zip(b.generics, a))
            e["Self"] = sty
            return b, e
        return None

    def impl_generics(self, i):
        s = set()

        def go(t):
            if t is None:
                return
            if t[0] == "param":
                s.add(t[1])
            for x in t[1:]:
                if isinstance(x, tuple):
                    if x and isinstance(x[0], str):
                        go(x)
                    else:
                        for y in x:
                            if isinstance(y, tuple) and y and isinstance(y[0], str):
                                go(y)

        go(i["self"])
        for t in i["targs"]:
            go(t)
        for p in i.get("generics") or ():
            s.add(p)
        return s

    def call_value(self, st, f, args, depth, dty, site):
        """call a closure, function item or unknown callable"""
        for _ in range(6):
            if f.op == "agg" and f.a[0].startswith("{closure}"):
                key, env = self.envs[f.a[0]]
                b = self.prog.bodies[key]
                t1 = b.tys[b.locals[1]["t"]]
                if t1[0] == "ref":
                    region = loc(depth, -1)
                    st.mem[region] = f
                    f1 = addr(region, ())
                else:
                    f1 = f
                return self.run_closure(b, env, f1, args, st, depth)
            if f.op == "fn":
                path, targs, key = f.a
                trait = path.rsplit("::", 1)[0]
                tr = trait if (trait in self.prog.impls or trait.startswith("core::") and not trait.startswith("<")) and key is None or trait in TRAITS else None
                if tr is None and trait in self.prog.impls:
                    tr = trait
                ctor = self.ctor(path, args)
                if ctor is not None:
                    return [Out("ret", ctor, st)]
                return self.call_named(st, depth, path, tr, targs, key, None, args, None, dty, site)
            if f.op in ("addr",) or f.op == "fat":
                region, path, _ = target(f)
                v = self.read(st, region, path)
                if v.op == "agg" and v.a[0].startswith("{closure}"):
                    key, env = self.envs[v.a[0]]
                    b = self.prog.bodies[key]
                    t1 = b.tys[b.locals[1]["t"]]
                    return self.run_closure(b, env, f if t1[0] == "ref" else v, args, st, depth)
                if v is UNDEF:
                    break
                f = v
                continue
            break
        return self.user(st, f, args, site)

    def user(self, st, f, args, site):
        """a call of code supplied by the caller"""
        r = fresh("user", f, *args)
        return self.panics(st, site) + self.asked(st, f, tuple(args), r, site)

    def asked(self, st, f, args, r, site):
        st.event("user", f, args, r, st.mem, site)
        return [Out("ret", r, st)]

    def panics(self, st, site):
        """the caller's code may panic instead of returning"""
        if not self.unwind:
            return []
        self.asking.append((st.fork(), tuple(self.frames)))
        return [Out("panic", None, st.fork(), ("caller", str(site), len(self.asking) - 1))]

    def run_closure(self, b, env, f1, args, st, depth):
        if self.stack.count(b.key) > 2:
            r = fresh("rec", b.key, *args)
            st.event("call", b.key, tuple(args), r, None)
            return [Out("ret", r, st)]
        h = self.atoms.get(b.key)
        return self.run(b, env, [f1] + list(args), st, depth)

    def ctor(self, path, args):
        """tuple struct / variant constructors used as functions"""
        if "::" not in path:
            return None
        if path.endswith("::{Ctor#0}"):
            path = path[:-len("::{Ctor#0}")]
        adt, v = path.rsplit("::", 1)
        for p in (adt, self.prog_adt(adt)):
            a = self.prog.adts.get(p)
            if a and v in a["variants"]:
                i = a["variants"].index(v)
                if p in self.prog.transparent:
                    return args[self.prog.transparent[p]]
                return agg(p, i, args)
        a = self.prog.adts.get(path)
        if a and a["kind"] == "struct":
            if path in self.prog.transparent:
                return args[self.prog.transparent[path]]
            return agg(path, 0, args)
        return None

    # ------------------------------------------------------------ entry points
    def param(self, name, t=None):
        p = mk("param", name)
        return p

    def analyse(self, body, args=None, env=None, st=None, depth=1):
        st = st or St()
        if args is None:
            args = []
            for i in range(body.argc):
                n = body.locals[i + 1].get("n") or f"arg{i}"
                args.append(self.param(n))
        env = env or {}
        self.steps = 0
        return self.run(body, env, args, st, depth)


def closed(t):
    """no unknown or generic part in the type"""
    if t is None:
        return False
    if not isinstance(t, tuple):
        return True
    if t and t[0] in ALIAS:
        return False
    return all(closed(x) for x in t if isinstance(x, tuple))


TRAITS = {"core::convert::From", "core::convert::Into", "rowan::ast::AstNode", "core::clone::Clone"}
BASE = mk("base")


def hst_base(st):
    b = st.mem.get(BASE)
    return b.a[0] if b is not None else 1 << 60


def splice(ev, at, e):
    """insert event e after the prefix `at` of the event list"""
    items = []
    while ev is not at and ev is not None:
        items.append(ev[1])
        ev = ev[0]
    ev = (at, e)
    for x in reversed(items):
        ev = (ev, x)
    return ev


# ---------------------------------------------------------------- sequences (Vec values)
def seq_of(v):
    if v.op == "seq":
        return v
    return mk("seq", (("s", v, ZERO, mk("vlen", v)),))


def seq_mk(segs):
    segs = tuple(s for s in segs if not (s[0] == "s" and s[2] is s[3]))
    if len(segs) == 1 and segs[0][0] == "s" and segs[0][2] is ZERO and segs[0][3] is mk("vlen", segs[0][1]):
        return segs[0][1]
    return mk("seq", segs)


def seq_len(v):
    if v.op != "seq":
        return mk("vlen", v)
    n = ZERO
    for s in v.a[0]:
        n = add(n, ONE if s[0] == "e" else sub(s[3], s[2]))
    return n


def seq_get(v, i):
    """element i when its position is evident"""
    pos = ZERO
    for s in v.a[0]:
        if s[0] == "e":
            if pos is i:
                return s[1]
            pos = add(pos, ONE)
        else:
            end = add(pos, sub(s[3], s[2]))
            d1, d2 = le(pos, i), lt(i, end)
            if d1.op == "i" and d1.a[0] and d2.op == "i" and d2.a[0]:
                return mk("elem", s[1], add(s[2], sub(i, pos)))
            if len(v.a[0]) == 1:
                return mk("elem", s[1], add(s[2], i))
            # the last element of a segment
            if sub(end, i) is ONE:
                return mk("elem", s[1], sub(s[3], ONE))
            pos = end
    return None
