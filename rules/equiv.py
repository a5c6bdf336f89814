"""Comparison of a function of the library with its specification function (crate spec).

Both are summarised by the same dataflow analysis: for every path the conditions assumed, the calls
of caller-supplied code and effects in order, and the result as a term over the inputs; loops are
summarised by their loop variables (initial and next values). Two paths whose conditions do not
contradict each other have to agree."""
import itertools, os
import model
import engine as ENG
import intrinsics as I
from cur import *
from terms import _form

CN, CT = "<rowan::cursor::SyntaxNode>::", "<rowan::cursor::SyntaxToken>::"
NAV = [CN + x for x in (
    "parent first_child last_child first_child_or_token last_child_or_token next_sibling prev_sibling "
    "next_sibling_or_token prev_sibling_or_token first_child_by_kind first_child_or_token_by_kind "
    "next_sibling_by_kind next_sibling_or_token_by_kind first_token last_token "
    "kind text_range index is_mutable green clone_for_update clone_subtree replace_with "
    "token_at_offset covering_element child_or_token_at_range").split()]
NAV += [CT + x for x in (
    "parent next_sibling_or_token prev_sibling_or_token next_sibling_or_token_by_kind "
    "kind text_range index text green next_token prev_token replace_with").split()]
EFFECT = [CN + "detach", CN + "splice_children", CT + "detach"]
CONSUMING = {CN + "to_next_sibling": CN + "next_sibling"}
HANDLES = (NODE, TOKEN)


def pval(e, st, v, t, depth=0):
    """the value an argument stands for"""
    if v is UNDEF or depth > 6:
        return v
    if t and t[0] == "ref":
        if unsized(t[2]):
            return v
        if v.op in ("addr", "fat") or True:
            try:
                r, p, _ = target(v)
                x = e.read(st, r, p)
            except Undecided:
                return v
            return pval(e, st, x, t[2], depth + 1)
    if v.op == "agg" and v.a[0].startswith("{closure}") or v.op == "fn":
        return cterm(e, st, v)
    return v


def cterm(e, st, f):
    """a one-argument callable, as the term it returns for a generic argument"""
    x = mk("param", "arg#")
    s = st.fork()
    try:
        outs = e.call_value(s, f, [x], 40, None, "")
    except Undecided:
        return f
    outs = [o for o in outs]
    if len(outs) == 1 and outs[0].kind == "ret":
        return mk("lam", outs[0].val)
    return f


def nav_atom(P, name, eff=False, skip=None, show=None):
    body = P.body(name)
    tys = body.sig_in if body else ()
    nm = (show or name).replace("rowan::cursor::", "").replace("rowan::", "")

    def h(e, st, c):
        if skip is not None and skip(e, name):
            return None
        vs = []
        for a, t in zip(c.args, tys):
            vs.append(pval(e, st, a, t))
        if nm in PARENT and not getattr(e, "epochs", False):
            r = parent_law(e, vs[0])
            if r is not None:
                return r
        if getattr(e, "epochs", False) and nm not in STABLE:
            vs.append(Int(sum(1 for ev in st.events() if ev[0] == "user" and ev[1] is EPOCH)))
        r = mk("ap", nm, tuple(vs))
        if eff:
            st.event("effect", nm, tuple(vs), c.site)
            return UNIT
        return r

    return h


EPOCH = mk("param", "f")
PARENT = ("<SyntaxNode>::parent", "<SyntaxToken>::parent")
STABLE = ("<SyntaxNode>::is_mutable", "<SyntaxNode>::kind", "<SyntaxToken>::kind")
CHILD_OF = {"first_child", "last_child", "first_child_or_token", "last_child_or_token", "first_child_by_kind",
            "first_child_or_token_by_kind", "child_or_token_at_range"}
SIBLING_OF = {"next_sibling", "prev_sibling", "next_sibling_or_token", "prev_sibling_or_token", "next_sibling_by_kind",
              "next_sibling_or_token_by_kind"}


def parent_law(e, x):
    """a child's parent is the node it was found in, a sibling's that of the element it was found from"""
    for _ in range(4):
        if x.op == "fld" and x.a[3] in (NOT, OPTION):
            x = x.a[0]
        else:
            break
    if x.op != "ap" or not isinstance(x.a[0], str):
        return None
    m = x.a[0].rsplit("::", 1)[-1]
    if m in CHILD_OF:
        return Some(x.a[1][0])
    if m in SIBLING_OF:
        y = x.a[1][0]
        r = parent_law(e, y)
        return r if r is not None else mk("ap", x.a[0].rsplit("::", 1)[0] + "::parent", (y,))
    return None


def val_clone(e, st, c):
    r, p, _ = target(c.args[0])
    return e.read(st, r, p)


def nodrop(e, st, v, t, site):
    return [Out("ret", UNIT, st)]


def own_events(L, b):
    """events of one iteration"""
    return b.events()[len(L.hst.events()):]


def effects(st):
    """how many effects there were before (loops without any do not count)"""
    return sum(1 for ev in st.events() if ev[0] == "ocall" or ev[0] == "loop" and any(x[0] in ("ocall", "loop") for b in ev[1].backs for x in own_events(ev[1], b)))


class PureEngine(Engine):
    """calls of unknown functions are functions of their arguments"""

    pure = True
    silent = False  # how often the caller's functions are asked does not matter

    def opaque(self, c, name):
        if name.endswith("::clone") and c.args and (c.atys is None or c.atys[0][0] == "ref"):
            return [Out("ret", val_clone(self, c.st, c), c.st)]
        tys = c.atys
        body = self.prog.body(name)
        if tys is None and body:
            tys = body.sig_in
        if tys is None and all(a is not UNDEF and a.op not in ("addr", "fat") for a in c.args):
            tys = (None,) * len(c.args)
        mut = tys is None or any(t and t[0] in ("ref", "ptr") and t[1] for t in tys)
        if mut:
            vs = tuple(pval(self, c.st, a, t) for a, t in zip(c.args, tys)) if tys else tuple(c.args)
            if "core::str" in name and c.args and c.args[0].op == "addr":
                # an iterator over text: a function of its own state
                x = self.load(c.st, c.args[0])
                self.store(c.st, c.args[0], mk("ap", "oc-out", (x,)))
                return [Out("ret", mk("ap", c.method, (x,) + vs[1:]), c.st)]
            n = effects(c.st)
            r = mk("ap", "oc:" + name, (Int(n),) + vs)
            for i, (a, t) in enumerate(zip(c.args, tys or ())):
                if t and t[0] in ("ref", "ptr") and t[1] and a is not UNDEF and a.op == "addr":
                    self.store(c.st, a, mk("ap", "oc-out", (r, Int(i))))
            c.st.event("ocall", name, vs, r, c.site)
            return [Out("ret", r, c.st)]
        vs = tuple(pval(self, c.st, a, t) for a, t in zip(c.args, tys))
        return [Out("ret", mk("ap", name, tuple(vs)), c.st)]

    def user(self, st, f, args, site):
        args = tuple(pval(self, st, a, self.type_of(a) if a.op != "addr" else ("ref", False, ("other", "?")), 0) for a in args)
        r = mk("ap", "user", (f,) + args)
        if not self.silent:
            st.event("user", f, args, r, None, site)
        return [Out("ret", r, st)]


def wrappers(P):
    """the typed layer's wrappers are looked through"""
    for p, a in P.adts.items():
        if p.startswith(("rowan::api::", "rowan::ast::")) and a["kind"] == "struct" and p not in P.transparent:
            idx = [i for i, (n, t) in enumerate(a["fields"][0]) if not (t and t[0] == "adt" and t[1] == "core::marker::PhantomData")]
            if len(idx) == 1:
                P.transparent[p] = idx[0]


def spec_prog(config="release"):
    k = ("spec", config)
    if k not in prog_cache:
        P = prog(config)
        out = build.spec(reuse=bool(os.environ.get("ROWAN_REUSE_SPEC")))
        os.environ["ROWAN_REUSE_SPEC"] = "1"
        P._load(os.path.join(out, f"spec.{config}.json"), True)
        wrappers(P)
        prog_cache[k] = P
    return prog_cache[k]


prog_cache = {}


def engine_for(P, body, budget=200000, extra=None, without=()):
    at = {}

    def skip(e, name):
        # the function the imp body itself calls is the one under test
        return len(e.stack) == 1 and e.stack[0] == body.key and "::imp::" in body.key and body.name.endswith("_" + name.rsplit("::", 1)[1])

    for n in NAV:
        if n not in without and n not in (extra or {}):
            at[n] = nav_atom(P, n, skip=skip)
    for n, m in CONSUMING.items():
        at[n] = nav_atom(P, n, skip=skip, show=m)
    at["<rowan::utility_types::NodeOrToken>::to_next_sibling_or_token"] = element_step("next_sibling_or_token")
    for n in EFFECT:
        at[n] = nav_atom(P, n, eff=True, skip=skip)
    for t in HANDLES:
        at[f"<{t} as core::clone::Clone>::clone"] = val_clone
        at["drop:" + t] = nodrop
        at[f"<{t} as core::cmp::PartialEq<{t}>>::eq"] = eq_atom
    at["spec::impossible"] = lambda e, st, c: [Out("free", None, st)]
    at.update({k: v for k, v in (extra or {}).items() if v})
    e = PureEngine(P, atoms=at, budget=budget)
    try:
        gi, gn, gt = field(P, ND, "green"), variant(P, GREEN, "Node"), variant(P, GREEN, "Token")
    except Missing:
        return e

    def known_variant(v, adt):
        # a node handle leads to a node, a token handle to a token
        if adt == GREEN and v.a[3] == ND and v.a[2] == gi and v.a[0].op == "ini" and v.a[0].a[0].op == "fld":
            return {NODE: gn, TOKEN: gt}.get(v.a[0].a[0].a[3])
        return None

    e.known_variant = known_variant
    return e


def element_step(m):
    """a step from an element is the step from the node or token it is"""

    def h(e, st, c):
        if c.body is None or not c.body.key.startswith("rowan::cursor"):
            return None
        x = c.args[0]
        r = []
        for k, t in ((0, "<SyntaxNode>::"), (1, "<SyntaxToken>::")):
            if x.op == "agg":
                if x.a[1] != k:
                    continue
                s, y = st, x.a[2][0]
            else:
                s, y = st.fork().assume(eqi(e.discr(st, x, NOT), Int(k))), fld(x, k, 0, NOT, 1)
            if s is not None:
                r.append(Out("ret", mk("ap", t + m, (y,)), s))
        return r

    return h


def eq_atom(e, st, c):
    a, b = (pval(e, st, x, ("ref", False, ("adt", NODE, ()))) for x in c.args[:2])
    if a is b:
        return ONE
    return mk("ap", "eqh", tuple(sorted((a, b), key=lambda x: x.id)))


# ------------------------------------------------------------------ three-valued comparison
KNOWN = PRIM_OPS | {"ap", "mul", "lam", "const", "vlen", "subsl", "seq", "upd", "fn", "and", "or", "cmp3", "ptreq", "beq"}


def known(t):
    return all(x.op in KNOWN for x in subterms(t))


def veq(a, b, F, d=0):
    """True / False / None"""
    if a is b:
        return True
    if d > 30:
        return None
    if not isinstance(a, T) or not isinstance(b, T):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return all3(veq(x, y, F, d + 1) for x, y in zip(a, b))
        return a == b
    if a.op == "agg" and b.op == "agg":
        if a.a[1] != b.a[1] and a.a[0] == b.a[0]:
            return False
        if a.a[0] != b.a[0] or len(a.a[2]) != len(b.a[2]):
            return None
        return all3(veq(x, y, F, d + 1) for x, y in zip(a.a[2], b.a[2]))
    if b.op == "agg":
        a, b = b, a
    if a.op == "agg":
        adt, var, fs = a.a
        multi = adt in ("core::option::Option", "core::result::Result") or PROG is not None and PROG.adts.get(adt, {}).get("kind") == "enum"
        if multi:
            k = F.value(mk("discr", b, 1)) if adt in (OPTION, RESULT) else None
            if k is None:
                n = len(PROG.adts[adt]["variants"]) if adt in PROG.adts else 2
                k = F.value(mk("discr", b, n - 1))
            if k is None:
                return None
            if k != var:
                return False
            return all3(veq(x, fld(b, var, i, adt, len(fs)), F, d + 1) for i, x in enumerate(fs))
        if not fs:
            return True if adt in ("(tuple)", "core::fmt::Error") else None
        return all3(veq(x, fld(b, None, i, adt, len(fs)), F, d + 1) for i, x in enumerate(fs))
    if isnum(a) or isnum(b) or a.op == "i" or b.op == "i":
        try:
            q = F.equal(a, b)
        except Exception:
            q = None
        if q is not None:
            return q
    if a.op in ("ap", "lam", "elem", "fld", "ini", "at", "addr") and a.op == b.op:
        if a.op == "ap" and a.a[0] != b.a[0]:
            return False if known(a) and known(b) and (family(a) is None or family(a) != family(b)) else None
        if len(a.a) == len(b.a):
            r = all3(veq(x, y, F, d + 1) for x, y in zip(a.a, b.a))
            if r:
                return True
    if family(a) == family(b) != None:
        return None
    return False if known(a) and known(b) else None


def family(t):
    """a node and an element may be one and the same"""
    while t.op in ("fld", "agg") and t.a[0:1]:
        t = t.a[0] if t.op == "fld" else t
        if t.op == "agg":
            return None
    if t.op == "ap" and isinstance(t.a[0], str):
        return t.a[0].rsplit("::", 1)[-1].replace("_or_token", "").replace("_by_kind", "")
    return None


def all3(it):
    r = True
    for x in it:
        if x is False:
            return False
        if x is None:
            r = None
    return r


PROG = None


def evlist(st):
    r = []
    for ev in st.events():
        if ev[0] in ("user", "effect", "ocall", "loop"):
            r.append(ev)
        elif ev[0] in ("call", "alloc", "free", "forget", "ptrwrite"):
            r.append(ev)
    return r


def loops_seq(st):
    return [ev[1] for ev in st.events() if ev[0] == "loop"]


def sub_facts(F, log, s):
    """F with the conditions of log (terms substituted by s), or None if contradictory"""
    for p, v in log:
        q = subst(p, s) if s else p
        F = F.assume(q, v)
        if F is None:
            return None
    return F


def implied(F, log, s):
    for p, v in log:
        q = subst(p, s) if s else p
        d = F.decide(q)
        if d is None or d != v:
            return False
    return True


def bindings(Ls, Ms, budget=24):
    """candidate renamings of the loop variables of Ls to those of Ms"""
    res = [{}]
    for L, M in zip(Ls, Ms):
        nxt = []
        for s in res:
            lp = [x for x in L.phis if x[2].op == "phi"]
            mp = [x for x in M.phis if x[2].op == "phi"]
            opts = []
            for region, path, ph, init, nexts in lp:
                i2 = subst(init, s)
                c = [y for y in mp if veq(i2, y[3], M.hst.facts) is True]
                opts.append([(ph, y[2]) for y in c])
            outs = [dict(s)]
            for o in opts:
                if not o:
                    continue
                new = []
                for x in outs:
                    used = set(x.values())
                    k = 0
                    for a, b in o:
                        if b in used and len(o) > 1:
                            continue
                        y = dict(x)
                        y[a] = b
                        new.append(y)
                        k += 1
                    if not k:
                        new.append(x)
                outs = new[:budget]
            nxt += outs
        res = nxt[:budget]
    return res


class Cmp:
    def __init__(self, rep, rule, w):
        self.rep, self.rule, self.w = rep, rule, w
        self.ok = self.unk = 0
        self.bad = []
        self.memo = {}
        self.skipped = set()
        self.types = TYPES
        self.seen = {}
        self.why = ""

    def loop_pair(self, L, M, s):
        """do the iterations of L (renamed by s) do what those of M do?  True/False/None, message"""
        k = (id(L), id(M), tuple(sorted((a.id, b.id) for a, b in s.items())))
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = (True, "")  # coinductive
        res, msg = True, ""
        pairs = []
        inv = {}
        for region, path, ph, init, nexts in L.phis:
            if ph in s:
                for r2, p2, ph2, init2, nexts2 in M.phis:
                    if ph2 is s[ph]:
                        pairs.append((nexts, nexts2))
        for i, b in enumerate(L.backs):
            hit = False
            for j, c in enumerate(M.backs):
                F = sub_facts(c.facts, b.facts.log, s)
                if F is None:
                    continue
                hit = True
                r, m = self.events(b, c, F, dict(s), L.hst, M.hst)
                for n1, n2 in pairs:
                    q = veq(subst(n1[i], s), n2[j], F)
                    if q is not True:
                        r = False if q is False and r is not None else None if q is None and r is True else r
                        m = m or f"next value {subst(n1[i], s)!r:.120} instead of {n2[j]!r:.120}"
                if r is not True:
                    if r is False and not (implied(c.facts, b.facts.log, s) or implied(b_sub(b.facts, s), c.facts.log, {})):
                        r = None
                    res = False if r is False else res if res is False else None
                    msg = msg or m
            if not hit:
                res = res if res is False else None
                msg = msg or "iteration without counterpart"
        self.memo[k] = (res, msg)
        return res, msg

    def events(self, p, q, F, s, p0=None, q0=None):
        ep, eq = self.ev_after(p, p0), self.ev_after(q, q0)
        if len(ep) != len(eq):
            n1 = [self.evname(x) for x in ep]
            n2 = [self.evname(x) for x in eq]
            lp, lq = sum(x[0] == "loop" for x in ep), sum(x[0] == "loop" for x in eq)
            if lp or lq or any(x[0] not in ("user", "effect", "loop") for x in ep + eq):
                return None, f"effects {n1} / {n2}"
            return False, f"calls {n1} instead of {n2}"
        res, msg = True, ""
        for x, y in zip(ep, eq):
            if x[0] != y[0]:
                return None, f"effect {self.evname(x)} / {self.evname(y)}"
            if x[0] == "loop":
                r, m = self.loop_pair(x[1], y[1], s)
            elif x[0] in ("user", "effect", "ocall"):
                r = veq(subst(x[1], s) if isinstance(x[1], T) else x[1], y[1], F)
                a = veq(tuple(subst(t, s) for t in x[2]), y[2], F)
                r = all3((r, a))
                m = f"{self.evname(x)} called with {tuple(subst(t, s) for t in x[2])!r:.150} instead of {y[2]!r:.150}"
            else:
                r, m = None, f"effect {self.evname(x)}"
            if r is not True:
                res = False if r is False else res if res is False else None
                msg = msg or m
        return res, msg

    def ev_after(self, st, base):
        evs = evlist(st)
        if base is not None:
            n = len(evlist(base))
            evs = evs[n:]
        if self.skipped:
            evs = [x for x in evs if not (x[0] == "loop" and id(x[1]) in self.skipped)]
        return evs

    def evname(self, x):
        if x[0] == "loop":
            return "loop"
        if x[0] == "user":
            return f"{x[1]!r}"[:40]
        return str(x[1])[:60]

    def pair(self, p, q):
        Ls, Ms = loops_seq(p.st), loops_seq(q.st)
        base = {}
        if len(Ls) != len(Ms):
            F = sub_facts(q.st.facts, p.st.facts.log, {})
            if F is None:
                return "apart", ""
            n = min(len(Ls), len(Ms))
            for k in range(n, 0, -1):
                # the loops both have, if they are the same ones, leave both in the same state
                for s in bindings(Ls[:k], Ms[:k]):
                    if s and sub_facts(q.st.facts, p.st.facts.log, s) is None and all(self.loop_pair(L, M, s)[0] is True for L, M in zip(Ls[:k], Ms[:k])):
                        return "apart", ""
            return self.skipping(p, q, Ls, Ms)
        return self.aligned(p, q, Ls, Ms)

    def skipping(self, p, q, Ls, Ms):
        """one side has loops that the other has not: they must not run even once"""
        longer, shorter = (Ls, Ms) if len(Ls) > len(Ms) else (Ms, Ls)
        F0 = (p if longer is Ms else q).st.facts
        for skip in itertools.combinations(longer, len(longer) - len(shorter)):
            z = {}
            for L in skip:
                for x in L.phis:
                    z[x[2]] = subst(x[3], z)
            if all(sub_facts(F0, b.facts.log, z) is None for L in skip for b in L.backs):
                o = Out((p if longer is Ls else q).kind, None, None)
                src = p if longer is Ls else q
                F = b_sub(src.st.facts, z)
                if F is None:
                    return "apart", ""
                st = src.st.fork()
                st.facts = F
                o = Out(src.kind, subst(src.val, z) if isinstance(src.val, T) else src.val, st, src.why)
                drop = set(id(L) for L in skip)
                self.skipped = drop
                self.zsub = z
                rest = [L for L in longer if id(L) not in drop]
                try:
                    if longer is Ls:
                        r = self.aligned(o, q, rest, Ms, z)
                    else:
                        r = self.aligned(p, o, Ls, rest, {}, z)
                finally:
                    self.skipped = set()
                if r[0] is False:
                    return None, r[1]
                return r
        return None, "different loops"

    def aligned(self, p, q, Ls, Ms, z=None, zq=None):
        best = None
        apart = 0
        bs = bindings(Ls, Ms)
        if len(bs) > 1:
            # a renaming under which the loops do the same is the right one
            how = [(s, [self.loop_pair(L, M, {**z, **s} if z else s)[0] for L, M in zip(Ls, Ms)]) for s in bs]
            how = [(s, tuple({True: 0, None: 1}.get(x, 2) for x in r)) for s, r in how]
            bs = [s for s, r in how if r == min(r for _, r in how)]
            bs = bs[:1] if not any(min(r for _, r in how)) else bs
        for s in bs:
            if z:
                s = {**z, **s}
            F = sub_facts(q.st.facts, p.st.facts.log, s)
            if F is None:
                apart += 1
                continue
            r, m = self.leaving(p, q, Ls, Ms, s)
            if q.kind == "free":
                r = True
            elif p.kind != q.kind:
                r, m = False, f"{p.kind} instead of {q.kind}" + (f" ({p.why})" if p.why else "")
            else:
                r2, m2 = self.events(p.st, q.st, F, s)
                r, m = all3((r, r2)), m or m2
                if p.kind == "ret" or p.val is not None and q.val is not None:
                    v = veq(subst(p.val, s), q.val, F)
                    if v is not True and r is not False:
                        m = f"result {subst(p.val, s)!r:.200} instead of {q.val!r:.200}"
                        r = False if v is False else None
            if r is True:
                return True, ""
            if infeasible(tuple((subst(a, s), v) for a, v in p.st.facts.log) + q.st.facts.log):
                apart += 1
                continue
            if r is False and not self.definite(p, q, s):
                r = None
            if best is None or best[0] is False:
                best = (r, m)
        if best is None:
            return "apart", ""
        return best

    def leaving(self, p, q, Ls, Ms, s):
        """where one leaves a loop the other must not go on"""
        if len(Ls) != 1 or len(Ms) != 1:
            return True, ""
        for x, M, sw in ((p, Ms[0], True), (q, Ls[0], False)):
            k = (id(x), id(M), tuple(sorted((a.id, b.id) for a, b in s.items())))
            if k not in self.memo:
                r = True
                for b in M.backs:
                    F = sub_facts(b.facts, x.st.facts.log, s) if sw else sub_facts(x.st.facts, b.facts.log, s)
                    if F is not None:
                        r = None
                self.memo[k] = (r, x, M)
            if self.memo[k][0] is not True:
                return None, "one leaves the loop where the other goes on"
        return True, ""

    def definite(self, p, q, s):
        """the conditions of the two paths can certainly hold together"""
        if infeasible(tuple((subst(a, s), v) for a, v in p.st.facts.log) + q.st.facts.log):
            return False
        return self.consistent(p, q, s) and self.modelled(p, q)

    def modelled(self, p, q):
        """a small tree under which the conditions of both hold and what they do differs"""
        if self.types is None:
            return True
        k = (id(p), id(q))
        if k not in self.seen:
            r, m = model.differ(INPUTS, self.types, p, q)
            if os.environ.get("MODEL"):
                print("MODEL", self.w, r, m)
                if r is not True:
                    model.TRACE = {}
                    model.differ(INPUTS, self.types, p, q, tries=500)
                    print("\n".join(f"    {n} {v} {str(a)[:220]}" for (a, v), n in sorted(model.TRACE.items(), key=lambda x: -x[1])[:6]))
                    model.TRACE = None
            self.seen[k] = (r, m, p, q)
        r, m = self.seen[k][:2]
        self.why = m if r else ""
        return r is True

    def consistent(self, p, q, s):
        if implied(q.st.facts, p.st.facts.log, s):
            return True
        F = b_sub(p.st.facts, s)
        if F is not None and implied(F, q.st.facts.log, {}):
            return True
        return witness([(subst(a, s), v) for a, v in p.st.facts.log] + list(q.st.facts.log))


TYPES = None  # of the parameters of the function compared
INPUTS = None


EQUALS = ("eqh", "ptreq", "beq")


def witness(logs):
    """are there values for the terms that meet all the conditions?"""
    les, nes, lo, hi, atoms = [], [], {}, {}, {}
    logs = list(dict.fromkeys(logs))
    for a, v in logs:
        if not known(a):
            return False
        while a.op == "not":
            a, v = a.a[0], not v
        if a.op in ("and", "or"):
            return False
        if a.op in ("le0", "eq0"):
            c, at = lin_of(a.a[0])
            for t, _ in at:
                if t not in lo:
                    l, h = Facts()._range(t)
                    lo[t], hi[t] = l if l is not None else -1000, h
            if a.op == "le0":
                les.append((c, at) if v else (1 - c, tuple((t, -k) for t, k in at)))
            elif v:
                les += [(c, at), (-c, tuple((t, -k) for t, k in at))]
            else:
                nes.append((c, at))
            continue
        if atoms.setdefault(a, v) != v:
            return False
    for a, v in atoms.items():
        # equal things have equal properties
        n = a.a[0] if a.op == "ap" else a.op
        if v and n in EQUALS:
            xs = a.a[1] if a.op == "ap" else a.a
            if all(any(x in subterms(b) for b, _ in logs if b is not a) for x in xs):
                return False
    les += laws(lo)
    for order in (0, 1):
        x = dict(lo)
        for _ in range(600):
            for c, at in les:
                d = c + sum(k * x[t] for t, k in at)
                if d > 0:
                    for t, k in at if not order else reversed(at):
                        if k < 0 and (hi[t] is None or x[t] < hi[t]):
                            x[t] += max(1, d // -k) if hi[t] is None else 1
                            break
                    else:
                        x = None
                    break
            else:
                for c, at in nes:
                    if c + sum(k * x[t] for t, k in at) == 0:
                        for t, k in at if order else reversed(at):
                            if hi[t] is None or x[t] < hi[t]:
                                x[t] += 1
                                break
                        else:
                            x = None
                        break
                else:
                    return texts(x)
            if x is None:
                break
    return False


def texts(x):
    """a text has a first character if and only if it is not empty"""
    for t, v in x.items():
        if t.op != "discr":
            continue
        n = t.a[0]
        if not (n.op == "ap" and n.a[0] == "next" and n.a[1] and n.a[1][0].op == "ap" and n.a[1][0].a[0] == "chars"):
            continue
        s = n.a[1][0].a[1][0]
        a = ZERO
        if s.op == "ap" and s.a[0] == "index" and s.a[1][1].op == "agg" and s.a[1][1].a[0].endswith("RangeFrom"):
            a, s = s.a[1][1].a[2][0], s.a[1][0]
        ln = [y for y in x if y.op == "ap" and y.a[0] == "len" and y.a[1][0] is s]
        c, at = lin_of(a)
        if ln and all(y in x for y, _ in at):
            if (x[ln[0]] > c + sum(k * x[y] for y, k in at)) != (v == 1):
                return False
    return True


BOTH = [("first_child", "last_child"), ("first_child_or_token", "last_child_or_token"), ("last_child", "first_child"),
        ("last_child_or_token", "first_child_or_token")]
IMPLIES = BOTH + [(x, x + "_or_token") for x in ("first_child", "last_child", "next_sibling", "prev_sibling")] + \
    [(x + "_by_kind", x) for x in ("first_child", "first_child_or_token", "next_sibling", "next_sibling_or_token")] + \
    [("first_token", "first_child_or_token"), ("last_token", "last_child_or_token")]


def laws(ts):
    """what holds between different queries of one tree"""
    r = []
    have = {}
    for t in ts:
        if t.op == "fld" and t.a[3] == "models::TextRange":
            o = mk("fld", t.a[0], t.a[1], 1 - t.a[2], *t.a[3:])
            if t.a[2] == 0 and o in ts:
                r.append((0, ((t, 1), (o, -1))))
        x = t.a[0] if t.op == "discr" else None
        if x is not None and x.op == "ap" and isinstance(x.a[0], str):
            have[(x.a[0].rsplit("::", 1)[-1], x.a[1][0] if x.a[1] else None)] = t
    for (n, x), t in have.items():
        for a, b in IMPLIES:
            if n == a and (b, x) in have:
                r.append((0, ((t, 1), (have[(b, x)], -1))))
    return r


# ------------------------------------------------------------------ nested loops as one
def ev_sub(x, s):
    if isinstance(x, T):
        return subst(x, s)
    if isinstance(x, tuple):
        return tuple(ev_sub(y, s) for y in x)
    if isinstance(x, Loop):
        return loop_sub(x, s)
    return x


_loops = {}


def loop_sub(L, s):
    k = (id(L), tuple(sorted((a.id, b.id) for a, b in s.items())))
    if k not in _loops:
        _loops[k] = (loop_sub_(L, s) if loop_mentions(L, set(s)) else L, L)
    return _loops[k][0]


def loop_mentions(L, ts):
    if any(mentions(x[3], ts) or mentions(x[4], ts) for x in L.phis):
        return True
    for b in L.backs:
        if any(mentions(a, ts) for a, _ in b.facts.log):
            return True
        for ev in evlist(b):
            if ev[0] == "loop" and loop_mentions(ev[1], ts) or ev[0] != "loop" and mentions(ev, ts):
                return True
    return False


def loop_sub_(L, s):
    M = Loop()
    M.__dict__.update(L.__dict__)
    own = {x[2] for x in L.phis}
    ins = [unbound(s, own, b) for b in L.backs]
    M.phis = [(r, p, ph, subst(i, s), [subst(n, z) for n, z in zip(ns, ins)]) for r, p, ph, i, ns in L.phis]
    M.backs = [y for y in (st_sub(b, z) for b, z in zip(L.backs, ins)) if y is not None]
    if len(M.backs) != len(L.backs):
        raise Undecided("loop")
    return M


def unbound(s, own, b):
    """the variables of s that still mean the same inside: those not bound again there"""
    own = own | {x[2] for ev in evlist(b) if ev[0] == "loop" for x in ev[1].phis}
    return {k: v for k, v in s.items() if k not in own}


def st_sub(st, s, drop=None):
    F = b_sub(st.facts, s)
    if F is None:
        return None
    r = St()
    r.mem, r.facts = st.mem, F
    for ev in st.events():
        if ev is not drop:
            r.event(*ev_sub(ev, s))
    return r


def mentions(x, ts):
    if isinstance(x, T):
        return any(y in ts for y in subterms(x))
    if isinstance(x, (tuple, list)):
        return any(mentions(y, ts) for y in x)
    return False


class Flat:
    """`loop { inner: loop {a}; b }` does what `loop { a or b }` does, if the inner loop continues with
    the variables of the outer one and nothing else looks at their old values"""

    def __init__(self):
        self.memo = {}

    def pair(self, L, M, mev):
        k = (id(L), id(M))
        if k not in self.memo:
            try:
                self.memo[k] = (self.make(L, M, mev), L, M)
            except Undecided:
                self.memo[k] = (None, L, M)
        return self.memo[k][0]

    def make(self, L, M, mev):
        Lp = {x[2]: x for x in L.phis if x[2].op == "phi"}
        if any(x[2].op != "phi" for x in L.phis + M.phis):
            # variables tied to others follow them
            pass
        nb = len(evlist(L.hst))
        if len(evlist(M.hst)) != nb:
            return None
        backs = []
        for b in L.backs:
            ev = evlist(b)[nb:]
            if not ev or ev[0][0] != "loop" or ev[0][1] is not M:
                return None
            backs.append((b, ev[0]))
        s, used = {}, set()
        for r, p, ph, init, ns in M.phis:
            if ph.op != "phi":
                continue
            if init not in Lp or init in used:
                return None
            used.add(init)
            s[init] = ph
        old = set(s)
        new = [e for e in M.hst.facts.log if e not in set(L.hst.facts.log)]
        if any(mentions(a, old) and M.hst.facts.decide(subst(a, s)) is None and not self.trivial(a, v, s) for a, v in new):
            return None
        base = set(M.hst.facts.log)
        for b in M.backs + L.backs:
            for a, v in b.facts.log:
                if (a, v) not in base and mentions(a, old) and not self.trivial(a, v, s):
                    return None
            for ev in evlist(b)[nb:]:
                if ev[0] != "loop" and mentions(ev, old):
                    return None
        mb = [st_sub(b, s) for b in M.backs]
        lb = [st_sub(b, s, drop=e) for b, e in backs]
        if any(x is None for x in mb + lb):
            return None
        F = Loop()
        F.__dict__.update(L.__dict__)
        F.backs = mb + lb
        F.phis = []
        mp = {x[3]: x for x in M.phis if x[2].op == "phi"}
        for r, p, ph, init, ns in L.phis:
            if ph in s:
                x = mp[ph]
                if any(mentions(n, old) for n in x[4]) or any(mentions(n, old) for n in ns):
                    return None
                F.phis.append((r, p, s[ph], init, [subst(n, s) for n in x[4]] + [subst(n, s) for n in ns]))
            else:
                F.phis.append((r, p, ph, init, [ph] * len(mb) + [subst(n, s) for n in ns]))
        h = st_sub(L.hst, s)
        if h is None:
            return None
        F.hst = h
        F.sub = s
        return F

    def trivial(self, a, v, s):
        d = Facts().decide(subst(a, s))
        return d is not None and d == v

    def state(self, st, val=None):
        """st with every flattenable nest replaced, and the value expressed accordingly"""
        for _ in range(12):
            evs = st.events()
            rel = [e for e in evs if e[0] in ("user", "effect", "ocall", "loop", "call", "alloc", "free", "forget", "ptrwrite")]
            for i in range(len(rel) - 2, -1, -1):
                if rel[i][0] == "loop" and rel[i + 1][0] == "loop":
                    F = self.pair(rel[i][1], rel[i + 1][1], rel[i + 1])
                    if F is not None:
                        break
            else:
                return st, val
            s = F.sub
            old = set(s)
            if val is not None and mentions(val, old):
                return st, val
            base = set(rel[i + 1][1].hst.facts.log)
            if any((a, v) not in base and mentions(a, old) and not self.trivial(a, v, s) for a, v in st.facts.log):
                return st, val
            F2 = b_sub(st.facts, s)
            if F2 is None:
                return st, val
            r = St()
            r.mem, r.facts = st.mem, F2
            for ev in evs:
                if ev is rel[i + 1]:
                    continue
                if ev is rel[i]:
                    r.event("loop", F)
                else:
                    r.event(*ev_sub(ev, s))
            st = r
        return st, val

    def out(self, o):
        try:
            st, v = self.state(o.st, o.val if isinstance(o.val, T) else None)
        except Undecided:
            return o
        if st is o.st:
            return o
        return Out(o.kind, v if isinstance(o.val, T) else o.val, st, o.why)


def b_sub(F, s):
    G = Facts()
    for p, v in F.log:
        G = G.assume(subst(p, s) if s else p, v)
        if G is None:
            return None
    return G


def compare(rep, rule, w, ps, qs):
    c = Cmp(rep, rule, w)
    bad = unk = 0
    for p in ps:
        if infeasible(p.st.facts.log):
            continue
        hit = False
        worst = True
        for q in qs:
            r, m = c.pair(p, q)
            if r == "apart":
                continue
            hit = True
            if r is True:
                rep.ok(rule, w)
            elif r is False:
                rep.bad(rule, w, m + (f" (for instance {c.why})" if c.why else ""))
            else:
                rep.unk(rule, w, m)
                unk += 1
            bad += r is False
        if not hit:
            unk += 1
            rep.unk(rule, w, f"path without counterpart: {p.kind} {p.val!r:.100} {[(str(a)[:80], v) for a, v in p.st.facts.log][-3:]}")
    if unk and not bad and c.types is not None:
        # what was not decided is looked at in small models
        model.TRACE = {} if os.environ.get("MODEL") else None
        why, k, n = model.differ_any(INPUTS, c.types, ps, qs)
        if os.environ.get("MODEL"):
            print("ANY", w, n, why)
        if why:
            rep.bad(rule, w, f"does something else than specified for {why}")


# ------------------------------------------------------------------ the first iterations of the loops of a path
class Peel:
    """paths without loops: each loop of a path taken a few times (loop peeling)"""

    LIMIT = 60

    def paths(self, o, iters=1):
        try:
            r = []
            for s, log, evs in self.walk(o.st.events(), {}, iters):
                F = sub_facts(Facts(), log, {})
                F = F and sub_facts(F, o.st.facts.log, s)
                if F is None:
                    continue
                st = St()
                st.mem, st.facts = o.st.mem, F
                for ev in evs:
                    st.event(*ev)
                val = subst(o.val, s) if isinstance(o.val, T) else o.val
                if any(has_phi(x) for x in (F.log, tuple(evs), val)):
                    # part of a loop that is not taken apart
                    continue
                r.append(Out(o.kind, val, st, o.why))
                if len(r) > self.LIMIT:
                    break
            return r
        except Undecided:
            return []

    def walk(self, evs, s0, iters):
        """(values of the loop variables, conditions of the iterations, events) for each choice"""
        res = [(dict(s0), (), ())]
        for ev in evs:
            nxt = []
            for s, log, out in res:
                if ev[0] != "loop":
                    nxt.append((s, log, out + (ev_sub(ev, s),) if ev[0] in SHOWN else out))
                    continue
                L = ev[1]
                z = dict(s)
                ph = [x for x in L.phis if x[2].op == "phi"]
                for x in ph:
                    z[x[2]] = subst(x[3], s)
                cur = [(z, log, out)]
                nxt += cur
                n = len(L.hst.events())
                for _ in range(iters):
                    new = []
                    for z, log, out in cur:
                        for i, b in enumerate(L.backs):
                            for z2, log2, out2 in self.walk(b.events()[n:], z, iters - 1):
                                w = dict(z)
                                for x in ph:
                                    w[x[2]] = subst(x[4][i], z2)
                                lg = log + log2 + tuple((subst(a, z2), v) for a, v in b.facts.log)
                                if sub_facts(Facts(), lg, {}) is None:
                                    continue
                                new.append((w, lg, out + out2))
                                if len(new) > self.LIMIT:
                                    break
                    cur = new[:self.LIMIT]
                    nxt += cur
            res = nxt[:self.LIMIT]
        return res


def has_phi(x):
    if isinstance(x, Loop):
        return True
    if isinstance(x, T):
        return any(y.op == "phi" for y in subterms(x))
    return isinstance(x, (tuple, list)) and any(has_phi(y) for y in x)


SHOWN = ("user", "effect", "ocall", "loop", "call", "alloc", "free", "forget", "ptrwrite")


def compare_peeled(rep, rule, w, ps, qs):
    """a difference on a path whose loops are taken a few times is a difference"""
    if not any(loops_seq(o.st) for o in ps + qs):
        return
    pe = Peel()
    t0 = time.time()
    for it in (0, 1, 2):
        p1 = [x for o in ps for x in pe.paths(o, it)]
        q1 = [x for o in qs for x in pe.paths(o, it)]
        if time.time() - t0 > 30 or len(p1) * len(q1) > (30000, 150000, 6000)[it]:
            break
        c = Cmp(rep, rule, w)
        for p in p1:
            if time.time() - t0 > 30:
                break
            for q in q1:
                r, m = c.pair(p, q)
                if r is False:
                    rep.bad(rule, w, m)
                    return
        if it and len(p1) * len(q1) > 400:
            break


def pair_rule(rep, name, config="release", extra=None, muts=None):
    """compare imp::name with spec::name"""
    global PROG
    P = spec_prog(config)
    PROG = P
    mod = name.rsplit("::", 1)[0] if "::" in name else None
    bi, bs = P.body(f"spec::{name.replace('!', 'imp')}"), P.body(f"spec::{name.replace('!', 'spec')}")
    if bi is None or bs is None:
        raise Missing(name)
    names = [bi.locals[i + 1].get("n") or f"arg{i}" for i in range(bi.argc)]
    args = [mk("param", n) for n in names]
    global TYPES, INPUTS
    TYPES = {n: t for n, t in zip(names, bi.sig_in) if t is not None}
    if "t" in TYPES and "node" in TYPES and "range" in TYPES:
        TYPES.update(tnode=TYPES["node"], start=("prim", "usize"), end=("prim", "usize"))
    if "u" in TYPES and "other" in TYPES and "orange" in TYPES:
        TYPES.update(unode=TYPES["other"], ostart=("prim", "usize"), oend=("prim", "usize"))
    INPUTS = model.Inputs(P)
    s0 = St()
    bind(P, s0, names, args, bi)
    text_arg(P, s0, names, args)
    builder_arg(P, s0, names, args, bi)
    fn = name.rsplit("::", 1)[1]
    extra = dict(extra or {}, **extras(fn))
    e1 = engine_for(P, bi, extra=extra)
    e2 = engine_for(P, bs, extra=extra)
    for e in (e1, e2):
        if fn.startswith("c17m_"):
            e.epochs = True
            e.atoms["<rowan::cursor::SyntaxNode>::is_mutable"] = lambda e, st, c: ONE
        if fn.startswith("c08m_"):
            e.field_assume[(ND, field(P, ND, "mutable"))] = ONE
            e.silent = True
    ps = e1.analyse(bi, list(args), st=s0.fork())
    qs = e2.analyse(bs, list(args), st=s0.fork())
    for o in ps + qs:
        o.val = as_pair(P, o.val)
        if fn.startswith("c06_"):
            builder_state(e1, o, names, args, bi)
    fl = Flat()
    ps, qs = [fl.out(o) for o in ps], [fl.out(o) for o in qs]
    rep.funcs |= {b for b in e1.calls if b.startswith("rowan") or b.startswith("<rowan")}
    rep.paths += len(ps)
    w = name.replace("::!::", "::")
    for x, os_ in (("function", ps), ("specification", qs)):
        if not any(o.kind == "ret" for o in os_):
            rep.unk("same-as-spec", w, f"no path of the {x} returns")
    compare(rep, "same-as-spec", w, ps, qs)
    if fn.startswith("c08m_") or os.environ.get("PEEL"):
        compare_peeled(rep, "same-as-spec", w, ps, qs)


def bind(P, st, names, args, b):
    """parameters of a harness that stand for parts of others"""
    ix = {n: i for i, n in enumerate(names)}
    if "it" in ix and "start" in ix:
        t = b.sig_in[ix["it"]]
        while t[0] == "ref":
            t = t[2]
        i = field(P, t[1], "start")
        args[ix["start"]] = addr(mk("at", args[ix["it"]]), (("f", i, t[1], P.nfields(t[1], 0)),))


BUILDER = "rowan::green::builder::GreenNodeBuilder"
CACHE = "<rowan::green::node_cache::NodeCache>::"


def builder_arg(P, st, names, args, b):
    """parents and children of the builder `b`, children of the builder `a`"""
    ix = {n: i for i, n in enumerate(names)}
    for who, part, f in (("b", "parents", "parents"), ("b", "children", "children"), ("a", "other", "children")):
        if who not in ix or part not in ix:
            continue
        i = field(P, BUILDER, f)
        s = ("f", i, BUILDER, P.nfields(BUILDER, 0))
        if b.sig_in[ix[who]][0] == "ref":
            args[ix[part]] = addr(mk("at", args[ix[who]]), (s,))
        else:
            args[ix[part]] = fld(args[ix[who]], None, i, BUILDER, s[3])


def builder_state(e, o, names, args, b):
    """the outcome together with the builder left behind"""
    if "b" in names and o.kind in ("ret", "panic"):
        i = names.index("b")
        if b.sig_in[i][0] == "ref":
            at, n = mk("at", args[i]), e.prog.nfields(BUILDER, 0)
            parts = [e.read(o.st, at, (("f", field(e.prog, BUILDER, f), BUILDER, n),)) for f in ("parents", "children")]
            o.val = agg("(tuple)", 0, (o.val if o.val is not None else UNIT, *[seq_norm(x) for x in parts]))
    return o


def seq_norm(x):
    return ENG.seq_of(x) if x.op != "seq" else x


def cache_token(e, st, c):
    """the token the cache has for a kind and a text"""
    k, t = c.args[-2:]
    r = mk("ap", "cached", (k, t))
    st.event("ocall", "cache token", (k, t), r, c.site)
    return r


def cache_node(e, st, c):
    """the node the cache has for a kind and the children from a position on, which are taken"""
    k, v, first = c.args[-3:]
    sp = I.seq_split(e, st, e.load(st, v), first)
    if sp is None:
        front, back = mk("ap", "front", (e.load(st, v), first)), mk("ap", "back", (e.load(st, v), first))
    else:
        front, back = ENG.seq_mk(sp[0]), ENG.seq_mk(sp[1])
    e.store(st, v, front)
    r = mk("ap", "cached", (k, back))
    st.event("ocall", "cache node", (k, back), r, c.site)
    return r


def caches():
    return {CACHE + "token": cache_token, "spec::build::spec::cached_token": cache_token,
            CACHE + "node": cache_node, "spec::build::spec::cached_node": cache_node}


def text_arg(P, st, names, args):
    """t is the text `range` of `node` (u that of `other`)"""
    ix = {n: i for i, n in enumerate(names)}
    for t, node, range_, start, end, tnode in (("t", "node", "range", "start", "end", "tnode"), ("u", "other", "orange", "ostart", "oend", "unode")):
        if not (t in ix and node in ix and range_ in ix):
            continue
        TR = "models::TextRange"
        lo, hi = mk("param", start), mk("param", end)
        names_ = [n for n, _ in fields_of(P, TR)]
        r = agg(TR, 0, tuple(lo if n == "start" else hi for n in names_))
        n = mk("param", tnode)
        args[ix[range_]] = r
        reg = mk("at", mk("param", node))
        st.mem[reg] = n
        ST = "rowan::syntax_text::SyntaxText"
        reg2 = mk("at", args[ix[t]])
        fs = [n_ for n_, _ in fields_of(P, ST)]
        if sorted(fs) != ["node", "range"]:
            raise Missing("fields of SyntaxText")
        st.mem[reg2] = agg(ST, 0, tuple(n if f == "node" else r for f in fs))
        f = st.facts.assume(le(lo, hi))
        st.facts = f


def as_pair(P, v):
    """a text as (node, range)"""
    ST = "rowan::syntax_text::SyntaxText"
    if v is not None and v.op == "agg" and v.a[0] == ST:
        fs = [n_ for n_, _ in fields_of(P, ST)]
        return agg("(tuple)", 0, (v.a[2][fs.index("node")], v.a[2][fs.index("range")]))
    return v


def sequence(nm):
    """an iterator over a list that depends on the receiver only"""

    def h(e, st, c):
        if c.body is not None and not c.body.key.startswith("rowan::cursor"):
            return None
        v = mk("ap", nm, (pval(e, st, c.args[0], ("ref", False, ("adt", NODE, ()))),))
        fs = [n for n, _ in fields_of(e.prog, "models::VecIter")]
        d = {"v": v, "lo": ZERO, "hi": mk("vlen", v)}
        return agg("models::VecIter", 0, tuple(d[f] for f in fs))

    return h


SEQS = {CN + "descendants_with_tokens": sequence("dwt"), CN + "descendants": sequence("desc")}


LISTS = {CN + "children": sequence("children"), CN + "children_with_tokens": sequence("cwt")}


EVENTS = {CN + "preorder": sequence("pre"), CN + "preorder_with_tokens": sequence("pwt")}


# ------------------------------------------------------------------ formatting
def fmt_arg(mode):
    def h(e, st, c):
        t = c.a[0]
        v = c.args[0]
        while t[0] == "ref":
            v, t = e.load(st, v), t[2]
        return mk("agg", "#fmtarg", mode, (v, mk("ty", t)))

    return h


def fmt_args(e, st, c):
    t = c.args[0]
    if t.op != "str" or not t.a[0].startswith("bytes:"):
        return None
    r, p, _ = target(c.args[1])
    arr = e.read(st, r, p)
    if arr.op != "agg":
        return None
    out = pieces(bytes.fromhex(t.a[0][6:]), arr.a[2])
    return None if out is None else mk("agg", "#fmt", 0, tuple(out))


def pieces(b, args):
    i, k, out = 0, 0, []
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            return out if i == len(b) else None
        if n < 128:
            out.append(mk("str", b[i:i + n].decode()))
            i += n
        elif n == 128:
            m = b[i] + 256 * b[i + 1]
            out.append(mk("str", b[i + 2:i + 2 + m].decode()))
            i += 2 + m
        elif n == 0xC0 and k < len(args):
            out.append(args[k])
            k += 1
        else:
            return None
    return None


def fmt_str(e, st, c):
    return mk("agg", "#fmt", 0, (c.args[0],))


def write_fmt(e, st, c):
    a = c.args[1]
    if a.op != "agg" or a.a[0] != "#fmt":
        return None
    outs = [Out("ret", Ok_(UNIT), st)]
    for x in a.a[2]:
        nxt = []
        for o in outs:
            if o.kind != "ret":
                nxt.append(o)
                continue
            v = o.val
            s = o.st
            if v.op == "agg" and v.a[0] == RESULT and v.a[1] == 1:
                nxt.append(o)
                continue
            nxt += emit_piece(e, s, c, c.args[0], x)
        outs = nxt
    return outs


def Ok_(x):
    return agg(RESULT, 0, (x,))


def emit_piece(e, st, c, f, x):
    if x.op != "agg":
        return emit(e, st, x, "display", c.site)
    v, t = x.a[2]
    t, mode = t.a[0], x.a[1]
    tr = "core::fmt::" + mode.capitalize()
    return e.call_named(st, c.d + 1, tr + "::fmt", tr, (t,), None, None, [v, f], (("ref", False, t), ("ref", True, ("adt", "core::fmt::Formatter", ()))), None, c.site)


def emit(e, st, v, mode, site):
    """something is written; whether it worked is not known"""
    r = mk("ap", "oc:emit", (mk("str", mode), v))
    st.event("ocall", "emit", (mk("str", mode), v), r, site)
    d = mk("discr", r, 1)
    outs = []
    for k, x in ((ZERO, UNIT), (ONE, agg("core::fmt::Error", 0, ()))):
        s = st.fork().assume(eqi(d, k))
        if s is not None:
            outs.append(Out("ret", agg(RESULT, k.a[0], (x,)), s))
    return outs


def emit_text(mode):
    def h(e, st, c):
        i = 1 if c.method in ("write_str", "write_char", "pad") else 0
        return emit(e, st, c.args[i], mode, c.site)

    return h


def emit_value(mode):
    """the text of a value of a type not looked into"""

    def h(e, st, c):
        t = c.a[0] if c.a else c.body.sig_in[0][2]
        v = c.args[0]
        t0 = t
        while t[0] == "ref":
            v, t = e.load(st, v), t[2]
        if t[0] == "adt" and c.trait and e.prog.body(f"<{t[1]} as {c.trait}>::fmt"):
            if t is t0:
                return None
            fm = (("ref", False, t), ("ref", True, ("adt", "core::fmt::Formatter", ())))
            return e.call_named(st, c.d + 1, c.trait + "::fmt", c.trait, (t,), None, None, [v, c.args[1]], fm, None, c.site)
        if t[0] == "other" and str(t[1]) == "str" or t[0] == "str":
            return emit(e, st, v, mode, c.site)
        return emit(e, st, v if unsized(t) else e.load(st, v), mode, c.site)

    return h


def written(mode, name):
    """the text of the value itself, unless this is the function looked at"""

    def h(e, st, c):
        if c.body is None or e.stack and e.stack[-1].endswith("::imp::c28_" + name):
            return None
        v = pval(e, st, c.args[0], c.body.sig_in[0])
        return emit(e, st, v, mode, c.site)

    return h


def formats():
    r = {"<core::fmt::Arguments>::new": fmt_args, "<core::fmt::Arguments>::from_str": fmt_str}
    for m in ("display", "debug"):
        r[f"<core::fmt::rt::Argument>::new_{m}"] = fmt_arg(m)
        r[f"core::fmt::{m.capitalize()}::fmt"] = emit_value(m)
        r[f"<str as core::fmt::{m.capitalize()}>::fmt"] = emit_text(m)
    for n in ("<core::fmt::Formatter>::write_fmt", "<core::fmt::Formatter as core::fmt::Write>::write_fmt", "core::fmt::Write::write_fmt"):
        r[n] = write_fmt
    for n in ("<core::fmt::Formatter>::write_str", "<core::fmt::Formatter as core::fmt::Write>::write_str", "core::fmt::Write::write_str",
              "<core::fmt::Formatter>::pad", "core::fmt::Write::write_char", "<core::fmt::Formatter as core::fmt::Write>::write_char"):
        r[n] = emit_text("display")
    n = "node::GreenNodeData"
    r[f"<rowan::green::{n} as core::fmt::Display>::fmt"] = written("display", "green_data")
    for n, x in (("Node", "node"), ("Token", "token")):
        r[f"<rowan::api::Syntax{n} as core::fmt::Debug>::fmt"] = written("debug", "debug_" + x)
    return r


GREEN_EDITS = ("replace_child", "insert_child", "remove_child")


def call_atom(nm):
    """the call, by its arguments"""

    def h(e, st, c):
        return mk("ap", nm, tuple(c.args))

    return h


def owned(e, st, c):
    return mk("ap", "owned", (c.args[0],))


def owned_deref(e, st, c):
    v = e.load(st, c.args[0])
    return v.a[1][0] if v.op == "ap" and v.a[0] == "owned" else None


def cow_deref(e, st, c):
    v = e.load(st, c.args[0])
    if v.op != "agg":
        return None
    x = v.a[2][0]
    if v.a[1] == 0:
        return x
    return x.a[1][0] if x.op == "ap" and x.a[0] == "owned" else None


def greens():
    """green trees as values: owning one and borrowing it are the same"""
    g = "rowan::green::"
    r = {"<alloc::borrow::Cow as core::ops::deref::Deref>::deref": cow_deref}
    for n in ("node::GreenNode", "token::GreenToken"):
        r[f"<{g}{n}Data as alloc::borrow::ToOwned>::to_owned"] = owned
        r[f"<{g}{n} as core::ops::deref::Deref>::deref"] = owned_deref
        r[f"<{g}{n} as core::clone::Clone>::clone"] = val_clone
        r[f"drop:{g}{n}"] = nodrop
    return r


def extras(fn, P=None):
    if fn.startswith("c04"):
        import eqgreen

        return eqgreen.building() if fn.startswith("c04_") else eqgreen.editing()
    if fn.startswith(("c18_", "c30_")):
        return SEQS
    if fn.startswith("c20_"):
        import eqser

        return eqser.serializing()
    if fn.startswith("c28_"):
        return dict(formats(), **greens(), **SEQS, **EVENTS)
    if fn.startswith("c06_"):
        return caches()
    if fn.startswith("c25_"):
        return dict(greens(), **{"<rowan::green::node::GreenNodeData>::" + m: call_atom(m) for m in GREEN_EDITS},
                    **{x + m: None for x in (CN, CT) for m in ("green", "index")})
    if fn.startswith(("c23_", "c24_")):
        return dict(SEQS, **LISTS)
    if fn.startswith("c08m_"):
        return dict(by_handle())
    return {}


BY_KIND = ("first_child_by_kind", "first_child_or_token_by_kind", "next_sibling_by_kind", "next_sibling_or_token_by_kind")


def by_handle():
    """steps of the data behind a handle are those of the handle; lookups by kind are expanded"""
    r = {}
    for m in ("next_sibling", "prev_sibling", "next_sibling_or_token", "prev_sibling_or_token", "kind", "parent"):
        r[f"<{ND}>::{m}"] = data_step(m)
    for m in BY_KIND:
        for t in (CN, CT):
            r[t + m] = None
    return r


def data_step(m):
    def h(e, st, c):
        r, p, _ = target(c.args[0])
        if p or r.op != "at":
            return None
        x = r.a[0]
        if x.op != "fld" or x.a[3] not in (NODE, TOKEN):
            return None
        n = ("<SyntaxNode>::" if x.a[3] == NODE else "<SyntaxToken>::") + m
        return parent_law(e, x.a[0]) if m == "parent" and parent_law(e, x.a[0]) is not None else mk("ap", n, (x.a[0],))

    return h


def spec_names(prefix):
    P = spec_prog()
    r = []
    for n in sorted(P.by_name):
        if n.startswith("spec::") and "::imp::" in n and n.rsplit("::", 1)[1].startswith(prefix):
            r.append(n[len("spec::"):].replace("::imp::", "::!::"))
    return r


if __name__ == "__main__":
    import collections

    rep = Rep()
    t = time.time()
    spec_prog()
    pmap(rep, pair_rule, spec_names(sys.argv[1]))
    print(collections.Counter((e.st, e.rule) for e in rep.es), time.time() - t)
    ok = {e.where for e in rep.es}
    print("names", len(ok))
    for k, n in collections.Counter((e.st, e.rule, e.where, e.msg) for e in rep.es if e.st != OK).items():
        print(n, *[str(x)[:600] for x in k])
