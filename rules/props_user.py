"""C29: the caller's code runs only while the trees are whole; a panic of it leaves them whole."""
from props_edit import *
from engine import loc
from live import live_in
from props_mem import whole, balanced, phi_map, first, callees, frees, by_loop, iteration
import props_sll
import re


def by_caller(o):
    return o.kind == "panic" and o.why and o.why[0] == "caller"


def analyse(P, b, mut):
    for mod in (False, True):
        e = ledger_engine(P, mut, atoms=callees(P, b) if mod else None, budget=400000)
        e.unwind = True
        try:
            return e, e.analyse(b)
        except Undecided as x:
            if "budget" not in str(x) or mod:
                raise


def intact(rep, w, e, C, K, st, what):
    """no edit is half done"""
    s = Stretch(e, C, St(), st, 0, what)
    if infeasible(tuple(st.facts.log)):
        return
    for r in s.unclear:
        rep.unk("listed", w, f"parent of {r!r:.80} not known")
    props_sll.joins(rep, w, K, e, s)
    props_sll.leaves(rep, w, K, e, s)
    Edit(rep, w, e, C, s, None).run()
    rep.ok("intact", w)


class Under:
    """findings of another rule's code, under this property's rules"""

    def __init__(self, rep, rule):
        self.rep, self.rule = rep, rule

    def put(self, st, rule, where, msg=""):
        self.rep.put(st, self.rule, where, msg)

    def check(self, ok, rule, where, msg=""):
        self.rep.check(ok, self.rule, where, msg)

    def ok(self, rule, where, msg=""):
        self.rep.ok(self.rule, where, msg)

    def bad(self, rule, where, msg=""):
        self.rep.bad(self.rule, where, msg)

    def unk(self, rule, where, msg=""):
        self.rep.unk(self.rule, where, msg)


BORROWS = re.compile(r"GreenNodeData|GreenTokenData|green::node::(GreenChild|Children|NodeChildren)")


def reached(st, v):
    """all terms in a value, following pointers to local variables"""
    out, todo, seen = set(), [v], set()
    while todo:
        xs = subterms(todo.pop())
        out |= xs
        for x in xs:
            if x.op == "loc" and x not in seen:
                seen.add(x)
                w = st.mem.get(x)
                if w is not None:
                    todo.append(w)
    return out


def held(e, st, frames):
    """[(frame, local, type, value)] of what the functions on the stack use after the call under way"""
    for n, (fr, t) in enumerate(frames):
        if t["t"] is None:
            continue
        ty = lambda l: e.ty(fr, fr.b.locals[l]["t"])
        later = live_in(fr.b, lambda l: e.needs_drop(ty(l)))[t["t"]] - ({t["d"]["l"]} if not t["d"].get("p") else set())
        for l in sorted(later):
            v = st.mem.get(loc(fr.d, l))
            if v is not None and v is not UNDEF:
                yield fr, l, ty(l), v


def borrows(rep, w, e, C, st, frames):
    """nothing of the content of editable nodes is borrowed while code of the caller runs"""
    own = []
    found = []
    for fr, l, t, v in held(e, st, frames):
        if t is None:
            continue
        r = repr(t)
        if t[0] == "adt" and t[1] == GNT or "borrow::Cow" in r:
            own.append(v)
        elif BORROWS.search(r):
            for x in reached(st, v):
                if x.op == "fld" and x.a[1] == C.gnode and x.a[0].op == "fld" and x.a[0].a[3] == ND and x.a[0].a[2] == C.green:
                    name = fr.b.locals[l].get("n") or f"a temporary of {short(fr.b.name)}"
                    found.append((name, x))
                    break
    for name, x in found:
        rep.put(UNK if own else BAD, "borrowed", w, f"{name} points into the content of an editable node, {x!r:.80}, and is used after the call; the caller's code may replace that content")
    if not found:
        rep.ok("borrowed", w)


def one(rep, it):
    b, mut = it
    P = prog()
    K = props_sll.Links()
    C = K.C
    e, outs = analyse(P, b, mut)
    rep.funcs.add(b.name)
    if not any(by_caller(o) for o in outs):
        return
    rep.paths += len(outs)
    loops = {}
    w0 = f"{where(b)} mutable={mut}"
    for o in outs:
        if not by_caller(o) and o.kind != "ret":
            continue
        ls = whole(e, C, b, o)
        if by_caller(o):
            w = f"{w0}, code called at {o.why[1]}"
            if mut:
                borrows(rep, w, e, C, *e.asking[o.why[2]])
                intact(Under(rep, "whole-at-call"), w, e, C, K, e.asking[o.why[2]][0], "call")
                intact(Under(rep, "whole-after-panic"), w, e, C, K, o.st, "panic")
            for s, led in ls:
                m = phi_map(o.st.events())
                if not m or first(s, m):
                    balanced(rep, "balance", w, e, s, led, m)
            frees(Under(rep, "free"), w, e, C, o.st)
        for s, led in ls:
            for L, l in by_loop(o.st, resolve(e, s, led)):
                loops.setdefault(id(L), (L, []))[1].append((s, l))
    for L, ends in loops.values():
        iteration(Under(rep, "balance"), w0, e, C, L, ends)


def item(rep, it):
    try:
        one(rep, it)
    except (Undecided, Missing) as x:
        rep.unk("balance", where(it[0]), str(x)[:200])


def run_c29(rep):
    P = prog()
    bs = [b for b in functions(P, "rowan") if (b.exported or b.impl_of) and not is_fmt(b) and b.impl_of != "core::ops::drop::Drop" and not elsewhere(b)]
    pmap(rep, item, sorted([(b, m) for b in bs for m in (0, 1)], key=lambda x: -len(x[0].blocks)))


def elsewhere(b):
    """C21"""
    return b.name.endswith("::from_header_and_iter")


CHECKS = {
    "C29": dict(run=run_c29, technique="unwind-path analysis over MIR: accounting of references and edits on every path on which code of the caller panics, and at every point where it is called",
                explanation="Abstract interpretation of the MIR of every exported function and trait method of the crate, for immutable and for editable trees, with every call of code that the caller supplies (closures, iterators) "
                "also ending in a panic; the unwind edges of the MIR are then followed through all functions on the stack. On each of these paths the reference counts of elements and green trees have to match the handles "
                "and parent links left (as in C09), nothing is released early or twice, and no edit is half done (as in C12 and C13): an element that has a parent is in the parent's list and in its content, one that was taken out is in neither, "
                "and new content has been passed on to the root. The latter has to hold already at the call, as the caller's code may hold handles of the same tree and use them.",
                rules={"borrowed": "nothing that is used after a call of the caller's code points into the content of a node of an editable tree", "whole-at-call": "no edit is half done where code of the caller is called", "whole-after-panic": "no edit is half done when a panic of it leaves the function",
                       "balance": "when a panic leaves the function counts match the handles and parent links that are left; what loops hold does not depend on whether they are left by a panic", "free": "an element is released once, when no reference is left, also while unwinding"},
                note="The comparison of texts (SyntaxText's ==) takes no code of the caller that could panic other than through Language and is not followed to the end. The construction of headers and slices is C21. "),
}
if __name__ == "__main__":
    import collections

    rp = Rep()
    if len(sys.argv) > 1:
        for b in functions(prog(), "rowan"):
            if b.name == sys.argv[1]:
                for m in (0, 1):
                    item(rp, (b, m))
    else:
        run_c29(rp)
    for x in sorted({x.key() + (x.st,) for x in rp.es if x.st != "ok"}):
        print(x[3], x[0], x[1][:150], str(x[2])[:300])
    print(collections.Counter((x.st, x.rule) for x in rp.es))
    if os.environ.get("LIST"):
        print(*sorted({x.where for x in rp.es}), sep="\n")
