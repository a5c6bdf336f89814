"""Reports, evidence, and the configuration of the dataflow engine shared by all rules."""
import json, multiprocessing, multiprocessing.pool, os, signal, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from program import Prog
from terms import *
from engine import *

VERIF = build.VERIF
ND = "rowan::cursor::NodeData"
GREEN = "rowan::cursor::Green"
NODE, TOKEN = "rowan::cursor::SyntaxNode", "rowan::cursor::SyntaxToken"
GN, GT = "rowan::green::node::GreenNode", "rowan::green::token::GreenToken"
GCHILD = "rowan::green::node::GreenChild"
NOT = "rowan::utility_types::NodeOrToken"


class Entry:
    """one decided (or not decided) obligation"""

    __slots__ = ("st", "rule", "where", "msg")

    def __init__(self, st, rule, where, msg=""):
        self.st, self.rule, self.where, self.msg = st, rule, where, msg

    def key(self):
        return (self.rule, self.where, self.msg)


OK, BAD, UNK = "ok", "violation", "undecided"


class Rep:
    """collects entries; picklable"""

    def __init__(self):
        self.es = []
        self.funcs = set()
        self.paths = 0

    def ok(self, rule, where, msg=""):
        self.es.append(Entry(OK, rule, where, msg))

    def bad(self, rule, where, msg):
        self.es.append(Entry(BAD, rule, where, msg))

    def unk(self, rule, where, msg):
        self.es.append(Entry(UNK, rule, where, msg))

    def put(self, st, rule, where, msg=""):
        self.es.append(Entry(st, rule, where, msg))

    def check(self, v, rule, where, msg):
        """v: True / False / None (not decided)"""
        self.put(OK if v else BAD if v is False else UNK, rule, where, "" if v else msg)

    def merge(self, o):
        self.es += o.es
        self.funcs |= o.funcs
        self.paths += o.paths

    def count(self, st):
        return sum(1 for e in self.es if e.st == st)

    def __getstate__(self):
        return ([(e.st, e.rule, e.where, e.msg) for e in self.es], self.funcs, self.paths)

    def __setstate__(self, s):
        self.es = [Entry(*x) for x in s[0]]
        self.funcs, self.paths = s[1], s[2]


class Missing(Exception):
    """an anchor of a rule is not in the program"""


_progs = {}


def prog(config="release", crate="rowan"):
    k = (config, crate)
    if k not in _progs:
        out, m = build.all(reuse=bool(os.environ.get("ROWAN_REUSE")))
        os.environ["ROWAN_REUSE"] = "1"
        _progs[k] = Prog(out, m, crate, config)
    return _progs[k]


def field(P, adt, name, variant=0):
    """index of a field"""
    a = P.adts.get(adt)
    if a is None or variant >= len(a["fields"]):
        raise Missing(f"type {adt}")
    for i, (n, t) in enumerate(a["fields"][variant]):
        if n == name:
            return i
    raise Missing(f"field {name} of {adt}")


def variant(P, adt, name):
    a = P.adts.get(adt)
    if a is None or name not in a["variants"]:
        raise Missing(f"variant {name} of {adt}")
    return a["variants"].index(name)


def fields_of(P, adt, variant=0):
    a = P.adts.get(adt)
    if a is None:
        raise Missing(f"type {adt}")
    return a["fields"][variant]


def short(name):
    n = name.replace("rowan::cursor::", "").replace("rowan::", "")
    return n


def site_of(b):
    return f"{b.sp}" if getattr(b, "sp", None) else ""


def where(b, extra=""):
    s = b.name
    sp = getattr(b, "sp", None)
    return s + (f" ({sp})" if sp else "") + (f" {extra}" if extra else "")


# ------------------------------------------------------------------ engine set-up
SLL = ["rowan::sll::init", "rowan::sll::unlink", "rowan::sll::adjust", "rowan::sll::link",
       "<rowan::sll::AddToSllResult>::add_to_sll"]


def sll_atom(name):
    def h(e, st, c):
        snap = []
        tys = c.atys or (None,) * len(c.args)
        for a, t in zip(c.args, tys):
            if t is not None and t[0] not in ("ref", "ptr"):
                snap.append(a)
                continue
            try:
                snap.append(e.load(st, a) if a is not UNDEF and a.op in ("addr", "fat", "fld", "ini", "ap!", "phi", "param") else a)
            except Undecided:
                snap.append(UNDEF)
        r = fresh(name, *c.args)
        st.event("sll", name.rsplit("::", 1)[1], tuple(c.args), tuple(snap), r, c.site)
        return r

    return h


def hdrop(e, st, v, t, site):
    st.event("hdrop", t[1], v, site)
    return [Out("ret", UNIT, st)]


def cursor_engine(P, mut, budget=900000, atoms=None, overflow=False, sll=True, drops=False):
    """drops: handles are only noted as dropped, what the drop does is not followed"""
    at = {n: sll_atom(n) for n in SLL} if sll else {}
    if drops:
        at["drop:" + NODE] = at["drop:" + TOKEN] = hdrop
    at.update(atoms or {})
    asm = {}
    i = field(P, ND, "mutable")
    if mut is not None:
        asm[(ND, i)] = Int(mut)
    LOW[(ND, field(P, ND, "rc"))] = 1
    e = Engine(P, atoms=at, assume=asm, budget=budget, overflow=overflow)
    gi, pi = field(P, ND, "green"), field(P, ND, "parent")
    gn, gt = variant(P, GREEN, "Node"), variant(P, GREEN, "Token")

    def known(v, adt):
        # a node handle and a parent link lead to a node, a token handle to a token
        if adt != GREEN or v.a[3] != ND or v.a[2] != gi or v.a[0].op != "ini":
            return None
        p = v.a[0].a[0]
        if p.op == "fld":
            if p.a[3] == NODE:
                return gn
            if p.a[3] == TOKEN:
                return gt
            if p.a[3] == OPTION and p.a[0].op == "fld" and p.a[0].a[3] == ND and p.a[0].a[2] == pi:
                return gn
        return None

    e.known_variant = known
    return e


def functions(P, prefix, kinds=("Fn", "AssocFn")):
    for k, b in sorted(P.bodies.items()):
        if b.model or b.kind not in kinds:
            continue
        if k.startswith(prefix):
            yield b


def is_fmt(b):
    return "::fmt" in b.key


# ------------------------------------------------------------------ parallel map
_work = None
ITEM_S = float(os.environ.get("RULE_ITEM_S", 150))  # time for one item
DEADLINE = time.time() + float(os.environ.get("RULE_TOTAL_S", 560))  # time for the whole check


def _alarm(*_):
    raise Undecided("time limit")


def _call(i):
    f, items, a = _work
    r = Rep()
    if time.time() > DEADLINE:
        r.unk(f.__name__, _name(items[i]), "not analysed: out of time")
        return r
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, max(1, min(ITEM_S, DEADLINE - time.time())))
        f(r, items[i], *a)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except Undecided as x:
        r.unk(f.__name__, _name(items[i]), f"analysis gave up: {x}")
    except Missing as x:
        r.unk(f.__name__, _name(items[i]), f"anchor not found: {x}")
    except RecursionError:
        r.unk(f.__name__, _name(items[i]), "analysis gave up: recursion")
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)[-1]
        r.unk(f.__name__, _name(items[i]), f"rule failed: {x!r:.200} at {os.path.basename(tb.filename)}:{tb.lineno}")
        if os.environ.get("RULE_DEBUG"):
            traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r


def _name(x):
    if isinstance(x, tuple):
        return "/".join(str(_name(y)) for y in x)
    return getattr(x, "name", str(x))


def pmap(rep, f, items, *a):
    """run rule f(rep, item, *a) for every item, on all cores"""
    global _work
    items = list(items)
    _work = (f, items, a)
    if len(items) <= 1 or os.environ.get("RULE_SERIAL"):
        for i in range(len(items)):
            rep.merge(_call(i))
        return
    n = min(len(items), int(os.environ.get("RULE_JOBS", os.cpu_count() or 4)))
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(n) as pool:
        for r in pool.imap(_call, range(len(items)), 1):
            rep.merge(r)


# ------------------------------------------------------------------ output
def finish(pid, rep, t0, meta):
    """print the result, write the evidence, return the exit code"""
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seen, bad = set(), []
    for e in rep.es:
        if e.st == BAD and e.key() not in seen:
            seen.add(e.key())
            bad.append(e)
    known = known_findings().get(pid, [])
    new, old = [], []
    for e in bad:
        k = [x for x in known if x in f"{e.rule} {e.where} {e.msg}"]
        (old if k else new).append(e)
    per = {}
    for e in rep.es:
        d = per.setdefault(e.rule, {OK: 0, BAD: 0, UNK: 0})
        d[e.st] += 1
    und = {}
    for e in rep.es:
        if e.st == UNK:
            und.setdefault((e.rule, e.where, e.msg), 0)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": meta.get("level", "other"),
        "coverage": {
            "explanation": meta["explanation"],
            "obligations": len(rep.es),
            "discharged": rep.count(OK),
            "functions_analysed": len(rep.funcs),
            "paths": rep.paths,
            "rules": {k: {"held": v[OK], "violated": v[BAD], "undecided": v[UNK]} for k, v in sorted(per.items())},
            "rule_text": meta.get("rules", {}),
            "functions": sorted(rep.funcs)[:400],
            "undecided": [f"{r}: {w}: {m}"[:300] for r, w, m in sorted(und)][:80],
            "samples": [f"{e.rule}: {e.where}"[:200] for e in rep.es if e.st == OK][:6],
        },
        "assumptions": meta.get("assumptions", []),
        "violations": len(bad),
        "wall_s": round(time.time() - t0, 2),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}.json")
    rp = os.path.join(d, f"{pid}.violations.txt")
    if bad:
        with open(rp, "w") as f:
            for e in bad:
                f.write(f"{e.rule}: {e.where}: {e.msg}\n")
    elif os.path.exists(rp):
        os.unlink(rp)
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    for e in old:
        print(f"KNOWN-FINDING: property={pid} {e.rule}: {e.where}: {e.msg}")
    if new:
        for e in new[:20]:
            print(f"  {e.rule}: {e.where}: {e.msg}"[:600])
        print(f"VIOLATION property={pid} replay=evidence/{pid}.violations.txt")
        return 1
    n = rep.count(OK)
    print(f"{pid}: {n} obligations hold, {rep.count(UNK)} not decided, {len(rep.funcs)} functions, {rep.paths} paths, {ev['wall_s']} s")
    return 0


def known_findings():
    """property -> texts identifying a recorded violation (fixed entries suppress nothing)"""
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property="):
                pid, _, txt = l[len("finding: property="):].partition(" ")
                r.setdefault(pid, []).append(txt)
    return r
