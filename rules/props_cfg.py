"""C26: what is compiled only with, or only without, debug assertions changes nothing.

The two builds of a function are brought into one shape (overflow checks removed, blocks in order of a
walk from the entry). Where the shapes agree, the constants in which they differ are the configuration;
the blocks reached under one value only are what one build does and the other does not."""
from base import *
import build, json, re

WRITES = re.compile(r"(<core::cell::(Cell|RefCell|OnceCell|UnsafeCell)>::(set|replace|take|swap|update|borrow_mut|replace_with|get_or_init)\b)|(<core::sync::atomic::\w+(<.*>)?>::(store|swap|fetch_\w+|compare_\w+))|"
                    r"(core::ptr::(write\w*|copy\w*|swap\w*|replace|drop_in_place))|(<ptr>::(write\w*|copy_\w+|swap|replace|drop_in_place))|(core::mem::(replace|swap|take|forget))|(core::intrinsics::(write|copy|atomic)\w*)")
PANICS = re.compile(r"panick|assert_failed|unwrap_failed|expect_failed|slice_\w+_fail|unreachable|begin_panic|handle_alloc_error")
HANDLES = {NODE, TOKEN, ND, "rowan::green::node::GreenNode", "rowan::green::token::GreenToken", "rowan::arc::Arc", "rowan::arc::ThinArc"}


def succs(t):
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        return [x[1] for x in t["arms"]] + ([t["else"]] if t["else"] is not None else [])
    if k in ("call", "drop", "assert"):
        return [x for x in (t.get("t"), t.get("u")) if x is not None]
    return []


class Shape:
    """the blocks of a body without overflow checks, in order"""

    def __init__(self, b, dump):
        self.b, self.tys = b, dump["tys"]
        self.sub = {}  # locals that stand for the pair (result, overflow)
        chk = set()
        for bl in b["blocks"]:
            if bl["t"]["k"] == "assert" and "verflow" in str(bl["t"]["n"]) and "p" in bl["t"]["o"]:
                chk.add(bl["t"]["o"]["p"]["l"])
        self.chk = chk
        self.order, self.blocks = {}, []
        self.preds = {}
        for bl in b["blocks"]:
            t = bl["t"]
            for x in [t["t"]] if self.checks(t) else succs(t):
                self.preds[x] = self.preds.get(x, 0) + 1
        work = [0]
        heads = []
        while work:
            i = work.pop()
            if i in self.order:
                continue
            self.order[i] = len(heads)
            heads.append(i)
            _, t = self.run(i)
            work += reversed(succs(t))
        for i in heads:
            ss, t = self.run(i)
            self.blocks.append((ss, t, [self.order[x] for x in succs(t)]))

    def checks(self, t):
        return t["k"] == "assert" and t["o"].get("p", {}).get("l") in self.chk

    def unchecked(self, ss):
        """pairs of result and overflow replaced by the result"""
        pend, out = {}, []
        for s in ss:
            if s["k"] == "=" and s["p"]["l"] in self.chk and not s["p"].get("p") and s["r"]["k"] == "bin":
                pend[s["p"]["l"]] = s["r"]
                continue
            if s["k"] == "=" and s["r"]["k"] == "use":
                p = s["r"]["o"].get("p")
                if p and p["l"] in pend and p.get("p") and len(p["p"]) == 1:
                    s = dict(s, r=pend[p["l"]])
            out.append(s)
        return out

    def run(self, i):
        """statements up to the next branching"""
        ss, seen = [], set()
        while True:
            bl = self.b["blocks"][i]
            ss += [s for s in bl["s"] if s["k"] != "dead"]
            t = bl["t"]
            if self.checks(t):
                nxt = t["t"]
            elif t["k"] == "goto" and self.preds[t["t"]] == 1:
                nxt = t["t"]
            else:
                return self.unchecked(ss), t
            if nxt in seen:
                return self.unchecked(ss), t
            seen.add(nxt)
            i = nxt


class Match:
    """two shapes agree up to some constants"""

    def __init__(self, d, r):
        self.d, self.r, self.l = d, r, {}
        self.back = {}
        self.consts = []  # (operand in debug, operand in release)
        self.ok = len(d.blocks) == len(r.blocks) and all(x[2] == y[2] for x, y in zip(d.blocks, r.blocks)) and self.all()

    def all(self):
        for (s1, t1, _), (s2, t2, _) in zip(self.d.blocks, self.r.blocks):
            if len(s1) != len(s2) or not all(self.eq(a, b) for a, b in zip(s1, s2)) or not self.eq(t1, t2):
                return False
        return True

    def local(self, a, b):
        if self.l.setdefault(a, b) != b or self.back.setdefault(b, a) != a:
            return False
        return True

    def eq(self, a, b, key=None):
        if isinstance(a, dict) and isinstance(b, dict):
            if "l" in a and ("t" in a or "p" in a) and "k" not in a:  # a place
                pa, pb = a.get("p") or [], b.get("p") or []
                if a["l"] in self.d.chk and pa and pa[0]["k"] == "f":
                    pa = pa[1:]
                if b.get("l") in self.r.chk and pb and pb[0]["k"] == "f":
                    pb = pb[1:]
                return self.local(a["l"], b.get("l")) and len(pa) == len(pb) and all(self.eq(x, y) for x, y in zip(pa, pb))
            if a.get("k") != b.get("k") and {a.get("k"), b.get("k")} != {"copy", "move"}:
                return False
            if a.get("k") == "bin":
                return a["op"].replace("WithOverflow", "") == b["op"].replace("WithOverflow", "") and self.eq(a["a"], b["a"]) and self.eq(a["b"], b["b"])
            if a.get("k") == "const" and a.get("v") in (0, 1) and b.get("v") in (0, 1) and a["v"] != b["v"] and self.d.tys[a["t"]].get("s") == "bool":
                self.consts.append((id(a), id(b)))
                return True
            for k in set(a) | set(b):
                if k in ("k", "sp", "t", "u", "ty", "arms", "else", "a", "ra", "from", "key", "rkey", "fn"):
                    continue
                if k == "s" and a.get("k") == "const" and not isinstance(a.get("s"), str):
                    continue
                if not self.eq(a.get(k), b.get(k), k):
                    return False
            if a.get("k") == "switch":
                return [x[0] for x in a["arms"]] == [x[0] for x in b["arms"]]
            return True
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        return a == b


def reached(sh, consts):
    """blocks reached when the operands of the configuration have their values"""
    # locals that hold such a value, and nothing else
    val, bad = {}, set()
    n = 0
    while True:
        n += 1
        for ss, t, _ in sh.blocks:
            for s in ss:
                if s["k"] == "=" and not s["p"].get("p"):
                    l, v = s["p"]["l"], None
                    r = s["r"]
                    if r["k"] == "use":
                        v = value(r["o"], val, consts)
                    elif r["k"] == "un" and r["op"] == "Not":
                        v = value(r["o"], val, consts)
                        v = None if v is None else (1 - v[0], v[1])
                    if v is None or l in val and val[l] != v:
                        bad.add(l)
                    else:
                        val[l] = v
            if t["k"] == "call":
                bad.add(t["d"]["l"])
        for l in bad:
            val.pop(l, None)
        if n > 4:
            break
    out, work, cut = set(), [0], 0
    while work:
        i = work.pop()
        if i in out:
            continue
        out.add(i)
        ss, t, nx = sh.blocks[i]
        if t["k"] == "switch":
            v = value(t["o"], val, consts)
            if v is not None and v[1]:
                cut += 1
                arms = [x[1] for x in t["arms"] if x[0] == v[0]] or [t["else"]]
                nx = [sh.order[x] for x in arms if x is not None]
        work += nx
    return out, cut, val


def value(o, val, consts):
    """(value, is it the configuration)"""
    if o["k"] == "const":
        return (o["v"], id(o) in consts) if o.get("v") in (0, 1) else None
    p = o.get("p")
    return val.get(p["l"]) if p and not p.get("p") else None


def returning(sh):
    """blocks from which the function can return"""
    good = {i for i, (_, t, _) in enumerate(sh.blocks) if t["k"] == "ret"}
    while True:
        n = len(good)
        for i, (_, t, nx) in enumerate(sh.blocks):
            u = t.get("u")
            if any(x in good for x in nx if u is None or x != sh.order[u] or t.get("t") == u):
                good.add(i)
        if len(good) == n:
            return good


class Effects:
    """what a call does besides computing a value"""

    def __init__(self, dump):
        self.dump = dump
        self.by = {}
        for b in dump["bodies"]:
            if b["promoted"] is None:
                self.by.setdefault(b["key"], b)
        self.memo = {}

    def ty(self, i):
        return self.dump["tys"][i]

    def owned(self, i, n=0):
        """a type whose values are owned handles"""
        if n > 6 or not isinstance(i, int):
            return False
        t = self.ty(i)
        if t["k"] == "adt":
            return t["p"] in HANDLES or any(self.owned(x, n + 1) for x in t["a"])
        if t["k"] == "tuple":
            return any(self.owned(x, n + 1) for x in t["a"])
        return t["k"] == "ptr" and self.owned(t["t"], n + 1)

    def mut_ref(self, i):
        t = self.ty(i)
        return t["k"] == "ref" and t["mut"]

    def body(self, key):
        """a description of the writes of a function, or None"""
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        b = self.by[key]
        r = None
        mem = {"core::clone::Clone", "core::ops::drop::Drop"}
        if b["impl_of"] in mem or b["sig_out"] is not None and self.owned(b["sig_out"]) and not any(self.mut_ref(x) for x in b["sig_in"]):
            return None  # hands out, or gives back, a reference (ownership is C09's)
        blocks = [([s for s in bl["s"] if s["k"] != "dead"], bl["t"], None) for bl in b["blocks"] if not bl.get("c")]
        for d in self.of(b, blocks, set(range(b["argc"] + 1, len(b["locals"]))), {}):
            r = d
            break
        self.memo[key] = r
        return r

    def of(self, b, blocks, inner, names):
        """effects of blocks on what is not in the locals `inner`"""
        L = b["locals"]
        refs = {}  # local -> outer local it borrows mutably
        for ss, t, _ in blocks:
            for s in ss:
                if s["k"] == "=" and s["r"]["k"] in ("ref", "rawptr") and s["r"].get("mut") and not s["p"].get("p"):
                    p = s["r"]["p"]
                    deref = any(x["k"] == "deref" for x in p.get("p") or [])
                    if p["l"] not in inner:
                        refs[s["p"]["l"]] = p["l"]
                    elif deref and p["l"] in refs:
                        refs[s["p"]["l"]] = refs[p["l"]]
        for ss, t, _ in blocks:
            for s in ss:
                if s["k"] == "=" and any(x["k"] == "deref" for x in s["p"].get("p") or []):
                    i = s["p"]["l"]
                    if i in inner and self.fresh(b, blocks, i):
                        continue
                    yield f"write through {self.lname(b, i)} ({s.get('sp')})"
            if t["k"] == "call":
                d = self.call(b, t, refs)
                if d:
                    yield d

    def fresh(self, b, blocks, i):
        """a local that borrows a local of the stretch"""
        for ss, t, _ in blocks:
            for s in ss:
                if s["k"] == "=" and s["p"]["l"] == i and not s["p"].get("p"):
                    r = s["r"]
                    if r["k"] in ("ref", "rawptr") and not any(x["k"] == "deref" for x in r["p"].get("p") or []):
                        return r["p"]["l"] > b["argc"]
                    return False
        return self.ty(b["locals"][i]["t"])["k"] == "adt"

    def lname(self, b, i):
        return b["locals"][i].get("n") or f"_{i}"

    def call(self, b, t, refs):
        f = t["f"]
        n = f.get("res") or f.get("n") or ""
        key = f.get("rkey") or (f.get("key") if f.get("trait") is None else None)
        if PANICS.search(n):
            return None
        if WRITES.search(n):
            return f"{short_name(n)} ({t.get('sp')})"
        for a in t["args"]:
            p = a.get("p")
            if p and p["l"] in refs and not (p.get("p")):
                return f"{short_name(n)} changes {self.lname(b, refs[p['l']])} ({t.get('sp')})"
        if key in self.by:
            r = self.body(key)
            return f"{short_name(n)} ({t.get('sp')}): {r}" if r else None
        return None


def short_name(n):
    return n.replace("rowan::", "").replace("core::", "")


def used(sh, blocks, l):
    """where a local is read in blocks"""
    def walk(x):
        if isinstance(x, dict):
            if x.get("l") == l and "k" not in x:
                return True
            return any(walk(v) for v in x.values())
        if isinstance(x, list):
            return any(walk(v) for v in x)
        return False

    for i in blocks:
        ss, t, _ = sh.blocks[i]
        for s in ss:
            if s["k"] == "=":
                if walk(s["r"]) or s["p"].get("p") and walk(s["p"]):
                    return True
            elif walk(s):
                return True
        if t["k"] == "ret" and l == 0:
            return True
        if t["k"] == "switch" and walk(t["o"]) or t["k"] == "call" and walk(t["args"]) or t["k"] == "assert" and walk(t["o"]):
            return True
    return False


def assigned(sh, blocks):
    out = {}
    for i in blocks:
        ss, t, _ = sh.blocks[i]
        for s in ss:
            if s["k"] == "=":
                out.setdefault(s["p"]["l"], s.get("sp"))
        if t["k"] == "call":
            out.setdefault(t["d"]["l"], t.get("sp"))
    return out


def one(rep, d, r, D, R):
    sd, sr = Shape(d, D), Shape(r, R)
    w = f"{d['name']} ({d['sp']})"
    m = Match(sd, sr)
    ed, er = Effects(D), Effects(R)
    if not m.ok:
        whole(rep, w, d, r, ed, er)
        return
    rep.ok("same-code", w)
    if not m.consts:
        return
    rd, _, vd = reached(sd, {a for a, _ in m.consts})
    rr, _, vr = reached(sr, {b for _, b in m.consts})
    gd, gr = returning(sd), returning(sr)
    common = rd & rr
    only = {"with": (sd, d, ed, (rd - rr) & gd), "without": (sr, r, er, (rr - rd) & gr)}
    effs = {}
    for k, (sh, b, e, blocks) in only.items():
        inner = {l for l in assigned(sh, blocks)} - set(assigned(sh, set(range(len(sh.blocks))) - blocks)) - set(range(b["argc"] + 1))
        effs[k] = list(e.of(b, [sh.blocks[i] for i in sorted(blocks)], inner, {}))
    for k, o in (("with", "without"), ("without", "with")):
        sh, b, e, blocks = only[k]
        left = [strip(x) for x in effs[o]]
        for x in effs[k]:
            if strip(x) in left:
                left.remove(strip(x))
                rep.unk("no-effect", w, f"done in both builds, in separate places: {x}")
                continue
            mm = re.match(r".* changes (\S+) \(", x)
            rep.bad("no-effect", w, f"only {k} debug assertions: {x}")
        if not effs[k]:
            rep.ok("no-effect", w)
        # values that leave the blocks
        sh2, b2, e2, blocks2 = only[o]
        mine, theirs = assigned(sh, blocks), assigned(sh2, blocks2)
        tr = m.l if k == "with" else m.back
        val = vd if k == "with" else vr
        for l, sp in mine.items():
            if l in val or not used(sh, common, l):
                continue
            if all_writes_in(sh, blocks | (set(range(len(sh.blocks))) - (rd if k == "with" else rr)), l) and not used_in(sh, common & gd, l):
                continue
            if tr.get(l, l) in theirs:
                rep.unk("no-value", w, f"{e.lname(b, l)} is computed in one way with, in another without debug assertions ({sp})")
            else:
                rep.bad("no-value", w, f"{e.lname(b, l)} is set only {k} debug assertions ({sp}), and used in both builds")
    rep.ok("no-value", w)


def used_in(sh, blocks, l):
    return used(sh, blocks, l)


def all_writes_in(sh, blocks, l):
    return l not in assigned(sh, set(range(len(sh.blocks))) - blocks)


def strip(x):
    return re.sub(r"\(src/[^)]*\)", "", x)


def whole(rep, w, d, r, ed, er):
    """the two builds differ in more than a constant: compare what they do"""
    a = [strip(x) for x in all_effects(d, ed)]
    b = [strip(x) for x in all_effects(r, er)]
    rep.unk("same-code", w, "the two builds of this function have different code")
    for x in set(a) | set(b):
        if (x in a) != (x in b):
            rep.bad("no-effect", w, f"only {'with' if x in a else 'without'} debug assertions: {x}")


def all_effects(b, e):
    blocks = [([s for s in bl["s"] if s["k"] != "dead"], bl["t"], None) for bl in b["blocks"] if not bl.get("c")]
    return list(e.of(b, blocks, set(range(b["argc"] + 1, len(b["locals"]))), {}))


def run(rep):
    P = prog()
    D, R = load(P)
    a = {key(b): b for b in D["bodies"]}
    c = {key(b): b for b in R["bodies"]}
    for k in sorted(set(a) | set(c)):
        if k in a and k in c:
            one(rep, a[k], c[k], D, R)
            rep.funcs.add(a[k]["name"])
        else:
            b = a.get(k) or c.get(k)
            rep.unk("same-code", f"{b['name']} ({b['sp']})", "exists in one build only")


def key(b):
    return f"{b['key']}#{b['promoted']}"


def load(P):
    out = []
    for c in ("debug", "release"):
        with open(os.path.join(build.CACHE, "out", f"rowan.{c}.json")) as f:
            out.append(json.load(f))
    return out


CHECKS = {
    "C26": dict(run=run, technique="comparison of the MIR of the two build configurations: effect analysis of the blocks only one of them reaches",
                explanation="Every function of the library is compiled with and without debug assertions. The two MIR bodies have to be the same up to overflow checks and boolean constants; the constants in which they differ are the configuration. "
                "With them propagated, the blocks reached in one build only are analysed: on a way on which the function goes on to return they must not write through references or pointers, call anything that writes "
                "(transitively; handing out and giving back references counted by C09 is no write), change what they borrow mutably, or set a local which both builds read afterwards.",
                rules={"same-code": "the bodies of a function are the same in both builds, up to overflow checks and the configuration", "no-effect": "code of one build only changes nothing", "no-value": "code of one build only computes nothing the other code uses"},
                note="Overflow checks themselves are left out: a computation that overflows panics in one build only. ",
                assumptions=["arithmetic does not overflow (its checks are a difference between the builds)", "a violated internal assumption may panic"]),
}

if __name__ == "__main__":
    import collections

    rp = Rep()
    run(rp)
    for x in rp.es:
        if x.st != "ok":
            print(x.st, x.rule, x.where, str(x.msg)[:200])
    print(collections.Counter((x.st, x.rule) for x in rp.es))
