"""Properties of types and items: thread bounds (C02), confinement of unsafe code and layouts (C22)."""
from base import *
import build
import equiv

HOLDERS = {NODE, TOKEN, ND}


def adts(P):
    return {a["p"]: a for a in P.dump["adts"] if a["p"].startswith("rowan::")}


def holds(P, p, seen=None):
    """does a value of this type hold a cursor handle?"""
    seen = seen if seen is not None else set()
    if p in HOLDERS:
        return True
    if p in seen or p not in P.adts:
        return False
    seen.add(p)

    def ty(t):
        if not isinstance(t, tuple):
            return False
        if t and t[0] == "adt":
            return holds(P, t[1], seen) or any(ty(x) for x in t[2])
        return any(ty(x) for x in t[1:] if isinstance(x, tuple))

    return any(ty(t) for fs in P.adts[p]["fields"] for _, t in fs)


def c02(rep):
    P = prog()
    rule = "not-threadsafe"
    for p, a in sorted(adts(P).items()):
        if not a.get("auto") or a["auto"].get("Send") is None:
            continue
        au = a["auto"]
        w = f"{p} ({a['sp']})"
        if holds(P, p):
            for t in ("Send", "Sync"):
                if au[t]:
                    rep.bad(rule, w, f"holds a cursor handle and is {t}")
                else:
                    rep.ok(rule, w)
    for t in ("Send", "Sync"):
        for i in P.impls.get("core::marker::" + t, []):
            s = i["self"]
            while s and s[0] in ("ref", "ptr"):
                s = s[2]
            if not i["neg"] and s and s[0] == "adt" and s[1].startswith("rowan::") and holds(P, s[1]):
                rep.bad("no-impl", f"impl {t} for {s[1]}", "a type that holds a cursor handle is declared thread-safe")
    try:
        out = build.spec(reuse=bool(os.environ.get("ROWAN_REUSE_SPEC")))
    except build.BuildError as x:
        rep.unk("witness", "spec", "the witness types do not build: " + str(x)[-300:])
        return
    with open(os.path.join(out, "spec.release.json")) as f:
        d = json.load(f)
    n = 0
    for a in d["adts"]:
        if a["p"].startswith("spec::auto::") and a.get("auto"):
            nm = a["p"].rsplit("::", 1)[1]
            want = True if nm.startswith("Yes") else False if nm.startswith("No") else None
            if want is None:
                continue
            n += 1
            for t in ("Send", "Sync"):
                w = f"{nm}"
                if a["auto"][t] != want:
                    rep.bad("witness", w, f"is {'' if a['auto'][t] else 'not '}{t}")
                else:
                    rep.ok("witness", w)
    if not n:
        rep.unk("witness", "spec", "no witness types found")
    rep.paths += n


# ------------------------------------------------------------------ C22
def lint_kind(strs):
    """the level explicitly given for unsafe_code, or None"""
    r = None
    for s in strs:
        for part in s.split("LintCheck {"):
            if 'lint_name: "unsafe_code"' in part:
                m = re.search(r"kind: (\w+)", part)
                r = m.group(1) if m else "?"
    return r


def peel(P, t, d=0):
    """through transparent wrappers"""
    while t is not None and t[0] == "adt" and d < 10:
        a = RAW.get(t[1])
        if a is None or not a.get("transparent"):
            return t
        fs = [f for _, f in P.adts[t[1]]["fields"][0] if not zst(f)]
        if len(fs) != 1:
            return t
        g = dict(zip(P.adts[t[1]].get("generics") or [], t[2]))
        t = tsub(fs[0], g)
        d += 1
    return t


def tsub(t, g):
    from program import tsubst

    try:
        return tsubst(t, g)
    except Exception:
        return t


def zst(t):
    return t is not None and (t[0] == "adt" and t[1] == "core::marker::PhantomData" or t == ("tuple", ()))


RAW = {}


def c22(rep):
    P = prog()
    d = P.dump
    RAW.update(adts(P))
    root = lint_kind(d["attrs"])
    mods = {m["p"]: lint_kind(m["unsafe_code"]) for m in d["mods"]}
    crate_ok = root in ("Deny", "Forbid")

    def level(p):
        while "::" in p:
            if mods.get(p):
                return mods[p], True
            p = p.rsplit("::", 1)[0]
        return root, False

    if crate_ok:
        rep.ok("lint", "crate")
    else:
        rep.bad("lint", "crate (src/lib.rs)", f"the crate does not reject unsafe code: level of unsafe_code is {root}")
    for m in mods:
        lv, explicit = level(m)
        if explicit or lv in ("Deny", "Forbid"):
            rep.ok("lint", m)
        else:
            rep.bad("lint", m, "unsafe code is accepted without the module opting in")
    unsafe_mods = [m for m in mods if level(m)[0] not in ("Deny", "Forbid")]
    for u in d["unsafe"]:
        rep.ok("confined", u["in"])
    for b in d["bodies"]:
        if not b["name"].startswith(("rowan", "<rowan", "<&rowan")) or b["kind"] not in ("Fn", "AssocFn"):
            continue
        w = f"{b['name']} ({b['sp']})"
        if b["exported"]:
            if b["unsafe"]:
                rep.bad("safe-interface", w, "an exported function is unsafe to call")
            else:
                rep.ok("safe-interface", w)
    # layouts of reinterpreted types
    seen = set()
    for b in P.bodies.values():
        if b.model or not b.key.startswith("rowan"):
            continue
        rep.funcs.add(b.name)
        for bb in b.blocks:
            for s in bb["s"]:
                r = s.get("r")
                if not isinstance(r, dict) or r.get("k") != "cast":
                    continue
                if not (r["ck"].startswith("PtrToPtr") or r["ck"].startswith("Transmute")):
                    continue
                a, c = b.tys[r["from"]], b.tys[r["t"]]
                if not (isinstance(a, tuple) and isinstance(c, tuple)):
                    continue
                layout(rep, P, b, a, c, s.get("sp"), seen)
    # nothing raw in public positions
    for p, a in sorted(RAW.items()):
        if not a["pub"]:
            continue
        for v, fs in zip(a["variants"], P.adts[p]["fields"]):
            for (fn, ft), raw in zip(fs, v["fs"]):
                if (raw.get("pub") or a["kind"] == "enum") and rawty(ft):
                    rep.bad("no-raw", f"{p}.{fn} ({a['sp']})", "a raw pointer, cell or internal type is a public field")
                else:
                    rep.ok("no-raw", p)
    for b in P.bodies.values():
        if b.exported and not b.model and b.kind in ("Fn", "AssocFn") and b.key.startswith("rowan"):
            if rawty(b.sig_out) or any(rawty(t) for t in b.sig_in):
                rep.bad("no-raw", where(b), "an exported function takes or returns a raw pointer or cell")
            else:
                rep.ok("no-raw", b.name)


def rawty(t):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "ptr":
        return True
    if t[0] == "adt":
        if t[1] in ("core::ptr::non_null::NonNull", "core::cell::Cell", "core::cell::UnsafeCell", "core::sync::atomic::Atomic") or t[1] in INTERNAL:
            return True
        return any(rawty(x) for x in t[2])
    return any(rawty(x) for x in t[1:] if isinstance(x, tuple))


INTERNAL = {ND, "rowan::arc::Arc", "rowan::arc::ThinArc", "rowan::arc::ArcInner", "rowan::green::node::GreenChild"}


def layout(rep, P, b, a, c, sp, seen):
    def pointee(t):
        while t and t[0] == "adt" and t[1] == "core::ptr::non_null::NonNull":
            t = ("ptr", True, t[2][0])
        return t[2] if t and t[0] in ("ref", "ptr") else None

    x, y = pointee(a), pointee(c)
    if x is None or y is None:
        return
    if not any(t[0] == "adt" and t[1] in RAW for t in (x, y) if t):
        return
    w = where(b, f"{show(x)} -> {show(y)}")
    px, py = peel(P, x), peel(P, y)
    if px == py or px and py and px[0] == py[0] == "adt" and px[1] == py[1]:
        return rep.ok("layout", w)
    for t in (x, y):
        # a wrapper of one field whose representation is not fixed
        if t[0] == "adt" and t[1] in RAW and P.adts[t[1]]["kind"] == "struct":
            r = RAW[t[1]]
            fs = [f for _, f in P.adts[t[1]]["fields"][0] if not zst(f)]
            if not r.get("transparent") and not r.get("c") and not (r.get("int")):
                o = y if t is x else x
                if len(fs) == 1 or o[0] == "adt" and o[1] in RAW:
                    return rep.bad("layout", w, f"a pointer is reinterpreted but {t[1]} has no defined layout")
    # unsized views of a header followed by elements
    rep.ok("layout", w) if all(t[0] != "adt" or t[1] not in RAW or RAW[t[1]].get("c") or RAW[t[1]].get("transparent") for t in (px, py)) else rep.unk("layout", w, "layouts not related")


def show(t):
    return t[1].rsplit("::", 1)[-1] if t[0] == "adt" else t[0]


import re

CHECKS = {
    "C02": dict(
        run=c02,
        technique="auto-trait query on the type-checked program, with witness types for generic instances",
        explanation="For every type of the crate that (transitively through its fields) holds a cursor handle, rustc's trait solver is asked whether the type is "
        "Send or Sync; generic types are asked through witness types that instantiate them with a language that is itself both. The same for the green types, which must be both. "
        "Explicit Send/Sync impls for types holding a handle are rejected.",
        rules={"not-threadsafe": "a type holding a cursor handle is neither Send nor Sync", "no-impl": "no Send/Sync impl for such a type",
               "witness": "the concrete instances in spec/src/auto.rs have exactly the expected auto traits"},
        assumptions=["rustc's trait solver"],
        note="All types of the crate; 24 negative and 9 positive concrete instances.",
    ),
    "C22": dict(
        run=c22,
        technique="queries over the type-checked program: lint levels, exported signatures, representation attributes at pointer casts",
        explanation="The level of the unsafe_code lint is computed for every module from the attributes in force; every exported function's safety and signature is inspected; "
        "for every pointer cast or transmute in MIR between types of the crate, both pointee types have to unwrap through repr(transparent) to the same type, or have a C layout; public fields and "
        "signatures of exported functions must not contain raw pointers, cells or the internal types.",
        rules={"lint": "a module without an explicit opt-in denies unsafe_code", "confined": "unsafe blocks found (each in a module that opted in)",
               "safe-interface": "exported functions are safe", "layout": "reinterpreted types have a defined layout", "no-raw": "nothing raw is reachable from outside"},
        assumptions=[],
        note="All modules, exported functions, types and casts of the crate.",
    ),
}
