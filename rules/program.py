"""The analysed program: MIR bodies, types, impls and ADTs of /repo plus the reference models."""
import re
import json, os

# std and text-size types whose values the analysis represents by a model type
ADT_MAP = {
    "core::slice::iter::Iter": "models::SliceIter",
    "core::iter::adapters::enumerate::Enumerate": "models::Enumerate",
    "core::iter::adapters::rev::Rev": "models::Rev",
    "core::iter::adapters::skip::Skip": "models::Skip",
    "core::iter::adapters::take::Take": "models::Take",
    "core::iter::adapters::map::Map": "models::Map",
    "core::iter::adapters::filter::Filter": "models::Filter",
    "core::iter::adapters::filter_map::FilterMap": "models::FilterMap",
    "core::iter::adapters::map_while::MapWhile": "models::MapWhile",
    "core::iter::adapters::take_while::TakeWhile": "models::TakeWhile",
    "core::iter::adapters::skip_while::SkipWhile": "models::SkipWhile",
    "core::iter::adapters::zip::Zip": "models::Zip",
    "core::iter::adapters::chain::Chain": "models::Chain",
    "core::iter::adapters::cloned::Cloned": "models::Cloned",
    "core::iter::adapters::copied::Copied": "models::Cloned",
    "core::iter::adapters::inspect::Inspect": "models::Inspect",
    "core::iter::adapters::fuse::Fuse": "models::Fuse",
    "core::iter::adapters::peekable::Peekable": "models::Peekable",
    "core::iter::sources::successors::Successors": "models::Successors",
    "core::iter::sources::from_fn::FromFn": "models::FromFn",
    "core::iter::sources::once::Once": "models::Once",
    "core::iter::sources::empty::Empty": "models::Empty",
    "core::option::IntoIter": "models::OptIter",
    "alloc::vec::into_iter::IntoIter": "models::VecIter",
    "core::array::iter::IntoIter": "models::VecIter",
    "alloc::vec::drain::Drain": "models::VecIter",
    "text_size::range::TextRange": "models::TextRange",
}
MODEL_OF = {
    "<core::option::Option>::": "models::option::",
    "<core::option::Option as core::ops::try_trait::Try>::": "models::option::",
    "<core::option::Option as core::ops::try_trait::FromResidual<core::option::Option>>::": "models::option::",
    "<core::option::Option as core::clone::Clone>::": "models::option::",
    "<core::option::Option as core::cmp::PartialEq<core::option::Option>>::": "models::option::",
    "<core::option::Option as core::iter::traits::collect::IntoIterator>::": "models::option::",
    "<core::result::Result>::": "models::result::",
    "<core::result::Result as core::ops::try_trait::Try>::": "models::result::",
    "<core::result::Result as core::ops::try_trait::FromResidual<core::result::Result>>::": "models::result::",
    "<bool>::": "models::boolean::",
    "<slice>::": "models::slice::",
    "<&slice as core::iter::traits::collect::IntoIterator>::": "models::slice::",
    "core::iter::traits::iterator::Iterator::": "models::iter::",
    "core::iter::traits::double_ended::DoubleEndedIterator::": "models::iter::",
    "core::iter::sources::successors::": "models::iter::",
    "core::iter::sources::from_fn::": "models::iter::",
    "core::iter::sources::once::": "models::iter::",
    "core::iter::sources::empty::": "models::iter::",
    "<core::iter::adapters::peekable::Peekable>::": "<models::Peekable>::",
    "<core::slice::iter::Iter>::": "<models::SliceIter>::",
    "<text_size::range::TextRange>::": "<models::TextRange>::",
    "<core::ops::range::Range>::": "models::range::",
    "<core::ops::range::Range as core::iter::traits::iterator::Iterator>::": "models::range::",
    "<core::ops::range::Range as core::iter::traits::double_ended::DoubleEndedIterator>::": "models::range::",
    "<core::ops::range::Range as core::iter::traits::exact_size::ExactSizeIterator>::": "models::range::",
}
TR = "<models::TextRange>::"
for k, m in {
    "<text_size::range::TextRange as core::ops::arith::Sub<text_size::size::TextSize>>::sub": "sub",
    "<text_size::range::TextRange as core::ops::arith::Add<text_size::size::TextSize>>::add": "add",
    "<text_size::range::TextRange as core::cmp::PartialEq<text_size::range::TextRange>>::eq": "eq",
}.items():
    MODEL_OF[k] = TR + m

TRANSPARENT = {
    "core::cell::Cell", "core::cell::UnsafeCell", "core::ptr::non_null::NonNull",
    "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_dangling::MaybeDangling",
    "core::mem::maybe_uninit::MaybeUninit", "alloc::boxed::Box", "core::ptr::unique::Unique",
    "core::num::nonzero::NonZero", "core::num::nonzero::NonZeroInner", "core::sync::atomic::Atomic",
}
# owners that must stay visible in values: every value of these types is one reference
OWNERS = ("rowan::green::node::GreenNode", "rowan::green::token::GreenToken")


class Body:
    pass


class Prog:
    def __init__(self, outdir, modeldir, crate="rowan", config="release"):
        self.config, self.crate = config, crate
        self.bodies = {}
        self.by_name = {}
        self.promoted = {}
        self.impls = {}
        self.impl_list = []
        self.adts = {}
        self.transparent = dict.fromkeys(TRANSPARENT, 0)
        self.dump = None
        self._load(os.path.join(modeldir, "models.release.json"), False)
        self._load(os.path.join(outdir, f"{crate}.{config}.json"), True)

    def _load(self, path, main):
        with open(path) as f:
            d = json.load(f)
        if main:
            self.dump = d
        raw = d["tys"]
        done = [None] * len(raw)

        def ty(i):
            if i is None:
                return None
            if not isinstance(i, int):
                return ("const", i)
            if done[i] is not None:
                return done[i]
            r = raw[i]
            k = r["k"]
            if k == "adt":
                p = r["p"]
                if p == "text_size::size::TextSize":
                    t = ("prim", "u32")
                else:
                    t = ("adt", ADT_MAP.get(p, p), tuple(ty(x) for x in r["a"]))
            elif k in ("ref", "ptr"):
                t = (k, r["mut"], ty(r["t"]))
            elif k == "slice":
                t = ("slice", ty(r["t"]))
            elif k == "array":
                t = ("array", ty(r["t"]), r["n"])
            elif k == "tuple":
                t = ("tuple", tuple(ty(x) for x in r["a"]))
            elif k == "closure":
                t = ("closure", r["key"], tuple(ty(x) for x in r["up"]), None)
            elif k == "fndef":
                t = ("fndef", r["p"], tuple(ty(x) for x in r["a"] or ()), r["key"])
            elif k == "param":
                t = ("param", r["n"])
            elif k == "never":
                t = ("never",)
            elif k == "prim":
                t = ("prim", r["s"])
            else:
                t = (k, r["s"])
            done[i] = t
            return t

        for i in range(len(raw)):
            ty(i)
        for a in d["adts"]:
            p = ADT_MAP.get(a["p"], a["p"])
            if p in self.adts and not a["local"]:
                continue
            fields = [[(f["n"], ty(f.get("t"))) for f in v["fs"]] for v in a["variants"]]
            self.adts[p] = {"kind": a["kind"], "variants": [v["n"] for v in a["variants"]],
                            "fields": fields, "local": a["local"], "raw": a}
            if a["transparent"] and a["local"] and a["p"] not in OWNERS:
                idx = [i for i, (n, t) in enumerate(fields[0])
                       if not (t and t[0] == "adt" and t[1] in ("core::marker::PhantomData", "countme::Count"))]
                if len(idx) == 1:
                    self.transparent[p] = idx[0]
        for b in d["bodies"]:
            o = Body()
            o.__dict__.update(b)
            o.tys = done
            o.self_ty = ty(b["self"]) if b["self"] is not None else None
            o.sig_in = [ty(x) for x in b["sig_in"]]
            o.sig_out = ty(b["sig_out"]) if b["sig_out"] is not None else None
            o.model = not main
            o.loops = None
            if o.promoted is not None:
                self.promoted[f"{o.key}::promoted#{o.promoted}"] = o
                continue
            self.bodies[o.key] = o
            self.by_name.setdefault(o.name, []).append(o)
        for i in d["impls"]:
            if not i["trait"]:
                continue
            r = {"key": i["key"], "trait": i["trait"], "self": ty(i["self"]),
                 "targs": [ty(x) for x in i["targs"]], "items": {x["n"]: x["key"] for x in i["items"]},
                 "neg": i["neg"], "unsafe": i["unsafe"], "derived": i["derived"], "preds": i["preds"],
                 "sp": i["sp"], "main": main}
            self.impls.setdefault(i["trait"], []).append(r)
            self.impl_list.append(r)

    def nfields(self, adt, variant):
        a = self.adts.get(adt)
        if a is None:
            return None
        try:
            return len(a["fields"][variant or 0])
        except IndexError:
            return None

    def body(self, name, self_head=None):
        bs = self.by_name.get(name, [])
        if self_head is not None:
            bs = [b for b in bs if self_head(b.self_ty)]
        return bs[0] if bs else None


INTO = re.compile(r"<(\w+) as (?:\w+::)*IntoIterator>::IntoIter")


def into_iter(t, env):
    """the iterator a type is turned into, where it is known"""
    m = INTO.fullmatch(str(t[1])) if isinstance(t[1], str) else None
    s = env.get(m.group(1)) if m else None
    if s is None or s[0] != "adt":
        return t
    if s[1] == "alloc::vec::Vec":
        return ("adt", "models::VecIter", s[2][:1])
    if s[1] == "core::option::Option":
        return ("adt", "models::OptIter", s[2])
    return s


def tsubst(t, env):
    """substitute type parameters"""
    if t is None or not env:
        return t
    k = t[0]
    if k == "param":
        return env.get(t[1], t)
    if k == "alias":
        return into_iter(t, env)
    if k == "adt":
        return (k, t[1], tuple(tsubst(x, env) for x in t[2]))
    if k in ("ref", "ptr"):
        return (k, t[1], tsubst(t[2], env))
    if k == "slice":
        return (k, tsubst(t[1], env))
    if k == "array":
        return (k, tsubst(t[1], env), t[2])
    if k == "tuple":
        return (k, tuple(tsubst(x, env) for x in t[1]))
    if k == "closure" and t[3] is None:
        return (k, t[1], tuple(tsubst(x, env) for x in t[2]), tuple(sorted(((a, b) for a, b in env.items() if b != ("param", a)), key=lambda x: x[0])))
    if k == "fndef":
        return (k, t[1], tuple(tsubst(x, env) for x in t[2]), t[3])
    return t


def unify(pat, t, env):
    """match an impl's type pattern against a type; unknown parts of t match anything"""
    if pat[0] == "param":
        if pat[1] in env and env[pat[1]] != t:
            return env[pat[1]][0] in ("param", "alias", "other") or t[0] in ("param", "alias", "other")
        env[pat[1]] = t
        return True
    if t[0] in ("param", "alias", "other"):
        return t == pat or "weak"
    if pat[0] == "alias":
        return "weak"
    if pat[0] != t[0]:
        return False
    if pat[0] == "adt":
        if pat[1] != t[1]:
            return False
        if len(pat[2]) != len(t[2]):
            return "weak"
        return _all(unify(a, b, env) for a, b in zip(pat[2], t[2]))
    if pat[0] in ("ref", "ptr"):
        return pat[1] == t[1] and unify(pat[2], t[2], env)
    if pat[0] in ("slice", "array"):
        return unify(pat[1], t[1], env)
    if pat[0] == "tuple":
        return len(pat[1]) == len(t[1]) and _all(unify(a, b, env) for a, b in zip(pat[1], t[1]))
    if pat[0] == "const":
        return True
    return pat == t


def _all(it):
    r = True
    for x in it:
        if not x:
            return False
        if x == "weak":
            r = "weak"
    return r
