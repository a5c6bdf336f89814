"""C27: what the release tool runs, in which order and under which conditions (xtask)."""
from base import *

SHELL = "<xshell::Shell>::"
CMD = "<xshell::Cmd>::"
SAME = ("<alloc::string::String as core::ops::deref::Deref>::deref", "<alloc::string::String>::as_str", "<alloc::string::String as core::clone::Clone>::clone",
        "<alloc::string::String as core::convert::AsRef<str>>::as_ref", "<alloc::string::String as core::borrow::Borrow<str>>::borrow",
        "<alloc::string::String as core::convert::From<&str>>::from", "<str as alloc::borrow::ToOwned>::to_owned", "<str as alloc::string::ToString>::to_string",
        "<alloc::string::String as alloc::string::ToString>::to_string", "<param as alloc::string::ToString>::to_string", "alloc::string::ToString::to_string",
        "<alloc::string::String as core::convert::Into<alloc::string::String>>::into")
NOISE = ("--nocapture", "--workspace", "--all", "--release", "-r", "--", "--quiet", "-q", "--verbose", "-v", "--all-features", "--no-fail-fast", "--locked", "--offline", "--all-targets")
PATHS = ("<std::path::PathBuf as core::convert::From<alloc::string::String>>::from", "<std::path::PathBuf as core::convert::From<&str>>::from", "<std::path::PathBuf as core::convert::From<&param>>::from",
         "<std::path::PathBuf as core::ops::deref::Deref>::deref", "<std::path::PathBuf>::as_path", "<std::path::Path>::new", "<std::path::Path>::to_path_buf",
         "<std::path::PathBuf as core::clone::Clone>::clone", "<alloc::string::String as core::convert::AsRef<std::path::Path>>::as_ref")
CONTEXT = ("anyhow::Context::context", "anyhow::Context::with_context")


def val(e, st, t):
    """the value behind a reference to a local"""
    for _ in range(4):
        if t is UNDEF or t.op not in ("addr", "fat"):
            return t
        try:
            v = e.load(st, t.a[0] if t.op == "fat" else t)
        except Undecided:
            return t
        if v is UNDEF:
            return t
        t = v
    return t


def parts(t):
    """values inside a term, references into memory included as they are"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo += x
        elif isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            todo += x.a


def words_of(e, st, t):
    """the words an argument list stands for, None in place of unknown ones"""
    t = val(e, st, t)
    if t.op == "agg":
        if t.a[0] == OPTION:
            return () if t.a[1] == 0 else (word(e, st, t.a[2][0]),)
        if t.a[0] == "#arr":
            return tuple(word(e, st, x) for x in t.a[2])
    return (None, t)


def word(e, st, t):
    t = val(e, st, t)
    return t.a[0] if t.op == "str" else t


def engine(P, budget):
    def cmd(e, st, c):
        return mk("cmd", (word(e, st, c.args[1]),), ())

    def arg(e, st, c):
        x = val(e, st, c.args[0])
        if x.op != "cmd":
            return None
        return mk("cmd", x.a[0] + (word(e, st, c.args[1]),), x.a[1])

    def args(e, st, c):
        x = val(e, st, c.args[0])
        if x.op != "cmd":
            return None
        return mk("cmd", x.a[0] + words_of(e, st, c.args[1]), x.a[1])

    def mode(name):
        def h(e, st, c):
            x = val(e, st, c.args[0])
            if x.op != "cmd":
                return None
            st_ = mk("cmd", x.a[0], x.a[1] + (name,))
            if c.args[0].op == "addr":
                e.store(st, c.args[0], st_)
                return c.args[0]
            return st_
        return h

    def run(name):
        def h(e, st, c):
            x = val(e, st, c.args[0])
            r = fresh(name, x)
            st.event("xcmd", x.a[0] if x.op == "cmd" else None, x.a[1] if x.op == "cmd" else (), r, c.site, name, st.facts.log)
            return r
        return h

    def same(e, st, c):
        return val(e, st, c.args[0])

    def lines(name):
        def h(e, st, c):
            return mk(name, val(e, st, c.args[0]))
        return h

    def nxt(e, st, c):
        x = val(e, st, c.args[0])
        return fresh("next", x)

    def fmtarg(e, st, c):
        return mk("fmtarg", val(e, st, c.args[0]))

    def fmtargs(e, st, c):
        return mk("fmt", c.args[0], val(e, st, c.args[1]) if len(c.args) > 1 else UNIT)

    def exit(e, st, c):
        st.event("exit", c.args[0], c.site)
        return [Out("exit", c.args[0], st)]

    at = {SHELL + "cmd": cmd, CMD + "arg": arg, CMD + "args": args, "std::process::exit": exit,
          "core::iter::traits::iterator::Iterator::next": nxt, "<core::str::iter::Lines as core::iter::traits::iterator::Iterator>::next": nxt,
          "<core::fmt::Arguments>::new": fmtargs, "alloc::fmt::format": lambda e, st, c: mk("format", c.args[0])}
    for n in ("new_display", "new_debug"):
        at["<core::fmt::rt::Argument>::" + n] = fmtarg
    for n in ("lines", "split_whitespace", "split_ascii_whitespace", "chars", "trim", "trim_end", "trim_start"):
        at["<str>::" + n] = lines(n)
    for n in ("quiet", "ignore_status", "ignore_stdout", "ignore_stderr", "secret", "set_quiet", "set_ignore_status", "set_secret", "set_ignore_stdout", "set_ignore_stderr"):
        at[CMD + n] = mode(n)
    for n in ("run", "read", "read_stderr", "output"):
        at[CMD + n] = run(n)
    for n in SAME:
        at[n] = same
    for n in CONTEXT:
        at[n] = lambda e, st, c: c.args[0]
    at["<slice>::contains"] = lambda e, st, c: fresh("contains", val(e, st, c.args[0]), val(e, st, c.args[1]))
    # files and paths
    def read_file(e, st, c):
        r = fresh("read", val(e, st, c.args[-1]))
        st.event("read", r, c.site)
        return r

    def join(e, st, c):
        return mk("join", val(e, st, c.args[0]), val(e, st, c.args[1]))

    def push(e, st, c):
        if c.args[0].op != "addr":
            return None
        e.store(st, c.args[0], mk("join", val(e, st, c.args[0]), val(e, st, c.args[1])))
        return UNIT

    def pop(e, st, c):
        if c.args[0].op != "addr":
            return None
        e.store(st, c.args[0], mk("join", val(e, st, c.args[0]), mk("str", "..")))
        return ONE

    def set_name(e, st, c):
        if c.args[0].op != "addr":
            return None
        e.store(st, c.args[0], mk("join", mk("join", val(e, st, c.args[0]), mk("str", "..")), val(e, st, c.args[1])))
        return UNIT

    at["std::fs::read_to_string"] = at[SHELL + "read_file"] = read_file
    at["<std::path::Path>::join"] = join
    at["<std::path::Path>::parent"] = lambda e, st, c: agg(OPTION, 1, (mk("join", val(e, st, c.args[0]), mk("str", "..")),))
    at["<std::path::Path>::with_file_name"] = lambda e, st, c: mk("join", mk("join", val(e, st, c.args[0]), mk("str", "..")), val(e, st, c.args[1]))
    at["<std::path::PathBuf>::push"], at["<std::path::PathBuf>::pop"], at["<std::path::PathBuf>::set_file_name"] = push, pop, set_name
    for n in PATHS:
        at[n] = same
    e = Engine(P, atoms=at, budget=budget)
    e.unroll = 6
    return e


class Cmd:
    """one command run on a path"""

    def __init__(self, ev):
        self.words, self.modes, self.res, self.site, self.how, self.log = ev[1:]
        w = self.words
        self.known = w is not None and None not in w
        ws = list(w or ())
        self.kind = None
        if ws[:1] == ["cargo"] and "publish" in ws:
            # what follows an unknown word may be --dry-run
            self.kind = "dry" if "--dry-run" in ws or "-n" in ws else "publish" if self.known else "publish?"
        elif ws[:2] == ["git", "push"]:
            self.kind = "dry" if "--dry-run" in ws or "-n" in ws else "push" if self.known else "push?"
        elif ws[:2] == ["git", "tag"]:
            if len(ws) == 2 or "--list" in ws or "-l" in ws:
                self.kind = "tags"
            else:
                self.kind = "tag"
        elif ws[:1] == ["git"] and "show-current" in " ".join(str(x) for x in ws) or ws[:1] == ["git"] and "--abbrev-ref" in ws:
            self.kind = "branch"
        elif ws[:1] == ["cargo"] and ws[1:2] in (["test"], ["t"]):
            self.kind = "test"
            own = ws[:ws.index("--")] if "--" in ws else ws
            self.release = "--release" in own or "-r" in own
            self.whole = "--workspace" in own or "--all" in own
            odd = [x for x in ws[2:] if x not in NOISE]
            # the tests are not run, or only some
            self.partial = [x for x in odd if x == "--no-run" or isinstance(x, str) and not x.startswith("-") or x in ("-p", "--package", "--lib", "--doc", "--list", "--exclude")]
            self.odd = odd
        elif ws and not isinstance(ws[0], str) or ws[:1] == ["sh"] or ws[:1] == ["bash"]:
            self.kind = "?"

    def text(self):
        return " ".join(x if isinstance(x, str) else "…" for x in self.words or ())

    @property
    def real(self):
        return self.kind in ("publish", "push", "tag")


def loops_of(evs):
    for ev in evs:
        if ev[0] == "loop":
            yield ev[1]


def flat(st):
    """events of a path; what the rounds of a loop did is reported apart"""
    return st.events()


def loop_cmds(L):
    r = []
    for b in L.backs:
        for ev in b.events(L.hst.ev):
            if ev[0] == "xcmd":
                r.append(Cmd(ev))
            elif ev[0] == "loop":
                r += loop_cmds(ev[1])
    return r


class Path:
    def __init__(self, e, o):
        self.e, self.o, self.st = e, o, o.st
        self.evs = o.st.events()
        self.cmds = [Cmd(ev) for ev in self.evs if ev[0] == "xcmd"]
        self.loops = list(loops_of(self.evs))
        self.more = {}
        todo = list(self.loops)
        while todo:
            L = todo.pop()
            for region, path, ph, init, nx in L.phis:
                self.more.setdefault(ph.id, []).extend([init] + nx)
            for b in L.backs:
                todo += list(loops_of(b.events(L.hst.ev)))

    def closure(self, t):
        """ids of everything t is computed from"""
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            if isinstance(x, (tuple, list)):
                todo += x
                continue
            if not isinstance(x, T) or x.id in seen:
                continue
            seen.add(x.id)
            todo += x.a
            todo += self.more.get(x.id, ())
        return seen

    def ok(self, r, log=None):
        """True / False / None: the result r is known to be a success"""
        k = [i for i, _ in self.e.variants(self.st, r, RESULT)]
        return True if k == [0] else False if k == [1] else None

    def looked(self, r):
        return any(r.id in self.closure(p) for p, _ in self.st.facts.log)

    def logs(self):
        """(predicate, value, all rounds of a loop) decided on this path"""
        for p, v in self.st.facts.log:
            yield p, v, False
        todo = list(self.loops)
        while todo:
            L = todo.pop()
            if not L.backs:
                continue
            ls = [b.facts.log[len(L.hst.facts.log):] for b in L.backs]
            for p, v in ls[0]:
                if all((p, v) in l for l in ls[1:]):
                    yield p, v, True
            for b in L.backs[:1]:
                todo += list(loops_of(b.events(L.hst.ev)))


def site_loops(P, c):
    return c.site


def conds(rep, p, c, tagword):
    """{condition: True / False / None} for the path at a command"""
    r = {}
    # a variable of the environment says this is CI
    ci = [ev for ev in p.evs if ev[0] == "call" and ev[1] in ("std::env::var", "std::env::var_os") and ev[2] and word(p.e, p.st, ev[2][0]) == "CI"]
    r["CI"] = False
    for ev in ci:
        adt, good = (RESULT, 0) if ev[1].endswith("var") else (OPTION, 1)
        k = [i for i, _ in p.e.variants(p.st, ev[3], adt)]
        if k == [good]:
            r["CI"] = True
        elif p.looked(ev[3]) and len(k) > 1:
            r["CI"] = None
    br = [x for x in p.cmds if x.kind == "branch"]
    r["branch"] = False
    for q, v, every in p.logs():
        if any(b.res.id in p.closure(q) for b in br):
            strs = [x.a[0] for x in parts(q) if x.op == "str"]
            if q.op == "beq":
                if "master" in strs:
                    r["branch"] = v is True or r["branch"]
            elif q.op not in ("eq0", "le0") and r["branch"] is False:
                r["branch"] = None
    tg = [x for x in p.cmds if x.kind == "tags"]
    r["tag"] = False
    for q, v, every in p.logs():
        cl = p.closure(q)
        if not any(t.res.id in cl for t in tg):
            continue
        if tagword is not None and tagword.id in cl:
            if q.op == "beq":
                # comparing one tag of the list says nothing about the others
                r["tag"] = v is False and every or r["tag"]
            elif q.op == "ap!" and q.a[0] == "contains":
                r["tag"] = v is False or r["tag"]
            elif r["tag"] is False:
                r["tag"] = None
        elif q.op not in ("eq0", "le0", "beq") and r["tag"] is False:
            r["tag"] = None
    return r


WHY = {"CI": "without the environment saying this is CI", "branch": "without the branch known to be master", "tag": "without having found the version's tag missing from the list of tags"}


def tested(p, cmds):
    """(True / False / None, what is missing)"""
    got = {}
    for c in cmds:
        if c.kind == "test" and p.ok(c.res) and not any("ignore_status" in m for m in c.modes):
            v = None if not c.known else not c.partial and c.whole
            if c.odd and v:
                v = None if any(not isinstance(x, str) for x in c.odd) else True
            k = got.get(c.release)
            got[c.release] = True if v or k else v if k is None else k
    miss = [n for k, n in ((False, "in the debug profile"), (True, "in the release profile")) if not got.get(k)]
    if not miss:
        return True, ""
    if None in got.values():
        return None, miss[0]
    for L in p.loops:
        if any(c.kind == "test" for c in loop_cmds(L)):
            return None, miss[0]
    return False, " and ".join(miss)


def entry(rep, body, P):
    e = engine(P, 1200000)
    outs = e.analyse(body)
    rep.funcs |= {body.name} | {n for n in e.calls if n.startswith(("xtask::", "<xtask"))}
    rep.paths += len(outs)
    any_real = {}
    for o in outs:
        p = Path(e, o)
        for L in p.loops:
            for c in loop_cmds(L):
                if c.real or c.kind == "publish?":
                    rep.unk("loop", f"{L.name}", f"`{c.text()}` is run a number of times the analysis does not know")
        failed = None
        for i, c in enumerate(p.cmds):
            w = f"`{c.text()}` ({c.site})"
            if failed is not None:
                rep.bad("stop", w, f"is run although `{failed.text()}` ({failed.site}) failed or may have failed")
                break
            ok = p.ok(c.res)
            ign = any("ignore_status" in m for m in c.modes)
            if ign and i + 1 < len(p.cmds):
                rep.bad("stop", w, "its failure is ignored")
            elif ok is False:
                failed = c
            elif ok is None:
                if p.looked(c.res):
                    rep.unk("stop", w, "whether its failure is noticed is not known")
                elif i + 1 < len(p.cmds) or o.kind == "ret":
                    rep.bad("stop", w, "its result is not looked at, what comes after does not depend on it")
            else:
                rep.ok("stop", w)
        if failed is not None:
            v = fails(p, o)
            rep.check(v, "exit", f"`{failed.text()}` ({failed.site})", "the tool reports success although it failed")
        for i, c in enumerate(p.cmds):
            w = f"`{c.text()}` ({c.site})"
            if c.kind in ("publish?", "push?", "?"):
                rep.unk("guard", w, "the command is not known")
                continue
            if not c.real:
                continue
            t, m = tested(p, p.cmds[:i])
            rep.put(OK if t else BAD if t is False else UNK, "tests", w, "" if t else f"the workspace's tests have not passed {m} before")
            tw = next((x for d in p.cmds if d.kind == "tag" for x in d.words[2:] if isinstance(x, T)), None)
            if tw is None:
                tw = tags_compared(p)
            version(rep, e, p, c, tw, w)
            cs = conds(rep, p, c, tw)
            for k, v in cs.items():
                rep.put(OK if v else BAD if v is False else UNK, "guard", f"{k}: {w}", "" if v else "is run " + WHY[k])
        if o.kind in ("ret", "exit") and failed is None and fails(p, o) is False:
            finished(rep, p)


def where_is(e, p, t):
    """a path relative to the workspace's root, as a tuple of names; None if not known"""
    if t.op == "str":
        root = os.path.realpath(build.REPO)
        x = t.a[0]
        if x.startswith("/"):
            x = os.path.normpath(x)
            return tuple(n for n in x[len(root):].split("/") if n) if x == root or x.startswith(root + "/") else None
        return tuple(n for n in x.split("/") if n not in ("", "."))
    if t.op == "join":
        a, b = where_is(e, p, t.a[0]), where_is(e, p, t.a[1])
        if a is None or b is None:
            return None
        r = list(a)
        for n in b:
            if n == "..":
                if not r:
                    return None
                r.pop()
            else:
                r.append(n)
        return tuple(r)
    for ev in p.evs:
        if ev[0] == "call" and t.op == "fld" and t.a[0] is ev[3]:
            # cargo run starts the tool with this set to the directory of the tool's own package, in the directory it was itself started in
            if ev[1] == "std::env::var" and word(e, p.st, ev[2][0]) == "CARGO_MANIFEST_DIR":
                return ("xtask",)
            if ev[1] in ("std::env::current_dir",):
                return ()
    return None


def version(rep, e, p, c, tw, w):
    """the tag is made from the version of the package which is published"""
    if tw is None:
        return
    cl = p.closure(tw)
    files = [ev for ev in p.evs if ev[0] == "read" and ev[1].id in cl]
    if not files:
        rep.put(UNK if any(x.op == "ap!" for x in parts(tw)) else BAD, "version", w, "the tag does not come from a file")
        return
    asked = [(q, v) for q, v, _ in p.logs() if any(x.op == "str" and x.a[0] == "version" for x in parts(q)) and p.closure(q) & {ev[1].id for ev in files}]
    rep.put(OK if any(q.op == "beq" and v for q, v in asked) else UNK if any(q.op != "beq" for q, v in asked) else BAD, "version", w, "the line with the version is not looked for")
    for ev in files:
        at = where_is(e, p, ev[1].a[1][0])
        if at is None:
            rep.unk("version", w, "which file the version is read from is not known")
        else:
            rep.check(at == ("Cargo.toml",), "version", w, f"the version is read from {'/'.join(at)} ({ev[2]}), which is not the manifest of the package published")


def tags_compared(p):
    tg = [x for x in p.cmds if x.kind == "tags"]
    for q, v, every in p.logs():
        if (q.op == "beq" or q.op == "ap!" and q.a[0] == "contains") and any(t.res.id in p.closure(q) for t in tg):
            for x in q.a if q.op == "beq" else q.a[1]:
                if isinstance(x, T) and not any(t.res.id in p.closure(x) for t in tg):
                    return x
    return None


def fails(p, o):
    """the process reports failure: True / False / None"""
    if o.kind == "exit":
        v = p.st.facts.value(o.val)
        return None if v is None else v != 0
    if o.kind == "ret":
        v = o.val
        if v is UNIT:
            return False
        if v is not UNDEF and v.op == "agg" and v.a[0] == RESULT:
            return v.a[1] == 1
        return None
    return True


def finished(rep, p):
    """a run which ended well did what it is for"""
    ks = [c.kind for c in p.cmds]
    if not ks or "test" not in ks and not any(c.real or c.kind == "dry" for c in p.cmds):
        return
    w = "a run which ends well"
    if any(k in ("?", "publish?", "push?") for k in ks):
        return
    tw = next((x for d in p.cmds if d.kind == "tag" for x in d.words[2:] if isinstance(x, T)), None) or tags_compared(p)
    cs = conds(None, p, None, tw)
    if all(cs.values()):
        miss = [k for k in ("publish", "tag", "push") if k not in ks]
        rep.check(not miss, "release", w + " on CI, on master, for a new version", f"does not run {' and '.join(miss)}")
        order = [ks.index(k) for k in ("publish", "tag", "push") if k in ks]
        if len(order) == 3:
            rep.check(order == sorted(order), "release", w + ": publishes, then tags, then pushes", "does so in another order: if publishing fails then, the version is tagged all the same and never published")
        t = [c for c in p.cmds if c.kind == "tag"]
        for c in t:
            ws = [x for x in c.words[2:] if not (isinstance(x, str) and x.startswith("-"))]
            rep.put(OK if ws and tw is not None and ws[0] is tw else UNK, "release", f"`{c.text()}` ({c.site})", "the tag made is not the one looked for")
    elif None not in cs.values():
        rep.check("dry" in ks, "dry", w + " otherwise", "publishing is not tried at all")


def alone(rep, body, P, flag):
    """a function of the tool by itself, for any state of the dry-run flag"""
    e = engine(P, 400000)
    st = St()
    e.atoms["<core::sync::atomic::Atomic>::load"] = lambda e, st, c: flag
    outs = e.analyse(body, st=st)
    rep.funcs.add(body.name)
    rep.paths += len(outs)
    seen = set()
    for o in outs:
        p = Path(e, o)
        for c in p.cmds + [c for L in p.loops for c in loop_cmds(L)]:
            w = f"{body.name}: `{c.text()}` ({c.site})"
            if c.kind in ("publish?", "push?", "?"):
                rep.unk("flag", w, "the command is not known")
            elif c.real and (w, c.log) not in seen:
                seen.add((w, c.log))
                v = None
                for q, b in c.log:
                    if flag.id in p.closure(q):
                        d = decided(q, b, flag)
                        v = d if v is None else v or d
                rep.put(OK if v is False else BAD, "flag", w, "" if v is False else "is run in a dry run" if v else "is run without asking whether this is a dry run")


def decided(q, b, flag):
    """the value of the flag if predicate q is b"""
    if q is flag:
        return b
    if q.op == "not":
        return decided(q.a[0], not b, flag)
    if q.op == "eq0":
        return not b
    if q.op == "le0":
        return None
    return None


def run_c27(rep):
    P = prog("release", "xtask")
    mains = [b for b in P.bodies.values() if not b.model and b.key == "xtask::main" and len(b.blocks) > 1]
    if not mains:
        raise Missing("xtask::main")
    pmap(rep, entry, mains, P)
    flag = mk("param", "dry-run flag")
    todo = []
    for k, b in sorted(P.bodies.items()):
        if b.model or b.kind not in ("Fn", "AssocFn"):
            continue
        if getattr(b, "promoted", None) is None:
            todo.append(b)
    pmap(rep, alone, todo, P, flag)


CHECKS = {
    "C27": dict(run=run_c27, technique="path-sensitive interprocedural analysis of the release tool's MIR: commands run, in order, with the branch facts in force",
                explanation="The release tool is interpreted from main through all of its functions. Every command it runs is recovered word by word from the calls which build it; per path the analysis knows which commands came before, "
                "what is known of their results, and which conditions on the environment, the list of tags and the branch have been decided.",
                rules={"tests": "before a command which publishes, tags or pushes, the workspace's tests have been run with success in both profiles", "guard": "such a command is run only with CI set, master the current branch and the version's tag not in the list of tags",
                       "stop": "no command comes after one which failed or whose result was not looked at", "exit": "a failed command makes the tool fail", "flag": "each function of the tool by itself publishes, tags and pushes only if the dry-run flag is found unset",
                       "version": "the tag is made from the version in the manifest of the package published",
                       "release": "a run for a new version on master on CI which ends well has published, tagged, and then pushed", "dry": "any other run which ends well has tried publishing in a dry run"},
                note="The tool is interpreted with the commands' results unknown: every combination of outcomes is a path. ",
                assumptions=["xshell's Cmd runs the command it was given and reports its failure", "cargo and git do what their options say", "the tool is started by `cargo run -p xtask` in the root of the workspace, as CI does"]),
}

if __name__ == "__main__":
    import collections

    rp = Rep()
    run_c27(rp)
    for x in sorted({x.key() + (x.st,) for x in rp.es if x.st != "ok"}):
        print(x[3], x[0], x[1][:150], str(x[2])[:200])
    print(collections.Counter((x.st, x.rule) for x in rp.es))
