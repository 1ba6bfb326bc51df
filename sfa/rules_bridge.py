"""C26: the host bridge runs on a private, synced-back copy."""
from __future__ import annotations
from .util import *
from .report import check
from .state import State
from .effects import is_proc
from .models import union
from .rules_view import prefix_ok
from .rules_host import unwrap

R_CWD = "a host process starts only in the private copy, at a working directory the view admits"
R_CPY = "the copy holds the whole tree before the process starts"
R_DEL = "the private copy is removed on every exit"
R_SYN = "after the process ends its copy is synced back before it is removed"
R_WR = "created and changed files are written back with the exact text"
R_UN = "unchanged files are not rewritten"
R_RM = "exactly the files and directories that went missing are removed"
MUT = ("write_file", "append_file", "touch", "mkdir", "remove", "move", "copy")
STUB = {"VirtualFileSystem." + x: opaque() for x in MUT}


def runner():
    """The shell method that starts processes, found by what it does."""
    e = env().eff
    hs = {m.qual for _, m in handler_set()}
    br = [f for f in e.trans if f.outer is None and e.bridge(f)]
    inner = {g for f in br for g in e.calls[f] if f.qual not in hs}
    ms = [f for f in br if f.qual not in hs and f not in inner]
    if not ms:
        raise AnchorError("no function starts a host process")
    return sorted(ms, key=lambda f: f.qual)


def tmp_of(t):
    for x in subterms(t):
        if x.op == "tmpdir":
            return x
    return None


def place(t):
    """Sandbox path a host working directory stands for: the root, or the parts of one path joined to the copy."""
    t = unwrap(t)
    while t.op in ("str", "hp"):
        t = t.args[0]
    if t.op == "tmpdir":
        return pconst("/")
    if t.op == "hjoin" and unwrap(t.args[0]).op in ("hp", "tmpdir", "str"):
        a = t.args[1]
        if a.op == "parts":
            a = a.args[0]
        if a.op == "rel" and a.args[1] is pconst("/"):
            return a.args[0]
    return None


def entries(m):
    st = State()
    shellv = shell_state(st, ())
    args, kw = [], {}
    for a in m.params[1:]:
        args.append(sym(a.arg, env().prog.ty(a.annotation) if a.annotation is not None else ANY))
    for a in m.kwonly:
        kw[a.arg] = sym(a.arg, env().prog.ty(a.annotation) if a.annotation is not None else ANY)
    return st, shellv, args, kw


def _start(m, raises):
    def go(o):
        seen = [0]

        def mon(I, kind, st, cx, at, d):
            where = cx.fn.qual if cx.fn else m.qual
            if kind == "host" and (d["op"] in ("tempfile.TemporaryDirectory", "tempfile.mkdtemp")):
                st.log = st.log + (("made",),)
            elif kind == "tmp_end":
                st.log = tuple(x for x in st.log if x[0] not in ("made", "copied")) + (("gone",),)
            elif kind == "host" and d["op"] in ("shutil.rmtree",):
                st.log = tuple(x for x in st.log if x[0] not in ("made", "copied")) + (("gone",),)
            elif kind == "vfscall" and d["fn"] == "export_to_path":
                src = I.freeze(d["args"].get("source", CNONE), st)
                t = tmp_of(I.freeze(d["args"].get("target", CNONE), st))
                st.log = st.log + (("copied", t, p_norm(src)),)
            elif kind == "host" and d["op"].split(".")[-1] in ("rglob", "iterdir", "walk", "scandir", "listdir", "glob") and ("ran",) in st.log and ("sync",) not in st.log:
                if ("made",) in st.log:
                    st.log = st.log + (("sync",),)
            elif kind == "host" and is_proc(d["op"]):
                seen[0] += 1
                I.derive_views(st)
                F = Facts(I, st)
                cw = d["kw"].get("cwd")
                cw = I.freeze(cw, st) if cw is not None else CNONE
                tmp = tmp_of(cw)
                P = place(cw)
                why = ""
                if cw is CNONE:
                    why = "without a working directory"
                elif tmp is None or ("made",) not in st.log:
                    why = f"outside the copy, in {short(cw, 60)}"
                elif P is None:
                    why = None
                else:
                    ps = [P] + [t for t, c in st.eqc.items() if c is P] + [a.args[0] if a.args[1] is P else a.args[1] for a, b in st.facts.items() if b is True and a.op == "eq" and P in a.args]
                    if not any(isinstance(q, T) and q.ty == PATH and F.vis(VIEW, node(q)) and prefix_ok(F, VIEW, q) for q in ps):
                        why = f"at {short(P, 40)}, which the view need not admit"
                o.add(R_CWD, where, not why if why is not None else None, f"process at line {at.lineno}" + (f" {why}" if why else ""), st.trace_list() if why else ())
                c = [x for x in st.log if x[0] == "copied" and x[1] is tmp]
                ok = any(x[2] is pconst("/") for x in c)
                o.add(R_CPY, where, ok, f"process at line {at.lineno}" + ("" if ok else f": the copy holds {[short(x[2], 30) for x in c]}"), () if ok else st.trace_list())
                st.log = st.log + (("ran",),)
        st, shellv, args, kw = entries(m)
        opts = {"views": 1}
        if raises:
            opts["host_raises"] = 1
        pr = {"VirtualFileSystem." + x: opaque(raises=bool(raises)) for x in MUT + ("export_to_path",)}
        r = run(m, shellv, args, kw, st, mon, opts, inline=True, prims=pr)
        o.took(r)
        for v, s in r.rets + r.raises:
            ok = ("made",) not in s.log
            how = "return" if (v, s) in r.rets else "raise"
            o.add(R_DEL, m.qual, ok, f"{how}" + ("" if ok else ": the copy is left behind"), () if ok else s.trace_list())
        if not raises:
            for v, s in r.rets:
                if ("ran",) in s.log:
                    ok = ("sync",) in s.log
                    o.add(R_SYN, m.qual, ok, "synced" if ok else "a finished process is not synced back", () if ok else s.trace_list())
        o.add(R_CWD, m.qual, bool(seen[0]) or None, f"{seen[0]} process starts")
    return go


# host copy after the process, tree as the sandbox knows it (kind by path)
SCENES = [
    ("nothing", {}, {}),
    ("unchanged or changed file", {"a": "dir", "a/x": "file"}, {"/a": "dir", "/a/x": "file"}),
    ("created", {"n": "file", "d": "dir", "d/m": "file"}, {}),
    ("removed", {}, {"/g": "file", "/d": "dir", "/d/y": "file"}),
    ("mixed", {"a": "dir", "a/x": "file", "a/z": "file"}, {"/a": "dir", "/a/x": "file", "/a/gone": "file", "/b": "file", "/c": "dir", "/c/e": "dir", "/c/e/f": "file"}),
    ("emptied", {"a": "dir"}, {"/a": "dir", "/a/x": "file"}),
    ("same names", {"a": "dir", "a/x": "file", "ab": "dir", "ab/c": "dir", "ab/c/x": "file", "ab/c/y": "file"},
     {"/a": "dir", "/a/x": "file", "/b": "dir", "/b/x": "file", "/ab": "dir", "/ab/x": "file", "/ab/c": "dir", "/ab/c/x": "file", "/abc": "dir", "/ab/a": "dir", "/y": "file"}),
    ("dot names", {".h": "file"}, {"/.h": "file", "/.k": "file"}),
]


def _sync(name, host, tree):
    def go(o):
        ms = runner()
        m = ms[0]
        cls = {p: k for p, k in tree.items()}
        writes = [0]

        def walk(I, fn, args, kw, st, cx, node_):
            items = [mk("tup", pconst("/"), node(pconst("/")))] + [mk("tup", pconst(p), node(pconst(p))) for p in sorted(cls)]
            return [(st.alloc(f"walk@{cx.ctx}", Obj("seq", "list", {}, items=tuple(items))), st)]

        def mon(I, kind, st, cx, at, d):
            if kind == "host" and is_proc(d["op"]):
                st.log = ()
            if kind == "vfscall" and d["fn"] in MUT:
                a = {k: I.freeze(v, st) for k, v in d["args"].items()}
                p = p_norm(a.get("path", CNONE))
                st.log = st.log + ((d["fn"], p, a.get("data", a.get("content", CNONE)), a.get("recursive", CNONE), at.lineno, cx.fn.qual if cx.fn else m.qual),)
        st, shellv, args, kw = entries(m)
        for p in set(cls) | {"/" + h for h in host}:
            k = cls.get(p)
            N = node(pconst(p))
            st.facts[mk("exists", pconst(p), ty=BOOL)] = k is not None
            if k is not None:
                st.facts[mk("isinst", N, "VirtualFile", ty=BOOL)] = k == "file"
                st.facts[mk("isinst", N, "VirtualDirectory", ty=BOOL)] = k == "dir"
        args[0] = st.alloc("tokens", Obj("seq", "list", {}, items=(const("true"),)))
        for i, a in enumerate(m.params[1:]):
            if i and a.arg == "path":
                args[i] = CNONE
        shell_state(st, ("noview",))
        pr = {"VirtualFileSystem." + x: opaque(raises=False) for x in MUT + ("export_to_path",)} | {"VirtualFileSystem.walk": walk}
        r = run(m, shellv, args, kw, st, mon, {"exact": 1, "hostfs": host}, inline=True, prims=pr)
        o.took(r)
        gone = {p for p in cls if p[1:] not in host}
        for v, s in r.rets + [x for x in r.raises]:
            ret = (v, s) in r.rets
            if not ret:
                if v.args[0] == "UnicodeDecodeError":
                    o.add(R_WR, m.qual, False, f"{name}: a file that is not text ends the sync", s.trace_list())
                continue
            F = Facts(r.I, s)
            done = {}
            bad = []
            removed = set()
            for fn, p, data, rec, line, where in s.log:
                t = p.args[0] if p.op == "pconst" else None
                if t is None:
                    bad.append((None, R_WR, where, f"{fn} of {short(p, 50)}"))
                    continue
                if fn in ("write_file", "touch", "append_file"):
                    writes[0] += 1
                    if host.get(t[1:]) != "file":
                        bad.append((False, R_WR, where, f"{fn} of {t}, which the copy does not hold"))
                    elif fn != "write_file":
                        bad.append((None, R_WR, where, f"{fn} of {t}"))
                    else:
                        w = text_why(data, t[1:], s)
                        if w is None or w:
                            bad.append((None if w is None else False, R_WR, where, f"{t} {w}"))
                        done[t] = data
                        if cls.get(t) == "file":
                            e = differs(F, t, data)
                            if e is False:
                                bad.append((False, R_UN, where, f"{t} is rewritten although its text is unchanged"))
                            elif e is None:
                                bad.append((False, R_UN, where, f"{t} is written without comparing its text"))
                elif fn == "remove":
                    if t not in gone:
                        bad.append((False, R_RM, where, f"{t} is removed although the copy still holds it" if t in cls else f"{t} is removed"))
                    if any(t == q or t.startswith(q + "/") for q in removed):
                        bad.append((False, R_RM, where, f"{t} is removed after its directory"))
                    if cls.get(t) == "dir" and rec is not const(True) and not all(q in removed for q in cls if q.startswith(t + "/")):
                        bad.append((False, R_RM, where, f"{t} is removed before its entries"))
                    removed.add(t)
                elif fn in ("move", "copy"):
                    bad.append((None, R_WR, where, fn))
            for q in gone:
                if q not in removed and not any(q.startswith(z + "/") for z in removed):
                    bad.append((False, R_RM, m.qual, f"{q} went missing and is not removed"))
            for h, k in host.items():
                p = "/" + h
                if k == "file" and p not in done:
                    if cls.get(p) != "file":
                        bad.append((False, R_WR, m.qual, f"{p} was created and is not written back"))
                    elif equal(F, p) is not True:
                        bad.append((False, R_WR, m.qual, f"{p} may have changed and is not written back"))
            for ok, rule, where, txt in bad:
                o.add(rule, where, ok, f"{name}: {txt}", s.trace_list())
            if not bad:
                for rule in (R_WR, R_UN, R_RM):
                    o.add(rule, m.qual, True, f"{name}: {len(done)} written, {len(removed)} removed")
        o.add(R_WR, m.qual, bool(r.rets) or None, f"{name}: {writes[0]} writes")
    return go


def reads(t, rel):
    """The host read a text comes from: '' exact, 'nl' line ends translated, 'lossy' damaged; None when it is none."""
    if t.op == "htext":
        P, how = t.args
    elif t.op == "hcall" and t.args[0] == "read_text":
        P, how = t.args[1], "nl"
    else:
        return None
    from .models import hroot, hconst
    b = hroot(P)
    if b is None or hconst(P, b) != rel:
        return "other"
    return how


def text_why(t, rel, s):
    """'' when t is the text of the copy's file, a reason when it is not, None when it cannot be told."""
    how = reads(t, rel)
    if how == "":
        return ""
    if how == "nl":
        return "is written back with its line ends translated"
    if how == "other":
        return "is written back with the text of another file"
    if how == "lossy":
        return ""
    if any(reads(x, rel) is not None for x in subterms(t)):
        return f"is written back as {short(t, 50)}"
    return None


def pairs(F, p):
    c = mk("content", node(pconst(p)), ty=STR)
    for a, b in F.st.facts.items():
        if a.op == "eq" and any(x.op == "content" and x.args[0] is c.args[0] for x in a.args):
            x, y = a.args
            yield (y if x.op == "content" else x), b


def differs(F, p, data):
    """Is the text known to differ from the file's?  None: not compared."""
    r = [b for t, b in pairs(F, p) if t is data or reads(t, p[1:]) is not None]
    if not r:
        return None
    return not any(b for b in r)


def equal(F, p):
    return any(b is True and reads(t, p[1:]) in ("", "lossy") for t, b in pairs(F, p)) or None


@check("C26", "typestate of the private copy over every path class of the bridge (created, filled, process started, synced, removed; with every host call failing); domination of the process start by the view's "
       "admission of its directory; finite-domain abstract evaluation of the sync on a table of host copies and trees with symbolic texts")
def c26(tier):
    t = []
    for m in runner():
        t.append((f"{m.name} start", _start(m, False)))
        t.append((f"{m.name} failing", _start(m, True)))
    t += [(f"sync {n}", _sync(n, h, tr)) for n, h, tr in SCENES]
    return t
