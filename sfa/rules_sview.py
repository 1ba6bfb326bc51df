"""C25: search-view paths are scoped to the asking shell."""
from __future__ import annotations
import ast
from .util import *
from .util import PARSE
from .prog import Fn
from .report import check
from .state import State
from .models import drop_none

R_BACK = "the ambient query context is put back on every exit"
R_SET = "inside a search-view context the query and view are the ones given"
R_USE = "search-view paths are evaluated with their own query, the shell's view and fresh results"
R_REF = "search-view paths are refused as targets of changes"
R_PARSE = "a search-view path is recognised and its query read as written"
R_RUN = "the search view runs the ambient query with the ambient view"
R_TREE = "result nodes mirror the matched files with their policies"


def fields():
    k = field_kinds()
    c = next((n for n, x in k.items() if x == "sctx"), None)
    p = next((n for n, x in k.items() if x == "sview"), None)
    if c is None or p is None:
        raise AnchorError("no field holds the search-view prefix or context")
    return c, p


def probe(src, like):
    """A caller's code, interpreted like the repository's own."""
    fn = Fn("caller", "caller", like.module, None, ast.parse(src).body[0])
    for x in ast.walk(fn.node):
        if x is not fn.node and isinstance(x, (ast.FunctionDef, ast.Lambda)):
            nm = getattr(x, "name", "<lambda>")
            env().prog.nested[x] = Fn(nm, f"caller.{nm}", like.module, None, x, fn)
    return fn


def _context(o):
    cf, _ = fields()
    m = method("VirtualFileSystem", "search_view_context")
    Q, W = sym("given query", inst_ty("SearchQuery")), sym("given view", inst_ty("VisibilityView"))
    body = sym("body", ("callable", "Body", ANY))
    kw = [a.arg for a in m.kwonly] or [a.arg for a in m.params[2:3]]
    for before in (True, False):
        for nest in (0, 1):
            src = f"def caller(vfs, query, view, body):\n    with vfs.search_view_context(query, {kw[0]}=view):\n        body()\n"
            if nest:
                src = f"def caller(vfs, query, view, body):\n    try:\n        with vfs.search_view_context(query, {kw[0]}=view):\n            with vfs.search_view_context(query, {kw[0]}=None):\n                pass\n            body()\n    except ValueError:\n        body()\n"
            inner = []

            def mon(I, kind, st, cx, at, d):
                if kind == "callback" and d["callee"] is body:
                    inner.append((at.lineno, st.heap[VFS].f.get(cf), st.copy(), I))
            st = State()
            vfs_state(st, ("sctx",) if before else ())
            start = st.heap[VFS].f.get(cf)
            r = run(probe(src, m), None, [VFS, Q, W, body], {}, st, mon, inline=True)
            o.took(r)
            for v, s in r.rets + r.raises:
                end = s.heap[VFS].f.get(cf)
                ok = same_ctx(end, start, cf)
                how = "return" if (v, s) in r.rets else f"raise {v.args[0]}"
                o.add(R_BACK, m.qual, ok, f"{how}, {'nested' if nest else 'plain'}" + ("" if ok else f": the context left behind is {short(r.I.freeze(end, s), 80)}"), () if ok else s.trace_list())
            for line, c, s, I in inner:
                fz = I.freeze(c, s) if c is not None else None
                if line == (6 if nest else 3):
                    f = dict(fz.args[1]) if fz is not None and fz.op == "instv" else {}
                    ok = f.get("query") is Q and f.get("view") is W
                    o.add(R_SET, m.qual, ok, "query and view set" if ok else f"context is {short(fz, 80) if fz is not None else None}", () if ok else s.trace_list())
                elif nest:
                    ok = same_ctx(c, start, cf)
                    o.add(R_BACK, m.qual, ok, "after an error inside" if ok else f"after an error the context is {short(fz, 80) if fz is not None else None}", () if ok else s.trace_list())
            o.add(R_SET, m.qual, bool(inner) or None, f"{len(inner)} uses")


def same_ctx(a, b, cf):
    amb = mk("attr", VFS, cf)
    n = lambda x: "ambient" if x is None or x.op == "attr" and x.args == amb.args else x
    return n(a) is n(b) or n(a) == n(b)


def parse_logged(I, fn, args, kw, st, cx, node_):
    out = m_parse_search(I, fn, args, kw, st, cx, node_)
    names = [p.arg for p in fn.params]
    full = dict(zip(names[1:], args[1:]))
    full.update(kw)
    a = I.freeze(full.get("path", CNONE), st)
    for v, s in out:
        if v is CNONE and ("plain", a) not in s.log:
            s.log = s.log + (("plain", a),)
    return out


PLOG = {"SandboxShell._parse_search_path": parse_logged}
MUT = ("write_file", "append_file", "touch", "mkdir", "remove", "move", "copy")


def _uses(m, exe=False):
    cf, pf = fields()
    PRE = mk("attr", VFS, pf)
    BASE = (PRE, p_norm(PRE))

    def go(o):
        n = [0]

        def mon(I, kind, st, cx, at, d):
            if kind == "store" and d["obj"] is VFS and d["attr"] == cf:
                st.log = (("ctx", I.freeze(d["val"], st)),)
            elif kind == "clear":
                k = kids_of(d["cont"])
                if k is not None and any(t is PRE for t in subterms(k)) and ("clear",) not in st.log:
                    st.log = st.log + (("clear",),)
            elif kind == "store" and d["obj"].op == "node" and (d["obj"].args[0] in BASE or d["obj"].args[0] is pconst("/")) and I.freeze(d["val"], st) is const(False):
                if ("again",) not in st.log:
                    st.log = st.log + (("again",),)
            elif kind == "vfscall" and d["fn"] == "read_file":
                a = I.freeze(d["args"].get("path", CNONE), st)
                if any(t is PRE for t in subterms(a)) or any(t.op == "parsedq" for t in subterms(a)):
                    use(I, "read", a, st, cx, at)
            elif kind == "load":
                P = d["node"].args[0] if d["node"].op == "node" else None
                if P is None or not any(t is PRE for t in subterms(P)):
                    return
                # the view's own directory, or one on the way to an entry below it; entries are constants, and on the way to the
                # view itself its directory is not loaded
                if P in BASE or P.op in ("pre", "pren") and any(t.op == "parsedq" for t in subterms(P.args[0])):
                    use(I, "load", P, st, cx, at)

        def use(I, kind, P, st, cx, at):
            n[0] += 1
            c = next((x[1] for x in st.log if x[0] == "ctx"), None)
            why = ""
            f = dict(c.args[1]) if c is not None and c.op == "instv" else {}
            q = f.get("query")
            if not f:
                why = "without a query context"
            elif q is None or not (q.op == "attr" and q.args[1] == "query" and q.args[0].op == "parsedq"):
                why = f"with query {short(q, 50) if q is not None else None}"
            elif f.get("view") is not VIEW:
                why = f"with view {short(f.get('view', CNONE), 50)} instead of the shell's"
            elif ("clear",) not in st.log:
                why = "without discarding earlier results"
            elif ("again",) not in st.log:
                why = "without asking for the results again"
            else:
                other = [t for t in subterms(P) if t.op == "parsedq" and t is not q.args[0]]
                if other:
                    why = "with the query of another path"
            o.add(R_USE, cx.fn.qual if cx.fn else m.qual, not why, f"{kind} at line {at.lineno}" + (f" {why}" if why else ""), st.trace_list() if why else ())
        if exe:
            r = exec_run(mon, on=("sview", "sctx"))
        else:
            r = run_handler(m, mon, on=("sview", "sctx"), opts=SHOPTS | {"read_raises": 1, "loader_raises": 1, "loop_limit": 6}, prims=PARSE)
        o.took(r)
        for v, s in r.rets + r.raises:
            end = s.heap[VFS].f.get(cf)
            ok = same_ctx(end, None, cf)
            if not ok:
                o.add(R_BACK, m.qual, False, f"the context left behind is {short(r.I.freeze(end, s), 80)}", s.trace_list())
        o.add(R_BACK, m.qual, True, f"{len(r.rets)} returns, {len(r.raises)} raises")
        o.add(R_USE, m.qual, True, f"{n[0]} accesses")
    return go


def _refuse(m, exe=False):
    def go(o):
        looked, found = set(), []

        def mon(I, kind, st, cx, at, d):
            if kind != "vfscall" or d["fn"] not in MUT:
                return
            for k, v in d["args"].items():
                if k not in ("path", "source", "target"):
                    continue
                v = I.freeze(v, st)
                if v.op in ("c", "pconst"):
                    continue
                ok = ("plain", v) in st.log
                if not ok:      # a spelling derived from the checked one
                    ok = any(x[0] == "plain" and any(t is x[1] for t in subterms(v)) for x in st.log)
                looked.update(x[1].args[0] for x in st.log if x[0] == "plain" and x[1].op == "elem")
                found.append((v, cx.fn.qual if cx.fn else m.qual, ok, f"{d['fn']} {k} at line {at.lineno}" + ("" if ok else f": {short(v, 50)} may be a search-view path"), () if ok else st.trace_list()))
        if exe:
            from .util import EXEC_PRIMS
            r = run_handler(method("SandboxShell", "exec"), mon, on=("sview",), opts=SHOPTS | {"loop_limit": 2}, prims=EXEC_PRIMS | PLOG,
                            soft=lambda a: a.op not in ("exists", "vis"))
        else:
            r = run_handler(m, mon, on=("sview",), opts=SHOPTS | {"loop_limit": 6}, prims={"VirtualFileSystem." + x: opaque() for x in MUT} | PLOG)
        o.took(r)
        for v, where, ok, txt, tr in found:
            if not ok and v.op == "item" and v.args[0] in looked:
                ok = None       # the elements are looked at one by one: not followed to this one
            o.add(R_REF, where, ok, txt, tr)
        o.add(R_REF, m.qual, True, "analysed")
    return go


# path (in /w), wanted: None or (query, regex, ignore case, prefix, entry)
PCASES = [
    ("/@search?q=foo", ("foo", False, False, None, None)),
    ("/@search?q=foo/a/b.txt", ("foo", False, False, None, "a/b.txt")),
    ("/@search/?q=foo", ("foo", False, False, None, None)),
    ("/@search?q=a+b%20c", ("a b c", False, False, None, None)),
    ("/@search?q=fo.*&regex=1", ("fo.*", True, False, None, None)),
    ("/@search?q=x&regex=true&ignore_case=yes", ("x", True, True, None, None)),
    ("/@search?q=x&ignore_case=on/z", ("x", False, True, None, "z")),
    ("/@search?q=x&regex=0&ignore_case=no", ("x", False, False, None, None)),
    ("/@search?q=x&path=/docs", ("x", False, False, "/docs", None)),
    ("/@search?q=x&path=/docs/sub", ("x", False, False, "/docs/sub", None)),
    ("/@search?q=x&path=%2Fdocs%2Fsub/docs/sub/f", ("x", False, False, None, None) and None),
    ("/@search?path=docs&q=x", ("x", False, False, "/docs", None)),
    ("/@search?", ("", False, False, None, None)),
    ("/@search", None), ("/a/b", None), ("/a?b", None), ("/@searchx?q=1", None), ("/x/@search?q=1", None), ("@search?q=1", None), ("/@search/sub?q=1", None), ("?q=1", None), ("", None),
]
PCASES = [c for c in PCASES if not (c[1] is None and "%2F" in c[0])]


def _parse(o):
    cf, pf = fields()
    m = method("SandboxShell", "_parse_search_path")
    for cwd, cases in (("/w", PCASES), ("/", [("@search?q=1", ("1", False, False, None, None)), ("@search?q=1/a", ("1", False, False, None, "a")), ("x?q=1", None)]),
                       ("/@search", [("?q=1", ("1", False, False, None, None)), ("/a?q=1", None)])):
        for raw, want in cases:
            st = State()
            shellv = shell_state(st, ("sview",))
            st.heap[VFS].f[pf] = pconst("/@search")
            st.heap[VFS].f["cwd"] = node(pconst(cwd))
            r = run(m, shellv, [const(raw)], {}, st, None, {"exact": 1}, inline=True)
            o.took(r)
            for v, s in r.rets:
                fz = r.I.freeze(v, s)
                if fz is CNONE or want is None:
                    ok = (fz is CNONE) == (want is None)
                    why = "" if ok else "is not recognised" if want is not None else f"is taken for a search with {short(fz, 60)}"
                    if not ok and fz is not CNONE and fz.op != "instv":
                        ok = None
                else:
                    why = parsed_why(fz, want)
                    ok = not why if why is not None else None
                o.add(R_PARSE, m.qual, ok, f"{raw!r} in {cwd}" + (f": {why}" if why else ""), s.trace_list() if ok is False else ())
            for v, s in r.raises:
                o.add(R_PARSE, m.qual, False if v.args[0] != "*" else None, f"{raw!r} in {cwd} raises {v.args[0]}", s.trace_list())
    # without a search view nothing is a search path
    st = State()
    shellv = shell_state(st, ())
    r = run(m, shellv, [sym("path", STR)], {}, st, None, {"exact": 1}, inline=True)
    o.took(r)
    for v, s in r.rets:
        o.add(R_PARSE, m.qual, r.I.freeze(v, s) is CNONE, "no search view, no search path")


def parsed_why(fz, want):
    q, rx, ic, pre, nav = want
    if fz.op != "instv":
        return None
    f = dict(fz.args[1])
    base = f.get("base")
    if base is not None and base is not pconst("/@search"):
        return f"base is {short(base, 40)}"
    n = f.get("nav", CNONE)
    if n is not (CNONE if nav is None else pconst(nav)):
        return f"entry is {short(n, 40)}"
    qq = f.get("query")
    if qq is None or qq.op != "instv":
        return None
    g = dict(qq.args[1])
    for k, w in (("query", const(q)), ("regex", const(rx)), ("ignore_case", const(ic)), ("path_prefix", CNONE if pre is None else pconst(pre))):
        x = g.get(k)
        if x is not w:
            return f"{k} is {short(x, 40) if x is not None else None}" if x is None or x.op in ("c", "pconst") else None
    return ""


def _resolve(o):
    """The place a parsed path denotes: the view's directory, or the entry below it."""
    m = method("SandboxShell", "_resolve_search_nav", need=False)
    if m is None:
        o.add(R_USE, "sandfs/shell.py", True, "no separate resolution step")
        return
    for nav, want in ((None, "/@search"), ("a/b", "/@search/a/b")):
        st = State()
        shellv = shell_state(st, ("sview",))
        P = sym("parsed", inst_ty("ParsedSearchPath"))
        st.heap[P] = Obj("inst", "ParsedSearchPath", {"base": pconst("/@search"), "query": sym("given query", inst_ty("SearchQuery")), "nav": CNONE if nav is None else pconst(nav)})
        r = run(m, shellv, [P], {}, st, None, {"exact": 1}, inline=True)
        o.took(r)
        for v, s in r.rets:
            v = r.I.freeze(v, s)
            while v.op in ("str", "strof"):
                v = v.args[0]
            ok = v in (pconst(want), const(want)) or p_norm(v) is pconst(want)
            o.add(R_USE, m.qual, ok if v.op in ("c", "pconst") else ok or None, f"entry {nav} is {want}" if ok else f"entry {nav} becomes {short(v, 50)}", () if ok else s.trace_list())


def _provider(o):
    """What the mounted view asks for."""
    cf, pf = fields()
    m = method("VirtualFileSystem", "enable_search_view")
    Q, W = sym("ambient query", inst_ty("SearchQuery")), sym("ambient view", inst_ty("VisibilityView"))
    for have in (True, False):
        calls = []

        def search(I, fn, args, kw, st, cx, node_):
            names = [p.arg for p in fn.params]
            full = dict(zip(names[1:], args[1:]))
            full.update(kw)
            calls.append((full, st.copy(), I, at_of(node_)))
            st.log = st.log + ("searched",)
            return [(st.alloc("results", Obj("seq", "list")), st)]
        src = "def caller(vfs, prefix):\n    vfs.enable_search_view(prefix)\n    d = vfs.get_node(prefix)\n    d.ensure_loaded(vfs)\n    return d\n"
        st = State()
        vfs_state(st, ())
        if have:
            C = sym("ambient context", inst_ty("SearchViewContext"))
            st.heap[C] = Obj("inst", "SearchViewContext", {"query": Q, "view": W})
            st.heap[VFS].f[cf] = C
        r = run(probe(src, m), None, [VFS, const("/s")], {}, st, None, {"inline_load": 1}, inline=True, prims={"VirtualFileSystem.search": search})
        o.took(r)
        for full, s, I, line in calls:
            if not have:
                o.add(R_RUN, m.qual, False, "a search runs without a query", s.trace_list())
                continue
            v = full.get("view", CNONE)
            q = full.get("query", CNONE)
            ok = q is Q and v is W
            o.add(R_RUN, m.qual, ok, "ambient query and view" if ok else f"searches for {short(q, 40)} with view {short(v, 40)}", () if ok else s.trace_list())
        o.add(R_RUN, m.qual, bool(calls) == have or None, f"{len(calls)} searches, context {'set' if have else 'absent'}")
        for v, s in r.rets:
            pv = s.heap[VFS].f.get(pf)
            o.add(R_RUN, m.qual, pv is pconst("/s"), f"prefix is {short(pv, 30)}" if pv is not None else "prefix not recorded")


def at_of(n):
    return getattr(n, "lineno", 0)


def _mirror(o):
    """The tree built from results, for given results over an arbitrary tree."""
    m = method("VirtualFileSystem", "_build_search_tree", need=False)
    if m is None:
        o.add(R_TREE, "sandfs/vfs.py", None, "no function builds the result tree")
        return

    def res(I, p, n, t):
        return mk("instv", "SearchResult", (("line_no", const(n)), ("line_text", sym(t, STR)), ("path", pconst(p))), ty=inst_ty("SearchResult"))
    for hits in ((("/a/b", 1, "t1"),), (("/a/b", 1, "t1"), ("/a/b", 4, "t2")), (("/a/b", 1, "t1"), ("/a/c", 2, "t2")), (("/f", 3, "t1"),), (("/a/d/e", 7, "t1"), ("/a/b", 1, "t2")), ()):
        st = State()
        vfs_state(st, ())
        ss = []
        for p, n, t in hits:
            S = sym(f"hit {p} {n}", inst_ty("SearchResult"))
            st.heap[S] = Obj("inst", "SearchResult", {"path": pconst(p), "line_no": const(n), "line_text": sym(t, STR)})
            ss.append(S)
        L = st.alloc("results", Obj("seq", "list", {}, items=tuple(ss)))
        r = run(m, VFS, [L], {}, st, None, {"exact": 1}, inline=True)
        o.took(r)
        want = {}
        for p, n, t in hits:
            want.setdefault(p, []).append((n, t))
        for v, s in r.rets:
            got = {}
            why = collect(r.I, s, v, "", got)
            if why is None:
                why = ""
                dirs = {"/".join(p.split("/")[:i]) for p in want for i in range(2, p.count("/") + 1)}
                if set(got) != set(want) | dirs:
                    why = f"entries {sorted(got)}"
                for p, f in got.items():
                    if why:
                        break
                    N = node(pconst(p))
                    pol = f.get("policy")
                    pz = r.I.freeze(pol, s) if pol is not None else CNONE
                    from .rules_policy import copied
                    w = "" if pz is fld(N, "policy") else copied(pz, fld(N, "policy"))
                    if w:
                        why = f"policy of {p}: {w}"
                    kind = f.get("kind")
                    isf = p in want
                    if kind is not const("file" if isf else "dir"):
                        why = f"{p} is a {short(kind, 20) if kind is not None else None}"
                    if isf and not why:
                        tx = r.I.freeze(f.get("content", CNONE), s)
                        syms = [t.args[0] for t in walk_syms(tx)]
                        if syms != [t for _, t in want[p]]:
                            why = f"text of {p} is {short(tx, 80)}"
            ok = not why if why != "?" else None
            o.add(R_TREE, m.qual, ok, f"{[h[:2] for h in hits]}" + (f": {why}" if why else ""), s.trace_list() if ok is False else ())


def walk_syms(t):
    if t.op == "sym":
        yield t
    for a in t.args:
        if isinstance(a, T):
            yield from walk_syms(a)
        elif isinstance(a, (tuple, frozenset)):
            for b in a:
                if isinstance(b, T):
                    yield from walk_syms(b)
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, T):
                            yield from walk_syms(c)


def collect(I, s, d, at, out):
    """Flatten a mapping of provided nodes into path -> fields; '?' when it is not known exactly."""
    o = s.heap.get(d)
    if o is None or o.kind != "dict" or o.bag or o.base is not None:
        return "?"
    for k, v in o.items:
        if v is None:
            continue
        if k.op != "c":
            return "?"
        p = at + "/" + k.args[1]
        n = s.heap.get(v)
        if n is None or n.kind != "inst":
            return "?"
        out[p] = n.f
        if n.f.get("children", CNONE) is not CNONE:
            w = collect(I, s, n.f["children"], p, out)
            if w is not None:
                return w
    return None


@check("C25", "typestate of the ambient query context over every path class (return and raise) of every command handler and of a caller's with block; guard analysis of every change a handler asks for; "
       "finite-domain abstract evaluation of the search-path parser and of the result tree against tables")
def c25(tier):
    t = [("context", _context), ("parse", _parse), ("resolve", _resolve), ("provider", _provider), ("mirror", _mirror)]
    for _, m in handler_set():
        t.append((f"{m.name} uses", _uses(m)))
        t.append((f"{m.name} changes", _refuse(m)))
    ex = method("SandboxShell", "exec")
    t.append(("exec uses", _uses(ex, True)))
    t.append(("exec changes", _refuse(ex, True)))
    return t
