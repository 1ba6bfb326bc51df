"""C05 C06 C07 C08: policies and views."""
from __future__ import annotations
from .util import *
from .paths import CWDP
from .report import check

ADMIN = {"mount_file", "mount_directory", "mount_storage", "sync_storage", "restore", "set_policy", "enable_full_text_index", "enable_search_view",
         "register_write_hook", "register_path_hook"}


# ---------------------------------------------------------------- C05
def _text_rule(o, run, sites, entry, extra_vals=()):
    """No text of an unreadable file in what the entry point returns, raises or hands to a command handler."""
    I = run.I
    vals = [("returns", v, s) for v, s in run.rets] + [("raises", v, s) for v, s in run.raises] + list(extra_vals)
    n = 0
    for how, v, s in vals:
        fv = I.freeze(v, s)
        for leaf, g in out_leaves(fv, ("content",)):
            N = leaf.args[0]
            F = Facts(I, s, g)
            ok = F.flag(N, "readable") is True
            n += 1
            o.add("text reaches the caller only after a readable check", entry, ok,
                  f"{how} text of {short(N)}" + ("" if ok else f", not guarded by its readable flag; read at {sites.where(N)}"), () if ok else s.trace_list())
    if not n:
        o.add("no file text flows out", entry, True, f"{len(vals)} exits")


def _c05_vfs(m, on):
    def go(o):
        sites = Sites()
        r = run_vfs(m, sites, on=on, opts={"loop_limit": 40})
        o.took(r)
        _text_rule(o, r, sites, m.qual)
    return go


def callback_vals(cat_store):
    def mon(I, kind, st, cx, at, d):
        if kind == "callback":
            cat_store.append((I.loc(at, cx), I.freeze(mk("tup", *[a for a in d["args"]]), st), st.copy(), d.get("category")))
    return mon


def _c05_handler(m, on):
    def go(o):
        sites = Sites()
        r = run_handler(m, sites, on=on, opts=SHOPTS)
        o.took(r)
        _text_rule(o, r, sites, m.qual)
    return go


def _c05_exec(tier):
    def go(o):
        cb = []
        sites = Sites(callback_vals(cb))
        r = exec_run(sites, tier)
        o.took(r)
        _text_rule(o, r, sites, "sandfs/shell.py:SandboxShell.exec", [(f"passes to {c} at {loc}", v, s) for loc, v, s, c in cb])
    return go


START = {"ls": "path", "tree": "path", "cd": "path", "iter_files": "path"}


def start_ok(F, p, given):
    """Is the starting directory, named by the term p (or defaulted), known to be readable?"""
    c = []
    n = p_norm(p)
    if given:
        c.append(node(n))
        if F(mk("eq", n, pconst("/"), ty=BOOL)) is True or F(mk("eq", pconst("/"), n, ty=BOOL)) is True:
            c.append(node(pconst("/")))
    else:
        c += [node(pconst("/")), node(CWDP)]
    return any(F.flag(x, "readable") is True for x in c)


def _c05_dirs(m, par, on=()):
    """Normal results of directory operations imply the starting directory is readable."""
    def go(o):
        for given in (True, False):
            p = sym(par, STR)
            if given:
                def setup(st):
                    st.facts[mk("truthy", p, ty=BOOL)] = True
                r = run_vfs(m, None, on=on, over={par: p}, setup=setup)
            else:
                if par not in [a.arg for a in m.params[1:]] or m.name == "cd":
                    continue
                r = run_vfs(m, None, on=on, over={par: CNONE})
            o.took(r)
            for v, s in r.rets:
                ok = start_ok(Facts(r.I, s), p, given)
                if not ok and given is False and m.name == "iter_files":
                    ok = True       # no starting point named
                o.add("a directory operation succeeds only if its starting directory is readable", m.qual, ok,
                      f"{m.name}({par}={'given' if given else 'default'}) returns" + ("" if ok else " without a readable check of the starting node"),
                      () if ok else s.trace_list())
    return go


def _c05_search(on):
    """search: results only from a readable starting point; index hits only after a test of the file itself."""
    m = method("VirtualFileSystem", "search")

    def go(o):
        r = run_vfs(m, None, on=on)
        o.took(r)
        q = sym(m.params[1].arg, inst_ty("SearchQuery"))
        pp = mk("attr", q, "path_prefix", ty=STR)
        n = 0
        for v, s in r.rets:
            for leaf, g in out_leaves(r.I.freeze(v, s), ("content", "elem")):
                if leaf.op == "elem" and leaf.args[0].op != "isearch":
                    continue
                F = Facts(r.I, s, g)
                n += 1
                ok = start_ok(F, pp, True) or (F(mk("truthy", pp, ty=BOOL)) is not True and start_ok(F, pp, False))
                o.add("search yields hits only below a readable starting directory", m.qual, ok,
                      f"hit {short(leaf)} (index {'on' if 'index' in on else 'off'})", () if ok else s.trace_list())
                if leaf.op == "elem":
                    N = node(p_norm(mk("attr", leaf, "path", ty=PATH)))
                    ok = F.flag(N, "readable") is True
                    o.add("an index hit is reported only if its file is readable", m.qual, ok, f"hit {short(leaf)}", () if ok else s.trace_list())
        if not n:
            o.add("search yields hits only below a readable starting directory", m.qual, None, "no hit reaches the result")
    return go


def _c05_list(m):
    """Shell commands print entries only of readable starting directories."""
    def go(o):
        r = run_handler(m, None, opts=SHOPTS)
        o.took(r)
        for v, s in r.rets:
            for leaf, g in out_leaves(r.I.freeze(v, s), ("kidp",)):
                b = node(base_path(leaf))
                F = Facts(r.I, s, g)
                ok = F.flag(b, "readable") is True
                o.add("a command lists entries only of a readable starting directory", m.qual, ok,
                      f"prints entries of {short(b)}", () if ok else s.trace_list())
    return go


@check("C05", "interprocedural taint of file text: every term content(N) that reaches a result, an exception message or a command handler's "
       "input must be dominated on its path by a test that N.policy.readable is true; ls/tree/cd/iter_files/search must test the starting node")
def c05(tier):
    t = [("shell.exec", _c05_exec(tier))]
    for n, m in handler_set():
        t.append((f"shell.{n}", _c05_handler(m, ())))
        t.append((f"shell.{n} without a view", _c05_handler(m, ("noview",))))
        if n in LISTERS:
            t.append((f"entries.{n}", _c05_list(m)))
    for m in vfs_methods():
        if m.name in ("snapshot", "mount_storage", "sync_storage"):
            continue
        t.append((f"vfs.{m.name}", _c05_vfs(m, ())))
    for on in ((), ("index",), ("index", "sview")):
        t.append((f"vfs.search {'+'.join(on)}", _c05_search(on)))
    for n, p in START.items():
        t.append((f"start.{n}", _c05_dirs(method("VirtualFileSystem", n), p)))
    return t


LISTERS = {"ls", "tree", "find", "grep", "rg", "search"}


# ---------------------------------------------------------------- C06
NOT_DATA = {"_loaded", "children", "policy", "_loader"}
R_DIR = "a directory's entries change only if its policy is writable"
R_FILE = "a file changes or disappears only if its policy is writable and not append-only (appends excepted)"


def is_append(v, N):
    return v.op in ("fstr", "add", "strjoin") and v.args and v.args[0] is mk("content", N, ty=STR)


def moved_out(cx):
    """Is the event the first half of a move (judged at exit by heap_diff on parent)?"""
    return False


def _c06_events(o, I, kind, st, cx, at, d, sview_ok=True):
    if kind in ("setitem", "delitem", "clear", "update"):
        P = kids_of(d["cont"])
        if P is None:
            return
        F = Facts(I, st)
        where = cx.fn.qual
        if kind == "clear" and sview_ok and "_search_view_prefix" in repr(P):
            return
        ok = F.flag(P, "writable") is True
        o.add(R_DIR, where, ok, f"{kind} on the entries of {short(P)} at {I.loc(at, cx)}" + ("" if ok else ": its policy.writable is not tested on this path"),
              () if ok else st.trace_list())
        v = d.get("val")
        if kind == "delitem" and v is not None and v.op == "node" and F.kind(v) != "VirtualDirectory":
            ok = F.flag(v, "writable") is True and F.flag(v, "append_only") is False
            o.add(R_FILE, where, ok, f"{short(v)} is taken out of its directory at {I.loc(at, cx)}" + (
                "" if ok else ": writable/append_only of the node are not both tested on this path"), () if ok else st.trace_list())


def _c06_exit(o, I, s, entry, how):
    for N, f, v in heap_diff(I, s):
        if f in NOT_DATA:
            continue
        F = Facts(I, s)
        if F.kind(N) == "VirtualDirectory":
            continue
        w, a = F.flag(N, "writable"), F.flag(N, "append_only")
        cont = s.heap[N].f.get("_content")
        ap = f in ("_content", "_provider", "version", "modified_at") and (cont is None or is_append(cont, N))
        if f == "_content" and not ap:
            ok = w is True and a is False
        elif f in ("name", "parent"):
            ok = w is True and a is False
        else:
            ok = w is True and (ap or a is False)
        o.add(R_FILE, entry, ok, f"{how} with {short(N)}.{f} := {short(v, 60)}" + ("" if ok else f"; known policy: writable={w}, append_only={a}"),
              () if ok else s.trace_list())


def _c06_vfs(m, on=()):
    def go(o):
        def mon(I, kind, st, cx, at, d):
            _c06_events(o, I, kind, st, cx, at, d, sview_ok=False)
        r = run_vfs(m, mon, on=on, opts={"loader_raises": 1, "read_raises": 1})
        o.took(r)
        for v, s in r.rets:
            _c06_exit(o, r.I, s, m.qual, "returns")
        for v, s in r.raises:
            _c06_exit(o, r.I, s, m.qual, "raises")
        o.add("no data change without permission on any exit", m.qual, True, f"{len(r.rets) + len(r.raises)} path classes")
    return go


def _c06_handler(m):
    def go(o):
        def mon(I, kind, st, cx, at, d):
            if via_api(cx, ADMIN) is None:
                _c06_events(o, I, kind, st, cx, at, d)
                if kind == "store" and d["obj"].op == "node" and d["attr"] not in NOT_DATA and d["val"] is not d.get("old"):
                    F = Facts(I, st)
                    if F.kind(d["obj"]) != "VirtualDirectory":
                        ok = F.flag(d["obj"], "writable") is True and F.flag(d["obj"], "append_only") is False
                        o.add(R_FILE, cx.fn.qual, ok, f"{short(d['obj'])}.{d['attr']} is stored at {I.loc(at, cx)} outside the filesystem API",
                              () if ok else st.trace_list())
        r = run_handler(m, mon, opts=SHOPTS, on=("noview",))
        o.took(r)
        o.add("commands change the tree only through checked filesystem operations", m.qual, True, f"{len(r.rets) + len(r.raises)} path classes")
    return go


@check("C06", "path-sensitive dataflow over the tree: on every path through every public filesystem operation and command handler, each change of a "
       "directory's entry table is dominated by a test that the directory is writable, and each net change of an existing file's text, name, parent, "
       "version or timestamps (and its removal) by tests that it is writable and not append-only, appends that keep the old text excepted")
def c06(tier):
    t = []
    for m in vfs_methods():
        if m.name not in ADMIN and m.name not in ("snapshot",):
            t.append((f"vfs.{m.name}", _c06_vfs(m)))
    for n, m in handler_set():
        t.append((f"shell.{n}", _c06_handler(m)))
    return t
