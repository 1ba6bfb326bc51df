"""C07 C08: what a view hides is neither shown nor changed."""
from __future__ import annotations
from .util import *
from .paths import CWDP, p_join1
from .report import check

ESCAPE = {"python", "python3", "host", "bash", "sh"}
R_TEXT = "text of a file is output only after the view admitted the file"
R_NAME = "names and paths of entries are output only after the view admitted them"
R_ATTR = "attributes of a node are output only after the view admitted it"
SHOWN = {"version", "metadata", "policy", "created_at", "modified_at"}


def leaves_rule(o, I, view, entry, how, v, s, trace=True):
    n = 0
    fv = I.freeze(v, s)
    for leaf, g in out_leaves(fv, ("content", "kidp", "attr", "elem"), skip=SKIP_UNDER - {"len"}):
        F = Facts(I, s, g)
        if leaf.op == "content":
            N = leaf.args[0]
            ok, rule = F.visf(view, N), R_TEXT
        elif leaf.op == "kidp":
            N = node(leaf)
            ok, rule = F.vis(view, N), R_NAME
        elif leaf.op == "elem":
            if leaf.args[0].op != "isearch":
                continue
            N = node(p_norm(mk("attr", leaf, "path", ty=PATH)))
            ok, rule = F.visf(view, N), R_TEXT
        else:
            if leaf.args[0].op != "node" or leaf.args[1] not in SHOWN:
                continue
            N = leaf.args[0]
            if N.args[0] is CWDP:
                continue
            ok, rule = F.vis(view, N), R_ATTR
        n += 1
        o.add(rule, entry, ok, f"{how} {leaf.op} of {short(N)}" + ("" if ok else ": no test by the view dominates this output"),
              () if ok else s.trace_list())
    return n


def _c07_handler(m, on):
    def go(o):
        r = run_handler(m, None, on=on, opts=SHOPTS, prims=PARSE)
        o.took(r)
        n = 0
        for how, l in (("returns", r.rets), ("raises", r.raises)):
            for v, s in l:
                n += leaves_rule(o, r.I, VIEW, m.qual, how, v, s)
        if not n:
            o.add("nothing of the tree is output", m.qual, True, f"{len(r.rets) + len(r.raises)} path classes")
    return go


def _c07_api(m, on):
    def go(o):
        r = run_vfs(m, None, on=on, over={"view": VIEW}, opts={"views": 1})
        o.took(r)
        n = 0
        for v, s in r.rets:
            n += leaves_rule(o, r.I, VIEW, m.qual, "returns", v, s)
        if not n:
            o.add("nothing of the tree is output", m.qual, None, "no output leaf found")
    return go


TAKES_VIEW = {"glob", "ls", "tree", "search"}


def _c07_exec(tier, on=()):
    """The dispatcher itself: input redirection, globbing, pipelines."""
    def go(o):
        def mon(I, kind, st, cx, at, d):
            if kind != "vfscall":
                return
            where = cx.fn.qual
            if d["fn"] in TAKES_VIEW:
                v = d["args"].get("view")
                ok = v is VIEW
                o.add("the dispatcher hands the shell's view to listing operations", where, ok, f"{d['fn']} at {I.loc(at, cx)}",
                      () if ok else st.trace_list())
            elif d["fn"] == "read_file":
                F = Facts(I, st)
                N = node(d["args"]["path"])
                ok = F.vis(VIEW, N)
                o.add(R_TEXT, where, ok, f"read_file({short(N)}) at {I.loc(at, cx)}", () if ok else st.trace_list())
            elif d["fn"] in ("walk", "iter_files"):
                o.add("the dispatcher does not enumerate the tree itself", where, False, f"{d['fn']} at {I.loc(at, cx)}", st.trace_list())
        r = exec_run(mon, tier, on=on)
        o.took(r)
        for how, l in (("returns", r.rets), ("raises", r.raises)):
            for v, s in l:
                leaves_rule(o, r.I, VIEW, "sandfs/shell.py:SandboxShell.exec", how, v, s)
    return go


@check("C07", "taint of tree data: every term of a command's output that is a file's text, an entry's name or path, or a node's attribute must be "
       "dominated by a test of that very node against the shell's view (allows_node, or the shell's visibility check by contract)")
def c07(tier):
    t = [("exec", _c07_exec(tier)), ("exec with search view", _c07_exec(tier, ("sview",)))]
    for n, m in handler_set():
        if n in ESCAPE:
            continue
        t.append((f"shell.{n}", _c07_handler(m, ())))
        t.append((f"shell.{n} with search view", _c07_handler(m, ("sview",))))
    for n in sorted(TAKES_VIEW):
        m = method("VirtualFileSystem", n)
        t.append((f"vfs.{n}", _c07_api(m, ())))
        if n == "search":
            t.append((f"vfs.{n} with index", _c07_api(m, ("index", "sview"))))
    return t


# ---------------------------------------------------------------- C08
R_CHG = "an existing node is changed, removed, copied or moved only after the view admitted it"
R_NEW = "a node is created only at a path inside the view's prefixes"
DATA = {"_content", "_provider", "name", "parent", "version", "modified_at", "metadata", "policy"}


def prefix_ok(F, view, q):
    """Is the path q known to lie inside the view's prefixes?"""
    cands = [q]
    if q.op == "part":
        t = q.args[0]
        cands = [t] + [a.args[1] for a, b in F.st.facts.items() if b is True and a.op == "prefok" and a.args[0] is view and _below(a.args[1], t)]
    for c in cands:
        if F(mk("prefok", view, c, ty=BOOL)) is True or F.vis(view, node(c)) and F(mk("exists", c, ty=BOOL)) is True:
            return True
        for b in F._bases(base_path(c)):
            if isinstance(b, T) and b.ty == PATH and F(mk("prefok", view, b, ty=BOOL)) is True:
                return True
    return F(mk("isnone", mk("attr", view, "path_prefixes"), ty=BOOL)) is True


def _below(p, t):
    for _ in range(4):
        if p is t:
            return True
        p = parent_of(p)
    return False


def tree_ok(F, view, N, depth=0):
    """The node and, for a directory, its entries are known to be admitted."""
    if not F.vis(view, N):
        return False
    if F.kind(N) == "VirtualFile" or depth > 0 or F(mk("truthy", mk("attr", N, "children"), ty=BOOL)) is False:
        return True
    for b in F._aliases(N):
        kid = node(mk("kidp", b.args[0], inst("?any", 0), ty=PATH))
        if F._forall(kid, lambda f: f.get(mk("vis", view, kid, ty=BOOL)) is True or f.get(mk("allowsn", view, kid, ty=BOOL)) is True):
            return True
    return False


def _c08_event(o, I, kind, st, cx, at, d):
    if kind not in ("store", "setitem", "delitem", "clear", "update"):
        return
    I.derive_views(st)
    F = Facts(I, st)
    api = via_api(cx)
    where = (api or cx.fn).qual
    tr = st.trace_list

    def say(rule, ok, what):
        o.add(rule, where, ok, f"{what} at {I.loc(at, cx)}", () if ok else tr())
    if kind == "store":
        N = d["obj"]
        if N.op == "node" and d["attr"] in DATA and d["val"] is not d.get("old"):
            ok = F.vis(VIEW, N)
            say(R_CHG, ok, f"{short(N)}.{d['attr']} is stored")
        elif N.op == "ref" and "VirtualFile" in N.args[0]:
            for leaf, g in out_leaves(I.freeze(d["val"], st), ("content",)):
                ok = Facts(I, st, g).visf(VIEW, leaf.args[0])
                say(R_CHG, ok, f"{short(leaf.args[0])} is copied")
        return
    P = kids_of(d["cont"])
    if P is None:
        return
    if kind == "clear":
        if "_search_view_prefix" not in repr(P):
            say(R_CHG, tree_ok(F, VIEW, P), f"the entries of {short(P)} are cleared")
        return
    v = d.get("val")
    if kind == "delitem":
        if v is not None and v.op == "node":
            say(R_CHG, F.vis(VIEW, v), f"{short(v)} is taken out of its directory")
        return
    key = d["key"]
    q = key if key.op == "part" else p_join1(P.args[0], key)
    say(R_NEW, prefix_ok(F, VIEW, q), f"an entry {short(q)} is added")
    if v.op == "node":
        say(R_CHG, tree_ok(F, VIEW, v), f"{short(v)} is moved, with everything below it,")
    elif v.op == "ref":
        for leaf, g in out_leaves(I.freeze(v, st), ("content",)):
            ok = Facts(I, st, g).visf(VIEW, leaf.args[0])
            say(R_CHG, ok, f"{short(leaf.args[0])} is copied")


def _c08_handler(m, on=()):
    def go(o):
        def mon(I, kind, st, cx, at, d):
            _c08_event(o, I, kind, st, cx, at, d)
        r = run_handler(m, mon, on=on, opts=SHOPTS, prims=PARSE)
        o.took(r)
        o.add("changes made by the command", m.qual, True, f"{len(r.rets) + len(r.raises)} path classes")
    return go


def _c08_exec(tier):
    def go(o):
        def mon(I, kind, st, cx, at, d):
            if kind == "vfscall" and d["fn"] in ("write_file", "append_file", "touch", "mkdir", "remove", "move", "copy"):
                I.derive_views(st)
                F = Facts(I, st)
                for n in ("path", "source", "target"):
                    if n in d["args"]:
                        p = p_norm(I.freeze(d["args"][n], st))
                        ok = F.vis(VIEW, node(p)) and prefix_ok(F, VIEW, p)
                        o.add(R_CHG, cx.fn.qual, ok, f"{d['fn']}({short(p)}) at {I.loc(at, cx)}", () if ok else st.trace_list())
            else:
                _c08_event(o, I, kind, st, cx, at, d)
        r = exec_run(mon, tier)
        o.took(r)
    return go


@check("C08", "event dataflow: every store to an existing node, every entry added to or removed from a directory and every copied text reachable from "
       "a command must be dominated by the view's admission of that node (for moved or copied directories, of every entry), and every created path by "
       "the view's prefix test")
def c08(tier):
    t = [("exec", _c08_exec(tier))]
    for n, m in handler_set():
        if n in ESCAPE:
            continue
        t.append((f"shell.{n}", _c08_handler(m)))
        if tier == "thorough":
            t.append((f"shell.{n} with search view", _c08_handler(m, ("sview",))))
    return t
