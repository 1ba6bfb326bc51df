"""C24: providers; C18: the tree stays a tree."""
from __future__ import annotations
import ast
from .util import *
from .models import drop_none
from .report import check
from .harness import vfs_methods

R_READ = "a provider-backed file is read by calling its provider, any other file by its text"
R_WRITE = "a written file has the written text and no provider"
R_FAIL = "a failing provider surfaces as a provider error and changes nothing"
R_ONCE = "a directory provider runs once per load and never for a loaded directory"
R_LOAD = "loading adds exactly the provided entries that are not there yet"
R_ACC = "entries of a directory are looked at only after it was loaded"
R_LAZY = "mounting a provider does not run it"
R_NEW = "a new node starts with what it was given"

D = pconst("/d")


def role(x):
    return roles(env().prog)[x]


def log_mon(extra=None):
    def mon(I, kind, st, cx, at, d):
        if kind == "callback":
            st.log = st.log + (("cb", d["category"], I.freeze(d["callee"], st), tuple(I.freeze(a, st) for a in d["args"])),)
        elif kind == "store" and d["obj"].op == "node":
            st.log = st.log + (("st", d["obj"], d["attr"], I.freeze(d["val"], st) if d["val"] is not None else None),)
        elif kind in ("setitem", "delitem", "clear", "update") and kids_of(d["cont"]) is not None:
            st.log = st.log + (("kid", kind, kids_of(d["cont"]), d.get("key"), d.get("val")),)
        if extra:
            extra(I, kind, st, cx, at, d)
    return mon


def ctx_ok(a, N):
    """The provider's context: the node's own path and metadata and the filesystem."""
    if a.op != "instv":
        return None
    f = {k: v for k, v in a.args[1]}
    return f.get("path") is N.args[0] and (f.get("metadata") is fld(N, "metadata") or f.get("metadata", CNONE).op in ("dictv", "dcopy")) and f.get("vfs") is VFS


def _reads(o):
    m = method("VirtualFile", "read")
    r = run_node(m, "VirtualFile", log_mon(), opts={"exact": 1})
    o.took(r)
    N = NODE
    prov, text = fld(N, role("provider")), fld(N, role("content"))
    for v, s in r.rets:
        F = Facts(r.I, s)
        v = r.I.freeze(v, s)
        none = F(mk("isnone", prov, ty=BOOL))
        if none is None and F(mk("truthy", prov, ty=BOOL)) is not None:
            none = not F(mk("truthy", prov, ty=BOOL))
        cbs = [x for x in s.log if x[0] == "cb"]
        why = ""
        if none is True:
            why = f"gives {short(v, 60)} without a provider" if v is not text else "calls something without a provider" if cbs else ""
        elif none is False:
            if v is text or not any(t.op == "cb" and t.args[0] is prov for t in subterms(v)):
                why = f"gives {short(v, 60)} although there is a provider"
            elif v.op != "cb":
                why = f"gives {short(v, 60)}, not what the provider returned"
            elif len(cbs) != 1:
                why = f"calls the provider {len(cbs)} times"
            elif ctx_ok(cbs[0][3][0], N) is False:
                why = f"hands the provider {short(cbs[0][3][0], 90)}"
        else:
            why = f"gives {short(v, 60)} whether or not there is a provider"
        st = [x for x in s.log if x[0] == "st"]
        if st and not why:
            why = f"reading changes {st[0][2]}"
        o.add(R_READ, m.qual, not why, why or ("provider" if none is False else "text"), s.trace_list() if why else ())
    for v, s in r.raises:
        ok = v.args[0] == "ProviderError" and not any(x[0] == "st" for x in s.log)
        o.add(R_FAIL, m.qual, ok, f"raises {v.args[0]}", () if ok else s.trace_list())


def _writes(o):
    m = method("VirtualFile", "write")
    r = run_node(m, "VirtualFile", log_mon(), opts={"read_raises": 1, "exact": 1})
    o.took(r)
    N = NODE
    data, app = sym("data", STR), sym("append", BOOL)
    for v, s in r.rets:
        F = Facts(r.I, s)
        ob = s.heap.get(N)
        f = ob.f if ob else {}
        txt = r.I.freeze(f[role("content")], s) if role("content") in f else None
        a = F(app)
        why = ""
        if f.get(role("provider")) is not CNONE:
            why = "the provider stays"
        elif a is not True and txt is not data:
            why = f"the text is {short(txt, 60) if txt else 'unchanged'}"
        elif a is not False and (txt is None or txt.op != "fstr" or txt.args != (mk("content", N, ty=STR), data)):
            why = f"appending gives {short(txt, 60) if txt else 'unchanged'}"
        o.add(R_WRITE, m.qual, not why, why or f"append={a}", s.trace_list() if why else ())
    for v, s in r.raises:
        bad = [x for x in s.log if x[0] == "st"]
        o.add(R_FAIL, m.qual, not bad and v.args[0] == "ProviderError", f"raises {v.args[0]}" + (f" after changing {bad[0][2]}" if bad else ""), s.trace_list() if bad else ())


# --- directories --------------------------------------------------------------
PN = {"a": dict(kind="file", content=sym("text a", STR)),
      "b": dict(kind="file", content_provider=True),
      "c": dict(kind="dir", directory_provider=True),
      "e": dict(kind="dir", children=("x", dict(kind="file", content=sym("text x", STR)))),
      "f": dict(kind="file"),
      "g": dict(kind="dir", directory_provider=True, children=("y", dict(kind="file", content=sym("text y", STR)))),
      "h": dict(kind="file", content_provider=True, content=sym("text h", STR)),
      ".k": dict(kind="file", content=sym("text k", STR))}


def provided(I, st, name, spec):
    p = env().prog
    S = sym("provided:" + name, inst_ty("ProvidedNode"))
    tys = {}
    for n in p.classes["ProvidedNode"].node.body:
        if isinstance(n, ast.AnnAssign):
            tys[n.target.id] = p.ty(n.annotation)
    f = {}
    for k, ty in tys.items():
        x = spec.get(k)
        if k == "kind":
            f[k] = const(spec["kind"])
        elif k == "metadata":
            f[k] = sym("metadata:" + name, ("dict", STR, ANY))
        elif k == "policy":
            f[k] = sym("policy:" + name, inst_ty("NodePolicy")) if name in ("a", "c") else CNONE
        elif x is True:
            f[k] = sym(f"{k}:{name}", drop_none(ty))
        elif k == "children" and x:
            f[k] = st.alloc("given children", Obj("dict", "dict", {}, items=((const(x[0]), provided(I, st, name + "/" + x[0], x[1])),)))
        else:
            f[k] = x if isinstance(x, T) else CNONE
    st.heap[S] = Obj("inst", "ProvidedNode", f)
    return S


def snapshot_of(names):
    def go(I, f, args, st):
        return st.alloc("snapshot", Obj("dict", "dict", {}, items=tuple((const(n), provided(I, st, n, PN[n])) for n in names)))
    return go


def node_why(I, s, name, spec, got, parent, full):
    """Does the new node `got` carry what the provider gave?"""
    o = s.heap.get(got)
    cls = "VirtualFile" if spec["kind"] == "file" else "VirtualDirectory"
    if o is None or o.cls != cls:
        return f"{full} becomes {short(got, 60)}"
    f = o.f
    if f.get("name") is not const(name):
        return f"{full} is named {short(f.get('name', CNONE), 40)}"
    if f.get("parent") is not parent:
        return f"{full} has parent {short(f.get('parent', CNONE), 40)}"
    md = I.freeze(f.get("metadata", CNONE), s)
    if not any(t is sym("metadata:" + full, ("dict", STR, ANY)) for t in subterms(md)):
        return f"{full} has metadata {short(md, 40)}"
    pol = f.get("policy", CNONE)
    want = full in ("a", "c")
    pf = I.freeze(pol, s)
    if want and not any(t.op == "sym" and t.args[0] == "policy:" + full for t in subterms(pf)):
        return f"{full} has policy {short(pf, 40)}"
    if cls == "VirtualFile":
        pr = f.get(role("provider"), CNONE)
        tx = I.freeze(f.get(role("content"), CNONE), s)
        if spec.get("content_provider"):
            if pr.op != "sym" or pr.args[0] != "content_provider:" + full:
                return f"{full} has provider {short(pr, 40)}"
        elif pr is not CNONE:
            return f"{full} has provider {short(pr, 40)}"
        elif tx is not (spec.get("content") or const("")) and not (spec.get("content") is not None and Facts(I, s)(mk("truthy", spec["content"], ty=BOOL)) is False and tx is const("")):
            return f"{full} has text {short(tx, 40)}"
        return ""
    ld = f.get("loader", CNONE)
    done = f.get(role("loaded"))
    if spec.get("directory_provider"):
        if ld.op != "sym" or ld.args[0] != "directory_provider:" + full:
            return f"{full} has loader {short(ld, 40)}"
        if done is not FALSE:
            return f"{full} counts as loaded although its provider has not run"
    elif ld is not CNONE:
        return f"{full} has loader {short(ld, 40)}"
    kids = s.heap.get(f.get("children"))
    its = {k: v for k, v in kids.items} if kids is not None else {}
    ch = spec.get("children")
    if ch:
        got2 = its.get(const(ch[0]))
        if len(its) != 1 or got2 is None:
            return f"{full} has entries {[short(k, 20) for k in its]}"
        return node_why(I, s, ch[0], ch[1], got2, got, full + "/" + ch[0])
    return f"{full} has entries" if its else ""


def _loads(names):
    def go(o):
        m = method("VirtualDirectory", "ensure_loaded")
        N = node(D)
        ld, done = fld(N, "loader"), fld(N, role("loaded"))
        r = run_node(m, "VirtualDirectory", log_mon(), opts={"cb": {"DirectoryProvider": snapshot_of(names)}, "exact": 1}, selfv=N)
        o.took(r)
        seen = set()
        for v, s in r.rets:
            F = Facts(r.I, s)
            was, none = F(done), F(mk("isnone", ld, ty=BOOL))
            if none is None and F(mk("truthy", ld, ty=BOOL)) is not None:
                none = not F(mk("truthy", ld, ty=BOOL))
            cbs = [x for x in s.log if x[0] == "cb"]
            kids = [x for x in s.log if x[0] == "kid"]
            ob = s.heap.get(N)
            now = ob.f.get(role("loaded")) if ob else None
            seen.add((was, none))
            if was is True:
                why = "runs the provider of a loaded directory" if cbs else "changes the entries of a loaded directory" if kids else \
                      "a loaded directory counts as not loaded" if now not in (None, TRUE) else ""
                o.add(R_ONCE, m.qual, not why, why or "loaded", s.trace_list() if why else ())
                continue
            if none is True:
                why = "calls something without a provider" if cbs else "changes entries" if kids else ""
                o.add(R_ONCE, m.qual, not why, why or "no provider", s.trace_list() if why else ())
                continue
            if was is None and none is None and not cbs:
                o.add(R_ONCE, m.qual, None, "no condition")
                continue
            why = ""
            if len(cbs) != 1 or cbs[0][2] is not ld:
                why = f"runs the provider {len(cbs)} times"
            elif ctx_ok(cbs[0][3][0], N) is False:
                why = f"hands the provider {short(cbs[0][3][0], 90)}"
            elif now is not TRUE:
                why = "the directory still counts as not loaded"
            o.add(R_ONCE, m.qual, not why, why or "loads", s.trace_list() if why else ())
            added = {}
            bad = ""
            for _, k, of, key, val in kids:
                if of is not N.args[0] and of is not N:
                    continue
                if k != "setitem":
                    bad = f"loading does {k} on the entries"
                elif key in added:
                    bad = f"{short(key, 30)} is entered twice"
                else:
                    added[key] = val
            for n in names:
                was_there = F(mk("exists", pconst("/d/" + n), ty=BOOL))
                k = const(n)
                if k in added and was_there is not False:
                    bad = bad or f"{n} replaces an entry that may be there already"
                elif k not in added and was_there is not True:
                    bad = bad or f"{n} is not added"
                elif k in added:
                    bad = bad or node_why(r.I, s, n, PN[n], added[k], N, n)
            x = [k for k in added if not (k.op == "c" and k.args[1] in names)]
            if x:
                bad = bad or f"{short(x[0], 40)} is added"
            o.add(R_LOAD, m.qual, not bad, bad or f"{len(added)} of {len(names)} entries added", s.trace_list() if bad else ())
        for v, s in r.raises:
            ob = s.heap.get(N)
            now = ob.f.get(role("loaded")) if ob else None
            kids = [x for x in s.log if x[0] == "kid" and x[2] in (N, N.args[0])]
            failed = v.args[0] == "ProviderError"
            why = f"raises {v.args[0]}" if not failed else "the directory counts as loaded after its provider failed" if now is TRUE else "entries were changed" if kids else ""
            o.add(R_FAIL, m.qual, not why, why or "provider failed", s.trace_list() if why else ())
        o.add(R_ONCE, m.qual, len(seen) >= 3 or None, f"{len(seen)} situations")
    return go


def _bad_kind(o):
    """A provider that hands out something that cannot be a node leaves the directory to be loaded again."""
    m = method("VirtualDirectory", "ensure_loaded")
    N = node(D)

    def bad(I, f, args, st):
        S = provided(I, st, "f", PN["f"])
        st.heap[S] = st.heap[S].with_(f=st.heap[S].f | {"kind": const("link")})
        return st.alloc("snapshot", Obj("dict", "dict", {}, items=((const("f"), S),)))
    r = run_node(m, "VirtualDirectory", log_mon(), opts={"cb": {"DirectoryProvider": bad}, "exact": 1}, selfv=N)
    o.took(r)
    for v, s in r.raises:
        ob = s.heap.get(N)
        now = ob.f.get(role("loaded")) if ob else None
        o.add(R_FAIL, m.qual, now is not TRUE, f"raises {v.args[0]}" + ("" if now is not TRUE else " and the directory counts as loaded"), () if now is not TRUE else s.trace_list())
    for v, s in r.rets:
        if any(x[0] == "kid" for x in s.log):
            o.add(R_LOAD, m.qual, None, "an entry of unknown kind is added")


def _access(name):
    def go(o):
        m = method("VirtualDirectory", name)

        def mon(I, kind, st, cx, at, d):
            if kind == "load":
                st.log = st.log + (("load", d["node"]),)
            elif kind == "kids" and d["node"] is NODE:
                st.log = st.log + (("kids", d["node"]),)
        r = run_node(m, "VirtualDirectory", mon, opts={"exact": 1})
        o.took(r)
        for v, s in r.rets + r.raises:
            lg = [x[0] for x in s.log if x[1] is NODE]
            ok = "load" in lg and ("kids" not in lg or lg.index("load") < lg.index("kids"))
            o.add(R_ACC, m.qual, ok, "loads first" if ok else "looks at entries before loading" if "load" in lg else "does not load the directory", () if ok else s.trace_list())
        for v, s in r.rets:
            v = r.I.freeze(v, s)
            if name == "get_child":
                k = sym(m.params[1].arg, STR)
                ok = v is node(mk("join1", NODE.args[0], k, ty=PATH))
                o.add(R_ACC, m.qual, ok or None, "the entry of that name" if ok else f"gives {short(v, 60)}")
            else:
                ok = any(t is fld(NODE, "children") for t in subterms(v))
                o.add(R_ACC, m.qual, ok or None, "the entries" if ok else f"gives {short(v, 60)}")
    return go


def manages_load(fn):
    """Functions that set the loaded flag themselves take care of loading."""
    f = fn
    while f is not None:
        if any(isinstance(n, ast.Attribute) and n.attr == role("loaded") and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
            return True
        f = f.outer
    return False


def _ops_access(m):
    def go(o):
        def mon(I, kind, st, cx, at, d):
            if kind == "load":
                st.log = st.log + (d["node"],) if d["node"] not in st.log else st.log
            elif kind == "kids" and cx.fn is not None and (cx.fn.cls is None or cx.fn.cls.name not in ("VirtualDirectory", "VirtualFile", "VirtualNode")) and not manages_load(cx.fn):
                n = d["node"]
                ok = n in st.log
                if not ok and n.op == "node" and n.args[0] is pconst("/"):
                    return
                o.add(R_ACC, cx.fn.qual, ok, f"entries at line {at.lineno}" if ok else f"entries of {short(n, 50)} used at line {at.lineno} without loading it", () if ok else st.trace_list())
        r = run_vfs(m, mon, opts={"loop_limit": 6}, rec_limit=1)
        o.took(r)
        o.add(R_ACC, m.qual, True, "entries reached after loading")
    return go


def _mounting(o):
    """Mounting only records the provider."""
    for name, cat, f in (("mount_file", "ContentProvider", "provider"), ("mount_directory", "DirectoryProvider", "loader")):
        m = method("VirtualFileSystem", name)
        p, q = m.params[1].arg, m.params[2].arg
        pv = sym(q, env().prog.ty(m.params[2].annotation))

        def mon(I, kind, st, cx, at, d):
            if kind in ("callback", "load", "read"):
                c = I.freeze(d["callee"], st) if kind == "callback" else d["node"]
                st.log = st.log + ((kind, c),)
        r = run_vfs(m, mon, over={p: const("/a/b")}, opts={"exact": 1})
        o.took(r)
        T0 = node(pconst("/a/b"))
        for v, s in r.rets:
            new = [s.heap[k] for k in s.heap if k.op == "ref" and s.heap[k].kind == "inst" and s.heap[k].cls in ("VirtualFile", "VirtualDirectory")]
            ob = s.heap.get(v) or s.heap.get(T0)
            why = ""
            ran = [x for x in s.log if x[1] is pv or x[0] == "load" and (x[1] is T0 or x[1] is v)]
            attr = role("provider") if f == "provider" else "loader"
            if ran:
                why = f"runs the provider ({ran[0][0]})"
            elif ob is None or ob.f.get(attr) is not pv:
                why = f"the provider recorded is {short(ob.f.get(attr, CNONE), 40) if ob else 'none'}"
            elif f == "loader" and ob.f.get(role("loaded")) is not FALSE:
                why = "the directory counts as loaded"
            o.add(R_LAZY, m.qual, not why, why or "provider recorded", s.trace_list() if why else ())


def _fresh(o):
    """What constructing a node records."""
    for cls, par, attr in (("VirtualFile", "provider", role("provider")), ("VirtualFile", "content", role("content")), ("VirtualDirectory", "loader", "loader")):
        ini = method(cls, "__init__")
        if not any(a.arg == par for a in ini.params + ini.kwonly):
            o.add(R_NEW, ini.qual, None, f"no parameter {par}")
            continue
        r = run_new(cls, over={"metadata": sym("metadata", ("dict", STR, ANY)), "parent": CNONE})
        o.took(r)
        for v, s in r.rets:
            f = s.heap[v].f if v in s.heap else {}
            x = r.I.freeze(f.get(attr, CNONE), s)
            F = Facts(r.I, s)
            src = next((t for t in subterms(x) if t.op == "sym" and t.args[0] == par), None)
            P = next((t for a in s.facts for t in subterms(a) if t.op == "sym" and t.args[0] == par), None)
            absent = P is not None and (F(mk("isnone", P, ty=BOOL)) is True or F(mk("truthy", P, ty=BOOL)) is False)
            ok = src is not None or absent and (x is CNONE or x is const(""))
            why = "" if ok else f"{attr} is {short(x, 40)}"
            if cls == "VirtualDirectory" and ok:
                done = f.get(role("loaded"))
                L = x
                want = mk("isnone", L, ty=BOOL)
                dn = r.I.known(want, s) if L is not CNONE else True
                if not (done is want or done is FALSE or dn is True):
                    ok = None if done is None or done.op != "c" else False
                    why = f"counts as loaded: {short(done, 40) if done is not None else '?'}"
            o.add(R_NEW, ini.qual, ok, why or f"{attr} from {par}", () if ok else s.trace_list())


@check("C24", "path-class analysis of the node classes' own bodies (effect log, exact provider result, arbitrary earlier contents): which callbacks run, which fields change and "
       "which entries are added on every return and raise; typestate analysis (loaded before entries are used) over every filesystem operation")
def c24(tier):
    t = [("read", _reads), ("write", _writes), ("mounting", _mounting), ("fresh", _fresh), ("bad entry", _bad_kind)]
    t += [(f"load {' '.join(x)}", _loads(x)) for x in (("a", "b"), ("c",), ("e",), ("f", "a"), (), ("g",), ("h", ".k"))]
    t += [(n, _access(n)) for n in ("get_child", "iter_children")]
    for m in vfs_methods():
        if m.name not in ("mount_storage", "sync_storage", "restore"):
            t.append((f"{m.name} entries", _ops_access(m)))
    return t


# --- C18 ----------------------------------------------------------------------
R_LINK = "an entry is listed under its own name in the directory it names as parent"
R_TWICE = "a node is listed exactly once"
R_UNL = "a node that changes place or name is entered anew and its old entry removed"
R_ROOT = "the root is neither removed, moved nor renamed"
R_SELF = "a directory never ends up inside itself"
R_PATH = "the path of a node is the chain of names above it"
R_ADD = "an entry is added only under a free name"

from .paths import p_name, p_parent  # noqa: E402


def owner(st, cont):
    n = kids_of(cont)
    if n is not None:
        return n
    for k, o in st.heap.items():
        if o.kind == "inst" and o.cls == "VirtualDirectory" and o.f.get("children") is cont:
            return k
    return None


def tree_mon(o=None):
    def mon(I, kind, st, cx, at, d):
        if kind in ("setitem", "delitem", "clear", "update"):
            w = owner(st, d["cont"])
            if w is None:
                return
            fz = lambda v: I.freeze(v, st) if isinstance(v, T) else v
            if kind == "setitem":
                st.log += (("add", w, fz(d["key"]), d["val"], cx.fn.qual if cx.fn else "?", at.lineno),)
            elif kind == "delitem":
                st.log += (("del", w, fz(d["key"]), d["val"]),)
            else:
                st.log += ((kind, w),)
        elif kind == "store" and d["attr"] in ("name", "parent") and d["obj"].op == "node":
            st.log += (("mv", d["obj"], d["attr"], at.lineno, cx.fn.qual if cx.fn else "?"),)
    return mon


def now(I, s, v, attr):
    o = s.heap.get(v)
    if o is not None and o.kind == "inst" and attr in o.f:
        return I.freeze(o.f[attr], s) if attr == "name" else o.f[attr]
    if v.op == "node":
        return p_name(v.args[0]) if attr == "name" else node(p_parent(v.args[0]))
    return None


def same_key(k, n):
    if k is n:
        return True
    for a, b in ((k, n), (n, k)):
        if a.op == "name" and p_name(a.args[0]) is b:
            return True
        if a.op == "attr" and a.args[1] == "name" and a.args[0].op == "node" and p_name(a.args[0].args[0]) is b:
            return True
    return False


def judge(o, I, s, where, how):
    live = []
    gone = []
    for x in s.log:
        if x[0] == "add":
            live = [y for y in live if not (y[1] is x[1] and y[2] is x[2])] + [x]
        elif x[0] == "del":
            live = [y for y in live if not (y[1] is x[1] and (y[2] is x[2] or y[3] is x[3] and x[3] is not None))]
            gone.append((x[1], x[2], x[3]))
        elif x[0] == "clear":
            live = [y for y in live if y[1] is not x[1]]
            gone.append((x[1], None, None))
    tr = s.trace_list()
    for i, (_, w, key, val, fn, line) in enumerate(live):
        nm, pa = now(I, s, val, "name"), now(I, s, val, "parent")
        if val.op == "unk" and val.args[0] == "rec":
            continue        # below the recursion bound
        if nm is None or pa is None:
            o.add(R_LINK, fn, None, f"line {line}: {short(val, 50)} is not followed")
            continue
        bad = ""
        if not same_key(key, nm):
            bad = f"entered as {short(key, 40)} but named {short(nm, 40)}"
        elif pa is not w:
            bad = f"entered in {short(w, 50)} but its parent is {short(pa, 50)}"
        unk = any(t.op == "unk" or t.op == "mix" for x in (key, nm, pa, w) for t in subterms(x))
        o.add(R_LINK, fn, (None if unk else False) if bad else True, f"line {line} ({how})" + (f": {bad}" if bad else ""), tr if bad else ())
        dup = [y for y in live[:i] if y[3] is val and not (y[1] is w and y[2] is key)]
        if val.op == "node":
            P = val.args[0]
            stays = not any(g[0] is node(p_parent(P)) and (g[1] is None or same_key(g[1], p_name(P)) or g[2] is val) for g in gone)
            moved = not (w is node(p_parent(P)) and same_key(key, p_name(P)))
            if moved and stays:
                o.add(R_TWICE, fn, False, f"line {line} ({how}): {short(val, 50)} is entered in {short(w, 40)} and stays in its old place", tr)
        o.add(R_TWICE, fn, not dup, f"line {line} ({how})" + (f": {short(val, 50)} is entered twice" if dup else ""), tr if dup else ())
    for x in s.log:
        if x[0] != "mv":
            continue
        n = x[1]
        nm, pa = now(I, s, n, "name"), now(I, s, n, "parent")
        P = n.args[0]
        if P is pconst("/"):
            o.add(R_ROOT, x[4], False, f"line {x[3]}: the {x[2]} of the root is set", tr)
            continue
        if same_key(nm, p_name(P)) and pa is node(p_parent(P)):
            continue
        there = any(y[3] is n and y[1] is pa and same_key(y[2], nm) for y in live)
        off = any(g[0] is node(p_parent(P)) and (g[1] is None or same_key(g[1], p_name(P)) or g[2] is n) for g in gone)
        out = off and pa is CNONE
        ok = there and off or out
        o.add(R_UNL, x[4], ok, f"line {x[3]} ({how})" + ("" if ok else f": {short(n, 40)} is now {short(nm, 30)} in {short(pa, 40)} but {'is not entered there' if not there else 'keeps its old entry'}"), () if ok else tr)


def _tree_op(m, over=None, setup=None, rec=2, opts=None):
    def go(o):
        r = run_vfs(m, tree_mon(), over=over, setup=setup, opts={"loop_limit": 6, "loader_raises": 1, "read_raises": 1} | (opts or {}), rec_limit=rec)
        o.took(r)
        for v, s in r.rets:
            judge(o, r.I, s, m.qual, "return")
        for v, s in r.raises:
            judge(o, r.I, s, m.qual, f"raise {v.args[0]}")
        o.add(R_LINK, m.qual, True, f"{len(r.rets)} returns, {len(r.raises)} raises")
    return go


SELF = [("/a", "/a/b"), ("/a", "/a/b/c"), ("/a/b", "/a/b/c"), ("/a", "/a"), ("/a/b", "/a/b/../b/c/d"), ("/a/./b", "/a/b/x/y")]
ROOTS = ["/", "/..", "/a/..", "//", "/./"]


def _self_move(o):
    m = method("VirtualFileSystem", "move")
    p, q = m.params[1].arg, m.params[2].arg
    for a, b in SELF:
        r = run_vfs(m, tree_mon(), over={p: const(a), q: const(b)}, opts={"loader_raises": 1})
        o.took(r)
        src = node(p_norm(const(a)))
        hits = []
        for v, s in r.rets + r.raises:
            if Facts(r.I, s).kind(src) == "VirtualFile":
                continue
            for x in s.log:
                if x[0] == "add" and x[3] is src and inside_of(x[1], src):
                    hits.append((x, s))
        o.add(R_SELF, m.qual, not hits, f"{a} to {b}" + (f": {a} is entered in {short(hits[0][0][1], 40)}" if hits else ""), hits[0][1].trace_list() if hits else ())
        # and any pair whose destination lies below the source
    r = run_vfs(m, tree_mon())
    o.took(r)
    n = 0
    for v, s in r.rets:
        F = Facts(r.I, s)
        for x in s.log:
            if x[0] != "add" or x[3].op != "node" or x[1].op != "node" or F.kind(x[3]) == "VirtualFile":
                continue
            n += 1
            P, Q = x[3].args[0], x[1].args[0]
            rel = [b for a, b in s.facts.items() if a.op in ("isrel", "relto", "prefix") and P in a.args and Q in a.args]
            facts = [F(mk(op, Q, P, ty=BOOL)) for op in ("isrel", "prefix")]
            ok = False in rel or False in facts
            o.add(R_SELF, m.qual, ok or None, "moved only to a place outside itself" if ok else f"{short(x[3], 40)} enters {short(x[1], 40)} unchecked")
    o.add(R_SELF, m.qual, True, f"{n} general moves")


def inside_of(w, n):
    a, b = (t.args[0].args[0] if t.op == "node" and t.args[0].op == "pconst" else None for t in (w, n))
    return a is not None and b is not None and (a == b or a.startswith(b.rstrip("/") + "/"))


def _roots(o):
    for name in ("remove", "move"):
        m = method("VirtualFileSystem", name)
        p = m.params[1].arg
        for raw in ROOTS:
            over = {p: const(raw)}
            if name == "move":
                over[m.params[2].arg] = const("/x/y")

            def setup(st):
                st.heap[VFS].f["cwd"] = node(pconst("/"))
            r = run_vfs(m, tree_mon(), over=over, setup=setup)
            o.took(r)
            for v, s in r.rets + r.raises:
                bad = [x for x in s.log]
                o.add(R_ROOT, m.qual, not bad, f"{name} {raw!r}" + (" changes the tree" if bad else ""), s.trace_list() if bad else ())
            o.add(R_ROOT, m.qual, not r.rets, f"{name} {raw!r} is refused" if not r.rets else f"{name} {raw!r} is accepted")


def _node_methods(o):
    m = method("VirtualDirectory", "add_child")
    X = node(sym("xp", PATH))
    p = m.params[1].arg
    r = run_node(m, "VirtualDirectory", tree_mon(), over={p: X}, opts={"exact": 1})
    o.took(r)
    for v, s in r.rets:
        adds = [x for x in s.log if x[0] == "add"]
        F = Facts(r.I, s)
        nm = now(r.I, s, X, "name")
        free = F(mk("exists", mk("join1", NODE.args[0], p_name(X.args[0]), ty=PATH), ty=BOOL)) is False
        ok = len(adds) == 1 and adds[0][1] is NODE and adds[0][3] is X and same_key(adds[0][2], nm) and now(r.I, s, X, "parent") is NODE
        o.add(R_LINK, m.qual, ok, "entered under its name, parent set" if ok else f"effects: {[(x[0],) + tuple(short(y, 30) for y in x[1:4] if isinstance(y, T)) for x in s.log]}, parent {short(now(r.I, s, X, 'parent'), 30)}",
              () if ok else s.trace_list())
        o.add(R_ADD, m.qual, free, "name was free" if free else "an entry of that name may be replaced", () if free else s.trace_list())
    for v, s in r.raises:
        bad = [x for x in s.log if x[0] in ("add", "del", "clear")]
        o.add(R_ADD, m.qual, not bad, f"raises {v.args[0]}" + (" after changing entries" if bad else ""))
    m = method("VirtualDirectory", "remove_child")
    K = sym(m.params[1].arg, STR)
    r = run_node(m, "VirtualDirectory", tree_mon(), opts={"exact": 1})
    o.took(r)
    for v, s in r.rets:
        ok = len(s.log) == 1 and s.log[0][0] == "del" and s.log[0][1] is NODE and s.log[0][2] is K
        o.add(R_UNL, m.qual, ok, "removes the entry of that name" if ok else f"effects: {[x[0] for x in s.log]}", () if ok else s.trace_list())
    for v, s in r.raises:
        bad = [x for x in s.log if x[0] in ("add", "del", "clear")]
        o.add(R_UNL, m.qual, not bad, f"raises {v.args[0]}" + (" after changing entries" if bad else ""))
    m = method("VirtualNode", "path")
    for raw in ("/", "/a", "/a/b", "/a/b/c", "/.x/y z/w.txt", "/a/b/c/d/e/f"):
        r = run_node(m, "VirtualNode", None, selfv=node(pconst(raw)), opts={"exact": 1})
        o.took(r)
        for v, s in r.rets:
            v = r.I.freeze(v, s)
            ok = v is pconst(raw)
            o.add(R_PATH, m.qual, ok if v.op == "pconst" else ok or None, raw if ok else f"{raw} is reported as {short(v, 40)}", () if ok else s.trace_list())
        for v, s in r.raises:
            o.add(R_PATH, m.qual, False, f"{raw} raises {v.args[0]}", s.trace_list())


def _load_tree(o):
    """Entries made from a directory provider's result, for an arbitrary name."""
    m = method("VirtualDirectory", "ensure_loaded")
    N = node(D)
    for spec in ("a", "e"):
        def give(I, f, args, st):
            return st.alloc("snapshot", Obj("dict", "dict", {}, items=((sym("entry", STR), provided(I, st, spec, PN[spec])),)))
        r = run_node(m, "VirtualDirectory", tree_mon(), opts={"cb": {"DirectoryProvider": give}, "exact": 1}, selfv=N)
        o.took(r)
        for v, s in r.rets:
            judge(o, r.I, s, m.qual, "return")
        for v, s in r.raises:
            judge(o, r.I, s, m.qual, f"raise {v.args[0]}")
        o.add(R_LINK, m.qual, any(x[0] == "add" and x[1] is N for v, s in r.rets for x in s.log) or None, "entries are added")


def _new_root(o):
    """A new filesystem has one root without a parent."""
    r = run_new("VirtualFileSystem")
    o.took(r)
    for v, s in r.rets:
        f = s.heap[v].f
        rt = f.get("root")
        ob = s.heap.get(rt)
        ok = ob is not None and ob.cls == "VirtualDirectory" and ob.f.get("parent") is CNONE
        o.add(R_ROOT, "sandfs/vfs.py:VirtualFileSystem.__init__", ok or None, "the root has no parent" if ok else f"root is {short(rt, 40) if rt is not None else None}")


HEAVY = ("mount_storage", "restore")


@check("C18", "typestate of parent/name/children over every path class (return and raise) of every mutating operation: each entry added is listed under the node's final name in its final parent, "
       "each node moved loses its old entry; constant-path refusal analysis for the root and for a directory's own subtree")
def c18(tier):
    t = [("node methods", _node_methods), ("moves into itself", _self_move), ("root", _roots), ("new", _new_root), ("loading", _load_tree)]
    for m in vfs_methods():
        if m.name in HEAVY:
            continue
        t.append((m.name, _tree_op(m)))
    m = method("VirtualFileSystem", "mount_storage")
    t.append(("mount_storage", _tree_op(m, over={m.params[1].arg: const("/m")}, rec=1)))
    m = method("VirtualFileSystem", "restore")
    t.append(("restore", _tree_op(m, rec=1)))
    return t
