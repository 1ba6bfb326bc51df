"""C11 C12: failed operations and versions."""
from __future__ import annotations
from .util import *
from .models import roles
from .report import check
from .rules_policy import absent_child, new_nodes

FAIL = {"loader_raises": 1, "read_raises": 1}
R_FAILF = "an operation that raises leaves every existing file's text, version, name and place as they were"
R_FAILT = "an operation that raises adds no file and removes none"
OPS = ("write_file", "append_file", "touch", "move", "copy", "remove")


def data_fields():
    r = roles(env().prog)
    return {r["content"], r["provider"], "version", "name", "parent"}


def tree_changes(I, s):
    """(directory, name, new node or None) for net changes of the entries of directories that existed on entry."""
    F = Facts(I, s)
    for k, o in s.heap.items():
        d = kids_of(k)
        if d is None or o.kind != "dict":
            continue
        if o.base is None and not o.items:
            yield d, None, None
        for key, v in o.items:
            if v is None:
                if absent_child(F, d, key):
                    continue
                yield d, key, None
            elif v.op == "node" and parent_of(v.args[0]) is d.args[0] and (key is mk("name", v.args[0]) or key.op == "name" and key.args[0] is v.args[0]):
                continue
            else:
                yield d, key, v


def holds_file(s, v, seen=()):
    """Does the new node v, or one below it, denote a file?"""
    if v.op != "ref" or v in seen:
        return v.op == "node"
    o = s.heap.get(v)
    if o is None:
        return False
    if o.cls == "VirtualFile":
        return True
    c = o.f.get("children")
    co = s.heap.get(c) if c is not None else None
    if co is None:
        return False
    if any(t.op == "instv" and t.args[0] == "VirtualFile" or t.op == "ref" and holds_file(s, t, seen + (v,)) for b, _ in co.bag for t in subterms(b)):
        return True
    return any(x is not None and holds_file(s, x, seen + (v,)) for _, x in co.items)


def _c11(name, on, file_only=False):
    m = method("VirtualFileSystem", name)

    def go(o):
        df = data_fields()

        def setup(st):
            if file_only:
                p = sym(m.params[1].arg, env().prog.ty(m.params[1].annotation))
                st.facts[mk("isinst", node(p_norm(p)), "VirtualFile", ty=BOOL)] = True
        r = run_vfs(m, None, on=on, opts=FAIL, setup=setup)
        o.took(r)
        n = 0
        for v, s in r.raises:
            if any(c[0] == "hook" for c in s.log if isinstance(c, tuple)):
                continue
            n += 1
            F = Facts(r.I, s)
            for N, f, x in heap_diff(r.I, s):
                if f in df and F.kind(N) != "VirtualDirectory" or f in ("name", "parent"):
                    o.add(R_FAILF, m.qual, False, f"raises {short(v, 50)} with {short(N, 60)}.{f} := {short(x, 50)}", s.trace_list())
            for d, key, x in tree_changes(r.I, s):
                if x is None:
                    c = [t for t in (key.args if key is not None and key.op == "name" else ())]
                    if c and F.kind(node(c[0])) == "VirtualDirectory" and name != "move":
                        continue
                    o.add(R_FAILT, m.qual, False, f"raises {short(v, 50)} after removing {short(key or d, 60)} from {short(d, 60)}", s.trace_list())
                elif holds_file(s, x):
                    o.add(R_FAILT, m.qual, False, f"raises {short(v, 50)} after adding {short(x, 40)} to {short(d, 60)}", s.trace_list())
        o.add(R_FAILF, m.qual, True if n else None, f"{n} failing path classes")
        o.add(R_FAILT, m.qual, True if n else None, f"{n} failing path classes")
    return go


@check("C11", "effect analysis of every raising exit (policy, version, storage, provider and name failures injected at every call that can fail): the heap "
       "difference against entry contains no text, provider, version, name or parent of an existing file and no added or removed file")
def c11(tier):
    t = []
    for n in OPS:
        for on in ((), ("mounts", "index")):
            t.append((f"{n} {'+'.join(on)}", _c11(n, on, n == "remove")))
    return t


# ---------------------------------------------------------------- C12
R_INC = "a successful write raises the version of the written file by exactly one"
R_KEEPV = "nothing else changes a version"
R_EXP = "a write with an expected version succeeds only if the file is at that version"
R_GET = "get_version reports the version of the named file"
WRITES = ("write_file", "append_file")
MAYSET = {"restore", "sync_storage", "mount_storage"}


def version_of_target(I, s, P):
    """(entry version, exit version) of the file at path P on this exit, or None when it does not exist there."""
    N = node(P)
    o = s.heap.get(N)
    if Facts(I, s)(mk("exists", P, ty=BOOL)) is not False:
        v = o.f.get("version") if o is not None else None
        return fld(N, "version"), v if v is not None else fld(N, "version")
    return None


def plus_one(old, new):
    if is_const(old) and is_const(new):
        return new.args[1] == old.args[1] + 1
    if new.op == "add":
        return new.args in ((old, const(1)), (const(1), old))
    return False


def _c12_write(name, on):
    m = method("VirtualFileSystem", name)

    def go(o):
        args = {a.arg: sym(a.arg, env().prog.ty(a.annotation)) for a in m.params[1:] + m.kwonly}
        P = p_norm(args[m.params[1].arg])
        ev = args.get("expected_version")
        if ev is None:
            raise AnchorError(f"{name} has no expected_version")
        r = run_vfs(m, None, on=on, over=args, opts=FAIL)
        o.took(r)
        n = 0
        for v, s in r.rets:
            F = Facts(r.I, s)
            if F(mk("exists", P, ty=BOOL)) is False:
                news = [(c, d) for c, d in new_nodes(r.I, s) if c == "VirtualFile"]
                ok = len(news) == 1 and news[0][1].get("version") is const(1)
                old = const(0)
                o.add(R_INC, m.qual, ok, "a created file has version 1" if ok else f"a created file has version {short(news[0][1].get('version', CNONE), 40) if news else '?'}",
                      () if ok else s.trace_list())
            else:
                old, new = version_of_target(r.I, s, P)
                ok = plus_one(old, new)
                o.add(R_INC, m.qual, ok, f"the version becomes {short(new, 60)}", () if ok else s.trace_list())
            n += 1
            none = F(mk("isnone", ev, ty=BOOL))
            if none is not True:
                eq = F(mk("eq", *sorted((ev, old), key=repr), ty=BOOL))
                if eq is None:
                    eq = F(mk("eq", ev, old, ty=BOOL)) or F(mk("eq", old, ev, ty=BOOL))
                if eq is None:
                    eq = F(r.I.eq_atom(ev, old)) or s.eqc.get(ev) is old or s.eqc.get(old) is ev
                ok = eq is True
                o.add(R_EXP, m.qual, ok, "returns with the expected version compared and equal" if ok else "returns although the expected version was not found equal to the current one",
                      () if ok else s.trace_list())
        o.add(R_INC, m.qual, n > 0 or None, f"{n} returning path classes")
    return go


def _c12_keep(m, on=()):
    def go(o):
        r = run_vfs(m, None, on=on, opts=FAIL)
        o.took(r)
        P = None
        if m.name in WRITES + ("touch",):
            P = p_norm(sym(m.params[1].arg, env().prog.ty(m.params[1].annotation)))
        for how, L in (("returns", r.rets), ("raises", r.raises)):
            for v, s in L:
                F = Facts(r.I, s)
                for N, f, x in heap_diff(r.I, s):
                    if f != "version":
                        continue
                    if how == "returns" and m.name in WRITES and N is node(P):
                        continue
                    o.add(R_KEEPV, m.qual, False, f"{how} with the version of {short(N, 60)} set to {short(x, 50)}", s.trace_list())
        o.add(R_KEEPV, m.qual, True, f"{len(r.rets) + len(r.raises)} path classes")
    return go


def _c12_nodes(o):
    """The accessors of the node classes themselves never touch a version."""
    for cls in ("VirtualFile", "VirtualDirectory"):
        c = env().prog.classes[cls]
        for m in {x.name: x for k in (env().prog.classes["VirtualNode"], c) for x in k.methods.values() if x.outer is None}.values():
            if m.name.startswith("__"):
                continue

            def mon(I, kind, st, cx, at, d):
                if kind == "store" and d["attr"] == "version" and d["val"] is not d.get("old"):
                    o.add(R_KEEPV, cx.fn.qual, False, f"{cls}.{m.name} stores a version at {I.loc(at, cx)}", st.trace_list())
            r = run_node(m, cls, mon)
            o.took(r)
            o.add(R_KEEPV, m.qual, True, f"{cls}: {len(r.rets) + len(r.raises)} path classes")


def _c12_get(o):
    m = method("VirtualFileSystem", "get_version")
    P = p_norm(sym(m.params[1].arg, env().prog.ty(m.params[1].annotation)))
    r = run_vfs(m, None)
    o.took(r)
    for v, s in r.rets:
        ok = v is fld(node(P), "version") and Facts(r.I, s).kind(node(P)) == "VirtualFile"
        if not ok and v.op == "attr" and v.args[1] == "version":
            ok = any(x is v.args[0] for x in Facts(r.I, s)._aliases(node(P)))
        o.add(R_GET, m.qual, ok, f"returns {short(v, 60)}", () if ok else s.trace_list())
    o.add(R_GET, m.qual, bool(r.rets) or None, f"{len(r.rets)} returning path classes")


@check("C12", "value analysis of the version field on every exit of every public operation: returning writes store exactly old+1 (1 for a new file) and, when an "
       "expected version is given, only under a known equality with the file's version; no other exit differs in any version")
def c12(tier):
    t = [("get_version", _c12_get), ("node accessors", _c12_nodes)]
    for n in WRITES:
        for on in ((), ("mounts",)):
            t.append((f"{n} {'+'.join(on)}", _c12_write(n, on)))
    for m in vfs_methods():
        if m.name not in MAYSET:
            t.append((f"keep {m.name}", _c12_keep(m, ("mounts", "index") if m.name in OPS else ())))
    return t
