"""C17: snapshots and restore."""
from __future__ import annotations
from .util import *
from .paths import CWDP
from .report import check
from .rules_policy import copied, copied_map, restore_cov

R_CAP = "the snapshot records every attribute of every node, by value"
R_ALL = "the snapshot covers every node, unconditionally"
R_MNT = "the snapshot records the current directory and every storage mount"
R_RES = "restore puts every recorded attribute back"
R_MRES = "restore rebuilds the storage mounts and the current directory from the snapshot"
R_ANY = "restore does not fail because of recorded policies"
R_IDX = "restore rebuilds the index"
R_REUSE = "restore leaves the snapshot as it was"


def key_path(k):
    """The path term a snapshot key renders."""
    while k.op in ("str", "strof", "fspath") and k.args:
        k = k.args[0]
    if k.op == "c" and isinstance(k.args[1], str):
        return pconst(k.args[1])
    return k


def depth_of(p):
    n = 0
    while p.op == "kidp":
        p, n = p.args[0], n + 1
    return n if p is pconst("/") else None


def _entry_why(N, kind, d):
    if d.get("is_dir") is None:
        return "lacks is_dir"
    isd = d["is_dir"]
    if is_const(isd):
        if isd.args[1] is not (kind == "VirtualDirectory"):
            return f"is_dir is {isd.args[1]} for a {kind}"
    elif isd is not mk("isinst", N, "VirtualDirectory", ty=BOOL):
        return f"is_dir is {short(isd, 60)}"
    w = copied_map(d["metadata"], fld(N, "metadata")) or copied(d["policy"], fld(N, "policy"))
    if w:
        return w
    for f in ("version", "created_at", "modified_at"):
        if d.get(f) is not fld(N, f):
            return f"{f} is {short(d.get(f, CNONE), 60)}"
    c = d.get("content", CNONE)
    if kind == "VirtualFile" and c is not mk("content", N, ty=STR):
        return f"content is {short(c, 60)}"
    return ""


def _c17_capture(*on):
    def go(o):
        _capture(o, on)
    return go


def _capture(o, on):
    m = method("VirtualFileSystem", "snapshot")
    seen = {}
    mounts = next((f for f, k in field_kinds().items() if k == "mounts"), None)
    M = fld(VFS, mounts)

    def rec(I, s, p, x, g, extra):
        """Judge one recorded entry and note what it covers."""
        N = node(p)
        if x.op != "instv":
            o.add(R_CAP, m.qual, None, f"entry of {short(p, 60)} is {short(x, 60)}")
            return
        F = Facts(I, s, g)
        kind = "VirtualDirectory" if p is pconst("/") else F.kind(N)
        e = dict(x.args[1])
        for kd in [kind] if kind else ["VirtualFile", "VirtualDirectory"]:
            why = _entry_why(N, kd, e)
            o.add(R_CAP, m.qual, not why, f"{kd} at {short(p, 60)}" + (f": {why}" if why else ""), () if not why else s.trace_list())
            seen.setdefault((depth_of(p), kd), []).append(extra)

    def mon(I, kind, st, cx, at, d):
        if kind != "setitem" or d["val"].op != "ref":
            return
        ob = st.heap.get(d["val"])
        if ob is None or ob.cls != "NodeSnapshot":
            return
        p = key_path(I.freeze(d["key"], st))
        N = node(p)
        rec(I, st, p, I.freeze(d["val"], st), frozenset(), [(a, b) for a, b in st.facts.items() if not structural(a) and concerns(a, p)])

    def setup(st):
        for f, k in field_kinds().items():
            if k in on and k == "sview":
                a = mk("attr", VFS, f, ty=env().prog.classes["VirtualFileSystem"].ftypes.get(f, ANY))
                st.facts[mk("isnone", a, ty=BOOL)] = False
                st.facts[mk("truthy", a, ty=BOOL)] = True
    r = run_vfs(m, mon, on=on, rec_limit=3, kid_limit=3, setup=setup)
    o.took(r)
    for v, s in r.rets:
        fz = r.I.freeze(v, s)
        if fz.op != "instv":
            o.add(R_CAP, m.qual, None, f"returns {short(fz, 60)}")
            continue
        d = dict(fz.args[1])
        o.add(R_MNT, m.qual, d.get("cwd") in (CWDP, mk("str", CWDP, ty=STR)), f"cwd is {short(d.get('cwd', CNONE), 60)}", s.trace_list())
        why = mounts_why(d.get("storage_mounts", CNONE), M)
        o.add(R_MNT, m.qual, not why, "storage mounts" + (f": {why}" if why else ""), s.trace_list())
        n = d.get("nodes", CNONE)
        if n.op != "dictv":
            o.add(R_CAP, m.qual, None, f"nodes is {short(n, 60)}")
            continue
        ents = [(k, x, frozenset()) for k, x in n.args[1]] + [(kv.args[0], kv.args[1], g) for kv, g in n.args[2] if kv.op == "tup"]
        for k, x, g in ents:
            rec(r.I, s, key_path(k), x, g, [(a, b) for a, b in g if not structural(a)])
    for dep in (0, 1, 2):
        for kd in ("VirtualFile", "VirtualDirectory"):
            if dep == 0 and kd == "VirtualFile":
                continue
            gs = seen.get((dep, kd))
            ok = bool(gs) and any(not x for x in gs)
            if gs and not ok:
                flat = {a for x in gs for a, b in x}
                ok = all(any(a in [y[0] for y in x] for x in gs) for a in flat) and _exhaustive(gs)
            o.add(R_ALL, m.qual, ok, f"{kd} {dep} level(s) below the root" + ("" if ok else " recorded only if " + "; ".join(
                f"{short(a, 70)} is {b}" for a, b in gs[0]) if gs else "" if ok else " is not recorded"))
    o.add(R_ALL, m.qual, bool(r.rets), f"{len(r.rets)} exits")


def concerns(a, p):
    """Does the condition speak about the node at p (rather than about a sibling or an ancestor)?"""
    return any(t is p or t.op == "node" and t.args[0] is p for t in subterms(a))


def structural(a):
    """Guards that only say what a node is or where it is in the tree."""
    return a.op in ("isinst", "exists")


def _exhaustive(gs):
    """Do the guard sets cover all cases (both values of one atom, recursively)?"""
    gs = [dict(g) for g in gs]
    if any(not g for g in gs):
        return True
    atoms = {a for g in gs for a in g}
    a = sorted(atoms, key=repr)[0]
    for b in (True, False):
        sub = [[(x, y) for x, y in g.items() if x is not a] for g in gs if g.get(a, b) is b]
        if not sub or not _exhaustive(sub):
            return False
    return True


def mounts_why(fz, M):
    """Why a frozen mapping is not an equal, independent copy of the mounts M ('' if it is)."""
    if fz is M:
        return "shares the mapping"
    if fz.op != "dictv":
        return f"is {short(fz, 80)}"
    if fz.args[0] is M and not fz.args[1] and not fz.args[2]:
        return ""
    if fz.args[1] or len(fz.args[2]) != 1 or fz.args[0] not in (None, CNONE):
        return f"is {short(fz, 80)}"
    (kv, g), = fz.args[2]
    if g:
        return f"only mounts with {short(list(g)[0][0], 60)}"
    if kv.op != "tup":
        return f"is {short(fz, 80)}"
    k, x = kv.args
    while k.op in ("str", "path", "norm") and k.args:
        k = k.args[0]
    if k.op != "elem" or k.args[0] is not M:
        return f"keys are {short(kv.args[0], 80)}"
    if x not in (mk("item", M, k), mk("dget", M, k)) and not (x.op in ("item", "dget") and x.args[0] is M and x.args[1] is k):
        return f"adapters are {short(x, 80)}"
    return ""


def _snap_sym(m):
    for a in m.params[1:]:
        if a.annotation is not None and "VFSSnapshot" in __import__("ast").unparse(a.annotation):
            return sym(a.arg, env().prog.ty(a.annotation))
    raise AnchorError("restore has no snapshot parameter")


def _c17_restore(o):
    r = restore_cov(o, R_RES, ("policy", "metadata", "version", "created_at", "modified_at", "content"))


def _c17_final(o):
    """State on every exit of restore: no recorded attribute is overwritten again, mounts and cwd, no failure by policy, reuse, index."""
    m = method("VirtualFileSystem", "restore")
    S = _snap_sym(m)
    mounts = next((f for f, k in field_kinds().items() if k == "mounts"), None)
    idx = []
    bad = []

    def mon(I, kind, st, cx, at, d):
        t = d.get("obj") if kind == "store" else d.get("cont")
        if t is not None and kind in ("store", "setitem", "delitem", "clear", "update", "mutseq"):
            b = t
            while b.op in ("attr", "item", "dget", "elem"):
                b = b.args[0]
            if b is S:
                bad.append(1)
                o.add(R_REUSE, cx.fn.qual, False, f"{kind} on {short(t, 80)} at {I.loc(at, cx)}", st.trace_list())
    for on in (("mounts",),):
        r = run_vfs(m, mon, on=on, over={S.args[0]: S}, opts={"rounds": 1})
        o.took(r)
        for v, s in r.rets:
            f = s.heap[VFS].f
            mv = f.get(mounts)
            fz = r.I.freeze(mv, s) if mv is not None else fld(VFS, mounts)
            why = mounts_why(fz, fld(S, "storage_mounts"))
            o.add(R_MRES, m.qual, not why, "storage mounts after restore" + (f": {why}" if why else ""), () if not why else s.trace_list())
        for v, s in r.raises:
            pol = [(a, b) for a, b in s.facts.items() if any(t.op == "attr" and t.args[1] in ("readable", "writable", "append_only") for t in subterms(a))]
            if pol:
                o.add(R_ANY, m.qual, False, f"raises {short(v, 60)} depending on {short(pol[0][0], 80)}", s.trace_list())
        o.add(R_ANY, m.qual, True, f"{len(r.raises)} failing path classes, {len(r.rets)} returning")
    if not bad:
        o.add(R_REUSE, m.qual, True, "no write to the snapshot or what it holds")


def _c17_cwd(o):
    m = method("VirtualFileSystem", "restore")
    S = _snap_sym(m)
    C = fld(S, "cwd")
    found = []

    def mon(I, kind, st, cx, at, d):
        if kind == "store" and d["attr"] == "cwd" and d["obj"] is VFS:
            v = I.freeze(d["val"], st)
            of = C in subterms(v)
            ok = of or any(C in subterms(a) for a in st.facts)
            if of and v.op == "node":
                o.add(R_MRES, cx.fn.qual, False, f"the current directory stored at {I.loc(at, cx)} is a node of the old tree", st.trace_list())
            elif of:
                found.append(I.loc(at, cx))
            st.log = tuple(x for x in st.log if x != "cwd") + (("cwd",) if ok else ())
    r = run_vfs(m, mon, over={S.args[0]: S})
    o.took(r)
    for v, s in r.rets:
        ok = "cwd" in s.log
        o.add(R_MRES, m.qual, ok, "current directory after restore" + ("" if ok else ": set without looking at the recorded one"), () if ok else s.trace_list())
    o.add(R_MRES, m.qual, bool(found), "the recorded current directory is looked up in the rebuilt tree" + (f" ({found[0]})" if found else ": never"))


def _c17_index(o):
    m = method("VirtualFileSystem", "restore")
    S = _snap_sym(m)

    def mon(I, kind, st, cx, at, d):
        if kind == "index" and d["op"] in ("build", "refill"):
            st.log = st.log + ("build",)
        elif kind in ("store", "setitem") and isinstance(st.log, tuple) and "build" in st.log and d.get("obj", d.get("cont")).op == "ref":
            st.log = tuple(x for x in st.log if x != "build")
    r = run_vfs(m, mon, on=("index",), over={S.args[0]: S})
    o.took(r)
    n = 0
    for v, s in r.rets:
        ix = next((f for f, k in field_kinds().items() if k == "index"), None)
        if s.facts.get(mk("isnone", fld(VFS, ix), ty=BOOL)) is True:
            continue
        n += 1
        ok = "build" in s.log
        o.add(R_IDX, m.qual, ok, "the index is rebuilt after the tree is restored" if ok else "returns without rebuilding the index after the last tree change",
              () if ok else s.trace_list())
    o.add(R_IDX, m.qual, n > 0 or None, f"{n} exits with an index")


@check("C17", "provenance analysis of the value snapshot returns (each entry's fields are the node's own attributes, containers copied, coverage of root, "
       "nested files and directories under no extra condition) and of every store restore performs on rebuilt nodes; effect analysis of restore on the snapshot")
def c17(tier):
    return [("snapshot", _c17_capture("mounts")), ("snapshot with a search view", _c17_capture("mounts", "sview", "index", "hooks")), ("restore attributes", _c17_restore), ("restore state", _c17_final), ("restore cwd", _c17_cwd), ("restore index", _c17_index)]
