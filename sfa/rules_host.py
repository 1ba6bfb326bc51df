"""C19 C22: host path containment, storage adapters."""
from __future__ import annotations
from .util import *
from .report import check
from .harness import run, AnchorError
from .interp import Interp, Cx
from .state import State
from .models import drop_none

R_ROOT = "a host file is touched only where its resolved path is known to lie inside the adapter's root"
R_EXP = "export writes only to the target directory joined with checked single names"
LOOK = {"exists", "is_file", "is_dir", "is_symlink", "resolve", "absolute", "stat", "lstat", "samefile", "readlink", "expanduser"}
PARENTS = {"mkdir"}


def adapters():
    p = env().prog
    out = [n for n, c in sorted(p.classes.items()) if n != "StorageAdapter" and any(b.name == "StorageAdapter" for b in c.mro()[1:])]
    if not out:
        raise AnchorError("no storage adapter found")
    return out


def build(cls, over=None):
    """[(fields, heap)] of a freshly built adapter."""
    from .models import construct
    e = env()
    c = e.prog.classes[cls]
    st = State()
    I = Interp(e.prog, e.eff, None)
    sink = []
    over = dict(over or {})
    for f, t in c.ftypes.items():
        if t == HPATH and f == "root":
            over.setdefault(f, sym("root", HPATH))
    out = construct(I, cls, [], over, st, Cx(None, None, c.module, sink), c.node)
    return [(s.heap[v], s) for v, s in out]


def run_adapter(cls, name, mon, over=None, fields=None, opts=None, given=None, selfover=None):
    m = method(cls, name)
    S = sym("self:" + cls, inst_ty(cls))
    for o, s in build(cls, selfover):
        st = State()
        st.heap.update(s.heap)
        f = dict(o.f)
        if fields:
            f.update(fields(st, f))
        st.heap[S] = Obj("inst", cls, f)
        from .harness import param_syms
        args, kw = param_syms(m, over=over)
        yield S, run(m, S, args, kw, st, mon, opts, inline=True, soft=lambda a: False)


# ---------------------------------------------------------------- C19
def unwrap(t):
    while t.op in ("str", "strof", "fspath", "hp") and isinstance(t.args[0], T):
        t = t.args[0]
    return t


def inside(F, R, roots, op=""):
    """Is the host path R known to lie inside one of the roots?"""
    R = unwrap(R)
    if R in roots:
        return True
    if R.op == "hparent" and op in PARENTS:
        return inside(F, R.args[0], roots, op)
    cand = [mk("hcall", "resolve", R, ty=HPATH)]
    if R.op == "hcall" and R.args[0] == "resolve":
        cand = [R]
    elif R.op == "elem" and R.args[0].op == "hcall" and R.args[0].args[0] in ("rglob", "glob", "iterdir"):
        pass
    rr = [r for r in roots if r.op == "hcall"]
    odd = False
    for c in cand:
        for r in rr:
            if F(mk("hisrel", c, r, ty=BOOL)) is True or F(F.I.eq_atom(c, r)) is True or F(mk("in", r, mk("parents", c), ty=BOOL)) is True:
                return True
            for a, b in F.st.facts.items():
                s = subterms(a)
                if c in s and r in s and a.op not in ("hisrel", "eq"):
                    if a.op == "smeth" and a.args[0] == "startswith" and b is True:
                        pre = a.args[2]
                        if pre.op == "fstr" and pre.args[-1] is const("/"):
                            return True
                        if unwrap(pre) is r:
                            continue
                    if a.op == "in" and b is True and a.args[0] is r and a.args[1].op == "parents" and a.args[1].args[0] is c:
                        return True
                    odd = True
    return None if odd else False


def _c19_adapter(cls, name):
    def go(o):
        m = method(cls, name)
        roots = set()
        for ob, s in build(cls):
            for f, v in ob.f.items():
                if drop_none(v.ty) == HPATH:
                    roots |= {v} | ({mk("hcall", "resolve", v, ty=HPATH)} if v.op == "sym" else set())
        n = [0]

        def mon(I, kind, st, cx, at, d):
            if kind != "host":
                return
            op = d["op"].split(".")[-1]
            F = Facts(I, st)
            if d["op"].startswith("Path."):
                if op in LOOK:
                    return
                recv = [d["recv"]] + [I.freeze(a, st) for a in d["args"] if drop_none(I.typ(a, st)) == HPATH]
            else:
                recv = [x for x in (unwrap(I.freeze(a, st)) for a in list(d["args"]) + list(d["kw"].values())) if drop_none(x.ty) == HPATH]
                if not recv:
                    if op not in ("print",):
                        o.add(R_ROOT, cx.fn.qual, None, f"{d['op']} on an unknown target")
                    return
            for R in recv:
                n[0] += 1
                ok = inside(F, R, roots, op)
                o.add(R_ROOT, cx.fn.qual, ok, f"{d['op']} at line {at.lineno}: {short(R, 90)}" + ("" if ok else " is not known to lie inside the root"), () if ok else st.trace_list())
        for S, r in run_adapter(cls, name, mon):
            o.took(r)
        o.add(R_ROOT, m.qual, True, f"{n[0]} host accesses")
    return go


def safe_name(F, N):
    """Is the text N known to be one component that stays in its directory?"""
    up = F(F.I.eq_atom(N, const(".."))) is False
    sl = F(mk("in", const("/"), N, ty=BOOL)) is False
    odd = False
    for a, b in F.st.facts.items():
        s = subterms(a)
        if N not in s or a.op in ("isinst", "exists", "vis"):
            continue
        if a.op == "in" and a.args[0] is N and a.args[1].op in ("tup", "seqv", "c"):
            els = list(a.args[1].args) if a.args[1].op == "tup" else [x for x in subterms(a.args[1]) if x.op == "c"]
            if b is False and const("..") in els:
                up = True
        elif a.op == "eq" and b is True and N in a.args and any(x.op in ("pname", "hname", "name") for x in a.args if x is not N):
            sl = True
        elif a.op == "smeth" and a.args[0] == "startswith" and a.args[1] is N and b is False and a.args[2] in (const("."), const("..")):
            up = True
        elif a.op not in ("eq", "in") and not (a.op == "smeth" and a.args[0] in ("startswith", "endswith")):
            odd = True
    if up and sl:
        return True
    return None if odd else False


def within(F, R, base):
    """Is R the target directory, or below it by safe names?"""
    R = unwrap(R)
    if R in base:
        return True
    if R.op == "hparent":
        q = unwrap(R.args[0])
        return within(F, q, base) if q.op == "hjoin" else False
    if R.op == "hcall" and R.args[0] in ("resolve", "absolute"):
        return within(F, R.args[1], base)
    if R.op == "hjoin":
        a = within(F, R.args[0], base)
        if a is not True:
            return a
        N = R.args[1]
        if N.op in ("name", "key", "attr", "part", "elem", "pname"):
            s = safe_name(F, N)
            if s is not True and inside(F, R, set(base) | {mk("hcall", "resolve", b, ty=HPATH) for b in base}) is True:
                return True
            return s
        return None if N.op not in ("rel", "path", "str", "kidp", "norm") else False
    return False


def _c19_export(name):
    def go(o):
        m = method("VirtualFileSystem", name)
        n = [0]

        def mon(I, kind, st, cx, at, d):
            if kind != "host":
                return
            op = d["op"].split(".")[-1]
            F = Facts(I, st)
            if d["op"].startswith("tempfile.") or d["op"].startswith("Path.") and op in LOOK | {"rglob", "iterdir"}:
                return
            if d["op"].startswith("Path."):
                recv = [d["recv"]] + [I.freeze(a, st) for a in d["args"] if drop_none(I.typ(a, st)) == HPATH]
            else:
                recv = [x for x in (unwrap(I.freeze(a, st)) for a in list(d["args"]) + list(d["kw"].values())) if drop_none(x.ty) == HPATH]
            for R in recv:
                n[0] += 1
                ok = within(F, R, {x for x in subterms(R) if x.op == "tmpdir" or x.op == "sym" and drop_none(x.ty) == HPATH})
                o.add(R_EXP, cx.fn.qual, ok, f"{d['op']} at line {at.lineno}: {short(R, 90)}" + ("" if ok else " is not known to stay in the target directory"), () if ok else st.trace_list())
        r = run_vfs(m, mon)
        o.took(r)
        o.add(R_EXP, m.qual, n[0] > 1 or None, f"{n[0]} host accesses")
    return go


@check("C19", "taint analysis of host paths: every host file access of an adapter is preceded on its path by a containment test of the resolved path against the resolved root; "
       "every path component an export joins to its target is a name tested against separators and dot-dot")
def c19(tier):
    t = []
    for c in adapters():
        for n, m in sorted(env().prog.classes[c].methods.items()):
            if not n.startswith("_") or n == "__post_init__":
                if n != "__post_init__":
                    t.append((f"{c}.{n}", _c19_adapter(c, n)))
    t += [(n, _c19_export(n)) for n in ("export_to_path", "materialize")]
    return t


# ---------------------------------------------------------------- C22
R_CAS = "a write is accepted only if its version equals the stored entry's current version"
R_REJ = "a rejected write changes nothing"
R_INC = "an accepted write stores the given text with the version one higher, and reports the same"
R_RD = "reads and listings report the stored text and its current version"
R_AL = "entries handed out are never the stored objects"
R_KEY = "versions are kept per stored file, however its path was spelled"
R_DEL = "a deleted entry is gone, other entries stay"
WRITES = {"write_text", "write_bytes", "open", "unlink", "touch", "rename", "replace", "rmdir"}


def entry_fields():
    c = env().prog.classes.get("StorageEntry")
    if c is None or "content" not in c.ftypes or "version" not in c.ftypes:
        raise AnchorError("StorageEntry not found")
    return "content", "version"


def val(s, t):
    """(content, version) of an entry term or object."""
    if t is None:
        return None
    o = s.heap.get(t)
    if o is not None and o.kind == "inst":
        return o.f.get("content"), o.f.get("version")
    if t.op == "instv":
        d = dict(t.args[1])
        return d.get("content"), d.get("version")
    if t.op == "sym":
        return mk("attr", t, "content", ty=STR), mk("attr", t, "version", ty=INT)
    return None


def table_field(cls):
    fs = [f for f, t in env().prog.classes[cls].ftypes.items() if t[0] == "dict" and "'StorageEntry'" in repr(t)]
    return fs[0] if len(fs) == 1 else None


def lin(t, base):
    """(is it the base?, offset) of an integer term."""
    if t is None:
        return None
    if t.op == "c" and isinstance(t.args[1], int):
        return (False, t.args[1])
    if base(t):
        return (True, 0)
    if t.op in ("add", "sub") and t.args[1].op == "c":
        r = lin(t.args[0], base)
        return None if r is None else (r[0], r[1] + (t.args[1].args[1] if t.op == "add" else -t.args[1].args[1]))
    if t.op == "add" and t.args[0].op == "c":
        return lin(mk("add", t.args[1], t.args[0], ty=INT), base)
    return None


def _mem(cls, f):
    A, B, C = const("a"), const("b"), const("c")
    TA, TB, VA, VB = sym("ta", STR), sym("tb", STR), sym("va", INT), sym("vb", INT)
    TXT, VER = sym("content", STR), sym("version", INT)
    have = {A: (TA, VA), B: (TB, VB)}

    def fields(st, f0):
        E = [sym("entry:" + x, inst_ty("StorageEntry")) for x in "ab"]
        for e, t, v in zip(E, (TA, TB), (VA, VB)):
            st.heap[e] = Obj("inst", "StorageEntry", {"content": t, "version": v})
        tab = sym("table", ("dict", STR, inst_ty("StorageEntry")))
        st.heap[tab] = Obj("dict", None, {}, items=((A, E[0]), (B, E[1])))
        return {f: tab}

    def table(S, s):
        d = s.heap.get(s.heap[S].f.get(f))
        if d is None or d.base is not None or d.bag:
            return None, ()
        return {k: val(s, x) for k, x in d.items if x is not None}, tuple(x for k, x in d.items if x is not None)

    def go(o):
        entry_fields()
        mw = method(cls, "write")
        ap, at, av = mw.params[1].arg, mw.params[2].arg, next(a.arg for a in (mw.kwonly or mw.params[3:]))
        for key in (A, C):
            for S, r in run_adapter(cls, "write", None, {ap: key, at: TXT, av: VER}, fields):
                o.took(r)
                if not r.rets:
                    o.add(R_INC, mw.qual, False, f"write({short(key, 9)}) never succeeds")
                for v, s in r.rets:
                    F = Facts(r.I, s)
                    got, cells = table(S, s)
                    if key is A:
                        ok = F(r.I.eq_atom(VA, VER)) is True
                        o.add(R_CAS, mw.qual, ok, "accepted with the current version" if ok else "accepted although the version may differ from the stored one", () if ok else s.trace_list())
                    if got is None:
                        o.add(R_INC, mw.qual, None, "table not tracked")
                        continue
                    new = got.get(key)

                    def base(t):
                        return t is VER or key is A and t is VA
                    ok = new is not None and new[0] is TXT and lin(new[1], base) == (True, 1) and {k: x for k, x in got.items() if k is not key} == {k: x for k, x in have.items() if k is not key}
                    o.add(R_INC, mw.qual, ok, f"write({short(key, 9)})" + ("" if ok else f" leaves {short(tuple(got.items()), 150)}"), () if ok else s.trace_list())
                    rv = val(s, v)
                    ok = rv is not None and rv[0] is TXT and lin(rv[1], base) == (True, 1)
                    o.add(R_INC, mw.qual, ok, "the call reports the stored entry" if ok else f"the call reports {short(r.I.freeze(v, s), 80)}", () if ok else s.trace_list())
                    ok = v not in cells
                    o.add(R_AL, mw.qual, ok, "write returns a copy" if ok else "write returns the stored entry", () if ok else s.trace_list())
                for v, s in r.raises:
                    got, cells = table(S, s)
                    ok = None if got is None else got == have
                    o.add(R_REJ, mw.qual, ok, "table unchanged" if ok else f"leaves {short(tuple((got or {}).items()), 150)}", () if ok else s.trace_list())
        m = method(cls, "read")
        for key in (A, C):
            for S, r in run_adapter(cls, "read", None, {m.params[1].arg: key}, fields):
                o.took(r)
                for v, s in r.rets:
                    got, cells = table(S, s)
                    ok = key is A and val(s, v) == (TA, VA) and got == have
                    o.add(R_RD, m.qual, ok, "read of a stored entry" if ok else f"read of {'a stored' if key is A else 'a missing'} entry gives {short(r.I.freeze(v, s), 80)}", () if ok else s.trace_list())
                    ok = v not in cells
                    o.add(R_AL, m.qual, ok, "read returns a copy" if ok else "read returns the stored entry", () if ok else s.trace_list())
                for v, s in r.raises:
                    ok = key is C
                    o.add(R_RD, m.qual, ok, "a missing entry raises" if ok else "a stored entry raises", () if ok else s.trace_list())
        m = method(cls, "list")
        for S, r in run_adapter(cls, "list", None, {}, fields):
            o.took(r)
            for v, s in r.rets:
                tab, cells = table(S, s)
                d = s.heap.get(v)
                ok, alias = None, False
                if d is not None and d.kind == "dict" and not d.bag and d.base is None:
                    ok = {k: val(s, x) for k, x in d.items if x is not None} == have and tab == have
                    alias = any(x in cells for k, x in d.items)
                elif d is not None and d.kind == "dict" and d.base is s.heap[S].f.get(f):
                    alias, ok = True, True
                o.add(R_RD, m.qual, ok, "the listing has every entry" if ok else f"the listing is {short(r.I.freeze(v, s), 150)}", () if ok else s.trace_list())
                alias = alias or v is s.heap[S].f.get(f)
                o.add(R_AL, m.qual, not alias, "the listing holds copies" if not alias else "the listing holds the stored entries", () if not alias else s.trace_list())
            for v, s in r.raises:
                o.add(R_RD, m.qual, False, f"list raises {short(v, 60)}", s.trace_list())
        m = method(cls, "delete")
        for key in (A, C):
            for S, r in run_adapter(cls, "delete", None, {m.params[1].arg: key}, fields):
                o.took(r)
                for v, s in r.rets:
                    got, cells = table(S, s)
                    ok = None if got is None else got == {k: x for k, x in have.items() if k is not key}
                    o.add(R_DEL, m.qual, ok, f"delete({short(key, 9)})" if ok else f"delete({short(key, 9)}) leaves {short(tuple((got or {}).items()), 150)}", () if ok else s.trace_list())
                for v, s in r.raises:
                    if key is A:
                        o.add(R_DEL, m.qual, False, f"delete of a stored entry raises {short(v, 60)}", s.trace_list())
    return go


def _host(cls):
    tabs = [f for f, t in env().prog.classes[cls].ftypes.items() if t[0] == "dict" and t[1] == STR and t[2] == INT]
    T0 = {f: sym("tab:" + f, ("dict", STR, INT)) for f in tabs}
    TXT, VER = sym("content", STR), sym("version", INT)

    def fields(st, f0):
        return dict(T0)

    def mon(I, kind, st, cx, at, d):
        if kind == "host" and d["op"].startswith("Path."):
            op = d["op"][5:]
            if op in WRITES:
                st.log = st.log + (("w", op, d["recv"], tuple(I.freeze(a, st) for a in d["args"])),)
            elif op in ("stat", "lstat"):
                st.log = st.log + (("stat", d["recv"]),)
        elif kind == "host":
            st.log = st.log + (("w", d["op"], CNONE, ()),)

    def role(tables, rets):
        """(version table, mtime table): the one that is given stat results is the mtime table."""
        mt = set()
        for s in rets:
            for f in tables:
                o = s.heap.get(T0[f])
                for k, x in (o.items if o is not None else ()):
                    if x is not None and any(y.op == "hcall" and y.args[0] in ("stat", "lstat") for y in subterms(x)):
                        mt.add(f)
        vt = set(tables) - mt
        return (next(iter(vt)), next(iter(mt))) if len(vt) == len(mt) == 1 else (None, None)

    def look(V):
        return lambda t: t.op in ("dget", "dgetd", "ditem", "item", "get", "dval") and t.args[0] is T0[V] or t.op == "sel" and T0[V] in subterms(t)

    def current(F, s, V, M):
        """Version of the file by the facts of the path: (has base, offset), or None."""
        ex = has = same = None
        for a, b in s.facts.items():
            if a.op == "hcall" and a.args[0] in ("exists", "is_file"):
                if a.args[0] == "exists" or b is True:
                    ex = b if ex is None else ex and b
            elif a.op == "has" and a.args[0] is T0[V]:
                has = b
            elif a.op == "isnone" and look(V)(a.args[0]):
                has = not b
            elif a.op == "eq" and any(y.op == "hcall" and y.args[0] in ("stat", "lstat") for y in subterms(a)) and T0[M] in subterms(a):
                same = b
        if ex is False or has is False:
            return (False, 0)
        if same is None:
            rel = [(a, b) for a, b in s.facts.items() if T0[M] in subterms(a) and a.op not in ("has", "isnone")]
            if any(a.op not in ("lt", "le", "gt", "ge") for a, b in rel):
                return None
            if has is None and any(T0[V] in subterms(a) and VER not in subterms(a) for a in s.facts):
                return None
            if any(a.op in ("lt", "gt") and b is True or a.op in ("le", "ge") and b is False for a, b in rel):
                return (True, 1)
            return "ambiguous"
        if has is None:
            return None
        return (True, 0 if same else 1)

    def last(s, f):
        o = s.heap.get(T0[f])
        return o.items if o is not None else ()

    def keyrule(o, m, s):
        for f in tabs:
            for k, x in last(s, f):
                q = subst(k, lambda t: sym("host", HPATH) if t.op == "hcall" and t.args[0] == "resolve" else None, {})
                bad = [t for t in subterms(q) if t.op == "sym" and t.args[0] in ("path",) or t.op == "elem"]
                o.add(R_KEY, m.qual, not bad, "keyed by the resolved host path" if not bad else f"keyed by {short(k, 80)}", () if not bad else s.trace_list())

    def go(o):
        entry_fields()
        if len(tabs) != 2:
            raise AnchorError(f"version tables of {cls} not found")
        mw = method(cls, "write")
        ap, at, av = mw.params[1].arg, mw.params[2].arg, next(a.arg for a in (mw.kwonly or mw.params[3:]))
        P = sym("path", STR)
        rr = list(run_adapter(cls, "write", mon, {ap: P, at: TXT, av: VER}, fields))
        V, M = role(tabs, [s for S, r in rr for v, s in r.rets])
        if V is None:
            raise AnchorError("version and time tables cannot be told apart")
        base = look(V)
        for S, r in rr:
            o.took(r)
            if not r.rets:
                o.add(R_INC, mw.qual, False, "write never succeeds")
            for v, s in r.rets:
                F = Facts(r.I, s)
                keyrule(o, mw, s)
                cur = current(F, s, V, M)
                eqs = [x for a, b in s.facts.items() if a.op == "eq" and b is True and VER in a.args for x in a.args if x is not VER]
                eqs = [lin(x, base) for x in eqs]
                if cur is None:
                    ok = None if any(x is not None for x in eqs) else False
                else:
                    ok = cur in eqs
                o.add(R_CAS, mw.qual, ok, "accepted with the current version" if ok else "accepted although the version may differ from the stored one", () if ok else s.trace_list())
                ws = [x for x in s.log if x[0] == "w"]
                ok = len(ws) == 1 and ws[0][3][:1] == (TXT,)
                o.add(R_INC, mw.qual, ok, "the text is stored" if ok else f"{len(ws)} host writes" + (f" of {short(ws[0][3], 60)}" if ws else ""), () if ok else s.trace_list())

                def b2(t):
                    return base(t) or False

                def num(t):
                    x = lin(t, base)
                    if x is None:
                        y = lin(t, lambda q: q is VER)
                        x = None if y is None or cur in (None, "ambiguous") else (cur[0], cur[1] + y[1])
                    return x
                want = cur if cur in (None, "ambiguous") else (cur[0], cur[1] + 1)
                rv = val(s, v)
                for what, t in [("reports", rv[1] if rv else None)] + [("keeps", x) for k, x in last(s, V)[-1:]]:
                    ok = None if want is None else num(t) == want
                    o.add(R_INC, mw.qual, ok, f"the adapter {what} the next version" if ok else f"the adapter {what} version {short(t, 90) if t is not None else '?'}", () if ok else s.trace_list())
                if not last(s, V):
                    o.add(R_INC, mw.qual, False, "the new version is not kept", s.trace_list())
                ok = rv is not None and rv[0] is TXT
                o.add(R_INC, mw.qual, ok, "the call reports the text" if ok else "the call reports another text", () if ok else s.trace_list())
                i = max([i for i, x in enumerate(s.log) if x[0] == "w"], default=-1)
                fresh = any(x[0] == "stat" for x in s.log[i + 1:])
                kept = last(s, M)
                ok = fresh and bool(kept) and kept[-1][1] is not None and any(y.op == "hcall" and y.args[0] == "stat" for y in subterms(kept[-1][1]))
                o.add(R_RD, mw.qual, ok, "the time stamp is taken after the write" if ok else "the time stamp kept is not the one after the write, so the next read counts a change", () if ok else s.trace_list())
            for v, s in r.raises:
                ws = [x for x in s.log if x[0] == "w"]
                o.add(R_REJ, mw.qual, not ws, "rejected before any host write" if not ws else f"rejected after {ws[0][1]}", () if not ws else s.trace_list())
        m = method(cls, "read")
        for S, r in run_adapter(cls, "read", mon, {m.params[1].arg: P}, fields):
            o.took(r)
            for v, s in r.rets:
                keyrule(o, m, s)
                _reports(o, m, r, s, val(s, v), current(Facts(r.I, s), s, V, M), V, M)
        m = method(cls, "list")
        n = [0]

        def lmon(I, kind, st, cx, at, d):
            mon(I, kind, st, cx, at, d)
            if kind != "new" or d["cls"] != "StorageEntry":
                return
            ins = {i for f in tabs for k, x in last(st, f) for i in k.insts}
            if len(ins) > 1:
                return
            n[0] += 1
            keyrule(o, m, st)
            _reports(o, m, None, st, val(st, d["obj"]), current(None, st, V, M), V, M)
        for S, r in run_adapter(cls, "list", lmon, {}, fields, {"loop_limit": 1}):
            o.took(r)
        o.add(R_RD, m.qual, bool(n[0]) or None, f"{n[0]} kinds of listed entries")
        m = method(cls, "delete")
        for S, r in run_adapter(cls, "delete", mon, {m.params[1].arg: P}, fields):
            o.took(r)
            for v, s in r.rets:
                keyrule(o, m, s)
                ex = [b for a, b in s.facts.items() if a.op == "hcall" and a.args[0] in ("exists", "is_file")]
                ws = [x for x in s.log if x[0] == "w"]
                gone = any(x is None for k, x in last(s, V)[-1:]) or any(a.op == "has" and a.args[0] is T0[V] and b is False for a, b in s.facts.items())
                ok = (bool(ws) and ws[0][1] in ("unlink", "os.unlink", "os.remove") or ex[-1:] == [False]) and gone
                o.add(R_DEL, m.qual, ok, "the file and its version go" if ok else ("the version of a deleted file stays" if not gone else "the host file stays"), () if ok else s.trace_list())

    def _reports(o, m, r, s, rv, cur, V, M, table=True):
        base = look(V)
        if rv is None:
            o.add(R_RD, m.qual, None, "entry not tracked")
            return
        ok = rv[0] is not None and any(y.op == "hcall" and y.args[0] in ("read_text", "read_bytes") for y in subterms(rv[0])) or None
        o.add(R_RD, m.qual, ok, "the file's text" if ok else f"text {short(rv[0] or CNONE, 60)}", () if ok else s.trace_list())
        got = lin(rv[1], base)
        ok = None if cur is None else got == cur
        o.add(R_RD, m.qual, ok, "the current version" if ok else f"version {short(rv[1] or CNONE, 90)}", () if ok else s.trace_list())
        if table and cur is not None and cur != (True, 0) and not any(a.op == "hcall" and a.args[0] == "exists" and b is False for a, b in s.facts.items()):
            k = last(s, V)[-1:]
            ok = bool(k) and lin(k[0][1], base) == cur and bool(last(s, M)) and last(s, M)[-1][1] is not None
            o.add(R_RD, m.qual, ok, "the version reported is kept with its time stamp" if ok else "the version reported is not kept", () if ok else s.trace_list())
    return go


@check("C22", "path-sensitive value analysis of every storage adapter: on each returning path of write the entailed facts equate the given version with the stored one, the final tables hold "
       "the given text and the next version, rejected paths perform no store, and no returned object is a cell of the table (escape analysis)")
def c22(tier):
    t = []
    for c in adapters():
        f = table_field(c)
        t.append((c, _mem(c, f) if f else _host(c)))
    return t
