"""C23: path normalisation."""
from __future__ import annotations
from .util import *
from .paths import CWDP
from .models import drop_none
from .report import check
from .harness import vfs_methods, norm_cases

R_NORM = "normalising resolves against the current directory and removes empty, dot and dot-dot components"
R_LOOP = "each component is kept unless it is empty, a dot or a dot-dot"
R_LOOK = "only components of normalised paths reach a lookup"
R_EQ = "equivalent spellings of a path behave alike"
R_WALK = "a lookup follows exactly the named components from the root"

DROP = ("", "/", ".", "//")


def normalisers():
    e = env().eff
    return sorted(e.norms or e.cands, key=lambda m: m.name)


def _cases(m):
    def go(o):
        for raw, cwd, a, want, r in norm_cases(m):
            o.took(r)
            for v, s in r.rets:
                v = r.I.freeze(v, s)
                ok = v is want if v.op == "pconst" else None
                o.add(R_NORM, m.qual, ok, f"{raw!r} in {cwd}" + ("" if ok else f" gives {show(v)[:60]}, not {show(want)}"), () if ok else s.trace_list())
            for v, s in r.raises:
                o.add(R_NORM, m.qual, False, f"{raw!r} in {cwd} raises {short(v, 60)}", s.trace_list())
    return go


def _loop(m):
    """Which components reach the result, and under which conditions, for an arbitrary path."""
    def go(o):
        seen = []

        def mon(I, kind, st, cx, at, d):
            if kind not in ("grow", "yield"):
                return
            v = I.freeze(d["val"], st)
            if v.op not in ("part", "elem") or v.op == "part" and CWDP is v.args[0]:
                return
            out = set()
            extra = []
            for a, b in st.facts.items():
                if v not in subterms(a):
                    continue
                if a.op == "eq" and b is False:
                    out |= {x.args[1] for x in a.args if x.op == "c"}
                elif a.op == "in" and a.args[0] is v and b is False and a.args[1].op in ("tup", "seqv"):
                    out |= {x.args[1] for x in subterms(a.args[1]) if x.op == "c"}
                elif a.op == "truthy" and b is True:
                    out.add("")
                else:
                    extra.append((a, b))
            seen.append(1)
            ok = ".." in out and not extra and out <= {"", "/", ".", "..", "//"}
            why = "a dot-dot may be kept" if ".." not in out else f"kept only if {short(extra[0][0], 60)} is {extra[0][1]}" if extra else f"{sorted(out - {'', '/', '.', '..', '//'})} are dropped"
            if extra and ".." in out:
                ok = None if extra[0][0].op not in ("smeth", "lt", "gt", "le", "ge", "eq", "in", "fnmatch") else False
            o.add(R_LOOP, cx.fn.qual, ok, f"component kept at line {at.lineno}" if ok else f"component at line {at.lineno}: {why}", () if ok else st.trace_list())
        r = run_vfs(m, mon, inline=True, opts={"exact": 1})
        o.took(r)
        o.add(R_LOOP, m.qual, bool(seen) or None, f"{len(seen)} places where a component is kept")
    return go


def path_params(m):
    e = env()
    out = []
    for a in m.params[1:] + m.kwonly:
        t = e.prog.ty(a.annotation)
        if "'path'" in repr(t) and "'str'" in repr(t):
            out.append(a.arg)
    return out


def raw_in(P, names):
    q = subst(P, lambda t: CWDP if t.op == "norm" else None, {})
    return [t for t in subterms(q) if t.op == "sym" and t.args[0] in names]


def _look(m):
    def go(o):
        names = set(path_params(m))
        n = [0]

        def mon(I, kind, st, cx, at, d):
            if kind not in ("load", "read", "store", "setitem", "delitem"):
                return
            for k in ("node", "obj", "cont", "key"):
                v = d.get(k)
                if not isinstance(v, T) or v.op == "ref":
                    continue
                if k == "key" and not any(t.op == "node" for t in subterms(d["cont"])):
                    continue
                for t in ([v] if k == "key" else [x for x in subterms(v) if x.op == "node"]):
                    n[0] += 1
                    bad = raw_in(t if k == "key" else t.args[0], names)
                    o.add(R_LOOK, cx.fn.qual, not bad, f"{kind} at line {at.lineno}" if not bad else f"{kind} at line {at.lineno} uses {short(t, 80)}, not normalised", () if not bad else st.trace_list())
        r = run_vfs(m, mon, opts={"loop_limit": 20})
        o.took(r)
        for v, s in r.rets:
            v = r.I.freeze(v, s)
            for t in subterms(v):
                if t.op == "node":
                    bad = raw_in(t.args[0], names)
                    o.add(R_LOOK, m.qual, not bad, "returned node" if not bad else f"returns {short(t, 80)}, not normalised", () if not bad else s.trace_list())
        o.add(R_LOOK, m.qual, True, f"{n[0]} lookups")
    return go


def outcome(m, over, views=None):
    log = set()

    def mon(I, kind, st, cx, at, d):
        if kind in ("load", "read", "store", "setitem", "delitem", "adapter", "callback", "index", "new"):
            log.add((kind, at.lineno, tuple((k, show(I.freeze(v, st))) for k, v in sorted(d.items()) if isinstance(v, T) and v.op != "ref")))
    r = run_vfs(m, mon, over=over, setup=None, opts={"loop_limit": 6})
    rets = {(show(r.I.freeze(v, s)), frozenset((show(a), b) for a, b in s.facts.items())) for v, s in r.rets}
    rais = {v.args[0] for v, s in r.raises}
    return r, log, rets, rais


SPELL = ["/b/c/", "/x/../b/./c", "/../b/c", "/b//c/d/.."]


def _same(m):
    def go(o):
        ps = path_params(m)
        for p in ps:
            base = {q: const("/b/e") for q in ps if q != p}
            r, log, rets, rais = outcome(m, base | {p: const("/b/c")})
            o.took(r)
            for sp in SPELL:
                r2, l2, t2, x2 = outcome(m, base | {p: const(sp)})
                o.took(r2)
                ok = (log, rets, rais) == (l2, t2, x2)
                d = ""
                if not ok:
                    df = sorted((log ^ l2), key=repr)[:1] or sorted((rets ^ t2), key=repr)[:1] or sorted(rais ^ x2)
                    d = f": {str(df)[:160]}"
                o.add(R_EQ, m.qual, ok, f"{p}={sp}" + ("" if ok else f" does not behave like /b/c{d}"))
    return go


def _walk(o):
    """get_node gives the node the components name, and nothing else."""
    for n in ("get_node",):
        m = method("VirtualFileSystem", n)
        for raw in ("/a", "/a/b", "/a/b/c"):
            r = run_vfs(m, None, over={m.params[1].arg: const(raw)})
            o.took(r)
            want = node(pconst(raw))
            for v, s in r.rets:
                ok = r.I.freeze(v, s) is want
                o.add(R_WALK, m.qual, ok, raw if ok else f"{raw} gives {short(r.I.freeze(v, s), 80)}", () if ok else s.trace_list())
            o.add(R_WALK, m.qual, bool(r.rets), f"{raw} can be found")
            # refused only where a component is missing or is not a directory
            for v, s in r.raises:
                F = Facts(r.I, s)
                parts = ["/"] + raw.strip("/").split("/")
                pre = ["/" + "/".join(parts[1:i + 1]) for i in range(len(parts))]
                ok = any(F(mk("exists", pconst(q), ty=BOOL)) is False or F.kind(node(pconst(q))) == "VirtualFile" for q in pre) or "ProviderError" in str(v.args[0])
                o.add(R_WALK, m.qual, ok or None, f"{raw} refused with {v.args[0]}" + ("" if ok else " although every component may exist"), () if ok else s.trace_list())
        r = run_vfs(m, None)
        o.took(r)
        p = sym(m.params[1].arg, env().prog.ty(m.params[1].annotation))
        for v, s in r.rets:
            v = r.I.freeze(v, s)
            F = Facts(r.I, s)
            ok = v.op == "node" and (v.args[0] in (mk("norm", p, ty=PATH), CWDP) or v.args[0] is pconst("/") and F(r.I.eq_atom(mk("norm", p, ty=PATH), pconst("/"))) is True)
            o.add(R_WALK, m.qual, ok or None, "the node the path names" if ok else f"gives {short(v, 80)}")


@check("C23", "finite-domain abstract evaluation of the normalising function against the path grammar, guard analysis of its component loop for arbitrary paths, "
       "provenance (taint) analysis from every path parameter to every lookup, and comparison of the complete path classes of each operation under equivalent spellings")
def c23(tier):
    t = []
    if not env().eff.cands:
        t.append(("normaliser", lambda o: o.add(R_NORM, "sandfs/vfs.py", None, "no single normalising function found")))
    for m in normalisers():
        t += [(f"{m.name} cases", _cases(m)), (f"{m.name} loop", _loop(m))]
    for m in vfs_methods():
        if path_params(m) and m.name not in ("tree",):
            if m.name != "mount_storage":       # thousands of path classes: its spellings decide
                t.append((f"{m.name} lookups", _look(m)))
            t.append((f"{m.name} spellings", _same(m)))
    t.append(("walk", _walk))
    return t
