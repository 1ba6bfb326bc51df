"""C09 C10: what views admit, and what keeps a node's policy."""
from __future__ import annotations
import itertools
from pathlib import PurePosixPath
from .util import *
from . import harness
from .report import check
from .ceval import ceval, consistent, Unknown

VIS = "sandfs/policies.py:VisibilityView"
POL = sym("policy", inst_ty("NodePolicy"))
S = lambda n: sym(n, STR)


def sset(st, label, xs):
    return st.alloc(label, Obj("seq", "set", items=tuple(xs)))


def raw(name):
    return {f"VisibilityView.{name}": lambda *a: None}


def table(o, r, rule, where, envs, spec, what):
    """Every exit of r agrees with spec under every assignment its path condition allows."""
    for e, s in r.raises:
        o.add(rule, where, False, f"{what}: raises {short(e)}", s.trace_list())
    n = 0
    for v, s in r.rets:
        fz = r.I.freeze(v, s)
        bad = unk = None
        for env in envs:
            c = consistent(s.facts, env)
            if c is False:
                continue
            n += 1
            want = spec(env)
            try:
                got = bool(ceval(fz, env))
            except Exception as e:
                unk = unk or f"value {short(fz, 60)} not understood"
                continue
            if got is want:
                continue
            odd = foreign(s.facts, env)
            if c is None and not odd:
                unk = unk or "not understood: " + "; ".join(short(f, 80) for f in s.facts if not_known(f, env))[:300]
            else:
                bad = bad or (env, got, odd)
        if bad:
            env, got, odd = bad
            d = ", ".join(f"{show(k)}={sorted(map(str, x)) if isinstance(x, (set, frozenset)) else x}" for k, x in env.items() if k.op != "const")
            o.add(rule, where, False, f"{what}: answers {got} for {d}"[:600] + (f"; depends on {', '.join(sorted(odd))}" if odd else ""), s.trace_list())
        elif unk:
            o.add(rule, where, None, f"{what}: {unk}")
        else:
            o.add(rule, where, True, what)
    return n


def not_known(f, env):
    try:
        ceval(f, env)
        return False
    except Exception:
        return True


def foreign(facts, env):
    """Attributes other than the inputs of the specification that a path condition reads."""
    out = set()
    for f in facts:
        try:
            ceval(f, env)
        except Exception:
            for t in subterms(f):
                if t.op in ("attr", "sym") and t not in env and not any(t is not k and t in subterms(k) for k in env):
                    out.add(show(t)[:60])
    return out


R_TABLE = "the policy verdict is: shared principal if the node names any, else listed classification or no list"
R_NODE = "the node verdict is: policy verdict, and related to a prefix if there are prefixes, and every metadata filter equal"
R_CTOR = "the constructor keeps each criterion exactly as given (None only for None)"


def fmt(x):
    return "none" if x is None else str(x)


def _c09_allows(o):
    m = method("VisibilityView", "allows")
    for np_, nv, nc in itertools.product((0, 1, 2), (None, 0, 1, 2), (None, 0, 1, 2)):
        st = State()
        vfs_state(st)
        a = [S(f"a{i}") for i in range(np_)]
        b = [S(f"b{i}") for i in range(nv or 0)]
        k = [S(f"k{i}") for i in range(nc or 0)]
        c = S("classification")
        st.heap[VIEW] = Obj("inst", "VisibilityView", {"principals": CNONE if nv is None else sset(st, "vp", b),
                                                     "classifications": CNONE if nc is None else sset(st, "vc", k)})
        st.heap[POL] = Obj("inst", "NodePolicy", {"principals": sset(st, "pp", a), "classification": c})
        r = run(m, VIEW, [POL], {}, st, opts={"exact": 1}, prims=raw("allows"))
        o.took(r)
        envs = []
        words = sorted({t.args[1] for _, s in r.rets for f in s.facts for t in subterms(f) if t.op == "c" and isinstance(t.args[1], str)} |
                       {t.args[1] for v, s in r.rets for t in subterms(r.I.freeze(v, s)) if t.op == "c" and isinstance(t.args[1], str)})
        for cv in ["c"] + words:
            for bs in itertools.permutations([f"p{i}" for i in range(np_)] + ["x0", "P0"], len(b)):
                for ks in itertools.permutations([cv, cv.upper() + "!", cv.swapcase() if cv.swapcase() != cv else "q", "d"], len(k)):
                    env = {x: f"p{i}" for i, x in enumerate(a)}
                    env.update(zip(b, bs))
                    env.update(zip(k, ks))
                    env[c] = cv
                    envs.append(env)

        def spec(env):
            if a:
                return bool({env[x] for x in a} & {env[x] for x in b})
            return nc is None or env[c] in [env[x] for x in k]
        table(o, r, R_TABLE, VIS + ".allows", envs, spec, f"{np_} node principals, {fmt(nv)} view principals, {fmt(nc)} classifications")


PREFS = ["/", "/a", "/a/b", "/a/b/c", "/ab", "/a/bc", "/x", "/x/a/b"]


def _c09_node(o):
    m = method("VisibilityView", "allows_node")
    P = sym("node path", PATH)
    N = node(P)
    M = mk("attr", N, "metadata", ty=harness.env().prog.classes["VirtualNode"].ftypes["metadata"])
    from .models import canon_policy
    for nq, nf in itertools.product((None, 0, 1, 2), (None, 0, 1, 2)):
        st = State()
        vfs_state(st)
        q = [sym(f"prefix{i}", PATH) for i in range(nq or 0)]
        keys = [S(f"key{i}") for i in range(nf or 0)]
        vals = [sym(f"value{i}", ANY) for i in range(nf or 0)]
        md = CNONE if nf is None else st.alloc("md", Obj("dict", None, items=tuple(zip(keys, vals))))
        st.heap[VIEW] = Obj("inst", "VisibilityView", {"path_prefixes": CNONE if nq is None else sset(st, "vp", q), "metadata_filters": md})
        r = run(m, VIEW, [N], {}, st, opts={"exact": 1}, prims=raw("allows_node"))
        o.took(r)
        A = mk("allows", VIEW, canon_policy(r.I, fld(N, "policy"), st), ty=BOOL)
        envs = []
        for ok in (True, False):
            for qs in itertools.product(PREFS, repeat=len(q)):
                for mdv in itertools.product((None, "u", "w"), repeat=nf or 0):
                    env = {A: ok, P: PurePosixPath("/a/b")}
                    env.update({x: PurePosixPath(y) for x, y in zip(q, qs)})
                    env.update({k: f"k{i}" for i, k in enumerate(keys)})
                    env.update({v: "u" for v in vals})
                    env[M] = {f"k{i}": x for i, x in enumerate(mdv) if x is not None}
                    envs.append(env)

        def spec(env):
            p = env[P]
            pre = nq is None or any(p.is_relative_to(env[x]) or env[x].is_relative_to(p) for x in q)
            return env[A] and pre and all(env[M].get(env[k]) == env[v] for k, v in zip(keys, vals))
        table(o, r, R_NODE, VIS + ".allows_node", envs, spec, f"{fmt(nq)} prefixes, {fmt(nf)} metadata filters")


def _c09_ctor(o):
    r = run_new("VisibilityView")
    o.took(r)
    ps = [p for p in ("classifications", "principals", "path_prefixes", "metadata_filters")]
    for e, s in r.raises:
        o.add(R_CTOR, VIS + ".__init__", False, f"raises {short(e)}", s.trace_list())
    for v, s in r.rets:
        for p in ps:
            x = s.heap[v].f.get(p)
            if x is None:
                o.add(R_CTOR, VIS + ".__init__", False, f"{p} is never set", s.trace_list())
                continue
            none = next((b for a, b in s.facts.items() if a.op == "isnone" and a.args[0].op == "sym" and a.args[0].args[0] == p), None)
            tr = next((b for a, b in s.facts.items() if a.op == "truthy" and a.args[0].op == "sym" and a.args[0].args[0] == p), None)
            fz = r.I.freeze(x, s)
            if x is CNONE:
                ok, d = none is True, "is None only when None was given"
            else:
                src = any(t.op == "sym" and t.args[0] == p for t in subterms(fz))
                others = any(t.op == "sym" and t.args[0] in ps and t.args[0] != p for t in subterms(fz))
                guarded = fz.op == "seqv" and any(g for _, g in fz.args[3])
                ok = src and not others and not guarded and (none is False or tr is True)
                d = "holds what was given" if ok else f"holds {short(fz, 80)}"
            o.add(R_CTOR, VIS + ".__init__", ok, f"{p} {d}", () if ok else s.trace_list())


@check("C09", "decision-table analysis: VisibilityView.allows and allows_node are interpreted abstractly with 0, 1 and 2 symbolic elements per criterion; every "
       "exit's path condition and result are compared with the specified verdict over all element relations; the constructor's stores are checked")
def c09(tier):
    return [("allows", _c09_allows), ("allows_node", _c09_node), ("constructor", _c09_ctor)]


# ---------------------------------------------------------------- C10
def pol_fields():
    return list(harness.env().prog.classes["NodePolicy"].ftypes)


def ann_has(fn, cls):
    import ast
    return any(a.annotation is not None and cls in ast.unparse(a.annotation) for a in fn.params[1:] + fn.kwonly)


def is_existing(t):
    """Did the object denoted by t exist on entry (rather than being made by the operation)?"""
    while t.op == "attr":
        t = t.args[0]
    return t.op != "ref"


def copied(fz, src, I=None):
    """Why the frozen policy value is not an independent equal copy of policy term `src` ('' if it is)."""
    if fz is src:
        return "shares the policy object"
    if fz.op == "callret" or fz.op == "deepcopy":
        return ""
    if fz.op != "instv" or fz.args[0] != "NodePolicy":
        return f"is {short(fz, 60)}"
    d = dict(fz.args[1])
    for f in pol_fields():
        x = d.get(f)
        want = fld(src, f)
        if x is None:
            return f"lacks {f}"
        if x is want:
            if f == "principals":
                return "shares the set of principals"
            continue
        if x.op == "seqv" and x.args[1] is want and not x.args[2] and not x.args[3]:
            continue
        if x.op == "seqv" and not x.args[2] and len(x.args[3]) == 1:
            (v, g), = x.args[3]
            if not g and v.op == "elem" and v.args[0] is want:
                continue
        return f"has {f} = {short(x, 60)}"
    return ""


def copied_map(fz, src):
    if fz is src:
        return "shares the metadata mapping"
    if fz.op == "dictv" and fz.args[0] is src and not fz.args[1] and not fz.args[2]:
        return ""
    if fz.op == "dictv" and not fz.args[1] and len(fz.args[2]) == 1:
        (kv, g), = fz.args[2]
        if kv.op == "tup" and kv.args[0].op == "elem" and kv.args[0].args[0] is src and src in set(subterms(kv.args[1])) \
                and not any(src in set(subterms(a)) for a, _ in g):
            return ""
    return f"has metadata {short(fz, 60)}"


def frozen_nodes(t, seen=None):
    """Nodes made by the operation inside a frozen value."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "instv" and x.args[0] in ("VirtualFile", "VirtualDirectory"):
                yield x
            stack.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


def new_nodes(I, s):
    """(class, fields) of all nodes made by the operation and reachable at the exit."""
    seen = set()
    for k, o in list(s.heap.items()):
        if o.kind == "inst" and o.cls in ("VirtualFile", "VirtualDirectory") and k.op == "ref":
            d = {f: I.freeze(v, s) for f, v in o.f.items()}
            yield o.cls, d
            for x in d.values():
                for y in frozen_nodes(x, seen):
                    yield y.args[0], dict(y.args[1])


R_KEEP = "only policy administration changes the policy or metadata of an existing node"
R_REPL = "an existing node is not replaced by a new one with another policy"
R_COPY = "a copy gets an equal, independent policy and metadata"
R_SYNC = "storage sync puts the recorded policy and metadata back on every surviving path"
R_REST = "restore gives each node an independent copy of its recorded policy"
MAY_REPLACE = {"remove", "move", "copy", "restore", "sync_storage", "mount_storage"}


def keep_mon(o, m, bad, admin, handler=False):
    fs = set(pol_fields())
    syncing = m.name in ("sync_storage", "mount_storage", "restore")

    def mon(I, kind, st, cx, at, d):
        why = None
        if kind == "store":
            x, a, v = d["obj"], d["attr"], d["val"]
            if not is_existing(x):
                return
            ty = I.typ(x, st)
            if a in ("policy", "metadata") and x.op == "node":
                if v is None or v is not mk("attr", x, a):
                    why = f"{a} of {short(x, 60)} is replaced"
            elif a in fs and (x.op == "attr" and x.args[1] == "policy" or ty == inst_ty("NodePolicy")):
                why = f"{a} of an existing policy is changed"
        elif kind in ("mutseq", "update", "clear", "setitem", "delitem"):
            c = d["cont"]
            if c.op == "attr" and is_existing(c):
                if c.args[1] == "principals":
                    why = "the principals of an existing policy are changed"
                elif c.args[1] == "metadata" and c.args[0].op == "node" and not ann_has(m, "dict"):
                    why = "the metadata of an existing node are changed"
                elif handler:
                    pass
                elif c.args[1] == "children" and kind == "setitem" and m.name not in MAY_REPLACE and d["val"].op == "ref":
                    F = Facts(I, st)
                    if F(mk("has", c, d["key"], ty=BOOL)) is not False and F(mk("in", d["key"], c, ty=BOOL)) is not False \
                            and not absent_child(F, c.args[0], d["key"]):
                        bad.append(1)
                        o.add(R_REPL, cx.fn.qual, False, f"{m.name}: a new node may overwrite an existing entry at {I.loc(at, cx)}", st.trace_list())
                elif c.args[1] == "children" and kind in ("delitem", "clear") and m.name not in MAY_REPLACE and c.args[0].op == "node" \
                        and not (kind == "delitem" and made_here(st, c, d["key"], d["val"])):
                    if in_reset(cx):
                        return
                    bad.append(1)
                    o.add(R_REPL, cx.fn.qual, False, f"{m.name}: an existing entry is dropped at {I.loc(at, cx)}", st.trace_list())
        if why and not admin:
            bad.append(1)
            o.add(R_KEEP, cx.fn.qual, False, f"{m.name}: {why} at {I.loc(at, cx)}", st.trace_list())
    return mon


def in_reset(cx):
    """Resetting a provider-backed directory for reloading is not a replacement of stored nodes."""
    return any(f.name == "_reset_directory" for f in chain(cx))


def absent_child(F, d, key):
    for a, b in F.st.facts.items():
        if a.op == "exists" and b is False:
            p = a.args[0]
            if parent_of(p) is d.args[0] and (key is mk("name", p) or key.op == "name" and key.args[0] is p):
                return True
            if p.op == "pren":
                return True
    return False


def made_here(st, cont, key, val):
    if isinstance(val, T) and val.op == "ref":
        return True
    o = st.heap.get(cont)
    for kv in (o.items if o is not None else ()):
        if kv[0] is key:
            return kv[1] is None or kv[1].op == "ref"
    return False


def _c10_method(m, on=()):
    def go(o):
        bad = []
        admin = ann_has(m, "NodePolicy")
        r = run_vfs(m, keep_mon(o, m, bad, admin), on=on, opts={"exact_roots": 1})
        o.took(r)
        if not bad:
            o.add(R_KEEP, m.qual, True, f"{len(r.rets) + len(r.raises)} path classes" + (" (policy administration)" if admin else ""))
    return go


def _c10_handler(n, m):
    def go(o):
        bad = []
        r = run_handler(m, keep_mon(o, m, bad, False, True), opts=SHOPTS, on=("noview",))
        o.took(r)
        if not bad:
            o.add(R_KEEP, m.qual, True, f"{len(r.rets) + len(r.raises)} path classes")
    return go


def _c10_copy(o):
    m = method("VirtualFileSystem", "copy")
    r = run_vfs(m, None)
    o.took(r)
    n = 0
    for v, s in r.rets:
        for cls, d in new_nodes(r.I, s):
            src = source_of(d)
            n += 1
            if src is None:
                o.add(R_COPY, m.qual, False, f"a {cls} is made whose policy is {short(d.get('policy', CNONE), 80)}", s.trace_list())
                continue
            why = copied(d["policy"], fld(src, "policy")) or copied_map(d["metadata"], fld(src, "metadata"))
            c = d.get(roles(r.I.prog)["content"])
            if not why and cls == "VirtualFile" and c is not None and not any(t.op == "content" and t.args[0] is src for t in subterms(c)):
                why = f"mixes the text of another node ({short(c, 60)})"
            o.add(R_COPY, m.qual, not why, f"{cls} copied from {short(src, 60)}" + (f": the copy {why}" if why else ""), () if not why else s.trace_list())
    o.add(R_COPY, m.qual, n > 0 or None, f"{n} copied nodes over {len(r.rets)} exits")


def source_of(d):
    """The object whose policy and metadata a new node took over."""
    for f in ("policy", "metadata", "version"):
        for t in subterms(d.get(f, CNONE)):
            if t.op == "attr" and t.args[1] in ("policy", "metadata") and t.args[0].op != "attr":
                return t.args[0]
    return None


def restore_cov(o, rule, attrs, where=None):
    """Every recorded attribute is stored back for the root, for directories and for files, under no further condition."""
    m = method("VirtualFileSystem", "restore")
    got = {}
    wrong = {}
    content = roles(harness.env().prog)["content"]

    def mon(I, kind, st, cx, at, d):
        if kind != "store" or d["obj"].op != "ref" or d["val"] is None:
            return
        ob = st.heap.get(d["obj"])
        if ob is None or ob.cls not in ("VirtualFile", "VirtualDirectory"):
            return
        a = "content" if d["attr"] == content else d["attr"]
        if a not in attrs:
            return
        v = I.freeze(d["val"], st)
        E = entry_of(v, a)
        if E is None:
            return
        key = E.args[1] if E.op in ("item", "dget") else None
        why = restored(v, E, a)
        root = isd = None
        for x, b in st.facts.items():
            if x.op == "eq" and key is not None and any(key in subterms(y) and y.op in ("path", "norm") for y in x.args) and pconst("/") in x.args:
                root = False if not b or root is False else True
            if x is fld(E, "is_dir") or x.op == "truthy" and x.args[0] is fld(E, "is_dir"):
                isd = b
        if root:
            cases = ["root"]
        else:
            cases = (["directory"] if isd is not False and ob.cls == "VirtualDirectory" else []) + (["file"] if isd is not True and ob.cls == "VirtualFile" else [])
        cond = {(x, b) for x, b in st.facts.items() if any(t.op == "attr" and t.args[0] is E and t.args[1] not in ("is_dir", "content") for t in subterms(x))}
        for c in cases:
            if why:
                wrong.setdefault((a, c), (why, I.loc(at, cx), st.trace_list()))
            else:
                got.setdefault((a, c), []).append((I.loc(at, cx), cond))
    r = run_vfs(m, mon)
    o.took(r)
    for a in attrs:
        for c in ("root", "directory", "file"):
            if a == "content" and c != "file":
                continue
            if (a, c) in wrong:
                why, loc, tr = wrong[a, c]
                o.add(rule, m.qual, False, f"{a} of the {c} restored at {loc} {why}", tr)
                continue
            g = got.get((a, c), [])
            cond = set.intersection(*[x[1] for x in g]) if g else set()
            ok = bool(g) and not cond
            o.add(rule, m.qual, ok, f"{a} of the {c} is put back" + (f" at {g[0][0]}" if ok else
                  f" only if {short(list(cond)[0][0], 80)} is {list(cond)[0][1]}" if g else " nowhere"))
    return r


def entry_of(v, a):
    """The snapshot entry a stored value comes from."""
    for t in subterms(v):
        if t.op == "attr" and t.args[1] == a and t.args[0].op in ("item", "dget", "elem", "sym", "dval"):
            return t.args[0]
    return None


def restored(v, E, a):
    src = fld(E, a)
    if a == "policy":
        return copied(v, src)
    if a == "metadata":
        return copied_map(v, src)
    if a == "content":
        return ""
    return "" if v is src else f"is {short(v, 60)}"


def _c10_restore(o):
    restore_cov(o, R_REST, ("policy", "metadata"))


def _c10_sync(o):
    m = method("VirtualFileSystem", "sync_storage")
    cleared, put = [], {}

    def mon(I, kind, st, cx, at, d):
        if kind == "clear" and kids_of(d["cont"]) is not None or \
                kind == "store" and d["attr"] == "children" and d["obj"].op == "node":
            cleared.append((I.loc(at, cx), cx.fn.qual))
        elif kind == "store" and d["attr"] in ("policy", "metadata") and d["obj"].op in ("node", "ref"):
            v = d["val"]
            src = v.args[0] if v.op == "attr" and v.args[1] == d["attr"] else None
            if src is None and v.op in ("ref",):
                fz = I.freeze(v, st)
                src = source_of({d["attr"]: fz})
                if src is not None and (copied(fz, fld(src, "policy")) if d["attr"] == "policy" else copied_map(fz, fld(src, "metadata"))):
                    src = None
            if src is None or src.op != "node":
                return
            p, depth = src.args[0], 0
            while p.op == "kidp":
                p, depth = p.args[0], depth + 1
            cond = [a for a in st.facts if a.op not in ("exists", "has") and any(t is src for t in subterms(a))]
            put.setdefault((d["attr"], min(depth, 2)), []).append((I.loc(at, cx), d["obj"] is src or d["obj"].op == "ref", {(a, st.facts[a]) for a in cond}))
    r = run_vfs(m, mon, on=("mounts",))
    o.took(r)
    if not cleared:
        o.add(R_SYNC, m.qual, True, "sync never drops the existing nodes")
        return
    loc, q = cleared[0]
    for a in ("policy", "metadata"):
        for depth in (1, 2):
            got = put.get((a, depth), [])
            cond = set.intersection(*[g[2] for g in got]) if got else set()
            ok = bool(got) and not cond
            o.add(R_SYNC, q, ok, f"{a} of {'direct entries' if depth == 1 else 'nested entries'} dropped at {loc}" +
                  (f" is put back at {got[0][0]}" if ok else f": put back only if {short(list(cond)[0][0], 80)} is {list(cond)[0][1]}" if got else " is never put back"))


@check("C10", "effect analysis over every public operation and command: no store to the policy or metadata of a node that existed on entry outside policy "
       "administration and no overwriting of an existing entry; provenance of every policy and metadata field of nodes made by copy, restore and storage sync")
def c10(tier):
    t = [("copy", _c10_copy), ("restore provenance", _c10_restore), ("sync", _c10_sync)]
    for m in vfs_methods():
        if m.name in ("mount_storage",):
            continue
        t.append((f"vfs.{m.name}", _c10_method(m, ("mounts",) if m.name == "sync_storage" else ())))
    for n, m in handler_set():
        t.append((f"shell.{n}", _c10_handler(n, m)))
    return t
