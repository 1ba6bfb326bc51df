"""C02 C03 C04 C21: the dispatcher."""
from __future__ import annotations
import ast
from .util import *
from .report import check
from .prog import drop_none

EXEC = "SandboxShell.exec"


def reach(fn):
    eff = env().eff
    seen, todo = set(), [fn]
    while todo:
        g = todo.pop()
        if g in seen or g not in eff.calls:
            continue
        seen.add(g)
        todo.extend(eff.calls[g])
    return seen


def layers():
    """exec and the methods below it that lead to a command handler and return a result, found in the call graph."""
    e = env()
    ex = method("SandboxShell", "exec")
    hs = {m for _, m in handler_set()}
    out = [ex]
    for f in sorted(reach(ex), key=lambda f: f.qual):
        t = e.eff.trans.get(f)
        if f is ex or f in hs or f.cls is None or f.cls.name != "SandboxShell" or not t or not t["cmds"]:
            continue
        if f.ret_ann is not None and ast.unparse(f.ret_ann).strip("'\"").endswith("CommandResult"):
            out.append(f)
    return out


def m_step(I, fn, args, kw, st, cx, node_):
    """A lower dispatcher layer: an arbitrary result, or any exception."""
    fa = [I.freeze(a, st) for a in args[1:]] + [mk("kw", k, I.freeze(v, st)) for k, v in sorted(kw.items())]
    r = mk("step", fn.name, *fa, ty=inst_ty("CommandResult"))
    I.emit("step", st, cx, node_, fn=fn.name, ret=r)
    s2 = st.copy()
    s2.log = (("failed",),)
    s2.note(f"{I.loc(node_, cx)} {fn.name} raises")
    I.raise_(cx, I.any_exc(f"raised by {fn.name}"), s2)
    return [(r, st)]


def m_fail(name):
    h = opaque()

    def go(I, fn, args, kw, st, cx, node_):
        mark = len(cx.sink)
        r = h(I, fn, args, kw, st, cx, node_)
        return r
    return go


def run_layer(f, others, mon, tier, soft=None):
    prims = dict(EXEC_PRIMS)
    for g in others:
        if g is not f:
            prims[f"{g.cls.name}.{g.name}"] = m_step
    return run_handler(f, mon, opts=SHOPTS | {"loop_limit": 6 if tier == "quick" else 12}, prims=prims, soft=soft)


# ---------------------------------------------------------------- C02
def allow_fields():
    """Fields of the shell that hold the allow-list, from the constructor."""
    r = run_new("SandboxShell", over={"vfs": VFS})
    out = set()
    for v, s in r.rets:
        for f, x in s.heap[v].f.items():
            if any(t.op == "sym" and t.args[0] == "allowed_commands" for t in subterms(r.I.freeze(x, s))):
                out.add(f)
    if not out:
        raise AnchorError("no field of the shell holds allowed_commands")
    return out


def permitted(F, K, fields):
    for f in fields:
        for a, b in list(F.st.facts.items()) + list(F.g.items()):
            if a.op == "isnone" and b is True and a.args[0] is mk("attr", SHELL, f):
                return True
            if a.op == "isnone" and b is True and a.args[0].op == "attr" and a.args[0].args[0] is SHELL and a.args[0].args[1] == f:
                return True
            if a.op == "in" and b is True and a.args[0] is K and a.args[1].op == "attr" and a.args[1].args[1] == f:
                return True
    return False


def _c02_ctor(o):
    r = run_new("SandboxShell", over={"vfs": VFS})
    o.took(r)
    w = "sandfs/shell.py:SandboxShell.__init__"
    for f in sorted(allow_fields()):
        for v, s in r.rets:
            isn = None
            for a, b in s.facts.items():
                if a.op == "isnone" and a.args[0].op == "sym" and a.args[0].args[0] == "allowed_commands":
                    isn = b
            x = s.heap[v].f[f]
            fz = r.I.freeze(x, s)
            src = [t for t in subterms(fz) if t.op == "sym" and t.args[0] == "allowed_commands"]
            if isn is True:
                ok = x is CNONE
                d = "no list given: the field is None"
            else:
                ok = bool(src) and x is not CNONE and isn is False
                d = "list given (possibly empty): the field holds exactly that list"
            o.add("the constructor keeps a given allow-list, an empty one included", w, ok, d + ("" if ok else f", but holds {short(fz)}"),
                  () if ok else s.trace_list())


def _c02_exec(tier):
    def go(o):
        fields = allow_fields()

        def mon(I, kind, st, cx, at, d):
            if kind == "callback" and d.get("category") == "CommandHandler":
                c = d["callee"]
                K = c.args[1] if c.op in ("dget", "item", "dgetd") and len(c.args) > 1 else None
                ok = K is not None and permitted(Facts(I, st), K, fields)
                o.add("a handler runs only for a name on the allow-list", cx.fn.qual, ok, f"handler called at {I.loc(at, cx)}",
                      () if ok else st.trace_list())
            elif kind == "bridge":
                toks = next((a for a in d["args"] if drop_none(I.typ(a, st))[0] in ("seq", "list") or I.freeze(a, st).op == "seqv"), None)
                fz = I.freeze(toks, st) if toks is not None else None
                K = fz.args[2][0] if fz is not None and fz.op == "seqv" and fz.args[2] else None
                ok = K is not None and permitted(Facts(I, st), K, fields)
                o.add("host fallback runs only for a name on the allow-list", cx.fn.qual, ok, f"host process requested at {I.loc(at, cx)}",
                      () if ok else st.trace_list())
        hard = lambda a: a.op in ("exists", "vis") or any(t.op == "attr" and t.args[0] is SHELL and t.args[1] in fields for t in subterms(a))
        r = exec_run(mon, tier, soft=lambda a: not hard(a))
        o.took(r)
        n = 0
        for v, s in r.rets:
            ref = [a for a, b in s.facts.items() if a.op == "in" and b is False and a.args[1].op == "attr" and a.args[1].args[0] is SHELL and a.args[1].args[1] in fields]
            if ref:
                fz = r.I.freeze(v, s)
                ec = field_of(fz, "exit_code")
                ok = ec is not None and ec.op == "c" and ec.args[1] != 0
                n += 1
                o.add("a refused command yields a non-zero exit code", EXEC, ok, f"exit code {short(ec) if ec else '?'}", () if ok else s.trace_list())
        o.add("a refused command yields a non-zero exit code", EXEC, n > 0 or None, f"{n} refusing path classes")
    return go


def field_of(fz, name):
    if fz.op == "instv":
        return dict(fz.args[1]).get(name)
    return mk("attr", fz, name)


@check("C02", "must-facts at every indirect call: each call of a registered handler and each host-fallback request in the dispatcher is dominated by "
       "`allow-list is None` or `name in allow-list` for the very name used in the lookup; constructor and refusal results are checked separately")
def c02(tier):
    return [("constructor", _c02_ctor), ("exec", _c02_exec(tier))]


# ---------------------------------------------------------------- C03
def _parts(t):
    if t.op in ("fstr", "add"):
        return [y for a in t.args for y in _parts(a)]
    return [] if t.op == "c" else [t]


def _byte_terms(t):
    """Texts whose UTF-8 sizes are summed in t, or None."""
    if t.op == "add":
        out = []
        for a in t.args:
            x = _byte_terms(a)
            if x is None:
                return None
            out += x
        return out
    if t.op == "c" and isinstance(t.args[1], int) and t.args[1] >= 0:
        return []
    if t.op == "len" and t.args[0].op == "smeth" and t.args[0].args[0] == "encode":
        e = t.args[0].args
        enc = e[2] if len(e) > 2 and e[2].op == "c" else None
        if enc is not None and str(enc.args[1]).lower().replace("-", "").replace("_", "") != "utf8":
            return None
        for k in e[2:]:
            if k.op == "kw" and k.args[0] == "errors" and k.args[1].op == "c" and k.args[1].args[1] in ("ignore", "replace"):
                return None
        return _parts(e[1])
    return None


def cap_attr():
    r = run_new("SandboxShell", over={"vfs": VFS})
    for v, s in r.rets:
        for f, x in s.heap[v].f.items():
            if x.op == "sym" and x.args[0] == "max_output_bytes":
                return f
    raise AnchorError("no field of the shell holds max_output_bytes")


def bounded(facts, cap, texts):
    for a, b in facts.items():
        if a.op not in ("lt", "le") or len(a.args) != 2:
            continue
        x, y = a.args
        tot = None
        if (y_is := _is_cap(y, cap)) and b is True:
            tot = x          # total < cap, total <= cap
        elif _is_cap(x, cap) and b is False:
            tot = y          # not cap < total; not cap <= total
        if tot is None:
            continue
        bt = _byte_terms(tot)
        if bt is not None and all(u in bt for t in texts for u in _parts(t)):
            return True
    return False


def _is_cap(t, cap):
    return t.op == "attr" and t.args[0] is SHELL and t.args[1] == cap


def _c03(tier):
    def go(o):
        cap = cap_attr()
        ls = layers()
        r = run_layer(ls[0], ls, None, tier)
        o.took(r)
        for v, s in r.rets:
            fz = r.I.freeze(v, s)
            so, se, ec = (field_of(fz, n) for n in ("stdout", "stderr", "exit_code"))
            texts = [t for t in (so, se) if not (t.op == "c" and t.args[1] == "")]
            none = any(a.op == "isnone" and b is True and _is_cap(a.args[0], cap) for a, b in s.facts.items())
            fixed = all(t.op == "c" or t.op == "fstr" and all(u.op == "c" or _is_cap(u, cap) for u in t.args) for t in (so, se)) and \
                ec.op == "c" and ec.args[1] != 0
            ok = not texts or none or fixed or bounded(s.facts, cap, texts)
            o.add("every result leaving exec is empty, uncapped, within the cap in UTF-8 bytes, or the fixed error", EXEC, ok,
                  f"returns stdout={short(so, 60)} stderr={short(se, 60)}" + ("" if ok else ": no byte-size test of this very result against the cap on the path"),
                  () if ok else s.trace_list())
    return go


@check("C03", "exit analysis of the dispatcher with lower layers arbitrary: on every return path the very stdout and stderr returned are empty, or the cap "
       "is None, or a test `UTF-8 size(stdout)+size(stderr) <= cap` on those terms dominates, or the value is the fixed error with non-zero exit code")
def c03(tier):
    return [("exec", _c03(tier))]


# ---------------------------------------------------------------- C04
def ok_zero(F, r):
    """Is the result r known to be a success (or not a result object)?"""
    ec = mk("attr", r, "exit_code", ty=INT)
    for e in (ec, mk("attr", r, "exit_code")):
        for x in (mk("eq", e, const(0), ty=BOOL), mk("eq", const(0), e, ty=BOOL)):
            if F(x) is True:
                return True
        if F(mk("truthy", e, ty=BOOL)) is False:
            return True
    return F(mk("isinst", r, "CommandResult", ty=BOOL)) is False or F(mk("isnone", r, ty=BOOL)) is True


R_STOP = "after a failed step nothing further runs"
R_CODE = "a failed step makes the exit code non-zero"
R_TOTAL = "no exception leaves exec"


def _c04_layer(i, tier):
    def go(o):
        ls = layers()
        f = ls[i]

        def mon(I, kind, st, cx, at, d):
            if kind == "step" or kind == "callback" and d.get("category") == "CommandHandler":
                F = Facts(I, st)
                for r in st.log:
                    if r == ("failed",):
                        o.add(R_STOP, f.qual, False, f"a step runs at {I.loc(at, cx)} although an earlier one raised", st.trace_list())
                    else:
                        ok = ok_zero(F, r)
                        o.add(R_STOP, f.qual, ok, f"next step at {I.loc(at, cx)}" + ("" if ok else ": the earlier result is not known to be a success"),
                              () if ok else st.trace_list())
                st.log = (d["ret"],)
            elif kind == "vfscall":
                pass
        r = run_layer(f, ls, mon, tier)
        o.took(r)
        if i == 0:
            o.add(R_TOTAL, f.qual, not r.raises, f"{len(r.rets)} returning path classes" if not r.raises else f"{short(r.raises[0][0])} escapes",
                  r.raises[0][1].trace_list() if r.raises else ())
        for v, s in r.rets:
            fz = r.I.freeze(v, s)
            ec = field_of(fz, "exit_code")
            nz = ec.op == "c" and ec.args[1] != 0
            failed = any("raises" in x for x in s.trace_list(400)) if False else any(x == ("failed",) for x in s.log)
            F = Facts(r.I, s)
            if failed:
                o.add(R_CODE, f.qual, nz, f"a step raised; exit code {short(ec, 60)}", () if nz else s.trace_list())
            for x in s.log:
                if isinstance(x, T):
                    same = ec.op == "attr" and ec.args[1] == "exit_code" and ec.args[0] is x or fz is x
                    ok = nz or same or ok_zero(F, x)
                    o.add(R_CODE, f.qual, ok, f"a step returned {short(x, 50)}; exit code {short(ec, 60)}", () if ok else s.trace_list())
    return go


def raises_to_result(o, tier):
    pass


def _c04_all(tier):
    """The whole dispatcher with its filesystem operations failing arbitrarily."""
    def go(o):
        r = exec_run(None, tier)
        o.took(r)
        o.add(R_TOTAL, EXEC, not r.raises, f"{len(r.rets)} returning path classes" if not r.raises else f"{short(r.raises[0][0])} escapes",
              r.raises[0][1].trace_list() if r.raises else ())
    return go


@check("C04", "exception-flow and typestate analysis of the dispatcher, layer by layer: with parsing, expansion, redirection, handlers, providers and "
       "adapters raising anything, no exception leaves exec; a path on which a step failed runs no further step and returns a non-zero exit code")
def c04(tier):
    t = [("whole dispatcher", _c04_all(tier))]
    for i, f in enumerate(layers()):
        t.append((f"layer {f.name}", _c04_layer(i, tier)))
    return t


# ---------------------------------------------------------------- C21
R_ENV = "only a line made of assignments alone changes the shell's variables"
R_PRIV = "a command gets a private environment built from the shell's variables and its own assignments"
R_HOST = "the host environment is read only for the host bridge and never changed"


def env_field():
    r = run_new("SandboxShell", over={"vfs": VFS})
    for v, s in r.rets:
        for f, x in s.heap[v].f.items():
            fz = r.I.freeze(x, s)
            if any(t.op == "sym" and t.args[0] == "env" for t in subterms(fz)):
                return f, x, r, s
    raise AnchorError("no field of the shell holds env")


def _c21_ctor(o):
    f, x, r, s = env_field()
    o.took(r)
    for v, s in r.rets:
        x = s.heap[v].f[f]
        ok = x.op == "ref"
        o.add("the shell copies the variables it is given", "sandfs/shell.py:SandboxShell.__init__", ok, f"field {f} is {short(x)}")


def _touches_env(I, kind, d, f, st):
    if kind in ("setitem", "delitem", "clear", "update"):
        c = d["cont"]
        return c.op == "attr" and c.args[0] is SHELL and c.args[1] == f
    if kind == "store":
        return d["obj"] is SHELL and d["attr"] == f
    return False


def _c21_exec(tier):
    def go(o):
        f = env_field()[0]

        def mon(I, kind, st, cx, at, d):
            if _touches_env(I, kind, d, f, st):
                names = [(a.args[0], b) for a, b in st.facts.items() if a.op == "isnone" and a.args[0].op == "attr" and a.args[0].args[1] == "name"]
                one = [a for a, b in st.facts.items() if a.op == "eq" and b is True and any(t.op == "len" and "commands" in repr(t) for t in a.args)]
                ok = any(b is True for _, b in names) and bool(one)
                o.add(R_ENV, cx.fn.qual, ok, f"{kind} on the shell's variables at {I.loc(at, cx)}" + (
                    "" if ok else ": the line may contain a command on this path"), () if ok else st.trace_list())
            elif kind == "callback" and d.get("category") == "CommandHandler":
                specs = {t for t in subterms(d["callee"]) if t.op == "elem" and "commands" in repr(t.args[0])[:4000]}
                for a in d["args"]:
                    ob = st.heap.get(a)
                    if ob is not None and ob.kind == "inst" and "env" in ob.f:
                        e = ob.f["env"]
                        shared = e.op != "ref"
                        fz = I.freeze(e, st)
                        used = {t for t in subterms(fz) if t.op == "elem" and t.ty != STR and t.args[0].op == "attr" and t.args[0].args[1] == "commands"}
                        ok = not shared and used <= specs
                        o.add(R_PRIV, cx.fn.qual, ok, f"handler called at {I.loc(at, cx)}" + ("" if ok else
                              ": it receives the shell's own variable table" if shared else ": its environment contains assignments of another command"),
                              () if ok else st.trace_list())
        hard = lambda a: a.op in ("exists", "vis") or a.op == "isnone" and a.args[0].op == "attr" and a.args[0].args[1] == "name" or \
            a.op == "eq" and any(t.op == "len" for t in a.args if isinstance(t, T))
        r = exec_run(mon, tier, soft=lambda a: not hard(a))
        o.took(r)
    return go


def _c21_handler(m):
    def go(o):
        f = env_field()[0]
        bad = []

        def mon(I, kind, st, cx, at, d):
            if _touches_env(I, kind, d, f, st):
                bad.append(1)
                o.add(R_ENV, cx.fn.qual, False, f"{kind} on the shell's variables at {I.loc(at, cx)}", st.trace_list())
        r = run_handler(m, mon, opts=SHOPTS, on=("noview",))
        o.took(r)
        if not bad:
            o.add(R_ENV, m.qual, True, f"{len(r.rets) + len(r.raises)} path classes, none changes the variables")
    return go


HOSTENV = ("os.environ", "os.getenv", "os.putenv", "os.unsetenv", "os.environb", "os.path.expandvars", "os.path.expanduser")


def _c21_host(o):
    e = env()
    n = 0
    for fn in e.prog.fns:
        if fn.outer is not None:
            continue
        for x in ast.walk(fn.node):
            if not isinstance(x, ast.Attribute):
                continue
            d = e.prog.lookup(fn.module, ast.unparse(x).split(".")[0])
            if not d or d[0] != "ext":
                continue
            full = d[1] + ast.unparse(x)[len(ast.unparse(x).split(".")[0]):]
            if full not in HOSTENV:
                continue
            n += 1
            t = e.eff.trans.get(fn)
            ok = full == "os.environ" and bool(t and (t["proc"] or _only_for_bridge(fn)))
            par = _parent(fn.node, x)
            if isinstance(par, ast.Subscript) and not isinstance(par.ctx, ast.Load):
                ok = False
            if isinstance(par, ast.Attribute) and par.attr in ("update", "setdefault", "pop", "clear", "popitem", "__setitem__"):
                ok = False
            o.add(R_HOST, fn.qual, ok, f"{full} used at line {x.lineno}")
    o.add(R_HOST, "sandfs", True, f"{len(e.prog.fns)} functions scanned, {n} uses of the host environment")


def _only_for_bridge(fn):
    """Every caller of fn is part of the host bridge."""
    eff = env().eff
    callers = [g for g, c in eff.calls.items() if fn in c]
    return bool(callers) and all(eff.trans[g]["proc"] for g in callers)


def _parent(root, x):
    for p in ast.walk(root):
        for c in ast.iter_child_nodes(p):
            if c is x:
                return p
    return None


@check("C21", "effect analysis: stores to the shell's variable table are dominated by the assignments-only test; the environment object handed to a handler "
       "is freshly allocated and built only from the shell's table and the same command's assignments; uses of the host environment are confined to "
       "the functions that start host processes and never mutate it")
def c21(tier):
    t = [("constructor", _c21_ctor), ("exec", _c21_exec(tier)), ("host environment", _c21_host)]
    for n, m in handler_set():
        t.append((f"shell.{n}", _c21_handler(m)))
    return t
