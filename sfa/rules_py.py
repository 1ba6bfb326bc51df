"""C20: the environment of Python snippets."""
from __future__ import annotations
from .util import *
from .report import check
from .harness import run, param_syms, run_new
from .state import State

R_BI = "a snippet's builtins are the curated harmless ones plus those its host supplied"
R_REPL = "globals passed in cannot replace the builtins"
R_FRESH = "every run gets dictionaries of its own"
R_KEEP = "a run changes neither the template, the builtins table nor the dictionaries passed in"
R_OUT = "what the snippet prints is captured and returned"
R_ONLY = "Python text is evaluated only by the executor"

SAFE = {"abs", "all", "any", "bool", "dict", "enumerate", "float", "int", "len", "list", "map", "max", "min", "print", "range", "repr", "reversed", "round", "set", "sorted",
        "str", "sum", "tuple", "zip", "bin", "chr", "ord", "divmod", "filter", "frozenset", "hash", "hex", "isinstance", "issubclass", "iter", "next", "oct", "pow", "slice",
        "ascii", "format", "bytes", "bytearray", "complex", "callable", "Exception", "ValueError", "TypeError", "KeyError", "IndexError", "StopIteration", "RuntimeError",
        "ArithmeticError", "ZeroDivisionError", "LookupError", "AssertionError", "AttributeError", "NotImplementedError", "OverflowError", "True", "False", "None"}


def builtin_name(t):
    if t.op in ("ext", "cls", "type", "bi", "exccls") and t.args and isinstance(t.args[0], str):
        return t.args[0].rsplit(".", 1)[-1] if t.args[0].startswith("builtins.") or "." not in t.args[0] else t.args[0]
    return None


def module_level(ref):
    """Is this object made by a module-level expression?"""
    import ast
    if ref.op == "glob":
        return True
    p = str(ref.args[0]).split(":")
    mod = env().prog.modules.get("sandfs." + p[1]) if len(p) > 3 else None
    if mod is None or not p[2].isdigit():
        return False
    ln = int(p[2])
    return not any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.lineno <= ln <= x.end_lineno for x in ast.walk(mod.tree))


def _c20(variant):
    HF = sym("host_fn", ANY)
    EV1, EV2 = sym("template builtins", ANY), sym("extra builtins", ANY)
    GX, GY = sym("gx", ANY), sym("gy", ANY)

    def dct(st, name, items):
        k = sym("given:" + name, ("dict", STR, ANY))
        st.heap[k] = Obj("dict", None, {}, items=tuple((const(a), b) for a, b in items))
        return k

    def go(o):
        C = method("PythonExecutor", "__init__")
        m = method("PythonExecutor", "run")
        full = variant == "full"
        tmp = State()
        gb = dct(tmp, "builtins", [("host_fn", HF)]) if full else CNONE
        gt = dct(tmp, "template", [("x", GX), ("__builtins__", EV1)]) if full else CNONE
        ex = dct(tmp, "extra", [("y", GY), ("__builtins__", EV2)]) if full else CNONE
        S = sym("pyx", inst_ty("PythonExecutor"))
        st = State()
        vfs_state(st)
        st.heap.update(tmp.heap)
        names = [a.arg for a in C.params[1:] + C.kwonly]
        over = {n: VFS if "vfs" in n else gb if "builtin" in n else gt if "global" in n or "template" in n else None for n in names}
        over = {k: v for k, v in over.items() if v is not None}
        args, kw = param_syms(C, over=over)
        st.heap[S] = Obj("inst", "PythonExecutor", {})
        r0 = run(C, S, args, kw, st, None, inline=True)
        o.took(r0)
        n = 0
        for _, s0 in r0.rets:
            o.add(R_KEEP, C.qual, all(s0.heap.get(k) == v for k, v in tmp.heap.items()), "the dictionaries passed in are left alone")
            for k, x in s0.heap.items():
                if k.op in ("ref", "glob") and x.kind == "dict" and any(a is const("host_fn") for a, b in x.items) and module_level(k):
                    o.add(R_KEEP, C.qual, False, f"what one host supplies is stored in the module's own dictionary ({show(k)[:40]})", s0.trace_list())
            before = dict(s0.heap)
            hits = []

            def mon(I, kind, st, cx, at, d):
                if kind == "redirect":
                    st.log = st.log + (("redirect", d["args"][0]),)
                elif kind == "redirect_end":
                    st.log = st.log[:-1]
                elif kind == "host" and d["op"] in ("exec", "eval"):
                    hits.append(1)
                    look(I, st, cx, at, d)
                    sink[0] = st.log[-1][1] if st.log else None
            sink = [None]

            def look(I, s, cx, at, d):
                q = f"{d['op']} at line {at.lineno}"
                a = list(d["args"])
                G = a[1] if len(a) > 1 else d["kw"].get("globals")
                L = a[2] if len(a) > 2 else d["kw"].get("locals")
                ok = bool(s.log)
                o.add(R_OUT, cx.fn.qual, ok, f"{q} runs with output captured" if ok else f"{q} runs without output capture", () if ok else s.trace_list())
                g = s.heap.get(G) if G is not None else None
                if g is None or g.kind != "dict":
                    o.add(R_BI, cx.fn.qual, False if G is None or G is CNONE else None, f"{q}: no environment given")
                    return
                if L is not None and L is not G and L is not CNONE:
                    ok = L not in before
                    o.add(R_FRESH, cx.fn.qual, ok, f"{q}: locals of its own", () if ok else s.trace_list())
                for x, what in ((G, "globals"),):
                    ok = x not in before
                    o.add(R_FRESH, cx.fn.qual, ok, f"{q}: {what} of its own" if ok else f"{q}: {what} are shared with other runs", () if ok else s.trace_list())
                if g.base is not None or g.bag:
                    o.add(R_BI, cx.fn.qual, None, f"{q}: environment not tracked")
                    return
                env_ = {k.args[1]: x for k, x in g.items if x is not None and k.op == "c"}
                B = env_.get("__builtins__")
                if B is None:
                    o.add(R_BI, cx.fn.qual, False, f"{q}: no builtins set, Python supplies all of its own", s.trace_list())
                    return
                ok = B not in (EV1, EV2)
                o.add(R_REPL, cx.fn.qual, ok, f"{q}: builtins come from the executor" if ok else f"{q}: builtins come from {show(B)}", () if ok else s.trace_list())
                if not ok:
                    return
                ok = B not in before
                b = s.heap.get(B)
                o.add(R_FRESH, cx.fn.qual, ok if b is not None else None, f"{q}: builtins of its own" if ok else f"{q}: the builtins dictionary is shared with other runs", () if ok else s.trace_list())
                if b is None or b.base is not None or b.bag:
                    o.add(R_BI, cx.fn.qual, None, f"{q}: builtins not tracked: {short(I.freeze(B, s), 80)}")
                    return
                for k, x in b.items:
                    if x is None:
                        continue
                    nm = k.args[1] if k.op == "c" else None
                    if x is HF:
                        ok = nm == "host_fn"
                    elif x in (EV1, EV2, GX, GY):
                        ok = False
                    else:
                        bn = builtin_name(x)
                        ok = None if bn is None and x.op != "ext" and nm in SAFE else nm in SAFE and bn in SAFE
                        if x.op == "c" and nm in SAFE:
                            ok = True
                    o.add(R_BI, cx.fn.qual, ok, f"{nm}" if ok else f"{nm} -> {short(x, 60)} is among a snippet's builtins", () if ok else s.trace_list())
                for nm, x in env_.items():
                    if nm == "__builtins__":
                        continue
                    ok = x in (VFS, GX, GY) or x.op == "c"
                    if not ok:
                        ok = False if x.op in ("ext", "mod", "module") and (x.args[0] if isinstance(x.args[0], str) else "").replace("builtins.", "") not in SAFE else None
                    o.add(R_BI, cx.fn.qual, ok, f"global {nm}" if ok else f"global {nm} -> {short(x, 60)}", () if ok else s.trace_list())
                if full:
                    ok = "x" in env_ and "y" in env_ and "host_fn" in {k.args[1] for k, x in b.items if k.op == "c"}
                    o.add(R_BI, cx.fn.qual, ok, "supplied names are there" if ok else "supplied names are missing", () if ok else s.trace_list())
            names = [a.arg for a in m.params[1:] + m.kwonly]
            args, kw = param_syms(m, over={x: ex for x in names if "global" in x or "extra" in x})
            r = run(m, S, args, kw, s0.copy(), mon, inline=True)
            o.took(r)
            n += len(hits)
            shared = {k: v for k, v in before.items() if v.kind in ("dict", "seq")}
            for v, s in list(r.rets) + list(r.raises):
                bad = [k for k, x in shared.items() if k in s.heap and s.heap[k] != x]
                o.add(R_KEEP, m.qual, not bad, "shared dictionaries are left alone" if not bad else f"{show(bad[0])[:60]} is changed by a run", () if not bad else s.trace_list())
                if s.heap.get(S) is not None and s.heap[S].f != before[S].f:
                    o.add(R_KEEP, m.qual, False, "the executor's own attributes are changed by a run", s.trace_list())
            for v, s in r.rets:
                rv = r.I.freeze(v, s)
                d = dict(rv.args[1]) if rv.op == "instv" else {}
                t = d.get("stdout")
                ok = None if t is None else sink[0] is not None and sink[0] in subterms(t)
                o.add(R_OUT, m.qual, ok, "the captured output is returned" if ok else f"stdout of the result is {short(t, 60) if t is not None else '?'}", () if ok else s.trace_list())
        o.add(R_BI, m.qual, bool(n) or None, f"{n} evaluations of the snippet")
    return go


def _only(o):
    """No other code of the package evaluates Python text."""
    e = env()
    n = 0
    import ast
    for path, mod in e.prog.modules.items():
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("exec", "eval", "__import__"):
                n += 1
                own = method("PythonExecutor", "run").module
                ok = mod is own or path == own
                o.add(R_ONLY, f"{path}:{x.lineno}", ok, f"{x.func.id} at {path}:{x.lineno}")
    o.add(R_ONLY, "sandfs", True, f"{n} sites")


@check("C20", "constant propagation through the executor: the dictionaries handed to exec are computed on every path, their builtins compared name by name with the harmless set, and their "
       "identities compared with every object that outlives the run (alias analysis)")
def c20(tier):
    return [("plain", _c20("plain")), ("with everything supplied", _c20("full")), ("other evaluations", _only)]
