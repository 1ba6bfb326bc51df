"""Entry states: a symbolic filesystem / shell and the entry points analysed from them."""
from __future__ import annotations
import ast
from .terms import *
from .prog import Program
from .effects import Effects
from .interp import Interp, Cx
from .state import State, Obj

_ENV = None


class Env:
    def __init__(self, root=None):
        self.prog = Program(root) if root else Program()
        self.eff = Effects(self.prog)
        for c in ("VirtualFileSystem", "VirtualDirectory", "VirtualFile", "VirtualNode", "NodePolicy", "VisibilityView", "SandboxShell",
                  "CommandResult", "FullTextIndex"):
            if c not in self.prog.classes:
                raise AnchorError(f"class {c} not found")


class AnchorError(Exception):
    pass


def env():
    global _ENV
    if _ENV is None:
        _ENV = Env()
        find_normalisers(_ENV)
    return _ENV


# spellings a path normaliser is told apart by
CASES = ["", None, ".", "..", "a", "a/b", "./a", "../x", "a/..", "a/../b", "../../../q", "/", "/..", "/a", "/a/", "/a//b/./c/..", "/a/../../b", "/./a", "...", "..a/b..", "/.hidden/.", "/a/b/c/../..",
         "a/./b/../c/", "/ ", " a", "//", "/~", "~/x", "-", "a\\b", "/a/*", "A/b"]


def norm_oracle(raw, cwd):
    if raw is None or raw == "":
        raw = cwd
    if not raw.startswith("/"):
        raw = cwd + "/" + raw
    out = []
    for x in raw.split("/"):
        if x == "..":
            out[-1:] = []
        elif x not in ("", "."):
            out.append(x)
    return "/" + "/".join(out)


def norm_cases(m):
    """(spelling, current directory, argument, wanted path, run) for every case."""
    p = m.params[1].arg
    ty = repr(env().prog.ty(m.params[1].annotation)).lower()
    for cwd in ("/c/d", "/"):
        def setup(st):
            st.heap[VFS].f["cwd"] = node(pconst(cwd))
        for raw in CASES:
            if raw is None and "none" not in ty:
                continue
            forms = [CNONE] if raw is None else [const(raw)]
            if raw and "path" in ty and not raw.startswith("./") and "/./" not in raw and "//" not in raw and not raw.endswith("/"):
                forms.append(pconst(raw))
            for a in forms:
                yield raw, cwd, a, pconst(norm_oracle(raw, cwd)), run_vfs(m, None, over={p: a}, setup=setup, inline=True, opts={"exact": 1})


def find_normalisers(e):
    """The methods that turn any spelling of a path into its normal form, decided by their own results."""
    cands = [m for m in e.prog.classes["VirtualFileSystem"].methods.values()
             if m.outer is None and m.ret_ann is not None and e.prog.ty(m.ret_ann) == PATH and len(m.params) == 2 and not m.kwonly and not m.is_static
             and e.eff.trans.get(m) and e.eff.trans[m]["cwd"]]
    cands = [m for m in cands if not e.eff.trans[m]["rel"]] or cands
    e.eff.cands = frozenset(cands)
    good = []
    for m in cands:
        if all(len(r.rets) == 1 and not r.raises and r.I.freeze(*r.rets[0]) is want for raw, cwd, a, want, r in norm_cases(m)):
            good.append(m)
    # where none is right, C23 says so; the other checks go on as if they were
    e.eff.norm_ok = bool(good)
    e.eff.norms = frozenset(good or cands)


def method(cls, name, need=True):
    c = env().prog.classes.get(cls)
    m = c.find(name) if c else None
    if m is None and need:
        raise AnchorError(f"{cls}.{name} not found")
    return m


# --------------------------------------------------------------------- states
VFS = sym("vfs", inst_ty("VirtualFileSystem"))
SHELL = sym("shell", inst_ty("SandboxShell"))
VIEW = sym("view", inst_ty("VisibilityView"))


def init_defaults(cls):
    """Fields of `cls` that __init__ sets to None or an empty container."""
    m = method(cls, "__init__")
    out = {}
    for n in ast.walk(m.node):
        tgt = val = None
        if isinstance(n, ast.AnnAssign):
            tgt, val = n.target, n.value
        elif isinstance(n, ast.Assign) and len(n.targets) == 1:
            tgt, val = n.targets[0], n.value
        if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self":
            if isinstance(val, ast.Constant) and val.value is None:
                out[tgt.attr] = "none"
            elif isinstance(val, (ast.List, ast.Dict)) and not (val.elts if isinstance(val, ast.List) else val.keys):
                out[tgt.attr] = "list" if isinstance(val, ast.List) else "dict"
            elif isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id in ("dict", "list", "set") and not val.args:
                out[tgt.attr] = val.func.id
    return out


def field_kinds():
    """Roles of the optional parts of the filesystem, found by type."""
    c = env().prog.classes["VirtualFileSystem"]
    d = init_defaults("VirtualFileSystem")
    out = {}
    for f, k in d.items():
        s = repr(c.ftypes.get(f))
        if "StorageAdapter" in s:
            out[f] = "mounts"
        elif "FullTextIndex" in s:
            out[f] = "index"
        elif k in ("list", "dict"):
            out[f] = "hooks"
        elif "path" in s:
            out[f] = "sview"
        else:
            out[f] = "sctx"
    return out


def vfs_state(st, on=()):
    """A filesystem with an arbitrary tree; optional parts are absent unless named in `on`."""
    kinds = field_kinds()
    d = init_defaults("VirtualFileSystem")
    f = {}
    for name, kind in kinds.items():
        if kind in on:
            continue
        if d[name] == "none":
            f[name] = CNONE
        else:
            f[name] = st.alloc(f"init:{name}", Obj("dict" if d[name] == "dict" else "seq", None if d[name] == "dict" else "list"))
    st.heap[VFS] = Obj("inst", "VirtualFileSystem", f)
    return VFS


def attr(t, name, ty=ANY):
    return mk("attr", t, name, ty=ty)


def shell_state(st, on=()):
    vfs_state(st, on)
    f = {}
    c = env().prog.classes["SandboxShell"]
    for name, ty in c.ftypes.items():
        s = repr(ty)
        if "'VirtualFileSystem'" in s and "dict" not in s:
            f[name] = VFS
        elif "'VisibilityView'" in s and "dict" not in s:
            f[name] = CNONE if "noview" in on else VIEW
    st.heap[SHELL] = Obj("inst", "SandboxShell", f)
    return SHELL


def context(st, on=()):
    """A CommandContext as the dispatcher builds it."""
    c = env().prog.classes.get("CommandContext")
    if c is None:
        raise AnchorError("CommandContext not found")
    ctx = sym("ctx", inst_ty("CommandContext"))
    f = {}
    for name, ty in c.ftypes.items():
        s = repr(ty)
        if "'VirtualFileSystem'" in s:
            f[name] = VFS
        elif "'VisibilityView'" in s:
            f[name] = CNONE if "noview" in on else VIEW
    st.heap[ctx] = Obj("inst", "CommandContext", f)
    return ctx


class Run:
    def __init__(self, I, rets, raises):
        self.I, self.rets, self.raises = I, rets, raises


def param_syms(fn, skip_self=True, over=None):
    p = env().prog
    ps = fn.params[1:] if skip_self else fn.params
    over = over or {}
    args = []
    for a in ps:
        args.append(over.get(a.arg, sym(a.arg, p.ty(a.annotation))))
    kw = {a.arg: over.get(a.arg, sym(a.arg, p.ty(a.annotation))) for a in fn.kwonly}
    return args, kw


NEVER = {"SandboxShell._parse_search_path"}


def run(fn, selfv, args, kw, st, mon=None, opts=None, prims=None, drain=True, inline=False, **ikw):
    e = env()
    I = Interp(e.prog, e.eff, mon, prims=prims, **({"never_slice": NEVER} | ikw))
    I.opts.update(opts or {})
    I.views = bool(I.opts.get("views"))
    sink = []
    cx = Cx(None, None, fn.module, sink)
    res = I.call_fn(fn, selfv, list(args), dict(kw), st, cx, fn.node, force_inline=inline)
    if drain:
        out = []
        for v, s in res:
            if v.op == "gen":
                # run the generator to its end, collecting what it yields
                acc = s.alloc("drain", Obj("seq", "list"))
                I.roots.append(acc)

                def body(x, s2):
                    o = s2.heap[acc]
                    s2.heap[acc] = o.with_(items=o.items + (x,))
                    return [("N", None, s2)]
                body.frames = []
                for _, _, s2 in I.iterate(v, s, cx, "drain", body):
                    out.append((acc, s2))
                I.roots.pop()
            elif v.op == "ctxm":
                def wbody(s2, c2):
                    return [("N", None, s2)]
                for k, _, s2 in I.enter(v, None, fn.node, s, cx, wbody):
                    out.append((CNONE, s2))
            else:
                out.append((v, s))
        res = out
    return Run(I, res, sink)


def vfs_methods():
    c = env().prog.classes["VirtualFileSystem"]
    return [m for n, m in sorted(c.methods.items()) if not n.startswith("_") and m.outer is None]


_H = None


def handlers():
    """{command name: method} read off the registry that SandboxShell.__init__ builds."""
    global _H
    if _H is not None:
        return _H
    e = env()
    out = {}

    def mon(I, kind, st, cx, at, d):
        if kind == "setitem" and d["key"].op == "c" and d["val"].op == "bound":
            out[d["key"].args[1]] = d["val"].args[0]
    fn = method("SandboxShell", "__init__")
    st = State()
    vfs_state(st)
    args, kw = param_syms(fn, over={"vfs": VFS})
    c = e.prog.classes["SandboxShell"]
    obj = st.alloc("shellobj", Obj("inst", "SandboxShell", {}))
    run(fn, obj, args, kw, st, mon)
    if len(out) < 10:
        raise AnchorError(f"only {len(out)} command handlers found in the registry")
    _H = dict(sorted(out.items()))
    return _H


def run_handler(m, mon=None, on=(), opts=None, setup=None, **kw):
    st = State()
    shell_state(st, on)
    ctx = context(st, on)
    args = []
    for i, p in enumerate(m.params[1:]):
        ty = env().prog.ty(p.annotation)
        if "CommandContext" in repr(ty):
            args.append(ctx)
        else:
            args.append(sym(p.arg, ty))
    if setup:
        setup(st)
    return run(m, SHELL, args, {}, st, mon, opts, **kw)


def run_vfs(m, mon=None, on=(), opts=None, over=None, setup=None, **kw):
    st = State()
    vfs_state(st, on)
    args, kws = param_syms(m, over=over)
    if setup:
        setup(st)
    return run(m, VFS, args, kws, st, mon, opts, **kw)


def run_new(cls, over=None, mon=None, opts=None, on=(), given=None):
    """Construct an object of a repository class with symbolic arguments."""
    from .models import construct
    e = env()
    fn = method(cls, "__init__", need=False)
    st = State()
    vfs_state(st, on)
    I = Interp(e.prog, e.eff, mon, prims=None, never_slice=NEVER)
    I.opts.update(opts or {})
    sink = []
    if fn is not None and fn.cls.name == cls:
        args, kw = param_syms(fn, over=over)
        at = fn.node
        module = fn.module
    else:
        c = e.prog.classes[cls]
        args, kw = [], dict(over or {})
        at, module = c.node, c.module
    cx = Cx(None, None, module, sink)
    res = construct(I, cls, args, kw, st, cx, at)
    return Run(I, res, sink)


NODE = node(sym("np", PATH))


def run_node(m, cls, mon=None, opts=None, over=None, setup=None, selfv=None, **kw):
    """A method of a node class, its own body interpreted even where it is a primitive elsewhere."""
    st = State()
    vfs_state(st)
    n = selfv if selfv is not None else NODE
    if n.op == "node":
        st.facts[mk("isinst", n, cls, ty=BOOL)] = True
    args, kws = param_syms(m, over={"vfs": VFS} | (over or {}))
    if setup:
        setup(st)
    return run(m, n, args, kws, st, mon, opts, inline=True, **kw)
