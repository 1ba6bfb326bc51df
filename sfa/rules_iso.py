"""C01: sandbox work never touches the host."""
from __future__ import annotations
import ast
from .util import *
from .report import check
from .state import State
from .rules_sview import probe

R_API = "no path of a filesystem call reaches a host operation"
R_CMD = "no path of a sandboxed command reaches a host operation, unless host fallback is on"
R_EXEC = "the dispatcher asks for a host process only when host fallback is on"
R_NEW = "constructing an object has no host effect"
R_OFF = "host fallback is off unless it is asked for, and then exactly as asked"
R_IMP = "importing the package has no host effect"

# explicit bridges named by the property
BRIDGE_API = ("export_to_path", "materialize")
BRIDGE_CMD = ("host", "bash", "sh")
BRIDGE_CLS = ("FileSystemAdapter",)

DISK = ("subprocess", "os", "tempfile", "shutil", "socket", "socketserver", "ssl", "urllib.request", "http", "requests", "httpx", "ctypes", "multiprocessing", "glob", "importlib", "pty", "webbrowser",
        "ftplib", "smtplib", "poplib", "imaplib", "telnetlib", "xmlrpc", "sqlite3", "dbm", "shelve", "linecache", "fileinput", "codecs.open", "io.open", "io.FileIO", "io.open_code", "tokenize.open", "zipfile", "tarfile", "gzip.open", "bz2.open", "lzma.open",
        "runpy", "mmap", "logging.FileHandler", "logging.handlers", "pathlib.Path.cwd", "pathlib.Path.home", "asyncio.create_subprocess_exec", "asyncio.create_subprocess_shell", "asyncio.open_connection", "asyncio.start_server", "pkgutil", "filecmp", "posix", "nt", "pwd", "grp")
# parts of those modules that only look at the process or at texts
PURE = ("os.environ", "os.environb", "os.getenv", "os.sep", "os.linesep", "os.altsep", "os.pathsep", "os.curdir", "os.pardir", "os.devnull", "os.name", "os.fspath", "os.fsencode", "os.fsdecode", "os.getpid", "os.urandom", "os.cpu_count", "os.getcwd",
        "os.path.join", "os.path.normpath", "os.path.basename", "os.path.dirname", "os.path.split", "os.path.splitext", "os.path.splitdrive", "os.path.isabs", "os.path.commonpath", "os.path.commonprefix", "os.path.normcase", "os.path.relpath", "os.path.abspath",
        "os.path.expanduser", "os.path.expandvars", "os.path.sep", "os.PathLike", "os.error", "shutil.get_terminal_size", "glob.has_magic", "glob.escape", "tempfile.gettempprefix")
BUILTIN = ("open", "__import__")


def touches(op):
    """Does this external operation reach disk, processes or the network?"""
    if op in BUILTIN:
        return True
    if op.startswith("Path."):
        return True
    if any(op == p or op.startswith(p + ".") for p in PURE):
        return False
    return any(op == m or op.startswith(m + ".") for m in DISK)


def fallback_fields():
    r = run_new("SandboxShell")
    out = set()
    for v, s in r.rets:
        for k, x in s.heap[v].f.items():
            fz = r.I.freeze(x, s)
            if any(t.op == "sym" and t.args[0] == "host_fallback" for t in subterms(fz)):
                out.add(k)
    if not out:
        for x in ast.walk(method("SandboxShell", "__init__").node):
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and any(isinstance(y, ast.Name) and y.id == "host_fallback" for y in ast.walk(x.value)):
                out |= {t.attr for t in (x.targets if isinstance(x, ast.Assign) else [x.target]) if isinstance(t, ast.Attribute)}
    if not out:
        raise AnchorError("the constructor keeps no host-fallback setting")
    return out, r


def on_fact(F, fields):
    for f in fields:
        a = mk("attr", SHELL, f, ty=BOOL)
        if F(a) is True or F(mk("truthy", a, ty=BOOL)) is True:
            return True
        o = F.st.heap.get(SHELL)
        if o is not None and f in o.f:
            x = o.f[f]
            if x is TRUE or F(x) is True or F(mk("truthy", x, ty=BOOL)) is True:
                return True
    return False


def watch(o, rule, allowed):
    bad = []

    def mon(I, kind, st, cx, at, d):
        if kind == "bridge":
            what = f"host runner {d['fn']}"
        elif kind in ("host", "ext") and touches(str(d["op"])):
            what = str(d["op"])
        else:
            return
        if allowed is not None and on_fact(Facts(I, st), allowed):
            return
        bad.append(1)
        o.add(rule, cx.fn.qual if cx.fn is not None else "?", False, f"{what} at {I.loc(at, cx)}", st.trace_list())
    mon.bad = bad
    return mon


def _api(m):
    def go(o):
        mon = watch(o, R_API, None)
        r = run_vfs(m, mon, opts={"loop_limit": 6}, rec_limit=1)
        o.took(r)
        if not mon.bad:
            o.add(R_API, m.qual, True, f"{len(r.rets) + len(r.raises)} path classes")
    return go


def _other(m):
    def go(o):
        st = State()
        vfs_state(st)
        selfv = None if m.cls is None or m.is_static else sym("object", inst_ty(m.cls.name))
        args, kw = param_syms(m, skip_self=selfv is not None)
        mon = watch(o, R_API, None)
        r = run(m, selfv, args, kw, st, mon, {"loop_limit": 4}, inline=True, rec_limit=1)
        o.took(r)
        if not mon.bad:
            o.add(R_API, m.qual, True, f"{len(r.rets) + len(r.raises)} path classes")
    return go


def _cmd(n, m):
    def go(o):
        ff, _ = fallback_fields()
        mon = watch(o, R_CMD, ff)
        r = run_handler(m, mon, opts=SHOPTS)
        o.took(r)
        if not mon.bad:
            o.add(R_CMD, f"{m.qual} ({n})", True, f"{len(r.rets) + len(r.raises)} path classes")
    return go


def _exec(tier):
    def go(o):
        ff, _ = fallback_fields()
        mon = watch(o, R_EXEC, ff)
        hard = lambda a: a.op in ("exists", "vis") or any(t.op == "attr" and t.args[0] is SHELL and t.args[1] in ff for t in subterms(a))
        r = exec_run(mon, tier, soft=lambda a: not hard(a))
        o.took(r)
        if not mon.bad:
            o.add(R_EXEC, "SandboxShell.exec", True, f"{len(r.rets) + len(r.raises)} path classes")
    return go


def _new(o):
    for c in sorted(env().prog.classes):
        cl = env().prog.classes[c]
        if c in BRIDGE_CLS or cl.module.name.endswith("cli"):
            continue
        if method(c, "__init__", need=False) is None and method(c, "__post_init__", need=False) is None:
            continue
        mon = watch(o, R_NEW, None)
        r = run_new(c, mon=mon)
        o.took(r)
        if not mon.bad:
            o.add(R_NEW, c, True, f"{len(r.rets) + len(r.raises)} path classes")


def _off(o):
    ff, r = fallback_fields()
    o.took(r)
    for v, s in r.rets:
        for f in ff:
            x = r.I.freeze(s.heap[v].f.get(f, CNONE), s)
            while x.op in ("bool", "truthy") and len(x.args) == 1:
                x = x.args[0]
            ok = x.op == "sym" and x.args[0] == "host_fallback"
            F = Facts(r.I, s)
            if not ok and x.op == "c":
                g = sym("host_fallback", BOOL)
                ok = F(g) is bool(x.args[1]) or F(mk("truthy", g, ty=BOOL)) is bool(x.args[1])
            o.add(R_OFF, "SandboxShell.__init__", ok, f"field {f} holds {short(x)}", () if ok else s.trace_list())
    init = method("SandboxShell", "__init__")
    st = State()
    vfs_state(st)
    r = run(probe("def caller(vfs):\n    return SandboxShell(vfs)\n", init), None, [VFS], {}, st, None, {}, inline=True)
    o.took(r)
    for v, s in r.rets:
        for f in ff:
            x = s.heap[v].f.get(f)
            ok = x is FALSE or x is CNONE
            o.add(R_OFF, "SandboxShell.__init__", ok, f"without the argument, field {f} is {short(x) if x is not None else 'missing'}", () if ok else s.trace_list())
    # nothing but the constructor stores the setting
    n = 0
    for fn in env().prog.fns:
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in ff and fn.outer is None:
                n += 1
                ok = fn.cls is not None and fn.name in ("__init__", "__post_init__")
                o.add(R_OFF, fn.qual, ok or None if not ok and fn.cls is not None and fn.name.startswith("set_") else ok, f"{x.attr} stored at line {x.lineno}")
    o.add(R_OFF, "sandfs", n > 0 or None, f"{n} stores of the setting")


def _imports(o):
    """Calls made while a module is executed: module statements, class bodies, decorators and defaults."""
    e = env()
    eff = e.eff
    n = 0

    def name_of(mod, f):
        d = dotted_name(f)
        if d is None:
            return None, None
        v = e.prog.lookup(mod, d.split(".")[0])
        if v and v[0] == "ext":
            return v[1] + d[len(d.split(".")[0]):], None
        if v and v[0] == "fn":
            return None, v[1]
        if v and v[0] == "cls":
            return None, v[1].find("__init__") or v[1].find("__post_init__")
        if d in BUILTIN:
            return d, None
        return None, None

    def run_time(tree):
        todo = list(tree.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                todo.extend(x.decorator_list + x.args.defaults + [d for d in x.args.kw_defaults if d is not None])
                continue
            if isinstance(x, ast.Lambda):
                todo.extend(x.args.defaults)
                continue
            if isinstance(x, ast.If) and ast.unparse(x.test) in ("TYPE_CHECKING", "False", "typing.TYPE_CHECKING", "__name__ == '__main__'"):
                todo.extend(x.orelse)
                continue
            yield x
            todo.extend(ast.iter_child_nodes(x))

    def host_in(fn):
        seen, todo = set(), [fn]
        while todo:
            g = todo.pop()
            if g in seen or g not in eff.calls:
                continue
            seen.add(g)
            for x in ast.walk(g.node):
                if isinstance(x, ast.Call):
                    d, _ = name_of(g.module, x.func)
                    if d and touches(d):
                        return d
            todo.extend(eff.calls[g])
        return None
    for name, mod in sorted(e.prog.modules.items()):
        if mod.tree is None:
            continue
        for x in run_time(mod.tree):
            if not isinstance(x, ast.Call):
                continue
            n += 1
            d, fn = name_of(mod, x.func)
            why = d if d and touches(d) else host_in(fn) if fn is not None else None
            if why is None and isinstance(x.func, ast.Attribute) and x.func.attr in ("read_text", "write_text", "read_bytes", "write_bytes", "mkdir", "touch", "unlink", "exists", "is_file", "is_dir", "iterdir", "resolve", "stat", "open"):
                why = ast.unparse(x.func)
            o.add(R_IMP, name, why is None, f"line {x.lineno}: {ast.unparse(x.func)[:50]}" + (f" reaches {why}" if why else ""))
    o.add(R_IMP, "sandfs", n > 0 or None, f"{n} calls made on import in {len(e.prog.modules)} modules")


def dotted_name(e):
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return ".".join([e.id] + out[::-1])
    return None


@check("C01", "effect analysis: every path class of every filesystem method, sandboxed command, helper class and constructor is followed and must contain no disk, process or network operation; "
       "in the dispatcher such an operation must be dominated by the host-fallback setting; calls made on import are resolved through the call graph")
def c01(tier):
    e = env()
    t = [("constructors", _new), ("fallback setting", _off), ("imports", _imports), ("exec", _exec(tier))]
    vfs = e.prog.classes["VirtualFileSystem"]
    for n, m in sorted(vfs.methods.items()):
        if n.startswith("_") or n in BRIDGE_API:
            continue
        t.append((f"vfs.{n}", _api(m)))
    for n, m in sorted(handlers().items()):
        if n not in BRIDGE_CMD:
            t.append((f"shell.{n}", _cmd(n, m)))
    for n, m in sorted(e.prog.classes["SandboxShell"].methods.items()):
        if not n.startswith("_") and n != "exec":
            t.append((f"shell method {n}", _cmd(n, m)))
    for c in sorted(e.prog.classes):
        cl = e.prog.classes[c]
        if c in BRIDGE_CLS or c in ("VirtualFileSystem", "SandboxShell") or cl.module.name.endswith("cli"):
            continue
        for n, m in sorted(cl.methods.items()):
            if not n.startswith("_") and m.cls is cl:
                t.append((f"{c}.{n}", _other(m)))
    for f in e.prog.fns:
        if f.cls is None and f.outer is None and not f.name.startswith("_") and not f.module.name.endswith("cli") and not f.is_lambda:
            t.append((f"function {f.name}", _other(f)))
    return t
