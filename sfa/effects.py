"""Effect summaries: which functions touch analysis-relevant state (directly or through callees)."""
import ast
from .prog import Program, Fn, _own_walk

CORE = ["VirtualNode", "VirtualFile", "VirtualDirectory", "NodePolicy", "VisibilityView", "VirtualFileSystem", "SandboxShell",
        "FullTextIndex", "StorageAdapter", "MemoryStorageAdapter", "FileSystemAdapter", "PythonExecutor", "InboxRecorder"]
TRACKED = set(CORE) | {"ProvidedNode", "DirEntry", "SearchResult", "NodeSnapshot", "VFSSnapshot", "CommandResult", "WriteEvent", "PathEvent", "StorageEntry"}
NEUTRAL = {"name", "parent", "root", "cwd", "vfs", "_search_view_prefix", "path"}

HOST_MODULES = ("subprocess", "os", "tempfile", "shutil", "socket", "urllib.request", "http", "pathlib", "io", "ctypes", "multiprocessing",
                "glob", "sys", "importlib", "signal", "pty", "asyncio", "webbrowser", "ftplib", "smtplib", "pickle", "sqlite3")


class Effects:
    def __init__(self, prog: Program):
        self.prog = prog
        self.rel_attrs = set()
        for c in CORE:
            k = prog.classes.get(c)
            if k:
                self.rel_attrs |= set(k.ftypes)
        self.rel_attrs -= NEUTRAL
        self.by_method: dict[str, list[Fn]] = {}
        for c in prog.classes.values():
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)
        self.proc, self.cmds = {}, {}
        self.registry = self._registry()
        self.direct, self.calls, self.raises, self.loops, self.size, self.cwd, self.makes = {}, {}, {}, {}, {}, {}, {}
        for f in prog.fns:
            if f.outer is None:
                self._scan(f)
        self.trans, self._io = {}, {}
        for f in self.direct:
            self.trans[f] = self._close(f)

    def _registry(self):
        """Fields of the shell that hold the command handlers."""
        c = self.prog.classes.get("SandboxShell")
        m = c.find("register_command") if c else None
        out = set()
        if m is not None:
            ps = {a.arg for a in m.params + m.kwonly if a.annotation is None or ast.unparse(a.annotation) not in ("str", "bool")} - {"self"}
            for n in ast.walk(m.node):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ps:
                    out.add(n.targets[0].value.attr)
        return out

    def _scan(self, f):
        rel = f.is_gen or f.is_ctx
        calls, raises = set(), set()
        loops = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                if n.attr in self.rel_attrs and not (isinstance(n.value, ast.Name) and n.value.id in ("re", "ast")):
                    rel = True
                if n.attr == "cwd":
                    self.cwd[f] = True
                if n.attr in self.registry:
                    self.cmds[f] = True
            if isinstance(n, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                loops = True
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)):
                rel = True
            if isinstance(n, ast.Call):
                fu = n.func
                if isinstance(fu, ast.Name):
                    v = self.prog.lookup(f.module, fu.id)
                    if v and v[0] == "fn":
                        calls.add(v[1])
                    elif v and v[0] == "cls":
                        c = v[1]
                        self.makes.setdefault(f, set()).add(c.name)
                        i = c.find("__init__")
                        if i:
                            calls.add(i)
                    elif v and v[0] == "ext":
                        if self.is_host(v[1]):
                            rel = True
                        if is_proc(v[1]):
                            self.proc[f] = True
                    elif fu.id in ("open", "exec", "eval", "input", "__import__", "compile", "print"):
                        rel = True
                elif isinstance(fu, ast.Attribute):
                    d = dotted(fu)
                    if d:
                        v = self.prog.lookup(f.module, d.split(".")[0])
                        if v and v[0] == "ext" and self.is_host(v[1] + d[len(d.split(".")[0]):]):
                            rel = True
                        if v and v[0] == "ext" and is_proc(v[1] + d[len(d.split(".")[0]):]):
                            self.proc[f] = True
                    ext = d and (v := self.prog.lookup(f.module, d.split(".")[0])) and v[0] == "ext"
                    sup = isinstance(fu.value, ast.Call) and isinstance(fu.value.func, ast.Name) and fu.value.func.id == "super"
                    for m in self.by_method.get(fu.attr, ()):
                        if not ext and not (sup and f.cls is not None and m.cls not in f.cls.mro()[1:]):
                            calls.add(m)
                    if fu.attr in ("write_text", "read_text", "unlink", "mkdir", "rglob", "resolve", "write_bytes", "read_bytes") and fu.attr not in self.by_method:
                        rel = True
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                nm = ast.unparse(e).split(".")[-1]
                if self.prog.is_exc_class(nm):
                    raises.add(nm)
            if isinstance(n, ast.Call) and ast.unparse(n.func).startswith("shlex."):
                raises.add("ValueError")
        self.direct[f], self.calls[f], self.raises[f], self.loops[f] = rel, calls, raises, loops
        self.size[f] = sum(1 for n in ast.walk(f.node) if isinstance(n, ast.stmt)) - 1

    @staticmethod
    def is_host(d):
        if d.startswith("pathlib.Pure") or d.startswith("os.path") or d in ("os.sep", "os.linesep", "sys.stdout") or d == "io.StringIO":
            return False
        return any(d == m or d.startswith(m + ".") for m in HOST_MODULES) and d not in ("pathlib.Path",)

    def _close(self, f):
        seen, st = set(), [f]
        rel, raises, loops, cwd, proc, cmds = False, set(), False, False, False, False
        makes = set()
        while st:
            g = st.pop()
            if g in seen or g not in self.direct:
                continue
            seen.add(g)
            rel |= self.direct[g]
            proc |= self.proc.get(g, False)
            cmds |= self.cmds.get(g, False)
            raises |= self.raises[g]
            loops |= self.loops[g]
            makes |= self.makes.get(g, set())
            cwd |= self.cwd.get(g, False)
            if g.name != "path":
                st.extend(self.calls[g])
        return dict(rel=rel, raises=raises, loops=loops, cwd=cwd, proc=proc, cmds=cmds, makes=makes, n=len(seen))

    def bridge(self, f):
        """Starts a host process, itself or in the tree it materialises for it, and does not reach the command dispatcher: the host bridge."""
        t = self.trans.get(f)
        return bool(t) and t["proc"] and not t["cmds"] and (self.proc.get(f, False) or any(g.name in ("materialize", "export_to_path") for g in self.calls.get(f, ())))

    def index_only(self, f):
        """A procedure that walks the tree only to refill the index: no stores to attributes or subscripts."""
        if f in self._io:
            return self._io[f]
        r = False
        if f.cls is not None and f.outer is None and self.loops.get(f) and not f.is_gen and f.cls.name != "FullTextIndex":
            calls = {n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
            idx = any(self.by_method.get(c) and all(m.cls.name == "FullTextIndex" for m in self.by_method[c]) for c in calls)
            stores = any(isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and not
                         (isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name)) for n in ast.walk(f.node))
            rets = any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(f.node))
            own = not any(c in self.by_method and any(m.cls.name in ("VirtualDirectory", "VirtualFile", "VirtualFileSystem") and self._mutates(m)
                                                        for m in self.by_method[c]) for c in calls)
            r = idx and not stores and not rets and own
        self._io[f] = r
        return r

    def _mutates(self, m):
        for n in ast.walk(m.node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and m.name not in ("ensure_loaded",):
                return True
        return False

    norms = cands = frozenset()

    def sliceable(self, f):
        t = self.trans.get(f)
        if f in self.norms:
            return True
        if t is None or t["rel"] or f in self.cands:
            return False
        if f.name == "__init__" or f.is_static and t["makes"]:
            return False
        if t["makes"] & TRACKED:
            return False
        return self.loops[f] or self.size[f] > 14


def is_proc(d):
    return d.split(".")[0] in ("subprocess", "pty", "multiprocessing") or d.startswith(
        ("os.system", "os.popen", "os.exec", "os.spawn", "os.posix_spawn", "os.fork", "asyncio.create_subprocess", "asyncio.subprocess"))


def dotted(e):
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        out.append(e.id)
        return ".".join(reversed(out))
    return None
