"""The resolved program: modules, classes, functions, types and effect summaries of /repo/sandfs."""
from __future__ import annotations
import ast, os, pathlib, hashlib
from .terms import ANY, STR, INT, BOOL, NONE, FLOAT, BYTES, PATH, HPATH, inst_ty


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, unparsable source)."""


class Fn:
    def __init__(self, name, qual, module, cls, node, outer=None):
        self.name, self.qual, self.module, self.cls, self.node, self.outer = name, qual, module, cls, node, outer
        self.decos = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.is_static = any(d.endswith("staticmethod") for d in self.decos)
        self.is_classm = any(d.endswith("classmethod") for d in self.decos)
        self.is_prop = any(d == "property" or d.endswith("cached_property") for d in self.decos)
        self.is_ctx = any(d.endswith("contextmanager") for d in self.decos)
        self.is_lambda = isinstance(node, ast.Lambda)
        self.is_gen = not self.is_lambda and _has_yield(node)
        a = node.args
        self.params = [p for p in a.posonlyargs + a.args]
        self.kwonly = list(a.kwonlyargs)
        self.vararg, self.kwarg = a.vararg, a.kwarg
        self.defaults = dict(zip([p.arg for p in self.params][len(self.params) - len(a.defaults):], a.defaults))
        for p, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if dflt is not None:
                self.defaults[p.arg] = dflt
        if self.is_lambda:
            self.body = [ast.Return(value=node.body, lineno=node.lineno, col_offset=node.col_offset)]
        else:
            self.body = node.body
        self.assigned = _assigned(self.body) | {p.arg for p in self.params + self.kwonly}
        for v in (self.vararg, self.kwarg):
            if v:
                self.assigned.add(v.arg)
        self.nonlocals = {n for s in _own_walk(self.body) if isinstance(s, (ast.Nonlocal, ast.Global)) for n in s.names}
        self.assigned -= self.nonlocals
        self.has_nested = any(isinstance(s, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp)) for s in ast.walk(node) if s is not node)
        self._live = None

    @property
    def ret_ann(self):
        return None if self.is_lambda else self.node.returns

    def __repr__(self):
        return f"<{self.qual}>"


def _own_walk(body):
    """Walk statements without entering nested function bodies."""
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def _has_yield(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_walk(fn.body))


def _assigned(body):
    out = set()
    for n in _own_walk(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    return out


class Cls:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.base_names = [ast.unparse(b) for b in node.bases]
        self.methods: dict[str, Fn] = {}
        self.fields: dict[str, ast.expr] = {}      # annotation per field
        self.ftypes: dict[str, tuple] = {}
        self.dc_fields: list = []                  # (name, default expr | None, factory expr | None)
        self.class_attrs: dict[str, ast.expr] = {}
        self.is_dc = any("dataclass" in ast.unparse(d) for d in node.decorator_list)
        self.frozen = any("dataclass" in ast.unparse(d) and "frozen=True" in ast.unparse(d).replace(" ", "") for d in node.decorator_list)
        self.bases: list[Cls] = []

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.ns: dict[str, tuple] = {}   # name -> ('fn',Fn)|('cls',Cls)|('ext',dotted)|('expr',ast)|('mod',name)


BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "ValueError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "LookupError": "Exception", "TypeError": "Exception", "AttributeError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "OSError": "Exception", "IOError": "Exception", "FileNotFoundError": "OSError", "PermissionError": "OSError",
    "FileExistsError": "OSError", "IsADirectoryError": "OSError", "NotADirectoryError": "OSError",
    "UnicodeError": "ValueError", "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
    "StopIteration": "Exception", "GeneratorExit": "BaseException", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "AssertionError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "OverflowError": "ArithmeticError", "re.error": "Exception",
    "NameError": "Exception", "EOFError": "Exception", "ImportError": "Exception", "SyntaxError": "Exception",
    "subprocess.SubprocessError": "Exception", "subprocess.TimeoutExpired": "subprocess.SubprocessError",
    "subprocess.CalledProcessError": "subprocess.SubprocessError", "MemoryError": "Exception",
}


class Program:
    def __init__(self, repo=None):
        self.repo = pathlib.Path(repo or os.environ.get("SFA_REPO", "/repo"))
        pkg = self.repo / "sandfs"
        if not pkg.is_dir():
            raise AnalysisError(f"package directory {pkg} not found")
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Cls] = {}
        self.fns: list[Fn] = []
        self.nested: dict[ast.AST, Fn] = {}
        dig = hashlib.sha256()
        for f in sorted(pkg.rglob("*.py")):
            rel = f.relative_to(self.repo).as_posix()
            src = f.read_text()
            dig.update(rel.encode() + b"\0" + src.encode() + b"\0")
            name = rel[:-3].replace("/", ".")
            if name.endswith(".__init__"):
                name = name[:-9]
            try:
                self.modules[name] = Module(name, rel, src)
            except SyntaxError as e:
                raise AnalysisError(f"cannot parse {rel}: {e}")
        self.digest = dig.hexdigest()
        for m in self.modules.values():
            self._scan(m, m.tree.body)
        for c in self.classes.values():
            for b in c.base_names:
                bc = self.classes.get(b.split(".")[-1])
                if bc:
                    c.bases.append(bc)
        self.aliases: dict[str, ast.expr] = {}
        for m in self.modules.values():
            for k, v in m.ns.items():
                if v[0] == "expr" and k not in self.aliases:
                    self.aliases[k] = v[1]
        for c in self.classes.values():
            self._fields(c)
        self._eff = None

    # -- scanning ----------------------------------------------------------
    def _scan(self, m, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                fn = self._fn(s, s.name, f"{m.path}:{s.name}", m, None)
                m.ns[s.name] = ("fn", fn)
            elif isinstance(s, ast.ClassDef):
                c = Cls(s.name, m, s)
                self.classes[s.name] = c
                m.ns[s.name] = ("cls", c)
                for x in s.body:
                    if isinstance(x, ast.FunctionDef):
                        c.methods[x.name] = self._fn(x, x.name, f"{m.path}:{s.name}.{x.name}", m, c)
                    elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                        c.fields[x.target.id] = x.annotation
                        fac = None
                        dflt = x.value
                        if isinstance(dflt, ast.Call) and ast.unparse(dflt.func).endswith("field"):
                            kw = {k.arg: k.value for k in dflt.keywords}
                            fac, dflt = kw.get("default_factory"), kw.get("default")
                        c.dc_fields.append((x.target.id, dflt, fac))
                        if x.value is not None:
                            c.class_attrs[x.target.id] = x.value
                    elif isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Name):
                                c.class_attrs[t.id] = x.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m.ns[(a.asname or a.name).split(".")[0]] = ("ext", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    tgt = None
                    if s.level:
                        base = m.name.split(".")
                        if not m.path.endswith("__init__.py"):
                            base = base[:-1]
                        base = base[: len(base) - (s.level - 1)]
                        tgt = ".".join(base + ([s.module] if s.module else []))
                    elif s.module and s.module.split(".")[0] == "sandfs":
                        tgt = s.module
                    m.ns[a.asname or a.name] = ("from", tgt, a.name) if tgt else ("ext", f"{s.module}.{a.name}")
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.ns[t.id] = ("expr", s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.ns[s.target.id] = ("expr", s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                for blk in ("body", "orelse", "finalbody"):
                    self._scan(m, getattr(s, blk, []) or [])
                for h in getattr(s, "handlers", []):
                    self._scan(m, h.body)

    def _fn(self, node, name, qual, m, cls, outer=None):
        fn = Fn(name, qual, m, cls, node, outer)
        self.fns.append(fn)
        self.nested[node] = fn
        for x in ast.walk(node):
            if x is node:
                continue
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x not in self.nested:
                nm = getattr(x, "name", "<lambda>")
                f2 = Fn(nm, f"{qual}.{nm}", m, cls, x, fn)
                self.nested[x] = f2
                if not f2.is_lambda:
                    self.fns.append(f2)
        return fn

    def lookup(self, m, name, seen=()):
        v = m.ns.get(name)
        if v is None:
            return None
        if v[0] == "from":
            tm = self.modules.get(v[1])
            if tm is not None:
                r = self.lookup(tm, v[2]) if (v[1], v[2]) not in seen else None
                if r is not None:
                    return r
                if f"{v[1]}.{v[2]}" in self.modules:
                    return ("mod", f"{v[1]}.{v[2]}")
            return ("ext", f"{v[1]}.{v[2]}")
        return v

    # -- types -------------------------------------------------------------
    def ty(self, ann, m=None, depth=0):
        if ann is None or depth > 6:
            return ANY
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return NONE
            if isinstance(ann.value, str):
                try:
                    return self.ty(ast.parse(ann.value, mode="eval").body, m, depth + 1)
                except SyntaxError:
                    return ANY
            return ANY
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return union(self.ty(ann.left, m, depth), self.ty(ann.right, m, depth))
        if isinstance(ann, (ast.Name, ast.Attribute)):
            n = ann.id if isinstance(ann, ast.Name) else ann.attr
            base = {"str": STR, "int": INT, "bool": BOOL, "float": FLOAT, "bytes": BYTES, "PurePosixPath": PATH, "PurePath": PATH,
                    "Path": HPATH, "Any": ANY, "object": ANY, "list": ("list", ANY), "dict": ("dict", ANY, ANY),
                    "set": ("set", ANY), "frozenset": ("set", ANY), "tuple": ("tuplev", ANY), "None": NONE,
                    "Callable": ("callable", "", ANY)}
            if n in base:
                return base[n]
            if n in self.classes:
                return inst_ty(n)
            if n in self.aliases:
                t = self.ty(self.aliases[n], m, depth + 1)
                if t[0] == "callable":
                    return ("callable", n, t[2])
                return t
            return ("ext", n)
        if isinstance(ann, ast.Subscript):
            h = ann.value
            n = h.id if isinstance(h, ast.Name) else getattr(h, "attr", "")
            sl = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            if n in ("list", "List", "Sequence", "MutableSequence", "deque"):
                return ("list", self.ty(sl[0], m, depth))
            if n in ("set", "frozenset", "Set", "FrozenSet", "AbstractSet"):
                return ("set", self.ty(sl[0], m, depth))
            if n in ("Iterable", "Iterator", "Generator", "Collection"):
                return ("iter", self.ty(sl[0], m, depth))
            if n in ("dict", "Dict", "Mapping", "MutableMapping", "OrderedDict", "defaultdict"):
                return ("dict", self.ty(sl[0], m, depth), self.ty(sl[1], m, depth) if len(sl) > 1 else ANY)
            if n in ("tuple", "Tuple"):
                if len(sl) == 2 and isinstance(sl[1], ast.Constant) and sl[1].value is Ellipsis:
                    return ("tuplev", self.ty(sl[0], m, depth))
                return ("tuple", tuple(self.ty(x, m, depth) for x in sl))
            if n == "Optional":
                return union(self.ty(sl[0], m, depth), NONE)
            if n == "Union":
                t = self.ty(sl[0], m, depth)
                for x in sl[1:]:
                    t = union(t, self.ty(x, m, depth))
                return t
            if n == "Callable":
                return ("callable", "", self.ty(sl[1], m, depth) if len(sl) > 1 else ANY)
            if n in ("Literal",):
                return STR
            if n in ("Final", "ClassVar", "Annotated"):
                return self.ty(sl[0], m, depth)
            if n in ("type", "Type"):
                return ANY
            return ("ext", n)
        return ANY

    def _fields(self, c):
        for k, a in c.fields.items():
            c.ftypes[k] = self.ty(a)
        for fn in c.methods.values():
            ptypes = {p.arg: self.ty(p.annotation) for p in fn.params + fn.kwonly if p.annotation is not None}
            for s in ast.walk(fn.node):
                if isinstance(s, ast.AnnAssign) and _selfattr(s.target):
                    c.ftypes.setdefault(s.target.attr, self.ty(s.annotation))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if _selfattr(t) and t.attr not in c.ftypes:
                            g = self._guess(s.value, ptypes)
                            if g is not None:
                                c.ftypes[t.attr] = g

    def _guess(self, e, ptypes):
        if isinstance(e, ast.Name):
            return ptypes.get(e.id)
        if isinstance(e, ast.BoolOp):
            ts = [self._guess(v, ptypes) for v in e.values]
            if any(t is None for t in ts):
                return None
            r = ts[0]
            for t in ts[1:]:
                r = union(drop_none(r), t)
            return r
        if isinstance(e, ast.Constant):
            from .terms import const
            return const(e.value).ty
        if isinstance(e, ast.Compare):
            return BOOL
        if isinstance(e, ast.Call):
            n = ast.unparse(e.func)
            if n in self.classes:
                return inst_ty(n)
            if n == "Path":
                return HPATH
            if n == "dict":
                return (self._guess(e.args[0], ptypes) if e.args else None) or ("dict", ANY, ANY)
            if n in ("set", "frozenset"):
                return ("set", ANY)
            if n == "list":
                return ("list", ANY)
            if n.endswith(".resolve"):
                return HPATH
        if isinstance(e, ast.IfExp):
            a, b = self._guess(e.body, ptypes), self._guess(e.orelse, ptypes)
            if a and b:
                return union(a, b)
        return None

    def field_ty(self, cname, f):
        c = self.classes.get(cname)
        if c is None:
            return None
        for k in c.mro():
            if f in k.ftypes:
                return k.ftypes[f]
        # fields of subclasses (reads after an isinstance test the analysis merged away)
        for d in self.classes.values():
            if c in d.mro() and f in d.ftypes:
                return d.ftypes[f]
        return None

    def subclasses(self, cname):
        c = self.classes.get(cname)
        return [d for d in self.classes.values() if c in d.mro()]

    def is_sub(self, a, b):
        ca, cb = self.classes.get(a), self.classes.get(b)
        return ca is not None and cb is not None and cb in ca.mro()

    # -- exceptions --------------------------------------------------------
    def exc_parent(self, n):
        if n in self.classes:
            c = self.classes[n]
            return c.base_names[0].split(".")[-1] if c.base_names else "object"
        return BUILTIN_EXC.get(n)

    def exc_sub(self, a, b):
        while a is not None:
            if a == b or (b == "EnvironmentError" and a == "OSError"):
                return True
            a = self.exc_parent(a)
        return False

    def is_exc_class(self, n):
        return n in BUILTIN_EXC or (n in self.classes and self.exc_sub(n, "BaseException"))

    # -- lookups -----------------------------------------------------------
    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisError(f"class {name} not found in the package")
        return c

    def method(self, cname, mname):
        f = self.cls(cname).find(mname)
        if f is None:
            raise AnalysisError(f"{cname}.{mname} not found")
        return f


def _selfattr(t):
    return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"


def union(a, b):
    sa = set(a[1]) if a[0] == "union" else {a}
    sb = set(b[1]) if b[0] == "union" else {b}
    s = sa | sb
    if ANY in s:
        return ANY
    return next(iter(s)) if len(s) == 1 else ("union", frozenset(s))


def drop_none(t):
    if t[0] == "union":
        s = frozenset(x for x in t[1] if x != NONE)
        return next(iter(s)) if len(s) == 1 else ("union", s)
    return t


def has_none(t):
    return t == NONE or t == ANY or (t[0] == "union" and NONE in t[1])


def elem_ty(t):
    t = drop_none(t)
    if t[0] in ("list", "set", "iter", "tuplev"):
        return t[1]
    if t[0] == "dict":
        return t[1]
    if t == STR:
        return STR
    if t[0] == "tuple":
        r = None
        for x in t[1]:
            r = x if r is None else union(r, x)
        return r or ANY
    return ANY
