"""Helpers shared by the rules: leaves of output values, guards, heap differences."""
from __future__ import annotations
from .terms import *
from .harness import *
from .models import roles
from .paths import p_norm, p_parent as parent_of, CWDP

SHOPTS = {"views": 1, "stub_bridge": 1}


def fld(t, a):
    return mk("attr", t, a)


class Facts:
    """Must-facts of a state plus the guards of one bag element."""

    def __init__(self, I, st, guards=frozenset()):
        self.I, self.st, self.g = I, st, dict(guards)

    def __call__(self, atom):
        if atom.op == "c":
            return bool(atom.args[1])
        if atom.op == "not":
            r = self(atom.args[0])
            return None if r is None else not r
        if atom in self.g:
            return self.g[atom]
        r = self.st.facts.get(atom)
        if r is not None:
            return r
        return self.I.known(atom, self.st)

    def _bases(self, b):
        """Other terms for the path b, by equalities known on this path."""
        root = pconst("/")
        if b.op == "norm" and (self(mk("truthy", b.args[0], ty=BOOL)) is False or self(mk("isnone", b.args[0], ty=BOOL)) is True):
            yield CWDP
        for a, v in self.st.facts.items():
            if v is True and a.op == "eq" and b in a.args:
                yield a.args[0] if a.args[1] is b else a.args[1]

    def _aliases(self, n):
        yield n
        if n.op != "node":
            return
        b = base_path(n.args[0])
        for q in self._bases(b):
            if isinstance(q, T) and q.ty == PATH:
                yield node(subst(n.args[0], lambda t: q if t is b else None, {}))

    def _forall(self, n, test):
        """Does `test` hold of the entry n because it held of every entry of its directory?"""
        p = n.args[0] if n.op == "node" else None
        if p is None or p.op != "kidp":
            return False
        lam = inst("\u03bb", 0)
        i0 = p.args[1]
        for key in (mk("kids", p.args[0]), fld(node(p.args[0]), "children")):
            alts = self.st.foralls.get(key)
            if not alts:
                continue
            good = True
            for alt in alts:
                f = {subst(a, lambda t: i0 if t is lam else None, {}): b for a, b in alt}
                if any(self.st.facts.get(a, b) is not b or self.g.get(a, b) is not b for a, b in f.items()):
                    continue
                if not test(f):
                    good = False
            if good:
                return True
        return False

    def flag(self, n, name):
        """Known truth of a policy flag of node n (as it was on entry)."""
        for m in self._aliases(n):
            a = fld(fld(m, "policy"), name)
            for x in (a, mk("truthy", a, ty=BOOL)):
                r = self(x)
                if r is not None:
                    return r
        return None

    def kind(self, n):
        for c in ("VirtualFile", "VirtualDirectory"):
            r = self(mk("isinst", n, c, ty=BOOL))
            if r is True:
                return c
            if r is False:
                return "VirtualDirectory" if c == "VirtualFile" else "VirtualFile"
        return None

    def vis(self, view, n):
        """May the view be shown n?  (a directory named directly is exempt from metadata filters)"""
        if self(mk("exists", n.args[0], ty=BOOL)) is False:
            return True
        for n in self._aliases(n):
            a, v = mk("allowsn", view, n, ty=BOOL), mk("vis", view, n, ty=BOOL)
            if self(a) is True or self(v) is True:
                return True
            if self._forall(n, lambda f: f.get(a) is True or f.get(v) is True):
                return True
        return False

    def visf(self, view, n):
        return self(mk("allowsn", view, n, ty=BOOL)) is True or (self.vis(view, n) and self.kind(n) != "VirtualDirectory")


SKIP_UNDER = {"len", "eq", "in", "not", "and", "or", "lt", "le", "gt", "ge", "isinst", "truthy", "isnone", "any", "isrel", "hash"}


def out_leaves(t, ops, g=frozenset(), seen=None, skip=SKIP_UNDER):
    """(leaf, guards) for every leaf with an op in `ops` that flows into the value t (not merely into a count or a test)."""
    if seen is None:
        seen = set()
    if isinstance(t, T):
        if (t, g) in seen:
            return
        seen.add((t, g))
        if t.op in skip:
            return
        if t.op in ("seqv", "dictv"):
            for a in t.args:
                if isinstance(a, frozenset):
                    for v, gg in a:
                        yield from out_leaves(v, ops, g | gg, seen, skip)
                else:
                    yield from out_leaves(a, ops, g, seen, skip)
            return
        if t.op == "mix":
            for v, gg in t.args[2]:
                yield from out_leaves(v, ops, g | gg, seen, skip)
            return
        if t.op in ops:
            yield t, g
            if t.op in ("content", "kidp"):
                return
        for a in t.args:
            yield from out_leaves(a, ops, g, seen, skip)
    elif isinstance(t, (tuple, frozenset)):
        for a in t:
            yield from out_leaves(a, ops, g, seen, skip)


def strip(t):
    """A stable rendering of a term for messages: instance numbers removed."""
    import re
    s = repr(t)
    s = re.sub(r"#\(?[^ ,()]*(\.\d+)?\)?", "#", s)
    return re.sub(r"@\d+(~\d+)?", "", s)[:200]


def short(t, n=140):
    s = strip(t)
    return s if len(s) <= n else s[:n] + "…"


class Sites:
    """Monitor that remembers where nodes were read, per stripped node."""

    def __init__(self, extra=None):
        self.reads = {}
        self.extra = extra

    def __call__(self, I, kind, st, cx, at, d):
        if kind == "read":
            self.reads.setdefault(strip(d["node"]), set()).add(f"{I.loc(at, cx)} ({cx.fn.qual.split(':')[-1] if cx.fn else '?'})")
        if self.extra:
            self.extra(I, kind, st, cx, at, d)

    def where(self, n):
        s = self.reads.get(strip(n))
        return ", ".join(sorted(s)[:3]) if s else ""


def label_of(I, cx, at):
    """file:function of the construct an event belongs to."""
    return cx.fn.qual if cx.fn is not None else "?"


def handler_set():
    return sorted({m.qual: (n, m) for n, m in handlers().items()}.values(), key=lambda x: x[1].qual)


def opaque(ret=None, raises=True):
    """Primitive standing for a callee analysed separately: arbitrary result of its declared type, any exception."""
    def h(I, fn, args, kw, st, cx, node_):
        names = [p.arg for p in fn.params]
        full = dict(zip(names[1:], args[1:]))
        full.update(kw)
        I.emit("vfscall", st, cx, node_, fn=fn.name, args=full)
        if raises:
            s2 = st.copy()
            s2.note(f"{I.loc(node_, cx)} {fn.name} raises")
            I.raise_(cx, I.any_exc(f"raised by {fn.name}"), s2)
        return [(ret or mk("sym", f"~{fn.name}", ty=I.prog.ty(fn.ret_ann) if fn.ret_ann is not None else ANY), st)]
    return h


def _path_arg(I, fn, args, kw, st):
    names = [p.arg for p in fn.params]
    full = dict(zip(names[1:], args[1:]))
    full.update(kw)
    return p_norm(I.freeze(full.get("path", CNONE), st))


def m_get_node(I, fn, args, kw, st, cx, node_):
    """get_node by its contract: the node at the normalised path, or NodeNotFound / InvalidOperation / ProviderError."""
    p = _path_arg(I, fn, args, kw, st)
    for e in ("NodeNotFound", "InvalidOperation"):
        s2 = st.copy()
        if e == "InvalidOperation" or I.assume(mk("exists", p, ty=BOOL), False, s2):
            I.raise_(cx, I.exc(e), s2)
    I.raise_(cx, I.exc("ProviderError"), st.copy())
    if not I.assume(mk("exists", p, ty=BOOL), True, st):
        return []
    return [(node(p), st)]


def m_read_file(I, fn, args, kw, st, cx, node_):
    """read_file by its contract: the text of a readable file, or an exception."""
    p = _path_arg(I, fn, args, kw, st)
    I.emit("vfscall", st, cx, node_, fn=fn.name, args={"path": p})
    I.raise_(cx, I.any_exc("raised by read_file"), st.copy())
    n = node(p)
    for a in (mk("exists", p, ty=BOOL), mk("isinst", n, "VirtualFile", ty=BOOL), fld(fld(n, "policy"), "readable")):
        if not I.assume(a, True, st):
            return []
    return [(mk("rtext", n, ty=STR), st)]


def m_parse_search(I, fn, args, kw, st, cx, node_):
    """_parse_search_path by its contract (checked by C25): None, or a query on the search-view prefix."""
    f = next((n for n, k in field_kinds().items() if k == "sview"), None)
    if f is None or st.heap[VFS].f.get(f) is CNONE:
        return [(CNONE, st)]
    names = [p.arg for p in fn.params]
    full = dict(zip(names[1:], args[1:]))
    full.update(kw)
    s1 = st.copy()
    c = env().prog.classes.get("ParsedSearchPath")
    if c is None:
        raise AnchorError("ParsedSearchPath not found")
    p = mk("parsedq", I.freeze(full.get("path", CNONE), st), ty=inst_ty("ParsedSearchPath"))
    pref = mk("attr", VFS, f, ty=PATH)
    fs = {"base": pref} if "base" in c.ftypes else {}
    st.heap[p] = Obj("inst", "ParsedSearchPath", fs)
    st.facts[mk("isnone", mk("attr", VFS, f, ty=("union", PATH, NONE)), ty=BOOL)] = False
    return [(CNONE, s1), (p, st)]


PARSE = {"SandboxShell._parse_search_path": m_parse_search}
EXEC_PRIMS = {"VirtualFileSystem." + m: opaque() for m in ("glob", "append_file", "write_file", "walk", "remove", "mkdir", "move", "copy", "touch", "ls", "tree", "search")}
EXEC_PRIMS.update(PARSE)
EXEC_PRIMS["VirtualFileSystem.get_node"] = m_get_node
EXEC_PRIMS["VirtualFileSystem.read_file"] = m_read_file


def exec_run(mon=None, tier="quick", on=(), opts=None, entry="exec", soft=None):
    """The dispatcher with filesystem operations replaced by their contracts and command handlers arbitrary."""
    return run_handler(method("SandboxShell", entry), mon, on=on, opts=SHOPTS | {"loop_limit": 2 if tier == "quick" else 3} | (opts or {}),
                       prims=EXEC_PRIMS, soft=soft or (lambda a: a.op not in ("exists", "vis")))


def chain(cx):
    """Functions on the call stack of an event, innermost first."""
    out = []
    while cx is not None:
        if cx.fn is not None:
            out.append(cx.fn)
        cx = cx.up
    return out


def via_api(cx, skip=()):
    """The outermost public filesystem method on the call stack, if any."""
    r = None
    for f in chain(cx):
        g = f
        while g.outer is not None:
            g = g.outer
        if g.cls is not None and g.cls.name == "VirtualFileSystem" and not g.name.startswith("_") and g.name not in skip:
            r = g
    return r


def kids_of(cont):
    """The directory whose children mapping `cont` is, for a directory that existed on entry."""
    if cont.op == "attr" and cont.args[1] == "children" and cont.args[0].op == "node":
        return cont.args[0]
    return None


def heap_diff(I, s):
    """(node, field, new value) for every field of a pre-existing node that differs from its entry value."""
    for k, o in s.heap.items():
        if k.op == "node" and o.kind == "inst":
            for f, v in o.f.items():
                if v is not fld(k, f) and not (v.op == "attr" and v.args[0] is k and v.args[1] == f):
                    if f == "name" and v.op == "name" and v.args[0] is k.args[0]:
                        continue
                    if f == "parent" and v.op == "node" and v is node(parent_of(k.args[0])):
                        continue
                    yield k, f, v


def base_path(p):
    while p.op == "kidp":
        p = p.args[0]
    return p
