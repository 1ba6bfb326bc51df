"""Interned terms of the abstract value domain."""
from __future__ import annotations


class T:
    __slots__ = ("op", "args", "ty", "h", "insts", "refs", "depth", "__weakref__")
    _tab: dict = {}

    def __new__(cls, op, args, ty):
        key = (op, args)
        t = cls._tab.get(key)
        if t is not None:
            if t.ty is ANY and ty is not ANY:
                t.ty = ty
            return t
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.ty = op, args, ty
            t.h = hash(key)
            s = set()
            d = 0
            for a in args:
                _collect(a, s)
                d = max(d, _depth(a))
            if op == "i":
                s.add(args)
            t.insts = frozenset(s)
            if op == "ref":
                t.refs = frozenset((t,))
            else:
                rs = None
                for a in args:
                    if isinstance(a, T):
                        if a.refs:
                            rs = a.refs if rs is None else rs | a.refs
                    elif isinstance(a, (tuple, frozenset)):
                        x = set()
                        _collect_refs(a, x)
                        if x:
                            rs = frozenset(x) if rs is None else rs | x
                t.refs = rs or frozenset()
            t.depth = d + 1
            cls._tab[key] = t
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return repr(self) < repr(o)


def _collect(a, s):
    if isinstance(a, T):
        s |= a.insts
    elif isinstance(a, (tuple, frozenset)):
        for x in a:
            _collect(x, s)


def _collect_refs(a, s):
    if isinstance(a, T):
        s |= a.refs
    elif isinstance(a, (tuple, frozenset)):
        for x in a:
            _collect_refs(x, s)


def _depth(a):
    if isinstance(a, T):
        return a.depth
    if isinstance(a, (tuple, frozenset)):
        return max((_depth(x) for x in a), default=0)
    return 0


ANY = ("any",)
STR = ("str",)
INT = ("int",)
BOOL = ("bool",)
NONE = ("none",)
FLOAT = ("float",)
BYTES = ("bytes",)
PATH = ("path",)
HPATH = ("hpath",)


def inst_ty(c):
    return ("inst", c)


def mk(op, *args, ty=ANY):
    return T(op, args, ty)


def const(v):
    if v is None:
        ty = NONE
    elif isinstance(v, bool):
        ty = BOOL
    elif isinstance(v, int):
        ty = INT
    elif isinstance(v, str):
        ty = STR
    elif isinstance(v, bytes):
        ty = BYTES
    elif isinstance(v, float):
        ty = FLOAT
    else:
        ty = ANY
    return T("c", (type(v).__name__, v), ty)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[1]


TRUE = const(True)
FALSE = const(False)
CNONE = const(None)
ROOTP = mk("pconst", "/", ty=PATH)


def pconst(s):
    return mk("pconst", s, ty=PATH)


def sym(name, ty):
    # terms are interned without their type: a path that may be None is another symbol than one that may not
    if ty[0] == "union" and PATH in ty[1] and NONE in ty[1]:
        return mk("sym", name, "?", ty=ty)
    return mk("sym", name, ty=ty)


def node(p):
    return mk("node", p, ty=inst_ty("VirtualNode"))


def inst(label, gen):
    return mk("i", label, gen)


def subterms(t):
    """All subterms, including those in nested tuples / frozensets."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)


def subst(t, f, memo, insts=False):
    """Rebuild `t` bottom-up; f(T) -> T or None is applied to each rebuilt term (insts: f only changes instance terms)."""
    if insts:
        if isinstance(t, T):
            if not t.insts:
                return t
            r = memo.get(t)
            if r is not None:
                return r
            r = f(t)
            if r is None:
                args = tuple(subst(a, f, memo, True) for a in t.args)
                r = t if args == t.args else T(t.op, args, t.ty)
            memo[t] = r
            return r
        if isinstance(t, tuple):
            return tuple(subst(a, f, memo, True) for a in t)
        if isinstance(t, frozenset):
            return frozenset(subst(a, f, memo, True) for a in t)
        return t
    if isinstance(t, T):
        r = memo.get(t)
        if r is not None:
            return r
        args = tuple(subst(a, f, memo) for a in t.args)
        n = t if args == t.args else T(t.op, args, t.ty)
        r = f(n)
        if r is None:
            r = n
        memo[t] = r
        return r
    if isinstance(t, tuple):
        return tuple(subst(a, f, memo) for a in t)
    if isinstance(t, frozenset):
        return frozenset(subst(a, f, memo) for a in t)
    return t


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, (tuple, frozenset)):
            return "(" + ",".join(show(a, d + 1) for a in t) + ")"
        return str(t)
    if d > 9:
        return "…"
    o, a = t.op, t.args
    if o == "c":
        return repr(a[1])
    if o == "pconst":
        return f"p'{a[0]}'"
    if o == "sym":
        return a[0]
    if o == "attr":
        return f"{show(a[0], d + 1)}.{a[1]}"
    if o == "ref":
        return f"&{a[0]}"
    if o == "i":
        return f"#{a[0]}.{a[1]}"
    return f"{o}({', '.join(show(x, d + 1) for x in a)})"
