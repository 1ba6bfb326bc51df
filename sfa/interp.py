"""Interprocedural, path-sensitive abstract interpreter over the Python AST (no execution, no solver).

States are abstract (symbolic heap + must-facts); loops are run to a fixpoint over a generic
element, functions are inlined context-sensitively, pure string/path helpers are summarised by
uninterpreted terms.  Property checks attach as event monitors and exit obligations.
"""
from __future__ import annotations
import ast
from .terms import *
from .paths import *
from .prog import Program, Fn, AnalysisError, union, drop_none, has_none, elem_ty
from .effects import Effects, dotted
from .live import Live
from .state import State, Obj, shift, term_insts, term_refs, _lab

CORE_KEEP = {"VirtualFileSystem", "SandboxShell", "VirtualNode", "VirtualFile", "VirtualDirectory", "FullTextIndex", "PythonExecutor"}


class Budget(Exception):
    pass


class Cx:
    __slots__ = ("fn", "frame", "mod", "sink", "yk", "acc", "ctx", "up", "cur_exc")

    def __init__(self, fn, frame, mod, sink, yk=None, acc=None, ctx=0, up=None, cur_exc=None):
        self.fn, self.frame, self.mod, self.sink, self.yk, self.acc = fn, frame, mod, sink, yk, acc
        self.ctx, self.up, self.cur_exc = ctx, up, cur_exc

    def sub(self, **kw):
        c = Cx(self.fn, self.frame, self.mod, self.sink, self.yk, self.acc, self.ctx, self.up, self.cur_exc)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


LOOP_LIMIT = 24
BAG_CAP = 8


MSG = mk("sym", "message", ty=STR)


def fld_children(p):
    return mk("attr", node(p), "children")


class Interp:
    def __init__(self, prog: Program, eff: Effects, monitor=None, prims=None, kid_limit=2, rec_limit=2, budget=4_000_000,
                 never_slice=(), always_slice=(), soft=None):
        self.prog, self.eff, self.mon = prog, eff, monitor
        self.kid_limit, self.rec_limit, self.budget = kid_limit, rec_limit, budget
        self.steps = 0
        self.cuts = set()
        self.never_slice, self.always_slice = set(never_slice), set(always_slice)
        self.soft = soft
        self.views = False
        self.ctxids = {}
        self.analysed = set()
        self.sliced = set()
        self.nstates = 0
        self.ncalls = 0
        self.unknown = set()
        self.keep_frames = False
        self.user = {}
        self.opts = {"loader_raises": False, "read_raises": False, "host_raises": False, "re_raises": False}
        from . import models
        self.models = models
        self.prims = dict(models.PRIMS)
        if prims:
            self.prims.update(prims)
        self._live = {}
        self.keep = None
        self.roots = []
        self.handled_mon = None

    # ------------------------------------------------------------------ util
    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise Budget()

    def live(self, fn):
        l = self._live.get(fn)
        if l is None:
            l = self._live[fn] = Live(fn)
        return l

    def ctxid(self, ctx, site):
        k = (ctx, site)
        v = self.ctxids.get(k)
        if v is None:
            v = self.ctxids[k] = len(self.ctxids) + 1
        return v

    def site(self, node, cx):
        return f"{cx.mod.name.split('.')[-1]}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}@{cx.ctx}"

    def label(self, node, cx):
        return f"L{getattr(node, 'lineno', 0)}.{getattr(node, 'col_offset', 0)}@{cx.ctx}"

    def loc(self, node, cx):
        return f"{cx.mod.path}:{getattr(node, 'lineno', '?')}"

    def emit(self, kind, st, cx, at, **d):
        if self.mon is not None:
            self.mon(self, kind, st, cx, at, d)

    def raise_(self, cx, exc, st):
        if exc.op == "exc" and exc.args[1] is not MSG and not self.opts.get("keep_msgs"):
            m = exc.args[1]
            if m.op != "c" and not any(t.op in ("content", "kidp", "mix") for t in subterms(m)):
                exc = mk("exc", exc.args[0], MSG, *exc.args[2:], ty=exc.ty)
        if not self.close_prefixes(st):
            return
        cx.sink.append((exc, st))

    def close_prefixes(self, st):
        """A missing (or non-directory) proper prefix of t means t does not resolve; False when contradictory."""
        todo = []
        for a, b in st.facts.items():
            if not a.insts:
                continue
            if a.op == "exists" and b is False and a.args[0].op == "pren":
                todo.append(a.args[0].args[0])
            elif a.op == "isinst" and a.args[0].op == "node" and a.args[0].args[0].op == "pre" \
                    and ((a.args[1] == "VirtualDirectory" and b is False) or (a.args[1] == "VirtualFile" and b is True)):
                todo.append(a.args[0].args[0].args[0])
        for t in todo:
            if not self.assume(mk("exists", t, ty=BOOL), False, st):
                return False
        return True

    def exc(self, cls, msg=None):
        return mk("exc", cls, msg if msg is not None else CNONE, ty=("exc", cls))

    def any_exc(self, tag):
        return mk("exc", "*", mk("sym", tag), ty=("exc", "*"))

    # ------------------------------------------------------------- types etc.
    def typ(self, v, st):
        if v.op == "ref":
            o = st.heap.get(v)
            if o is None:
                return ANY
            if o.kind == "inst":
                return inst_ty(o.cls)
            if o.kind == "seq":
                return ("list" if o.cls != "set" else "set", ANY)
            if o.kind == "dict":
                return ("dict", ANY, ANY)
            return ANY
        t = v.ty
        if t[0] == "union":
            a = self.known(mk("isnone", v, ty=BOOL), st) if NONE in t[1] else False
            if a is False:
                t = drop_none(t)
            if t[0] == "union":
                cand = [x for x in t[1] if x != NONE]
                nc = []
                for x in cand:
                    k = self.known(self.isinst_atom(v, x), st)
                    if k is True:
                        return x
                    if k is None:
                        nc.append(x)
                if len(nc) == 1 and a is False:
                    return nc[0]
        return t

    def ty_name(self, x):
        return {"inst": lambda: x[1], "str": lambda: "str", "path": lambda: "PurePosixPath", "hpath": lambda: "Path", "list": lambda: "list",
                "dict": lambda: "dict", "set": lambda: "set", "int": lambda: "int", "bool": lambda: "bool", "tuple": lambda: "tuple",
                "bytes": lambda: "bytes"}.get(x[0], lambda: x[0])()

    def isinst_atom(self, v, ty):
        return mk("isinst", v, self.ty_name(ty), ty=BOOL)

    def cls_of(self, v, st):
        """Class name of an instance value, or None."""
        if v.op == "ref":
            o = st.heap.get(v)
            return o.cls if o is not None and o.kind == "inst" else None
        t = drop_none(self.typ(v, st))
        names = []
        if t[0] == "inst":
            names = [t[1]]
        elif t[0] == "union":
            names = [x[1] for x in t[1] if x[0] == "inst"]
        if not names:
            return None
        best = names[0]
        for n in names:
            for k in self.prog.subclasses(n):
                if st.facts.get(mk("isinst", v, k.name, ty=BOOL)) is True and (best == n or self.prog.is_sub(k.name, best)):
                    best = k.name
        if len(names) > 1 and best == names[0]:
            for n in names:
                if self.known(mk("isinst", v, n, ty=BOOL), st) is True:
                    return n
        return best

    # ----------------------------------------------------------------- facts
    def exists_known(self, p, st):
        if p is ROOTP or p.op in ("kidp", "cwdp"):
            return True
        f = st.facts
        v = f.get(mk("exists", p, ty=BOOL))
        if v is not None:
            return v
        if p.op in ("pre", "pren"):
            if f.get(mk("exists", p.args[0], ty=BOOL)) is True or self._exists_up(p.args[0], st) is True:
                return True
        return self._exists_up(p, st)

    def _exists_up(self, p, st):
        f = st.facts
        q = p
        for _ in range(6):
            par = p_parent(q)
            if par is q or q is ROOTP:
                break
            if f.get(mk("exists", par, ty=BOOL)) is False:
                return False
            if f.get(mk("isinst", node(par), "VirtualDirectory", ty=BOOL)) is False or f.get(mk("isinst", node(par), "VirtualFile", ty=BOOL)) is True:
                return False
            q = par
            if q.op not in ("join1", "kidp", "pren", "pconst", "parent"):
                break
        for a, b in f.items():
            if b and a.op == "exists":
                q = a.args[0]
                for _ in range(6):
                    if q is p:
                        return True
                    if q is ROOTP or q.op not in ("join1", "kidp", "pren", "pconst", "parent", "norm", "pre", "npath"):
                        break
                    nq = p_parent(q)
                    if nq is q or nq.depth > p.depth + 6:
                        break
                    q = nq
        return None

    def has_desc(self, p, st):
        """True when the node at p is known to have something below it (so it is a directory)."""
        if p is ROOTP or p.op == "cwdp":
            return True
        for a, b in st.facts.items():
            if b and a.op == "exists":
                q = a.args[0]
                for _ in range(6):
                    if q is ROOTP or q.op not in ("join1", "kidp", "pren", "pconst", "parent", "norm", "pre", "npath"):
                        break
                    q = p_parent(q)
                    if q is p:
                        return True
        for t in st.facts:
            if t.op == "isinst" and t.args[0].op == "node" and t.args[0].args[0].op == "kidp":
                q = t.args[0].args[0]
                while q.op == "kidp":
                    q = q.args[0]
                    if q is p:
                        return True
        if p.op == "pre" and self.exists_known(p.args[0], st) is True:
            return True
        return False

    def known(self, a, st):
        """Three-valued truth of a boolean atom in a state."""
        if a.op == "c":
            return bool(a.args[1])
        f = st.facts
        v = f.get(a)
        if v is not None:
            return v
        o = a.op
        if o == "not":
            v = self.known(a.args[0], st)
            return None if v is None else not v
        if o in ("or", "and"):
            vs = [self.known(x, st) for x in a.args]
            if o == "or":
                return True if True in vs else (False if all(x is False for x in vs) else None)
            return False if False in vs else (True if all(x is True for x in vs) else None)
        if o == "isnone":
            x = a.args[0]
            if x.op == "c":
                return x.args[1] is None
            if x.op in ("ref", "node", "fn", "bound", "cls", "ext", "meth", "tup", "exc", "elemk", "fstr", "str", "gen", "genexp", "seqv"):
                return False
            if not has_none(x.ty):
                return False
            if x.ty == NONE:
                return True
            if f.get(mk("truthy", x, ty=BOOL)) is True:
                return False
            if x in st.eqc:
                return st.eqc[x].args[1] is None
            if x.ty != ANY:
                for t in ([x.ty] if x.ty[0] != "union" else x.ty[1]):
                    if t != NONE and f.get(self.isinst_atom(x, t)) is True:
                        return False
            return None
        if o == "truthy":
            x = a.args[0]
            if f.get(mk("isnone", x, ty=BOOL)) is True:
                return False
            if x in st.eqc:
                return bool(st.eqc[x].args[1])
            if x.op == "pconst":
                return True
            if x.op == "part":
                return True
            if x.op in ("fstr",):
                for p in x.args:
                    if p.op == "c" and p.args[1]:
                        return True
            if x.op == "name" and x.args[0].op in ("kidp",):
                return True
            if x.op == "name" and is_norm(x.args[0]):
                e = self.known(self.eq_atom(x.args[0], ROOTP), st)
                return None if e is None else not e
            if x.op == "glob":
                return None
            return None
        if o == "eq":
            x, y = a.args
            if x.op in ("c", "pconst") and y.op in ("c", "pconst"):
                return x is y if x.op == y.op else None
            if y.op in ("c", "pconst"):
                x, y = y, x
            if x.op in ("c", "pconst"):
                c, z = x, y
                if z in st.eqc:
                    return st.eqc[z] is c
                if c.op == "c" and c.args[1] is None:
                    return self.known(mk("isnone", z, ty=BOOL), st)
                if c is ROOTP:
                    if z.op in ("kidp", "join1", "pren"):
                        return False
                    if z.op == "norm" and f.get(mk("truthy", mk("name", z, ty=STR), ty=BOOL)) is True:
                        return False
                if z.op == "part" and c.op == "c" and c.args[1] in ("/",):
                    return False
                if z.op == "part" and c.op == "c" and c.args[1] in ("", ".", "..") and is_norm(z.args[0]):
                    return False
                if c.op == "c" and isinstance(c.args[1], str):
                    tz = f.get(mk("truthy", z, ty=BOOL))
                    if c.args[1] == "" and tz is True:
                        return False
                    if c.args[1] != "" and tz is False:
                        return False
                if f.get(mk("isnone", z, ty=BOOL)) is True:
                    return False
                if z.op == "fstr" and c.op == "c" and isinstance(c.args[1], str):
                    p0 = z.args[0]
                    if p0.op == "c" and not c.args[1].startswith(str(p0.args[1])):
                        return False
                if c.op == "c" and c.args[1] is not None and z.ty != ANY and c.ty != ANY:
                    if z.ty[0] in ("inst", "path", "list", "dict", "set", "callable"):
                        return False
            return None
        if o == "in":
            x, s = a.args
            if s.op == "tup":
                vs = [self.known(self.eq_atom(x, e), st) for e in s.args]
                if True in vs:
                    return True
                if all(v is False for v in vs):
                    return False
                for b, bv in f.items():
                    if b.op == "in" and b.args[0] is x and b.args[1].op == "tup":
                        if bv and set(b.args[1].args) <= set(s.args):
                            return True
                        if not bv and set(s.args) <= set(b.args[1].args):
                            return False
                        if bv and not (set(b.args[1].args) & set(s.args)):
                            return False
            return None
        if o == "isinst":
            return self.known_isinst(a, st)
        if o == "exists":
            return self.exists_known(a.args[0], st)
        if o == "isrel":
            x, y = a.args
            if x is y or y is ROOTP and x.ty == PATH:
                return True
            if y in ancestors(x):
                return True
            if x.op == "join1" or x.op == "kidp":
                r = f.get(mk("isrel", x.args[0], y, ty=BOOL))
                if r:
                    return True
            if x is ROOTP and y.op in ("kidp", "join1"):
                return False
            if f.get(self.eq_atom(x, y)) is True:
                return True
            if f.get(self.eq_atom(y, ROOTP)) is True and x.ty == PATH:
                return True
            return None
        if o == "is":
            x, y = a.args
            if x is y:
                return True
            if x.op == "node" and y.op == "node":
                return self.known(self.eq_atom(x.args[0], y.args[0]), st)
            if {x.op, y.op} == {"ref", "node"}:
                return False
            if x.op == "ref" and y.op == "ref":
                return False
            return None
        if o == "lt":
            x, y = a.args
            if x is y:
                return False
            if f.get(mk("lt", y, x, ty=BOOL)) is True:
                return False
            return None
        if o == "allows":
            view, pol = a.args
            if pol.op == "attr" and pol.args[1] == "policy" and f.get(mk("allowsn", view, pol.args[0], ty=BOOL)) is True:
                return True
            return None
        if o == "allowsn":
            view, n = a.args
            if f.get(mk("allows", view, mk("attr", n, "policy"), ty=BOOL)) is False:
                return False
            return None
        if o == "has":
            b, k = a.args
            r = f.get(mk("isnone", mk("dget", b, k), ty=BOOL))
            if r is not None:
                return not r
            return None
        return None

    def known_isinst(self, a, st):
        x, cn = a.args
        f = st.facts
        if cn == "object":
            return True
        if x.op == "ref":
            o = st.heap.get(x)
            if o is not None:
                if o.kind == "inst":
                    return self.prog.is_sub(o.cls, cn) if o.cls in self.prog.classes else (o.cls == cn)
                return {"seq": o.cls, "dict": "dict"}.get(o.kind) == cn
        if x.op == "c":
            return type(x.args[1]).__name__ == cn or (cn == "int" and isinstance(x.args[1], bool))
        if x.op in ("str", "fstr"):
            return cn == "str"
        if x.op == "exc" and x.args[0] != "*":
            return self.prog.exc_sub(x.args[0], cn)
        if x.op == "tup":
            return cn == "tuple"
        ty = x.ty
        if f.get(mk("isnone", x, ty=BOOL)) is True:
            return False
        if ty[0] == "inst" or (ty[0] == "union" and any(t[0] == "inst" for t in ty[1])):
            tys = [ty] if ty[0] == "inst" else list(ty[1])
            poss = set()
            for t in tys:
                if t[0] == "inst":
                    subs = self.prog.subclasses(t[1])
                    leaf = [k for k in subs if not any(j is not k and k in j.mro() for j in subs)]
                    poss |= {k.name for k in (leaf if len(leaf) > 1 or t[1] == "VirtualNode" else subs)}
                else:
                    poss.add(self.ty_name(t))
            if x.op == "node":
                if self.has_desc(x.args[0], st):
                    poss &= {"VirtualDirectory"}
            for b, bv in f.items():
                if b.op == "isinst" and b.args[0] is x:
                    k = b.args[1]
                    if bv:
                        poss = {p for p in poss if p == k or self.prog.is_sub(p, k)}
                    else:
                        poss = {p for p in poss if not (p == k or self.prog.is_sub(p, k))}
            if self.known(mk("isnone", x, ty=BOOL), st) is False:
                poss.discard("none")
            yes = {p for p in poss if p == cn or self.prog.is_sub(p, cn)}
            if poss and yes == poss:
                return True
            if not yes:
                return False
            return None
        if ty[0] == "union":
            poss = {self.ty_name(t) for t in ty[1]}
            for b, bv in f.items():
                if b.op == "isinst" and b.args[0] is x:
                    poss = ({b.args[1]} & poss) if bv else poss - {b.args[1]}
            if self.known(mk("isnone", x, ty=BOOL), st) is False:
                poss.discard("none")
            if poss == {cn}:
                return True
            if cn not in poss:
                return False
            return None
        if ty != ANY and ty[0] not in ("ext", "exc"):
            n = self.ty_name(ty)
            if n == cn or (n == "bool" and cn == "int") or (n in ("path", "PurePosixPath") and cn in ("PurePath", "PurePosixPath")):
                return True
            if n in ("iter", "callable"):
                return None
            return False
        return None

    def eq_atom(self, a, b):
        if a is b:
            return TRUE
        if a.op == "str" and b.op == "str":
            return self.eq_atom(a.args[0], b.args[0])
        if a.op == "str" and b.op == "c" and isinstance(b.args[1], str):
            return self.eq_atom(a.args[0], p_const(b.args[1])) if a.args[0].ty == PATH else mk("eq", *sorted((a, b), key=lambda t: (t.op != "c", id(t))), ty=BOOL)
        if b.op == "str" and a.op == "c":
            return self.eq_atom(b, a)
        if a.op == "c" and b.op == "c":
            return TRUE if a.args[1] == b.args[1] else FALSE
        if a.op == "pconst" and b.op == "pconst":
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op in ("kidp", "join1") and y.op == "pconst":
                z = x.args[0]
                while z.op in ("kidp", "join1"):
                    z = z.args[0]
                if z.op == "pconst" and z.args[0] != "/" and not y.args[0].startswith(z.args[0] + "/"):
                    return FALSE
        if b.op in ("c", "pconst") and a.op not in ("c", "pconst"):
            a, b = b, a
        if a.op == "c" and a.args[1] is None:
            return mk("isnone", b, ty=BOOL)
        if a.op == "c" and isinstance(a.args[1], bool) and b.ty == BOOL:
            return b if a.args[1] else mk("not", b, ty=BOOL)
        if a.op == "c" and a.args[1] == "" and b.ty == STR:
            return mk("not", mk("truthy", b, ty=BOOL), ty=BOOL)
        if a.op == "c" and a.args[1] == 0 and b.op == "len" and not isinstance(a.args[1], bool):
            return mk("not", mk("truthy", b.args[0], ty=BOOL), ty=BOOL)
        if a.op not in ("c", "pconst") and repr(a) > repr(b):
            a, b = b, a
        return mk("eq", a, b, ty=BOOL)

    def assume(self, a, val, st):
        """Add a fact; False when the state becomes contradictory."""
        while a.op == "not":
            a, val = a.args[0], not val
        k = self.known(a, st)
        if k is not None:
            return k == val
        if a.op == "or":
            if not val:
                return all(self.assume(x, False, st) for x in a.args)
            open_ = [x for x in a.args if self.known(x, st) is not False]
            if len(open_) == 1:
                return self.assume(open_[0], True, st)
            st.facts[a] = True
            if self.views:
                self.prefix_fact(a, True, st)
            return True
        if a.op == "and":
            if val:
                return all(self.assume(x, True, st) for x in a.args)
            open_ = [x for x in a.args if self.known(x, st) is not True]
            if len(open_) == 1:
                return self.assume(open_[0], False, st)
            st.facts[a] = False
            return True
        st.facts[a] = val
        if self.views and a.op in ("any", "isrel", "or"):
            self.prefix_fact(a, val, st)
        if a.op == "eq" and val:
            x, y = a.args
            if x.op in ("c", "pconst"):
                st.eqc[y] = x
            if x is ROOTP and y.ty == PATH:
                for a2 in (mk("exists", y, ty=BOOL), mk("isinst", node(y), "VirtualDirectory", ty=BOOL)):
                    if not self.assume(a2, True, st):
                        return False
        if a.op == "in" and val and a.args[1].op == "tup":
            open_ = [e for e in a.args[1].args if self.known(self.eq_atom(a.args[0], e), st) is not False]
            if len(open_) == 1:
                return self.assume(self.eq_atom(a.args[0], open_[0]), True, st)
            if not open_:
                return False
        if a.op == "exists":
            p = a.args[0]
            if not val:
                # contradiction with a known existing descendant
                for b, bv in list(st.facts.items()):
                    if bv and b.op == "exists" and b is not a:
                        q = b.args[0]
                        for _ in range(6):
                            nq = p_parent(q)
                            if nq is q or q.op not in ("join1", "kidp", "pren", "pconst", "parent", "norm", "pre", "npath"):
                                break
                            q = nq
                            if q is p:
                                return False
        return True

    # ------------------------------------------------------------- view predicates
    @staticmethod
    def _pref_coll(t):
        """view term when t is an element of view.path_prefixes"""
        if t.op == "elem" and t.args[0].op == "attr" and t.args[0].args[1] == "path_prefixes":
            return t.args[0].args[0]
        return None

    def _rel_pair(self, a):
        """(view, path, which side) for is_relative_to between a path and an element of path_prefixes"""
        if a.op != "isrel":
            return None
        x, y = a.args
        v = self._pref_coll(y)
        if v is not None:
            return v, x, 0
        v = self._pref_coll(x)
        if v is not None:
            return v, y, 1
        return None

    def prefix_fact(self, a, val, st):
        """prefok(view, p): p lies under or above one of the path prefixes of the view."""
        if a.op == "any":
            body = a.args[1]
            parts = body.args if body.op == "or" else (body,)
            rs = [self._rel_pair(x) for x in parts]
            if all(rs) and len({r[:2] for r in rs}) == 1:
                v, x, _ = rs[0]
                if val:
                    st.facts[mk("prefok", v, x, ty=BOOL)] = True
                elif len({r[2] for r in rs}) == 2:
                    st.facts[mk("prefok", v, x, ty=BOOL)] = False
        elif val:
            parts = a.args if a.op == "or" else (a,)
            rs = [self._rel_pair(x) for x in parts]
            if all(rs) and len({r[:2] for r in rs}) == 1:
                st.facts[mk("prefok", rs[0][0], rs[0][1], ty=BOOL)] = True

    def derive_views(self, st):
        """vis(view, n): n may be shown by a shell with this view (a directory named directly is exempt from metadata filters)."""
        f = st.facts
        nopref = {a.args[0].args[0] for a, b in f.items() if b and a.op == "isnone" and a.args[0].op == "attr" and a.args[0].args[1] == "path_prefixes"}
        add = {}
        paths = None
        for v in nopref:
            if paths is None:
                paths = {a.args[0] for a in f if a.op == "exists"}
                paths.add(mk("cwdp", ty=PATH))
            for x in paths:
                add[mk("prefok", v, x, ty=BOOL)] = True
        for a, b in f.items():
            if a.op == "allowsn":
                v, n = a.args
                if b:
                    add[mk("vis", v, n, ty=BOOL)] = True
                    if n.op == "node":
                        add[mk("prefok", v, n.args[0], ty=BOOL)] = True
            elif a.op == "allows":
                v, pol = a.args
                if pol.op != "attr":
                    continue
                n = pol.args[0]
                vis = mk("vis", v, n, ty=BOOL)
                if not b:
                    add[vis] = False
                elif n.op == "node":
                    isd = mk("isinst", n, "VirtualDirectory", ty=BOOL)
                    if (f.get(isd) is True or n.args[0].op == "cwdp" and self.known(isd, st) is True) and \
                            (v in nopref or f.get(mk("prefok", v, n.args[0], ty=BOOL)) is True):
                        add[vis] = True
        for a, b in add.items():
            f.setdefault(a, b)

    VIEW_ATTRS = ("path_prefixes", "metadata_filters", "classifications", "principals")

    def _view_soft(self, a):
        if a.op in ("allows", "allowsn"):
            return True
        if a.op in ("isnone", "truthy", "any") and a.args[0].op == "attr" and a.args[0].args[1] in self.VIEW_ATTRS:
            return True
        if a.op in ("isrel", "or") and all(self._rel_pair(x) for x in (a.args if a.op == "or" else (a,))):
            return True
        return None

    def branch(self, a, st):
        """Split a state on a boolean atom."""
        while True:
            if a.op == "not":
                r = self.branch(a.args[0], st)
                return [(not b, s) for b, s in r]
            break
        k = self.known(a, st)
        if k is not None:
            return [(k, st)]
        s2 = st.copy()
        out = []
        self.tick()
        if self.assume(a, True, st):
            out.append((True, st))
        if self.assume(a, False, s2):
            out.append((False, s2))
        return out

    # ---------------------------------------------------------- truthiness
    def truthy(self, v, st):
        """[(bool, state)]"""
        if v.op == "c":
            return [(bool(v.args[1]), st)]
        if v.op == "ref":
            o = st.heap.get(v)
            if o is None:
                return self.branch(mk("truthy", v, ty=BOOL), st)
            if o.kind == "inst":
                c = self.prog.classes.get(o.cls)
                m = c and (c.find("__bool__") or c.find("__len__"))
                if m:
                    return self.branch(mk("truthy", v, ty=BOOL), st)
                return [(True, st)]
            return self.cont_truth(v, o, st)
        if v.op in ("node", "fn", "bound", "cls", "ext", "meth", "exc", "gen", "genexp", "pconst", "i", "builtin", "partial"):
            return [(True, st)]
        if v.op == "tup":
            return [(bool(v.args), st)]
        if v.op == "seqv":
            base, items, bag, ne = v.args[1:5]
            if items or ne:
                return [(True, st)]
            if base is CNONE and not bag:
                return [(False, st)]
            return self.branch(mk("truthy", v, ty=BOOL), st)
        if v.op == "enum" or v.op == "dview":
            return self.truthy(v.args[0], st)
        if v.op == "str":
            return [(True, st)] if v.args[0].ty in (PATH, HPATH) else self.truthy(v.args[0], st)
        ty = v.ty
        if ty == BOOL:
            return self.branch(v, st)
        if v in st.heap and st.heap[v].kind in ("seq", "dict"):
            return self.cont_truth(v, st.heap[v], st)
        ty2 = drop_none(ty)
        alts = ty2[1] if ty2[0] == "union" else [ty2]
        if all(t[0] in ("inst", "path", "hpath", "callable", "exc", "ext") and not self._has_bool(t) for t in alts) and ty2 != ANY:
            if not has_none(ty):
                return [(True, st)]
            return [(not b, s) for b, s in self.branch(mk("isnone", v, ty=BOOL), st)]
        if ty == NONE:
            return [(False, st)]
        if v.op in ("kids", "attr") and ty2[0] == "dict" and v.op == "attr" and v.args[0].op == "node" and v.args[1] == "children":
            return self.branch(mk("truthy", v, ty=BOOL), st)
        return self.branch(mk("truthy", v, ty=BOOL), st)

    def _has_bool(self, t):
        if t[0] == "inst":
            c = self.prog.classes.get(t[1])
            return bool(c and (c.find("__bool__") or c.find("__len__")))
        return False

    def cont_truth(self, v, o, st):
        if o.ne or [i for i in o.items if not (isinstance(i, tuple) and i[1] is None)]:
            return [(True, st)]
        if o.exact:
            return [(False, st)]
        out = []
        parts = []
        if o.base is not None:
            k = self.known(mk("truthy", o.base, ty=BOOL), st)
            if k is True and not (o.kind == "dict" and o.items):
                return [(True, st)]
            parts.append(k)
        s2 = st.copy()
        st.heap[v] = o.with_(ne=True)
        if o.base is not None and not o.bag and not o.items:
            if self.assume(mk("truthy", o.base, ty=BOOL), True, st):
                out.append((True, st))
        else:
            out.append((True, st))
        ok = True
        if o.base is not None and not o.items:
            ok = self.assume(mk("truthy", o.base, ty=BOOL), False, s2)
        if ok:
            s2.heap[v] = o.with_(base=None, bag=frozenset(), ne=False, items=())
            out.append((False, s2))
        return out

    # ------------------------------------------------------------- functions
    def new_frame(self, st, fn, cx_ctx, outer):
        return st.alloc(f"frame:{fn.qual.split('/')[-1]}@{cx_ctx}", Obj("frame", fn.qual, {}, base=outer))

    def bind(self, fn, frame, args, kwargs, st, cx):
        """Bind arguments; returns list of states (defaults are evaluated)."""
        vars_ = {}
        params = [p.arg for p in fn.params]
        pos = list(args)
        extra = []
        for i, a in enumerate(pos):
            if a.op == "star":
                # unknown number of positional arguments
                rest = params[len(vars_):]
                if fn.vararg:
                    extra.append(a)
                else:
                    for j, p in enumerate(rest):
                        if p not in kwargs:
                            vars_[p] = mk("item", a.args[0], const(j), ty=elem_ty(a.args[0].ty))
                continue
            if len(vars_) < len(params) and not extra:
                vars_[params[len(vars_)]] = a
            else:
                extra.append(a)
        kw = dict(kwargs)
        rest_kw = {}
        names = set(params) | {p.arg for p in fn.kwonly}
        for k, v in kw.items():
            if k in names:
                vars_[k] = v
            else:
                rest_kw[k] = v
        if fn.vararg:
            if all(e.op != "star" for e in extra):
                vars_[fn.vararg.arg] = mk("tup", *extra)
            else:
                vars_[fn.vararg.arg] = mk("starargs", *extra, ty=("tuplev", ANY))
        if fn.kwarg:
            vars_[fn.kwarg.arg] = st.alloc(f"kw@{cx.ctx}", Obj("dict", None, {}, items=tuple((const(k), v) for k, v in rest_kw.items())))
        for p in fn.params + fn.kwonly:
            if p.arg not in vars_:
                d = fn.defaults.get(p.arg)
                if d is None:
                    vars_[p.arg] = self.fresh_ty(f"arg:{fn.name}.{p.arg}", p.annotation)
                else:
                    r = self.ev(d, st, cx.sub(frame=None, fn=None, mod=fn.module))
                    vars_[p.arg] = r[0][0] if r else CNONE
        for p in fn.params + fn.kwonly:
            if p.annotation is not None:
                vars_[p.arg] = self.retype(vars_[p.arg], self.prog.ty(p.annotation))
        st.heap[frame] = st.heap[frame].with_(f=vars_)

    def retype(self, v, ty):
        """Give an untyped symbolic value the declared type."""
        if v.ty == ANY and v.op in ("item", "attr", "cb", "call", "unk", "elem") and ty != ANY:
            T._tab[(v.op, v.args)].ty = ty
        return v

    def fresh_ty(self, name, ann):
        return sym(name, self.prog.ty(ann) if ann is not None else ANY)

    def call_fn(self, fn, selfv, args, kwargs, st, cx, node, frame_outer=None, force_inline=False):
        """Call a repository function; list of (value, state)."""
        self.ncalls += 1
        self.tick(5)
        q = f"{fn.cls.name}.{fn.name}" if fn.cls and fn.outer is None else fn.name
        full = ([selfv] if selfv is not None else []) + list(args)
        prim = self.prims.get(q) if not force_inline else None
        if prim is not None:
            r = prim(self, fn, full, kwargs, st, cx, node)
            if r is not None:
                return r
        if not force_inline and fn.outer is None and q not in self.never_slice and not self.opts.get("exact") and (q in self.always_slice or self.eff.sliceable(fn)):
            return self.sliced_call(fn, full, kwargs, st, cx, node)
        if self.opts.get("stub_bridge") and cx.fn is not None and fn.outer is None and self.eff.bridge(fn):
            self.emit("bridge", st, cx, node, fn=fn.qual, args=tuple(full[1:]))
            return [(mk("sym", "~bridge", ty=self.prog.ty(fn.ret_ann) if fn.ret_ann is not None else ANY), st)]
        if not force_inline and not self.opts.get("inline_index") and self.eff.index_only(fn):
            self.emit("index", st, cx, node, op="refill", fn=fn.qual, args=tuple(full[1:]))
            return [(CNONE, st)]
        # recursion bound
        n, c = 0, cx
        while c is not None:
            if c.fn is fn:
                n += 1
            c = c.up
        if n >= self.rec_limit:
            self.cuts.add(f"recursion {fn.qual}")
            if fn.is_gen and not fn.is_ctx:
                return [(mk("tup"), st)]
            return [(mk("unk", "rec", fn.qual, ty=self.prog.ty(fn.ret_ann) if fn.ret_ann is not None else ANY), st)]
        self.analysed.add(fn.qual)
        ctx = self.ctxid(cx.ctx, (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), fn.qual))
        frame = self.new_frame(st, fn, ctx, frame_outer)
        self.bind(fn, frame, full, kwargs, st, cx)
        if fn.is_gen:
            g = mk("gen", fn, frame, ctx, ty=("iter", elem_ty(self.prog.ty(fn.ret_ann))) if fn.ret_ann is not None else ("iter", ANY))
            if fn.is_ctx:
                return [(mk("ctxm", g), st)]
            return [(g, st)]
        cx2 = Cx(fn, frame, fn.module, [], None, None, ctx, cx, None)
        outs = self.exec_block(fn.body, [st], cx2)
        rets = []
        rty = self.prog.ty(fn.ret_ann) if fn.ret_ann is not None else ANY
        for k, v, s in outs:
            val = v if k == "R" else CNONE
            if rty != ANY:
                val = self.retype(val, rty)
            rets.append((val, s))
        res = self.finish_call(rets, frame, cx)
        ex = self.finish_call(cx2.sink, frame, cx)
        cx.sink.extend(ex)
        return res

    def finish_call(self, pairs, frame, cx):
        """Drop the callee frame, garbage-collect and merge the states leaving a call."""
        if not pairs:
            return []
        out = []
        for v, s in pairs:
            if v.op == "node" and v.args[0] is ROOTP:
                alias = [t for t, c in s.eqc.items() if c is ROOTP and t.ty == PATH]
                if alias:
                    v = node(alias[-1])
            if self.views:
                self.derive_views(s)
            self.gc(s, cx, (v,), dead=frame)
            out.append((v, s))
        return self.merge(out)

    def active_frames(self, cx):
        c = cx
        while c is not None:
            if c.frame is not None:
                yield c.frame
            if c.yk is not None:
                for f in getattr(c.yk, "frames", ()):
                    yield f
            c = c.up

    def gc(self, st, cx, extra=(), dead=None):
        live = set()
        work = []

        def grow(s):
            for r in s:
                if r not in live:
                    live.add(r)
                    work.append(r)

        def add(x):
            s = set()
            term_refs(x, s)
            grow(s)
        for f in self.active_frames(cx):
            add(f)
        for r in self.roots:
            add(r)
        add(tuple(extra))
        add(st.log)
        add(st.pend)
        for k, o in st.heap.items():
            if k.op != "ref":
                grow(k.refs)
                grow(o.refs())
        while work:
            r = work.pop()
            o = st.heap.get(r)
            if o is None:
                continue
            grow(o.refs())
        for k in [k for k in st.heap if k.op == "ref" and k not in live]:
            del st.heap[k]
        if any(a.insts for a in st.facts):
            st.drop_dead_inst_facts(extra)

    def is_soft(self, a):
        if self.opts.get("exact"):
            return False
        if self.views and self._view_soft(a):
            return True
        if self.soft is not None:
            r = self.soft(a)
            if r is not None:
                return r
        s = a.__class__._soft.get(a) if hasattr(a.__class__, "_soft") else None
        if s is None:
            s = self._soft(a)
            if not hasattr(T, "_soft"):
                T._soft = {}
            T._soft[a] = s
        return s

    def _soft(self, a):
        if a.op == "eq" and a.args[0] is ROOTP:
            return True
        for t in subterms(a):
            if t.op in ("node", "exists", "isinst", "ref", "isrel", "any"):
                return False
            if t.op == "attr" or t.op == "sym":
                ty = t.ty
                if t.op == "sym" and t.args[0].startswith("~"):
                    return False
                if t.op == "attr" and t.args[0].ty[0] == "inst" and t.args[0].ty[1] in ("VirtualFileSystem", "SandboxShell", "NodePolicy", "VisibilityView", "VirtualNode"):
                    return False
            if t.op == "call" and t.ty[0] in ("union", "inst"):
                return False
            if t.op == "isnone":
                return False
        return True

    def merge(self, pairs):
        """Join states that agree on everything but irrelevant (string/number) facts."""
        if len(pairs) <= 1:
            return pairs
        groups = {}
        for v, s in pairs:
            k = (v, self.skel(s))
            g = groups.get(k)
            if g is None:
                groups[k] = (v, s)
            else:
                self.join_into(g[1], s)
        if len(groups) > 1:
            self.subsume(groups)
        return list(groups.values())

    def covering(self, k, tab, adv=None):
        """The key of a recorded state that is at least as general, else the key itself."""
        key = k if adv is None else (k, adv)
        if key in tab:
            return key
        hp, hf, fo, lg, pe = k
        for key2 in tab:
            k2 = key2 if adv is None else key2[0]
            if adv is not None and key2[1] != adv:
                continue
            if k2[1] < hf and k2[0] == hp and k2[2] == fo and k2[3] == lg and k2[4] == pe:
                return key2
        return key

    def subsume(self, groups):
        """Drop a state whose hard facts include all those of another state that is equal otherwise."""
        by = {}
        for k in groups:
            v, (hp, hf, fo, lg, pe) = k
            by.setdefault((v, hp, fo, lg, pe), []).append((hf, k))
        for lst in by.values():
            if len(lst) < 2:
                continue
            lst.sort(key=lambda x: len(x[0]))
            kept = []
            for hf, k in lst:
                for hf2, k2 in kept:
                    if hf2 < hf:
                        self.join_into(groups[k2][1], groups[k][1])
                        del groups[k]
                        break
                else:
                    kept.append((hf, k))

    def skel(self, s):
        """What two states must agree on to be joined: everything but bag contents and soft facts."""
        if self.views:
            self.derive_views(s)
        hp = []
        for r, o in s.heap.items():
            if o.kind in ("seq", "dict"):
                hp.append((r, (o.kind, o.cls, o.base, o.items)))
            else:
                hp.append((r, o))
        return (frozenset(hp), frozenset(x for x in s.facts.items() if not self.is_soft(x[0])), frozenset(s.foralls.items()), s.log, s.pend)

    def join_into(self, o, s):
        """Join s into o (same skeleton); True when o changed."""
        ch = False
        for a in [a for a, b in o.facts.items() if s.facts.get(a) != b]:
            del o.facts[a]
            ch = True
        for a in [a for a, b in o.eqc.items() if s.eqc.get(a) is not b]:
            del o.eqc[a]
        for r, x in s.heap.items():
            if x.kind in ("seq", "dict"):
                y = o.heap[r]
                if x.bag != y.bag or x.ne != y.ne:
                    b = self.cap_bag(y.bag | x.bag)
                    ne = y.ne and x.ne
                    if b != y.bag or ne != y.ne:
                        o.heap[r] = y.with_(bag=b, ne=ne)
                        ch = True
        return ch

    def cap_bag(self, bag):
        if len(bag) <= BAG_CAP:
            return bag
        by = {}
        for v, g in bag:
            by.setdefault(v, []).append(g)
        out = set()
        for v, gs in by.items():
            if len(gs) > BAG_CAP:
                out.add((v, frozenset.intersection(*gs)))
            else:
                out.update((v, g) for g in gs)
        return frozenset(out)

    def sliced_call(self, fn, args, kwargs, st, cx, node):
        self.sliced.add(fn.qual)
        names = [p.arg for p in fn.params]
        full = list(args) + [mk("kw", k, v) for k, v in sorted(kwargs.items())]
        if fn.cls is not None and not fn.is_static:
            names = names[1:]
            full = full[1:]
        full = [self.freeze(a, st) for a in full]
        rty = self.prog.ty(fn.ret_ann) if fn.ret_ann is not None else ANY
        tr = self.eff.trans[fn]
        for e in sorted(tr["raises"]):
            s2 = st.copy()
            s2.note(f"{self.loc(node, cx)} {fn.name} raises {e}")
            self.raise_(cx, self.exc(e, mk("sym", f"raised in {fn.name}")), s2)
        if fn in self.eff.norms and len(full) == 1:
            a = full[0]
            if a.op == "kw":
                a = a.args[1]
            if has_none(a.ty) and a.op != "c":
                out = []
                for b, s in self.branch(mk("isnone", a, ty=BOOL), st):
                    out.append((CWDP if b else p_norm(a), s))
                return out
            return [(p_norm(a), st)]
        t = mk("call", fn.qual, *full, ty=rty)
        return [(t, st)]

    def freeze(self, v, st, depth=0):
        """Immutable snapshot of a value (containers and plain records by content)."""
        if depth > 5:
            return v
        if v.op == "ref":
            o = st.heap.get(v)
            if o is None:
                return v
            if o.kind == "seq":
                return mk("seqv", o.cls or "list", o.base if o.base is not None else CNONE, tuple(self.freeze(x, st, depth + 1) for x in o.items),
                          frozenset((self.freeze(a, st, depth + 1), g) for a, g in o.bag), o.ne, ty=("list", ANY))
            if o.kind == "dict":
                return mk("dictv", o.base if o.base is not None else CNONE,
                          tuple((self.freeze(k, st, depth + 1), self.freeze(x, st, depth + 1) if x is not None else None) for k, x in o.items),
                          frozenset((a, g) for a, g in o.bag), ty=("dict", ANY, ANY))
            if o.kind == "inst" and o.cls not in CORE_KEEP:
                return mk("instv", o.cls, tuple(sorted((k, self.freeze(x, st, depth + 1)) for k, x in o.f.items())), ty=inst_ty(o.cls))
            return v
        if v.op == "tup":
            return mk("tup", *[self.freeze(a, st, depth + 1) for a in v.args])
        o = st.heap.get(v)
        if o is not None and o.kind in ("seq", "dict") and (o.items or o.bag or o.base is not v):
            if o.kind == "dict":
                return mk("dictv", o.base if o.base is not None else CNONE, o.items, o.bag, ty=v.ty)
            return mk("seqv", o.cls or "list", o.base if o.base is not None else CNONE, o.items, o.bag, o.ne, ty=v.ty)
        return v

    def freeze_new(self, v, st, head, depth=0):
        """Content of a record / tree node created since `head`, as an immutable value."""
        if v.op == "tup":
            return mk("tup", *[self.freeze_new(a, st, head, depth) for a in v.args])
        if v.op != "ref" or v in head.heap or depth > 4:
            return v
        o = st.heap.get(v)
        if o is None:
            return v
        if o.kind == "inst":
            fs = []
            for k, x in sorted(o.f.items()):
                if x.op == "ref" and k == "parent":
                    if x in head.heap:
                        fs.append((k, x))
                    continue
                fs.append((k, self.freeze_new(x, st, head, depth + 1)))
            return mk("instv", o.cls, tuple(fs), ty=inst_ty(o.cls))
        if o.kind == "seq":
            return mk("seqv", o.cls or "list", o.base if o.base is not None else CNONE, tuple(self.freeze_new(x, st, head, depth + 1) for x in o.items),
                      frozenset(o.bag), o.ne, ty=("list", ANY))
        if o.kind == "dict":
            return mk("dictv", o.base if o.base is not None else CNONE,
                      tuple((k, self.freeze_new(x, st, head, depth + 1) if x is not None else None) for k, x in o.items), frozenset(o.bag), ty=("dict", ANY, ANY))
        return v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, sts, cx):
        cur = list(sts)
        outs = []
        for s in stmts:
            nxt = []
            for st in cur:
                self.tick()
                m = getattr(self, "x_" + s.__class__.__name__, None)
                if m is None:
                    self.unknown.add(f"{self.loc(s, cx)} {s.__class__.__name__}")
                    nxt.append(st)
                    continue
                for k, v, s2 in m(s, st, cx):
                    if k == "N":
                        nxt.append(s2)
                    else:
                        outs.append((k, v, s2))
            if len(nxt) > 1 and isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With, ast.Match, ast.Assign, ast.Expr, ast.AnnAssign)):
                nxt = self.tidy(nxt, s, cx)
            elif nxt and isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
                self.prune(nxt[0], s, cx)
            cur = nxt
            self.nstates += len(cur)
            if not cur:
                break
        outs.extend(("N", None, st) for st in cur)
        return outs

    def prune(self, st, s, cx):
        if cx.fn is None or cx.frame is None or cx.fn.is_lambda:
            return
        la = self.live(cx.fn).after.get(s)
        if la is None:
            return
        fo = st.heap.get(cx.frame)
        if fo is None:
            return
        dead = [k for k in fo.f if k not in la and k != "self" and not k.startswith("%")]
        if dead:
            nf = {k: v for k, v in fo.f.items() if k not in dead}
            st.heap[cx.frame] = fo.with_(f=nf)

    def tidy(self, sts, s, cx):
        for st in sts:
            self.prune(st, s, cx)
        return [x for _, x in self.merge([(CNONE, x) for x in sts])]

    def x_Pass(self, s, st, cx):
        return [("N", None, st)]

    x_Global = x_Nonlocal = x_Pass

    def x_Expr(self, s, st, cx):
        if isinstance(s.value, ast.Constant):
            return [("N", None, st)]
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(s.value, st, cx)
        return [("N", None, s2) for _, s2 in self.ev(s.value, st, cx)]

    def do_yield(self, e, st, cx):
        out = []
        if isinstance(e, ast.Yield):
            vals = self.ev(e.value, st, cx) if e.value is not None else [(CNONE, st)]
            for v, s in vals:
                self.emit("yield", s, cx, e, val=v)
                out.extend(self.yield_to(v, s, cx))
            return out
        for it, s in self.ev(e.value, st, cx):
            def body(v, s2):
                return self.yield_to(v, s2, cx)
            body.frames = [cx.frame]
            out.extend(self.iterate(it, s, cx, self.label(e, cx), body, acc=cx.acc))
        return out

    def yield_to(self, v, s, cx):
        if cx.yk is None:
            return [("N", None, s)]
        return cx.yk(v, s, cx)

    def x_Return(self, s, st, cx):
        if s.value is None:
            return [("R", CNONE, st)]
        return [("R", v, s2) for v, s2 in self.ev(s.value, st, cx)]

    def x_Break(self, s, st, cx):
        return [("B", None, st)]

    def x_Continue(self, s, st, cx):
        return [("C", None, st)]

    def x_Import(self, s, st, cx):
        for a in s.names:
            self.setvar((a.asname or a.name).split(".")[0], mk("ext", a.name), st, cx)
        return [("N", None, st)]

    def x_ImportFrom(self, s, st, cx):
        for a in s.names:
            v = None
            if s.level:
                base = cx.mod.name.split(".")
                if not cx.mod.path.endswith("__init__.py"):
                    base = base[:-1]
                m = self.prog.modules.get(".".join(base + ([s.module] if s.module else [])))
                if m:
                    v = self.modval(m, a.name, st)
            self.setvar(a.asname or a.name, v if v is not None else mk("ext", f"{s.module}.{a.name}"), st, cx)
        return [("N", None, st)]

    def x_FunctionDef(self, s, st, cx):
        fn = self.prog.nested[s]
        self.setvar(s.name, mk("fn", fn, cx.frame), st, cx)
        return [("N", None, st)]

    def x_Assert(self, s, st, cx):
        out = []
        for b, s2 in self.cond(s.test, st, cx):
            if b:
                out.append(("N", None, s2))
            else:
                self.raise_(cx, self.exc("AssertionError"), s2)
        return out

    def x_If(self, s, st, cx):
        outs = []
        for b, s2 in self.cond(s.test, st, cx):
            s2.note(f"{self.loc(s, cx)} `{src(s.test)}` {'holds' if b else 'fails'}")
            outs.extend(self.exec_block(s.body if b else s.orelse, [s2], cx))
        return outs

    def x_Match(self, s, st, cx):
        outs = []
        for v, s0 in self.ev(s.subject, st, cx):
            rest = [s0]
            for c in s.cases:
                nrest = []
                for r in rest:
                    for ok, s2 in self.match_pat(c.pattern, v, r, cx):
                        if ok and c.guard is not None:
                            for b, s3 in self.cond(c.guard, s2, cx):
                                if b:
                                    outs.extend(self.exec_block(c.body, [s3], cx))
                                else:
                                    nrest.append(s3)
                        elif ok:
                            outs.extend(self.exec_block(c.body, [s2], cx))
                        else:
                            nrest.append(s2)
                rest = nrest
            outs.extend(("N", None, r) for r in rest)
        return outs

    def match_pat(self, p, v, st, cx):
        if isinstance(p, ast.MatchValue):
            out = []
            for w, s in self.ev(p.value, st, cx):
                out.extend(self.branch(self.eq_atom(v, w), s))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.eq_atom(v, const(p.value)), st)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setvar(p.name, v, st, cx)
                return [(True, st)]
            out = self.match_pat(p.pattern, v, st, cx)
            for ok, s in out:
                if ok and p.name:
                    self.setvar(p.name, v, s, cx)
            return out
        if isinstance(p, ast.MatchOr):
            out, rest = [], [st]
            for q in p.patterns:
                nr = []
                for r in rest:
                    for ok, s in self.match_pat(q, v, r, cx):
                        (out if ok else nr).append((True, s) if ok else s)
                rest = nr
            return out + [(False, r) for r in rest]
        if isinstance(p, ast.MatchClass):
            out = []
            for c, s in self.ev(p.cls, st, cx):
                out.extend(self.isinstance_(v, c, s))
            return out
        self.unknown.add(f"{self.loc(p, cx)} pattern")
        s2 = st.copy()
        return [(True, st), (False, s2)]

    def x_Assign(self, s, st, cx):
        out = []
        for v, s2 in self.ev(s.value, st, cx):
            sts = [s2]
            for t in s.targets:
                nx = []
                for s3 in sts:
                    nx.extend(self.assign(t, v, s3, cx))
                sts = nx
            out.extend(("N", None, x) for x in sts)
        return out

    def x_AnnAssign(self, s, st, cx):
        if s.value is None:
            return [("N", None, st)]
        out = []
        ty = self.prog.ty(s.annotation)
        for v, s2 in self.ev(s.value, st, cx):
            out.extend(("N", None, x) for x in self.assign(s.target, self.retype(v, ty), s2, cx))
        return out

    def x_AugAssign(self, s, st, cx):
        load = ast.copy_location(_as_load(s.target), s.target)
        out = []
        for a, s1 in self.ev(load, st, cx):
            for b, s2 in self.ev(s.value, s1, cx):
                if isinstance(s.op, ast.Add) and a.op == "ref" and s2.heap.get(a) is not None and s2.heap[a].kind == "seq":
                    for _, s3 in self.call_method(a, "extend", [b], {}, s2, cx, s):
                        out.append(("N", None, s3))
                    continue
                if isinstance(s.op, ast.BitOr) and a.op == "ref" and s2.heap.get(a) is not None and s2.heap[a].kind in ("dict", "seq"):
                    for _, s3 in self.call_method(a, "update", [b], {}, s2, cx, s):
                        out.append(("N", None, s3))
                    continue
                for v, s3 in self.binop(s.op, a, b, s2, cx, s):
                    out.extend(("N", None, x) for x in self.assign(s.target, v, s3, cx))
        return out

    def x_Delete(self, s, st, cx):
        sts = [st]
        for t in s.targets:
            nx = []
            for s0 in sts:
                if isinstance(t, ast.Subscript):
                    for d, s1 in self.ev(t.value, s0, cx):
                        if isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None:
                            nx.extend(s3 for _, s3 in self.call_method(d, "clear", [], {}, s1, cx, s))
                            continue
                        for k, s2 in self.ev(t.slice, s1, cx):
                            nx.extend(self.delitem(d, k, s2, cx, s))
                elif isinstance(t, ast.Attribute):
                    for v, s1 in self.ev(t.value, s0, cx):
                        self.emit("store", s1, cx, s, obj=v, attr=t.attr, val=None, old=None)
                        nx.append(s1)
                else:
                    nx.append(s0)
            sts = nx
        return [("N", None, x) for x in sts]

    def x_Raise(self, s, st, cx):
        if s.exc is None:
            e = cx.cur_exc or self.exc("RuntimeError")
            st.note(f"{self.loc(s, cx)} re-raise")
            self.raise_(cx, e, st)
            return []
        for v, s2 in self.ev(s.exc, st, cx):
            if v.op == "cls":
                v = self.exc(v.args[0])
            elif v.op == "ext":
                v = self.exc(v.args[0].split(".")[-1])
            if v.op != "exc":
                v = self.any_exc("raised")
            s2.note(f"{self.loc(s, cx)} raise {v.args[0]}")
            self.raise_(cx, v, s2)
        return []

    def x_Try(self, s, st, cx):
        inner = cx.sub(sink=[])
        outs = self.exec_block(s.body, [st], inner)
        excs = inner.sink
        post = cx.sub(sink=[]) if s.finalbody else cx
        res = []
        if s.orelse:
            for k, v, s2 in outs:
                if k == "N":
                    res.extend(self.exec_block(s.orelse, [s2], post))
                else:
                    res.append((k, v, s2))
        else:
            res = list(outs)
        for e, s2 in excs:
            pend = [(e, s2)]
            for h in s.handlers:
                np = []
                for e1, s3 in pend:
                    for caught, e2, s4 in self.match_exc(h, e1, s3, cx):
                        if caught:
                            if h.name:
                                self.setvar(h.name, e2, s4, cx)
                            s4.note(f"{self.loc(h, cx)} except caught {e2.args[0]}")
                            res.extend(self.exec_block(h.body, [s4], post.sub(cur_exc=e2)))
                        else:
                            np.append((e2, s4))
                pend = np
            for e1, s3 in pend:
                post.sink.append((e1, s3))
        if not s.finalbody:
            return res
        final = []
        for k, v, s2 in res:
            for k2, v2, s3 in self.exec_block(s.finalbody, [s2], cx):
                final.append((k, v, s3) if k2 == "N" else (k2, v2, s3))
        for e, s2 in post.sink:
            for k2, v2, s3 in self.exec_block(s.finalbody, [s2], cx):
                if k2 == "N":
                    cx.sink.append((e, s3))
                else:
                    final.append((k2, v2, s3))
        return final

    x_TryStar = x_Try

    def match_exc(self, h, e, st, cx):
        """[(caught, exc, state)]"""
        if h.type is None:
            return [(True, e, st)]
        names = []
        for v, s in self.ev(h.type, st, cx):
            st = s
            for x in (v.args if v.op == "tup" else [v]):
                if x.op == "cls":
                    names.append(x.args[0])
                elif x.op == "ext":
                    n = x.args[0]
                    names.append(n if n in ("re.error",) or n.startswith("subprocess.") else n.split(".")[-1])
        return self.match_names(names, e, st)

    def match_names(self, names, e, st):
        c = e.args[0]
        if c == "*":
            if "Exception" in names or "BaseException" in names:
                return [(True, e, st)]
            out = [(False, e, st)]
            for n in names:
                out.append((True, self.exc(n, e.args[1]), st.copy()))
            return out
        for n in names:
            if self.prog.exc_sub(c, n):
                return [(True, e, st)]
        # a declared superclass may actually be one of the listed subclasses: ignored (raises are exact)
        return [(False, e, st)]

    def x_With(self, s, st, cx):
        return self.with_items(s, 0, st, cx)

    def with_items(self, s, i, st, cx):
        if i == len(s.items):
            return self.exec_block(s.body, [st], cx)
        item = s.items[i]
        outs = []
        for v, s1 in self.ev(item.context_expr, st, cx):
            outs.extend(self.enter(v, item.optional_vars, s, s1, cx, lambda s2, c2: self.with_items(s, i + 1, s2, c2)))
        return outs

    def enter(self, v, target, s, st, cx, body):
        """Run a with-body under context manager value v."""
        if v.op == "ctxm":
            g = v.args[0]
            fn, frame, ctx = g.args
            res = []

            def yk(val, s2, gcx):
                out = []
                sts = [s2] if target is None else self.assign(target, val, s2, cx)
                for s3 in sts:
                    inner = cx.sub(sink=[])
                    self.roots.append(frame)
                    try:
                        res_ = body(s3, inner)
                    finally:
                        self.roots.pop()
                    for k, w, s4 in res_:
                        s4.pend = s4.pend + ((k, w if w is not None else CNONE, g),)
                        out.append(("N", None, s4))
                    for e, s4 in inner.sink:
                        gcx.sink.append((e, s4))
                return out
            yk.frames = [cx.frame]
            gcx = Cx(fn, frame, fn.module, [], yk, None, ctx, cx, None)
            self.analysed.add(fn.qual)
            for k, w, s2 in self.exec_block(fn.body, [st], gcx):
                mine = [j for j, x in enumerate(s2.pend) if x[2] is g]
                if mine:
                    k2, w2, _ = s2.pend[mine[-1]]
                    s2.pend = s2.pend[:mine[-1]] + s2.pend[mine[-1] + 1:]
                    res.append((k2, w2 if w2 is not CNONE or k2 == "R" else None, s2))
                else:
                    self.raise_(cx, self.exc("RuntimeError", const("generator didn't yield")), s2)
            for e, s2 in gcx.sink:
                s2.pend = tuple(x for x in s2.pend if x[2] is not g)
                cx.sink.append((e, s2))
            for _, _, s2 in res:
                if frame in s2.heap:
                    self.gc(s2, cx, (res[0][1],) if False else tuple(x for _, x, _ in res if isinstance(x, T)))
            return res
        return self.models.ext_with(self, v, target, s, st, cx, body)

    # ------------------------------------------------------------- loops
    def havoc_flags(self, s, st, cx):
        """Option-parsing loops: three or more boolean flags set to constants in the body become unknown at the head."""
        names = set()
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                    names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        fo = st.heap.get(cx.frame)
        if fo is None or len(names) < 3 or self.opts.get("exact"):
            return
        lh = self.live(cx.fn).head.get(s) if cx.fn is not None and not cx.fn.is_lambda else None
        hit = [n for n in names if fo.f.get(n) in (TRUE, FALSE) and (lh is None or n in lh)]
        if len(hit) >= 3:
            nf = dict(fo.f)
            for n in hit:
                nf[n] = sym(f"flag:{n}", BOOL)
            if isinstance(s, ast.While):
                for b in s.body:
                    for n in ast.walk(b):
                        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and nf.get(n.target.id) is not None and nf[n.target.id].ty == INT:
                            nf[n.target.id] = mk("unk", self.label(s, cx), n.target.id, ty=INT)
            st.heap[cx.frame] = fo.with_(f=nf)

    def x_For(self, s, st, cx):
        outs = []
        if not isinstance(s, ast.comprehension):
            self.havoc_flags(s, st, cx)
        names = _stores_in(s.body) if not isinstance(s, ast.comprehension) else set()
        for it, s1 in self.ev(s.iter, st, cx):
            def body(v, s2):
                r = []
                for s3 in self.assign(s.target, v, s2, cx):
                    for k3, v3, s4 in self.exec_block(s.body, [s3], cx):
                        fo = s4.heap.get(cx.frame)
                        if k3 in ("N", "C") and lh is not None and fo is not None:
                            nf = {k: x for k, x in fo.f.items() if k in lh or k == "self" or k.startswith("%")}
                            if len(nf) != len(fo.f):
                                s4.heap[cx.frame] = fo.with_(f=nf)
                        r.append((k3, v3, s4))
                return r
            body.frames = [cx.frame]
            lh = self.live(cx.fn).head.get(s) if cx.fn is not None and not cx.fn.is_lambda else None
            for k, v, s2 in self.iterate(it, s1, cx, self.label(s, cx), body, acc=((cx.frame, names),) + (cx.acc or ()), live=(cx.frame, lh)):
                if k == "N":
                    if s.orelse:
                        outs.extend(self.exec_block(s.orelse, [s2], cx))
                    else:
                        outs.append(("N", None, s2))
                elif k == "B":
                    outs.append(("N", None, s2))
                else:
                    outs.append((k, v, s2))
        return outs

    def x_While(self, s, st, cx):
        if self.opts.get("exact"):
            states, outs = [st], []         # a test that is decided is followed round by round
            for _ in range(24):
                nxt, open_ = [], False
                for x in states:
                    c = self.cond(s.test, x.copy(), cx)
                    if len(c) != 1:
                        open_ = True
                        break
                    b, s2 = c[0]
                    if not b:
                        outs.extend(self.exec_block(s.orelse, [s2], cx) if s.orelse else [("N", None, s2)])
                        continue
                    for kk, v, s3 in self.exec_block(s.body, [s2], cx):
                        if kk in ("N", "C"):
                            nxt.append(s3)
                        else:
                            outs.append(("N" if kk == "B" else kk, v, s3))
                if open_ or len(nxt) > 64:
                    break
                states = nxt
                if not states:
                    return outs
            outs = []
        label = self.label(s, cx)
        lh = self.live(cx.fn).head.get(s)
        tab, work, res = {}, [], {}
        self.havoc_flags(s, st, cx)
        shift(st, label)

        def push(x):
            k = self.covering(self.skel(x), tab)
            if k not in tab:
                tab[k] = x
            elif not self.join_into(tab[k], x):
                return
            if k not in work:
                work.append(k)
        push(st)
        rounds = 0
        while work:
            key = work.pop()
            h = tab[key].copy()
            outs = res[key] = []
            rounds += 1
            if rounds > self.opts.get('loop_limit', LOOP_LIMIT):
                self.cuts.add(f"loop {self.loc(s, cx)}")
                break
            head = h.copy()
            for b, s2 in self.cond(s.test, h, cx):
                if not b:
                    outs.extend(self.exec_block(s.orelse, [s2], cx) if s.orelse else [("N", None, s2)])
                    continue
                for kk, v, s3 in self.exec_block(s.body, [s2], cx):
                    if kk in ("N", "C"):
                        s4 = self.backedge(s3, head, label, (cx.frame, lh), None, cx=cx)
                        if s4 is not None:
                            push(s4)
                    elif kk == "B":
                        outs.append(("N", None, s3))
                    else:
                        outs.append((kk, v, s3))
        return self.merge_outs([x for o in res.values() for x in o])

    def capture(self, val, label, st):
        """(template, guards) of a value for storage in a bag, binding the instances of `label`."""
        ins = set()
        term_insts(val, ins)
        free = {i for i in ins if i[1] != 9}
        guards = set()
        nodes = {t for t in subterms(val) if t.op == "node"}
        if self.views and (free or nodes):
            self.derive_views(st)
        for a, b in st.facts.items():
            if not a.insts <= ins or self.is_soft(a):
                continue
            if free and a.insts & free or nodes and not a.insts & free and any(t in nodes for t in subterms(a)):
                guards.add((a, b))
        return val, frozenset(guards)

    def rebind(self, x, label):
        keep = self.keep

        def f(t):
            if t.op == "i" and (_lab(t.args[0], label) and t.args[1] == 0 or t.args[1] < 9 and keep is not None and t.args not in keep):
                return inst(t.args[0], 9)
            return None
        return subst(x, f, {})

    def backedge(self, st, head, label, live, tpath, still=False, cx=None):
        if cx is not None and cx.frame in head.heap and cx.frame in st.heap:
            hf, fo = head.heap[cx.frame].f, st.heap[cx.frame]
            fl = {n: v for n, v in hf.items() if v.op == "sym" and v.args[0].startswith("flag:") and fo.f.get(n) is not v}
            if fl:
                st.heap[cx.frame] = fo.with_(f=fo.f | fl)
                gone = set(fl.values())
                for a in [a for a in st.facts if any(t in gone for t in subterms(a))]:
                    del st.facts[a]
                    st.eqc.pop(a, None)
        self.keep = head.value_insts()
        frame, lh = live
        if frame is not None and lh is not None:
            fo = st.heap.get(frame)
            if fo is not None:
                nf = {k: v for k, v in fo.f.items() if k in lh or k == "self" or k.startswith("%")}
                if len(nf) != len(fo.f):
                    st.heap[frame] = fo.with_(f=nf)
        # containers that changed: generalise to bags
        for r, o in list(st.heap.items()):
            if o.kind not in ("seq", "dict"):
                continue
            ho = head.heap.get(r)
            if ho is None or ho == o:
                if ho is None and o.bag:
                    self._bind_bag(r, o, label, st)
                continue
            bag = set()
            for val, g in o.bag:
                ins = set()
                term_insts(val, ins)
                if any(i[1] < 9 and (_lab(i[0], label) or i not in self.keep) for i in ins):
                    v2, g2 = self.capture(val, label, st)
                    bag.add((self.rebind(v2, label), self.rebind(g | g2, label)))
                else:
                    bag.add((val, g))
            if o.kind == "seq":
                for x in o.items:
                    v2, g2 = self.capture(self.freeze_new(x, st, head), label, st)
                    bag.add((self.rebind(v2, label), self.rebind(g2, label)))
                st.heap[r] = o.with_(items=(), bag=frozenset(bag), ne=bool(o.items) or o.ne and ho.ne if False else False)
            else:
                keep = []
                for kv in o.items:
                    if kv in ho.items or (kv[0].op == "c"):
                        keep.append(kv)
                        continue
                    ins = set()
                    term_insts(kv, ins)
                    if not ins:
                        keep.append(kv)
                        continue
                    if kv[1] is None:
                        continue
                    v2, g2 = self.capture(mk("tup", kv[0], self.freeze_new(kv[1], st, head)), label, st)
                    bag.add((self.rebind(v2, label), self.rebind(g2, label)))
                st.heap[r] = o.with_(items=tuple(keep), bag=frozenset(bag), ne=False)
        if cx is not None:
            self.gc(st, cx)
        # growth of allocation chains
        counts = {}
        for r in st.heap:
            if r.op == "ref" and r not in head.heap:
                s = r.args[0].rsplit("~", 1)[0]
                if not s.startswith("frame:"):
                    counts[s] = counts.get(s, 0) + 1
        base = {}
        for r in head.heap:
            if r.op == "ref":
                s = r.args[0].rsplit("~", 1)[0]
                base[s] = base.get(s, 0) + 1
        for s in counts:
            if base.get(s, 0) >= 2 and counts[s] >= 1:
                self.cuts.add(f"allocation chain {s.split('@')[0]}")
                return None
        # scalars that grow
        for fr in list(st.heap):
            o = st.heap[fr]
            if o.kind != "frame":
                continue
            ho = head.heap.get(fr)
            if ho is None:
                continue
            nf = None
            for k, v in o.f.items():
                hv = ho.f.get(k)
                if hv is None or hv is v:
                    continue
                nv = None
                if v.ty == INT:
                    nv = mk("unk", label, k, ty=INT)
                elif v.depth > hv.depth + 4 or (v.depth > 12 and v.depth > hv.depth):
                    nv = self.mix(v, label, k, st)
                if nv is not None:
                    nf = nf or dict(o.f)
                    nf[k] = nv
                    for a in [a for a in st.facts if nv in subterms(a)]:
                        del st.facts[a]
                        st.eqc.pop(a, None)
                    st.eqc.pop(nv, None)
            if nf is not None:
                st.heap[fr] = o.with_(f=nf)
        if tpath is not None:
            self.prefix_missing(st, tpath, label)
        if tpath is not None:
            i0, iz = inst(label, 0), inst(label, 11)

            def f(t):
                if t.op == "pren" and t.args[0] is tpath and t.args[1] is i0:
                    return mk("pre", tpath, iz, ty=PATH)
                if t.op == "pre" and t.args[0] is tpath and t.args[1] is i0:
                    p = mk("pre", tpath, iz, ty=PATH)
                    return p if still else mk("parent", p, ty=PATH)
                return None

            def f2(t):
                return i0 if t is iz else None
            st.rewrite(f)
            shift(st, label)
            st.rewrite(f2)
            up = mk("parent", mk("pre", tpath, i0, ty=PATH), ty=PATH)
            used = any(up in subterms(t) for o in st.heap.values() for t in o.terms() if isinstance(t, T) and t.insts)
            if not used:
                for a in [a for a in st.facts if a.insts and up in subterms(a)]:
                    del st.facts[a]
                    st.eqc.pop(a, None)
        else:
            shift(st, label)
        st.drop_dead_inst_facts([mk("pre", tpath, inst(label, 0), ty=PATH)] if tpath is not None else ())
        return st

    def _bind_bag(self, r, o, label, st):
        bag = set()
        ch = False
        for val, g in o.bag:
            ins = set()
            term_insts(val, ins)
            if any(i[1] < 9 and (_lab(i[0], label) or i not in self.keep) for i in ins):
                v2, g2 = self.capture(val, label, st)
                bag.add((self.rebind(v2, label), self.rebind(g | g2, label)))
                ch = True
            else:
                bag.add((val, g))
        if ch:
            st.heap[r] = o.with_(bag=frozenset(bag))

    def mix(self, v, label, k, st):
        leaves = []
        for t in subterms(v):
            if t.op in ("content", "node", "kidp") or (t.op == "attr" and t.args[1] in ("line_text",)):
                leaves.append(self.capture(t, label, st))
        leaves = frozenset((self.rebind(a, label), self.rebind(g, label)) for a, g in leaves)
        return mk("mix", label, k, leaves, ty=v.ty)

    def prefix_missing(self, st, t, label):
        """A prefix of t is missing (or not a directory) => t does not resolve."""
        i0 = inst(label, 0)
        pren, pre = mk("pren", t, i0, ty=PATH), mk("pre", t, i0, ty=PATH)
        f = st.facts
        if f.get(mk("exists", pren, ty=BOOL)) is False or f.get(mk("isinst", node(pre), "VirtualDirectory", ty=BOOL)) is False \
                or f.get(mk("isinst", node(pre), "VirtualFile", ty=BOOL)) is True:
            return self.assume(mk("exists", t, ty=BOOL), False, st)
        return True

    def iterate(self, it, st, cx, label, body, acc=None, live=(None, None)):
        """Feed each element of iterable `it` to body; list of (kind, value, state), 'N' = exhausted."""
        self.tick()
        op = it.op
        if op == "gen":
            fn, frame, ctx = it.args
            if frame not in st.heap:
                return [("N", None, st)]

            def yk(v, s, gcx):
                out = []
                self.roots.append(frame)
                try:
                    res_ = body(v, s)
                finally:
                    self.roots.pop()
                for k, w, s2 in res_:
                    if k in ("N", "C"):
                        out.append(("N", None, s2))
                    else:
                        s2.pend = s2.pend + ((k, w if w is not None else CNONE, it),)
                        out.append(("A", None, s2))
                return out
            yk.frames = [cx.frame] + list(getattr(body, "frames", ()))
            gcx = Cx(fn, frame, fn.module, [], yk, acc, ctx, cx, None)
            # exceptions raised by the body go to the consumer's sink directly (body closes over its own cx)
            res = []
            for k, w, s2 in self.exec_block(fn.body, [st], gcx):
                if k == "A":
                    mine = [j for j, x in enumerate(s2.pend) if x[2] is it]
                    k2, w2, _ = s2.pend[mine[-1]]
                    s2.pend = s2.pend[:mine[-1]] + s2.pend[mine[-1] + 1:]
                    res.append((k2, w2, s2))
                else:
                    res.append(("N", None, s2))
            cx.sink.extend(gcx.sink)
            out = []
            for k, w, s2 in res:
                self.gc(s2, cx, (w,) if isinstance(w, T) else ())
                out.append((k, w, s2))
            return self.merge_outs(out)
        if op == "genexp":
            comp, frame, fn, mod, ctx = it.args
            gcx = Cx(fn, frame, mod, [], None, None, ctx, cx, None)

            def eltk(s, c2):
                r = []
                for v, s2 in self.ev(comp.elt, s, c2):
                    r.extend(body(v, s2))
                return r
            res = self.comp_loop(comp.generators, 0, st, gcx, eltk, acc=acc)
            cx.sink.extend(gcx.sink)
            return res
        if op == "tup":
            return self.seq_loop(list(it.args), st, body)
        if op == "c" and isinstance(it.args[1], str):
            return self.seq_loop([const(x) for x in it.args[1]], st, body) if len(it.args[1]) <= 8 else self.sym_loop(it, st, cx, label, body, acc, live)
        if op == "enum":
            inner, start = it.args
            if self.is_exact(inner, st):
                n = [cval(start) if start.op == "c" else 0]
                cnt = [0]

                def bodyx(v, s):
                    return body(mk("tup", const(n[0] + self._enum_i), v), s)
                return self.exact_enum(inner, st, cx, label, body, start)

            def body2(v, s):
                return body(mk("tup", mk("idx", inst(label, 0), start, ty=INT), v), s)
            body2.frames = getattr(body, "frames", [])
            return self.iterate(inner, st, cx, label, body2, acc, live)
        if op == "zip":
            its = it.args
            if all(self.is_exact(x, st) for x in its):
                cols = [self.exact_items(x, st) for x in its]
                return self.seq_loop([mk("tup", *t) for t in zip(*cols)], st, body)
            first = its[0]

            def body3(v, s):
                vals = [v] + [self.elem(x, label, s) for x in its[1:]]
                return body(mk("tup", *vals), s)
            body3.frames = getattr(body, "frames", [])
            return self.iterate(first, st, cx, label, body3, acc, live)
        if op == "map":
            f, inner = it.args

            def body4(v, s):
                r = []
                for w, s2 in self.call(f, [v], {}, s, cx, None):
                    r.extend(body(w, s2))
                return r
            body4.frames = getattr(body, "frames", [])
            return self.iterate(inner, st, cx, label, body4, acc, live)
        if op == "filter":
            f, inner = it.args

            def body5(v, s):
                r = []
                vs = [(v, s)] if f is CNONE else self.call(f, [v], {}, s, cx, None)
                for w, s2 in vs:
                    for b, s3 in self.truthy(w, s2):
                        r.extend(body(v, s3) if b else [("N", None, s3)])
                return r
            body5.frames = getattr(body, "frames", [])
            return self.iterate(inner, st, cx, label, body5, acc, live)
        if op in ("iterv", "rev", "sortedv"):
            inner = it.args[0]
            if op == "rev" and self.is_exact(inner, st):
                return self.seq_loop(self.exact_items(inner, st)[::-1], st, body)
            return self.iterate(inner, st, cx, label, body, acc, live)
        if op == "chain":
            outs = [("N", None, st)]
            for i, x in enumerate(it.args):
                nx = []
                for k, v, s in outs:
                    if k == "N":
                        nx.extend(self.iterate(x, s, cx, f"{label}.{i}", body, acc, live))
                    else:
                        nx.append((k, v, s))
                outs = nx
            return outs
        if op == "range":
            vals = it.args
            if all(v.op == "c" for v in vals):
                r = list(range(*[v.args[1] for v in vals]))
                if len(r) <= 8:
                    return self.seq_loop([const(x) for x in r], st, body)
            return self.sym_loop(it, st, cx, label, body, acc, live)
        if self.is_exact(it, st):
            return self.seq_loop(self.exact_items(it, st), st, body)
        if it.ty == NONE or it is CNONE:
            self.raise_(cx, self.exc("TypeError"), st)
            return []
        return self.sym_loop(it, st, cx, label, body, acc, live)

    def merge_outs(self, outs):
        by = {}
        for k, v, s in outs:
            by.setdefault(k, []).append((v if v is not None else CNONE, s))
        r = []
        for k, l in by.items():
            r.extend((k, v, s) for v, s in self.merge(l))
        return r

    def exact_enum(self, inner, st, cx, label, body, start):
        items = self.exact_items(inner, st)
        b = start.args[1] if start.op == "c" else 0
        return self.seq_loop([mk("tup", const(b + i), x) for i, x in enumerate(items)], st, body)

    def is_exact(self, it, st):
        if it.op == "tup":
            return True
        if it.op in ("iterv", "rev", "sortedv"):
            return self.is_exact(it.args[0], st)
        if it.op == "seqv":
            return it.args[1] is CNONE and not it.args[3]
        o = st.heap.get(it)
        if o is not None and o.kind in ("seq", "dict"):
            return o.exact
        if it.op == "dview":
            o = st.heap.get(it.args[0])
            if o is None and it.args[0].op == "glob":
                o = self.globobj(it.args[0], st)
            return o is not None and o.exact
        if it.op == "glob":
            o = self.globobj(it, st)
            return o is not None and o.exact
        return False

    def globobj(self, g, st):
        o = st.heap.get(g)
        if o is None:
            m, n = g.args
            e = self.prog.modules[m].ns[n][1]
            if isinstance(e, (ast.Dict, ast.List, ast.Set)):
                r = self.ev(e, st, Cx(None, None, self.prog.modules[m], []))
                if r:
                    o = st.heap[r[0][0]]
                    st.heap[g] = o
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "set", "tuple", "list", "dict"):
                r = self.ev(e, st, Cx(None, None, self.prog.modules[m], []))
                if r and r[0][0] in st.heap:
                    o = st.heap[r[0][0]]
                    st.heap[g] = o
        return o

    def exact_items(self, it, st):
        if it.op == "tup":
            return list(it.args)
        if it.op == "rev":
            return self.exact_items(it.args[0], st)[::-1]
        if it.op in ("iterv", "sortedv"):
            return self.exact_items(it.args[0], st)
        if it.op == "seqv":
            return list(it.args[2])
        if it.op == "dview":
            o = st.heap[it.args[0]]
            its = _dict_live(o)
            return {"items": [mk("tup", k, v) for k, v in its], "keys": [k for k, v in its], "values": [v for k, v in its]}[it.args[1]]
        o = st.heap[it]
        if o.kind == "dict":
            return [k for k, v in _dict_live(o)]
        return list(o.items)

    def seq_loop(self, items, st, body):
        cur = [st]
        outs = []
        items = list(items)
        for j, x in enumerate(items):
            nx = []
            self.roots.append(tuple(items[j:]))     # elements still to come must survive collections in the body
            try:
                for s in cur:
                    for k, v, s2 in body(x, s):
                        if k in ("N", "C"):
                            nx.append(s2)
                        else:
                            outs.append((k, v, s2))
            finally:
                self.roots.pop()
            cur = [s for _, s in self.merge([(CNONE, s) for s in nx])]
            if not cur:
                break
        outs.extend(("N", None, s) for s in cur)
        return outs

    def elem(self, coll, label, st):
        """Generic element of a symbolic collection term."""
        i = inst(label, 0)
        p = self.kids_of(coll)
        if p is not None:
            return p_name(mk("kidp", p, i, ty=PATH))
        t = parts_base(coll)
        if t is not None:
            return mk("part", t, i, ty=STR)
        if coll.op == "filt":
            return self.elem(coll.args[0], label, st)
        return mk("elem", coll, i, ty=elem_ty(self.typ(coll, st)))

    def kids_of(self, coll):
        if coll.op == "attr" and coll.args[1] == "children" and coll.args[0].op == "node":
            return coll.args[0].args[0]
        return None

    def choices(self, it, label, st, cx):
        """[(element value, state)] for one generic iteration over a symbolic / summarised iterable."""
        out = []
        view = None
        coll = it
        if it.op == "dview":
            coll, view = it.args
        o = st.heap.get(coll)
        if coll.op == "seqv":
            o = Obj("seq", coll.args[0], {}, coll.args[1] if coll.args[1] is not CNONE else None, coll.args[2], coll.args[3])
        elif coll.op == "dictv":
            o = Obj("dict", None, {}, coll.args[0] if coll.args[0] is not CNONE else None, coll.args[1], coll.args[2])
        if coll.op == "ref" and o is None:
            return []
        base = o.base if o is not None else coll
        isd = (o is not None and o.kind == "dict") or drop_none(self.typ(coll, st))[0] == "dict"

        def wrap(k, v):
            if not isd:
                return k
            if view == "items":
                return mk("tup", k, v)
            if view == "values":
                return v
            return k
        if o is not None:
            for x in o.items:
                if o.kind == "dict":
                    if x[1] is not None:
                        out.append((wrap(x[0], x[1]), st.copy()))
                else:
                    out.append((x, st.copy()))
            for val, g in sorted(o.bag, key=repr):
                s2 = st.copy()
                v2, ok = self.instantiate(val, g, label, s2)
                if ok:
                    if o.kind == "dict":
                        out.append((wrap(v2.args[0], v2.args[1]), s2))
                    else:
                        out.append((v2, s2))
        if base is not None:
            p = self.kids_of(base)
            bases = base.args if base.op == "union_" else [base]
            for bse in bases:
                p = self.kids_of(bse)
                if p is not None:
                    if kid_depth(p) >= self.kid_limit:
                        self.cuts.add("descendants below the depth bound")
                        continue
                    if st.facts.get(mk("truthy", fld_children(p), ty=BOOL)) is False:
                        continue
                    kp = mk("kidp", p, inst(label, 0), ty=PATH)
                    for s2 in self.with_foralls(mk("kids", p), label, st):
                        out.append((wrap(p_name(kp), node(kp)), s2))
                    continue
                t = parts_base(bse)
                if t is not None:
                    if bse.op == "parts":
                        out.append((const("/"), st.copy()))
                    out.append((mk("part", t, inst(label, 0), ty=STR), st.copy()))
                    continue
                for s2 in self.with_foralls(bse, label, st):
                    k = self.elem(bse, label, s2)
                    if isd:
                        ty = drop_none(self.typ(bse, s2))
                        out.append((wrap(k, mk("item", bse, k, ty=ty[2] if ty[0] == "dict" else ANY)), s2))
                    else:
                        out.append((k, s2))
        return out

    def instantiate(self, val, guards, label, st):
        def f(t):
            if t.op == "i" and t.args[1] == 9:
                l = t.args[0]
                if isinstance(l, tuple) and l[0] == label and not clash:
                    return inst(l, 0)
                return inst((label, l), 0)
            return None
        labs = {i[0] for i in val.insts if i[1] == 9}
        clash = any(isinstance(l, tuple) and l[0] == label and l[1] in labs for l in labs)
        memo = {}
        v2 = subst(val, f, memo)
        for a, b in guards:
            if not self.assume(subst(a, f, memo), b, st):
                return v2, False
        return v2, True

    def with_foralls(self, coll, label, st):
        alts = st.foralls.get(coll)
        if not alts:
            return [st.copy()]
        out = []
        lam = inst("\u03bb", 0)
        i0 = inst(label, 0)

        def f(t):
            return i0 if t is lam else None
        for alt in sorted(alts, key=lambda a: sorted(map(repr, a))):
            s2 = st.copy()
            ok = True
            for a, b in alt:
                if not self.assume(subst(a, f, {}), b, s2):
                    ok = False
                    break
            if ok:
                out.append(s2)
        return out

    def sym_loop(self, it, st, cx, label, body, acc, live):
        # A temporary container that nothing else refers to is dropped after the first round, so its elements are considered one at a time
        # (flags carried between elements are havocked at the loop head); option "rounds" keeps it for runs where one element affects the next.
        if not self.opts.get("rounds"):
            return self._sym_loop(it, st, cx, label, body, acc, live)
        self.roots.append(it)
        try:
            return self._sym_loop(it, st, cx, label, body, acc, live)
        finally:
            self.roots.pop()

    def _sym_loop(self, it, st, cx, label, body, acc, live):
        shift(st, label)
        coll = it.args[0] if it.op == "dview" else it
        o = st.heap.get(coll)
        base = o.base if o is not None else coll
        tpath = parts_base(base) if base is not None else None
        if tpath is not None:
            i0 = inst(label, 0)
            for fr, names in (acc or ()):
                if fr not in st.heap:
                    continue
                fo = st.heap[fr]
                nf = dict(fo.f)
                for n in names:
                    v = nf.get(n)
                    if v is not None and v.op == "node" and v.args[0] is ROOTP:
                        nf[n] = node(mk("pre", tpath, i0, ty=PATH))
                    elif v is ROOTP:
                        nf[n] = mk("pre", tpath, i0, ty=PATH)
                st.heap[fr] = fo.with_(f=nf)
        outs = []
        tab, work = {}, []

        def push(x, adv):
            k = self.covering(self.skel(x), tab, adv)
            if k not in tab:
                tab[k] = x
            elif not self.join_into(tab[k], x):
                return
            if k not in work:
                work.append(k)
        push(st, False)
        alts = set()
        nonroot = tpath is not None and self.known(self.eq_atom(ROOTP, tpath), st) is False
        pkey = self.kids_of(base) if base is not None else None
        ckey = mk("kids", pkey) if pkey is not None else base
        i0 = inst(label, 0)
        kin = {x for x in ckey.insts if x != i0.args} if ckey is not None else set()
        rounds = 0
        while work:
            k = work.pop()
            h, adv = tab[k].copy(), k[1]
            rounds += 1
            if rounds > self.opts.get('loop_limit', LOOP_LIMIT):
                self.cuts.add(f"loop {label}")
                break
            head = h.copy()
            for v, s2 in self.choices(it, label, head.copy(), cx):
                mark = len(cx.sink)
                for kk, w, s3 in body(v, s2):
                    if kk in ("N", "C"):
                        fs = frozenset((a, b) for a, b in s3.facts.items() if i0.args in a.insts and all(x == i0.args or x in kin for x in a.insts))
                        alts.add(fs)
                        s4 = self.backedge(s3, head, label, live if live[0] is not None else (None, None), tpath, is_const(v), cx)
                        if s4 is not None:
                            push(s4, adv or not is_const(v))
                    else:
                        if tpath is not None:
                            if not self.prefix_missing(s3, tpath, label):
                                continue
                        outs.append((kk, w, s3))
                if tpath is not None:
                    keep = []
                    for e, s3 in cx.sink[mark:]:
                        if self.prefix_missing(s3, tpath, label):
                            keep.append((e, s3))
                    cx.sink[mark:] = keep
        exits = [x for (_, adv), x in tab.items() if adv or not nonroot]
        lam = inst("\u03bb", 0)

        def fl(t):
            return lam if t is i0 else None
        if ckey is not None and alts and len(alts) <= 24 and (o is None or not o.items):
            ga = frozenset(frozenset((subst(a, fl, {}), b) for a, b in alt) for alt in alts)
            if frozenset() in ga:
                ga = None
        else:
            ga = None
        seen2 = set()
        for s in exits:
            if tpath is not None:
                def f(t):
                    if t.op == "pre" and t.args[0] is tpath and t.args[1] is i0:
                        return tpath
                    return None
                if not s.rewrite(f):
                    continue        # the whole path resolved and did not resolve: infeasible
            if ga is not None:
                s.foralls[ckey] = ga
            k = s.key()
            if k not in seen2:
                seen2.add(k)
                outs.append(("N", None, s))
        return outs

    # ---------------------------------------------------------- comprehension
    def comp_loop(self, gens, i, st, cx, k, acc=None):
        if i == len(gens):
            return k(st, cx)
        if i == 0:
            self.roots.append(cx.frame)
            try:
                return self.comp_gen(gens, i, st, cx, k, acc)
            finally:
                self.roots.pop()
        return self.comp_gen(gens, i, st, cx, k, acc)

    def comp_gen(self, gens, i, st, cx, k, acc=None):
        g = gens[i]
        outs = []
        for it, s1 in self.ev(g.iter, st, cx):
            def body(v, s2):
                r = []
                for s3 in self.assign(g.target, v, s2, cx):
                    sts = [s3]
                    for c in g.ifs:
                        nx = []
                        for s4 in sts:
                            for b, s5 in self.cond(c, s4, cx):
                                if b:
                                    nx.append(s5)
                                else:
                                    r.append(("N", None, s5))
                        sts = nx
                    for s4 in sts:
                        r.extend(self.comp_loop(gens, i + 1, s4, cx, k, acc))
                return r
            body.frames = [cx.frame]
            outs.extend(self.iterate(it, s1, cx, self.label(g.target, cx), body, acc=acc, live=(cx.frame, set())))
        return outs

    def comp_frame(self, e, st, cx):
        fr = st.alloc(f"frame:comp:{e.lineno}.{e.col_offset}@{cx.ctx}", Obj("frame", "comp", {}, base=cx.frame))
        return cx.sub(frame=fr, up=cx)

    def v_ListComp(self, e, st, cx):
        return self.comp_build(e, st, cx, "list")

    def v_SetComp(self, e, st, cx):
        return self.comp_build(e, st, cx, "set")

    def comp_build(self, e, st, cx, kind):
        # [x for x in it if cond(x)] over a path's parts keeps the "parts" structure
        if len(e.generators) == 1 and isinstance(e.elt, ast.Name) and isinstance(e.generators[0].target, ast.Name) and e.elt.id == e.generators[0].target.id:
            r = self.ev(e.generators[0].iter, st.copy(), cx.sub(sink=[]))
            if len(r) == 1 and parts_base(r[0][0]) is not None:
                return [(mk("filt", r[0][0], ty=("list", STR)), st)]
        c2 = self.comp_frame(e, st, cx)
        acc = st.alloc(f"comp:{self.site(e, cx)}", Obj("seq", kind))
        st.heap[c2.frame] = st.heap[c2.frame].with_(f={"%acc": acc})

        def k(s, cc):
            r = []
            for v, s2 in self.ev(e.elt, s, cc):
                o = s2.heap[acc]
                s2.heap[acc] = o.with_(items=o.items + (v,)) if not (kind == "set" and v in o.items) else o
                r.append(("N", None, s2))
            return r
        self.roots.append(acc)
        try:
            outs = self.comp_loop(e.generators, 0, st, c2, k)
        finally:
            self.roots.pop()
        res = []
        for kk, v, s in outs:
            s.heap.pop(c2.frame, None)
            res.append((acc, s))
        return self.merge(res)

    def v_DictComp(self, e, st, cx):
        c2 = self.comp_frame(e, st, cx)
        acc = st.alloc(f"comp:{self.site(e, cx)}", Obj("dict"))
        st.heap[c2.frame] = st.heap[c2.frame].with_(f={"%acc": acc})

        def k(s, cc):
            r = []
            for kv, s2 in self.evs([e.key, e.value], s, cc):
                o = s2.heap[acc]
                s2.heap[acc] = o.with_(items=o.items + ((kv[0], kv[1]),))
                r.append(("N", None, s2))
            return r
        self.roots.append(acc)
        try:
            outs = self.comp_loop(e.generators, 0, st, c2, k)
        finally:
            self.roots.pop()
        res = []
        for kk, v, s in outs:
            s.heap.pop(c2.frame, None)
            res.append((acc, s))
        return self.merge(res)

    def v_GeneratorExp(self, e, st, cx):
        c2 = self.comp_frame(e, st, cx)
        return [(mk("genexp", e, c2.frame, cx.fn, cx.mod, cx.ctx, ty=("iter", ANY)), st)]

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, cx):
        self.tick()
        m = getattr(self, "v_" + e.__class__.__name__, None)
        if m is None:
            self.unknown.add(f"{self.loc(e, cx)} {e.__class__.__name__}")
            return [(mk("unk", self.site(e, cx)), st)]
        return m(e, st, cx)

    def evs(self, es, st, cx):
        res = [((), st)]
        for e in es:
            nx = []
            for vs, s in res:
                self.roots.append(vs)       # temporaries must survive collections inside later operands
                try:
                    for v, s2 in self.ev(e, s, cx):
                        nx.append((vs + (v,), s2))
                finally:
                    self.roots.pop()
            res = nx
        return res

    def cond(self, e, st, cx):
        """[(bool, state)] of a condition, with short-circuit splitting."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, out = [st], []
            for i, x in enumerate(e.values):
                nx = []
                for s in cur:
                    for b, s2 in self.cond(x, s, cx):
                        if b == isand:
                            nx.append(s2)
                        else:
                            out.append((b, s2))
                cur = nx
            return out + [(isand, s) for s in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, s) for b, s in self.cond(e.operand, st, cx)]
        out = []
        for v, s in self.ev(e, st, cx):
            out.extend(self.truthy(v, s))
        return out

    def v_Constant(self, e, st, cx):
        return [(const(e.value) if not isinstance(e.value, complex) and e.value is not Ellipsis else mk("unk", "const"), st)]

    def v_Name(self, e, st, cx):
        v = self.getvar(e.id, st, cx)
        return [(v, st)]

    def getvar(self, name, st, cx):
        fr = cx.frame
        n = 0
        while fr is not None and n < 20:
            o = st.heap.get(fr)
            if o is None:
                break
            if name in o.f:
                return o.f[name]
            fr = o.base
            n += 1
        v = self.modval(cx.mod, name, st)
        if v is not None:
            return v
        return mk("ext", "builtins." + name)

    def modval(self, mod, name, st):
        v = self.prog.lookup(mod, name)
        if v is None:
            return None
        if v[0] == "fn":
            return mk("fn", v[1], None)
        if v[0] == "cls":
            return mk("cls", v[1].name)
        if v[0] == "ext":
            return mk("ext", v[1])
        if v[0] == "mod":
            return mk("mod", v[1])
        if v[0] == "expr":
            e = v[1]
            if isinstance(e, ast.Constant):
                return const(e.value)
            if isinstance(e, ast.Tuple) and all(isinstance(x, ast.Constant) for x in e.elts):
                return mk("tup", *[const(x.value) for x in e.elts])
            owner = mod
            for m in self.prog.modules.values():
                if m.ns.get(name) is v:
                    owner = m
            if isinstance(e, ast.Call) and ast.unparse(e.func) in ("PurePosixPath",) and len(e.args) == 1 and isinstance(e.args[0], ast.Constant):
                return p_const(e.args[0].value)
            if isinstance(e, (ast.BinOp, ast.UnaryOp, ast.JoinedStr)):
                r = self.ev(e, st, Cx(None, None, owner, []))
                if len(r) == 1:
                    return r[0][0]
            ty = ANY
            if isinstance(e, ast.Dict):
                ty = ("dict", ANY, ANY)
            elif isinstance(e, ast.List):
                ty = ("list", ANY)
            elif isinstance(e, ast.Set) or (isinstance(e, ast.Call) and ast.unparse(e.func) in ("frozenset", "set")):
                ty = ("set", ANY)
            g = mk("glob", owner.name, name, ty=ty)
            self.globobj(g, st)
            return g
        return None

    def setvar(self, name, v, st, cx):
        fr = cx.frame
        if cx.fn is not None and name in cx.fn.nonlocals:
            o = st.heap.get(st.heap[fr].base) if fr in st.heap and st.heap[fr].base is not None else None
            f2 = st.heap[fr].base if fr in st.heap else None
            while f2 is not None and f2 in st.heap:
                if name in st.heap[f2].f:
                    st.heap[f2] = st.heap[f2].with_(f={**st.heap[f2].f, name: v})
                    return
                f2 = st.heap[f2].base
        o = st.heap[fr]
        st.heap[fr] = o.with_(f={**o.f, name: v})

    def v_NamedExpr(self, e, st, cx):
        out = []
        for v, s in self.ev(e.value, st, cx):
            c = cx
            fr = cx.frame
            while s.heap[fr].cls == "comp" and s.heap[fr].base is not None:
                fr = s.heap[fr].base
            self.setvar(e.target.id, v, s, cx.sub(frame=fr))
            out.append((v, s))
        return out

    def v_IfExp(self, e, st, cx):
        out = []
        for b, s in self.cond(e.test, st, cx):
            out.extend(self.ev(e.body if b else e.orelse, s, cx))
        return out

    def pure_bool(self, e, st, cx):
        """Evaluate a condition to a single boolean term when that needs no splitting."""
        if isinstance(e, ast.BoolOp):
            ts = []
            for x in e.values:
                t = self.pure_bool(x, st, cx)
                if t is None:
                    return None
                ts.append(t)
            op = "and" if isinstance(e.op, ast.And) else "or"
            return mk(op, *ts, ty=BOOL)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.pure_bool(e.operand, st, cx)
            if t is None:
                return None
            return t.args[0] if t.op == "not" else mk("not", t, ty=BOOL)
        s2 = st.copy()
        c2 = cx.sub(sink=[])
        r = self.ev(e, s2, c2)
        if len(r) == 1 and not c2.sink and (r[0][0].ty == BOOL) and len(r[0][1].facts) == len(st.facts):
            return r[0][0]
        return None

    def v_BoolOp(self, e, st, cx):
        isand = isinstance(e.op, ast.And)
        cur, out = [st], []
        for i, x in enumerate(e.values):
            nx = []
            for s in cur:
                for v, s2 in self.ev(x, s, cx):
                    if i == len(e.values) - 1:
                        out.append((v, s2))
                        continue
                    if not isand and i == len(e.values) - 2 and isinstance(e.values[-1], (ast.Dict, ast.List)) and \
                            not (e.values[-1].keys if isinstance(e.values[-1], ast.Dict) else e.values[-1].elts) and \
                            self.typ(v, s2)[0] in ("dict", "list"):
                        out.append((v, s2))
                        continue
                    for b, s3 in self.truthy(v, s2):
                        if b == isand:
                            nx.append(s3)
                        else:
                            if v.ty == BOOL and v.op != "c":
                                out.append((const(b), s3))
                            else:
                                out.append((v, s3))
            cur = nx
        return out

    def v_UnaryOp(self, e, st, cx):
        out = []
        if isinstance(e.op, ast.Not):
            t = None
            for v, s in self.ev(e.operand, st, cx):
                if v.ty == BOOL:
                    out.append((const(not v.args[1]) if v.op == "c" else (v.args[0] if v.op == "not" else mk("not", v, ty=BOOL)), s))
                else:
                    for b, s2 in self.truthy(v, s):
                        out.append((const(not b), s2))
            return out
        for v, s in self.ev(e.operand, st, cx):
            if v.op == "c" and isinstance(e.op, ast.USub):
                out.append((const(-v.args[1]), s))
            else:
                out.append((mk("neg", v, ty=v.ty), s))
        return out

    def v_BinOp(self, e, st, cx):
        out = []
        for (a, b), s in self.evs([e.left, e.right], st, cx):
            out.extend(self.binop(e.op, a, b, s, cx, e))
        return out

    def binop(self, op, a, b, st, cx, node_):
        return self.models.binop(self, op, a, b, st, cx, node_)

    def v_Compare(self, e, st, cx):
        if len(e.ops) == 1:
            out = []
            for (a, b), s in self.evs([e.left, e.comparators[0]], st, cx):
                out.extend(self.compare(e.ops[0], a, b, s, cx))
            return out
        out = []
        for vals, s in self.evs([e.left] + e.comparators, st, cx):
            cur, done = [s], []
            for i, op in enumerate(e.ops):
                nx = []
                for s1 in cur:
                    for v, s2 in self.compare(op, vals[i], vals[i + 1], s1, cx):
                        for b, s3 in self.truthy(v, s2):
                            (nx.append(s3) if b else done.append((FALSE, s3)))
                cur = nx
            out.extend(done)
            out.extend((TRUE, s1) for s1 in cur)
        return out

    def compare(self, op, a, b, st, cx):
        return self.models.compare(self, op, a, b, st, cx)

    def v_Tuple(self, e, st, cx):
        return self.seq_lit(e, st, cx, "tuple")

    def v_List(self, e, st, cx):
        return self.seq_lit(e, st, cx, "list")

    def v_Set(self, e, st, cx):
        return self.seq_lit(e, st, cx, "set")

    def seq_lit(self, e, st, cx, kind):
        out = []
        exprs = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        for vals, s in self.evs(exprs, st, cx):
            if kind == "tuple" and not any(isinstance(x, ast.Starred) for x in e.elts):
                out.append((mk("tup", *vals), s))
                continue
            if kind == "set" and all(v.op == "c" for v in vals):
                out.append((mk("tup", *vals), s)) if False else None
            r = s.alloc(f"{kind}:{self.site(e, cx)}", Obj("seq", "list" if kind == "tuple" else kind))
            sts = [s]
            for x, v in zip(e.elts, vals):
                nx = []
                for s2 in sts:
                    if isinstance(x, ast.Starred):
                        nx.extend(s3 for _, s3 in self.call_method(r, "extend", [v], {}, s2, cx, e))
                    else:
                        o = s2.heap[r]
                        s2.heap[r] = o.with_(items=o.items + (v,))
                        nx.append(s2)
                sts = nx
            out.extend((r, s2) for s2 in sts)
        return out

    def v_Dict(self, e, st, cx):
        keys = [k for k in e.keys if k is not None]
        out = []
        res = [((), st)]
        for k, v in zip(e.keys, e.values):
            nx = []
            for acc, s in res:
                self.roots.append(tuple(y for x in acc for y in x if y is not None))
                try:
                    got = self.evs(([k] if k is not None else []) + [v], s, cx)
                finally:
                    self.roots.pop()
                for vals, s2 in got:
                    nx.append((acc + ((vals[0], vals[1]) if k is not None else (None, vals[0]),), s2))
            res = nx
        for acc, s in res:
            r = s.alloc(f"dict:{self.site(e, cx)}", Obj("dict"))
            sts = [s]
            for k, v in acc:
                nx = []
                for s2 in sts:
                    if k is None:
                        nx.extend(s3 for _, s3 in self.call_method(r, "update", [v], {}, s2, cx, e))
                    else:
                        o = s2.heap[r]
                        s2.heap[r] = o.with_(items=tuple(i for i in o.items if i[0] is not k) + ((k, v),))
                        nx.append(s2)
                sts = nx
            out.extend((r, s2) for s2 in sts)
        return out

    def v_JoinedStr(self, e, st, cx):
        exprs = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        out = []
        for vals, s in self.evs(exprs, st, cx):
            parts = []
            for x, v in zip(e.values, vals):
                f = self.freeze(v, s)
                if isinstance(x, ast.FormattedValue) and x.format_spec is None and x.conversion == -1 and f.op == "c" and isinstance(f.args[1], str):
                    pass
                if f.op == "str":
                    f = f.args[0]
                if parts and parts[-1].op == "c" and f.op == "c" and isinstance(parts[-1].args[1], str) and isinstance(f.args[1], str):
                    parts[-1] = const(parts[-1].args[1] + f.args[1])
                else:
                    parts.append(f)
            if len(parts) == 1 and parts[0].op == "c" and isinstance(parts[0].args[1], str):
                out.append((parts[0], s))
            elif not parts:
                out.append((const(""), s))
            elif len(parts) == 1 and parts[0].ty in (PATH, STR):
                out.append((parts[0] if parts[0].ty == STR else mk("str", parts[0], ty=STR), s))
            else:
                out.append((mk("fstr", *parts, ty=STR), s))
        return out

    def v_FormattedValue(self, e, st, cx):
        return self.ev(e.value, st, cx)

    def v_Lambda(self, e, st, cx):
        return [(mk("fn", self.prog.nested[e], cx.frame), st)]

    def v_Starred(self, e, st, cx):
        return [(mk("star", v), s) for v, s in self.ev(e.value, st, cx)]

    def v_Await(self, e, st, cx):
        return self.ev(e.value, st, cx)

    def v_Yield(self, e, st, cx):
        out = []
        for k, v, s in self.do_yield(e, st, cx):
            if k == "N":
                out.append((CNONE, s))
            else:
                self.cuts.add("yield expression aborted")
        return out

    v_YieldFrom = v_Yield

    def v_Slice(self, e, st, cx):
        out = []
        for vals, s in self.evs([x for x in (e.lower, e.upper, e.step) if x is not None], st, cx):
            it = iter(vals)
            out.append((mk("slc", *[next(it) if x is not None else CNONE for x in (e.lower, e.upper, e.step)]), s))
        return out

    def v_Attribute(self, e, st, cx):
        out = []
        for v, s in self.ev(e.value, st, cx):
            out.extend(self.getattr(v, e.attr, s, cx, e))
        return out

    def v_Subscript(self, e, st, cx):
        out = []
        for (v, k), s in self.evs([e.value, e.slice], st, cx):
            out.extend(self.getitem(v, k, s, cx, e))
        return out

    def v_Call(self, e, st, cx):
        # short-circuit-sensitive builtins over generator expressions
        out = []
        fexpr = e.func
        if isinstance(fexpr, ast.Name) and fexpr.id == "super" and not e.args:
            fr = st.heap[cx.frame].f
            fn = cx.fn
            selfn = fn.params[0].arg if fn and fn.params else "self"
            return [(mk("super", fr.get(selfn, CNONE), fn.cls.name if fn and fn.cls else ""), st)]
        for f, s in self.ev(fexpr, st, cx):
            exprs, kinds = [], []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    exprs.append(a.value)
                    kinds.append("*")
                else:
                    exprs.append(a)
                    kinds.append("p")
            for k in e.keywords:
                exprs.append(k.value)
                kinds.append(("k", k.arg))
            self.roots.append(f)
            try:
                res = self.evs(exprs, s, cx)
            finally:
                self.roots.pop()
            for vals, s2 in res:
                args, kw = [], {}
                for kd, v in zip(kinds, vals):
                    if kd == "p":
                        args.append(v)
                    elif kd == "*":
                        if self.is_exact(v, s2):
                            args.extend(self.exact_items(v, s2))
                        else:
                            args.append(mk("star", self.freeze(v, s2)))
                    elif kd[1] is None:
                        o = s2.heap.get(v)
                        if o is not None and o.kind == "dict" and o.exact and all(k.op == "c" for k, _ in o.items):
                            kw.update({k.args[1]: x for k, x in _dict_live(o)})
                        else:
                            kw["**"] = v
                    else:
                        kw[kd[1]] = v
                out.extend(self.call(f, args, kw, s2, cx, e))
        return out

    def call(self, f, args, kw, st, cx, node_):
        return self.models.call(self, f, args, kw, st, cx, node_)

    def call_method(self, recv, name, args, kw, st, cx, node_):
        out = []
        for f, s in self.getattr(recv, name, st, cx, node_):
            out.extend(self.call(f, args, kw, s, cx, node_))
        return out

    def getattr(self, v, name, st, cx, node_):
        return self.models.getattr_(self, v, name, st, cx, node_)

    def getitem(self, v, k, st, cx, node_):
        return self.models.getitem(self, v, k, st, cx, node_)

    def setitem(self, v, k, x, st, cx, node_):
        return self.models.setitem(self, v, k, x, st, cx, node_)

    def delitem(self, v, k, st, cx, node_):
        return self.models.delitem(self, v, k, st, cx, node_)

    def setattr(self, v, name, x, st, cx, node_):
        """list of states"""
        old = None
        o = st.heap.get(v)
        if o is not None and name in o.f:
            old = o.f[name]
        elif v.op != "ref":
            r = self.getattr(v, name, st.copy(), cx.sub(sink=[]), node_)
            old = r[0][0] if r else None
        self.emit("store", st, cx, node_, obj=v, attr=name, val=x, old=old)
        if o is None:
            o = Obj("inst", self.cls_of(v, st), {})
        st.heap[v] = o.with_(f={**o.f, name: x})
        return [st]

    def assign(self, t, v, st, cx):
        """list of states"""
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, cx)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            sts = [st]
            n = len(t.elts)
            star = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            items = None
            if self.is_exact(v, st):
                items = self.exact_items(v, st)
            if items is not None and star is None and len(items) == n:
                vals = items
            elif items is not None and star is not None and len(items) >= n - 1:
                mid = items[star:len(items) - (n - 1 - star)]
                vals = items[:star] + [mk("tup", *mid)] + items[len(items) - (n - 1 - star):]
            else:
                ty = drop_none(self.typ(v, st))
                vals = []
                for i in range(n):
                    if ty[0] == "tuple" and i < len(ty[1]):
                        et = ty[1][i]
                    else:
                        et = elem_ty(ty)
                    if i == star:
                        vals.append(mk("slice", self.freeze(v, st), const(i), CNONE, ty=("list", et)))
                    else:
                        vals.append(mk("item", self.freeze(v, st), const(i), ty=et))
            for x, w in zip(t.elts, vals):
                nx = []
                for s in sts:
                    nx.extend(self.assign(x.value if isinstance(x, ast.Starred) else x, w, s, cx))
                sts = nx
            return sts
        if isinstance(t, ast.Attribute):
            out = []
            for o, s in self.ev(t.value, st, cx):
                out.extend(self.setattr(o, t.attr, v, s, cx, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for (o, k), s in self.evs([t.value, t.slice], st, cx):
                out.extend(self.setitem(o, k, v, s, cx, t))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, cx)
        return [st]

    def isinstance_(self, v, c, st):
        """[(bool, state)]"""
        if c.op == "tup":
            cur, out = [st], []
            for x in c.args:
                nx = []
                for s in cur:
                    for b, s2 in self.isinstance_(v, x, s):
                        (out.append((True, s2)) if b else nx.append(s2))
                cur = nx
            return out + [(False, s) for s in cur]
        n = c.args[0].split(".")[-1] if c.op in ("cls", "ext") else "?"
        if n == "?":
            return self.branch(mk("isinst", v, repr(c), ty=BOOL), st)
        return self.branch(mk("isinst", v, n, ty=BOOL), st)


def _dict_live(o):
    return [(k, v) for k, v in o.items if v is not None]


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
    return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)


def _stores_in(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def src(e):
    s = ast.unparse(e).replace("\n", " ")
    return s if len(s) < 90 else s[:87] + "..."
