"""Transfer functions for attribute access, calls, containers, strings, paths and library functions."""
from __future__ import annotations
import ast
from .terms import *
from .paths import *
from .prog import union, drop_none, has_none, elem_ty, BUILTIN_EXC
from .state import Obj, term_insts

NODE_CLS = ("VirtualNode", "VirtualFile", "VirtualDirectory")
STRLIST = ("list", STR)


def bterm(op, *a):
    return mk(op, *a, ty=BOOL)


# ---------------------------------------------------------------------------
# node helpers
# ---------------------------------------------------------------------------
def is_nodeval(I, v, st):
    if v.op == "node":
        return True
    c = I.cls_of(v, st)
    return c is not None and I.prog.is_sub(c, "VirtualNode")


def cjoin(I, p, k, st):
    """Child path; when p is known to be the parent of X and k is X's name, the child is X."""
    q = p_join1(p, k)
    if q.op == "join1" and k.op == "name":
        x = k.args[0]
        if I.known(I.eq_atom(p, p_parent(x)), st) is True:
            return x
    return q


def path_of(I, v, st, depth=0):
    """Path term of a node value, following overrides."""
    if depth > 6:
        return mk("unk", "path", ty=PATH)
    o = st.heap.get(v)
    if v.op == "node":
        if o is None or ("name" not in o.f and "parent" not in o.f):
            # the parent may itself have been moved
            return v.args[0]
        p = v.args[0]
        par = o.f.get("parent", node(p_parent(p)))
        nm = o.f.get("name", p_name(p))
        if par is CNONE:
            return ROOTP
        return cjoin(I, path_of(I, par, st, depth + 1), nm, st)
    if o is not None and o.kind == "inst":
        par = o.f.get("parent", CNONE)
        if par is CNONE:
            return ROOTP if o.f.get("name") in (None, const("")) or True else None
        nm = o.f.get("name", mk("unk", "name", ty=STR))
        return cjoin(I, path_of(I, par, st, depth + 1), nm, st)
    return mk("npath", v, ty=PATH)


def canon_policy(I, v, st):
    """A policy whose every field is copied from one policy P counts as P."""
    o = st.heap.get(v)
    if o is None or o.kind != "inst" or o.cls != "NodePolicy":
        return v
    src = None
    for k, x in o.f.items():
        y = x
        if y.op == "ref":
            yo = st.heap.get(y)
            if yo is not None and yo.kind == "seq" and not yo.items and not yo.bag and yo.base is not None:
                y = yo.base
        if y.op in ("seqv",) and not y.args[2] and not y.args[3]:
            y = y.args[1]
        if y.op == "attr" and y.args[1] == k and (src is None or src is y.args[0]):
            src = y.args[0]
        else:
            return v
    if src is None:
        return v
    names = {n for n, _, _ in _dc_fields(I, "NodePolicy")}
    return src if names <= set(o.f) else v


# ---------------------------------------------------------------------------
# attribute access
# ---------------------------------------------------------------------------
def getattr_(I, v, name, st, cx, node_):
    if name == "children" and v.op == "node":
        I.emit("kids", st, cx, node_, node=v)
    o = st.heap.get(v)
    if o is not None and o.kind == "inst" and name in o.f:
        return [(o.f[name], st)]
    op = v.op
    if v is CNONE or (has_none(v.ty) and v.ty != ANY and I.known(bterm("isnone", v), st) is True):
        st.note(f"{I.loc(node_, cx)} attribute {name} of None")
        I.raise_(cx, I.exc("AttributeError"), st)
        return []
    if op == "mod":
        r = I.modval(I.prog.modules[v.args[0]], name, st)
        return [(r if r is not None else mk("ext", f"{v.args[0]}.{name}"), st)]
    if op == "ext":
        return [(mk("ext", f"{v.args[0]}.{name}"), st)]
    if op == "cls":
        c = I.prog.classes[v.args[0]]
        m = c.find(name)
        if m is not None:
            if m.is_classm:
                return [(mk("bound", m, v), st)]
            return [(mk("fn", m, None), st)]
        for k in c.mro():
            if name in k.class_attrs:
                from .interp import Cx
                return I.ev(k.class_attrs[name], st, Cx(None, None, k.module, cx.sink, ctx=cx.ctx, up=cx))
        if name == "__name__":
            return [(const(v.args[0]), st)]
        return [(mk("meth", v, name), st)]
    if op == "super":
        selfv, cn = v.args
        c = I.prog.classes.get(cn)
        mro = (I.prog.classes[I.cls_of(selfv, st)].mro() if I.cls_of(selfv, st) in I.prog.classes else c.mro())
        rest = mro[mro.index(c) + 1:] if c in mro else c.mro()[1:]
        for k in rest:
            if name in k.methods:
                return [(mk("bound", k.methods[name], selfv), st)]
            if name == "__init__" and k.is_dc:
                return [(mk("dcinit", k.name, selfv), st)]
        return [(mk("noop", name), st)]
    if op == "exc":
        if name == "args":
            return [(mk("tup", v.args[1]), st)]
        return [(mk("attr", v, name, ty=INT if name == "errno" else ANY), st)]
    if op == "sig":
        if name == "parameters":
            return [(mk("sigp", v.args[0]), st)]
    if op == "param":
        if name == "kind":
            return [(v.args[0], st)]
        if name == "name":
            return [(v.args[1], st)]
        if name == "default":
            return [(mk("attr", v, "default"), st)]
    if op == "fn" and name in ("__name__", "__qualname__", "__doc__"):
        return [(const(v.args[0].name), st)]
    if op == "bound" and name in ("__name__", "__self__", "__func__"):
        return [({"__name__": const(v.args[0].name), "__self__": v.args[1], "__func__": mk("fn", v.args[0], None)}[name], st)]
    if op in ("c", "str", "fstr", "strjoin"):
        return [(mk("meth", v, name), st)]
    if op in ("tup", "seqv", "dictv", "dview", "sigp", "gen", "genexp", "iterv", "filter", "map", "zip", "enum", "sortedv", "rev"):
        return [(mk("meth", v, name), st)]
    ty = drop_none(I.typ(v, st))
    if ty == PATH:
        if name == "parts":
            cp = const_parts(v)
            if cp is not None:
                return [(mk("tup", *[const(x) for x in cp]), st)]
            return [(mk("parts", v, ty=("tuplev", STR)), st)]
        if name == "parent":
            return [(p_parent(v), st)]
        if name == "name":
            return [(p_name(v), st)]
        if name == "parents":
            ps = ancestors(v)
            if v is ROOTP or ps and ps[-1] is ROOTP:
                return [(mk("tup", *ps), st)]
            return [(mk("parents", v, ty=("list", PATH)), st)]
        if name in ("stem", "suffix", "anchor", "root"):
            return [(mk("attr", v, name, ty=STR), st)]
        return [(mk("meth", v, name), st)]
    if ty == HPATH:
        if name == "parts":
            return [(mk("parts", v, ty=("tuplev", STR)), st)]
        if name == "parent":
            return [(mk("hparent", v, ty=HPATH), st)]
        if name in ("name", "stem", "suffix"):
            return [(mk("hname", v, name, ty=STR), st)]
        return [(mk("meth", v, name), st)]
    if ty[0] in ("list", "set", "dict", "iter", "tuplev", "tuple", "str", "bytes") or (o is not None and o.kind in ("seq", "dict")):
        return [(mk("meth", v, name), st)]
    cn = I.cls_of(v, st)
    if cn is not None and cn in I.prog.classes:
        if ty[0] == "union" and v.op != "ref":
            # several possible classes: resolve before dispatching
            insts_ = [x[1] for x in ty[1] if x[0] == "inst"]
            others = [x for x in ty[1] if x[0] != "inst"]
            if len(insts_) + len(others) > 1:
                out = []
                for b, s in I.branch(bterm("isinst", v, cn), st):
                    if b:
                        out.extend(getattr_(I, v, name, s, cx, node_))
                    else:
                        t2 = I.typ(v, s)
                        if t2 != I.typ(v, st) or drop_none(t2)[0] != "union":
                            out.extend(getattr_(I, v, name, s, cx, node_))
                        else:
                            out.append((mk("attr", v, name), s))
                return out
        c = I.prog.classes[cn]
        m = c.find(name)
        if m is None:
            subs = [k for k in I.prog.subclasses(cn) if name in k.methods and k is not c]
            if len(subs) == 1 and v.op != "ref":
                m = subs[0].methods[name]
            elif len(subs) > 1 and v.op != "ref":
                return _dispatch(I, v, subs, name, st, cx, node_)
        elif v.op != "ref" and any(name in k.methods for k in I.prog.subclasses(cn) if k is not c):
            if cn == "StorageAdapter":
                return [(mk("ameth", v, name), st)]
            subs = [k for k in I.prog.subclasses(cn) if k.find(name) is not m]
            return _dispatch(I, v, subs, name, st, cx, node_, base=m)
        if cn == "StorageAdapter" and m is not None and v.op != "ref":
            return [(mk("ameth", v, name), st)]
        if m is not None:
            if m.is_prop:
                return I.call_fn(m, v, [], {}, st, cx, node_)
            if m.is_static:
                return [(mk("fn", m, None), st)]
            return [(mk("bound", m, v), st)]
        if I.prog.is_sub(cn, "VirtualNode"):
            return node_attr(I, v, name, st, cx, node_)
        if cn == "VirtualFileSystem" and v.op != "ref":
            if name == "root":
                return [(node(ROOTP), st)]
            if name == "cwd":
                return [(node(CWDP), st)]
        fty = I.prog.field_ty(cn, name)
        if v.op == "ref":
            for k in c.mro():
                if name in k.class_attrs:
                    from .interp import Cx
                    return I.ev(k.class_attrs[name], st, Cx(None, None, k.module, cx.sink, ctx=cx.ctx, up=cx))
            if name == "__class__":
                return [(mk("cls", cn), st)]
            if name == "__dict__":
                return [(mk("attr", v, name, ty=("dict", STR, ANY)), st)]
            return [(mk("attr", v, name, ty=fty or ANY), st)]
        if v.op == "instv":
            for k, x in v.args[1]:
                if k == name:
                    return [(x, st)]
        return [(mk("attr", v, name, ty=fty or ANY), st)]
    if ty[0] == "callable":
        return [(mk("attr", v, name), st)]
    return [(mk("attr", v, name), st)]


def _dispatch(I, v, subs, name, st, cx, node_, base=None):
    out = []
    rest = [st]
    for k in subs:
        nx = []
        for s in rest:
            for b, s2 in I.branch(bterm("isinst", v, k.name), s):
                if b:
                    m = k.find(name)
                    if m.is_prop:
                        out.extend(I.call_fn(m, v, [], {}, s2, cx, node_))
                    else:
                        out.append((mk("bound", m, v), s2))
                else:
                    nx.append(s2)
        rest = nx
    for s in rest:
        if base is not None:
            out.append((mk("bound", base, v), s))
        else:
            I.raise_(cx, I.exc("AttributeError"), s)
    return out


def node_attr(I, v, name, st, cx, node_):
    if v.op != "node":
        fty = I.prog.field_ty("VirtualNode", name) or I.prog.field_ty(I.cls_of(v, st) or "VirtualNode", name)
        return [(mk("attr", v, name, ty=fty or ANY), st)]
    p = v.args[0]
    if name == "name":
        return [(p_name(p), st)]
    if name == "parent":
        k = I.known(I.eq_atom(p, ROOTP), st)
        if k is True:
            return [(CNONE, st)]
        if k is False:
            return [(node(p_parent(p)), st)]
        out = []
        for b, s in I.branch(I.eq_atom(p, ROOTP), st):
            out.append((CNONE if b else node(p_parent(p)), s))
        return out
    fty = I.prog.field_ty("VirtualNode", name)
    if fty is None:
        for c in ("VirtualFile", "VirtualDirectory"):
            fty = I.prog.field_ty(c, name)
            if fty is not None:
                break
    return [(mk("attr", v, name, ty=fty or ANY), st)]


# ---------------------------------------------------------------------------
# containers
# ---------------------------------------------------------------------------
def cobj(I, v, st, create=True):
    """The container cell of value v (symbolic containers get one whose base is themselves)."""
    o = st.heap.get(v)
    if o is not None:
        return o
    if v.op == "glob":
        o = I.globobj(v, st)
        if o is not None:
            return o
    if v.op == "seqv":
        return Obj("seq", v.args[0], {}, v.args[1] if v.args[1] is not CNONE else None, v.args[2], v.args[3], v.args[4])
    if v.op == "dictv":
        return Obj("dict", None, {}, v.args[0] if v.args[0] is not CNONE else None, v.args[1], v.args[2])
    if v.op == "tup":
        return Obj("seq", "tuple", {}, None, v.args)
    t = drop_none(I.typ(v, st))
    if t[0] == "dict" or (v.op == "ext" and v.args[0] == "os.environ"):
        return Obj("dict", None, {}, base=v)
    if t[0] in ("list", "set", "iter", "tuplev", "tuple"):
        return Obj("seq", "set" if t[0] == "set" else "list", {}, base=v)
    if t == ANY:
        return Obj("seq", "list", {}, base=v)
    return None


def dval_ty(I, base, st):
    t = drop_none(I.typ(base, st))
    return t[2] if t[0] == "dict" else ANY


def base_has(I, base, k, st):
    """[(value | None, state)] for the base part of a dictionary."""
    p = I.kids_of(base)
    if p is not None:
        q = cjoin(I, p, k, st)
        out = []
        for b, s in I.branch(bterm("exists", q), st):
            out.append((node(q) if b else None, s))
        return out
    if base.op == "dictv":
        return dict_lookup_obj(I, cobj(I, base, st), k, st)
    out = []
    for b, s in I.branch(bterm("has", base, k), st):
        out.append((mk("item", base, k, ty=dval_ty(I, base, st)) if b else None, s))
    return out


def dict_lookup(I, d, k, st):
    return dict_lookup_obj(I, cobj(I, d, st), k, st)


def dict_lookup_obj(I, o, k, st):
    """[(value | None, state)]"""
    if o is None or o.kind != "dict":
        return [(mk("unk", "lookup"), st)]
    out = []
    cur = [st]
    for kk, vv in reversed(o.items):
        nx = []
        for s in cur:
            for b, s2 in I.branch(I.eq_atom(kk, k), s):
                if b:
                    out.append((vv, s2))
                else:
                    nx.append(s2)
        cur = nx
    for s in cur:
        if o.bag:
            s2 = s.copy()
            alts = []
            for val, g in sorted(o.bag, key=repr):
                s3 = s.copy()
                v2, ok = I.instantiate(val, g, f"lk{k.h & 0xffff}", s3)
                if ok and I.assume(I.eq_atom(v2.args[0], k), True, s3):
                    alts.append((v2.args[1], s3))
            out.extend(alts)
            s = s2
        if o.base is not None:
            out.extend(base_has(I, o.base, k, s))
        else:
            out.append((None, s))
    return out


def in_(I, x, coll, st, cx):
    """[(bool-term, state)]"""
    op = coll.op
    if op in ("sigp",):
        return [(bterm("in", x, coll), st)]
    if op == "dview":
        o = cobj(I, coll.args[0], st)
        if coll.args[1] == "keys":
            return in_(I, x, coll.args[0], st, cx)
        return [(bterm("in", I.freeze(x, st), coll), st)]
    if op == "c" and isinstance(coll.args[1], str):
        if x.op == "c":
            return [(const(x.args[1] in coll.args[1]), st)]
        return [(bterm("in", x, coll), st)]
    if op in ("genexp", "gen", "map", "filter"):
        r = materialise(I, coll, st, cx, None, "list")
        out = []
        for v, s in r:
            out.extend(in_(I, x, v, s, cx))
        return out
    if op == "str" or (coll.ty == STR) or drop_none(I.typ(coll, st)) == STR:
        return [(bterm("in", x, coll), st)]
    if I.is_exact(coll, st):
        o = st.heap.get(coll)
        items = I.exact_items(coll, st)
        x2 = I.freeze(x, st)
        items = [I.freeze(y, st) for y in items]
        if any(y is x2 for y in items):
            return [(TRUE, st)]
        if not items:
            return [(FALSE, st)]
        if all(y.op in ("c", "pconst") for y in items):
            if x2.op in ("c", "pconst"):
                return [(const(any(I.known(I.eq_atom(x2, y), st) for y in items)), st)]
            return [(bterm("in", x2, mk("tup", *sorted(set(items), key=repr))), st)]
        ts = [I.eq_atom(x2, y) for y in items]
        return [(ts[0] if len(ts) == 1 else bterm("or", *ts), st)]
    o = cobj(I, coll, st)
    if o is not None and o.kind == "dict":
        out = []
        for v, s in dict_lookup_obj(I, o, x, st):
            out.append((const(v is not None), s))
        return out
    if o is not None and o.kind == "seq":
        x2 = I.freeze(x, st)
        for y in o.items:
            if I.known(I.eq_atom(x2, y), st) is True:
                return [(TRUE, st)]
        if not o.items and not o.bag and o.base is not None:
            return [(bterm("in", x2, o.base), st)]
        return [(bterm("in", x2, I.freeze(coll, st)), st)]
    return [(bterm("in", I.freeze(x, st), I.freeze(coll, st)), st)]


def getitem(I, v, k, st, cx, node_):
    if k.op == "slc":
        return slice_(I, v, k, st, cx)
    if v.op == "sigp":
        return [(mk("param", mk("unk", "kind"), k), st)]
    if k.op == "c" and isinstance(k.args[1], int) and not isinstance(k.args[1], bool):
        if I.is_exact(v, st) and cobj(I, v, st) is not None and cobj(I, v, st).kind == "seq":
            items = I.exact_items(v, st)
            i = k.args[1]
            if -len(items) <= i < len(items):
                return [(items[i], st)]
            I.raise_(cx, I.exc("IndexError"), st)
            return []
        if v.op == "c" and isinstance(v.args[1], str):
            try:
                return [(const(v.args[1][k.args[1]]), st)]
            except IndexError:
                I.raise_(cx, I.exc("IndexError"), st)
                return []
        t = parts_base(v)
        if t is not None and k.args[1] == -1:
            return [(p_name(t), st)]
        if v.op == "smeth" and v.args[0] in ("split", "rsplit", "partition", "rpartition"):
            return [(mk("item", v, k, ty=STR), st)]
    if v.op == "cls" or v.op == "ext":
        if v.op == "ext" and v.args[0] == "os.environ":
            return [(mk("item", v, k, ty=STR), st)]
        return [(v, st)]
    ty = drop_none(I.typ(v, st))
    o = cobj(I, v, st)
    if o is not None and o.kind == "dict":
        out = []
        for x, s in dict_lookup_obj(I, o, k, st):
            if x is None:
                s.note(f"{I.loc(node_, cx)} KeyError")
                I.raise_(cx, I.exc("KeyError"), s)
            else:
                out.append((x, s))
        return out
    if o is not None and o.kind == "seq":
        if not o.items and not o.bag and o.base is not None:
            bt = drop_none(I.typ(o.base, st))
            if bt[0] == "tuple" and k.op == "c" and isinstance(k.args[1], int) and -len(bt[1]) <= k.args[1] < len(bt[1]):
                return [(mk("item", o.base, k, ty=bt[1][k.args[1]]), st)]
            if any(t.op == "unk" for t in subterms(k)) and bt[0] != "dict":
                return [(mk("elem", o.base, inst(f"ix:{k!r}", 0), ty=elem_ty(bt)), st)]
            return [(mk("item", o.base, k, ty=elem_ty(bt)), st)]
        out = [(x, s) for x, s in I.choices(v, f"ix:{k!r}" if k.op != "c" else f"ix{I.site(node_, cx)}", st, cx)]
        return out or [(mk("unk", "empty"), st)]
    if any(t.op == "unk" for t in subterms(k)) and ty[0] in ("list", "seq", "iter", "tuple"):
        return [(mk("elem", I.freeze(v, st), inst(f"ix:{k!r}", 0), ty=elem_ty(ty)), st)]
    return [(mk("item", I.freeze(v, st), k, ty=elem_ty(ty)), st)]


def slice_(I, v, k, st, cx):
    lo, hi, step = k.args
    if I.is_exact(v, st) and all(x.op == "c" for x in k.args) and cobj(I, v, st).kind == "seq":
        items = I.exact_items(v, st)[slice(*[x.args[1] for x in k.args])]
        if v.op == "tup":
            return [(mk("tup", *items), st)]
        r = st.alloc(f"slice@{cx.ctx}", Obj("seq", "list", {}, items=tuple(items)))
        return [(r, st)]
    if v.op == "c" and isinstance(v.args[1], str) and all(x.op == "c" for x in k.args):
        return [(const(v.args[1][slice(*[x.args[1] for x in k.args])]), st)]
    f = I.freeze(v, st)
    ty = drop_none(I.typ(v, st))
    if lo is CNONE and hi is CNONE and step is CNONE and ty == STR:
        return [(v, st)]
    if ty[0] in ("list", "tuplev", "iter", "set") or f.op == "seqv":
        o = cobj(I, v, st)
        if o is not None and (o.items or o.bag) and o.kind == "seq":
            # a sub-multiset of the elements
            bag = set(o.bag)
            for x in o.items:
                val, g = I.capture(x, None, st)
                bag.add((val, g))
            r = st.alloc(f"slice@{cx.ctx}", Obj("seq", "list", {}, base=mk("slice", o.base, lo, hi, ty=ty) if o.base is not None else None, bag=frozenset(bag)))
            return [(r, st)]
        return [(mk("slice", f, lo, hi, ty=ty if ty[0] in ("list", "tuplev") else ("list", elem_ty(ty))), st)]
    return [(mk("slice", f, lo, hi, ty=ty), st)]


def setitem(I, d, k, x, st, cx, node_):
    if k.op == "slc":
        o = cobj(I, d, st)
        if o is not None and o.kind == "seq" and o.exact and all(x0.op == "c" for x0 in k.args) and I.is_exact(x, st) and d in st.heap:
            its = list(o.items)
            its[slice(*[x0.args[1] for x0 in k.args])] = list(I.exact_items(x, st))
            I.emit("mutseq", st, cx, node_, cont=d, val=x)
            st.heap[d] = o.with_(items=tuple(its))
            return [st]
        out = []
        for _, s in I.call_method(d, "extend", [x], {}, st, cx, node_):
            out.append(s)
        return out
    o = cobj(I, d, st)
    I.emit("setitem", st, cx, node_, cont=d, key=k, val=x)
    if o is None or o.kind != "dict":
        if o is not None and o.kind == "seq" and k.op == "c" and isinstance(k.args[1], int) and not o.bag and o.base is None and -len(o.items) <= k.args[1] < len(o.items):
            its = list(o.items)
            its[k.args[1]] = x
            st.heap[d] = o.with_(items=tuple(its))
        elif o is not None and o.kind == "seq":
            v2, g = I.capture(x, None, st)
            st.heap[d] = o.with_(bag=o.bag | {(v2, g)})
        return [st]
    st.heap[d] = o.with_(items=tuple(i for i in o.items if i[0] is not k) + ((k, x),))
    return [st]


def delitem(I, d, k, st, cx, node_):
    o = cobj(I, d, st)
    if k.op == "slc":
        I.emit("mutseq", st, cx, node_, cont=d, val=None)
        if o is not None and o.kind == "seq" and d in st.heap:
            if o.exact and all(x.op == "c" for x in k.args):
                its = list(o.items)
                del its[slice(*[x.args[1] for x in k.args])]
                st.heap[d] = o.with_(items=tuple(its))
            else:
                # what stays is a sub-multiset of the elements
                bag = set(o.bag)
                for x in o.items:
                    bag.add(I.capture(x, None, st))
                st.heap[d] = o.with_(items=(), bag=frozenset(bag), base=mk("slice", o.base, k.args[0], k.args[1], ty=o.base.ty) if o.base is not None else None)
        return [st]
    if o is None or o.kind != "dict":
        I.emit("delitem", st, cx, node_, cont=d, key=k, val=None)
        if o is not None and o.kind == "seq":
            r = seq_pop(I, d, o, k, st, cx, node_)
            return [s for _, s in r]
        return [st]
    out = []
    for v, s in dict_lookup_obj(I, o, k, st):
        if v is None:
            s.note(f"{I.loc(node_, cx)} KeyError")
            I.raise_(cx, I.exc("KeyError"), s)
            continue
        I.emit("delitem", s, cx, node_, cont=d, key=k, val=v)
        dict_del(I, d, k, v, s)
        out.append(s)
    return out


def dict_del(I, d, k, v, s):
    o2 = cobj(I, d, s)
    its = tuple(i for i in o2.items if i[0] is not k and i[1] is not v)
    if o2.base is not None or o2.bag:
        its = its + ((k, None),)
    s.heap[d] = o2.with_(items=its, ne=False)


def seq_pop(I, v, o, k, st, cx, node_):
    if o.exact:
        items = list(o.items)
        if not items:
            I.raise_(cx, I.exc("IndexError"), st)
            return []
        i = k.args[1] if k is not None and k.op == "c" else (-1 if k is None else None)
        if i is None:
            return [(mk("unk", "pop"), st)]
        if not -len(items) <= i < len(items):
            I.raise_(cx, I.exc("IndexError"), st)
            return []
        x = items.pop(i)
        st.heap[v] = o.with_(items=tuple(items))
        return [(x, st)]
    out = []
    lab = f"pop{I.site(node_, cx)}"
    from .state import shift
    shift(st, lab)
    for x, s in I.choices(v, lab, st, cx):
        o2 = cobj(I, v, s)
        if x in o2.items and o2.kind == "seq":
            its = list(o2.items)
            its.remove(x)
            s.heap[v] = o2.with_(items=tuple(its), ne=False)
        else:
            s.heap[v] = o2.with_(ne=False)
        out.append((x, s))
    return out


def new_seq(I, st, cx, node_, kind="list", **kw):
    return st.alloc(f"{kind}:{I.site(node_, cx)}", Obj("seq", kind, {}, **kw))


def materialise(I, it, st, cx, node_, kind):
    """New container with the elements of iterable `it`."""
    site = I.site(node_, cx) if node_ is not None else f"m@{cx.ctx}"
    if I.is_exact(it, st):
        items = I.exact_items(it, st)
        if kind == "set":
            u = []
            for x in items:
                if x not in u:
                    u.append(x)
            items = u
        return [(st.alloc(f"{kind}:{site}", Obj("seq", kind, {}, items=tuple(items))), st)]
    if it.op in ("gen", "genexp", "map", "filter", "zip", "enum", "dview", "iterv", "rev", "chain"):
        if it.op == "dview":
            o = cobj(I, it.args[0], st)
            if o is not None and not o.items and not o.bag and o.base is not None and it.args[1] == "keys":
                return [(st.alloc(f"{kind}:{site}", Obj("seq", kind, {}, base=o.base)), st)]
        acc = st.alloc(f"{kind}:{site}", Obj("seq", kind))
        I.roots.append(acc)

        def body(v, s):
            o = s.heap[acc]
            s.heap[acc] = o.with_(items=o.items + (v,))
            return [("N", None, s)]
        body.frames = [cx.frame]
        try:
            outs = I.iterate(it, st, cx, f"M{site}", body)
        finally:
            I.roots.pop()
        return I.merge([(acc, s) for _, _, s in outs])
    if it.op == "sortedv":
        return materialise(I, it.args[0], st, cx, node_, kind)
    if it is CNONE or it.ty == NONE:
        I.raise_(cx, I.exc("TypeError"), st)
        return []
    o = cobj(I, it, st)
    if o is not None and o.kind == "seq":
        return [(st.alloc(f"{kind}:{site}", Obj("seq", kind, {}, o.base, o.items, o.bag, o.ne)), st)]
    if o is not None and o.kind == "dict":
        if not o.items and not o.bag:
            return [(st.alloc(f"{kind}:{site}", Obj("seq", kind, {}, base=o.base)), st)]
        return materialise(I, mk("dview", it, "keys"), st, cx, node_, kind)
    return [(st.alloc(f"{kind}:{site}", Obj("seq", kind, {}, base=it)), st)]


def copy_dict(I, d, st, cx, node_):
    o = cobj(I, d, st)
    site = I.site(node_, cx)
    if o is not None and o.kind == "dict":
        return [(st.alloc(f"dict:{site}", Obj("dict", None, {}, o.base, o.items, o.bag, o.ne)), st)]
    if o is not None and o.kind == "seq" or d.op in ("genexp", "gen", "zip", "map", "filter", "enum"):
        acc = st.alloc(f"dict:{site}", Obj("dict"))
        I.roots.append(acc)

        def body(v, s):
            if v.op == "tup" and len(v.args) == 2:
                k, x = v.args
            else:
                k, x = mk("item", v, const(0)), mk("item", v, const(1))
            oo = s.heap[acc]
            s.heap[acc] = oo.with_(items=oo.items + ((k, x),))
            return [("N", None, s)]
        body.frames = [cx.frame]
        try:
            outs = I.iterate(d, st, cx, f"D{site}", body)
        finally:
            I.roots.pop()
        return I.merge([(acc, s) for _, _, s in outs])
    return [(st.alloc(f"dict:{site}", Obj("dict", None, {}, base=d)), st)]


def _pyval(t):
    if t.op == "c":
        return t.args[1]
    if t.op == "pconst":
        return t.args[0].split("/")
    if t.op == "tup":
        return tuple(_pyval(x) for x in t.args)
    raise TypeError


def sort_exact(I, items, kw, st, cx, node_):
    """Items in sorted order when every sort key is a constant (None: order not known)."""
    key = kw.get("key")
    ks = []
    try:
        for x in items:
            if key is None or key is CNONE:
                ks.append(_pyval(x))
            else:
                r = call(I, key, [x], {}, st.copy(), cx, node_)
                if len(r) != 1:
                    return None
                ks.append(_pyval(I.freeze(r[0][0], r[0][1])))
        rev = _pyval(kw.get("reverse", FALSE))
        return tuple(items[i] for i in sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(rev)))
    except TypeError:
        return None


def seq_method(I, v, name, args, kw, st, cx, node_):
    o = cobj(I, v, st)
    muts = ("append", "add", "extend", "update", "insert", "pop", "popleft", "appendleft", "remove", "discard", "clear", "sort", "reverse", "difference_update", "intersection_update")
    if name in muts and v.op not in ("ref",):
        I.emit("mutseq", st, cx, node_, cont=v, op=name, args=args)
    if name in ("append", "add", "appendleft"):
        x = args[0]
        I.emit("grow", st, cx, node_, cont=v, val=x)
        if o.cls == "set" and x in o.items:
            return [(CNONE, st)]
        if o.bag:
            val, g = I.capture(x, None, st)
            # keep definite items separately; they are folded into the bag at the loop's back edge
        st.heap[v] = o.with_(items=o.items + (x,))
        return [(CNONE, st)]
    if name == "insert":
        st.heap[v] = o.with_(items=((args[1],) + o.items) if args[0].op == "c" and args[0].args[1] == 0 else o.items + (args[1],))
        return [(CNONE, st)]
    if name in ("extend", "update", "extendleft"):
        cur = [st]
        for a in args:
            nx = []
            for s in cur:
                nx.extend(seq_extend(I, v, a, s, cx, node_))
            cur = nx
        return [(CNONE, s) for s in cur]
    if name in ("pop", "popleft"):
        if o.cls == "set" and name == "pop":
            return seq_pop(I, v, o, None, st, cx, node_)
        return seq_pop(I, v, o, args[0] if args else (const(0) if name == "popleft" else None), st, cx, node_)
    if name in ("remove", "discard"):
        if args[0] in o.items:
            its = list(o.items)
            its.remove(args[0])
            st.heap[v] = o.with_(items=tuple(its), ne=False)
        elif o.exact and o.items and name == "remove" and not any(I.known(I.eq_atom(x, args[0]), st) is not False for x in o.items):
            I.raise_(cx, I.exc("ValueError"), st)
            return []
        elif not o.exact:
            st.heap[v] = o.with_(ne=False)
        return [(CNONE, st)]
    if name == "clear":
        st.heap[v] = o.with_(base=None, items=(), bag=frozenset(), ne=False)
        return [(CNONE, st)]
    if name == "sort":
        if o.exact and len(o.items) > 1:
            its = sort_exact(I, o.items, kw, st, cx, node_)
            if its is not None:
                st.heap[v] = o.with_(items=its)
        return [(CNONE, st)]
    if name == "reverse":
        if o.exact:
            st.heap[v] = o.with_(items=o.items[::-1])
        return [(CNONE, st)]
    if name == "copy":
        return materialise(I, v, st, cx, node_, o.cls or "list")
    if name in ("union", "__or__"):
        cur = materialise(I, v, st, cx, node_, "set")
        for a in args:
            nx = []
            for r, s in cur:
                nx.extend((r, s2) for s2 in seq_extend(I, r, a, s, cx, node_))
            cur = nx
        return cur
    if name in ("intersection",):
        return [(mk("inter", *sorted((I.freeze(v, st), I.freeze(args[0], st)), key=repr), ty=("set", ANY)), st)]
    if name == "isdisjoint":
        return [(bterm("not", bterm("truthy", mk("inter", *sorted((setbase(I, v, st), setbase(I, args[0], st)), key=repr), ty=("set", ANY)))), st)]
    if name in ("issubset", "issuperset"):
        return [(bterm(name, setbase(I, v, st), setbase(I, args[0], st)), st)]
    if name in ("index", "count"):
        return [(mk("smeth", name, I.freeze(v, st), *[I.freeze(a, st) for a in args], ty=INT), st)]
    if name in ("difference", "symmetric_difference"):
        return [(mk("diff", I.freeze(v, st), I.freeze(args[0], st), ty=("set", ANY)), st)]
    I.unknown.add(f"seq.{name}")
    return [(mk("unk", "seqm", name), st)]


def setbase(I, v, st):
    f = I.freeze(v, st)
    if f.op == "seqv" and not f.args[2] and not f.args[3] and f.args[1] is not CNONE:
        return f.args[1]
    return f


def seq_extend(I, r, a, st, cx, node_):
    """states"""
    o = cobj(I, r, st)
    if I.is_exact(a, st):
        items = I.exact_items(a, st)
        if o.cls == "set":
            items = [x for x in items if x not in o.items]
        st.heap[r] = o.with_(items=o.items + tuple(items))
        return [st]
    out = []
    for m, s in materialise(I, a, st, cx, node_, "list"):
        mo = s.heap[m]
        o = cobj(I, r, s)
        base = o.base
        bag = set(o.bag) | set(mo.bag)
        items = o.items + mo.items
        if mo.base is not None:
            if base is None:
                base = mo.base
            elif base is not mo.base:
                bs = list(base.args if base.op == "union_" else [base])
                if mo.base not in bs:
                    bs.append(mo.base)
                base = mk("union_", *bs, ty=("list", elem_ty(I.typ(bs[0], s))))
        s.heap[r] = o.with_(items=items, base=base, bag=frozenset(bag), ne=o.ne or mo.ne)
        out.append(s)
    return out


def dict_method(I, v, name, args, kw, st, cx, node_):
    o = cobj(I, v, st)
    if name in ("items", "keys", "values"):
        return [(mk("dview", v, name, ty=("iter", ANY)), st)]
    if name == "get":
        d = args[1] if len(args) > 1 else CNONE
        if o.base is not None and not o.items and not o.bag and I.kids_of(o.base) is None and o.base.op != "dictv":
            if d is CNONE:
                return [(mk("dget", o.base, args[0], ty=union(dval_ty(I, o.base, st), NONE)), st)]
            if dval_ty(I, o.base, st)[0] not in ("inst", "callable"):
                return [(mk("dgetd", o.base, args[0], I.freeze(d, st), ty=union(dval_ty(I, o.base, st), d.ty)), st)]
        return [(x if x is not None else d, s) for x, s in dict_lookup_obj(I, o, args[0], st)]
    if name == "setdefault":
        out = []
        d = args[1] if len(args) > 1 else CNONE
        for x, s in dict_lookup_obj(I, o, args[0], st):
            if x is not None:
                out.append((x, s))
            else:
                for s2 in setitem(I, v, args[0], d, s, cx, node_):
                    out.append((d, s2))
        return out
    if name == "pop":
        out = []
        for x, s in dict_lookup_obj(I, o, args[0], st):
            if x is None:
                if len(args) > 1:
                    out.append((args[1], s))
                else:
                    I.raise_(cx, I.exc("KeyError"), s)
            else:
                I.emit("delitem", s, cx, node_, cont=v, key=args[0], val=x)
                dict_del(I, v, args[0], x, s)
                out.append((x, s))
        return out
    if name == "popitem":
        out = []
        for x, s in I.choices(mk("dview", v, "items"), f"pi{I.site(node_, cx)}", st, cx):
            k = x.args[0] if x.op == "tup" else x
            I.emit("delitem", s, cx, node_, cont=v, key=k, val=x.args[1] if x.op == "tup" else None)
            out.append((x, s))
        return out
    if name == "clear":
        I.emit("clear", st, cx, node_, cont=v)
        st.heap[v] = o.with_(base=None, items=(), bag=frozenset(), ne=False)
        return [(CNONE, st)]
    if name == "update":
        cur = [st]
        for a in args:
            nx = []
            for s in cur:
                if a is CNONE:
                    I.raise_(cx, I.exc("TypeError"), s)
                    continue
                I.emit("update", s, cx, node_, cont=v, val=a)
                ao = cobj(I, a, s)
                o2 = cobj(I, v, s)
                if ao is not None and ao.kind == "dict":
                    if ao.base is None and not ao.bag:
                        its = tuple(i for i in o2.items if not any(i[0] is j[0] for j in ao.items)) + ao.items
                        s.heap[v] = o2.with_(items=its)
                    else:
                        # opaque overlay
                        fb = mk("dictv", o2.base if o2.base is not None else CNONE, o2.items, o2.bag, ty=("dict", ANY, ANY))
                        ab = mk("dictv", ao.base if ao.base is not None else CNONE, ao.items, ao.bag, ty=("dict", ANY, ANY))
                        s.heap[v] = Obj("dict", None, {}, base=mk("overlay", fb, ab, ty=("dict", ANY, ANY)))
                else:
                    s.heap[v] = Obj("dict", None, {}, base=mk("overlay", I.freeze(v, s), I.freeze(a, s), ty=("dict", ANY, ANY)))
                nx.append(s)
            cur = nx
        for k, x in kw.items():
            nx = []
            for s in cur:
                nx.extend(setitem(I, v, const(k), x, s, cx, node_))
            cur = nx
        return [(CNONE, s) for s in cur]
    if name == "copy":
        return copy_dict(I, v, st, cx, node_)
    I.unknown.add(f"dict.{name}")
    return [(mk("unk", "dictm", name), st)]


# ---------------------------------------------------------------------------
# strings and paths
# ---------------------------------------------------------------------------
STR_RET = {"split": STRLIST, "rsplit": STRLIST, "splitlines": STRLIST, "partition": ("tuple", (STR, STR, STR)), "rpartition": ("tuple", (STR, STR, STR)),
           "encode": BYTES, "find": INT, "rfind": INT, "count": INT, "index": INT, "startswith": BOOL, "endswith": BOOL,
           "isdigit": BOOL, "isalpha": BOOL, "isspace": BOOL, "isalnum": BOOL, "isidentifier": BOOL, "islower": BOOL, "isupper": BOOL}


def str_method(I, v, name, args, kw, st, cx, node_):
    if name == "join" and v.ty == STR:
        a = args[0]
        if a.op in ("genexp", "gen", "map", "filter", "zip"):
            out = []
            for m, s in materialise(I, a, st, cx, node_, "list"):
                out.extend(str_method(I, v, "join", [m], kw, s, cx, node_))
            return out
        if I.is_exact(a, st):
            items = [I.freeze(x, st) for x in I.exact_items(a, st)]
            if all(x.op == "c" for x in items) and v.op == "c":
                return [(const(v.args[1].join(str(x.args[1]) for x in items)), st)]
            if len(items) == 1:
                return [(items[0], st)]
            if v.op == "c":
                parts = []
                for i, x in enumerate(items):
                    if i and v.args[1]:
                        parts.append(v)
                    parts.append(x)
                return [(cat(parts), st)]
        return [(mk("strjoin", v, I.freeze(a, st), ty=STR), st)]
    fa = [I.freeze(a, st) for a in args] + [mk("kw", k, I.freeze(x, st)) for k, x in sorted(kw.items())]
    if v.op == "c" and all(a.op == "c" for a in fa):
        try:
            r = getattr(v.args[1], name)(*[a.args[1] for a in fa])
            if isinstance(r, (str, int, bool, bytes)) or r is None:
                return [(const(r), st)]
            if isinstance(r, (list, tuple)):
                return [(st.alloc(f"strl@{cx.ctx}", Obj("seq", "list", {}, items=tuple(const(x) for x in r))), st)]
        except Exception:
            pass
    if name in ("startswith", "endswith") and v.op in ("fstr",):
        p0 = v.args[0] if name == "startswith" else v.args[-1]
        if p0.op == "c" and fa and fa[0].op == "c" and isinstance(fa[0].args[1], str) and len(str(p0.args[1])) >= len(fa[0].args[1]):
            return [(const(getattr(str(p0.args[1]), name)(fa[0].args[1])), st)]
    if name == "startswith" and v.op == "str" and is_norm(v.args[0]) and fa and fa[0].op == "c" and fa[0].args[1] == "/":
        return [(TRUE, st)]
    if v.op == "lines" and name == "splitlines":      # a text given by a rule as its lines
        if kw.get("keepends", args[0] if args else CNONE) in (CNONE, const(False)):
            return [(st.alloc(f"lines@{cx.ctx}", Obj("seq", "list", {}, items=v.args)), st)]
    if v.op == "lines" and name == "split" and fa and fa[0] is const("\n"):     # other line ends stay inside, and a final one gives one more line
        return [(st.alloc(f"lines@{cx.ctx}", Obj("seq", "list", {}, items=tuple(mk("smeth", "split", x, ty=STR) for x in v.args))), st)]
    if v.op == "smeth" and v.args[0] in ("strip", "lstrip", "rstrip") and v.args[1].op == "lines" and name == "splitlines" and not args and not kw:
        op, ls = v.args[0], list(v.args[1].args)
        if op != "rstrip":
            ls[0] = mk("smeth", op, ls[0], *v.args[2:], ty=STR)
        if op != "lstrip" and (len(ls) > 1 or op == "rstrip"):
            ls[-1] = mk("smeth", op, ls[-1], *v.args[2:], ty=STR)
        return [(st.alloc(f"lines@{cx.ctx}", Obj("seq", "list", {}, items=tuple(ls))), st)]
    if name == "decode" and v.op == "hcall" and v.args[0] == "read_bytes":
        er = kw.get("errors") or (args[1] if len(args) > 1 else None)
        if er is None or er is const("strict"):
            I.raise_(cx, I.exc("UnicodeDecodeError"), st.copy())
            return [(mk("htext", v.args[1], "", ty=STR), st)]
        return [(mk("htext", v.args[1], "lossy", ty=STR), st)]
    ty = STR_RET.get(name, STR if v.ty in (STR, ANY) or drop_none(v.ty) == STR else ANY)
    if v.ty == BYTES:
        ty = STR if name == "decode" else STR_RET.get(name, BYTES)
    if name == "encode" and v.ty != BYTES:
        ty = BYTES
    return [(mk("smeth", name, v, *fa, ty=ty), st)]


def cat(parts):
    flat = []
    for p in parts:
        if p.op == "fstr":
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if q.op == "c" and q.args[1] == "" and True:
                continue
            if flat and flat[-1].op == "c" and q.op == "c" and isinstance(flat[-1].args[1], str) and isinstance(q.args[1], str):
                flat[-1] = const(flat[-1].args[1] + q.args[1])
            else:
                flat.append(q)
    if not flat:
        return const("")
    if len(flat) == 1:
        return flat[0]
    return mk("fstr", *flat, ty=STR)


def path_method(I, v, name, args, kw, st, cx, node_):
    if name in ("as_posix", "__str__", "__fspath__"):
        return [(mk("str", v, ty=STR) if v.op != "pconst" else const(v.args[0]), st)]
    if name == "joinpath":
        r = v
        for a in args:
            if a.op == "star":
                b = a.args[0]
                t = parts_base(b)
                r = p_join(r, t if t is not None else b)
            else:
                r = p_join(r, a)
        return [(r, st)]
    if name == "relative_to":
        q = p_of(args[0])
        out = []
        t = isrel(v, q)
        for b, s in I.branch(t, st) if t.op != "c" else [(t.args[1], st)]:
            if b:
                out.append((p_rel(v, q), s))
            else:
                s.note(f"{I.loc(node_, cx)} relative_to: ValueError")
                I.raise_(cx, I.exc("ValueError"), s)
        return out
    if name == "is_relative_to":
        return [(isrel(v, p_of(args[0])), st)]
    if name == "is_absolute":
        if v.op == "pconst":
            return [(const(v.args[0].startswith("/")), st)]
        if is_norm(v):
            return [(TRUE, st)]
        if v.op == "rel":
            return [(FALSE, st)]
        return [(bterm("isabs", v), st)]
    if name in ("match", "full_match"):
        return [(bterm("pmatch", v, args[0]), st)]
    if name in ("with_name", "with_suffix", "with_stem"):
        return [(p_join1(p_parent(v), args[0]) if name == "with_name" else mk("smeth", name, v, *args, ty=PATH), st)]
    I.unknown.add(f"path.{name}")
    return [(mk("smeth", name, v, *args), st)]


def isrel(a, b):
    if a is b:
        return TRUE
    if b is ROOTP and is_norm(a):
        return TRUE
    if b in ancestors(a):
        return TRUE
    if b.op == "pconst" and b.args[0].startswith("/"):
        x = a
        while x.op in ("kidp", "join1"):
            x = x.args[0]
        if x.op == "pconst" and x.args[0].startswith("/"):
            x, y = x.args[0].rstrip("/") + "/", b.args[0].rstrip("/") + "/"
            if a.op == "pconst" or not y.startswith(x):
                return const(x.startswith(y))
    return bterm("isrel", a, b)


HPATH_RET = {"exists": BOOL, "is_file": BOOL, "is_dir": BOOL, "is_symlink": BOOL, "resolve": HPATH, "absolute": HPATH, "read_text": STR, "read_bytes": BYTES,
             "relative_to": PATH, "is_relative_to": BOOL, "as_posix": STR, "joinpath": HPATH, "rglob": ("iter", HPATH), "glob": ("iter", HPATH), "iterdir": ("iter", HPATH),
             "stat": ("ext", "stat_result"), "with_suffix": HPATH, "with_name": HPATH, "lstat": ("ext", "stat_result"), "samefile": BOOL, "is_absolute": BOOL}
HPATH_PURE = {"relative_to", "is_relative_to", "as_posix", "joinpath", "with_suffix", "with_name", "is_absolute", "absolute"}


def hroot(v):
    """The directory a chain of constant joins starts from."""
    while v.op == "hjoin" and v.args[1].op == "c":
        v = v.args[0]
    return v if v.op in ("hp", "sym", "tmpdir") else None


def hconst(v, base):
    """The relative text of a chain of constant joins onto base."""
    ps = []
    while v is not base and v.op == "hjoin" and v.args[1].op == "c":
        ps.append(v.args[1].args[1])
        v = v.args[0]
    return "/".join(reversed(ps)) if v is base and ps else None


def hfile(I, v, args, kw, st):
    mode = I.freeze(args[0], st) if args else I.freeze(kw.get("mode", const("r")), st)
    nl = I.freeze(kw.get("newline", CNONE), st)
    er = I.freeze(kw.get("errors", CNONE), st)
    return mk("hfile", v, mode, nl, er, ty=("ext", "File"))


def hfile_method(I, v, name, args, kw, st, cx, node_):
    P, mode, nl, er = v.args
    if name == "read" and not args:
        b = mode.op == "c" and "b" in str(mode.args[1])
        if b:
            return [(mk("hcall", "read_bytes", P, ty=BYTES), st)]
        if er is CNONE:
            I.raise_(cx, I.exc("UnicodeDecodeError"), st.copy())
        how = "" if nl is const("") else "nl"
        return [(mk("htext", P, how if er is CNONE else "lossy", ty=STR), st)]
    if name in ("write", "writelines", "truncate"):
        I.emit("host", st, cx, node_, op="Path.write_text", recv=P, args=args, kw=kw)
        return [(mk("unk", "written", ty=INT), st)]
    if name in ("close", "flush"):
        return [(CNONE, st)]
    return None


def hpath_method(I, v, name, args, kw, st, cx, node_):
    fa = [I.freeze(a, st) for a in args]
    if name == "joinpath":
        r = v
        for a in args:
            r = mk("hjoin", r, strip_str(a.args[0] if a.op == "star" else a), ty=HPATH)
        return [(r, st)]
    if name == "as_posix":
        return [(mk("str", v, ty=STR), st)]
    if name == "relative_to" and len(fa) == 1:
        c = hconst(v, fa[0])
        if c:
            return [(pconst(c), st)]
    if name == "open":
        I.emit("host", st, cx, node_, op="Path.open", recv=v, args=args, kw=kw)
        if I.opts.get("host_raises"):
            s2 = st.copy()
            I.raise_(cx, I.exc("OSError", mk("sym", "os error")), s2)
        return [(hfile(I, v, args, kw, st), st)]
    table = I.opts.get("hostfs")
    if table is not None and hroot(v) is not None:
        rel = hconst(v, hroot(v)) or ""
        if name in ("is_dir", "is_file", "exists", "is_symlink"):
            k = "dir" if rel == "" else table.get(rel)
            return [(const({"is_dir": k == "dir", "is_file": k == "file", "exists": k is not None, "is_symlink": False}[name]), st)]
        if name == "iterdir" or name in ("rglob", "glob") and len(fa) == 1 and fa[0].op == "c" and fa[0].args[1] in ("*", "**/*"):
            I.emit("host", st, cx, node_, op=f"Path.{name}", recv=v, args=args, kw=kw)
            deep = name == "rglob" or name == "glob" and fa[0].args[1] == "**/*"
            pre = rel + "/" if rel else ""
            items = []
            for k in sorted(table):
                if k.startswith(pre) and k != rel and (deep or "/" not in k[len(pre):]):
                    t = v
                    for x in k[len(pre):].split("/"):
                        t = mk("hjoin", t, const(x), ty=HPATH)
                    items.append(t)
            return [(st.alloc(f"hostls@{cx.ctx}", Obj("seq", "list", {}, items=tuple(items))), st)]
    if name == "relative_to":
        t = mk("rel", v, *fa, ty=HPATH)
        if len(fa) != 1 or any(x.op == "elem" and x.args[0].op == "hcall" and x.args[0].args[1] is fa[0] for x in subterms(v)):
            return [(t, st)]
        out = []
        for b, s in I.branch(bterm("hisrel", v, *fa), st):
            if b:
                out.append((t, s))
            else:
                s.note(f"{I.loc(node_, cx)} relative_to raises")
                I.raise_(cx, I.exc("ValueError"), s)
        return out
    if name == "is_relative_to":
        return [(bterm("hisrel", v, *fa), st)]
    t = mk("hcall", name, v, *fa, ty=HPATH_RET.get(name, ANY))
    if name not in HPATH_PURE:
        I.emit("host", st, cx, node_, op=f"Path.{name}", recv=v, args=args, kw=kw)
        if I.opts.get("host_raises") and name not in ("exists", "is_file", "is_dir", "resolve", "rglob"):
            s2 = st.copy()
            s2.note(f"{I.loc(node_, cx)} {name} raises OSError")
            I.raise_(cx, I.exc("OSError", mk("sym", "os error")), s2)
    if name in ("read_text",):
        s3 = st.copy()
        I.raise_(cx, I.exc("UnicodeDecodeError"), s3)
    return [(t, st)]


# ---------------------------------------------------------------------------
# operators
# ---------------------------------------------------------------------------
def binop(I, op, a, b, st, cx, node_):
    if isinstance(op, ast.Add):
        if a.op == "c" and b.op == "c":
            try:
                return [(const(a.args[1] + b.args[1]), st)]
            except TypeError:
                I.raise_(cx, I.exc("TypeError"), st)
                return []
        ta, tb = drop_none(I.typ(a, st)), drop_none(I.typ(b, st))
        if ta == STR or tb == STR:
            return [(cat([I.freeze(a, st), I.freeze(b, st)]), st)]
        ca = st.heap.get(a)
        if (ca is not None and ca.kind == "seq") or ta[0] in ("list", "tuplev") or a.op == "tup":
            if a.op == "tup" and b.op == "tup":
                return [(mk("tup", *(a.args + b.args)), st)]
            out = []
            for r, s in materialise(I, a, st, cx, node_, "list"):
                for s2 in seq_extend(I, r, b, s, cx, node_):
                    out.append((r, s2))
            return out
        if b.op == "c" and a.op == "add" and a.args[1].op == "c":
            return [(mk("add", a.args[0], const(a.args[1].args[1] + b.args[1]), ty=a.ty), st)]
        if a.op == "c" and a.args[1] == 0:
            return [(b, st)]
        if b.op == "c" and b.args[1] == 0:
            return [(a, st)]
        if a.op == "c":
            a, b = b, a
        return [(mk("add", a, b, ty=INT if INT in (ta, tb) else (ta if ta != ANY else tb)), st)]
    if isinstance(op, ast.Div):
        ta = drop_none(I.typ(a, st))
        if ta == PATH:
            return [(p_join(a, b), st)]
        if ta == HPATH:
            return [(mk("hjoin", a, strip_str(b), ty=HPATH), st)]
        tb = drop_none(I.typ(b, st))
        if tb == PATH:
            return [(p_join(p_of(a), b), st)]
    if isinstance(op, ast.BitAnd):
        return [(mk("inter", *sorted((setbase(I, a, st), setbase(I, b, st)), key=repr), ty=("set", ANY)), st)]
    if isinstance(op, ast.BitOr):
        oa = st.heap.get(a)
        if oa is not None and oa.kind == "dict" or drop_none(I.typ(a, st))[0] == "dict":
            out = []
            for r, s in copy_dict(I, a, st, cx, node_):
                for _, s2 in dict_method(I, r, "update", [b], {}, s, cx, node_):
                    out.append((r, s2))
            return out
        if oa is not None and oa.kind == "seq" or drop_none(I.typ(a, st))[0] == "set":
            return seq_method(I, a, "union", [b], {}, st, cx, node_)
        return [(mk("bitor", a, b, ty=INT), st)]
    if isinstance(op, ast.Mod) and (drop_none(a.ty) == STR):
        return [(mk("fmt", a, I.freeze(b, st), ty=STR), st)]
    if isinstance(op, ast.Sub):
        if a.op == "c" and b.op == "c":
            return [(const(a.args[1] - b.args[1]), st)]
        if b.op == "c" and isinstance(b.args[1], int):
            return binop(I, ast.Add(), a, const(-b.args[1]), st, cx, node_) if drop_none(I.typ(a, st)) in (INT, ANY) else [(mk("diff", I.freeze(a, st), b), st)]
        ta = drop_none(I.typ(a, st))
        if ta[0] in ("set", "list"):
            return [(mk("diff", I.freeze(a, st), I.freeze(b, st), ty=("set", ANY)), st)]
        return [(mk("sub", a, b, ty=a.ty), st)]
    if isinstance(op, ast.Mult):
        if a.op == "c" and b.op == "c":
            return [(const(a.args[1] * b.args[1]), st)]
        if a.ty == STR or b.ty == STR:
            return [(mk("srep", a, b, ty=STR), st)]
        return [(mk("mul", a, b, ty=a.ty), st)]
    if a.op == "c" and b.op == "c":
        try:
            import operator
            f = {"FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow, "Div": operator.truediv}[op.__class__.__name__]
            return [(const(f(a.args[1], b.args[1])), st)]
        except Exception:
            pass
    return [(mk("bin", op.__class__.__name__, I.freeze(a, st), I.freeze(b, st), ty=a.ty), st)]


def compare(I, op, a, b, st, cx):
    n = op.__class__.__name__
    neg = n in ("NotEq", "IsNot", "NotIn")

    def fin(t):
        if not neg:
            return t
        if t.op == "c":
            return const(not t.args[1])
        return t.args[0] if t.op == "not" else bterm("not", t)
    if n in ("Is", "IsNot"):
        if a is CNONE:
            a, b = b, a
        if b is CNONE:
            return [(fin(isnone(I, a, st)), st)]
        if a is b:
            return [(fin(TRUE), st)]
        if a.op == "typeof" and b.op == "cls":
            return [(fin(bterm("isinst", a.args[0], b.args[0])), st)]
        if b.op == "c" and isinstance(b.args[1], bool) and a.ty == BOOL:
            return [(fin(I.eq_atom(a, b)), st)]
        x, y = sorted((a, b), key=repr)
        return [(fin(bterm("is", x, y)), st)]
    if n in ("Eq", "NotEq"):
        if a.op == "typeof" and b.op == "cls":
            return [(fin(bterm("isinst", a.args[0], b.args[0])), st)]
        fa, fb = I.freeze(a, st), I.freeze(b, st)
        if fa is fb:
            return [(fin(TRUE), st)]
        if drop_none(I.typ(a, st)) == PATH and fb.op == "c" and isinstance(fb.args[1], str):
            return [(fin(FALSE), st)]
        return [(fin(I.eq_atom(fa, fb)), st)]
    if n in ("In", "NotIn"):
        return [(fin(t), s) for t, s in in_(I, a, b, st, cx)]
    fa, fb = I.freeze(a, st), I.freeze(b, st)
    if fa.op == "c" and fb.op == "c":
        try:
            import operator
            f = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}[n]
            return [(const(f(fa.args[1], fb.args[1])), st)]
        except TypeError:
            I.raise_(cx, I.exc("TypeError"), st)
            return []
    ta = drop_none(I.typ(a, st))
    if ta[0] == "set":
        return [(bterm({"LtE": "issubset", "GtE": "issuperset"}.get(n, n), setbase(I, a, st), setbase(I, b, st)), st)]
    # canonical: lt(x, y) only
    if fa.op == "len" and fb.op == "c" and isinstance(fb.args[1], int):
        k = fb.args[1]
        if (n, k) in (("Gt", 0), ("GtE", 1)):
            return [(bterm("truthy", fa.args[0]), st)]
        if (n, k) in (("Lt", 1), ("LtE", 0)):
            return [(bterm("not", bterm("truthy", fa.args[0])), st)]
    t = {"Lt": lambda: bterm("lt", fa, fb), "Gt": lambda: bterm("lt", fb, fa), "LtE": lambda: bterm("not", bterm("lt", fb, fa)),
         "GtE": lambda: bterm("not", bterm("lt", fa, fb))}[n]()
    return [(t, st)]


def isnone(I, v, st):
    k = I.known(bterm("isnone", v), st)
    return const(k) if k is not None else bterm("isnone", v)


# ---------------------------------------------------------------------------
# calls
# ---------------------------------------------------------------------------
def call(I, f, args, kw, st, cx, node_):
    op = f.op
    if op == "fn":
        fn, frame = f.args
        return I.call_fn(fn, None, args, kw, st, cx, node_, frame_outer=frame)
    if op == "bound":
        return I.call_fn(f.args[0], f.args[1], args, kw, st, cx, node_)
    if op == "cls":
        return construct(I, f.args[0], args, kw, st, cx, node_)
    if op == "dcinit":
        dc_init(I, f.args[0], f.args[1], args, kw, st, cx, node_)
        return [(CNONE, st)]
    if op == "noop":
        return [(CNONE, st)]
    if op == "ext":
        return ext_call(I, f.args[0], args, kw, st, cx, node_)
    if op == "meth":
        return meth_call(I, f.args[0], f.args[1], args, kw, st, cx, node_)
    if op == "ameth":
        return adapter_call(I, f.args[0], f.args[1], args, kw, st, cx, node_)
    if op == "partial":
        kk = dict(f.args[2])
        kk.update(kw)
        return call(I, f.args[0], list(f.args[1]) + args, kk, st, cx, node_)
    if op == "attr" and f.args[0].op == "regex" and f.args[1] in RE_FUN:
        return re_op(I, f.args[1], f.args[0], args, st, cx, node_, kw)
    if op == "attr" and f.args[0].op == "meth":
        return [(mk("unk", "call"), st)]
    if f is CNONE:
        I.raise_(cx, I.exc("TypeError"), st)
        return []
    if op == "opget":
        out = []
        k = f.args[0]
        if k == "attrgetter":
            return getattr_(I, args[0], cval(f.args[1]), st, cx, node_)
        return getitem(I, args[0], f.args[1], st, cx, node_)
    # instance with __call__
    c = I.cls_of(f, st)
    if c in I.prog.classes and I.prog.classes[c].find("__call__"):
        return I.call_fn(I.prog.classes[c].find("__call__"), f, args, kw, st, cx, node_)
    if f.op == "attr" and f.args[0].op == "hfile":
        r = hfile_method(I, f.args[0], f.args[1], args, kw, st, cx, node_)
        if r is not None:
            return r
    # opaque callable
    ty = drop_none(I.typ(f, st))
    fa = [I.freeze(a, st) for a in args] + [mk("kw", k, I.freeze(v, st)) for k, v in sorted(kw.items())]
    cat_ = ty[1] if ty[0] == "callable" else ""
    rty = ty[2] if ty[0] == "callable" else ANY
    t = mk("cb", f, *fa, ty=rty)
    I.emit("callback", st, cx, node_, callee=f, args=args, kw=kw, category=cat_, ret=t)
    if cat_ in I.opts.get("cb", ()):        # what the callback returns is given by the rule
        t = I.opts["cb"][cat_](I, f, args, st)
    if ty[0] != "callable" and f.op == "attr" and f.args[0].ty[0] in ("ext", "any"):
        return [(t, st)]
    s2 = st.copy()
    s2.note(f"{I.loc(node_, cx)} callback {cat_ or show(f)} raises")
    I.raise_(cx, I.any_exc(f"raised by {cat_ or 'callback'}"), s2)
    st.note(f"{I.loc(node_, cx)} callback {cat_ or show(f)} called")
    return [(t, st)]


def adapter_call(I, a, name, args, kw, st, cx, node_):
    fn = I.prog.classes["StorageAdapter"].find(name)
    rty = I.prog.ty(fn.ret_ann) if fn is not None and fn.ret_ann is not None else ANY
    names = [p.arg for p in fn.params][1:] + [p.arg for p in fn.kwonly] if fn is not None else []
    full = {}
    for i, x in enumerate(args):
        if i < len(names):
            full[names[i]] = x
    full.update(kw)
    I.emit("adapter", st, cx, node_, adapter=a, op=name, args=full)
    s2 = st.copy()
    s2.note(f"{I.loc(node_, cx)} adapter.{name} raises")
    I.emit("adapter_raise", s2, cx, node_, adapter=a, op=name, args=full)
    I.raise_(cx, I.any_exc(f"raised by adapter.{name}"), s2)
    st.note(f"{I.loc(node_, cx)} adapter.{name} succeeds")
    I.emit("adapter_ok", st, cx, node_, adapter=a, op=name, args=full)
    return [(mk("acall", a, name, *[mk("kw", k, I.freeze(v, st)) for k, v in sorted(full.items())], ty=rty), st)]


def _dc_fields(I, cname):
    c = I.prog.classes[cname]
    order, seen = [], {}
    for k in reversed(c.mro()):
        if not k.is_dc:
            continue
        for n, d, f in k.dc_fields:
            if n not in seen:
                order.append(n)
            seen[n] = (n, d, f, k)
    return [(n, seen[n][1], seen[n][2]) for n in order]


def dc_init(I, cname, ref, args, kw, st, cx, node_):
    from .interp import Cx
    fields = _dc_fields(I, cname)
    c = I.prog.classes[cname]
    vals = {}
    for i, (n, d, fac) in enumerate(fields):
        if i < len(args):
            vals[n] = args[i]
        elif n in kw:
            vals[n] = kw[n]
        elif d is not None:
            r = I.ev(d, st, Cx(None, None, c.module, cx.sink, ctx=cx.ctx, up=cx))
            vals[n] = r[0][0] if r else CNONE
        elif fac is not None:
            r0 = I.ev(fac, st, Cx(None, None, c.module, cx.sink, ctx=cx.ctx, up=cx))
            f = r0[0][0]
            if f.op == "ext" and f.args[0] in ("builtins.dict",):
                vals[n] = st.alloc(f"dict:{cname}.{n}:{I.site(node_, cx)}", Obj("dict"))
            elif f.op == "ext" and f.args[0] in ("builtins.list", "builtins.set"):
                vals[n] = st.alloc(f"seq:{cname}.{n}:{I.site(node_, cx)}", Obj("seq", f.args[0].split(".")[1]))
            elif f.op == "ext" and f.args[0] == "time.time":
                vals[n] = mk("now", n, ty=FLOAT)
            else:
                r = I.call(f, [], {}, st, cx.sub(mod=c.module), node_)
                vals[n] = r[0][0] if r else CNONE
        else:
            vals[n] = sym(f"missing:{cname}.{n}", I.prog.field_ty(cname, n) or ANY)
        fty = I.prog.field_ty(cname, n)
        if fty is not None:
            vals[n] = I.retype(vals[n], fty)
    o = st.heap[ref]
    st.heap[ref] = o.with_(f={**o.f, **vals})
    return vals


def construct(I, cname, args, kw, st, cx, node_):
    c = I.prog.classes[cname]
    if I.prog.is_exc_class(cname):
        return [(I.exc(cname, I.freeze(args[0], st) if args else CNONE), st)]
    ref = st.alloc(f"{cname}:{I.site(node_, cx)}", Obj("inst", cname))
    init = None
    for k in c.mro():
        if "__init__" in k.methods:
            init = k.methods["__init__"]
            break
        if k.is_dc:
            init = None
            break
    out = []
    I.roots.append(ref)
    try:
        if init is not None:
            for _, s in I.call_fn(init, ref, args, kw, st, cx, node_):
                out.append((ref, s))
        else:
            if any(a.op == "star" for a in args) or "**" in kw:
                st.heap[ref] = Obj("inst", cname, {n: mk("unk", cname, n, ty=I.prog.field_ty(cname, n) or ANY) for n, _, _ in _dc_fields(I, cname)})
            elif c.is_dc or any(k.is_dc for k in c.mro()):
                dc_init(I, cname, ref, args, kw, st, cx, node_)
            pi = c.find("__post_init__")
            if pi is not None:
                for _, s in I.call_fn(pi, ref, [], {}, st, cx, node_):
                    out.append((ref, s))
            else:
                out.append((ref, st))
    finally:
        I.roots.pop()
    for r, s in out:
        I.emit("new", s, cx, node_, cls=cname, obj=r)
    return out


def meth_call(I, v, name, args, kw, st, cx, node_):
    if v.op == "sigp":
        f = v.args[0]
        if name in ("values", "items", "keys"):
            fn = f.args[0] if f.op in ("fn", "bound") else None
            if fn is not None:
                ps = []
                skip = 1 if f.op == "bound" else 0
                K = "inspect.Parameter."
                for p in fn.params[skip:]:
                    ps.append(mk("param", mk("ext", K + "POSITIONAL_OR_KEYWORD"), const(p.arg)))
                if fn.vararg:
                    ps.append(mk("param", mk("ext", K + "VAR_POSITIONAL"), const(fn.vararg.arg)))
                for p in fn.kwonly:
                    ps.append(mk("param", mk("ext", K + "KEYWORD_ONLY"), const(p.arg)))
                if fn.kwarg:
                    ps.append(mk("param", mk("ext", K + "VAR_KEYWORD"), const(fn.kwarg.arg)))
                if name == "values":
                    return [(mk("tup", *ps), st)]
                if name == "keys":
                    return [(mk("tup", *[p.args[1] for p in ps]), st)]
                return [(mk("tup", *[mk("tup", p.args[1], p) for p in ps]), st)]
            return [(mk("sigvals", f, name, ty=("list", ("ext", "Parameter"))), st)]
    if v.op == "ext" and v.args[0] == "os.environ":
        if name == "copy":
            return [(st.alloc(f"environ@{cx.ctx}", Obj("dict", None, {}, base=v)), st)]
        if name == "get":
            return [(mk("dget", v, args[0], ty=union(STR, NONE)), st)]
    if v.op in ("seqv", "dictv") or v.op == "tup":
        o = cobj(I, v, st)
        if name in ("items", "keys", "values") and o.kind == "dict":
            return [(mk("dview", v, name), st)]
        if name == "get" and o.kind == "dict":
            return [(x if x is not None else (args[1] if len(args) > 1 else CNONE), s) for x, s in dict_lookup_obj(I, o, args[0], st)]
        if name in ("index", "count"):
            return [(mk("smeth", name, v, *args, ty=INT), st)]
        if o.kind == "seq":
            return seq_method(I, v, name, args, kw, st, cx, node_)
    if v.op == "hfile":
        r = hfile_method(I, v, name, args, kw, st, cx, node_)
        if r is not None:
            return r
    ty = drop_none(I.typ(v, st))
    if v.op in ("c", "str", "fstr", "strjoin") or ty in (STR, BYTES):
        return str_method(I, v, name, args, kw, st, cx, node_)
    if ty == PATH:
        return path_method(I, v, name, args, kw, st, cx, node_)
    if ty == HPATH:
        return hpath_method(I, v, name, args, kw, st, cx, node_)
    o = cobj(I, v, st)
    if o is not None and o.kind == "dict":
        return dict_method(I, v, name, args, kw, st, cx, node_)
    if o is not None and o.kind == "seq" and ty != ANY:
        return seq_method(I, v, name, args, kw, st, cx, node_)
    if v.op in ("genexp", "gen"):
        if name == "close":
            return [(CNONE, st)]
    if v.op == "cls":
        return [(mk("unk", "clsmeth", name), st)]
    I.unknown.add(f"method {name} on {v.op}")
    return [(mk("unk", "meth", name, I.freeze(v, st)), st)]


def _ity(I, it, st):
    return elem_ty(drop_none(I.typ(it, st)))


def any_all(I, name, it, st, cx, node_):
    isany = name == "any"
    if it.op == "genexp":
        comp, frame, fn, mod, ctx = it.args
        if len(comp.generators) == 1:
            from .interp import Cx
            gcx = Cx(fn, frame, mod, [], None, None, ctx, cx, None)
            g = comp.generators[0]
            r = I.ev(g.iter, st.copy(), gcx)
            if len(r) == 1 and not gcx.sink and not I.is_exact(r[0][0], r[0][1]) and r[0][0].op not in ("gen", "genexp", "map", "filter", "zip", "enum"):
                coll = r[0][0]
                s1 = r[0][1]
                cc = setbase(I, coll, s1) if coll.op == "ref" else coll
                o = cobj(I, coll, s1) if coll.op != "dview" else None
                simple = coll.op != "ref" or (o is not None and not o.items and not o.bag)
                if simple and coll.op != "dview":
                    el = I.elem(cc, "\u03bb", s1)
                    if el.op not in ("part",):
                        sts = I.assign(g.target, el, s1, gcx)
                        if len(sts) == 1:
                            conds = []
                            for e in list(g.ifs) + [comp.elt]:
                                t = I.pure_bool(e, sts[0], gcx)
                                if t is None:
                                    break
                                conds.append(t)
                            else:
                                if isany:
                                    body = conds[0] if len(conds) == 1 else bterm("and", *conds)
                                    # any(x in B for x in A)  ==  A & B non-empty
                                    if body.op == "in" and body.args[0] is el:
                                        return [(bterm("truthy", mk("inter", *sorted((cc, setbase(I, body.args[1], st) if body.args[1].op == "ref" else body.args[1]), key=repr), ty=("set", ANY))), st)]
                                    if body.op == "c" and not body.args[1]:
                                        return [(FALSE, st)]
                                    return [(bterm("any", cc, body), st)]
                                last = conds[-1]
                                nb = last.args[0] if last.op == "not" else (const(not last.args[1]) if last.op == "c" else bterm("not", last))
                                body = nb if len(conds) == 1 else bterm("and", *conds[:-1], nb)
                                return [(bterm("not", bterm("any", cc, body)), st)]
    if I.is_exact(it, st):
        items = I.exact_items(it, st)
        if all(x.ty == BOOL or x.op == "c" for x in items):
            if not items:
                return [(const(not isany), st)]
            items = [const(bool(x.args[1])) if x.op == "c" else x for x in items]
            return [(items[0] if len(items) == 1 else bterm("or" if isany else "and", *items), st)]

    def body(v, s):
        r = []
        for b, s2 in I.truthy(v, s):
            r.append(("R", const(isany), s2) if b == isany else ("N", None, s2))
        return r
    body.frames = [cx.frame]
    out = []
    for k, v, s in I.iterate(it, st, cx, f"A{I.site(node_, cx)}", body):
        out.append((v if k == "R" else const(not isany), s))
    return out


RE_FUN = {"search", "match", "fullmatch", "findall", "finditer", "split", "sub", "subn", "escape", "compile"}


def ext_call(I, d, args, kw, st, cx, node_):
    name = d[9:] if d.startswith("builtins.") else None
    if name is not None:
        r = builtin(I, name, args, kw, st, cx, node_)
        if r is not None:
            return r
    last = d.split(".")[-1]
    if d in ("urllib.parse.parse_qs", "urllib.parse.unquote", "urllib.parse.unquote_plus", "urllib.parse.parse_qsl") and args and all(x.op == "c" for x in list(args) + list(kw.values())):
        import urllib.parse as up
        r = getattr(up, last)(*[x.args[1] for x in args], **{k: x.args[1] for k, x in kw.items()})
        if isinstance(r, str):
            return [(const(r), st)]
        mkl = lambda xs: st.alloc(f"qs@{cx.ctx}", Obj("seq", "list", {}, items=tuple(xs)))
        if isinstance(r, dict):
            return [(st.alloc(f"qs@{cx.ctx}", Obj("dict", None, {}, items=tuple((const(k), mkl(const(x) for x in v)) for k, v in r.items()))), st)]
        return [(mkl(mk("tup", const(a), const(b)) for a, b in r), st)]
    if d in ("pathlib.PurePosixPath", "pathlib.PurePath"):
        if not args:
            return [(pconst("."), st)]
        r = None
        for a in args:
            if a.op == "star":
                t = parts_base(a.args[0])
                a = t if t is not None else a.args[0]
            r = p_of(a) if r is None else p_join(r, a)
        if r.op == "path" and r.args[0].op == "fstr":
            fs = r.args[0].args
            if len(fs) == 2 and fs[0] is const("/") and fs[1].op in ("name", "part", "sym", "attr", "elem"):
                r = p_join1(ROOTP, fs[1])
        return [(r, st)]
    if d in ("pathlib.Path", "pathlib.PosixPath"):
        if not args:
            return [(mk("hp", const("."), ty=HPATH), st)]
        a = args[0]
        r = a if drop_none(I.typ(a, st)) == HPATH else mk("hp", I.freeze(a, st), ty=HPATH)
        for b in args[1:]:
            r = mk("hjoin", r, strip_str(b), ty=HPATH)
        return [(r, st)]
    if d in ("pathlib.Path.cwd", "pathlib.Path.home"):
        I.emit("host", st, cx, node_, op=d, recv=CNONE, args=args, kw=kw)
        return [(mk("hp", mk("ext", d), ty=HPATH), st)]
    if d == "inspect.signature":
        return [(mk("sig", args[0]), st)]
    if d in ("functools.partial",):
        return [(mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items()))), st)]
    if d in ("operator.attrgetter", "operator.itemgetter") and len(args) == 1 and args[0].op == "c":
        return [(mk("opget", last, args[0]), st)]
    if d in ("copy.copy", "copy.deepcopy", "dataclasses.replace"):
        return copy_obj(I, args[0], kw if d == "dataclasses.replace" else {}, st, cx, node_, deep=d == "copy.deepcopy")
    if d == "dataclasses.asdict":
        return [(mk("xcall", d, I.freeze(args[0], st), ty=("dict", STR, ANY)), st)]
    if d == "contextlib.suppress":
        return [(mk("suppress", *args), st)]
    if d in ("contextlib.nullcontext", "contextlib.closing"):
        return [(mk("nullctx", args[0] if args else CNONE), st)]
    if d == "contextlib.redirect_stderr":
        return [(mk("nullctx", args[0]), st)]
    if d == "contextlib.redirect_stdout":
        return [(mk("redirect", *args), st)]
    if d == "contextlib.ExitStack":
        return [(mk("nullctx", mk("unk", "exitstack")), st)]
    if d in ("itertools.chain",):
        return [(mk("chain", *args, ty=("iter", ANY)), st)]
    if d == "itertools.chain.from_iterable":
        return [(mk("xcall", d, I.freeze(args[0], st), ty=("iter", ANY)), st)]
    if d == "collections.deque":
        return materialise(I, args[0] if args else mk("tup"), st, cx, node_, "list")
    if d in ("collections.OrderedDict", "types.MappingProxyType"):
        if not args:
            return [(st.alloc(f"dict:{I.site(node_, cx)}", Obj("dict")), st)]
        return copy_dict(I, args[0], st, cx, node_)
    if d == "collections.defaultdict":
        return [(st.alloc(f"dict:{I.site(node_, cx)}", Obj("dict")), st)]
    if d == "io.StringIO":
        return [(mk("strio", I.site(node_, cx), ty=("ext", "StringIO")), st)]
    if d in ("time.time", "time.monotonic"):
        return [(mk("now", I.site(node_, cx), ty=FLOAT), st)]
    if d == "typing.cast":
        return [(args[1], st)]
    if d.startswith("re.") and last in RE_FUN:
        if last == "compile":
            if I.opts.get("re_raises", True):
                s2 = st.copy()
                s2.note(f"{I.loc(node_, cx)} re.compile raises re.error")
                I.raise_(cx, I.exc("re.error"), s2)
            return [(mk("regex", *[I.freeze(a, st) for a in args], ty=("ext", "Pattern")), st)]
        return re_op(I, last, args[0], args[1:], st, cx, node_, kw)
    if d in ("fnmatch.fnmatch", "fnmatch.fnmatchcase"):
        return [(bterm("fnmatch", *[I.freeze(a, st) for a in args]), st)]
    if d in ("fnmatch.filter",):
        return [(mk("xcall", d, *[I.freeze(a, st) for a in args], ty=STRLIST), st)]
    rty = {"posixpath.join": STR, "posixpath.normpath": STR, "os.path.join": STR, "os.path.normpath": STR, "shlex.split": STRLIST, "shlex.quote": STR,
           "shlex.join": STR, "json.dumps": STR, "os.getcwd": STR, "os.path.basename": STR, "os.path.dirname": STR}.get(d, ANY)
    fa = [I.freeze(a, st) for a in args] + [mk("kw", k, I.freeze(v, st)) for k, v in sorted(kw.items())]
    from .effects import Effects
    if Effects.is_host(d) or name in ("open", "exec", "eval", "compile", "__import__", "input", "print", "breakpoint"):
        s2 = st.copy()
        I.emit("host", st, cx, node_, op=d if name is None else name, recv=CNONE, args=args, kw=kw)
        if I.opts.get("host_raises") or name in ("exec", "eval", "compile"):
            if not d.startswith("tempfile."):       # a failed creation leaves nothing behind
                s2 = st.copy()
            s2.note(f"{I.loc(node_, cx)} {d} raises")
            I.raise_(cx, I.any_exc(f"raised by {d}"), s2)
        if d == "tempfile.TemporaryDirectory":
            return [(mk("tmpctx", I.site(node_, cx)), st)]
        if d == "tempfile.mkdtemp":
            return [(mk("tmpdir", I.site(node_, cx), ty=STR), st)]
    else:
        I.emit("ext", st, cx, node_, op=d, args=args, kw=kw)
    return [(mk("xcall", d, *fa, ty=rty), st)]


def re_op(I, op, pat, args, st, cx, node_, kw=None):
    """re.<op>(pattern, ...) and compiled.<op>(...) give the same term."""
    kw = kw or {}
    pat = I.freeze(pat, st)
    args = list(args)
    npos = {"search": 1, "match": 1, "fullmatch": 1, "findall": 1, "finditer": 1, "split": 2, "sub": 3, "subn": 3}.get(op, 9)
    if pat.op != "regex" and op != "escape":
        flags = kw.get("flags") or (args[npos] if len(args) > npos else None)
        pat = mk("regex", pat, I.freeze(flags, st), ty=("ext", "Pattern")) if flags is not None else mk("regex", pat, ty=("ext", "Pattern"))
        args = args[:npos]
        if I.opts.get("re_raises", True) and pat.args[0].op != "c":
            s2 = st.copy()
            s2.note(f"{I.loc(node_, cx)} re.{op} raises re.error")
            I.raise_(cx, I.exc("re.error"), s2)
    if op == "sub" and len(args) > 1 and args[1].op == "c" and pat.op == "regex" and len(pat.args) == 1 and pat.args[0].op == "c":
        import re as _re
        try:
            if not _re.search(pat.args[0].args[1], args[1].args[1]):
                return [(args[1], st)]
        except (_re.error, TypeError):
            pass
    if op in ("sub", "subn") and args and args[0].op in ("fn", "bound", "partial"):
        s0 = st.copy()
        text = I.freeze(args[1], st) if len(args) > 1 else CNONE
        m = mk("match", pat, text, ty=("ext", "Match"))
        rs = call(I, args[0], [m], {}, st, cx, node_)
        live = {k: o for k, o in s0.heap.items() if o.kind != "frame"}
        if all({k: o for k, o in s.heap.items() if o.kind != "frame" and k in live} == live for _, s in rs):
            vals = set()
            for r, s in rs:
                r = I.freeze(r, s)
                nested = any(t.op == "resub" for t in subterms(r))      # an earlier expansion, itself recorded
                vals.add(mk("sym", "~expansion", ty=STR) if nested else r)
            vals = frozenset(vals)
            return [(mk("resub", pat, vals, text, ty=STR), s0)]
        out = [(mk("resub", pat, frozenset((I.freeze(r, s),)), text, ty=STR), s) for r, s in rs]
        out.append((args[1] if len(args) > 1 else CNONE, s0))
        return I.merge(out)
    fa = [I.freeze(a, st) for a in args]
    ty = {"search": ("union", frozenset((("ext", "Match"), NONE))), "match": ("union", frozenset((("ext", "Match"), NONE))),
          "fullmatch": ("union", frozenset((("ext", "Match"), NONE))), "sub": STR, "escape": STR, "split": STRLIST, "findall": STRLIST,
          "finditer": ("iter", ("ext", "Match"))}.get(op, ANY)
    return [(mk("re." + op, pat, *fa, ty=ty), st)]


def copy_obj(I, v, repl, st, cx, node_, deep=False):
    o = st.heap.get(v)
    if o is not None and o.kind in ("seq",):
        return materialise(I, v, st, cx, node_, o.cls)
    if o is not None and o.kind == "dict":
        return copy_dict(I, v, st, cx, node_)
    t = drop_none(I.typ(v, st))
    if t[0] == "dict":
        return copy_dict(I, v, st, cx, node_)
    if t[0] in ("list", "set"):
        return materialise(I, v, st, cx, node_, t[0])
    cn = I.cls_of(v, st)
    if cn in I.prog.classes:
        f = {}
        names = [n for n, _, _ in _dc_fields(I, cn)] or list(o.f if o is not None else ())
        for n in names:
            r = getattr_(I, v, n, st, cx, node_)
            x = r[0][0] if r else CNONE
            if deep and x.op != "c":
                xt = drop_none(I.typ(x, st))
                if xt[0] in ("set", "list", "dict"):
                    rr = copy_obj(I, x, {}, st, cx, node_, deep)
                    x = rr[0][0]
            f[n] = x
        f.update(repl)
        return [(st.alloc(f"{cn}:copy:{I.site(node_, cx)}", Obj("inst", cn, f)), st)]
    return [(v, st)]


def builtin(I, name, args, kw, st, cx, node_):
    a = args
    if name == "isinstance":
        return [(const(b), s) for b, s in I.isinstance_(a[0], a[1], st)]
    if name == "len":
        x = a[0]
        if x.op == "c" and isinstance(x.args[1], (str, bytes)):
            return [(const(len(x.args[1])), st)]
        if I.is_exact(x, st):
            return [(const(len(I.exact_items(x, st))), st)]
        return [(mk("len", setbase(I, x, st), ty=INT), st)]
    if name == "str":
        if not a:
            return [(const(""), st)]
        x = a[0]
        t = drop_none(I.typ(x, st))
        if x.op == "c":
            return [(const(str(x.args[1])), st)]
        if t == STR and not has_none(I.typ(x, st)):
            return [(x, st)]
        if x.op == "pconst":
            return [(const(x.args[0]), st)]
        if x.op == "exc":
            return [(x.args[1] if x.args[1].ty == STR else mk("str", x.args[1], ty=STR), st)]
        return [(mk("str", I.freeze(x, st), ty=STR), st)]
    if name == "repr":
        return [(mk("repr", I.freeze(a[0], st), ty=STR), st)]
    if name == "bool":
        if not a:
            return [(FALSE, st)]
        if a[0].ty == BOOL:
            return [(a[0], st)]
        return [(const(b), s) for b, s in I.truthy(a[0], st)]
    if name == "int":
        if a and a[0].op == "c":
            try:
                return [(const(int(a[0].args[1])), st)]
            except ValueError:
                I.raise_(cx, I.exc("ValueError"), st)
                return []
        if a and drop_none(I.typ(a[0], st)) in (STR, ANY):
            s2 = st.copy()
            s2.note(f"{I.loc(node_, cx)} int() raises ValueError")
            I.raise_(cx, I.exc("ValueError"), s2)
        return [(mk("int", *[I.freeze(x, st) for x in a], ty=INT), st)]
    if name == "float":
        return [(mk("float", *a, ty=FLOAT), st)]
    if name in ("list", "set", "frozenset", "tuple"):
        kind = {"frozenset": "set", "tuple": "list"}.get(name, name)
        if not a:
            if name == "tuple":
                return [(mk("tup"), st)]
            return [(new_seq(I, st, cx, node_, kind), st)]
        if name == "tuple" and I.is_exact(a[0], st):
            return [(mk("tup", *I.exact_items(a[0], st)), st)]
        t = parts_base(a[0])
        if t is not None:
            return [(a[0], st)]
        return materialise(I, a[0], st, cx, node_, kind)
    if name == "dict":
        if not a:
            return [(st.alloc(f"dict:{I.site(node_, cx)}", Obj("dict", None, {}, items=tuple((const(k), v) for k, v in kw.items()))), st)]
        out = []
        for r, s in copy_dict(I, a[0], st, cx, node_):
            if kw:
                out.extend((r, s2) for _, s2 in dict_method(I, r, "update", [], kw, s, cx, node_))
            else:
                out.append((r, s))
        return out
    if name == "sorted":
        x = a[0]
        if x.op in ("gen", "genexp", "map", "filter", "zip", "enum", "dview", "chain") or x.op == "ref":
            out = []
            for r, s in materialise(I, x, st, cx, node_, "list"):
                o = s.heap[r]
                if o.exact and len(o.items) > 1:
                    its = sort_exact(I, o.items, kw, s, cx, node_)
                    if its is not None:
                        s.heap[r] = o.with_(items=its)
                out.append((r, s))
            return out
        return materialise(I, x, st, cx, node_, "list")
    if name == "reversed":
        if I.opts.get("exact") and I.is_exact(a[0], st):
            return [(mk("tup", *reversed(I.exact_items(a[0], st))), st)]
        return [(mk("rev", a[0] if a[0].op == "tup" else a[0], ty=I.typ(a[0], st)), st)]
    if name == "enumerate":
        return [(mk("enum", a[0], kw.get("start", a[1] if len(a) > 1 else const(0))), st)]
    if name == "zip":
        return [(mk("zip", *a), st)]
    if name == "map":
        return [(mk("map", a[0], a[1], ty=("iter", ANY)), st)]
    if name == "filter":
        return [(mk("filter", a[0], a[1], ty=("iter", ANY)), st)]
    if name == "iter":
        if a[0].op in ("gen", "genexp", "map", "filter", "dview"):
            return [(a[0], st)]
        return [(mk("iterv", a[0], ty=("iter", _ity(I, a[0], st))), st)]
    if name == "next":
        it = a[0]

        def body(v, s):
            return [("R", v, s)]
        body.frames = [cx.frame]
        out = []
        for k, v, s in I.iterate(it, st, cx, f"N{I.site(node_, cx)}", body):
            if k == "R":
                out.append((v, s))
            elif len(a) > 1:
                out.append((a[1], s))
            else:
                I.raise_(cx, I.exc("StopIteration"), s)
        return out
    if name in ("any", "all"):
        return any_all(I, name, a[0], st, cx, node_)
    if name == "sum":
        out = []
        for r, s in (materialise(I, a[0], st, cx, node_, "list")):
            o = s.heap[r]
            if o.exact:
                t = a[1] if len(a) > 1 else const(0)
                for x in o.items:
                    t = binop(I, ast.Add(), t, x, s, cx, node_)[0][0]
                out.append((t, s))
            else:
                out.append((mk("sum", I.freeze(r, s), ty=INT), s))
        return out
    if name in ("max", "min"):
        return minmax(I, name, a, kw, st, cx, node_)
    if name == "range":
        return [(mk("range", *a, ty=("iter", INT)), st)]
    if name == "getattr":
        if a[1].op == "c":
            o = st.heap.get(a[0])
            if len(a) > 2 and a[0].op == "exc":
                return [(mk("attr", a[0], a[1].args[1]), st)]
            return getattr_(I, a[0], a[1].args[1], st, cx, node_)
        I.unknown.add("dynamic getattr")
        return [(mk("unk", "getattr", I.freeze(a[0], st)), st)]
    if name == "setattr":
        if a[1].op == "c":
            return [(CNONE, s) for s in I.setattr(a[0], a[1].args[1], a[2], st, cx, node_)]
        I.unknown.add("dynamic setattr")
        return [(CNONE, st)]
    if name == "hasattr":
        return [(bterm("hasattr", a[0], a[1]), st)]
    if name == "callable":
        return [(bterm("callable", a[0]), st)]
    if name == "type" and len(a) == 1:
        c = I.cls_of(a[0], st)
        if a[0].op == "ref" and c:
            return [(mk("cls", c), st)]
        return [(mk("typeof", a[0]), st)]
    if name == "id":
        return [(mk("id", a[0], ty=INT), st)]
    if name in ("abs", "round", "hash", "ord"):
        return [(mk("xcall", name, *[I.freeze(x, st) for x in a], ty=INT), st)]
    if name in ("chr", "format", "ascii", "hex", "bin"):
        return [(mk("xcall", name, *[I.freeze(x, st) for x in a], ty=STR), st)]
    if name in ("object.__setattr__",):
        return [(CNONE, s) for s in I.setattr(a[0], cval(a[1]), a[2], st, cx, node_)]
    if name == "object":
        return [(mk("unk", "object", I.site(node_, cx)), st)]
    if name == "dict.fromkeys":
        return [(st.alloc(f"dict:{I.site(node_, cx)}", Obj("dict", None, {}, base=mk("xcall", name, I.freeze(a[0], st), ty=("dict", ANY, ANY)))), st)]
    if name == "str.join":
        return str_method(I, a[0], "join", a[1:], kw, st, cx, node_)
    if name.startswith("str."):
        return str_method(I, a[0], name[4:], a[1:], kw, st, cx, node_)
    if name in BUILTIN_EXC:
        return [(I.exc(name, I.freeze(a[0], st) if a else CNONE), st)]
    if name == "vars":
        return [(mk("attr", a[0], "__dict__", ty=("dict", STR, ANY)), st)]
    return None


def minmax(I, name, a, kw, st, cx, node_):
    coll = a[0] if len(a) == 1 else mk("tup", *a)
    key = kw.get("key")
    if I.is_exact(coll, st):
        items = I.exact_items(coll, st)
        if not items:
            if "default" in kw:
                return [(kw["default"], st)]
            I.raise_(cx, I.exc("ValueError"), st)
            return []
        if all(x.op == "c" for x in items) and key is None:
            return [(const((max if name == "max" else min)(x.args[1] for x in items)), st)]
        cur = [(items[0], None, st)]
        for x in items[1:]:
            nx = []
            for best, _, s in cur:
                def kv(v, s0):
                    return call(I, key, [v], {}, s0, cx, node_) if key is not None and key is not CNONE else [(v, s0)]
                for kb, s1 in kv(best, s):
                    for kx, s2 in kv(x, s1):
                        # max keeps the first of equals
                        for t, s3 in compare(I, ast.Lt(), *((kb, kx) if name == "max" else (kx, kb)), s2, cx):
                            for b, s4 in I.truthy(t, s3):
                                nx.append((x if b else best, None, s4))
            cur = nx
        return [(b, s) for b, _, s in cur]
    if coll.op in ("gen", "genexp", "map", "filter", "dview", "chain"):
        out = []
        for r, s in materialise(I, coll, st, cx, node_, "list"):
            out.extend(minmax(I, name, [r], kw, s, cx, node_))
        return out
    out = []
    s0 = st.copy()
    for x, s in I.choices(coll, f"mm{I.site(node_, cx)}", st, cx):
        out.append((x, s))
    if "default" in kw:
        out.append((kw["default"], s0))
    return out


# ---------------------------------------------------------------------------
# with
# ---------------------------------------------------------------------------
def ext_with(I, v, target, s, st, cx, body):
    def run(val, st, handler=None, end=None):
        out = []
        sts = [st] if target is None else I.assign(target, val, st, cx)
        for s1 in sts:
            inner = cx.sub(sink=[])
            for k, w, s2 in body(s1, inner):
                if end:
                    I.emit(end, s2, cx, s, val=val, args=v.args)
                out.append((k, w, s2))
            for e, s2 in inner.sink:
                if end:
                    I.emit(end, s2, cx, s, val=val, args=v.args)
                if handler is not None:
                    for caught, e2, s3 in handler(e, s2):
                        if caught:
                            out.append(("N", None, s3))
                        else:
                            cx.sink.append((e2, s3))
                else:
                    cx.sink.append((e, s2))
        return out
    if v.op == "suppress":
        names = [x.args[0].split(".")[-1] for x in v.args if x.op in ("cls", "ext")]
        return run(CNONE, st, lambda e, s2: I.match_names(names, e, s2))
    if v.op == "tmpctx":
        return run(mk("tmpdir", v.args[0], ty=STR), st, end="tmp_end")
    if v.op == "nullctx":
        return run(v.args[0], st)
    if v.op == "hfile":
        return run(v, st)
    if v.op == "redirect":
        I.emit("redirect", st, cx, s, args=v.args)
        return run(CNONE, st, end="redirect_end")
    c = I.cls_of(v, st)
    if c in I.prog.classes and I.prog.classes[c].find("__enter__"):
        out = []
        ex = I.prog.classes[c].find("__exit__")
        for val, s1 in I.call_fn(I.prog.classes[c].find("__enter__"), v, [], {}, st, cx, s):
            sts = [s1] if target is None else I.assign(target, val, s1, cx)
            for s2 in sts:
                inner = cx.sub(sink=[])
                for k, w, s3 in body(s2, inner):
                    for _, s4 in I.call_fn(ex, v, [CNONE, CNONE, CNONE], {}, s3, cx, s):
                        out.append((k, w, s4))
                for e, s3 in inner.sink:
                    for r, s4 in I.call_fn(ex, v, [mk("unk", "exc_type"), e, mk("unk", "tb")], {}, s3, cx, s):
                        for b, s5 in I.truthy(r, s4):
                            if b:
                                out.append(("N", None, s5))
                            else:
                                cx.sink.append((e, s5))
        return out
    return run(mk("enter", I.freeze(v, st)), st)


# ---------------------------------------------------------------------------
# primitives: repository methods whose meaning is part of the abstract domain
# ---------------------------------------------------------------------------
def roles(prog):
    """Names of the fields that hold a file's text / provider and a directory's loaded flag, read off the accessors."""
    r = getattr(prog, "_roles", None)
    if r is not None:
        return r
    import ast as _a
    r = {"content": "_content", "provider": "_provider", "loaded": "_loaded"}

    def selfattr(e):
        return e.attr if isinstance(e, _a.Attribute) and isinstance(e.value, _a.Name) and e.value.id == "self" else None
    f = prog.classes["VirtualFile"].find("read") if "VirtualFile" in prog.classes else None
    if f is not None:
        for n in _a.walk(f.node):
            if isinstance(n, _a.Return) and n.value is not None and selfattr(n.value):
                r["content"] = selfattr(n.value)
            if isinstance(n, _a.Call) and selfattr(n.func) and n.func.attr not in prog.classes["VirtualFile"].methods and prog.classes["VirtualFile"].find(n.func.attr) is None:
                r["provider"] = selfattr(n.func)
    f = prog.classes["VirtualDirectory"].find("ensure_loaded") if "VirtualDirectory" in prog.classes else None
    if f is not None:
        for n in _a.walk(f.node):
            if isinstance(n, _a.Assign) and isinstance(n.value, _a.Constant) and n.value.value is True and selfattr(n.targets[0]):
                r["loaded"] = selfattr(n.targets[0])
    prog._roles = r
    return r


def p_path(I, fn, args, kw, st, cx, node_):
    return [(path_of(I, args[0], st), st)]


def p_ensure_loaded(I, fn, args, kw, st, cx, node_):
    v = args[0]
    I.emit("load", st, cx, node_, node=v)
    o = st.heap.get(v)
    if o is not None and v.op == "ref":
        ld = o.f.get("loader")
        if ld is CNONE:
            return [(CNONE, st)]
    if o is not None and o.f.get(roles(I.prog)["loaded"]) is TRUE:
        return [(CNONE, st)]
    if o is not None and roles(I.prog)["loaded"] in o.f and (v.op == "node" or I.opts.get("exact")) and I.opts.get("inline_load"):
        return None
    if I.opts.get("loader_raises"):
        s2 = st.copy()
        s2.note(f"{I.loc(node_, cx)} directory provider of {show(v)} fails")
        I.emit("load_fail", s2, cx, node_, node=v)
        I.raise_(cx, I.exc("ProviderError", mk("sym", "provider failure", ty=STR)), s2)
    return [(CNONE, st)]


def p_read(I, fn, args, kw, st, cx, node_):
    v = args[0]
    o = st.heap.get(v)
    I.emit("read", st, cx, node_, node=v)
    if v.op == "ref" or (o is not None and (roles(I.prog)["content"] in o.f or roles(I.prog)["provider"] in o.f)):
        return None
    if I.opts.get("read_raises"):
        s2 = st.copy()
        s2.note(f"{I.loc(node_, cx)} content provider of {show(v)} fails")
        I.emit("read_fail", s2, cx, node_, node=v)
        I.raise_(cx, I.exc("ProviderError", mk("sym", "provider failure", ty=STR)), s2)
    return [(mk("content", v, ty=STR), st)]


def p_allows(I, fn, args, kw, st, cx, node_):
    view = args[0]
    if view.op == "ref":
        return None
    pol = args[1] if len(args) > 1 else kw.get("policy", CNONE)
    return [(bterm("allows", view, canon_policy(I, pol, st)), st)]


def p_allows_node(I, fn, args, kw, st, cx, node_):
    view = args[0]
    if view.op == "ref":
        return None
    n = args[1] if len(args) > 1 else kw.get("node", CNONE)
    return [(bterm("allowsn", view, n), st)]


def p_index(op):
    def h(I, fn, args, kw, st, cx, node_):
        idx = args[0]
        if idx.op == "ref" and I.opts.get("inline_index"):
            return None
        names = [p.arg for p in fn.params]
        full = dict(zip(names[1:], args[1:]))
        full.update(kw)
        I.emit("index", st, cx, node_, index=idx, op=op, args=full)
        if op == "search":
            q = full.get("query", CNONE)
            if I.opts.get("re_raises", True):
                s2 = st.copy()
                I.raise_(cx, I.exc("re.error"), s2)
            return [(mk("isearch", idx, I.freeze(q, st), ty=("list", inst_ty("SearchResult"))), st)]
        return [(CNONE, st)]
    return h


PRIMS = {
    "VirtualNode.path": p_path,
    "VirtualDirectory.ensure_loaded": p_ensure_loaded,
    "VirtualFile.read": p_read,
    "VisibilityView.allows": p_allows,
    "VisibilityView.allows_node": p_allows_node,
    "FullTextIndex.index_file": p_index("index_file"),
    "FullTextIndex.remove_file": p_index("remove_file"),
    "FullTextIndex.build": p_index("build"),
    "FullTextIndex.clear": p_index("clear"),
    "FullTextIndex.search": p_index("search"),
}
