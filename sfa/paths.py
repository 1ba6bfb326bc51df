"""Canonical path terms. A tree node is the term node(p) for its path p."""
from .terms import *


def p_const(s):
    parts = [x for x in s.split("/") if x not in ("", ".")]
    if s.startswith("/"):
        return pconst("/" + "/".join(parts))
    return pconst("/".join(parts) or ".")


def strip_str(t):
    return t.args[0] if t.op == "str" else t


def p_of(t):
    """Path constructor applied to a string or path term."""
    if t.op == "str":
        return p_of(t.args[0])
    if t.op == "c" and isinstance(t.args[1], str):
        return p_const(t.args[1])
    if t.ty == PATH:
        return t
    return mk("path", t, ty=PATH)


def is_norm(p):
    o = p.op
    if o in ("norm", "cwdp", "pre", "pren", "kidp", "npath"):
        return True
    if o == "pconst":
        return p.args[0].startswith("/") and ".." not in p.args[0].split("/")
    if o == "parent":
        return is_norm(p.args[0])
    if o == "join1":
        return p.args[1] is not const("..") and is_norm(p.args[0])
    return False


def p_norm(t):
    if t.op == "str":
        t = t.args[0]
    if t.op == "path":
        t = t.args[0]
    if t.op == "c":
        if t.args[1] is None or t.args[1] == "":
            return CWDP
        if isinstance(t.args[1], str):
            s = t.args[1]
            if s.startswith("/"):
                out = []
                for x in s.split("/"):
                    if x == "..":
                        out[-1:] = []
                    elif x not in ("", "."):
                        out.append(x)
                return pconst("/" + "/".join(out))
    if t.op == "pconst" and t.args[0].startswith("/"):
        return p_norm(const(t.args[0]))
    if t.ty == PATH and is_norm(t):
        return t
    if t.op == "join" and t.args[0].op == "cwdp" and False:
        return mk("norm", t.args[1], ty=PATH)
    return mk("norm", t, ty=PATH)


CWDP = mk("cwdp", ty=PATH)


def p_parent(p):
    o = p.op
    if o == "join1":
        return p.args[0]
    if o == "kidp":
        return p.args[0]
    if o == "pren":
        return mk("pre", *p.args, ty=PATH)
    if o == "pconst" and p.args[0].startswith("/"):
        s = p.args[0].rsplit("/", 1)[0]
        return pconst(s or "/")
    return mk("parent", p, ty=p.ty)


def p_name(p):
    o = p.op
    if o == "join1":
        return p.args[1]
    if o == "pren":
        return mk("part", *p.args, ty=STR)
    if o == "pconst":
        return const(p.args[0].rsplit("/", 1)[1] if p.args[0] != "/" else "")
    return mk("name", p, ty=STR)


def p_join1(p, k):
    if k.op == "name" and p_parent(k.args[0]) is p:
        return k.args[0]
    if k.op == "part" and p.op == "pre" and p.args == k.args:
        return mk("pren", *p.args, ty=PATH)
    if k.op == "c" and isinstance(k.args[1], str) and p.op == "pconst" and "/" not in k.args[1] and k.args[1] not in ("", ".", ".."):
        return pconst(p.args[0].rstrip("/") + "/" + k.args[1])
    return mk("join1", p, k, ty=PATH)


def const_parts(p):
    """Components of a path built from constants only, or None."""
    if p.op == "pconst":
        return (["/"] if p.args[0].startswith("/") else []) + [x for x in p.args[0].split("/") if x not in ("", ".")]
    if p.op == "join1" and p.args[1].op == "c" and isinstance(p.args[1].args[1], str):
        b = const_parts(p.args[0])
        return None if b is None else b + [p.args[1].args[1]]
    return None


def p_join(p, q):
    q0 = strip_str(q)
    if q0.op == "pconst":
        if q0.args[0].startswith("/"):
            return q0
        r = p
        for x in q0.args[0].split("/"):
            if x not in ("", "."):
                r = p_join1(r, const(x))
        return r
    if q0.op == "c" and isinstance(q0.args[1], str):
        return p_join(p, p_const(q0.args[1]))
    if q0.op in ("name", "part"):
        return p_join1(p, q0)
    if q0.op == "rel" and q0.args[1] is p:
        return q0.args[0]
    if q0.op == "path" and q0.args[0].op in ("name", "part"):
        return p_join1(p, q0.args[0])
    return mk("join", p, q0, ty=p.ty)


def p_rel(p, q):
    if p.op == "pconst" and q.op == "pconst" and p.args[0].startswith("/") and q.args[0].startswith("/"):
        return pconst(p.args[0][len(q.args[0].rstrip("/")):].lstrip("/") or ".")
    return mk("rel", p, q, ty=PATH)


def ancestors(p):
    """Known strict ancestors of a path term (structural)."""
    out = []
    while True:
        if p.op in ("join1", "kidp"):
            p = p.args[0]
        elif p.op == "pren":
            p = mk("pre", *p.args, ty=PATH)
        elif p.op == "pconst":
            if p.args[0] == "/":
                return out
            p = p_parent(p)
        else:
            return out
        out.append(p)


def kid_depth(p):
    d = 0
    while p.op in ("kidp", "join1", "pren", "parent"):
        if p.op == "kidp":
            d += 1
        p = p.args[0]
    return d


def parts_base(it):
    """If iterating `it` enumerates the components of a path t (root aside), return t."""
    if it.op == "parts":
        return it.args[0]
    if it.op == "filt":
        return parts_base(it.args[0])
    if it.op == "slice":
        t = parts_base(it.args[0])
        if t is None:
            return None
        lo, hi = it.args[1], it.args[2]
        if (lo is CNONE or (lo.op == "c" and lo.args[1] in (0, 1))) and hi is CNONE:
            return t
        if (lo is CNONE or (lo.op == "c" and lo.args[1] in (0, 1))) and hi.op == "c" and hi.args[1] == -1:
            return p_parent(t)
    return None
