"""Value of a path-condition term under a small assignment; Unknown where a term has no meaning here."""
from __future__ import annotations
from pathlib import PurePosixPath
from .terms import *


class Unknown(Exception):
    pass


_SM = {"startswith", "endswith", "strip", "rstrip", "lstrip", "lower", "upper", "casefold", "split", "join", "removeprefix", "find", "replace", "partition",
       "splitlines", "isspace", "isdigit", "isalpha", "isalnum"}


def ceval(t, env):
    if t in env:
        return env[t]
    o = t.op
    a = t.args
    ev = lambda x: ceval(x, env)
    if o == "c":
        v = a[1]
        return PurePosixPath(v) if t.ty == PATH and isinstance(v, str) else v
    if o in ("eq",):
        return ev(a[0]) == ev(a[1])
    if o == "lt":
        return ev(a[0]) < ev(a[1])
    if o == "le":
        return ev(a[0]) <= ev(a[1])
    if o == "not":
        return not ev(a[0])
    if o in ("truthy", "bool"):
        return bool(ev(a[0]))
    if o == "isnone":
        return ev(a[0]) is None
    if o == "is":
        x, y = ev(a[0]), ev(a[1])
        if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
            return x is y
        raise Unknown(t)
    if o == "in":
        return ev(a[0]) in ev(a[1])
    if o == "inter":
        return set(ev(a[0])) & set(ev(a[1]))
    if o == "issubset":
        return set(ev(a[0])) <= set(ev(a[1]))
    if o == "has":
        return ev(a[1]) in ev(a[0])
    if o == "len":
        return len(ev(a[0]))
    if o == "isrel":
        return PurePosixPath(ev(a[0])).is_relative_to(ev(a[1]))
    if o == "parent":
        return PurePosixPath(ev(a[0])).parent
    if o == "parents":
        return tuple(PurePosixPath(ev(a[0])).parents)
    if o == "path":
        return PurePosixPath(ev(a[0]))
    if o == "name":
        return PurePosixPath(ev(a[0])).name
    if o == "parts":
        return PurePosixPath(ev(a[0])).parts
    if o in ("str", "strp"):
        return str(ev(a[0]))
    if o == "add":
        r = ev(a[0])
        for x in a[1:]:
            r = r + ev(x)
        return r
    if o == "fstr":
        return "".join(str(ev(x)) for x in a)
    if o == "dget":
        return ev(a[0]).get(ev(a[1]))
    if o == "dgetd":
        return ev(a[0]).get(ev(a[1]), ev(a[2]))
    if o in ("item", "dgetitem"):
        return ev(a[0])[ev(a[1])]
    if o == "or":
        return any(bool(ev(x)) for x in a)
    if o == "and":
        return all(bool(ev(x)) for x in a)
    if o == "seqv" and (a[1] is None or a[1] is CNONE) and not a[3]:
        r = [ev(x) for x in a[2]]
        return set(r) if a[0] in ("set", "frozenset") else r
    if o == "tup":
        return tuple(ev(x) for x in a)
    if o == "smeth" and a[0] in _SM:
        xs = [ev(x) for x in a[1:] if not (isinstance(x, T) and x.op == "kw")]
        return getattr(xs[0], a[0])(*xs[1:])
    raise Unknown(t)


def consistent(facts, env):
    """True / False / None (some fact has no value under env)."""
    unk = False
    for f, b in facts.items():
        try:
            if bool(ceval(f, env)) is not bool(b):
                return False
        except Unknown:
            unk = True
        except Exception:
            unk = True
    return None if unk else True


def alien(t, env, ok=()):
    """Smallest subterms of t that env gives no value and that are plain attributes of something other than the expected inputs."""
    out = set()
    for s in subterms(t):
        if s.op in ("attr", "sym", "allows", "callret") and s not in env and s not in ok:
            out.add(s)
    return out
