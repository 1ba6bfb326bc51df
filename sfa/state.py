"""Abstract states: symbolic heap, must-facts, universally quantified facts, effect log."""
from __future__ import annotations
from .terms import T, subst, inst


class Obj:
    """Immutable heap cell. kind: inst | seq | dict | frame."""
    __slots__ = ("kind", "cls", "f", "base", "items", "bag", "ne", "_h", "_refs", "_insts")

    def __init__(self, kind, cls=None, f=None, base=None, items=(), bag=frozenset(), ne=False):
        self.kind, self.cls, self.f, self.base, self.items, self.bag, self.ne = kind, cls, f or {}, base, items, bag, ne
        self._h = None
        self._refs = self._insts = None

    def refs(self):
        if self._refs is None:
            out = set()
            for t in self.terms():
                term_refs(t, out)
            self._refs = frozenset(out)
        return self._refs

    def insts(self):
        if self._insts is None:
            out = set()
            for t in self.terms():
                term_insts(t, out)
            self._insts = frozenset(out)
        return self._insts

    def with_(self, **kw):
        d = dict(kind=self.kind, cls=self.cls, f=self.f, base=self.base, items=self.items, bag=self.bag, ne=self.ne)
        d.update(kw)
        return Obj(**d)

    def key(self):
        if self._h is None:
            self._h = (self.kind, self.cls, frozenset(self.f.items()), self.base, self.items, self.bag, self.ne)
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Obj) and self.key() == o.key())

    def __hash__(self):
        return hash(self.key())

    def terms(self):
        yield from self.f.values()
        if self.base is not None:
            yield self.base
        yield from self.items
        yield from self.bag

    @property
    def exact(self):
        return self.base is None and not self.bag

    def __repr__(self):
        return f"Obj({self.kind},{self.cls},{self.f},base={self.base},items={self.items},bag={set(self.bag)},ne={self.ne})"


def term_insts(x, out):
    if isinstance(x, T):
        out |= x.insts
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            term_insts(y, out)


def term_refs(x, out):
    if isinstance(x, T):
        out |= x.refs
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            term_refs(y, out)


class State:
    __slots__ = ("heap", "facts", "eqc", "foralls", "log", "pend", "trace", "cnt")

    def __init__(self):
        self.heap: dict = {}
        self.facts: dict = {}
        self.eqc: dict = {}
        self.foralls: dict = {}
        self.log: tuple = ()
        self.pend: tuple = ()
        self.trace = None
        self.cnt: dict = {}

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.eqc = dict(self.eqc)
        s.foralls = dict(self.foralls)
        s.log, s.pend, s.trace = self.log, self.pend, self.trace
        s.cnt = dict(self.cnt)
        return s

    def key(self, hard=None):
        fs = self.facts.items()
        if hard is not None:
            fs = [x for x in fs if hard(x[0])]
        return (frozenset(self.heap.items()), frozenset(fs), frozenset(self.foralls.items()), self.log, self.pend)

    def alloc(self, site, obj):
        n = 0
        while T("ref", (f"{site}~{n}",), ("ref",)) in self.heap:
            n += 1
        r = T("ref", (f"{site}~{n}",), ("ref",))
        self.heap[r] = obj
        return r

    def note(self, line):
        self.trace = (line, self.trace)

    def trace_list(self, n=60):
        out = []
        t = self.trace
        while t is not None and len(out) < n:
            out.append(t[0])
            t = t[1]
        return out[::-1]

    # -- inst renaming -----------------------------------------------------
    def value_insts(self):
        out: set = set()
        for k, o in self.heap.items():
            out |= k.insts
            out |= o.insts()
        term_insts(self.log, out)
        term_insts(self.pend, out)
        for k, v in self.foralls.items():
            term_insts(k, out)
        out.discard(("\u03bb", 0))
        return out

    def drop_dead_inst_facts(self, extra=()):
        live = self.value_insts()
        for x in extra:
            term_insts(x, live)
        dead = [a for a in self.facts if a.insts and not (a.insts <= live)]
        for a in dead:
            del self.facts[a]
        for a in [a for a in self.eqc if a.insts and not (a.insts <= live)]:
            del self.eqc[a]

    def rewrite(self, f, insts=False):
        """Apply the term rewriting f to the whole state."""
        memo: dict = {}

        def g(x):
            return subst(x, f, memo, insts)
        nh = {}
        for k, o in self.heap.items():
            if insts and not k.insts and not o.insts():
                nh[k] = o
                continue
            nk = g(k)
            nf = {a: g(b) for a, b in o.f.items()}
            nh[nk] = Obj(o.kind, o.cls, nf, g(o.base) if o.base is not None else None, g(o.items), g(o.bag), o.ne)
        self.heap = nh
        nfa: dict = {}
        bad = set()
        for a, b in self.facts.items():
            na = g(a)
            if na in nfa and nfa[na] != b:
                bad.add(na)
            nfa[na] = b
        for a in bad:
            nfa.pop(a, None)
        self.facts = nfa
        self.eqc = {g(a): b for a, b in self.eqc.items() if g(a) not in bad}
        nfo = {}
        for k, v in self.foralls.items():
            nfo.setdefault(g(k), g(v))
        self.foralls = nfo
        self.log = g(self.log)
        self.pend = g(self.pend)
        return not bad

    def has_label(self, label):
        def chk(x):
            return any(_lab(i[0], label) for i in x.insts)
        for k, o in self.heap.items():
            if k.insts and chk(k):
                return True
            if any(_lab(i[0], label) for i in o.insts()):
                return True
        if any(a.insts and chk(a) for a in self.facts):
            return True
        s = set()
        term_insts((self.log, self.pend, tuple(self.foralls)), s)
        return any(_lab(i[0], label) for i in s)


def _lab(lab, label):
    return lab == label or (isinstance(lab, tuple) and lab and lab[0] == label)


def shift(st: State, label, start=0):
    """Age the instances of a loop: generation 0 -> 1 -> 2."""
    if not st.has_label(label):
        return
    live = st.value_insts()
    merging = {i[0] for i in live if i[1] == 1}

    def gone(a):
        return any(_lab(i[0], label) and i[1] < 11 and (i not in live or 2 <= i[1] < 9 and i[0] in merging) for i in a.insts)
    for a in [a for a in st.facts if a.insts and gone(a)]:
        del st.facts[a]
        st.eqc.pop(a, None)
    for a in [a for a in st.eqc if a.insts and gone(a)]:
        del st.eqc[a]

    def f(t):
        if t.op == "i" and _lab(t.args[0], label):
            return inst(t.args[0], min(t.args[1] + 1, 2)) if t.args[1] < 9 else None
        return None
    st.rewrite(f, True)
