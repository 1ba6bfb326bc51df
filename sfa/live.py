"""Per-function liveness of local names (backward dataflow over the statement tree)."""
import ast
from .prog import _own_walk


def loads(n):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
            out.add(x.id)
    return out


def stores(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


class Live:
    def __init__(self, fn):
        self.after, self.head = {}, {}
        self.always = set()
        for x in ast.walk(fn.node):
            if x is not fn.node and isinstance(x, (ast.FunctionDef, ast.Lambda)):
                self.always |= loads(x)
        if fn.is_gen:
            pass
        self.brk, self.cont, self.exc = [], [], [set()]
        for _ in range(3):
            self.block(fn.body, set(self.always))

    def block(self, stmts, out):
        cur = set(out)
        for s in reversed(stmts):
            self.after[s] = self.after.get(s, set()) | cur
            cur = self.stmt(s, set(self.after[s])) | self.exc[-1] | self.always
        return cur

    def stmt(self, s, out):
        if isinstance(s, (ast.Return, ast.Raise)):
            return loads(s)
        if isinstance(s, ast.Break):
            return set(self.brk[-1]) if self.brk else out
        if isinstance(s, ast.Continue):
            return set(self.cont[-1]) if self.cont else out
        if isinstance(s, ast.Assign):
            k = set()
            for t in s.targets:
                if isinstance(t, (ast.Name, ast.Tuple, ast.List)):
                    k |= stores(t)
            return (out - k) | loads(s)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out
            k = stores(s.target) if isinstance(s.target, ast.Name) else set()
            return (out - k) | loads(s.value) | loads(s.target)
        if isinstance(s, ast.AugAssign):
            return out | loads(s) | stores(s.target)
        if isinstance(s, ast.If):
            return loads(s.test) | self.block(s.body, out) | self.block(s.orelse, out)
        if isinstance(s, (ast.For, ast.While)):
            head = set(self.head.get(s, set()))
            for _ in range(2):
                self.brk.append(out)
                self.cont.append(head)
                b = self.block(s.body, head)
                self.brk.pop()
                self.cont.pop()
                e = self.block(s.orelse, out)
                if isinstance(s, ast.For):
                    head = head | ((b - stores(s.target)) | e | out)
                else:
                    head = head | b | e | out | loads(s.test)
            self.head[s] = head
            return head | (loads(s.iter) if isinstance(s, ast.For) else set())
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            fin = self.block(s.finalbody, out)
            h = set()
            for x in s.handlers:
                h |= self.block(x.body, fin) | (loads(x.type) if x.type else set())
            fe = self.block(s.finalbody, self.exc[-1]) if s.finalbody else set()
            self.exc.append(self.exc[-1] | h | fe)
            o = self.block(s.orelse, fin)
            b = self.block(s.body, o)
            self.exc.pop()
            return b | h | fe
        if isinstance(s, ast.With):
            b = self.block(s.body, out)
            for it in s.items:
                b = b | loads(it.context_expr)
            return b
        if isinstance(s, ast.Match):
            b = set(out)
            for c in s.cases:
                b |= self.block(c.body, out) | loads(c.pattern) | (loads(c.guard) if c.guard else set())
            return b | loads(s.subject)
        return out | loads(s)
