"""C16: search reports exactly the matching permitted lines."""
from __future__ import annotations
from .util import *
from .report import check
from .state import State
from .rules_sview import probe

R_EX = "a line is reported exactly when its file is admitted, under the path and readable, and the line matches in the requested mode"
R_MISS = "a search path that does not exist gives no results"
R_TXT = "a reported entry is the file's path, the line's number and the line itself"

# the tree of the scenes: path -> line names; the last one lies in the search view
FILES = {"/a/x": ("ax1", "ax2"), "/a/s/y": ("ay1",), "/ab": ("ab1",)}
VIEWFILE = ("/@search/z", ("sz1",))
MODES = {"text": (False, False), "ignore case": (False, True), "regex": (True, False), "regex ignore case": (True, True)}
Q = sym("pattern", STR)
W = sym("asked view", inst_ty("VisibilityView"))


def line(n):
    return sym(f"line {n}", STR)


def pol(p):
    return sym(f"policy {p}", inst_ty("NodePolicy"))


def allows_node(I, fn, args, kw, st, cx, node_):
    n = args[1] if len(args) > 1 else next(iter(kw.values()))
    o = st.heap.get(n)
    return verdict(I, args[0], o.f.get("policy") if o is not None else None, st)


def allows(I, fn, args, kw, st, cx, node_):
    return verdict(I, args[0], args[1] if len(args) > 1 else next(iter(kw.values())), st)


def verdict(I, view, p, st):
    if view is not W or p is None or p.op != "sym":
        return [(const(True), st)]
    return [(mk("shown", p, ty=BOOL), st)]


VP = {"VisibilityView.allows_node": allows_node, "VisibilityView.allows": allows}


def ext_names(t):
    return {x.args[0] for x in subterms(t) if x.op == "ext"}


def matched(F, L, regex, icase):
    """Truth of the match of L, from the atoms of this path: True, False, None (not tested), or text naming a different test."""
    low = lambda t: t.args[1] if t.op == "smeth" and t.args[0] in ("lower", "casefold") and len(t.args) == 2 else None
    odd = None
    for a, b in F.st.facts.items():
        if not any(x is L for x in subterms(a)):
            continue
        if a.op == "in" and len(a.args) == 2:
            x, y = a.args
            if not regex and not icase and x is Q and y is L:
                return b
            if not regex and icase and low(x) is Q and low(y) is L and x.args[0] == y.args[0]:
                return b
            odd = f"tests {short(a, 60)}"
            continue
        t, v = a, b
        if a.op in ("isnone", "truthy"):
            t, v = a.args[0], (not b if a.op == "isnone" else b)
        if t.op == "re.search" and regex and t.args[0].op == "regex" and t.args[0].args[0] is Q and t.args[1] is L:
            fl = set()
            for x in t.args[0].args[1:]:
                fl |= ext_names(x)
            ic = bool(fl & {"re.IGNORECASE", "re.I"})
            if ic == icase and not fl - {"re.IGNORECASE", "re.I", "re.MULTILINE", "re.M"}:
                return v
            odd = f"compiles the pattern with flags {sorted(fl) or 'none'}"
            continue
        odd = odd or f"tests {short(a, 60)}"
    return odd


def flat(t):
    """constant text and symbols of a rendered entry"""
    out = []

    def put(x):
        while x.op in ("str", "strof") and len(x.args) == 1:
            x = x.args[0]
        if x.op == "fstr":
            for y in x.args:
                put(y)
            return
        c = x.args[1] if x.op == "c" else x.args[0] if x.op == "pconst" else None
        if c is None:
            out.append(x)
        elif out and isinstance(out[-1], str):
            out[-1] += str(c)
        else:
            out.append(str(c))
    put(t)
    return out


def judge(o, where, F, s, got, files, mode, view, note):
    """files: path -> lines in scope.  got: {(path, no, line symbol)}, or None where an entry is not understood."""
    regex, icase = MODES[mode]
    if icase and not regex and any(b is False and a.op == "truthy" and any(x is Q for x in subterms(a)) for a, b in F.st.facts.items()):
        return      # the empty pattern
    for p, names in list(FILES.items()) + [VIEWFILE]:
        if F(mk("truthy", mk("lines", *[line(n) for n in names], ty=STR), ty=BOOL)) is False:
            continue        # an empty file
        for k, n in enumerate(names, 1):
            L = line(n)
            rep = [g for g in got if g[2] is L]
            m = matched(F, L, regex, icase)
            rd = F(mk("attr", pol(p), "readable", ty=BOOL))
            if rd is None:
                rd = F(mk("truthy", mk("attr", pol(p), "readable", ty=BOOL), ty=BOOL))
            sh = F(mk("shown", pol(p), ty=BOOL)) if view else True
            txt = ""
            if rep:
                if p not in files:
                    txt = f"line of {p}, outside the search, is reported"
                elif len(rep) > 1:
                    txt = f"line {k} of {p} is reported twice"
                elif rd is not True:
                    txt = f"line of {p} is reported without the file being known readable"
                elif sh is not True:
                    txt = f"line of {p} is reported without the view admitting the file"
                elif m is not True:
                    txt = f"line of {p} is reported although it {'does not match' if m is False else 'is not matched' if m is None else m}"
                elif rep[0][0] != p or rep[0][1] != k:
                    o.add(R_TXT, where, False, f"{note}: line {k} of {p} is reported as {rep[0][0]}:{rep[0][1]}", s.trace_list())
            elif p in files and rd is not False and sh is not False and m is not False:
                if isinstance(m, str):
                    txt = f"line {k} of {p} is left out by another test: {m}"
                else:
                    txt = f"line {k} of {p} may match and is left out"
            if txt:
                o.add(R_EX, where, None if F.I.cuts else False, f"{note}: {txt}", s.trace_list())


SETUP = '''    vfs = VirtualFileSystem()
{index}{sview}    vfs.mkdir("/a")
    vfs.mkdir("/a/s")
'''


LAZY = '''    vfs = VirtualFileSystem()
    def inner(ctx):
        return {{"y": ProvidedNode.file(content=texts[1], policy=pols[1])}}
    def outer(ctx):
        return {{"x": ProvidedNode.file(content_provider=lambda c: texts[0], policy=pols[0]), "s": ProvidedNode.directory(directory_provider=inner)}}
    def plain(ctx):
        return texts[2]
    vfs.mount_directory("/a", outer)
    vfs.mount_file("/ab", plain)
    vfs.get_node("/ab").policy = pols[2]
{index}'''


def world(index, sview, tail):
    if index in ("lazy", "lazy index"):
        return "def caller(texts, pols, vers, query, view, pattern):\n" + LAZY.format(index="    vfs.enable_full_text_index()\n" if index != "lazy" else "") + tail
    src = "def caller(texts, pols, vers, query, view, pattern):\n" + SETUP.format(
        index="    vfs.enable_full_text_index()\n" if index is True else "", sview='    vfs.enable_search_view("/@search")\n' if sview else "")
    fs = list(FILES) + ([VIEWFILE[0]] if sview else [])
    for i, p in enumerate(fs):
        src += f'    vfs.write_file("{p}", texts[{i}])\n'
    for i, p in enumerate(fs):
        src += f'    vfs.get_node("{p}").policy = pols[{i}]\n    vfs.get_node("{p}").version = vers[{i}]\n'
    return src + ("    vfs.enable_full_text_index()\n" if index == "late index" else "") + tail


def start(mode, prefix, view):
    st = State()
    rx, ic = MODES[mode]
    fs = list(FILES.items()) + [VIEWFILE]
    texts = st.alloc("texts", Obj("seq", "list", {}, items=tuple(mk("lines", *[line(n) for n in ns], ty=STR) for _, ns in fs)))
    pols = st.alloc("pols", Obj("seq", "list", {}, items=tuple(pol(p) for p, _ in fs)))
    vers = st.alloc("vers", Obj("seq", "list", {}, items=tuple(sym(f"version {p}", INT) for p, _ in fs)))
    q = sym("asked", inst_ty("SearchQuery"))
    st.heap[q] = Obj("inst", "SearchQuery", {"query": Q, "regex": const(rx), "ignore_case": const(ic), "path_prefix": CNONE if prefix is None else pconst(prefix)})
    st.heap[W] = Obj("inst", "VisibilityView", {"path_prefixes": CNONE, "metadata_filters": CNONE, "classifications": CNONE, "principals": CNONE})
    return st, [texts, pols, vers, q, W if view else CNONE, Q]


def scope(prefix, recursive=True):
    if prefix in (None, "/"):
        return {p: n for p, n in FILES.items() if recursive or p.count("/") == 1}
    return {p: n for p, n in FILES.items() if p == prefix or p.startswith(prefix + "/") and (recursive or "/" not in p[len(prefix) + 1:])}


def _search(index, sview, mode, view):
    def go(o):
        m = method("VirtualFileSystem", "search")
        for prefix in (None, "/", "/a", "/a/x", "/ab", "/a/s", "/nope", "/a/x/y") + (("/@search",) if sview else ()):
            st, args = start(mode, prefix, view)
            r = run(probe(world(index, sview, "    return vfs.search(query, view=view)\n"), m), None, args, {}, st, None, {"exact": 1, "inline_index": 1, "re_raises": 0, "inline_load": 1}, inline=True, prims=VP, rec_limit=6, kid_limit=8)
            o.took(r)
            note = f"{mode}, path {prefix}, {index if isinstance(index, str) else 'index' if index else 'no index'}{', search view' if sview else ''}"
            files = scope(prefix)
            for v, s in r.rets:
                F = Facts(r.I, s)
                got = rows(r.I, s, v)
                if got is None:
                    o.add(R_EX, m.qual, None, f"{note}: results not followed")
                    continue
                if not files and got:
                    o.add(R_MISS if prefix in ("/nope", "/a/x/y") else R_EX, m.qual, False, f"{note}: {len(got)} results", s.trace_list())
                judge(o, m.qual, F, s, got, files, mode, view, note)
            for v, s in r.raises:
                if prefix in ("/nope", "/a/x/y"):
                    o.add(R_MISS, m.qual, False, f"{note}: raises {v.args[0]}", s.trace_list())
            o.add(R_EX, m.qual, bool(r.rets) or None, f"{note}: {len(r.rets)} path classes")
    return go


def rows(I, s, v):
    o = s.heap.get(v)
    if o is None or o.kind != "seq" or o.bag or o.base is not None:
        return None
    out = []
    for x in o.items:
        fz = I.freeze(x, s)
        if fz.op != "instv":
            return None
        f = dict(fz.args[1])
        p, n, t = f.get("path"), f.get("line_no"), f.get("line_text")
        if t is None or p is None or p.op not in ("pconst", "c") or n is None or n.op != "c":
            return None
        if t.op != "sym":
            hit = [y for y in subterms(t) if y.op == "sym" and str(y.args[0]).startswith("line ")]
            if len(hit) != 1:
                return None
            out.append((p.args[-1], "altered", hit[0]))
            continue
        out.append((p.args[-1], n.args[1], t))
    return out


FLAGS = {"text": [], "ignore case": ["-i"], "regex": ["-e"], "regex ignore case": ["-i", "-e"]}


def _command(cmd, mode, view, sview):
    def go(o):
        h = handlers().get(cmd)
        if h is None:
            o.add(R_EX, "sandfs/shell.py", None, f"no command {cmd}")
            return
        cases = [("/a", True, True), ("/", True, False), ("/ab", True, True)]
        if cmd == "grep":
            cases = [("/a", True, True), ("/a", False, True), ("/ab", False, False), ("/", True, False)]
        for target, rec, nums in cases:
            toks = list(FLAGS[mode])
            if cmd == "grep":
                toks += (["-r"] if rec else []) + (["-n"] if nums else [])
            elif cmd == "rg":
                toks += ["-n"] if nums else []
            else:
                toks += [] if nums else ["--no-line-number"]
            tail = f"    shell = SandboxShell(vfs, view=view)\n    return shell.commands[{cmd!r}]({toks!r} + [pattern, {target!r}])\n"
            st, args = start(mode, None, view)
            r = run(probe(world(False, sview, tail), h), None, args, {}, st, None, {"exact": 1, "re_raises": 0, "inline_load": 1}, inline=True, prims=VP, rec_limit=6, kid_limit=8)
            o.took(r)
            note = f"{cmd} {' '.join(toks)} {target}"
            out_rows(o, r, h.qual, scope(target, rec if cmd == "grep" else True), mode, view, nums, note)
    return go


def out_rows(o, r, where, files, mode, view, nums, note, stdin=False):
    n = 0
    for v, s in r.rets:
        F = Facts(r.I, s)
        if any(b is True and a.op in ("eq", "in") and any(x is Q for x in a.args) and not any(str(x).startswith("line ") for x in subterms(a)) for a, b in s.facts.items()):
            continue        # the pattern is an option
        fz = r.I.freeze(v, s)
        if fz.op != "instv":
            o.add(R_EX, where, None, f"{note}: result not followed")
            continue
        f = dict(fz.args[1])
        if f.get("exit_code") is not const(0) and f.get("exit_code") is not None and f["exit_code"].op == "c":
            continue
        got = entries(f.get("stdout", CNONE))
        if got is None:
            o.add(R_EX, where, None, f"{note}: output {short(f.get('stdout', CNONE), 60)} not followed")
            continue
        n += 1
        g2 = []
        for parts in got:
            ls = [x for x in parts if isinstance(x, T) and line_syms(x)]
            if len(ls) != 1 or parts[-1] is not ls[0] or ls[0].op != "sym":
                g2.append((None, "altered", next(iter(line_syms(ls[0]))) if ls else CNONE))
                continue
            p, k = next((p, k) for p, ns in list(FILES.items()) + [VIEWFILE] for k, x in enumerate(ns, 1) if line(x) is ls[0])
            head = parts[0] if len(parts) == 2 and isinstance(parts[0], str) else "" if len(parts) == 1 else None
            want = ("" if stdin else p + ":") + (f"{k}:" if nums else "")
            g2.append((p, k, ls[0]) if head == want else (head, "", ls[0]))
        judge(o, where, F, s, g2, files, mode, view, note)
    o.add(R_EX, where, bool(n) or None, f"{note}: {n} path classes")


def line_syms(x):
    return {y for y in subterms(x) if y.op == "sym" and str(y.args[0]).startswith("line ")}


def entries(t):
    """The lines of an output text built with joins of newlines: lists of constant text and symbols."""
    if t.op == "c":
        return [] if t.args[1] == "" else [[x] for x in str(t.args[1]).split("\n")]
    fl = flat(t)
    out, cur = [], []
    for x in fl:
        if isinstance(x, str):
            ps = x.split("\n")
            for i, q in enumerate(ps):
                if i:
                    out.append(cur)
                    cur = []
                if q:
                    cur.append(q)
        elif x.op == "sym" or x.op == "smeth" and len(line_syms(x)) == 1:
            cur.append(x)
        else:
            return None
    out.append(cur)
    return out


def _stdin(cmd, mode):
    def go(o):
        h = handlers().get(cmd)
        for nums in (True, False):
            toks = list(FLAGS[mode]) + (["-n"] if nums else [])
            tail = f"    shell = SandboxShell(vfs)\n    ctx = CommandContext(stdin=texts[0], env={{}})\n    return shell.commands[{cmd!r}]({toks!r} + [pattern], ctx)\n"
            st, args = start(mode, None, False)
            st.facts[mk("attr", pol("/a/x"), "readable", ty=BOOL)] = True
            r = run(probe(world(False, False, tail), h), None, args, {}, st, None, {"exact": 1, "re_raises": 0, "inline_load": 1}, inline=True, prims=VP, rec_limit=6, kid_limit=8)
            o.took(r)
            out_rows(o, r, h.qual, {"/a/x": FILES["/a/x"]}, mode, False, nums, f"{cmd} {' '.join(toks)} on its input", stdin=True)
    return go


@check("C16", "abstract evaluation of search and the grep commands on given small trees with symbolic pattern, lines, policies and view: on every path class the reported lines are compared with the ones whose match, "
       "readability and admission atoms hold there")
def c16(tier):
    t = []
    for mode in MODES:
        for index in (False, True):
            t.append((f"search {mode} {'index' if index else 'plain'}", _search(index, False, mode, False)))
            t.append((f"search {mode} {'index' if index else 'plain'} view", _search(index, False, mode, True)))
            t.append((f"search {mode} {'index' if index else 'plain'} search view", _search(index, True, mode, False)))
        for index in ("late index", "lazy", "lazy index"):
            t.append((f"search {mode} {index}", _search(index, False, mode, False)))
            t.append((f"search {mode} {index} view", _search(index, False, mode, True)))
        for cmd in ("grep", "rg", "search"):
            t.append((f"{cmd} {mode}", _command(cmd, mode, False, False)))
            t.append((f"{cmd} {mode} view", _command(cmd, mode, True, False)))
        t.append((f"grep {mode} stdin", _stdin("grep", mode)))
    return t
