"""C13 C14 C15: storage write-through, hooks, index upkeep."""
from __future__ import annotations
from .util import *
from .models import roles
from .report import check
from .rules_write import data_fields, FAIL, tree_changes
from .rules_tree import structural, concerns, _exhaustive

AT = inst_ty("StorageAdapter")
IX = sym("index", inst_ty("FullTextIndex"))
SV = sym("sview", PATH)


# ---------------------------------------------------------------- scenes
def under(p, q):
    return q == "/" or p == q or p.startswith(q + "/")


def rel(p, q):
    return p[len(q.rstrip("/")) + 1:]


def adapter(p):
    return sym("adapter:" + p, AT)


def hook_fields():
    c = env().prog.classes["VirtualFileSystem"]
    out = {}
    for f, k in field_kinds().items():
        if k == "hooks":
            s = repr(c.ftypes.get(f))
            for cat in ("WriteHook", "PathHook"):
                if f"'{cat}'" in s:
                    out[cat] = f
    if set(out) != {"WriteHook", "PathHook"}:
        raise AnchorError("hook registries not found")
    return out


def scene(mounts=None, hooks=None, index=False, sview=False):
    """Set up exact mount and hook tables over an arbitrary tree."""
    def setup(st):
        f = st.heap[VFS].f
        kinds = field_kinds()
        for n, k in kinds.items():
            if k == "mounts" and mounts is not None:
                f[n] = st.alloc("init:mounts", Obj("dict", None, {}, items=tuple((pconst(p), adapter(p)) for p in mounts)))
            elif k == "index" and index:
                f[n] = IX
            elif k == "sview" and sview:
                f[n] = SV
        if hooks is not None:
            for cat, n in hook_fields().items():
                ty = env().prog.classes["VirtualFileSystem"].ftypes[n][1][1][1]
                f[n] = st.alloc("init:" + n, Obj("seq", "list", items=tuple(mk("tup", pconst(p), sym(f"{cat}:{p}", ty)) for p in hooks)))
    return setup


def tracer(df, extras=None):
    """Order of the observable effects on each path, in st.log."""
    def mon(I, kind, st, cx, at, d):
        fz = lambda v: I.freeze(v, st) if isinstance(v, T) else v
        if kind == "adapter_ok":
            st.log += (("ad", d["op"], d["adapter"], tuple(sorted(((k, fz(v)) for k, v in d["args"].items()), key=lambda x: x[0]))),)
        elif kind == "callback" and d["category"] in ("WriteHook", "PathHook"):
            st.log += (("hook", d["category"], d["callee"], tuple(fz(a) for a in d["args"])),)
        elif kind == "index":
            a = d["args"]
            st.log += (("ix", d["op"], tuple((k, fz(v)) for k, v in a.items()) if isinstance(a, dict) else tuple(fz(x) for x in a)),)
        elif kind == "delitem" and kids_of(d["cont"]) is not None:
            D = kids_of(d["cont"])
            k = fz(d["key"])
            p = k.args[0] if k.op == "name" else p_join1(D.args[0], k)
            kd = Facts(I, st).kind(node(p))
            st.log += (("rm", p, kd),)
            if extras is not None and p.op == "kidp" and kd != "VirtualDirectory":
                extras.append([(a, b) for a, b in st.facts.items() if not structural(a) and concerns(a, p) and
                               not any(t.op == "attr" and t.args[1] == "policy" for t in subterms(a))])
        elif kind == "store" and d["attr"] in df or kind in ("setitem", "clear") and kids_of(d["cont"]) is not None:
            if any(x[0] in ("hook", "ix") for x in st.log) and st.log[-1] != ("mut",):
                st.log += (("mut",),)
    return mon


from .paths import p_join1  # noqa: E402


def obj_at(I, s, P):
    """The node object now found at path P (None: there is none)."""
    if P is pconst("/"):
        return node(P)
    d = obj_at(I, s, parent_of(P))
    if d is None:
        return None
    if d.op == "node":
        c = s.heap.get(fld(d, "children"))
    else:
        o = s.heap.get(d)
        cr = o.f.get("children") if o is not None else None
        c = s.heap.get(cr) if cr is not None else None
        if c is None:
            return None
    name = pname(P)
    if c is not None:
        for k, v in reversed(c.items):
            if k is name or k.op == "name" and k.args[0] is P:
                return v
    return node(P) if d.op == "node" and Facts(I, s)(mk("exists", P, ty=BOOL)) is not False else None


def pname(P):
    from .paths import p_name
    return p_name(P)


def text_of(I, s, n):
    r = roles(env().prog)
    o = s.heap.get(n)
    if o is not None and r["content"] in o.f and o.f[r["content"]] is not fld(n, r["content"]):
        return I.freeze(o.f[r["content"]], s)
    return mk("content", n, ty=STR)


def field_of(s, n, f):
    o = s.heap.get(n)
    v = o.f.get(f) if o is not None else None
    return v if v is not None else fld(n, f)


def event(t):
    return (t.args[0], dict(t.args[1])) if t.op == "instv" else (None, {})


def is_path(t, P):
    """Does the event's path field render the path P?"""
    if P.op == "pconst":
        return t is const(P.args[0])
    return t.op == "str" and t.args[0] is P


def hook_raised(v):
    return any(x in repr(v) for x in ("raised by WriteHook", "raised by PathHook"))


# ---------------------------------------------------------------- C13
R_THRU = "a successful write or creation of a file under a mount hands its full text and the previous version to the most specific mount's adapter, once"
R_DEL = "a successful removal of a file under a mount deletes it from the most specific mount's adapter, once"
R_OUT = "files outside every mount reach no adapter"
R_SHELL = "shell commands change files only through the filesystem operations"
LAYOUTS = (("/m", "/m/s", "/mm", "/z/y"), ("/z/y", "/mm", "/m/s", "/m"), ("/", "/m"), ("/m", "/"))
FILES = ("/m/s/f", "/m/f", "/m/d/e/f", "/mx/f", "/f", "/m/sf")


def best(mounts, p):
    c = [q for q in mounts if under(p, q) and p != q]
    return max(c, key=len) if c else None


def _write_exit(o, m, r, s, path, mounts):
    """Judge one returning path class of a writing operation."""
    P = pconst(path)
    n = obj_at(r.I, s, P)
    ads = [x for x in s.log if x[0] == "ad" and x[1] in ("write", "delete")]
    q = best(mounts, path)
    where = m.qual
    if n is None:
        o.add(R_THRU, where, None, f"{path}: no file on return")
        return
    old = Facts(r.I, s)(mk("exists", P, ty=BOOL))
    was = fld(node(P), "version") if old is not False else const(0)
    changed = n.op == "ref" or field_of(s, n, "version") is not fld(n, "version") or text_of(r.I, s, n) is not mk("content", n, ty=STR)
    if q is None or not changed:
        ok = not ads
        o.add(R_OUT if q is None else R_THRU, where, ok, f"{path} with mounts {', '.join(mounts)}" + ("" if ok else f": {ads[0][1]} reaches {show(ads[0][2])}"), () if ok else s.trace_list())
        return
    why = ""
    if len(ads) != 1:
        why = f"{len(ads)} adapter calls instead of one"
    else:
        _, op, a, args = ads[0]
        d = dict(args)
        if op != "write":
            why = f"adapter is asked to {op}"
        elif a is not adapter(q):
            why = f"goes to {show(a)}"
        elif d.get("path") is not const(rel(path, q)):
            why = f"relative path is {short(d.get('path', CNONE), 60)}"
        elif d.get("content") is not text_of(r.I, s, n):
            why = f"text is {short(d.get('content', CNONE), 60)}, the file holds {short(text_of(r.I, s, n), 60)}"
        elif d.get("version") is not was:
            why = f"version is {short(d.get('version', CNONE), 60)}"
    o.add(R_THRU, where, not why, f"{path} with mounts {', '.join(mounts)}" + (f": {why}" if why else ""), () if not why else s.trace_list())


def _c13_write(name, on):
    m = method("VirtualFileSystem", name)

    def go(o):
        mon = tracer(data_fields())
        n = 0
        for mounts in LAYOUTS:
            for path in FILES:
                r = run_vfs(m, mon, over={m.params[1].arg: const(path)}, setup=scene(mounts, () if not on else ("/",), bool(on)))
                o.took(r)
                for v, s in r.rets:
                    n += 1
                    _write_exit(o, m, r, s, path, mounts)
        o.add(R_THRU, m.qual, bool(n) or None, f"{n} returning path classes")
    return go


def removed(s):
    """Paths of files (or of nodes not known to be directories) removed on this path."""
    return [x[1] for x in s.log if x[0] == "rm" and x[2] != "VirtualDirectory"]


def kids_covered(o, m, rule, extras):
    """Removing a directory handles every file in it, whatever else is true of the file."""
    ok = any(not x for x in extras) or bool(extras) and _exhaustive(extras)
    o.add(rule, m.qual, ok, "files inside a removed directory" + ("" if ok else " are handled only if " + "; ".join(f"{short(a, 60)} is {b}" for a, b in extras[0]) if extras else
                                                                   " are not handled"))


def _c13_remove(o):
    m = method("VirtualFileSystem", "remove")
    extras = []
    mon = tracer(data_fields(), extras)
    n = 0
    for mounts in LAYOUTS[:2] + (("/", "/m"),):
        for path in FILES[:5] + ("/q/m",):
            r = run_vfs(m, mon, over={m.params[1].arg: const(path)}, setup=scene(mounts))
            o.took(r)
            for v, s in r.rets:
                n += 1
                ads = [x for x in s.log if x[0] == "ad" and x[1] in ("write", "delete")]
                left = list(ads)
                for p in removed(s):
                    q = best(mounts, path if p.op == "pconst" else path + "/x")
                    want = const(rel(path, q)) if q and p.op == "pconst" else mk("str", mk("rel", p, pconst(q), ty=PATH), ty=STR) if q else None
                    hit = [x for x in left if dict(x[3]).get("path") is want] if q else []
                    why = ""
                    if q and len(hit) != 1:
                        why = f"{len(hit)} adapter deletions" + (f", but {left[0][1]} of {short(dict(left[0][3]).get('path', CNONE), 40)}" if left and not hit else "")
                    elif q and hit[0][1] != "delete":
                        why = f"adapter is asked to {hit[0][1]}"
                    elif q and hit[0][2] is not adapter(q):
                        why = f"goes to {show(hit[0][2])}"
                    left = [x for x in left if x not in hit]
                    if q:
                        o.add(R_DEL, m.qual, not why, f"{short(p, 40)} with mounts {', '.join(mounts)}" + (f": {why}" if why else ""), () if not why else s.trace_list())
                if left and not [x for x in left if dict(x[3]).get("path") is not const(".")]:
                    left = []
                ok = not left
                o.add(R_OUT, m.qual, ok, f"removing {path} with mounts {', '.join(mounts)}" + ("" if ok else f": {left[0][1]} of {short(dict(left[0][3]).get('path', CNONE), 40)} reaches {show(left[0][2])}"),
                      () if ok else s.trace_list())
    kids_covered(o, m, R_DEL, extras)
    o.add(R_DEL, m.qual, bool(n) or None, f"{n} returning path classes")


def _c13_relink(name):
    """move and copy: a file that appears under or disappears from a mount."""
    m = method("VirtualFileSystem", name)

    def go(o):
        mon = tracer(data_fields())
        over = {m.params[1].arg: const("/m/a"), m.params[2].arg: const("/z/y/b")}
        r = run_vfs(m, mon, over=over, setup=scene(LAYOUTS[0]))
        o.took(r)
        for v, s in r.rets:
            if Facts(r.I, s).kind(node(pconst("/m/a"))) != "VirtualFile":
                continue
            ads = {(x[1], x[2]) for x in s.log if x[0] == "ad"}
            for D, key, x in tree_changes(r.I, s):
                if x is None and D is node(pconst("/m")):
                    o.add(R_DEL, m.qual, ("delete", adapter("/m")) in ads, "a file moved out of a mount is not deleted from its adapter", s.trace_list())
                elif x is not None and key is const("b"):
                    o.add(R_THRU, m.qual, ("write", adapter("/z/y")) in ads, f"a file created under a mount by {name} is not written to its adapter", s.trace_list())
    return go


_HANDLER_PRIMS = dict(EXEC_PRIMS)


def direct_changes(rule):
    """Command handlers, with the filesystem operations replaced by contracts, store nothing into the tree themselves."""
    def task(nm, h):
        def go(o):
            df = data_fields()

            def mon(I, kind, st, cx, at, d):
                bad = None
                if kind == "store" and d["attr"] in df and d["obj"].op == "node":
                    bad = f"{d['attr']} of a node"
                elif kind in ("setitem", "delitem", "clear", "update") and kids_of(d["cont"]) is not None:
                    bad = "the entries of a directory"
                if bad and via_api(cx) is None:
                    o.add(rule, cx.fn.qual if cx.fn else "?", False, f"command {nm} changes {bad} directly at {I.loc(at, cx)}", st.trace_list())
            r = run_handler(h, mon, opts=SHOPTS | {"loop_limit": 1}, prims=_HANDLER_PRIMS)
            o.took(r)
            o.add(rule, h.qual, True, f"{len(r.rets) + len(r.raises)} path classes")
        return go
    return [(f"command {n}", task(n, h)) for n, h in handler_set()]


@check("C13", "value and effect-order analysis of every returning path of the writing and removing operations over an arbitrary tree, for exact mount tables (nested, "
       "sibling, root, in several orders): the adapter calls on the path are exactly the change the heap records, routed to the deepest enclosing mount")
def c13(tier):
    t = []
    for n in ("write_file", "append_file", "touch"):
        for on in ((), ("hooks", "index")):
            t.append((f"{n} {'+'.join(on)}", _c13_write(n, on)))
    t.append(("remove", _c13_remove))
    t += [(n, _c13_relink(n)) for n in ("move", "copy")]
    return t + direct_changes(R_SHELL)


# ---------------------------------------------------------------- C14
R_ONCE = "a successful write or creation gives every matching hook exactly one event with path, full text, version and kind"
R_NOT = "hooks registered for other prefixes are not called"
R_DELEV = "each removed file gives every matching path hook exactly one delete event"
R_AFTER = "hooks run after the tree, the storage and the index hold the new state"
R_FAILQ = "a failed operation announces nothing"
R_REG = "registering a hook adds it, with its prefix, to the ones already registered"
R_REC = "the inbox recorder keeps every event it is given"
HOOKS = ("/", "/m", "/m/s", "/m/s/f", "/mm", "/m/d", "/m/s/fx", "/z")


def _late(s):
    """What happens after the first hook call, other than hook calls."""
    seen = False
    for x in s.log:
        if x[0] == "hook":
            seen = True
        elif seen:
            return {"ad": "an adapter call", "ix": "an index update", "mut": "a change of the tree", "rm": "a removal"}[x[0]]
    return None


def _c14_write(name, hooks):
    m = method("VirtualFileSystem", name)

    def go(o):
        mon = tracer(data_fields())
        n = 0
        args = {a.arg: sym(a.arg, env().prog.ty(a.annotation)) for a in m.params[1:] + m.kwonly}
        for path in FILES[:4]:
            r = run_vfs(m, mon, over=args | {m.params[1].arg: const(path)}, setup=scene(("/m",), hooks, True), opts={"keep_msgs": 1})
            o.took(r)
            P = pconst(path)
            for v, s in r.rets:
                n += 1
                hs = [x for x in s.log if x[0] == "hook"]
                N = obj_at(r.I, s, P)
                F = Facts(r.I, s)
                ex = F(mk("exists", P, ty=BOOL))
                changed = N is None or N.op == "ref" or field_of(s, N, "version") is not fld(N, "version")
                if not changed:
                    continue
                for cat in ("WriteHook", "PathHook"):
                    got = [x for x in hs if x[1] == cat]
                    for q in hooks:
                        h = [x for x in got if x[2].args[0] == f"{cat}:{q}"]
                        if not under(path, q):
                            o.add(R_NOT, m.qual, not h, f"{cat} for {q}, file {path}" + (" is called" if h else ""), () if not h else s.trace_list())
                            continue
                        why = ""
                        if len(h) != 1:
                            why = f"called {len(h)} times"
                        else:
                            c, e = event(h[0][3][0]) if len(h[0][3]) == 1 else (None, {})
                            if c != cat.replace("Hook", "Event"):
                                why = f"receives {short(h[0][3], 60)}"
                            elif not is_path(e.get("path", CNONE), P):
                                why = f"path is {short(e.get('path', CNONE), 50)}"
                            elif N is not None and e.get("content") is not text_of(r.I, s, N):
                                why = f"content is {short(e.get('content', CNONE), 50)}, the file holds {short(text_of(r.I, s, N), 50)}"
                            elif cat == "WriteHook":
                                if N is not None and e.get("version") is not field_of(s, N, "version"):
                                    why = f"version is {short(e.get('version', CNONE), 50)}, the file is at {short(field_of(s, N, 'version'), 50)}"
                                a = e.get("append", CNONE)
                                want = const(name == "append_file") if "append" not in args else args["append"]
                                if a is not want and not (is_const(a) and not is_const(want) and F(mk("truthy", want, ty=BOOL)) is a.args[1] or
                                                          is_const(a) and not is_const(want) and F(want) is a.args[1]):
                                    why = why or f"append is {short(a, 50)}"
                            else:
                                k = e.get("event", CNONE)
                                if ex is not None and k is not const("update" if ex else "create"):
                                    why = f"kind is {short(k, 40)} for a file that {'existed' if ex else 'did not exist'}"
                        o.add(R_ONCE, m.qual, not why, f"{cat} for {q}, file {path}" + (f": {why}" if why else ""), () if not why else s.trace_list())
                l = _late(s)
                o.add(R_AFTER, m.qual, l is None, f"{path}" + (f": {l} follows the first hook call" if l else ""), () if l is None else s.trace_list())
            for v, s in r.raises:
                hs = [x for x in s.log if x[0] == "hook"]
                ok = not hs or hook_raised(v)
                o.add(R_FAILQ, m.qual, ok, f"{path}" + ("" if ok else f": raises {short(v, 50)} after calling a hook"), () if ok else s.trace_list())
        o.add(R_ONCE, m.qual, bool(n) or None, f"{n} returning path classes")
    return go


def _c14_remove(o):
    m = method("VirtualFileSystem", "remove")
    extras = []
    mon = tracer(data_fields(), extras)
    n = 0
    for path in ("/m/s/f", "/mx/f", "/m/d"):
        r = run_vfs(m, mon, over={m.params[1].arg: const(path)}, setup=scene(("/m",), HOOKS, True), opts={"keep_msgs": 1})
        o.took(r)
        for v, s in r.rets:
            n += 1
            hs = [x for x in s.log if x[0] == "hook"]
            gone = removed(s)
            for x in hs:
                q = x[2].args[0].split(":", 1)[1]
                c, e = event(x[3][0]) if len(x[3]) == 1 else (None, {})
                if x[1] != "PathHook" or c != "PathEvent":
                    o.add(R_DELEV, m.qual, False, f"{path}: a {x[1]} is called with {short(x[3], 60)}", s.trace_list())
                elif not any(y[0] == "rm" and is_path(e.get("path", CNONE), y[1]) for y in s.log):
                    o.add(R_DELEV, m.qual, False, f"{path}: an event for {short(e.get('path', CNONE), 50)}, which was not removed", s.trace_list())
            for p in gone:
                deep = path if p.op == "pconst" else path + "/x"
                for q in HOOKS:
                    if p.op != "pconst" and under(q, path) and q != path:
                        continue
                    h = [x for x in hs if x[1] == "PathHook" and x[2].args[0] == f"PathHook:{q}" and len(x[3]) == 1 and is_path(event(x[3][0])[1].get("path", CNONE), p)]
                    if not under(deep, q):
                        o.add(R_NOT, m.qual, not h, f"PathHook for {q}, removing {path}" + (" is called" if h else ""), () if not h else s.trace_list())
                        continue
                    why = ""
                    if len(h) != 1:
                        why = f"{len(h)} delete events"
                    else:
                        e = event(h[0][3][0])[1]
                        if e.get("event") is not const("delete"):
                            why = f"kind is {short(e.get('event', CNONE), 40)}"
                    o.add(R_DELEV, m.qual, not why, f"PathHook for {q}, removing {short(p, 40)}" + (f": {why}" if why else ""), () if not why else s.trace_list())
                # the file's own removal, storage deletion and index removal come before its event
                i = [k for k, x in enumerate(s.log) if x[0] == "hook" and len(x[3]) == 1 and is_path(event(x[3][0])[1].get("path", CNONE), p)]
                if i:
                    tail = [x for x in s.log[i[0]:] if x[0] == "rm" and x[1] is p or x[0] == "ix" and p in dict(x[2]).values() or
                            x[0] == "ad" and any(p in subterms(t) if p.op != "pconst" else t is const(rel(path, "/m")) for _, t in x[3])]
                    o.add(R_AFTER, m.qual, not tail, f"removal of {short(p, 40)}" + (f": {tail[0][0]} {tail[0][1] if tail[0][0] != 'rm' else ''} follows its event" if tail else ""),
                          () if not tail else s.trace_list())
        for v, s in r.raises:
            if hook_raised(v):
                continue
            rm = [x[1] for x in s.log if x[0] == "rm"]
            for x in s.log:
                if x[0] == "hook" and not any(is_path(event(x[3][0])[1].get("path", CNONE), p) for p in rm):
                    o.add(R_FAILQ, m.qual, False, f"{path}: raises {short(v, 50)} after announcing {short(x[3][0], 60)}", s.trace_list())
        o.add(R_FAILQ, m.qual, True, f"{path}: {len(r.raises)} failing path classes")
    kids_covered(o, m, R_DELEV, extras)
    o.add(R_DELEV, m.qual, bool(n) or None, f"{n} returning path classes")


def _c14_register(o):
    for cat, f in hook_fields().items():
        name = {"WriteHook": "register_write_hook", "PathHook": "register_path_hook"}[cat]
        m = method("VirtualFileSystem", name)
        ty = env().prog.classes["VirtualFileSystem"].ftypes[f][1][1][1]
        hk = sym("hook", ty)
        r = run_vfs(m, None, over={m.params[1].arg: sym("prefix", STR), m.params[2].arg: hk}, setup=scene((), ("/a", "/b")))
        o.took(r)
        for v, s in r.rets:
            lst = s.heap[VFS].f.get(f)
            ob = s.heap.get(lst)
            got = [tuple(r.I.freeze(x, s).args) for x in ob.items] if ob is not None else []
            want = [(pconst("/a"), sym(f"{cat}:/a", ty)), (pconst("/b"), sym(f"{cat}:/b", ty)), (p_norm(sym("prefix", STR)), hk)]
            ok = sorted(got, key=repr) == sorted(want, key=repr)
            o.add(R_REG, m.qual, ok, "adds the hook and keeps the others" if ok else f"registered afterwards: {short(tuple(got), 160)}", () if ok else s.trace_list())
        if not r.rets:
            o.add(R_REG, m.qual, None, "never returns")


def _c14_inbox(o):
    c = env().prog.classes.get("InboxRecorder")
    if c is None:
        raise AnchorError("InboxRecorder not found")
    st0 = {}

    def grab(I, kind, st, cx, at, d):
        if kind == "vfscall":
            st0["hook"] = d["args"].get("hook")
            st0["prefix"] = d["args"].get("prefix")
    from .harness import run
    from .state import State
    st = State()
    vfs_state(st)
    me = sym("inbox", inst_ty("InboxRecorder"))
    st.heap[me] = Obj("inst", "InboxRecorder", {"events": st.alloc("inboxev", Obj("seq", "list", items=(sym("earlier", ANY),)))})
    m = c.find("attach")
    pre = sym("prefix", STR)
    r = run(m, me, [VFS, pre], {}, st, grab, None, prims={"VirtualFileSystem.register_path_hook": opaque(CNONE, raises=False)})
    o.took(r)
    hk = st0.get("hook")
    ok = hk is not None and hk.op == "bound" and st0.get("prefix") is pre
    o.add(R_REC, m.qual, ok if hk is not None else False, "registers its own handler for the prefix" if ok else f"registers {short(hk or CNONE, 60)}")
    if not ok:
        return
    h = hk.args[0]
    for v, s in r.rets:
        ev = sym("event", inst_ty("PathEvent"))
        r2 = run(h, me, [ev], {}, s, None, None)
        o.took(r2)
        for v2, s2 in r2.rets:
            l = s2.heap[s2.heap[me].f["events"]]
            its = [r2.I.freeze(x, s2) for x in l.items]
            why = ""
            if len(its) != 2 or its[0] is not sym("earlier", ANY):
                why = f"{len(its) - 1} entries recorded" if its and its[0] is sym("earlier", ANY) else "earlier entries are lost"
            elif its[1].op != "dictv":
                why = f"records {short(its[1], 60)}"
            else:
                e = {k.args[1]: x for k, x in its[1].args[1] if is_const(k)}
                for f in ("path", "event", "content"):
                    if e.get(f) is not fld(ev, f):
                        why = f"{f} is {short(e.get(f, CNONE), 50)}"
            o.add(R_REC, h.qual, not why, "keeps path, kind and text" if not why else why, () if not why else s2.trace_list())


def _c14_relink(name):
    m = method("VirtualFileSystem", name)

    def go(o):
        mon = tracer(data_fields())
        r = run_vfs(m, mon, over={m.params[1].arg: const("/m/a"), m.params[2].arg: const("/z/b")}, setup=scene((), ("/",)))
        o.took(r)
        for v, s in r.rets:
            if Facts(r.I, s).kind(node(pconst("/m/a"))) != "VirtualFile":
                continue
            evs = [event(x[3][0])[1] for x in s.log if x[0] == "hook" and x[3]]
            for D, key, x in tree_changes(r.I, s):
                if x is None and D is node(pconst("/m")):
                    o.add(R_DELEV, m.qual, any(e.get("event") is const("delete") for e in evs), "a file moved away is not announced as deleted", s.trace_list())
                elif x is not None and key is const("b"):
                    o.add(R_ONCE, m.qual, any(e.get("path") is const("/z/b") for e in evs), f"a file created by {name} is not announced", s.trace_list())
    return go


@check("C14", "value and effect-order analysis of every path of the writing and removing operations over an arbitrary tree, for an exact table of hooks (root, ancestors, "
       "the path itself, sibling names): exactly one event per matching hook, whose fields equal the heap on return; no tree, storage or index effect after the first event; none on failing paths")
def c14(tier):
    t = []
    for n in ("write_file", "append_file", "touch"):
        for hk in (HOOKS[:4], HOOKS[4:], ("/", "/m/s", "/mm")):
            t.append((f"{n} {' '.join(hk)}", _c14_write(n, hk)))
    t += [("remove", _c14_remove), ("register", _c14_register), ("inbox", _c14_inbox)]
    t += [(n, _c14_relink(n)) for n in ("move", "copy")]
    return t + direct_changes(R_SHELL)


# ---------------------------------------------------------------- C15
R_HOLD = "after the operation the index holds the file's current text under its path"
R_GONE = "after the operation the index holds nothing under paths that ceased to exist"
R_FILL = "after a wholesale change the index is rebuilt from the final tree"
R_FULL = "rebuilding the index enters every file outside the search view with its text"
R_SV = "files of the search view are never indexed"
R_STORE = "the index stores, replaces, removes and rebuilds exactly the entries it is given"
SVP = "/@search"


def index_state(s):
    """(rebuilt from the current tree?, {path: text or None}) as the index events of this path leave it."""
    full, known = False, {}
    for x in s.log:
        if x[0] in ("mut", "rm"):
            full = False
        elif x[0] == "ix":
            a = dict(x[2]) if x[2] and isinstance(x[2][0], tuple) else {}
            if x[1] in ("refill", "build"):
                full, known = True, {}
            elif x[1] == "index_file":
                known[a.get("path")] = a.get("content")
            elif x[1] == "remove_file":
                known[a.get("path")] = None
    return full, known


def _expect(o, m, s, P, text, what):
    full, known = index_state(s)
    if P in known:
        got = known[P]
        ok = got is text
        d = f"{what}: the index has {short(got, 50) if got is not None else 'nothing'}" + (f" instead of {short(text, 50)}" if text is not None else "")
    else:
        ok = full
        d = f"{what}: the index is not told"
    o.add(R_HOLD if text is not None else R_GONE, m.qual, ok, what if ok else d, () if ok else s.trace_list())


def _sv_clean(o, m, s):
    bad = [p for p, c in index_state(s)[1].items() if c is not None and p is not None and (p.op == "pconst" and under(p.args[0], SVP) or p.op != "pconst" and pconst(SVP) in ancestors(p))]
    o.add(R_SV, m.qual, not bad, "nothing of the search view" if not bad else f"{short(bad[0], 50)} is indexed", () if not bad else s.trace_list())


from .paths import ancestors  # noqa: E402


def sv_scene(*a, **k):
    f = scene(*a, **k)

    def setup(st):
        f(st)
        for n, kd in field_kinds().items():
            if kd == "sview":
                st.heap[VFS].f[n] = pconst(SVP)
    return setup


def _c15_write(name, setup):
    m = method("VirtualFileSystem", name)

    def go(o):
        mon = tracer(data_fields())
        n = 0
        for path in ("/m/f", "/f", SVP + "/q/f", SVP + "x/f"):
            r = run_vfs(m, mon, over={m.params[1].arg: const(path)}, setup=setup)
            o.took(r)
            P = pconst(path)
            for v, s in r.rets:
                n += 1
                _sv_clean(o, m, s)
                N = obj_at(r.I, s, P)
                if under(path, SVP) or N is None or N.op == "node" and text_of(r.I, s, N) is mk("content", N, ty=STR) and not any(x[0] == "ix" for x in s.log):
                    continue
                _expect(o, m, s, P, text_of(r.I, s, N), path)
        o.add(R_HOLD, m.qual, bool(n) or None, f"{n} returning path classes")
    return go


def _c15_mount_file(o):
    m = method("VirtualFileSystem", "mount_file")
    prov = sym("provider", env().prog.ty(m.params[2].annotation))
    mon = tracer(data_fields())
    for path in ("/m/f", SVP + "/f"):
        r = run_vfs(m, mon, over={m.params[1].arg: const(path), m.params[2].arg: prov}, setup=sv_scene((), (), True))
        o.took(r)
        hit = 0
        for v, s in r.rets:
            _sv_clean(o, m, s)
            if under(path, SVP):
                continue
            full, known = index_state(s)
            t = known.get(pconst(path), "?")
            ok = full or t is None or t != "?" and t.op == "cb" and t.args[0] is prov
            hit += t not in ("?", None) or full
            o.add(R_HOLD, m.qual, ok, "mounted file" + ("" if ok else ": the index " + ("is not told" if t == "?" else f"has {short(t, 60)}")), () if ok else s.trace_list())
        if not under(path, SVP):
            o.add(R_HOLD, m.qual, hit > 0, f"a mounted file's text is entered on {hit} of {len(r.rets)} path classes")


def _c15_remove(o):
    m = method("VirtualFileSystem", "remove")
    extras = []
    mon = tracer(data_fields(), extras)
    n = 0
    for path in ("/m/f", "/f", "/m/d"):
        r = run_vfs(m, mon, over={m.params[1].arg: const(path)}, setup=sv_scene((), (), True))
        o.took(r)
        for v, s in r.rets:
            for p in removed(s):
                n += 1
                _expect(o, m, s, p, None, f"removed {short(p, 40)}")
    kids_covered(o, m, R_GONE, extras)
    o.add(R_GONE, m.qual, bool(n) or None, f"{n} removals")


def _c15_relink(name):
    m = method("VirtualFileSystem", name)

    def go(o):
        mon = tracer(data_fields())
        for src, dst in (("/m/a", "/z/b"), ("/a", "/m/n/b"), ("/m/a", "/m/b"), ("/m/a", SVP + "/b")):
            r = run_vfs(m, mon, over={m.params[1].arg: const(src), m.params[2].arg: const(dst)}, setup=sv_scene((), (), True))
            o.took(r)
            for v, s in r.rets:
                ch = list(tree_changes(r.I, s))
                if not ch:
                    continue
                _sv_clean(o, m, s)
                kd = Facts(r.I, s).kind(node(pconst(src)))
                if kd == "VirtualDirectory":
                    full, known = index_state(s)
                    ok = full or (None if any(p is not None and p.op == "kidp" for p in known) else False)
                    o.add(R_FILL, m.qual, ok, f"{name} of a directory" + ("" if ok else ": the index is not rebuilt"), () if ok else s.trace_list())
                    continue
                for D, key, x in ch:
                    P = p_join1(D.args[0], key) if key is not None else None
                    if P is None:
                        o.add(R_HOLD, m.qual, None, "a directory is emptied")
                    elif x is None:
                        _expect(o, m, s, P, None, f"{name} {src} {dst}")
                    elif not (P.op == "pconst" and under(P.args[0], SVP)):
                        _expect(o, m, s, P, text_of(r.I, s, x), f"{name} {src} {dst}")
    return go


def _c15_fill(name):
    """Wholesale changes: the last thing that happens to the tree precedes the rebuild."""
    m = method("VirtualFileSystem", name)

    def go(o):
        mon = tracer(data_fields())
        over = {}
        if name != "restore":
            over[m.params[1].arg] = const("/m")
        if name == "mount_storage":
            over[m.params[2].arg] = sym("newadapter", AT)
        r = run_vfs(m, mon, over=over, setup=sv_scene(("/m",), (), True))
        o.took(r)
        for v, s in r.rets:
            full, known = index_state(s)
            o.add(R_FILL, m.qual, full, name if full else f"{name}: " + ("the index is not rebuilt" if not any(x[0] == "ix" for x in s.log) else "the tree changes after the rebuild"),
                  () if full else s.trace_list())
        o.add(R_FILL, m.qual, bool(r.rets) or None, f"{len(r.rets)} returning path classes")
    return go


def _c15_enable(o):
    m = method("VirtualFileSystem", "enable_full_text_index")
    mon = tracer(data_fields())
    f = next(n for n, k in field_kinds().items() if k == "index")
    for arg in (IX, CNONE):
        r = run_vfs(m, mon, over={m.params[1].arg: arg}, setup=sv_scene((), ()))
        o.took(r)
        for v, s in r.rets:
            full, known = index_state(s)
            cur = s.heap[VFS].f.get(f)
            same = cur is v and (arg is not IX or v is IX)
            ok = full and same
            o.add(R_FILL, m.qual, ok, "enabled index is filled" if ok else "the enabled index is not filled" if same else f"returns {short(v, 40)} but uses {short(cur or CNONE, 40)}",
                  () if ok else s.trace_list())


def _c15_full(sview):
    """What a rebuild enters, file by file."""
    def go(o):
        fns = [m for m in env().prog.classes["VirtualFileSystem"].methods.values() if env().eff.index_only(m)]
        if not fns:
            fns = [method("VirtualFileSystem", "enable_full_text_index")]
        for m in fns:
            seen = {}
            built = []
            after = [0, 0]

            def mon(I, kind, st, cx, at, d):
                if kind in ("read_fail", "load_fail"):
                    st.log = (("failed",),)
                    return
                if kind in ("grow", "yield"):
                    after[1] += kind == "yield"
                    v = I.freeze(d["val"], st)
                    if v.op == "tup" and len(v.args) == 2 and v.args[1].op == "content":
                        p = v.args[0]
                        rec(I, st, cx, p, v.args[1])
                elif kind == "index" and d["op"] in ("build", "index_file"):
                    built.append(d["op"])
                    if d["op"] == "index_file":
                        a = d["args"]
                        rec(I, st, cx, I.freeze(a.get("path", CNONE), st), I.freeze(a.get("content", CNONE), st))

            def rec(I, st, cx, p, c):
                after[0] += bool(st.log)
                if c is not mk("content", node(p), ty=STR):
                    o.add(R_FULL, cx.fn.qual, False, f"enters {short(c, 60)} under {short(p, 60)}", st.trace_list())
                    return
                F = Facts(I, st)
                if sview:
                    out = F(mk("isrel", p, SV, ty=BOOL)) is False
                    o.add(R_SV, cx.fn.qual, out, f"{short(p, 60)} is known to lie outside the search view" if out else f"{short(p, 60)} may lie in the search view",
                          () if out else st.trace_list())
                dep, q = 0, p
                while q.op == "kidp":
                    q, dep = q.args[0], dep + 1
                seen.setdefault(dep, []).append([(a, b) for a, b in st.facts.items() if not structural(a) and concerns(a, p) and SV not in subterms(a)])
            r = run_vfs(m, mon, setup=scene((), (), True, sview), opts={"inline_index": 1} | FAIL, inline=True, rec_limit=3, kid_limit=3, soft=lambda a: False)
            o.took(r)
            o.add(R_FULL, m.qual, bool(after[0]) or (None if after[1] else False), "the walk continues after a file that cannot be read" if after[0] else "no file is entered after one that cannot be read")
            for dep in (1, 2):
                gs = seen.get(dep)
                ok = bool(gs) and (any(not x for x in gs) or _exhaustive(gs))
                o.add(R_FULL, m.qual, ok, f"files {dep} level(s) below the root" + ("" if ok else " are not entered" if not gs else " are entered only if " +
                                                                                  "; ".join(f"{short(a, 60)} is {b}" for a, b in gs[0])))
            o.add(R_FULL, m.qual, bool(built) or None, "the index is given the entries" if built else "no index call met")
            for v, s in r.raises:
                o.add(R_FULL, m.qual, False, f"raises {short(v, 60)}", s.trace_list())
    return go


def _c15_store(o):
    from .harness import run
    from .state import State
    c = env().prog.classes["FullTextIndex"]
    fs = [f for f, t in c.ftypes.items() if t[0] == "dict" and t[1] == PATH]
    if len(fs) != 1:
        raise AnchorError("entry table of the index not found")
    A, B, C = (pconst(x) for x in ("/a", "/b/c", "/d"))
    ta, tb, tc = (sym(x, STR) for x in ("ta", "tb", "tc"))
    E0, E1, E2 = (), ((A, ta),), ((A, ta), (B, tb))
    for name, args, have, want in (("index_file", (C, tc), E2, {A: ta, B: tb, C: tc}), ("index_file", (A, tc), E2, {A: tc, B: tb}), ("remove_file", (A,), E2, {B: tb}),
                                   ("remove_file", (C,), E2, {A: ta, B: tb}), ("build", None, E2, {C: tc, A: tb}), ("clear", (), E2, {}), ("index_file", (C, tc), E0, {C: tc}),
                                   ("index_file", (A, tc), E1, {A: tc}), ("remove_file", (A,), E1, {}), ("remove_file", (A,), E0, {}), ("build", None, E0, {C: tc, A: tb})):
        m = c.find(name)
        if m is None:
            if name in ("clear",):
                continue
            raise AnchorError(f"FullTextIndex.{name} not found")
        st = State()
        st.heap[IX] = Obj("inst", "FullTextIndex", {fs[0]: st.alloc("files", Obj("dict", None, {}, items=have))})
        if args is None:
            args = (st.alloc("entries", Obj("seq", "list", items=(mk("tup", C, tc), mk("tup", A, tb)))),)
        r = run(m, IX, args, {}, st, None, {"inline_index": 1}, inline=True, prims={f"FullTextIndex.{n}": (lambda *a: None) for n in ("index_file", "remove_file", "build", "clear", "search")})
        o.took(r)
        for v, s in r.rets:
            d = s.heap.get(s.heap[IX].f.get(fs[0]))
            got = {}
            ok = None
            if d is not None and d.base is None and not d.bag:
                got = {k: x for k, x in d.items if x is not None}
                ok = got == want
            o.add(R_STORE, m.qual, ok, f"{name}({', '.join(short(x, 20) for x in args)})" + ("" if ok else f" leaves {short(tuple(got.items()), 120)}"), () if ok else s.trace_list())
        for v, s in r.raises:
            o.add(R_STORE, m.qual, False, f"{name} raises {short(v, 60)}", s.trace_list())


@check("C15", "effect-order analysis of every returning path of every tree-changing operation with the index enabled: the index calls on the path, replayed over the "
       "final heap, leave the current text under each affected path and nothing under vanished ones; the rebuild is shown to enter every file outside the search view; the entry table's own operations are checked")
def c15(tier):
    t = []
    for n in ("write_file", "append_file", "touch"):
        t.append((n, _c15_write(n, sv_scene((), (), True))))
        t.append((n + " mounted, hooked", _c15_write(n, sv_scene(("/m",), ("/",), True))))
    t += [("mount_file", _c15_mount_file), ("remove", _c15_remove), ("enable", _c15_enable), ("index table", _c15_store)]
    t += [(n, _c15_relink(n)) for n in ("move", "copy")]
    t += [(n, _c15_fill(n)) for n in ("sync_storage", "mount_storage", "restore")]
    t += [("rebuild", _c15_full(False)), ("rebuild with a search view", _c15_full(True))]
    return t + direct_changes(R_SHELL)
