"""Obligations, tasks and the driver that decides one property."""
from __future__ import annotations
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
TASK_LIMIT = int(os.environ.get("SFA_TASK_LIMIT", "240"))


class Ob:
    """One decided obligation. ok: True discharged, False violated, None not decided."""
    __slots__ = ("rule", "where", "ok", "detail", "trace")

    def __init__(self, rule, where, ok, detail="", trace=()):
        self.rule, self.where, self.ok, self.detail, self.trace = rule, where, ok, detail, list(trace)


class TaskTimeout(Exception):
    pass


CHECKS: dict = {}      # id -> function(tier) -> list of (task name, callable)
INFO: dict = {}        # id -> dict(rule=..., assumptions=[...])


def check(pid, rule, assumptions=()):
    def deco(f):
        CHECKS[pid] = f
        INFO[pid] = dict(rule=rule, assumptions=list(assumptions))
        return f
    return deco


class Obs:
    """Collector handed to tasks."""

    def __init__(self):
        self.obs = []
        self.fns = set()
        self.sliced = set()
        self.cuts = set()
        self.unknown = set()
        self.paths = 0
        self.calls = 0
        self._seen = {}

    def add(self, rule, where, ok, detail="", trace=()):
        k = (rule, where, ok, detail)
        if k in self._seen:
            self._seen[k] += 1
            return
        self._seen[k] = 1
        self.obs.append(Ob(rule, where, ok, detail, trace))

    def took(self, run):
        I = run.I
        self.fns |= I.analysed
        self.sliced |= I.sliced
        self.cuts |= set(map(str, I.cuts))
        self.unknown |= set(map(str, I.unknown))
        self.paths += len(run.rets) + len(run.raises)
        self.calls += I.ncalls


_TASKS = []


def _alarm(*_):
    raise TaskTimeout()


def _run(i):
    name, fn = _TASKS[i]
    o = Obs()
    t = time.time()
    note = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(TASK_LIMIT)
    try:
        fn(o)
    except TaskTimeout:
        note = f"time limit of {TASK_LIMIT} s reached"
    except RecursionError:
        note = "analysis recursion limit"
    except MemoryError:
        note = "memory limit"
    except Exception as e:      # the analyser itself failed: undecided, never a verdict
        note = "analyser error: " + "".join(traceback.format_exception_only(type(e), e)).strip()
        if os.environ.get("SFA_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    if o.unknown:       # a construct without a model: what depends on it is not decided
        for x in o.obs:
            if x.ok is False:
                x.ok = None
                x.detail += f" (unmodelled: {sorted(o.unknown)[:3]})"
    return (name, [(x.rule, x.where, x.ok, x.detail, x.trace) for x in o.obs], sorted(o.fns), sorted(o.sliced), sorted(o.cuts), sorted(o.unknown),
            o.paths, o.calls, sum(o._seen.values()), round(time.time() - t, 2), note)


def known_findings(pid):
    out = []
    p = VERIF / "known-findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("known: "):
                f = [x.strip() for x in line[len("known: "):].split("|")]
                if len(f) >= 4 and f[0] == f"property={pid}":
                    out.append((f[1], f[2], f[3]))
    return out


def decide(pid, tier="quick"):
    global _TASKS
    t0 = time.time()
    from . import harness
    harness.env()
    _TASKS = CHECKS[pid](tier)
    res = []
    if os.environ.get("SFA_TASK"):      # debugging only
        _TASKS[:] = [x for x in _TASKS if os.environ["SFA_TASK"] in x[0]]
    if len(_TASKS) == 1 or os.environ.get("SFA_SERIAL"):
        res = [_run(i) for i in range(len(_TASKS))]
    else:
        with mp.get_context("fork").Pool(min(8, len(_TASKS)), maxtasksperchild=4) as pool:
            res = list(pool.imap_unordered(_run, range(len(_TASKS)), chunksize=1))
    obs, bad, undec, notes = 0, {}, [], []
    rules = {}
    fns, sliced, cuts, unk = set(), set(), set(), set()
    paths = calls = visits = 0
    for name, os_, f, sl, cu, un, pa, ca, nv, dt, note in sorted(res):
        fns |= set(f)
        sliced |= set(sl)
        cuts |= set(cu)
        unk |= set(un)
        paths += pa
        calls += ca
        visits += nv
        if note:
            notes.append(f"{name}: {note}")
        for rule, where, ok, detail, trace in os_:
            obs += 1
            r = rules.setdefault(rule, [0, 0])
            r[0] += 1
            if ok is True:
                r[1] += 1
            elif ok is False:
                bad.setdefault((rule, where), []).append((name, detail, trace))
            else:
                undec.append(f"{rule} @ {where}: {detail}"[:300])
    known = known_findings(pid)
    viol, kn = {}, []
    for (rule, where), lst in sorted(bad.items()):
        rest = []
        hits = set()
        for name, detail, trace in lst:
            m = [k for k in known if k[0] == rule and k[1] in where and k[2] in detail]
            if m:
                hits.add(m[0])
            else:
                rest.append((name, detail, trace))
        for h in sorted(hits):
            kn.append(f"{rule} @ {where}: {h[2]}")
        if rest:
            viol[(rule, where)] = rest
    ev = Path(os.environ.get("SFA_EV") or VERIF / "evidence")
    ev.mkdir(exist_ok=True)
    replay = ev / f"{pid}.violations.txt"
    lines = []
    for (rule, where), lst in sorted(viol.items()):
        lines.append(f"[{pid}] {rule}\n  construct: {where}")
        for name, detail, trace in lst[:6]:
            lines.append(f"  entry: {name}\n  {detail}")
            for x in trace[-14:]:
                lines.append(f"    path: {x}")
        lines.append("")
    replay.write_text("\n".join(lines) or "no violations\n")
    nv = sum(len(v) for v in viol.values())
    disch = sum(r[1] for r in rules.values())
    samples = []
    for name, os_, *_ in sorted(res):
        for rule, where, ok, detail, trace in os_[:2]:
            if len(samples) < 12:
                samples.append(f"{name}: {rule} @ {where}: {'ok' if ok else 'VIOLATED' if ok is False else 'undecided'} {detail}"[:260])
    data = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
                coverage=dict(
                    explanation="Static analysis of /repo's source (nothing of it is executed). Rule: " + INFO[pid]["rule"],
                    obligations=obs, discharged=disch, undecided=len(undec), obligation_visits=visits,
                    rules={k: dict(obligations=v[0], discharged=v[1]) for k, v in sorted(rules.items())},
                    entry_points=sorted(r[0] for r in res), functions_analysed=sorted(fns), functions_summarised=sorted(sliced),
                    path_classes=paths, calls_interpreted=calls, bounds_hit=sorted(cuts)[:40], unmodelled=sorted(unk)[:40],
                    undecided_list=undec[:40], notes=notes, samples=samples, known_findings=kn,
                    task_seconds={r[0]: r[9] for r in sorted(res)}),
                assumptions=INFO[pid]["assumptions"] + BASE_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=nv)
    (ev / f"{pid}.json").write_text(json.dumps(data, indent=1, ensure_ascii=False) + "\n")
    for k in kn:
        print(f"KNOWN-FINDING: property={pid} {k}")
    for n in notes:
        print(f"note: {n}")
    for u in undec[:10]:
        print(f"undecided: {u}")
    print(f"{pid}: {obs} obligations, {disch} discharged, {len(undec)} undecided, {nv} violations, {paths} path classes, {len(fns)} functions, "
          f"{data['wall_s']} s")
    if not obs:
        print(f"error: no obligations were generated for {pid}", file=sys.stderr)
        return 2
    if viol:
        for (rule, where), lst in sorted(viol.items()):
            print(f"  {rule} @ {where}: {lst[0][1]}"[:400])
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


BASE_ASSUMPTIONS = [
    "distinct path terms denote distinct nodes (no aliasing between independently named paths) unless the code compares them",
    "recursion is followed two levels deep, created ancestor chains three long, loops to a fixpoint over a generic element (bounds_hit lists cuts)",
    "standard-library calls behave as modelled in sfa/models.py; callbacks, providers and adapters are arbitrary",
]
