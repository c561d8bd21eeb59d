"""Verdicts: runs one check, confirms violations by running the failing cases again, writes evidence."""
import importlib, hashlib, json, os, re, shutil, sys, time, traceback
from . import core
from .core import CheckError, VERIF, log

KNOWN = os.path.join(VERIF, "known_findings.json")


class Case:
    """One complete history / program. `id` is stable and describes the content."""
    __slots__ = ("id", "data")

    def __init__(self, id, **data):
        self.id = id
        self.data = data

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)


class Space:
    """A finite graph of partial programs/histories explored breadth-first. Every state is visited once
    (states are compared by canonical form), every transition taken; `cases` are the complete ones."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.cases = []
        self._ids = set()

    def add(self, case):
        if case.id in self._ids:
            return
        self._ids.add(case.id)
        self.cases.append(case)

    def bfs(self, init, succ, depth, canon=None, visit=None):
        """succ(state) yields (label, next state). Returns the list of reachable states."""
        canon = canon or (lambda s: s)
        seen = set()
        frontier = []
        out = []
        for s in init:
            k = canon(s)
            if k not in seen:
                seen.add(k)
                frontier.append(s)
                out.append(s)
                self.states += 1
        for _ in range(depth):
            nxt = []
            for s in frontier:
                for _label, t in succ(s):
                    self.transitions += 1
                    k = canon(t)
                    if k not in seen:
                        seen.add(k)
                        nxt.append(t)
                        out.append(t)
                        self.states += 1
            frontier = nxt
        return out


def known_findings(pid):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [e for e in d["findings"] if e["property"] == pid]


class Check:
    ID = None
    LEVEL = "model_checking"
    ASSUMPTIONS = []
    FEATURES = ()
    CONFIRM = True

    def __init__(self):
        self.info = {}
        self.outcomes = set()
        self.replay_only = None

    # to be provided
    def space(self):
        raise NotImplementedError

    def judge(self, b, cases):
        """{case id: [(class, message)]} for the cases that violate the property."""
        raise NotImplementedError

    def outcome(self, o):
        self.outcomes.add(o)


def _artefact(pid, case, msgs):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = re.sub(r"[^A-Za-z0-9_.-]+", "_", case.id)[:80]
    path = os.path.join(d, "%s-%s-%s.json" % (pid, name, hashlib.sha1(case.id.encode("utf-8", "replace")).hexdigest()[:6]))
    with open(path, "w") as f:
        json.dump({"property": pid, "case": case.id, "data": _jsonable(case.data),
                   "violations": [{"class": c, "message": m} for c, m in msgs],
                   "replay": "python3 replay.py %s" % path}, f, indent=1)
    return path


def _jsonable(o):
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [_jsonable(x) for x in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def load(pid):
    mod = importlib.import_module("checks." + pid.lower())
    return mod.CHECK()


def run(pid, only=None):
    t0 = time.time()
    chk = load(pid)
    b = core.build(chk.FEATURES)
    sp = chk.space()
    cases = sp.cases
    if only is not None:
        cases = [c for c in cases if c.id in only]
        if len(cases) != len(only):
            raise CheckError("no such case: %r" % sorted(set(only) - {c.id for c in cases}))
    byid = {c.id: c for c in cases}
    bad = chk.judge(b, cases)
    if bad and chk.CONFIRM:
        # Replay the failing cases on their own; what does not fail again is a fault of the machinery.
        again = [byid[i] for i in list(bad)[:60]]
        bad2 = chk.judge(b, again)
        lost = [c.id for c in again if {k for k, _ in bad[c.id]} != {k for k, _ in bad2.get(c.id, [])}]
        if lost:
            third = chk.judge(b, [byid[i] for i in lost])
            still = [i for i in lost if i in third]
            if not still and len(lost) == len(again):
                raise CheckError("violations that do not replay: %r" % [(i, bad[i]) for i in lost[:3]])
            for i in lost:
                if i not in still:
                    log("not replayable, ignored:", i, bad[i])
                    bad.pop(i)
    known = {(e["case"], e["class"]): e for e in known_findings(pid)}
    fresh, seen_known = [], {}
    for i, msgs in bad.items():
        for cls, m in msgs:
            if (i, cls) in known:
                seen_known[(i, cls)] = known[(i, cls)]
            else:
                fresh.append((i, cls, m))
    for k, e in known.items():
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
        elif only is None:
            log("listed finding no longer fails:", k)
    shown = set()
    for i, cls, m in fresh:
        if i in shown:
            continue
        shown.add(i)
        path = _artefact(pid, byid[i], bad[i])
        if len(shown) <= int(os.environ.get("MC_SHOW", "25")):
            print("VIOLATION property=%s replay=%s" % (pid, path))
            log(("   case %s\n   [%s] %s" % (i, cls, m[:1500])).encode("utf-8", "replace").decode())
    wall = time.time() - t0
    if only is None:
        samples = [{"case": c.id, "data": _trim(_jsonable(c.data))} for c in _pick(cases, 4)]
        cov = {"states": sp.states, "transitions": sp.transitions,
               "traces_validated_against_impl": len(cases), "samples": samples,
               "evaluations": len(cases), "distinct_nontrivial": len(chk.outcomes),
               "rule": getattr(chk, "RULE", "distinct observed outcomes over all explored cases"),
               "exhaustive": True}
        cov.update(chk.info)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": core.TIER, "seed": core.SEED, "level": chk.LEVEL,
                       "coverage": cov, "assumptions": chk.ASSUMPTIONS, "wall_s": round(wall, 2),
                       "violations": len({i for i, _, _ in fresh})}, f, indent=1, ensure_ascii=False)
    log("%s: %d cases, %d states, %d transitions, %d distinct outcomes, %d violating cases (%d known), %.1fs "
        "(build %.1fs)" % (pid, len(cases), sp.states, sp.transitions, len(chk.outcomes), len(bad),
                           len({i for i, _ in seen_known}), wall, b.wall))
    return 1 if fresh else 0


def _pick(l, n):
    if len(l) <= n:
        return l
    return [l[i * (len(l) - 1) // (n - 1)] for i in range(n)]


def _trim(o, lim=600):
    if isinstance(o, str):
        return o if len(o) <= lim else o[:lim] + "…"
    if isinstance(o, list):
        return [_trim(x, lim) for x in o[:12]]
    if isinstance(o, dict):
        return {k: _trim(v, lim) for k, v in list(o.items())[:12]}
    return o
