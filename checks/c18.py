"""C18: concurrent generations do not affect each other.

2 or 3 threads of one process each run a request history on the real Codegen over instrumented modules. The Python
callbacks of these modules are the only places where CPython can hand the GIL to another thread (the switch interval is
raised so that nothing else switches), and a scheduler inside them dictates which thread continues. All schedules up to
a preemption bound are enumerated by depth-first search over choice prefixes. Oracle: every thread's bindings equal those
of the same history run alone; the streams are the original objects at the end; a thread's output during its own
suppressed request is never visible."""
import itertools, json, sys
from harness import core, prog
from harness.ctx import Check, Case, Space

INST = '''
import mc_sched as _s
_s.point("import")
def __dir__():
    _s.point("dir")
    return ["C", "fn", "val", "dyn"]
def __getattr__(n):
    if n == "dyn":
        _s.point("dyn")
        return %(dyn)s
    raise AttributeError(n)
class C:
    "%(tag)s"
    def __init__(self, a: int): pass
    def m(self, x: str) -> int: ...
def fn(a: int, *b, k: float = 1.0) -> str: ...
val = %(dyn)s
'''
PRIV = INST.replace('_s.point("import")\n', "")
SUBM = 'import mc_sched as _s\n_s.point("import sub")\ndef sub_fn(a: bool) -> int: ...\n'
DEPM = "from %s import DC\n"
DEPD = ('import mc_sched as _s\nclass DC: ...\ndef __getattr__(n):\n    _s.point("dep." + n)\n    raise AttributeError(n)\n'
        'def __dir__():\n    _s.point("dep.dir")\n    return ["DC", "zz"]\n')
FILES = {}
for _i, _dyn in ((0, "5"), (1, "'text'"), (2, "1.5")):
    FILES["spkg%d/__init__.py" % _i] = PRIV % {"dyn": _dyn, "tag": "package %d" % _i}
    FILES["spkg%d/sub.py" % _i] = SUBM
    FILES["smod%d.py" % _i] = INST % {"dyn": _dyn, "tag": "module %d" % _i}
    FILES["sdep%d.py" % _i] = DEPM % ("sdepd%d" % _i)
    FILES["sdepd%d.py" % _i] = DEPD
    FILES["spre%d.py" % _i] = PRIV % {"dyn": _dyn, "tag": "shared %d" % _i}
PURGE = ["spkg0", "spkg1", "spkg2", "smod0", "smod1", "smod2", "sdep0", "sdep1", "sdep2", "sdepd0", "sdepd1", "sdepd2",
         "sstr0", "sstr1", "sstr2"]
OO, OX, XO, XX = [{"suppress_python_stdout": a, "suppress_python_stderr": b} for a in (True, False) for b in (True, False)]


def H(kind, i, cfg=OO, fault=()):
    """The history of one thread."""
    c = dict(cfg)
    if kind == "pkg":
        req = [{"op": "module_name", "name": "spkg%d" % i}]
    elif kind == "mod":
        req = [{"op": "module_name", "name": "smod%d" % i}]
    elif kind == "pre":
        req = [{"op": "module", "name": "spre%d" % i}]
    elif kind == "str":
        req = [{"op": "module_from_str", "src": INST % {"dyn": "b''", "tag": "s%d" % i}, "name": "sstr%d" % i}]
    elif kind == "dep":
        c["generate_dependencies"] = True
        req = [{"op": "module_name", "name": "sdep%d" % i}]
    elif kind == "two":
        req = [{"op": "module_name", "name": "spkg%d.sub" % i}, {"op": "module", "name": "spre%d" % i}]
    else:
        raise KeyError(kind)
    return {"key": "%s%d%s" % (kind, i, "".join("oe"[j] for j in (0, 1) if list(cfg.values())[j])), "cfg": c,
            "req": req, "fault": list(fault)}


def scenarios():
    out = []
    for a, b in (("pkg", "pkg"), ("mod", "mod"), ("pkg", "mod"), ("str", "str"), ("mod", "str"), ("dep", "dep"), ("two", "mod")):
        out.append(("%s/%s" % (a, b), [H(a, 0), H(b, 1)]))
    out.append(("same", [H("pre", 0), H("pre", 0)]))
    out.append(("same+other", [H("pre", 0), H("mod", 0)]))
    for x, y in itertools.product((OO, OX, XO, XX), repeat=2):
        if (x, y) != (OO, OO):
            out.append(("cfg", [H("mod", 0, x), H("mod", 1, y)]))
    for k in (1, 2, 3, 4):
        out.append(("fault%d" % k, [H("mod", 0, OO, [k]), H("mod", 1)]))
        out.append(("faults%d" % k, [H("pkg", 0, OO, [k]), H("mod", 1, OO, [k])]))
    out.append(("three", [H("pre", 0), H("pre", 1), H("pre", 2)]))
    out.append(("threecfg", [H("pre", 0), H("pre", 1, OX), H("pre", 2, XO)]))
    return [("%s:%s" % (n, "|".join(h["key"] for h in hs)), hs) for n, hs in out]


def py(code):
    return {"op": "py", "code": "import mc_sched\n" + code}


def thread(i, h):
    ops = [py("mc_sched.enter(%d)" % i), {"op": "new", "cfg": h["cfg"]}]
    for r in h["req"]:
        ops += [py("mc_sched.busy(True)"), r, py("mc_sched.busy(False)")]
    return ops + [py("mc_sched.busy(True)"), {"op": "generate"}, py("mc_sched.busy(False)"), py("mc_sched.leave(%d)" % i)]


class C18(Check):
    ID = "C18"
    TECHNIQUE = "stateless model checking of the real implementation under a controlled scheduler (all schedules up to a preemption bound)"
    NOTE = ("All interleavings of 2 threads with at most 3 preemptions (thorough: 5) and of 3 threads with at most 2 "
            "(thorough: 3), at every point where a Python callback can yield the GIL. Switches inside CPython's own pure-"
            "Python library code (inspect, pkgutil) are not scheduling points; data races below the GIL are excluded by "
            "Rust's type system and not modelled.")
    ASSUMPTIONS = ["threads switch at Python callbacks of the analysed modules only (switch interval raised)",
                   "the histories of the threads name different modules unless the module is already imported"]
    RULE = "one case = one complete schedule; distinct = distinct (scenario, result signature, visible output, trace shape)"

    def run(self, b, cases):
        jobs = []
        for c in cases:
            n = len(c.threads)
            faults = [[i, k] for i, h in enumerate(c.threads) for k in h["fault"]]
            pre = [py("import inspect, pkgutil, typing, io, functools, spre0, spre1, spre2\nmc_sched.begin(%d, %r, %r, %r)" % (n, list(c.prefix), PURGE, faults))]
            jobs.append({"id": c.id, "pre": pre, "threads": [thread(i, h) for i, h in enumerate(c.threads)],
                         "post": [py("out = mc_sched.state()")]})
        reps = core.run_jobs(b, jobs, sys_path=[self.root, core.HPY], timeout=8)
        out = {}
        for c in cases:
            r = reps[c.id]
            if "crash" in r:
                out[c.id] = {"crash": r["crash"]}
                continue
            st = json.loads(r["post"][0]["out"])
            if st["error"]:
                raise core.CheckError("schedule does not replay: %s" % st["error"])
            for t in r["threads"]:
                for x in t:
                    if "pyerr" in x:
                        raise core.CheckError("scheduler: %r" % x)
            res = []
            for t in r["threads"]:
                res.append(json.dumps([{k: v for k, v in x.items()} for x in t if "out" not in x], sort_keys=True))
            out[c.id] = {"st": st, "res": res}
        return out

    def setup(self):
        if not hasattr(self, "root"):
            self.root = prog.newdir("c18")
            prog.write_files(self.root, FILES)

    def space(self):
        self.setup()
        sp = Space()
        b = core.build()
        self.cache = {}
        solo = {}
        for name, hs in scenarios():
            for i, h in enumerate(hs):
                solo.setdefault(json.dumps([h["key"], h["fault"]]), h)
        solos = [Case("solo:" + k, threads=[h], prefix=(), scen="solo") for k, h in solo.items()]
        reps = self.run(b, solos)
        self.solo = {}
        for c in solos:
            self.solo[c.id[5:]] = reps[c.id].get("res", [None])[0]
            sp.add(c)
            sp.states += 1
        self.cache.update(reps)
        # level-synchronous search over choice prefixes
        maxima = {}
        crashes = 0
        capped = False
        for name, hs in scenarios():
            bound = (5 if core.THOROUGH else 3) if len(hs) == 2 else (3 if core.THOROUGH else 2)
            self.info.setdefault("preemption_bound", {})[name] = bound
            frontier = [()]
            count = 0
            while frontier:
                cases = [Case("%s@%s" % (name, "".join(map(str, p))), threads=hs, prefix=p, scen=name) for p in frontier]
                reps = self.run(b, cases)
                self.cache.update(reps)
                nxt = []
                for c in cases:
                    sp.add(c)
                    count += 1
                    r = reps[c.id]
                    if "crash" in r:
                        crashes += 1
                        continue
                    ch = r["st"]["choices"]
                    sp.transitions += len(ch)
                    pre = 0
                    for k, (en, took, cont) in enumerate(ch):
                        if k >= len(c.prefix):
                            sp.states += 1
                            for alt in en:
                                if alt != took and pre + (1 if cont else 0) <= bound:
                                    nxt.append(tuple(x[1] for x in ch[:k]) + (alt,))
                        if cont and took != en[0]:
                            pre += 1
                if crashes > 2:
                    capped = True
                    break
                frontier = nxt
            maxima[name] = count
            if capped:
                break
        self.info["schedules"] = maxima
        if capped:
            self.info["exhaustive"] = False
        return sp

    def judge(self, b, cases):
        self.setup()
        todo = [c for c in cases if c.id not in self.cache]
        reps = {c.id: self.cache.pop(c.id) for c in cases if c.id in self.cache}
        if todo:
            reps.update(self.run(b, todo))
        bad = {}
        for c in cases:
            r, v = reps[c.id], []
            if "crash" in r:
                bad[c.id] = [("crash", "threads did not finish: " + r["crash"])]
                continue
            st = r["st"]
            for k in ("out", "err"):
                if st[k] != "original":
                    v.append(("restore", "after the last thread finished sys.std%s is %s; schedule %r" % (k, st[k], st["trace"])))
            for i, h in enumerate(c.threads):
                ref = self.solo[json.dumps([h["key"], h["fault"]])]
                if r["res"][i] != ref and c.scen != "solo":
                    v.append(("result", "thread %d obtained %s instead of %s; schedule %r" % (i, diff(r["res"][i], ref), diff(ref, r["res"][i]), st["trace"])))
                for j, k in enumerate("oe"):
                    if list(h["cfg"].values())[j]:
                        vis = [m for m in st["marks"][i] if m[0] == k and m.endswith("r>") and m in st["seen"][j]]
                        if vis:
                            v.append(("hidden", "output of thread %d was visible on std%s while its request ran: %r; schedule %r" % (i, k, vis[:3], st["trace"])))
            self.outcome((c.scen, st["seen"][0][:80], st["out"], tuple(x[2] for x in st["trace"])))
            if v:
                bad[c.id] = v[:3]
        return bad


def diff(a, b):
    if a is None or b is None:
        return "nothing" if a is None else a[:200]
    i = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), 0)
    return "…" + a[max(0, i - 60):i + 140]


CHECK = C18
