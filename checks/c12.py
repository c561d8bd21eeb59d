"""C12: sys.stdout/sys.stderr are restored after any request, hidden while it runs as configured.

Space: a request over instrumented modules passes through a sequence of Python callbacks (imports, __dir__,
__getattr__, metaclass and descriptor hooks, __repr__ of values and annotations ...). The run is repeated with each
action (every exception kind, every way of printing) at every one of these positions, for every stream configuration,
every kind of request and every kind of original stream; a second request follows each. The positions are discovered
on the running tree, so every position that exists is covered."""
import itertools, json, sys
from harness import core, prog
from harness.ctx import Check, Case, Space

INIT = '''
"""doc"""
import mc_fault as _f
_f.point("import")
__all__ = ["K", "fn"]
class _Meta(type):
    def __getattribute__(cls, n):
        _f.point("meta." + n)
        return type.__getattribute__(cls, n)
    def __dir__(cls):
        _f.point("meta.dir")
        return ["m", "p", "__init__"]
    def __repr__(cls):
        _f.point("meta.repr")
        return "<class K>"
class K(metaclass=_Meta):
    def __init__(self, a): pass
    def m(self, x: int) -> int: return x
    @property
    def p(self) -> int: return 1
class _Obj:
    def __getattribute__(self, n):
        _f.point("obj." + n)
        return object.__getattribute__(self, n)
    def __repr__(self):
        _f.point("obj.repr")
        return "object"
obj = _Obj()
class _Ann:
    def __repr__(self):
        _f.point("ann.repr")
        return "int"
def fn(a: _Ann(), *b, **c) -> _Ann():
    """Doc of fn."""
class _Path(list):
    def __iter__(self):
        _f.point("path.iter")
        return list.__iter__(self)
__path__ = _Path(__path__)
def __getattr__(n):
    _f.point("getattr." + n)
    if n == "dyn":
        return 5
    raise AttributeError(n)
def __dir__():
    _f.point("dir")
    return ["K", "fn", "obj", "dyn", "plain"]
plain = 7
'''
SUB = 'import mc_fault as _f\n_f.point("import sub")\nclass S:\n    "s"\n    def m(self): pass\ndef g(x: int) -> str: ...\n'
SINGLE = INIT.replace("__path__ = _Path(__path__)\n", "")
DEP = 'import mc_fault as _f\n_f.point("import dep")\nfrom fdep2 import D\nimport fdep2\ndef h(): ...\n'
DEP2 = ('import mc_fault as _f\n_f.point("import dep2")\nclass D: ...\ndef __getattr__(n):\n    _f.point("dep2." + n)\n'
        '    raise AttributeError(n)\ndef __dir__():\n    _f.point("dep2.dir")\n    return ["D", "zz"]\n')
FILES = {"fpkg/__init__.py": INIT, "fpkg/sub.py": SUB, "fone.py": SINGLE, "fdep.py": DEP, "fdep2.py": DEP2}
PURGE = ["fpkg", "fone", "fdep", "fdep2", "fstr"]
REQUESTS = {
    "name": [{"op": "module_name", "name": "fpkg"}],
    "sub": [{"op": "module_name", "name": "fpkg.sub"}],
    "names": [{"op": "module_names", "names": ["fone", "fpkg"]}],
    "object": [{"op": "module", "name": "fone"}],
    "str": [{"op": "module_from_str", "src": SINGLE, "name": "fstr"}],
    "deps": [{"op": "module_name", "name": "fdep"}],
}
RAISE = ["runtime", "attr", "key", "exit"]
PRINT = ["print", "flush", "write", "probe"]
# what a module can do to the streams themselves; ends with the request where the stream is hidden, and is its own business elsewhere
STREAMS = ["redirect", "settext", "setfile", "setnone", "setint", "setorig", "setother", "setwrap", "setdel", "setclose", "setdetach"]


class C12(Check):
    ID = "C12"
    LEVEL = "fault_enumeration"
    TECHNIQUE = "exhaustive fault and output injection at every Python callback of enumerated request histories on the real engine"
    NOTE = ("Every callback position of every request history in the alphabet gets every action (4 exception kinds, 4 ways "
            "of printing) under all 4 stream configurations; stream identity, visibility and the generated bindings are "
            "checked after each. Output written below sys.stdout/sys.stderr (file descriptors) is not modelled.")
    ASSUMPTIONS = ["callbacks of the instrumented modules stand for those of any module",
                   "imports done by the caller (Codegen::module takes a module object) are the caller's own"]
    RULE = "one case = (request kind, configuration, original stream, action, position); distinct = distinct (request, outcome, visible output) triples"

    def space(self):
        sp = Space()
        b = self.b = core.build()
        root = self.root = prog.newdir("c12")
        prog.write_files(root, FILES)
        # discover the positions of each history on this tree
        cfgs = [(o, e) for o in (True, False) for e in (True, False)]
        base = []
        for req, cfg in itertools.product(REQUESTS, cfgs):
            for orig in ("text", "none", "same"):
                base.append(Case("%s|%s|%s|-|0" % (req, cfg, orig), req=req, cfg=cfg, orig=orig, act="", at=-1))
        reps = self.run(b, base)
        self.base = {}
        for c in base:
            st = reps[c.id]["states"][0]
            self.base[(c.req, c.cfg, c.orig)] = (st["n"], reps[c.id]["ast"], st["tags"])
            sp.states += st["n"] + 1
            sp.transitions += st["n"]
            sp.add(c)
        for req, cfg in itertools.product(REQUESTS, cfgs):
            for orig in ("text", "none", "same"):
                n = self.base[(req, cfg, orig)][0]
                for act in PRINT + STREAMS:
                    sp.states += 1
                    sp.transitions += 1
                    sp.add(Case("%s|%s|%s|%s|all" % (req, cfg, orig, act), req=req, cfg=cfg, orig=orig, act=act, at=0))
                if orig != "text" and not core.THOROUGH:
                    continue
                for act in (RAISE + PRINT[:1] + [a for a in STREAMS if cfg != (False, False)] if not core.THOROUGH else RAISE + ["type", "import"] + PRINT + STREAMS):
                    for k in range(1, n + 1):
                        sp.states += 1
                        sp.transitions += 1
                        sp.add(Case("%s|%s|%s|%s|%d" % (req, cfg, orig, act, k), req=req, cfg=cfg, orig=orig, act=act, at=k))
        self.info["positions"] = {r: self.base[(r, (True, True), "text")][0] for r in REQUESTS}
        return sp

    def run(self, b, cases):
        jobs = []
        for c in cases:
            cfg = {"suppress_python_stdout": c.cfg[0], "suppress_python_stderr": c.cfg[1]}
            if c.req == "deps":
                cfg["generate_dependencies"] = True
            pre = "import mc_fault; mc_fault.begin(%d, %r, %r, %r)" % (c.at, c.act, c.orig, PURGE)
            if c.req == "object":
                pre = ("import mc_fault, sys; mc_fault.begin(-1, '', %r, %r); import fone; mc_fault.arm(%d, %r)"
                       % (c.orig, PURGE, c.at, c.act))
            st = {"op": "py", "code": "import mc_fault; out = mc_fault.state()"}
            ops = [{"op": "py", "code": pre}, {"op": "new", "cfg": cfg}] + REQUESTS[c.req] + [st]
            ops += [{"op": "generate"}, st]
            # a further request on the same interpreter, undisturbed
            ops += [{"op": "py", "code": "import mc_fault; mc_fault.arm(-1, '')" + ("; mc_fault.reset()" if c.act in STREAMS else "")}, {"op": "new", "cfg": cfg},
                    {"op": "module_from_str", "src": "def ok(): print('x')\nprint('hi')", "name": "fstr"}, st,
                    {"op": "py", "code": "import mc_fault; mc_fault.end()"}]
            jobs.append({"id": c.id, "ops": ops})
        reps = core.run_jobs(b, jobs, sys_path=[self.root, core.HPY], timeout=30)
        out = {}
        for c in cases:
            r = reps[c.id]
            if "crash" in r:
                out[c.id] = {"crash": r["crash"]}
                continue
            rs = r["res"]
            n = len(REQUESTS[c.req])
            states = []
            for x in (rs[2 + n], rs[4 + n], rs[8 + n]):
                if "out" not in x:
                    raise core.CheckError("state not read: %r" % (x,))
                states.append(json.loads(x["out"]))
            out[c.id] = {"states": states, "req": rs[1 + n], "gen": {k: v for k, v in rs[3 + n].items() if k != "ast"},
                         "ast": canon(rs[3 + n].get("ast")), "second": rs[7 + n]}
        return out

    def judge(self, b, cases):
        bad = {}
        for c in cases:
            pass
        reps = self.run(b, cases)
        for c in cases:
            r = reps[c.id]
            v = []
            if "crash" in r:
                bad[c.id] = [("crash", r["crash"])]
                continue
            for what, s in zip(("the request", "generate()", "a second request"), r["states"]):
                for k, hidden in zip(("out", "err"), c.cfg):
                    if s[k] != "original" and (hidden or c.act not in STREAMS or c.act == "redirect"):
                        v.append(("restore", "after %s (%r) sys.std%s is %s instead of the original object" % (what, r["req"], k, s[k])))
                self.outcome((c.req, tuple(r["req"])[0], s["out"] == "original", s["seen"][0][:40]))
            s = r["states"][1]
            seen = "".join(s["seen"]) if c.orig == "same" else None
            for j, (k, sup) in enumerate((("o", c.cfg[0]), ("e", c.cfg[1]))):
                text = s["seen"][j] if seen is None else seen
                marks = [m for m in s["printed"] if m[1] == k]
                if c.orig == "none":
                    continue
                if sup and any(m in text for m in marks):
                    v.append(("hidden", "output on std%s is configured to be hidden, but %r was visible" % (k, text[:200])))
                if not sup and not all(m in text for m in marks):
                    v.append(("visible", "output on std%s is not configured to be hidden, but of %r only %r was visible" % (k, marks[:5], text[:200])))
            n, ast, _ = self.base[(c.req, c.cfg, c.orig)]
            if c.act in PRINT + STREAMS and (ast is None or r["ast"] != ast):
                v.append(("content", "printing at %s changed what was generated: %r / %r" % (s["tags"][c.at - 1:c.at] if c.at > 0 else "every callback", r["req"], r["gen"])))
            if c.at == -1 and (r["ast"] is None or r["ast"] != self.base[(c.req, (True, True), "text")][1]):
                v.append(("content", "the bindings depend on the stream configuration: %r / %r" % (r["req"], r["gen"])))
            if not r["second"].get("ok"):
                v.append(("second", "a request after it failed: %r" % r["second"]))
            if v:
                bad[c.id] = v[:4]
        return bad


def canon(a):
    return None if a is None else json.dumps(a, sort_keys=True)


CHECK = C12
