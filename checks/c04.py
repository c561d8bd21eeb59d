"""C04: class members dispatch as in Python.

Space: classes built by adding members one at a time (member kind x parameter list x name of the first
parameter x inheritance), all pairs of member kinds, every base-class shape; each complete class is driven by
constructing instances and calling every member on them. Oracle: the same operations done by Python."""
import itertools, sys, types
from harness import core, prog
from harness.ctx import Check, Case, Space
from harness.sigs import *
from harness.sigs import P, K, A, O, W, NAMES
sys.path.insert(0, core.HPY)
import mc_rt

SIGS = [(), (K,), (P,), (K, O), (A,), (W,), (A, W), (K, A, O, W), (K, K)]
HEAD = ("import functools as _ft\nCALLS = []\ndef _rec(*a):\n    CALLS.append(a)\n    return a\n"
        "def _id(o):\n    return type(o).__name__ + getattr(o, 't', '?')\n")


def mk(sig, names=NAMES):
    return [(names[i], k, False) for i, k in enumerate(sig)]


def member(kind, name, params, first="self", pad="    "):
    """Python text of one member."""
    ptext = sigtext(params)
    vals = "".join(", " + p[0] for p in params)
    full = (first + ", " + ptext) if ptext else first
    if any(p[1] == P for p in params):
        full = first + ", " + ptext
    if kind == "init":
        body = ["def __init__(%s):" % full, "    %s.t = 'i%%d' %% len(CALLS)" % first,
                "    _rec('init'%s)" % vals]
    elif kind == "inst":
        body = ["def %s(%s):" % (name, full), "    return _rec(%r, _id(%s)%s)" % (name, first, vals)]
    elif kind == "call":
        body = ["def __call__(%s):" % full, "    return _rec('call', _id(%s)%s)" % (first, vals)]
    elif kind == "class":
        f = "cls" if first == "self" else first
        full = f + (", " + ptext if ptext else "")
        body = ["@classmethod", "def %s(%s):" % (name, full), "    return _rec(%r, %s.__name__%s)" % (name, f, vals)]
    elif kind == "static":
        body = ["@staticmethod", "def %s(%s):" % (name, ptext), "    return _rec(%r%s)" % (name, vals)]
    elif kind == "lambda":
        body = ["%s = lambda %s: _rec(%r, _id(%s)%s)" % (name, full, name, first, vals)]
    elif kind == "wraps":
        body = ["def _o_%s(%s):" % (name, full), "    return _rec(%r, _id(%s)%s)" % (name, first, vals),
                "@_ft.wraps(_o_%s)" % name, "def %s(*args, **kwargs):" % name,
                "    return ('w', args[0]._o_%s(*args[1:], **kwargs))" % name]
    elif kind == "noself":                   # callable through the class only
        body = ["def %s():" % name, "    return _rec(%r)" % name]
    elif kind == "bare":                     # instance method that only takes *args
        body = ["def %s(*args):" % name, "    return _rec(%r, _id(args[0]), args[1:])" % name]
    elif kind == "barekw":
        body = ["def %s(*args, **kw):" % name, "    return _rec(%r, _id(args[0]), args[1:], kw)" % name]
    elif kind == "callbare":
        body = ["def __call__(*args):", "    return _rec('call', _id(args[0]), args[1:])"]
    elif kind == "initbare":
        body = ["def __init__(*args):", "    args[0].t = 'i%d' % len(CALLS)", "    _rec('init', args[1:])"]
    elif kind == "prop":
        body = ["@property", "def %s(self):" % name, "    return _rec('get', %r, _id(self))" % name]
    elif kind == "raise":
        body = ["def %s(%s):" % (name, full), "    CALLS.append('r')", "    raise LookupError(%r, _id(%s)%s)" % (name, first, vals)]
    else:
        raise KeyError(kind)
    return "".join(pad + b + "\n" for b in body)


BAREPARAMS = {"bare": [("args", A, False)], "barekw": [("args", A, False), ("kw", W, False)],
              "callbare": [("args", A, False)], "initbare": [("args", A, False)], "noself": []}


def M(kind, name, sig, first="self"):
    params = BAREPARAMS.get(kind) or mk(sig)
    return {"kind": kind, "name": name, "params": params, "first": first}


def text(m):
    return member(m["kind"], m["name"], m["params"], m["first"])


def klass(name, members, bases=""):
    return "class %s%s:\n%s" % (name, "(%s)" % bases if bases else "",
                                "".join(text(m) for m in members) or "    pass\n")


EVENTS = {
    "cls": "C = type('C', (C,), {'__module__': __name__, 'm': lambda s, *a, **k: _rec('m1', a, k), 'c': classmethod(lambda s, *a, **k: _rec('c1', a, k)), 's': staticmethod(lambda *a, **k: _rec('s1', a, k)), 'x': 5, '__init__': lambda s, *a, **k: _rec('i1', a, k) and None})",
    "attrs": "C.m = lambda s, *a, **k: _rec('m2', a, k)\nC.c = classmethod(lambda s, *a, **k: _rec('c2', a, k))\nC.s = staticmethod(lambda *a, **k: _rec('s2', a, k))\nC.x = property(lambda s: 'x2')\nC.__init__ = lambda s, *a, **k: _rec('i2', a, k) and None\nC.__call__ = lambda s, *a, **k: _rec('call2', a, k)",
    "module": "import sys as _sys, types as _ty\n_n = _ty.ModuleType(__name__)\n_n.__dict__.update(globals())\n_n.C = type('C', (C,), {'__module__': __name__, 'c': classmethod(lambda s, *a, **k: _rec('c3', a, k)), 's': staticmethod(lambda *a, **k: _rec('s3', a, k))})\n_sys.modules[__name__] = _n\n_p = __name__.rpartition('.')\nif _p[0] in _sys.modules: setattr(_sys.modules[_p[0]], _p[2], _n)",
    "raise": "def _r(*a, **k): raise KeyError('gone')\nC.m = C.__call__ = _r\nC.c = classmethod(_r)\nC.s = staticmethod(_r)\nC.__init__ = _r",
    "del": "for _n2 in ('m', 'c', 's', 'x', '__call__'):\n    for _k in C.__mro__[:-1]:\n        if _n2 in vars(_k): delattr(_k, _n2)",
}


class C04(Check):
    ID = "C04"
    TECHNIQUE = "bounded exhaustive enumeration of class definitions and call histories, executed on the compiled bindings against CPython"
    NOTE = "Every class of the enumerated member kinds, parameter lists, member pairs (thorough: triples) and inheritance shapes; every history (constructions, then every member called on every instance) is executed on the compiled bindings and compared with CPython. Trusts rustc, pyo3 and CPython; nothing is claimed beyond the bounds."
    ASSUMPTIONS = [
        "an instance method without a recognisable binding as a method may be generated as a function taking the instance explicitly (Python's C.m(inst, ...))",
        "argument values are distinct integers and one value of every builtin kind",
        "the reference outcome is CPython 3.12 doing the same operations"]
    RULE = "a case is one class (members, bases) with its sequence of constructions and calls; distinct = distinct observed results"

    def space(self):
        sp = Space()
        # one member beside a constructor
        for kind in ("inst", "class", "static", "call", "lambda", "wraps", "raise"):
            for sig in SIGS:
                for first in (("self", "this", "_", "cls", "py", "type") if kind in ("inst", "class", "call", "lambda") else ("self",)):
                    if kind == "class" and first == "cls":
                        continue
                    sp.states += 1
                    sp.transitions += 1
                    ms = [M("init", "", ()), M(kind, "m", sig, first)]
                    self.add(sp, "one:%s:%s:%s" % (kind, first, sigtext(ms[1]["params"])), [("C", ms, "")])
        for sig in SIGS:
            for first in ("self", "this", "_"):
                sp.states += 1
                sp.transitions += 1
                self.add(sp, "ctor:%s:%s" % (first, sigtext(mk(sig))), [("C", [M("init", "", sig, first), M("inst", "m", ())], "")])
        for kind in ("bare", "barekw", "callbare", "noself"):
            sp.states += 1
            sp.transitions += 1
            self.add(sp, "bare:" + kind, [("C", [M("init", "", ()), M(kind, "m", ())], "")])
        sp.states += 1
        sp.transitions += 1
        self.add(sp, "bare:initbare", [("C", [M("initbare", "", ()), M("inst", "m", (K,))], "")])
        # awkward member names
        for name in ("new", "call", "new1", "call1", "type", "fn", "clone", "into_py", "as_any", "extract", "py_", "call0",
                     "getattr", "len", "iter", "to_string", "set_m", "é", "as_ref", "unbind", "into"):
            for kind in ("inst", "class", "static", "prop"):
                sp.states += 1
                sp.transitions += 1
                ms = [M("init", "", (K,)), M("call", "", (K,)), M(kind, name, () if kind == "prop" else (K,))]
                self.add(sp, "name:%s:%s" % (kind, name), [("C", ms, "")])
        # all pairs of members
        kinds = [("inst", "m"), ("class", "c"), ("static", "s"), ("call", ""), ("inst", "new"), ("static", "call"),
                 ("class", "new"), ("inst", "call"), ("prop", "p"), ("raise", "r"), ("static", "new1"), ("inst", "call1")]

        def grow(state):
            for i, k in enumerate(kinds):
                if i not in state and not any(kinds[j][1] == k[1] for j in state):
                    yield k, tuple(sorted(state + (i,)))
        for st in sp.bfs([()], grow, 3 if core.THOROUGH else 2):
            ms = [M("init", "", (K,))] + [M(kinds[i][0], kinds[i][1], () if kinds[i][0] == "prop" else (K,)) for i in st]
            self.add(sp, "set:" + "+".join(":".join(kinds[i]) for i in st), [("C", ms, "")])
        # inheritance: a member in the base, optionally overridden by another kind
        over = [None, "inst", "class", "static", "call"]
        for bk in ("inst", "class", "static", "call", "init"):
            for ok in over + (["init"] if bk == "init" else []):
                for sig in ((), (K,), (K, A, O, W)):
                    for shape in ("plain", "grand", "mixin", "otherclassbase"):
                        sp.states += 1
                        sp.transitions += 1
                        bm = M(bk, "m", sig)
                        base = [bm] if bk == "init" else [M("init", "", ()), bm]
                        derived = []
                        if ok:
                            derived.append(M(ok, "m", (K,)))
                        if ok == "call" and bk == "call":
                            continue
                        cs = {"plain": [("B", base, ""), ("C", derived, "B")],
                              "grand": [("B", base, ""), ("Mid", [], "B"), ("C", derived, "Mid")],
                              "mixin": [("X", [M("inst", "x", (K,))], ""), ("B", base, ""), ("C", derived, "X, B")],
                              "otherclassbase": [("B", base, ""), ("C", derived + [M("inst", "own", (K,))], "B")]}[shape]
                        self.add(sp, "inh:%s:%s>%s(%s)" % (shape, bk, ok, sigtext(mk(sig))), cs)
        # inherited members of every kind, whatever their parameters are called
        for kind in ("inst", "lambda", "class", "static", "wraps", "raise", "call", "bare", "barekw", "callbare", "noself", "prop"):
            firsts = {"class": ("self", "this"), "static": ("self",), "inst": ("this", "_", "cls", "py"), "lambda": ("self", "this"),
                      "call": ("self", "this")}.get(kind, ("self",))
            for first in firsts:
                for sig in ((), (K,), (P, K), (K, A, O, W)) if kind not in BAREPARAMS and kind != "prop" else ((),):
                    for selfname in (False, True):
                        if selfname and (kind not in ("static", "class") or not sig):
                            continue
                        m = M(kind, "m", sig, first)
                        if selfname:         # a parameter that is not the instance is called self
                            m = dict(m, params=mk(sig, ("self",) + tuple(NAMES)), first="cls")
                        for shape, cs in (("own", [("C", [M("init", "", ()), m], "")]),
                                          ("plain", [("B", [M("init", "", ()), m], ""), ("C", [], "B")]),
                                          ("grand", [("A", [m], ""), ("B", [M("init", "", ())], "A"), ("C", [], "B")]),
                                          ("second", [("A", [M("init", "", ())], ""), ("B", [m], ""), ("C", [], "A, B")]),
                                          ("private", [("_B", [M("init", "", ()), m], ""), ("C", [], "_B")])):
                            sp.states += 1
                            sp.transitions += 1
                            self.add(sp, "inhkind:%s:%s:%s:%s%s" % (shape, kind, first, sigtext(m["params"]), ":self" if selfname else ""), cs)
        # classes below the top of the package
        for loc in (["sub"], ["sub", "deep"], ["type"], ["type", "fn", "deep"]):
            for kind in ("inst", "class", "static", "call", "prop", "raise"):
                for sig in ((), (K, A, O, W)) if kind != "prop" else ((),):
                    for shape in ("own", "inherited", "two"):
                        sp.states += 1
                        sp.transitions += 1
                        m = M(kind, "m", sig)
                        self.add(sp, "loc:%s:%s:%s:%s" % (".".join(loc), shape, kind, sigtext(m["params"])),
                                 {"own": [("C", [M("init", "", (K,)), m], "")],
                                  "inherited": [("B", [M("init", "", (K,)), m], ""), ("C", [], "B")],
                                  "two": [("D", [M("init", "", ()), M("static", "m", (K,)), M("inst", "o", ())], ""),
                                          ("C", [M("init", "", (K,)), m], "")]}[shape], loc)
        # classes that take the place of the module (or package) that defines them
        for hid in (["C"], ["C", "y"], ["sub", "C"], ["sub", "C", "y", "z"]):
            for kind in ("inst", "lambda", "class", "static", "wraps", "call", "bare", "noself", "prop"):
                for first in {"class": ("self", "this"), "static": ("self",), "inst": ("self", "this", "_"), "lambda": ("self", "this")}.get(kind, ("self",)):
                    for sig in ((), (K, A, O, W)) if kind not in BAREPARAMS and kind != "prop" else ((),):
                        sp.states += 1
                        sp.transitions += 1
                        m = M(kind, "m", sig, first)
                        self.add(sp, "hid:%s:%s:%s:%s" % (".".join(hid), kind, first, sigtext(m["params"])), [("C", [M("init", "", (K,)), m], "")], hid, hid[:hid.index("C")])
        # each call reaches what the module and the class have under the name at that moment
        for n in (1, 2) if not core.THOROUGH else (1, 2, 3):
            for evs in itertools.permutations(EVENTS, n):
                for loc in ([], ["sub", "y"]):
                    for sig in ((), (K, A, O, W)) if n == 1 else ((K,),):
                        sp.states += 1
                        sp.transitions += 1
                        self.add(sp, "events:%s:%s:%d" % ("+".join(evs), ".".join(loc), len(sig)),
                                 [("C", [M("init", "", (K,)), M("inst", "m", sig), M("class", "c", sig), M("static", "s", sig), M("call", "", sig), M("prop", "x", ())], "")], loc, events=[EVENTS[e] for e in evs])
        # long parameter lists and long variadics
        for kind in ("init", "inst", "class", "static", "call"):
            for n in (5, 6, 7, 9, 12, 13, 16, 17, 33):
                for extra in ((), (A, W)):
                    sp.states += 1
                    sp.transitions += 1
                    ps = [("q%d" % i, K, False) for i in range(n)]
                    if extra:
                        ps = ps[:n // 2] + [("aa", A, False)] + [(q, O, False) for q, _, _ in ps[n // 2:]] + [("kk", W, False)]
                    m = {"kind": kind, "name": "m", "params": ps, "first": "self"}
                    self.add(sp, "long:%s:%s" % (kind, sigtext(ps)),
                             [("C", [m, M("inst", "o", ())] if kind == "init" else [M("init", "", ()), m], "")])
            for sig in ((A,), (W,), (A, W), (K, A, O, W)):
                for n in (3, 7, 12, 13, 16, 17, 33, 100):
                    sp.states += 1
                    sp.transitions += 1
                    m = M(kind, "m", sig)
                    m["calls"] = [{q: {A: "tuple(range(%d))" % n, W: "{'k%%d' %% i: i for i in range(%d)}" % n}.get(k, str(900 + i))
                                   for i, (q, k, _) in enumerate(m["params"])}]
                    self.add(sp, "wide:%s:%d:%s" % (kind, n, sigtext(m["params"])),
                             [("C", [m, M("inst", "o", ())] if kind == "init" else [M("init", "", ()), m], "")])
        # special class forms
        for label, src, ctor in SPECIAL:
            sp.states += 1
            sp.transitions += 1
            sp.add(Case("special:" + label, src=HEAD + src, cls="C", ctor=ctor[0], members=ctor[1], make=ctor[2]))
        return sp

    def add(self, sp, cid, classes, loc=(), bind=None, events=()):
        src = HEAD + "".join(klass(*c) for c in classes)
        byname = {c[0]: c for c in classes}
        try:
            d = {"__name__": "x"}
            exec(compile(src, "x", "exec"), d)
        except SyntaxError:
            return
        # what C has, by Python's MRO
        order = [k.__name__ for k in d["C"].__mro__ if k.__name__ in byname]
        eff = {}
        for cn in order:
            for m in byname[cn][1]:
                key = {"init": "__init__", "initbare": "__init__", "call": "__call__", "callbare": "__call__"}.get(m["kind"], m["name"])
                eff.setdefault(key, m)
        ctor = eff.pop("__init__", None)
        # an instance of a subclass that overrides every instance member: calls go to the override
        insts = [m for m in eff.values() if m["kind"] not in ("class", "static", "noself", "prop")]
        src += "class _S(C):\n    __init__ = lambda self: None\n" + "".join(
            "    def %s(_0, *a, **k):\n        return _rec('sub', a, k)\n" % ("__call__" if m["kind"] in ("call", "callbare") else m["name"])
            for m in insts)
        sp.add(Case(cid, src=src, cls="C", ctor=ctor["params"] if ctor else None, ctorcalls=ctor.get("calls") if ctor else None,
                    members=list(eff.values()), make=None, sub=bool(insts), loc=list(loc), bind=bind, events=list(events)))

    # -------------------------------------------------------------

    def plan(self, c):
        """The history of operations: ('new'|'make', var) and calls on the instances."""
        ops = []
        if c.ctor is not None:
            for i, vals in enumerate(c.data.get("ctorcalls") or [v for _, v in calls_for(c.ctor)[:6]]):
                ops.append(("new", "n%d" % i, vals))
        insts = ["n0", "n1"][:max(1, min(2, len(ops)))]
        if c.make or c.ctor is None:
            ops.append(("make", "k", c.make or "C()"))
            insts = ["k"] if c.ctor is None else insts
        if getattr(c, "sub", False):
            ops.append(("make", "sub", "_S()"))
            insts = insts + ["sub"]
        for m in c.members:
            if m["kind"] == "prop":
                for v in insts:
                    ops.append(("prop", v, m))
                continue
            for vals in m.get("calls") or [v for _, v in calls_for(m["params"])[:9]]:
                if m["kind"] in ("class", "static", "noself"):
                    ops.append(("cls", m, vals))
                else:
                    for v in insts:
                        ops.append(("inst", v, m, vals))
        if c.data.get("loc"):    # nothing has imported the module before its first use, whichever that is
            ops.sort(key=lambda o: o[0] != "cls")
        first = list(ops)
        for i, e in enumerate(c.data.get("events") or []):
            ops.append(("event", e))
            for o in first:
                if o[0] in ("new", "make"):
                    ops.append((o[0], "%s_%d" % (o[1], i), o[2]))
                elif o[0] == "cls":
                    ops.append(o)
                else:
                    ops += [o, (o[0], "%s_%d" % (o[1], i)) + o[2:]]
        return ops

    def reference(self, c, modname):
        m = types.ModuleType(modname)
        sys.modules[modname] = m
        out, inst = [], {}

        def put(label, f):
            try:
                out.append((label, "ok", mc_rt.show(f())))
            except BaseException as e:
                out.append((label, "err", mc_rt.showerr(e)))
        try:
            exec(compile(c.src, modname, "exec"), m.__dict__)
            C = lambda: sys.modules[modname].C

            def ev(s):
                return eval(s, sys.modules[modname].__dict__)
            for i, op in enumerate(self.plan(c)):
                if op[0] in ("prop", "inst") and op[1] not in inst:
                    continue
                if op[0] == "new":
                    def f():
                        pos, kw, ex = py_args(c.ctor, op[2])
                        inst[op[1]] = C()(*pos, **kw, **ex)
                        return (type(inst[op[1]]).__name__, getattr(inst[op[1]], "t", "?"))
                elif op[0] == "make":
                    def f():
                        inst[op[1]] = ev(op[2])
                        return (type(inst[op[1]]).__name__, getattr(inst[op[1]], "t", "?"))
                elif op[0] == "event":
                    def f():
                        exec(op[1], sys.modules[modname].__dict__)
                elif op[0] == "prop":
                    def f():
                        return getattr(inst[op[1]], op[2]["name"])
                elif op[0] == "cls":
                    def f():
                        pos, kw, ex = py_args(op[1]["params"], op[2])
                        return getattr(C(), op[1]["name"])(*pos, **kw, **ex)
                else:
                    def f():
                        pos, kw, ex = py_args(op[2]["params"], op[3])
                        o = inst[op[1]]
                        fn = o if op[2]["kind"] in ("call", "callbare") else getattr(o, op[2]["name"])
                        return fn(*pos, **kw, **ex)
                put("o%d" % i, f)
            put("calls", lambda: sys.modules[modname].CALLS)
        finally:
            sys.modules.pop(modname, None)
        return out

    def judge(self, b, cases):
        root = prog.newdir("c04")
        bad, progs, mods = {}, {}, {}
        for i, c in enumerate(cases):
            mods[c.id] = "m%04d" % i
            loc = c.data.get("loc") or []
            files = {"/".join([mods[c.id]] + loc[:k] + ["__init__.py"]): "" for k in range(len(loc))}
            files["/".join([mods[c.id]] + loc) + ".py"] = c.src
            if c.data.get("bind") is not None:
                files["/".join([mods[c.id]] + c.bind + ["__init__.py"])] = "from .%s import C\n" % ".".join(loc[len(c.bind):])
            progs[c.id] = {"files": files, "modules": [mods[c.id]]}
        gens = prog.generate(b, progs, root)
        rust = {}
        for c in cases:
            g = gens[c.id]
            if not g["ok"]:
                bad[c.id] = [("generate", prog.why(g)[1])]
                continue
            loc = c.data.get("loc") or []
            d = self.drive(c, ".".join([mods[c.id]] + loc), g["ast"], [mods[c.id]] + (loc if c.data.get("bind") is None else c.bind))
            if isinstance(d, tuple):
                bad[c.id] = [d]
            else:
                rust[c.id] = core.case_text(g["path"], d, True)
        errs, obs = core.execute(b, rust, [root])
        for cid, ms in errs.items():
            bad[cid] = [("compile", "the binding cannot be compiled or called: " + ms[0][0] + "\n" + ms[0][1])]
        for c in cases:
            if c.id in bad:
                continue
            exp = {l: (k, v) for l, k, v in self.reference(c, ".".join([mods[c.id]] + (c.data.get("loc") or [])))}
            got = {o["label"]: (o["kind"], o["v"]) for o in obs.get(c.id, [])}
            plan = self.plan(c)
            for label, e in exp.items():
                self.outcome((e[0], e[1][:100]))
                if got.get(label) != e:
                    what = plan[int(label[1:])] if label[0] == "o" else "the log of calls"
                    bad.setdefault(c.id, []).append(
                        ("result", "%s: binding gave %r, Python gives %r" % (what, got.get(label), e)))
        for i in bad:
            bad[i] = bad[i][:3]
        return bad

    def drive(self, c, m, ast, where):
        items = prog.mod(ast, where) or []
        if prog.struct(items, "C") is None:
            return ("missing", "no struct for class C")
        inh = prog.inherent(items, "C")
        meths, trait = prog.methods(items, "C")
        pynames = {x["name"] for x in c.members if x["kind"] not in ("call", "callbare")
                   and not (x["kind"] == "prop" and any(f["name"] == "get_" + x["name"] for f in meths))}
        path = "b::%s" % prog.rpath(where)
        out = ["use %s::CMethods as _;" % path,
               "fn what(o: &Bound<'_, PyAny>) -> PyResult<PyObject> { let py = o.py(); Ok((o.get_type().getattr(\"__name__\")?, ev(py, \"lambda o: getattr(o, 't', '?')\").call1((o,))?).to_object(py)) }"]

        def inherent(name):
            h = [f for f in inh if prog.unraw(f["name"]) == name]
            return h[0] if len(h) == 1 else None

        def method(name):
            h = [f for f in meths if prog.unraw(f["name"]) == name]
            return h[0] if len(h) == 1 else None
        for i, op in enumerate(self.plan(c)):
            label = "o%d" % i
            try:
                if op[0] == "new":
                    fs = [f for f in inh if f["name"].startswith("new") and f["name"] not in pynames and "Self" in f["ret"]]
                    if len(fs) != 1 or not fs[0]["pub"]:
                        return ("missing", "no constructor among %r" % [f["name"] for f in inh])
                    pre, args, _ = rust_args(c.ctor, fs[0]["params"][1:], op[2])
                    out.append("let mut %s = None; {" % op[1])
                    out += pre
                    out.append("let r = %s::C::%s(py%s);" % (path, fs[0]["name"], "".join(", " + a for a in args)))
                    out.append("match r { Ok(v) => { l.val(py, \"%s\", what(v.as_any())); %s = Some(v); } Err(e) => l.err(py, \"%s\", &e) } }" % (label, op[1], label))
                elif op[0] == "make":
                    out.append("let mut %s: Option<Bound<'_, %s::C>> = None; {" % (op[1], path))
                    out.append("let v: Bound<'_, %s::C> = ev(py, %s).extract().unwrap(); l.val(py, \"%s\", what(v.as_any())); %s = Some(v); }"
                               % (path, core.rs("eval(%r, I(%r).__dict__)" % (op[2], m)), label, op[1]))
                elif op[0] == "event":
                    out.append("l.py(py, \"%s\", %s);" % (label, core.rs("exec(%r, I(%r).__dict__)" % (op[1], m))))
                elif op[0] == "prop":
                    f = method("get_" + op[2]["name"]) or method(op[2]["name"])
                    if f is None:
                        return ("missing", "no getter for property %s" % op[2]["name"])
                    out.append("if let Some(o) = &%s { l.val(py, \"%s\", %s::CMethods::%s(o)); }" % (op[1], label, path, f["name"]))
                else:
                    mem = op[1] if op[0] == "cls" else op[2]
                    vals = op[-1]
                    if mem["kind"] in ("call", "callbare"):
                        fs = [f for f in meths if f["name"].startswith("call") and f["name"][4:] in ("", "1", "2", "3") and f["name"] not in pynames]
                        f = fs[0] if len(fs) == 1 else None
                        h = None
                    else:
                        f, h = method(mem["name"]), inherent(mem["name"])
                    if f is None and h is None or f is not None and h is not None:
                        return ("missing", "no single binding for member %s (%s)" % (mem["name"], mem["kind"]))
                    if f is not None and f["recv"] is not None:
                        if op[0] == "cls":
                            # a class or static method reached through an instance is legitimate too
                            pre, args, _ = rust_args(mem["params"], f["params"], vals)
                            out.append("{ let o: Bound<'_, %s::C> = ev(py, \"object.__new__(I('%s').C)\").extract().unwrap();" % (path, m))
                            out += pre
                            out.append("l.val(py, \"%s\", %s::CMethods::%s(&o%s)); }" % (label, path, f["name"], "".join(", " + a for a in args)))
                        else:
                            pre, args, _ = rust_args(mem["params"], f["params"], vals)
                            out.append("if let Some(o) = &%s {" % op[1])
                            out += pre
                            out.append("l.val(py, \"%s\", %s::CMethods::%s(o%s)); }" % (label, path, f["name"], "".join(", " + a for a in args)))
                    else:
                        if not h["pub"]:
                            return ("missing", "binding of %s is private" % mem["name"])
                        ps = h["params"][1:]
                        if op[0] == "inst":
                            # explicit instance
                            if len(ps) != len(mem["params"]) + 1:
                                return ("arity", "instance method %s generated as function with %r" % (mem["name"], ps))
                            pre, args, _ = rust_args(mem["params"], ps[1:], vals)
                            out.append("if let Some(o) = &%s {" % op[1])
                            out += pre
                            args = ["o.as_any().clone()"] + args
                        else:
                            pre, args, _ = rust_args(mem["params"], ps, vals)
                            out.append("{")
                            out += pre
                        out.append("l.val(py, \"%s\", %s::C::%s(py%s)); }" % (label, path, h["name"], "".join(", " + a for a in args)))
            except Mismatch as e:
                return ("arity", "%s: %s" % (op[0], e))
        out.append("l.py(py, \"calls\", \"I('%s').CALLS\");" % m)
        return "\n".join(out)


def PM(*params):
    return [list(p) for p in params]


def I(name, *params):
    return {"kind": "inst", "name": name, "params": [(p, K, False) for p in params], "first": "self"}


SPECIAL = [
    ("dataclass", "import dataclasses as _dc\n@_dc.dataclass\nclass C:\n    a: object\n    b: object = 5\n    def m(self, x):\n        return _rec('m', self.a, x)\n",
     ([("a", K, False), ("b", K, True)], [I("m", "x")], None)),
    ("slots", "class C:\n    __slots__ = ('t', 'a')\n    def __init__(self, a):\n        self.a = a\n        self.t = 's'\n    def m(self, x):\n        return _rec('m', self.a, x)\n",
     ([("a", K, False)], [I("m", "x")], None)),
    ("dictsub", "class C(dict):\n    def __init__(self, a):\n        super().__init__({a: 1})\n    def m(self, x):\n        return _rec('m', sorted(self), x)\n",
     ([("a", K, False)], [I("m", "x")], None)),
    ("dictfrom", "class C(dict):\n    def __init__(self, *a):\n        super().__init__()\n    @property\n    def t(self):\n        return len(self)\n",
     ([("a", A, False)], [{"kind": "static", "name": "fromkeys", "params": [("iterable", P, False), ("value", P, True)], "first": ""}], None)),
    ("bytesfrom", "class C(bytes):\n    def __init__(self, *a):\n        pass\n",
     (None, [{"kind": "static", "name": "fromhex", "params": [("string", P, False)], "first": ""}], "C(b'x')")),
    ("intfrom", "class C(int):\n    def __init__(self, *a):\n        pass\n",
     (None, [{"kind": "static", "name": "from_bytes", "params": [("bytes", K, False), ("byteorder", K, True), ("signed", O, True)], "first": ""}], "C(3)")),
    ("exception", "class C(Exception):\n    def __init__(self, a):\n        super().__init__(a)\n    def m(self, x):\n        return _rec('m', self.args, x)\n",
     ([("a", K, False)], [I("m", "x")], None)),
    ("abc", "import abc as _abc\nclass _B(_abc.ABC):\n    @_abc.abstractmethod\n    def m(self, x): ...\nclass C(_B):\n    def __init__(self, a):\n        self.a = a\n    def m(self, x):\n        return _rec('m', self.a, x)\n",
     ([("a", K, False)], [I("m", "x")], None)),
    ("meta", "class _M(type):\n    def __call__(cls, a):\n        o = super().__call__(a)\n        o.made = 1\n        return o\nclass C(metaclass=_M):\n    def __init__(self, a):\n        self.a = a\n    def m(self, x):\n        return _rec('m', self.a, self.made, x)\n",
     ([("a", K, False)], [I("m", "x")], None)),
    ("newonly", "class C:\n    def __new__(cls, a):\n        o = object.__new__(cls)\n        o.a = a\n        return o\n    def m(self, x):\n        return _rec('m', self.a, x)\n",
     (None, [I("m", "x")], "C(4)")),
    ("noinit", "class C:\n    a = 9\n    def m(self, x):\n        return _rec('m', self.a, x)\n", (None, [I("m", "x")], "C()")),
    ("raisingctor", "class C:\n    def __init__(self, a):\n        CALLS.append(a)\n        raise OSError(5, 'no')\n",
     ([("a", K, False)], [], None)),
    ("monkey", "class C:\n    def __init__(self, a):\n        self.a = a\n    def m(self, x):\n        return _rec('m', self.a, x)\n    def swap(self, x):\n        type(self).m = lambda s, y: _rec('swapped', y)\n        return None\n    def m2(self, x):\n        return self.m(x)\n",
     ([("a", K, False)], [I("m", "x"), I("swap", "x"), I("m2", "x")], None)),
    ("instattr", "class C:\n    def __init__(self, a):\n        self.a = a\n        self.m = lambda x: _rec('inst-level', x)\n    def m(self, x):\n        return _rec('class-level', x)\n",
     ([("a", K, False)], [I("m", "x")], None)),
    ("getattr", "class C:\n    def __init__(self, a):\n        self.a = a\n    def __getattribute__(self, n):\n        if n == 'm':\n            return lambda x: _rec('hooked', x)\n        return object.__getattribute__(self, n)\n    def m(self, x):\n        return _rec('plain', x)\n",
     ([("a", K, False)], [I("m", "x")], None)),
    ("generic", "import typing as _t\n_T = _t.TypeVar('_T')\nclass C(_t.Generic[_T]):\n    def __init__(self, a):\n        self.a = a\n    def m(self, x):\n        return _rec('m', self.a, x)\n",
     ([("a", K, False)], [I("m", "x")], None)),
    ("alias", "class C:\n    def __init__(self, a):\n        self.a = a\n    def m(self, x):\n        return _rec('m', self.a, x)\n    n = m\n",
     ([("a", K, False)], [I("m", "x"), I("n", "x")], None)),
    ("otherfunc", "def g(self, x):\n    return _rec('g', self.a, x)\nclass C:\n    def __init__(self, a):\n        self.a = a\n    m = g\n",
     ([("a", K, False)], [I("m", "x")], None)),
    ("singledispatch", "class C:\n    def __init__(self, a):\n        self.a = a\n    @_ft.singledispatchmethod\n    def sd(self, x):\n        return _rec('sd', x)\n    def m(self, x):\n        return self.sd(x)\n",
     ([("a", K, False)], [I("m", "x")], None)),
    ("staticself", "class C:\n    def __init__(self, a):\n        self.a = a\n    @staticmethod\n    def s(self, x):\n        return _rec('s', self, x)\n",
     ([("a", K, False)], [{"kind": "static", "name": "s", "params": [("self", K, False), ("x", K, False)], "first": ""}], None)),
    ("classself", "class C:\n    def __init__(self, a):\n        self.a = a\n    @classmethod\n    def s(cls, self, x):\n        return _rec('s', cls.__name__, self, x)\n",
     ([("a", K, False)], [{"kind": "class", "name": "s", "params": [("self", K, False), ("x", K, False)], "first": ""}], None)),
    ("initself2", "class C:\n    def __init__(this, a, self):\n        this.t = 'q'\n        _rec('init', a, self)\n",
     ([("a", K, False), ("self", K, False)], [], None)),
    ("methself2", "class C:\n    def __init__(self, a):\n        self.t = 'q'\n    def m(this, a, self):\n        return _rec('m', a, self)\n",
     ([("a", K, False)], [I("m", "a", "self")], None)),
    ("builtinattr", "class C:\n    def __init__(self, a):\n        self.t = 'q'\n    m = len\n",
     ([("a", K, False)], [{"kind": "static", "name": "m", "params": [("obj", P, False)], "first": ""}], None)),
    ("inheritthis", "class B:\n    def __init__(this, a):\n        this.t = 'q'\n    def m(this, x):\n        return _rec('m', _id(this), x)\nclass C(B):\n    pass\n",
     ([("a", K, False)], [I("m", "x")], None)),
]

CHECK = C04
