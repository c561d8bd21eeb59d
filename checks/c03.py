"""C03: function calls are forwarded faithfully.

Space: every parameter list reachable by appending up to N parameters (kind x default, as Python's grammar
allows), every function-object form, every awkward parameter name at every position, every outcome kind.
Oracle: the same call made by Python itself on the same source."""
import importlib, inspect, itertools, json, os, sys, types
from harness import core, prog
from harness.sigs import *
from harness.sigs import P, K, A, O, W, NAMES
from harness.ctx import Check, Case, Space
sys.path.insert(0, core.HPY)
import mc_rt

BODY = "CALLS = []\nclass V:\n    def __init__(self, n): self.n = n\n    def __repr__(self): return 'V%s' % self.n\n"


def source(params, form):
    names = [p[0] for p in params]
    rec = "('f', " + "".join("%s, " % n for n in names) + ")"
    s = sigtext(params)
    body = "    r = %s\n    CALLS.append(r)\n    return r\n" % rec
    if form == "def":
        return BODY + "def f(%s):\n%s" % (s, body)
    if form == "lambda":
        return BODY + "f = lambda %s: (CALLS.append(1), %s)[1]\n" % (s, rec)
    if form == "wraps":
        return ("import functools as _ft\n" + BODY + "def _deco(g):\n    @_ft.wraps(g)\n    def inner(*args, **kwargs):\n"
                "        return ('w', g(*args, **kwargs))\n    return inner\n@_deco\ndef f(%s):\n%s" % (s, body))
    if form == "async":
        return (BODY + "async def _g(%s):\n%s" % (s, body)
                + "def f(%s):\n    c = _g(%s)\n    try:\n        c.send(None)\n    except StopIteration as e:\n"
                  "        return ('async', e.value)\n" % (s, fwd(params)))
    if form == "gen":
        return BODY + "def f(%s):\n    CALLS.append(1)\n    def g():\n        yield %s\n    return list(g())\n" % (s, rec)
    if form == "partial0":
        return "import functools as _ft\n" + BODY + "def _g(%s):\n%sf = _ft.partial(_g)\n" % (s, body)
    if form == "partialpos":
        return ("import functools as _ft\n" + BODY + "def _g(z%s):\n%sf = _ft.partial(_g, 77)\n"
                % ((", /, " if any(p[1] == P for p in params) else ", ") + s if s else "",
                   body.replace("('f', ", "('f', z, ")))
    if form == "partialkw":
        ext = list(params)
        star = ("" if any(p[1] in (A, O) for p in params) else "*, ") + "kz"
        parts = s.split(", ") if s else []
        if parts and parts[-1].startswith("**"):
            parts.insert(len(parts) - 1, star)
        else:
            parts.append(star)
        return ("import functools as _ft\n" + BODY + "def _g(%s):\n%sf = _ft.partial(_g, kz=77)\n"
                % (", ".join(parts), body.replace("('f', ", "('f', kz, ")))
    if form == "nested":
        return BODY + "def _mk():\n    def f(%s):\n    %s    return f\nf = _mk()\n" % (s, body.replace("\n", "\n    ")[:-4])
    raise KeyError(form)


def fwd(params):
    return ", ".join({A: "*" + n, W: "**" + n, O: "%s=%s" % (n, n)}.get(k, n) for n, k, _ in params)


AWKWARD = ["self", "cls", "_", "__", "_x", "type", "fn", "self_", "py", "p_a", "args", "kwargs", "Self", "super",
           "crate", "r", "é", "名", "obj", "str", "repr", "__internal__kwargs", "Vec", "Some"]
OUTCOMES = [("ret", "return SENT"), ("none", "return None"), ("value", "raise ValueError('v', a)"),
            ("key", "raise KeyError(a)"), ("custom", "raise Boom('x', a)"), ("exit", "raise SystemExit(3)"),
            ("kbd", "raise KeyboardInterrupt('k')"), ("stop", "raise StopIteration(a)"),
            ("type", "raise TypeError('t')"), ("attr", "raise AttributeError('nope')"),
            ("base", "raise BaseException('b')"), ("self", "return f"), ("mod", "return __import__(__name__)"),
            ("cls", "return Boom"), ("nested", "return [a, (a,), {a: a}]")]

REBOUND = [
    ("replace", "CALLS = []\ndef _g(a):\n    CALLS.append(a)\n    return ('g', a)\ndef f(a):\n    CALLS.append(a)\n    globals()['f'] = _g\n    return ('f', a)\n"),
    ("alternate", "CALLS = []\ndef _g(a):\n    CALLS.append(a)\n    globals()['f'] = _f\n    return ('g', a)\ndef f(a):\n    CALLS.append(a)\n    globals()['f'] = _g\n    return ('f', a)\n_f = f\n"),
    ("delete", "CALLS = []\ndef f(a):\n    CALLS.append(a)\n    del globals()['f']\n    return ('f', a)\n"),
    ("notcallable", "CALLS = []\ndef f(a):\n    CALLS.append(a)\n    globals()['f'] = 5\n    return ('f', a)\n"),
    ("raising", "CALLS = []\ndef _g(a):\n    CALLS.append(a)\n    raise KeyError(a)\ndef f(a):\n    CALLS.append(a)\n    globals()['f'] = _g\n    return ('f', a)\n"),
    ("recursive", "CALLS = []\ndef f(a):\n    CALLS.append(a)\n    return f(a - 1) if a else 'end'\n"),
    ("code", "CALLS = []\ndef _g(a):\n    CALLS.append(a)\n    return ('g', a)\ndef f(a):\n    CALLS.append(a)\n    f.__code__ = _g.__code__\n    return ('f', a)\n"),
    ("swap", "CALLS = []\ndef _g(a):\n    CALLS.append(a)\n    return ('g', a)\ndef f(a):\n    import sys, types\n    n = types.ModuleType(__name__)\n    n.f, n.CALLS = _g, CALLS\n    sys.modules[__name__] = n\n    CALLS.append(a)\n    return ('f', a)\n"),
    ("again", "CALLS = []\nimport sys\nL = sys.__dict__.setdefault('_mc_' + __name__, [])\nL.append(1)\nN = len(L)\ndef f(a):\n    if a != 1:\n        del sys.modules[__name__]\n    return (N, a)\n"),
    ("none", "CALLS = []\ndef f(a):\n    import sys\n    sys.modules[__name__] = None\n    return ('f', a)\n"),
    ("noneback", "CALLS = []\ndef f(a):\n    global f\n    f = lambda a: ('g', a)\n    return ('f', a)\n"),
    ("counter", "CALLS = []\nN = 0\ndef f(a):\n    global N\n    N += 1\n    CALLS.append(a)\n    return (N, a)\n"),
]


class C03(Check):
    ID = "C03"
    TECHNIQUE = "bounded exhaustive enumeration of parameter lists and calls, executed on the compiled bindings against CPython"
    NOTE = "Every parameter list up to 3 (thorough 4) parameters over all kinds and defaults, crossed with name, shape and outcome alphabets; each complete program is run through the real generator, compiled by rustc and executed, and its call log compared with CPython doing the same calls. Trusts rustc, pyo3 and CPython; nothing is claimed beyond the bounds."
    ASSUMPTIONS = [
        "arguments are drawn from two value alphabets (distinct integers; one value of every builtin kind), since forwarding is independent of the value",
        "Rust parameters are given in the order of the Python parameters (or as *args/**kwargs when the binding falls back to them)",
        "the reference outcome is CPython 3.12 calling the same function itself"]
    RULE = "a case is one program (signature x function form x names x outcome) with all its calls; distinct = distinct observed results"

    def space(self):
        sp = Space()
        depth = 5 if core.THOROUGH else 4
        sigs = sp.bfs([()], succ, depth)
        for s in sigs:
            params = [(NAMES[i], k, d) for i, (k, d) in enumerate(s)]
            forms = ["def"]
            if len(s) <= (3 if core.THOROUGH else 2):
                forms += ["lambda", "wraps", "async", "gen", "partial0", "partialpos", "partialkw", "nested"]
            for f in forms:
                self.emit(sp, params, f, "sig")
        # Long parameter lists and long variadics
        for n in (5, 6, 7, 9, 12, 13, 16, 17, 20, 33) + ((64, 130, 257) if core.THOROUGH else ()):
            for kinds in ((P,), (K,), (O,), (P, K), (K, O), (P, K, O)):
                for extra in ((), (A,), (W,), (A, W)):
                    ks = [kinds[i * len(kinds) // n] for i in range(n)]
                    if A in extra:
                        ks.insert(sum(k in (P, K) for k in ks), A)
                    ks += [W] if W in extra else []
                    for dflt in (False, True):
                        sp.transitions += 1
                        sp.states += 1
                        self.emit(sp, [("q%d" % i, k, dflt and k in (P, K, O)) for i, k in enumerate(ks)], "def", "long")
        for base in ((A,), (W,), (A, W), (K, A), (P, A, W), (K, A, O, W), (A, O), (O, W), (K, W)):
            for n in (3, 4, 7, 8, 12, 13, 16, 17, 33, 100, 300):
                sp.transitions += 1
                sp.states += 1
                params = [("q%d" % i, k, False) for i, k in enumerate(base)]
                self.emit(sp, params, "def", "wide%d" % n, calls=[["c0", {
                    q: {A: "tuple(range(%d))" % n, W: "{'k%%d' %% i: i for i in range(%d)}" % n}.get(k, "%d" % (900 + i))
                    for i, (q, k, _) in enumerate(params)}]])
        for name in AWKWARD:
            for base in ((K,), (K, K), (P, K), (K, O), (A, O), (K, A, W), (A, W), (O, W), (K, K, O)):
                for pos in range(len(base)):
                    params = [(NAMES[i], k, False) for i, k in enumerate(base)]
                    params[pos] = (name, base[pos], False)
                    sp.transitions += 1
                    sp.states += 1
                    self.emit(sp, params, "def", "name")
        for loc in (["sub"], ["sub", "deep"], ["type"], ["type", "fn", "deep"]):
            for base in ((), (K,), (P, K), (K, O), (K, A, O, W), (A, W)):
                sp.transitions += 1
                sp.states += 1
                params = [(NAMES[i], k, False) for i, k in enumerate(base)]
                self.emit(sp, params, "def", "loc." + ".".join(loc), loc)
                # a function that takes the place of the module (or package) that defines it
                if loc[0] == "sub":
                    for hid in (["f"], ["f", "y"], ["sub", "f"], ["sub", "f", "y", "z"]):
                        self.emit(sp, params, "def", "hid." + ".".join(hid), hid, bind=hid[:hid.index("f")])
        for label, stmt in OUTCOMES:
            for sig, args in (("a", [("a", K)]), ("a, *args, **kw", [("a", K), ("args", A), ("kw", W)])):
                sp.transitions += 1
                sp.states += 1
                src = ("class Sent:\n    pass\nSENT = Sent()\nCALLS = []\nclass Boom(Exception):\n    pass\ndef f(%s):\n    CALLS.append(a)\n    %s\n"
                       % (sig, stmt))
                sp.add(Case("outcome:%s:%s" % (label, sig), src=src, params=[(n, k, False) for n, k in args],
                            calls=[["c0", {n: {"A": "()", "W": "None"}.get(k, "5") for n, k in args}]], ident=label == "ret"))
        # arguments and results are the very objects given, also within *args and **kwargs
        keep = "__import__('mc_rt').KEEP[%d]"
        for sig in ((K,), (P,), (O,), (A,), (W,), (P, K, A, O, W), (K, K), (A, W), (K, O, W), (P, W)):
            sp.transitions += 1
            sp.states += 1
            params = [(NAMES[i], k, False) for i, k in enumerate(sig)]
            vals = {n: {A: "(%s, %s)" % (keep % 6, keep % 7), W: "{'zz': %s}" % (keep % 5)}.get(k, keep % i) for i, (n, k, _) in enumerate(params)}
            flat = ", ".join({A: "*(id(x) for x in %s)" % n, W: "*(id(x) for x in %s.values())" % n}.get(k, "id(%s)" % n) for n, k, _ in params)
            sp.add(Case("same:" + sigtext(params), params=params, calls=[["c0", vals]],
                        src="CALLS = []\ndef f(%s):\n    from mc_rt import KEEP as _k\n    CALLS.append(1)\n    return [[id(o) for o in _k].index(x) for x in (%s,)]\n"
                        % (sigtext(params), flat)))
        # keyword arguments of every spelling
        for key in ("'a b'", "''", "'é'", "'type'", "'r#type'", "'self'", "'args'", "'kwargs'", "'py'", "'None'", "'f'", "'__internal__kwargs'",
                    "'x' * 300", "'\\udc80'", "'\\0'", "'fi'", "'名'", "5", "None", "b'a'", "(1,)", "'a.b'", "'-'", "'0'"):
            for sig in ((W,), (A, W), (K, W), (P, W), (K, A, O, W), (P, O, W)):
                sp.transitions += 1
                sp.states += 1
                params = [(NAMES[i], k, False) for i, k in enumerate(sig)]
                self.emit(sp, params, "def", "key%s" % key, calls=[["c0", {
                    n: {A: "(1, 2)", W: "{%s: 1, 'zz': 2}" % key}.get(k, str(900 + i)) for i, (n, k, _) in enumerate(params)}]])
        # each call reaches what the module has under the name at that moment
        for label, src in REBOUND:
            sp.transitions += 1
            sp.states += 1
            sp.add(Case("rebound:" + label, src=src, params=[("a", K, False)], calls=[["c%d" % i, {"a": str(i)}] for i in range(4)]))
        for f, args in (("len", "([1, 2],)"), ("abs", "(-3,)"), ("max", "(1, 5, 2)"), ("isinstance", "(1, int)"),
                        ("divmod", "(7, 2)"), ("ord", "('ab',)"), ("__import__('math').hypot", "(3, 4)"), ("__import__('math').gcd", "(12, 18)")):
            sp.transitions += 1
            sp.states += 1
            sp.add(Case("builtin:" + f, src="CALLS = []\nf = %s\n" % f, params=None, calls=[["c0", args]]))
        return sp

    def emit(self, sp, params, form, tag, loc=(), calls=None, bind=None):
        if len({p[0] for p in params}) != len(params):
            return
        src = source(params, form)
        try:
            compile(src, "x", "exec")
        except SyntaxError:
            return
        cid = "%s:%s(%s)" % (tag, form, sigtext(params))
        if form.startswith("partial"):
            # the parameters of a partial object are those its own signature shows
            d = {"__name__": "x"}
            exec(src, d)
            params = [(p.name, "PKAOW"[int(p.kind)], p.default is not p.empty)
                      for p in inspect.signature(d["f"]).parameters.values()]
        sp.add(Case(cid, src=src, params=params, calls=calls or [[l, m] for l, m in calls_for(params)], loc=list(loc), bind=bind))

    # ------------------------------------------------------------

    def reference(self, c, modname):
        m = types.ModuleType(modname)
        sys.modules[modname] = m
        out = {}
        try:
            exec(compile(c.src, modname, "exec"), m.__dict__)
            for label, vals in c.calls:
                if modname not in sys.modules:
                    m = sys.modules[modname] = types.ModuleType(modname)
                    exec(compile(c.src, modname, "exec"), m.__dict__)
                m = sys.modules[modname] or m
                n0 = len(m.CALLS)
                try:
                    if sys.modules[modname] is None:
                        importlib.import_module(modname)
                    if c.params is None:
                        r = m.f(*eval(vals))
                    else:
                        pos, kw, kwextra = py_args(c.params, vals)
                        r = m.f(*pos, **kw, **kwextra)
                    out[label] = ("ok", mc_rt.show(r))
                except BaseException as e:
                    out[label] = ("err", mc_rt.showerr(e))
                out[label + ".calls"] = ("ok", repr(len(m.CALLS) - n0))
                out[label + ".kwargs"] = ("ok", "True")
        finally:
            sys.modules.pop(modname, None)
            sys.__dict__.pop("_mc_" + modname, None)
        return out

    def judge(self, b, cases):
        root = prog.newdir("c03")
        bad = {}
        progs, mods = {}, {}
        for i, c in enumerate(cases):
            mods[c.id] = "m%04d" % i
            loc = c.data.get("loc") or []
            files = {mods[c.id] + ".py": c.src}
            if loc:
                files = {"/".join([mods[c.id]] + loc[:k] + ["__init__.py"]): "" for k in range(len(loc))}
                files["/".join([mods[c.id]] + loc) + ".py"] = c.src
                if c.data.get("bind") is not None:
                    at = len(c.bind)
                    files["/".join([mods[c.id]] + c.bind + ["__init__.py"])] = "from .%s import f\n" % ".".join(loc[at:])
            progs[c.id] = {"files": files, "modules": [mods[c.id]]}
        gens = prog.generate(b, progs, root)
        rust = {}
        for c in cases:
            g = gens[c.id]
            if not g["ok"]:
                bad[c.id] = [("generate", prog.why(g)[1])]
                continue
            m = mods[c.id]
            loc = c.data.get("loc") or []
            items = prog.mod(g["ast"], [m] + (loc if c.data.get("bind") is None else c.bind))
            f = prog.fn(items or [], "f")
            if f is None:
                bad[c.id] = [("missing", "no binding for function f")]
                continue
            drive = self.drive(c, m, f)
            if isinstance(drive, tuple):
                bad[c.id] = [drive]
                continue
            rust[c.id] = core.case_text(g["path"], drive, True)
        errs, obs = core.execute(b, rust, [root])
        for cid, ms in errs.items():
            bad[cid] = [("compile", "the binding cannot be compiled or called: " + ms[0][0] + "\n" + ms[0][1])]
        for c in cases:
            if c.id in bad:
                continue
            exp = self.reference(c, ".".join([mods[c.id]] + (c.data.get("loc") or [])))
            got = {o["label"]: (o["kind"], o["v"]) for o in obs.get(c.id, [])}
            if c.data.get("ident"):
                exp["ident"] = ("ok", "True")
                got_i = got.get("ident")
                if got_i != ("ok", "True"):
                    bad.setdefault(c.id, []).append(("identity", "the returned object is not the one Python returned: %r" % (got_i,)))
            for label, e in exp.items():
                g = got.get(label)
                self.outcome((e[0], e[1][:80]))
                if g != e:
                    bad.setdefault(c.id, []).append(
                        ("result" if "." not in label else label.split(".")[1],
                         "call %s %s: binding gave %r, Python gives %r" % (label, dict(c.calls).get(label.split(".")[0]), g, e)))
        return bad

    def drive(self, c, m, f):
        ps = f["params"][1:] if f["params"] and "Python" in f["params"][0][1] else None
        if ps is None:
            return ("signature", "the binding does not take the Python token first: %r" % f["params"][:1])
        path = "b::%s::f" % prog.rpath([m] + ((c.data.get("loc") or []) if c.data.get("bind") is None else c.bind))
        m = ".".join([m] + (c.data.get("loc") or []))
        out = []  # nothing but the binding imports the module
        for label, vals in c.calls:
            pre = []
            if c.params is None:
                vs = eval(vals)
                if len(ps) == 1 and "PyTuple" in ps[0][1]:
                    vs = [vs]
                if len(ps) == 2 and "PyTuple" in ps[0][1] and "PyDict" in ps[1][1]:
                    vs = [vs, {}]
                if len(vs) != len(ps):
                    return ("arity", "Python takes %d arguments, the binding %d" % (len(vs), len(ps)))
                args = ["None" if v == {} else prog.arg(t, repr(v) if not isinstance(v, type) else v.__name__) for (_, t), v in zip(ps, vs)]
            else:
                try:
                    pre, args, _ = rust_args(c.params, ps, vals)
                except Mismatch as e:
                    return ("arity", str(e))
            out.append("{ let n0 = ncalls(py, \"%s\");" % m)
            out += pre
            if pre:
                out.append("let kw0 = kwd.copy().unwrap();")
            out.append("let r = %s(py%s);" % (path, "".join(", " + a for a in args)))
            if c.data.get("ident"):
                out.append("if let Ok(v) = &r { let same = ToPyObject::to_object(v, py).bind(py).is(&ev(py, \"I('%s').SENT\")); l.line(\"ident\", \"ok\", if same {\"True\"} else {\"False\"}); }" % m)
            out.append("l.val(py, \"%s\", r);" % label)
            out.append("let n1 = ncalls(py, \"%s\"); l.line(\"%s.calls\", \"ok\", &(n1 - n0).to_string());" % (m, label))
            if pre:
                out.append("l.line(\"%s.kwargs\", \"ok\", if kwd.eq(&kw0).unwrap() {\"True\"} else {\"False\"});" % label)
            else:
                out.append("l.line(\"%s.kwargs\", \"ok\", \"True\");" % label)
            out.append("}")
        pre = ("fn ncalls(py: Python<'_>, m: &str) -> usize { py.import_bound(\"sys\").unwrap().getattr(\"modules\").unwrap().call_method1(\"get\", (m,)).unwrap()"
               ".getattr(\"CALLS\").ok().map_or(0, |calls| calls.len().unwrap()) }\n")
        return pre + "\n".join(out)


CHECK = C03
