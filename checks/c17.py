"""C17: property bindings read and write the live attribute.

Space: one target per kind of value (module variable) and per form of class property; for every target, every history up to
length L over {Rust get, Rust set v1/v2, Python set v1/v2, Python read, Python delete, in-place mutation, class-level set, raise
on/off} is executed on the compiled bindings. Oracle: the same history executed by Python alone on the same source."""
import importlib, itertools, json, sys, types
from harness import core, prog
from harness.ctx import Check, Case, Space
sys.path.insert(0, core.HPY)
import mc_rt

DT = "import datetime as _d\n"
# name: (head, initial, v1, v2, mutation or None)   -- module variables
VALUES = {
    "int": ("", "5", "6", "-7", None), "big": ("", "2**62", "-2**63", "2**63-1", None), "bool": ("", "True", "False", "True", None),
    "float": ("", "1.5", "-2.25", "1e300", None), "str": ("", "'a'", "'é漢\\U0001F600'", "''", None), "bytes": ("", "b'x'", "b'\\x00\\xff'", "b''", None),
    "bytearray": ("", "bytearray(b'x')", "bytearray(b'yz')", "bytearray(b'')", "{}.append(1)"), "list": ("", "[1]", "[2, 'a']", "[]", "{}.append(9)"),
    "dict": ("", "{'a': 1}", "{'b': [1]}", "{}", "{}.update(z=3)"), "tuple": ("", "(1,)", "(1, 'a')", "()", None), "set": ("", "{1}", "{2, 3}", "set()", "{}.add(9)"),
    "frozenset": ("", "frozenset({1})", "frozenset({2, 3})", "frozenset()", None), "none": ("", "None", "5", "'x'", None), "complex": ("", "1j", "2+3j", "0j", None),
    "obj": ("class K:\n    def __init__(self, n): self.n = n\n", "K(1)", "K(2)", "K(3)", "setattr({}, 'n', 8)"), "slice": ("", "slice(1, 2)", "slice(None)", "slice(3)", None),
    "range": ("", "range(3)", "range(1)", "range(0)", None), "date": (DT, "_d.date(2020, 1, 2)", "_d.date(1, 1, 1)", "_d.date(2024, 2, 29)", None),
    "datetime": (DT, "_d.datetime(2020, 1, 2, 3, 4, 5, 6)", "_d.datetime(1, 1, 1)", "_d.datetime(2024, 2, 29, 23, 59, tzinfo=_d.timezone.utc)", None),
    "time": (DT, "_d.time(1, 2, 3, 4)", "_d.time(0)", "_d.time(23, 59)", None), "delta": (DT, "_d.timedelta(1)", "_d.timedelta(-1, 5, 7)", "_d.timedelta(0)", None),
    "tz": (DT, "_d.timezone.utc", "_d.timezone(_d.timedelta(hours=2))", "_d.timezone.utc", None),
    "path": ("import pathlib as _p\n", "_p.Path('/a')", "_p.Path('b/é')", "_p.Path('.')", None),
    "ip4": ("import ipaddress as _i\n", "_i.ip_address('1.2.3.4')", "_i.ip_address('255.255.255.255')", "_i.ip_address('0.0.0.0')", None),
    "ip6": ("import ipaddress as _i\n", "_i.ip_address('::1')", "_i.ip_address('2001:db8::ff')", "_i.ip_address('::')", None),
    "decimal": ("import decimal as _m\n", "_m.Decimal('1.1')", "_m.Decimal('2')", "_m.Decimal('-0')", None),
    "deque": ("import collections as _m\n", "_m.deque([1])", "_m.deque([2, 3])", "_m.deque()", "{}.append(4)"),
    "exc": ("", "ValueError(1)", "KeyError('k')", "Exception()", None), "object": ("class _H: pass\n", "object()", "5", "[1]", None),
    "pattern": ("import re as _m\n", "_m.compile('a')", "_m.compile('b')", "_m.compile('')", None),
    "enum": ("import enum as _m\nclass Col(_m.Enum):\n    A = 1\n    B = 2\n", "Col.A", "Col.B", "Col.A", None),
    "memoryview": ("", "memoryview(b'a')", "memoryview(b'bc')", "memoryview(b'')", None),
    "notimpl": ("", "NotImplemented", "NotImplemented", "5", None), "code": ("", "compile('1', 'x', 'eval')", "compile('2', 'y', 'eval')", "compile('3', 'z', 'eval')", None),
    "sib": ("XY = 7\nX1 = 8\nx = 9\ndef set_XY(v): ...\ndef set_X1(): ...\ndef set_x_(): ...\ndef get_X(): return 'no'\ndef X_(): ...\nclass X2: ...\nset_X_ = 4\n", "5", "6", "-7", None),
    "gen": ("", "(i for i in ())", "[1]", "5", None),
}
# Nested containers: only the container's own type decides the binding
NESTED = {"list2": ("", "[[1]]", "[[None], {}]", "[()]", "{}[0].append(2)") , "dict2": ("", "{1: {2: 3}}", "{(1,): None}", "{None: 1.5}", None),
          "tuple3": ("", "(1, (2, 3), 'x')", "('a', 'b', 'c')", "((),)", None)}

PROP = "class C:\n    def __init__(self): self._x = %s\n"
# name: (class source, v1, v2, has setter, instance expression, mutation)
FORMS = {
    "prop": (PROP % "1" + "    @property\n    def x(self): return self._x\n    @x.setter\n    def x(self, v): self._x = v\n    @x.deleter\n    def x(self): del self._x\n", "5", "'s'", True),
    "ro": (PROP % "1" + "    @property\n    def x(self): return self._x\n", "5", "6", False),
    "wo": (PROP % "1" + "    def _s(self, v): self._x = v\n    x = property(None, _s)\n", "5", "'s'", True),
    "ann": (PROP % "1" + "    @property\n    def x(self) -> int: return self._x\n    @x.setter\n    def x(self, v: int): self._x = v\n", "5", "-6", True),
    "annstr": (PROP % "'a'" + "    @property\n    def x(self) -> 'str': return self._x\n    @x.setter\n    def x(self, v: 'str') -> None: self._x = v\n", "'é'", "''", True),
    "diff": (PROP % "1" + "    @property\n    def x(self) -> int: return self._x\n    @x.setter\n    def x(self, v: str): self._x = int(v)\n", "'5'", "'-6'", True),
    "diff2": (PROP % "'1'" + "    @property\n    def x(self) -> str: return self._x\n    @x.setter\n    def x(self, v): self._x = str(v)\n", "5", "[6]", True),
    "diff3": (PROP % "1" + "    @property\n    def x(self): return self._x\n    @x.setter\n    def x(self, v: int): self._x = [v]\n", "5", "6", True),
    "difflist": (PROP % "[1]" + "    @property\n    def x(self) -> 'list[int]': return self._x\n    @x.setter\n    def x(self, v: 'dict[str, int]'): self._x = list(v.values())\n", "{'a': 5}", "{}", True),
    "opt": (PROP % "None" + "    @property\n    def x(self) -> 'int | None': return self._x\n    @x.setter\n    def x(self, v: 'int | None'): self._x = v\n", "5", "None", True),
    "list": (PROP % "['a']" + "    @property\n    def x(self) -> 'list[str]': return self._x\n    @x.setter\n    def x(self, v: 'list[str]'): self._x = v\n", "['b', 'c']", "[]", True),
    "dictann": (PROP % "{'a': 1}" + "    @property\n    def x(self) -> 'dict[str, int]': return self._x\n    @x.setter\n    def x(self, v: 'dict[str, int]'): self._x = v\n", "{'b': 2}", "{}", True),
    "dictany": (PROP % "{'a': 1}" + "    @property\n    def x(self) -> dict: return self._x\n    @x.setter\n    def x(self, v: dict): self._x = v\n", "{'b': []}", "{}", True),
    "bytesann": (PROP % "b'a'" + "    @property\n    def x(self) -> bytes: return self._x\n    @x.setter\n    def x(self, v: bytes): self._x = v\n", "b'xy'", "b''", True),
    "tupleann": (PROP % "(1, 'a')" + "    @property\n    def x(self) -> 'tuple[int, str]': return self._x\n    @x.setter\n    def x(self, v: 'tuple[int, str]'): self._x = v\n", "(2, 'b')", "(3, '')", True),
    "selfann": (PROP % "None" + "    @property\n    def x(self) -> 'C': return self if self._x is None else self._x\n    @x.setter\n    def x(self, v: 'C'): self._x = v\n", "C()", "C()", True),
    "lambdas": (PROP % "1" + "    x = property(lambda self: self._x, lambda self, v: setattr(self, '_x', v))\n", "5", "'s'", True),
    "starset": (PROP % "1" + "    x = property(lambda self: self._x, lambda *a: setattr(a[0], '_x', a[1]))\n", "5", "'s'", True),
    "defset": (PROP % "1" + "    x = property(lambda self: self._x, lambda self, v=3: setattr(self, '_x', v))\n", "5", "'s'", True),
    "cget": ("import operator as _o\n" + PROP % "1" + "    x = property(_o.attrgetter('_x'))\n", "5", "6", False),
    "cset": (PROP % "[1]" + "    def __setitem__(self, k, v): self._x = [k, v]\n    def _s(self, v, extra=1): self._x = v\n    x = property(lambda self: self._x, _s)\n", "[5]", "6", True),
    "slots": ("class C:\n    __slots__ = ('x',)\n    def __init__(self): self.x = 1\n", "5", "'s'", False),
    "classvar": ("class C:\n    x = 1\n", "5", "6", False), "classlist": ("class C:\n    x = [1]\n", "[5]", "[]", False), "classnone": ("class C:\n    x = None\n", "5", "'s'", False),
    "classstr": ("class C:\n    x: str = 'a'\n    def __init__(self): pass\n", "'b'", "'c'", False),
    "cached": ("import functools as _ft\nclass C:\n    def __init__(self): self._x = 1\n    @_ft.cached_property\n    def x(self): return [self._x]\n", "[5]", "6", False),
    "inherit": ("class B:\n    def __init__(self): self._x = 1\n    @property\n    def x(self): return self._x\n    @x.setter\n    def x(self, v): self._x = v\nclass C(B):\n    pass\n", "5", "'s'", True),
    "inheritset": ("class B:\n    def __init__(self): self._x = 1\n    @property\n    def x(self): return self._x\nclass C(B):\n    @B.x.setter\n    def x(self, v): self._x = ['C', v]\n", "5", "'s'", True),
    "inheritro": ("class B:\n    def __init__(self): self._x = 1\n    @property\n    def x(self): return self._x\n    @x.setter\n    def x(self, v): self._x = v\nclass C(B):\n    @property\n    def x(self): return ['ro', self._x]\n", "5", "6", False),
    "descr": ("class _D:\n    def __get__(self, o, t=None): return self if o is None else o._x\n    def __set__(self, o, v): o._x = v\n" + PROP % "1" + "    x = _D()\n", "5", "'s'", False),
    "subprop": ("class _P(property): pass\n" + PROP % "1" + "    @_P\n    def x(self): return self._x\n    @x.setter\n    def x(self, v): self._x = v\n", "5", "'s'", True),
    "getattr": ("class C:\n    x = None\n    def __init__(self): object.__setattr__(self, '_l', [])\n    def __getattribute__(self, n): return object.__getattribute__(self, '_l') + [n] if n == 'x' else object.__getattribute__(self, n)\n    def __setattr__(self, n, v): self._l.append(v)\n", "5", "'s'", False),
    "raising": ("M = [0]\n" + PROP % "1" + "    @property\n    def x(self):\n        if M[0]: raise LookupError('get', self._x)\n        return self._x\n    @x.setter\n    def x(self, v):\n        if M[0]: raise ValueError('set', v)\n        self._x = v\n", "5", "'s'", True),
    "raiseattr": ("M = [0]\n" + PROP % "1" + "    @property\n    def x(self) -> int:\n        if M[0]: raise AttributeError('no x')\n        return self._x\n    @x.setter\n    def x(self, v: int):\n        if M[0]: raise KeyboardInterrupt('set')\n        self._x = v\n", "5", "6", True),
    "dataclass": ("import dataclasses as _dc\n@_dc.dataclass\nclass C:\n    x: int = 1\n", "5", "6", False),
    "kwname": (PROP % "1" + "    @property\n    def x(self): return self._x\n    @x.setter\n    def x(self, v): self._x = v\n    @property\n    def y(self): return ['y', self._x]\n    @y.setter\n    def y(self, v): self._x = ['y', v]\n", "5", "6", True),
    "nosigset": ("class C(dict):\n    def __init__(self): self.update(a=1)\n    x = property(lambda self: sorted(self), dict.update)\n", "{'b': 2}", "{'a': 5, 'c': 6}", True),
    "nosigget": ("class C(dict):\n    def __init__(self): self.update(a=1)\n    x = property(dict.items, lambda self, v: self.update(v))\n", "{'b': 2}", "{'a': 5, 'c': 6}", True),
    "nosigboth": ("class C(list):\n    def __init__(self): self.append(3)\n    x = property(list.pop, list.extend)\n", "[5]", "[6, 7]", True),
    "cfuncset": ("import functools as _ft\n" + PROP % "1" + "    @_ft.lru_cache(None)\n    def _s(self, v): self._x = v\n    x = property(lambda self: self._x, _s)\n", "5", "6", True),
    "partialset": ("import functools as _ft\n" + PROP % "1" + "    x = property(lambda self: self._x, _ft.partial(lambda k, self, v: setattr(self, '_x', [k, v]), 'k'))\n", "5", "6", True),
    "objset": (PROP % "1" + "    class _S:\n        def __call__(self, o, v): o._x = v\n    x = property(lambda self: self._x, _S())\n", "5", "'s'", True),
    "kwset": (PROP % "1" + "    x = property(lambda self, *, k=2: [k, self._x], lambda self, v, *, k=3: setattr(self, '_x', [k, v]))\n", "5", "'s'", True),
    "sib": (PROP % "1" + "    @property\n    def x(self): return self._x\n    @x.setter\n    def x(self, v): self._x = v\n    @property\n    def xy(self): return 'xy'\n    @xy.setter\n    def xy(self, v): self._x = ['xy', v]\n    @property\n    def X(self): return 'X'\n    @X.setter\n    def X(self, v): self._x = ['X', v]\n"
            "    def set_xy(self, v): self._x = 'm'\n    def set_x1(self): ...\n    def get_xy(self): ...\n    def set_(self): ...\n    def set(self): ...\n    def x_(self): ...\n    set_X = 5\n    x1 = 6\n", "5", "'s'", True),
    "setdoc": (PROP % "1" + "    def get_x(self): return 'method'\n    @property\n    def x(self): return self._x\n    @x.setter\n    def x(self, v): self._x = v\n", "5", "6", True),
    "generic": ("import typing as _t\n_T = _t.TypeVar('_T')\nclass C(_t.Generic[_T]):\n    def __init__(self): self._x = 1\n    @property\n    def x(self) -> '_T': return self._x\n    @x.setter\n    def x(self, v: '_T'): self._x = v\n", "5", "'s'", True),
    "abc": ("import abc as _abc\nclass _B(_abc.ABC):\n    @property\n    @_abc.abstractmethod\n    def x(self): ...\n    @x.setter\n    @_abc.abstractmethod\n    def x(self, v): ...\nclass C(_B):\n    def __init__(self): self._x = 1\n    @property\n    def x(self): return self._x\n    @x.setter\n    def x(self, v): self._x = v\n", "5", "'s'", True),
}
SWAP = "O = M; M = types.ModuleType(O.__name__); M.__dict__.update(O.__dict__); %so = M; E = M.__dict__; sys.modules[M.__name__] = M; P = M.__name__.rpartition('.'); setattr(sys.modules.get(P[0], types), P[2], M)"
WHERE = {"root": ("{}", None), "sub": ("{}.sub", ""), "deep": ("{}.sub.deep", ""), "kw": ("{}.struct", "")}


class C17(Check):
    ID = "C17"
    TECHNIQUE = "stateless exploration of the compiled bindings: all interleaved histories of Rust and Python reads and writes up to a depth, against CPython"
    NOTE = "Exhaustive over all histories up to the depth for every target of the stated lists of value kinds, property forms and locations. Values outside the lists are not covered."
    ASSUMPTIONS = ["values have the type the variable had when it was analysed (or that the annotation declares)", "a setter may be missing where another member is named set_<name>"]
    RULE = "one evaluation = one history on one target; distinct = distinct observation traces"

    def space(self):
        sp = Space()
        for n, (head, init, v1, v2, mut) in dict(VALUES, **NESTED).items():
            sp.add(Case("var:" + n, kind="var", head=head, init=init, v=[v1, v2], mut=mut, where="root", setter=True))
        for w in WHERE:
            if w != "root":
                for n in ("int", "obj", "list", "none"):
                    head, init, v1, v2, mut = VALUES[n]
                    sp.add(Case("var:%s@%s" % (n, w), kind="var", head=head, init=init, v=[v1, v2], mut=mut, where=w, setter=True))
                head, init, v1, v2, mut = VALUES["int"]
                sp.add(Case("var:int@%s:set" % w, kind="var", head=head, init=init, v=[v1, v2], mut=mut, where=w, setter=True, coldset=True))
        for w in WHERE:    # other module objects take the place of the module
            for n in ("int", "obj", "list", "none"):
                head, init, v1, v2, mut = VALUES[n]
                sp.add(Case("swap:%s@%s" % (n, w), kind="var", head=head, init=init, v=[v1, v2], mut=mut, where=w, setter=True, swap=True))
        for n, (src, v1, v2, st) in FORMS.items():
            for w in WHERE:
                if w == "root" or n in ("prop", "ro", "classvar", "selfann"):
                    sp.add(Case("prop:%s%s" % (n, "" if w == "root" else "@" + w), kind="prop", src=src, v=[v1, v2], where=w, setter=st))
        for c in sp.cases:  # histories (as a prefix tree) of each target
            o, d = self.ops(c)
            sp.states += sum(len(o) ** k for k in range(d + 1))
            sp.transitions += sum(len(o) ** k for k in range(1, d + 1))
        return sp

    def ops(self, c):
        """The alphabet of a target and the depth explored."""
        if c.data.get("swap"):
            o = "gstrdwx"
        elif c.kind == "var":
            o = "gsStTrd" + ("m" if c.mut else "")
        else:
            o = "g" + ("sS" if c.setter else "") + "tTrdh" + ("C" if "\n    x = " in c.src or "\n    x: " in c.src else "") + ("!" if "M = [0]" in c.src else "")
        return o, (5 if core.THOROUGH else 4 if len(o) <= 7 else 3)

    def histories(self, c):
        o, d = self.ops(c)
        return ["".join(h) for h in itertools.product(o, repeat=d)]

    def files(self, c, root):
        pkg = WHERE[c.where][0].format(root).split(".")
        src = (c.head + "X = " + c.init + "\n") if c.kind == "var" else c.src
        if len(pkg) == 1:
            return {pkg[0] + ".py": src}
        f = {"/".join(pkg[:i]) + "/__init__.py": "" for i in range(1, len(pkg))}
        f["/".join(pkg) + ".py"] = src
        return f

    def judge(self, b, cases):
        root = prog.newdir("c17")
        names = {c.id: "t17_%03d" % i for i, c in enumerate(cases)}
        progs = {c.id: {"files": self.files(c, names[c.id]), "modules": [names[c.id]]} for c in cases}
        gen = prog.generate(b, progs, root)
        bad, rust, vecs = {}, {}, {}
        for c in cases:
            g = gen[c.id]
            if not g["ok"]:
                bad[c.id] = [prog.why(g)]
                continue
            path = WHERE[c.where][0].format(names[c.id]).split(".")
            items = prog.mod(g["ast"], path)
            pool = items if c.kind == "var" else prog.methods(items or [], "C")[0]
            x = "X" if c.kind == "var" else "x"
            get, st = prog.fn(pool or [], x), prog.fn(pool or [], "set_" + x)
            if get is None:
                bad[c.id] = [("getter", "no getter for %s" % x)]
                continue
            if (st is not None) != c.setter:
                bad[c.id] = [("setter", "setter %s" % ("missing" if c.setter else "for a read-only attribute"))]
                continue
            vecs[c.id] = "Vec<u8>" in prog.norm(get["ret"] or "")
            rust[c.id] = core.case_text(g["path"], self.drive(c, names[c.id], path, st), True)
        errs, obs = core.execute(b, rust, [root], batches=8)
        for cid, ms in errs.items():
            bad[cid] = [("compile", ms[0][0] + "\n" + ms[0][1])]
        n = 0
        sys.path.insert(0, root)
        try:
            for c in cases:
                if c.id in bad:
                    continue
                got = obs.get(c.id, [])
                hs = self.histories(c)
                ref = self.reference(c, names[c.id], vecs[c.id])
                seen = {o["label"]: o["v"] for o in got if o["kind"] == "history"}
                other = [o for o in got if o["kind"] != "history"]
                v = []
                if c.kind == "var":
                    want = "o=ok %s\n" % ("None" if c.data.get("coldset") else mc_rt.show(self.initial(c, names[c.id], vecs[c.id])))
                    if seen.get("cold") != want:
                        v.append(("live", "first use of the module: bindings %r, Python %r" % (seen.get("cold"), want)))
                for h in hs:
                    n += 1
                    want = ref(h)
                    self.outcome((c.id, want) if len(self.outcomes) < 20000 else 0)
                    if seen.get(h) != want:
                        v.append(("live", "history %s: bindings %r, Python %r" % (h, seen.get(h), want)))
                        if len(v) >= 2:
                            break
                if other:
                    v.insert(0, ("crash", "%s %s" % (other[0]["kind"], other[0]["v"])))
                if v:
                    bad[c.id] = v[:2]
        finally:
            sys.path.remove(root)
            for k in list(sys.modules):
                if k.startswith("t17_"):
                    del sys.modules[k]
        if len(cases) > 1:
            self.info.update(evaluations=n, states=sum(self.nodes(c) for c in cases), transitions=sum(self.nodes(c) - 1 for c in cases),
                             traces_validated_against_impl=n)
        return bad

    def nodes(self, c):
        o, d = self.ops(c)
        return sum(len(o) ** i for i in range(d + 1))

    def pyops(self, c, mod):
        """Python text of the operations; `o` is the object that carries the attribute, `M` its module."""
        x = "X" if c.kind == "var" else "x"
        return {"t": "o.%s = mk(0)" % x, "T": "o.%s = mk(1)" % x, "d": "del o.%s" % x,
                "w": SWAP % "", "x": SWAP % "M.__dict__.update(X=mk(1)); ",
                "m": (c.data.get("mut") or "0").format("o." + x), "C": "type(o).x = mk(1)", "!": "M.M[0] = 1 - M.M[0]",
                "r": "_r = o.%s" % x, "h": "_r = o2.%s" % x, "g": "_r = o.%s" % x, "s": "o.%s = mk(0)" % x, "S": "o.%s = mk(1)" % x}

    def setup(self, c, mod):
        if c.kind == "var":
            return "M = I(%r); o = M; E = M.__dict__\nM.X = eval(%r, E)\nmk = lambda i: eval(%r[i], dict(E))\n" % (mod, c.init, c.v)
        return ("M = I(%r); importlib.reload(M); E = M.__dict__; o = M.C(); o2 = M.C()\nmk = lambda i: eval(%r[i], dict(E))\n" % (mod, c.v))

    def drive(self, c, name, path, st):
        mod = ".".join(path)
        p = "b::" + prog.rpath(path)
        ops = self.pyops(c, mod)
        o, d = self.ops(c)
        s = []
        arms = []
        if c.kind == "var":    # nothing has imported the module before its first use
            first = "%s::X(py)" % p if not c.data.get("coldset") else "%s::set_X(py, %s)" % (p, prog.arg(st["params"][-1][1], "eval(%r)" % c.v[0]))
            s.append("l.history(\"cold\", |l, op| if op == 'o' { l.val(py, \"o\", %s); });" % first)
        if c.kind == "var":
            g, setf = p + "::X(py)", p + "::set_X(py, %s)"
            pre = ""
        else:
            s.append("use %s::CMethods as _;" % p)
            g, setf = "%s::CMethods::x(&k)" % p, "%s::CMethods::set_x(&k, %%s)" % p
            pre = "let k = ev(py, \"o\").downcast_into::<%s::C>().unwrap();" % p
        for ch in o:
            if ch == "g":
                arms.append("'g' => { %s l.val(py, \"g\", %s); }" % (pre, g))
            elif ch in "sS":
                ty = st["params"][-1][1]
                e = prog.arg(ty, "mk(%d)" % (ch == "S"))
                arms.append("'%s' => { %s l.val(py, \"%s\", %s); }" % (ch, pre, ch, setf % e))
            else:
                code = ops[ch]
                if ch in "rh":
                    arms.append("'%s' => { l.py(py, \"%s\", %s); }" % (ch, ch, core.rs(code[5:])))
                else:
                    arms.append("'%s' => { l.py(py, \"%s\", %s); }" % (ch, ch, core.rs("ex(%r)" % code)))
        s.append("let al: Vec<char> = %s.chars().collect(); let n = al.len(); let d = %d;" % (core.rs(o), d))
        s.append("for i in 0..n.pow(d) { let mut h = String::new(); for j in (0..d).rev() { h.push(al[(i / n.pow(j)) % n]); }")
        s.append("ex(py, %s); l.history(&h, |l, op| match op { %s _ => unreachable!() }); }" % (core.rs(self.setup(c, mod)), " ".join(arms)))
        return "\n".join(s)

    def initial(self, c, name, vec):
        v = importlib.import_module(WHERE[c.where][0].format(name)).X
        return list(v) if vec and type(v) in (bytes, bytearray) else v

    def reference(self, c, name, vec):
        mod = WHERE[c.where][0].format(name)
        setup = compile(self.setup(c, mod), "s", "exec")
        ops = {k: compile(v, "o", "exec") for k, v in self.pyops(c, mod).items()}
        importlib.invalidate_caches()

        conv = lambda ch, v: list(v) if ch == "g" and vec and type(v) in (bytes, bytearray) else v

        def ref(h):
            g = dict(mc_rt.G)
            exec(setup, g)
            out = []
            for ch in h:
                g.pop("_r", None)
                try:
                    exec(ops[ch], g)
                    out.append("%s=ok %s\n" % (ch, mc_rt.show(conv(ch, g.get("_r"))) if ch in "grh" else "None"))
                except BaseException as e:
                    out.append("%s=err %s\n" % (ch, mc_rt.showerr(e)))
            return "".join(out)
        return ref


CHECK = C17
