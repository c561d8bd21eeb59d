"""C07: bindings mirror the public structure of the modules.

Space: (1) every kind of module member and every pair of kinds, in every kind of module; (2) every kind of class member and every pair;
(3) every package tree over a grammar of children (absent, module, package, nested, private, test, failing to import), initialiser and
request set. Oracle: a table written by hand that says for each kind whether it is a public class, function, type or variable; for trees
the set of modules the request reaches. Compared with the exact item list of every generated module."""
import itertools, re
from harness import core, prog
from harness.ctx import Check, Case, Space

# kind: (head, statement with {n} for the name, what the bindings must contain)
S, F, V, T, N, P = "struct", "fn", "var", "type", "none", "present"
_FORE = ("import types as _t\n_m = _t.ModuleType('mc_foreign')\nexec('def d(g):\\n def w(*a): return g(*a)\\n return w\\ndef cd(c):\\n class W(c): pass\\n return W\\ndef cr(c):\\n class W:\\n  def m(self): pass\\n return W\\n"
         "l = lambda: 0\\ndef f(): pass\\nclass K: pass\\n', _m.__dict__)\n")
MEMBERS = {
    "privinst": ("class _C: pass\n_C.__module__ = 'aa._bb'\n", "{n} = _C()", N), "privinst2": ("class _C: pass\n_C.__module__ = '_aa.bb'\n", "{n} = _C()", N), "typinst": ("class _C: pass\n_C.__module__ = 'aa.typing'\n", "{n} = _C()", N), "typlike": ("class _C: pass\n_C.__module__ = 'aa.typing_x'\n", "{n} = _C()", V), "privlike": ("class _C: pass\n_C.__module__ = 'a_a.b_'\n", "{n} = _C()", V),
    "privfn": ("", "def {n}(): pass\n{n}.__module__ = 'aa._bb'", N), "privcl": ("", "class {n}: pass\n{n}.__module__ = 'aa._bb'", N),
    "fdeco": (_FORE, "@_m.d\ndef {n}(): pass", F), "fdecoclass": (_FORE, "@_m.cd\nclass {n}: pass", S), "fdecoclass2": (_FORE, "@_m.cr\nclass {n}: pass", S), "foreignlam": (_FORE, "{n} = _m.l", N),
    "foreigndyn": (_FORE, "{n} = _m.f", N), "foreigndynk": (_FORE, "{n} = _m.K", N),
    "class": ("", "class {n}: pass", S), "classm": ("", "class {n}:\n    def f(self): pass\n    x = 1", S), "subclass": ("class _B: pass\n", "class {n}(_B): pass", S),
    "intsub": ("", "class {n}(int): pass", S), "exc": ("", "class {n}(ValueError): pass", S), "enum": ("import enum as _e\n", "class {n}(_e.Enum):\n    A = 1", S),
    "flag": ("import enum as _e\n", "class {n}(_e.Flag):\n    A = 1", S), "dataclass": ("import dataclasses as _d\n", "@_d.dataclass\nclass {n}:\n    x: int = 1", S),
    "frozen": ("import dataclasses as _d\n", "@_d.dataclass(frozen=True, slots=True)\nclass {n}:\n    x: int = 1", S), "namedtuple": ("import collections as _c\n", "{n} = _c.namedtuple('{n}', 'a b')", S),
    "tnamedtuple": ("import typing as _t\n", "class {n}(_t.NamedTuple):\n    a: int", S), "typeddict": ("import typing as _t\n", "class {n}(_t.TypedDict):\n    a: int", S),
    "protocol": ("import typing as _t\n", "class {n}(_t.Protocol):\n    def m(self): ...", S), "abc": ("import abc as _a\n", "class {n}(_a.ABC):\n    @_a.abstractmethod\n    def m(self): ...", S),
    "meta": ("", "class {n}(type): pass", S), "withmeta": ("class _M(type): pass\n", "class {n}(metaclass=_M): pass", S), "metadir": ("class _M(type):\n    def __dir__(cls): return ['zz']\n", "class {n}(metaclass=_M): pass", S),
    "slots": ("", "class {n}:\n    __slots__ = ('a',)", S), "generic": ("import typing as _t\n_T = _t.TypeVar('_T')\n", "class {n}(_t.Generic[_T]): pass", S), "generic12": ("", "class {n}[_T]: pass", S),
    "typecall": ("", "{n} = type('{n}', (), {{}})", S), "typecall2": ("", "{n} = type('Other', (), {{'x': 1}})", S), "classalias": ("class _K: pass\n", "{n} = _K", S),
    "localclass": ("def _mk():\n    class L: pass\n    return L\n", "{n} = _mk()", S), "decoclass": ("def _w(c):\n    class W(c): pass\n    return W\n", "@_w\nclass {n}: pass", S),
    "decoclass2": ("def _w(c): return c\n", "@_w\nclass {n}: pass", S), "simplens": ("import types as _t\n", "class {n}(_t.SimpleNamespace): pass", S), "nested": ("", "class {n}:\n    class In: pass", S),
    "func": ("", "def {n}(): pass", F), "funcargs": ("", "def {n}(a, b=1, *c, d, **e): pass", F), "lambda": ("", "{n} = lambda: 0", F), "async": ("", "async def {n}(): pass", F), "gen": ("", "def {n}(): yield", F),
    "agen": ("", "async def {n}(): yield", F), "partial": ("import functools as _f\n", "{n} = _f.partial(print, 1)", F), "wraps": ("import functools as _f\ndef _d(g):\n    @_f.wraps(g)\n    def w(*a): return g(*a)\n    return w\n", "@_d\ndef {n}(): pass", F),
    "nowraps": ("def _d(g):\n    def w(*a): return g(*a)\n    return w\n", "@_d\ndef {n}(): pass", F), "single": ("import functools as _f\n", "@_f.singledispatch\ndef {n}(x): pass", F),
    "funcalias": ("def _g(): pass\n", "{n} = _g", F), "builtinalias": ("", "{n} = len", F), "cfunc": ("import math as _m\n", "{n} = _m.sin", F), "boundbuiltin": ("_l = []\n", "{n} = _l.append", F),
    "overload": ("import typing as _t\n", "@_t.overload\ndef {n}(x: int): ...\n@_t.overload\ndef {n}(x: str): ...\ndef {n}(x): pass", F), "ctxman": ("import contextlib as _c\n", "@_c.contextmanager\ndef {n}(): yield", F),
    "deprecated": ("import functools as _f\n", "def {n}(): pass\n{n}.__doc__ = None\n{n}.x = 1", F), "nosig": ("", "def {n}(): pass\n{n}.__signature__ = 5", F), "exec": ("", "exec('def {n}(): pass')", F),
    "lru": ("import functools as _f\n", "@_f.lru_cache\ndef {n}(x): pass", P), "callable": ("class _C:\n    def __call__(self): pass\n", "{n} = _C()", V), "genfn": ("", "def {n}[_T](x: _T) -> _T: pass", F),
    "int": ("", "{n} = 1", V), "str": ("", "{n} = 'a'", V), "none": ("", "{n} = None", V), "float": ("", "{n} = float('nan')", V), "list": ("", "{n} = [1]", V), "dict": ("", "{n} = {{}}", V), "tuple": ("", "{n} = ()", V),
    "set": ("", "{n} = {{1}}", V), "bytes": ("", "{n} = b''", V), "ellipsis": ("", "{n} = ...", V), "notimpl": ("", "{n} = NotImplemented", V), "object": ("", "{n} = object()", V), "slice": ("", "{n} = slice(1)", V),
    "anninit": ("", "{n}: int = 5", V), "annstr": ("", "{n}: 'Missing' = 5", V), "final": ("import typing as _t\n", "{n}: _t.Final = 5", V), "inst": ("class _C: pass\n", "{n} = _C()", V), "enummember": ("import enum as _e\nclass _E(_e.Enum):\n    A = 1\n", "{n} = _E.A", V),
    "foreigninst": ("import decimal as _d\n", "{n} = _d.Decimal(1)", V), "pattern": ("import re as _r\n", "{n} = _r.compile('a')", V), "logger": ("import logging as _l\n", "{n} = _l.getLogger('x')", V), "path": ("import pathlib as _p\n", "{n} = _p.Path('a')", V),
    "date": ("import datetime as _d\n", "{n} = _d.date(1, 1, 1)", V), "propobj": ("", "{n} = property(lambda s: 1)", V), "smeth": ("", "{n} = staticmethod(len)", V), "genobj": ("", "{n} = (i for i in ())", V), "excinst": ("", "{n} = ValueError()", V),
    "simple": ("import types as _t\n", "{n} = _t.SimpleNamespace(a=1)", V), "mapproxy": ("import types as _t\n", "{n} = _t.MappingProxyType({{}})", V), "range": ("", "{n} = range(3)", V), "rebind": ("", "{n} = 1\n{n} = 'a'", V), "walrus": ("", "({n} := 5)", V), "loop": ("", "for {n} in range(2): pass", V),
    "globaldecl": ("", "def _g():\n    global {n}\n    {n} = 1\n_g()", V), "eqraise": ("class _C:\n    def __eq__(self, o): raise ValueError\n    def __bool__(self): raise ValueError\n    def __hash__(self): raise ValueError\n", "{n} = _C()", V),
    "weirdstr": ("class _C:\n    def __repr__(self): return '<locals>'\n", "{n} = _C()", V), "reprraise": ("class _C:\n    def __repr__(self): raise ValueError\n    __str__ = __repr__\n", "{n} = _C()", V), "strsub": ("class _S(str): pass\n", "{n} = _S('a')", V),
    "dynattr": ("", "def __getattr__(k):\n    if k == '{n}': return 1\n    raise AttributeError(k)\ndef __dir__(): return [k for k in globals()] + ['{n}']", V), "modeldict": ("import collections as _c\n", "{n} = _c.OrderedDict()", V),
    "typevar": ("import typing as _t\n", "{n} = _t.TypeVar('{n}')", T), "typevarb": ("import typing as _t\n", "{n} = _t.TypeVar('{n}', bound=int)", T), "paramspec": ("import typing as _t\n", "{n} = _t.ParamSpec('{n}')", T), "tvtuple": ("import typing as _t\n", "{n} = _t.TypeVarTuple('{n}')", T),
    "newtype": ("import typing as _t\n", "{n} = _t.NewType('{n}', int)", T), "galias": ("", "{n} = list[int]", T), "union": ("", "{n} = int | str", T), "typestmt": ("", "type {n} = int", T),
    "annonly": ("", "{n}: int", N), "deleted": ("", "{n} = 1\ndel {n}", N), "foreignclass": ("", "from collections import OrderedDict as {n}", N), "foreignclass2": ("", "from decimal import Decimal as {n}", N), "foreignfunc": ("", "from textwrap import dedent as {n}", N),
    "foreignmod": ("", "import decimal as {n}", N), "foreignmod2": ("", "import xml.dom as {n}", N), "foreignexc": ("", "from json import JSONDecodeError as {n}", N), "builtinclass": ("", "{n} = int", N), "abccls": ("", "from collections.abc import Mapping as {n}", N),
    "raising": ("", "def __getattr__(k):\n    raise AttributeError(k)\ndef __dir__(): return [k for k in globals()] + ['{n}']", N), "boundmeth": ("class _C:\n    def m(self): pass\n", "{n} = _C().m", N), "typecheck": ("import typing as _t\n", "if _t.TYPE_CHECKING:\n    from decimal import Decimal as {n}", N),
    "except": ("", "try: 1 / 0\nexcept ZeroDivisionError as {n}: pass", N), "comprehension": ("", "[{n} for {n} in range(3)]", N), "inner": ("", "def _f():\n    def {n}(): pass\n    class {n}: pass", N),
}
# names of members that must never show, whatever they are
HIDDEN = {"private": "_x1", "dunder": "__x1__", "mangled": "__x1", "blocked": "tests", "blocked2": "testing", "blocked3": "builtins", "blocked4": "test"}
SHOWN = {"underscore": "x_", "inner_": "a__b", "upper": "X1", "digit": "x1_2", "longer": "testsuite", "prefixed": "mytest", "shadow": "list"}

# members of classes: (statement in the class body, expected: name of a fn or None)
CMEMBERS = {
    "method": ("def {n}(self): pass", F), "static": ("@staticmethod\n    def {n}(): pass", F), "clsm": ("@classmethod\n    def {n}(cls): pass", F), "lambda": ("{n} = lambda self: 0", F), "async": ("async def {n}(self): pass", F), "gen": ("def {n}(self): yield", F),
    "noself": ("def {n}(): pass", F), "starself": ("def {n}(*a): pass", F), "builtin": ("{n} = len", F), "wrapped": ("@_deco\n    def {n}(self): pass", F), "foreign": ("from textwrap import dedent as {n}", F), "abstract": ("@_abc.abstractmethod\n    def {n}(self): pass", F),
    "prop": ("@property\n    def {n}(self): pass", "ro"), "proprw": ("@property\n    def {n}(self): pass\n    @{n}.setter\n    def {n}(self, v): pass", V), "wo": ("{n} = property(None, lambda self, v: None)", V), "var": ("{n} = 1", "ro"), "varnone": ("{n} = None", "ro"), "inst": ("{n} = object()", "ro"),
    "ann": ("{n}: int = 1", "ro"), "annonly": ("{n}: int", N), "private": ("def _{n}(self): pass", N), "mangled": ("def __{n}(self): pass", N), "dunder": ("def __{n}__(self): pass", N), "cls": ("class {n}: pass", N), "mod": ("import decimal as {n}", N),
    "foreigncls": ("from decimal import Decimal as {n}", N), "partial": ("{n} = _ft.partial(print)", N), "pmethod": ("{n} = _ft.partialmethod(print)", P), "typevar": ("{n} = _t.TypeVar('{n}')", N), "deleted": ("def {n}(self): pass\n    del {n}", N), "over": ("def {n}(self): pass\n    @property\n    def {n}(self): pass", "ro"),
    "raising": ("{n} = _Raise()", N), "loc": ("def _l():\n        def {n}(self): pass\n        return {n}\n    {n} = _l()", F), "cached": ("{n} = _ft.cached_property(lambda self: 1)", "ro"), "overload": ("@_t.overload\n    def {n}(self, a: int): ...\n    @_t.overload\n    def {n}(self, a: str): ...\n    def {n}(self, a): pass", F),
}
CHEAD = ("import functools as _ft, typing as _t, abc as _abc\ndef _deco(g):\n    @_ft.wraps(g)\n    def w(*a): return g(*a)\n    return w\n"
         "class _Raise:\n    def __get__(self, o, t=None): raise AttributeError('no')\n")
CSTYLES = {"own": "class C:\n    {b}\n", "inherit": "class _B:\n    {b}\nclass C(_B):\n    pass\n", "meta": "class _M(type):\n    {b}\nclass C(metaclass=_M):\n    pass\n", "slots": "class C:\n    __slots__ = ('zz',)\n    {b}\n",
           "init": "class C:\n    def __init__(self, a): pass\n    def __call__(self, b): pass\n    {b}\n", "shadow": "class _B:\n    {b}\nclass C(_B):\n    x1 = 5\n", "instance": "class C:\n    def __init__(self):\n        self.x1 = 1\n"}

# package trees: slot a / b of package p, private slot, hidden slot
A = {"-": {}, "m": {"a.py": "a"}, "p": {"a/__init__.py": "a"}, "pc": {"a/__init__.py": "a", "a/c.py": "a.c"}, "pcd": {"a/__init__.py": "a", "a/c.py": "a.c", "a/_d.py": "a._d", "a/tests/__init__.py": "a.tests", "a/tests/x.py": "a.tests.x"},
     "pcc": {"a/__init__.py": "a", "a/c/__init__.py": "a.c", "a/c/a.py": "a.c.a", "a/c/p.py": "a.c.p"}}
B = {"-": {}, "m": {"b.py": "b"}, "raise": {"b.py": "!raise ValueError('no')"}, "syntax": {"b.py": "!)("}, "exit": {"b.py": "!raise SystemExit(3)"}, "uses": {"b.py": "b+import {p}.a as _a"}, "pkgraise": {"b/__init__.py": "!raise ImportError('no')", "b/e.py": "b.e"},
     # modules that replace themselves by another one, and one of another class
     "swap": {"b.py": "!import sys\nfrom . import nb as _m\nsys.modules[__name__] = _m", "nb.py": "nb"}, "swapext": {"b.py": "!import sys, json as _m\nsys.modules[__name__] = _m"},
     "modcls": {"b.py": "b+import sys as _s, types as _t\nclass _M(_t.ModuleType): pass\n_s.modules[__name__].__class__ = _M"}}
H = {"-": {}, "h": {"_h.py": "_h"}, "hp": {"_h/__init__.py": "_h", "_h/g.py": "_h.g"}, "t": {"test.py": "test", "tests/__init__.py": "tests", "tests/t.py": "tests.t", "testing.py": "testing", "testsuite.py": "testsuite"},
     "main": {"__main__.py": "!raise SystemExit('ran')", "_priv.py": "_priv"}}
I = {"none": "", "import": "import {p}.a as _a", "from": "from . import a", "alias": "from . import a as z", "func": "from .a import f_a", "star": "from .a import *", "class": "from .a import K_a as R", "hid": "from ._h import f__h"}
REQ = [["p"], ["p.a"], ["p.a.c"], ["p", "p.a"], ["p.a", "p"], ["p.a.c", "p.a"], ["p.b", "p.a"], ["p.a.c", "p.b"], ["p", "p"], ["p", "p.a.c"], ["p.a.c", "p.b", "p"], ["q", "p"], ["q", "p.a.c", "p.a"], ["p.a", "p.a"]]


SIZES = [3, 9, 17, 33, 65, 101, 129, 257] + ([513, 1025, 3000] if core.THOROUGH else [])
DEPTHS = [3, 4, 5, 6, 7, 8, 9, 10, 12, 16] + ([24, 33, 40] if core.THOROUGH else [])
LAYOUTS = ["split", "splitfirst", "ns", "ns2", "zip"]


class C07(Check):
    ID = "C07"
    TECHNIQUE = "exhaustive enumeration of member kinds (all pairs), class members (all pairs) and package trees x request sets; item lists of the bindings compared with a hand-written classification"
    NOTE = "Member kinds of the tables alone and in pairs; trees up to depth 3 with two named children. Members are simple names (C09 covers spelling), overlaps of a member with a submodule are left to C16."
    ASSUMPTIONS = ["a member counts as private also if a module its __module__ names is private or belongs to typing, as foreign if it is a class, Python function or module defined elsewhere; what a decorator of another module makes of a member (its name contains <locals>) belongs to the module that uses the decorator",
                   "bound methods in modules and classes nested in classes have no bindings (documented limitations)"]
    RULE = "one evaluation = one generated module or class whose item list was compared"

    def space(self):
        sp = Space()
        sp.states = sp.transitions = 0

        def add(cid, **d):
            sp.states += 1
            sp.add(Case(cid, **d))
        hosts = ["m", "pkg", "sub", "deep", "embed"]
        for k in MEMBERS:
            for h in hosts:
                add("member/%s/%s" % (h, k), kind="member", host=h, members=[(k, "x1")])
            for t, nm in list(HIDDEN.items()) + list(SHOWN.items()):
                add("name/%s/%s" % (t, k), kind="member", host="m", members=[(k, nm)])
        for i, (a, c) in enumerate(itertools.combinations(MEMBERS, 2)):
            if {a, c} == {"dynattr", "raising"}:
                continue
            for h in (hosts if core.THOROUGH else [hosts[i % 4]]):
                add("pair/%s/%s+%s" % (h, a, c), kind="member", host=h, members=[(a, "x1"), (c, "x2")])
        for k in CMEMBERS:
            for s in CSTYLES:
                if s != "instance" or k == "method":
                    add("cmember/%s/%s" % (s, k), kind="class", style=s, members=[(k, "x1")])
        for a, c in itertools.permutations(CMEMBERS, 2):
            if a < c or core.THOROUGH:
                add("cpair/%s+%s" % (a, c), kind="class", style="own", members=[(a, "x1"), (c, "x2")])
        # many members, many submodules, deep packages
        for n in SIZES:
            for what in ("def", "class", "var", "typevar", "method", "mprop", "mvar", "static", "sub", "subpkg", "mixed", "doc"):
                add("size/%s/%d" % (what, n), kind="size", what=what, n=n)
        for n in DEPTHS:
            for leaf in ("mod", "pkg", "every"):
                for req in ("top", "leaf", "mid", "leaf+top", "mid+leaf"):
                    add("depth/%s/%s/%d" % (leaf, req, n), kind="size", what="depth:%s:%s" % (leaf, req), n=n)
        layouts = [("plain",) + x for x in itertools.product(A, B, H, I)]
        layouts += [(l,) + x for l in LAYOUTS for x in itertools.product(A, B, ("-", "h", "t"), ("none", "func", "from") if l in ("split", "splitfirst", "zip") else ("none",))]
        for l, a, b, h, i in layouts:
            if l != "plain" and not core.THOROUGH and (b in ("syntax", "exit", "uses") or h != "-" and i != "none"):
                continue
            if not core.THOROUGH and sum((b not in ("-", "m"), h not in ("-", "h"), i not in ("none", "func"))) > 1:
                continue
            if (i not in ("none", "hid") and a == "-") or (i == "hid" and h not in ("h", "hp")) or (b == "uses" and a == "-"):
                continue
            if l in ("split", "splitfirst", "ns2") and b == h == "-":
                continue
            tree = {"p": "p/__init__.py", "q": "q.py"}
            for f, tag in {**A[a], **B[b], **H[h]}.items():
                m = "p." + re.sub(r"(/__init__)?\.py$", "", f).replace("/", ".")
                tree[m] = f
            broken = {m for m in tree if m not in ("p", "q") and {**A[a], **B[b], **H[h]}[tree[m]].startswith("!")}
            for req in REQ:
                if any(r not in tree or r in broken for r in req):
                    continue
                for cfg in (["default"] if not core.THOROUGH and ((b, h) != ("m", "h") or l != "plain") else ["default", "notraverse"]):
                    sp.transitions += 1
                    add("tree/%s%s/%s/%s/%s/%s/%s" % ("" if l == "plain" else l + ":", a, b, h, i, "+".join(req), cfg), kind="tree", a=a, b=b, h=h, i=i, req=req, cfg=cfg, layout=l)
        return sp

    # ------------------------------------------------------------ programs

    def program(self, c, p, q):
        if c.kind == "member":
            own = lambda i, s: re.sub(r"\b(_[a-zA-Z])\b", r"\g<1>%d" % i, s)  # helpers of different members do not meet
            body = "".join(own(i, MEMBERS[k][0]) for i, (k, _) in enumerate(c.members))
            body += "".join(own(i, MEMBERS[k][1].format(n=n)) + "\n" for i, (k, n) in enumerate(c.members))
            if c.host == "embed":
                return {"ops": [{"op": "new"}, {"op": "module_from_str", "src": body, "name": p}, {"op": "generate", "write": True}], "modules": []}
            files = {"m": {p + ".py": body}, "pkg": {p + "/__init__.py": body}, "sub": {p + "/__init__.py": "", p + "/s.py": body},
                     "deep": {p + "/__init__.py": "", p + "/s/__init__.py": "", p + "/s/t.py": body}}[c.host]
            return {"files": files, "modules": [p] if c.host != "deep" else [p + ".s"]}
        if c.kind == "size":
            return self.sized(c, p)[0]
        if c.kind == "class":
            body = CHEAD + CSTYLES[c.style].format(b="\n    ".join(CMEMBERS[k][0].format(n=n) for k, n in c.members))
            return {"files": {p + ".py": body}, "modules": [p]}
        files = {}
        every = {**A[c.a], **B[c.b], **H[c.h]}
        for f, tag in every.items():
            files[p + "/" + f] = self.body(f, tag, p)
        files[p + "/__init__.py"] = self.body("", "p+" + I[c.i], p)
        extra = []
        if c.layout.startswith("split"):     # one package, two directories
            for f in [f for f in files if f[len(p) + 1:] in {**B[c.b], **H[c.h]}]:
                files[p + "_x" + f[len(p):]] = files.pop(f)
            files[p + "/__init__.py"] = "import os as _os\n__path__.insert(%d, _os.path.dirname(__path__[0]) + '/%s_x')\n" % (c.layout == "split", p) + files[p + "/__init__.py"]
        elif c.layout in ("ns", "ns2"):      # no initialiser, one or two portions
            del files[p + "/__init__.py"]
            files[p + "/data.txt"] = ""
            if c.layout == "ns2":
                for f in [f for f in files if f[len(p) + 1:] in {**B[c.b], **H[c.h]}]:
                    files[p + "_y/" + f] = files.pop(f)
                extra = [self.root + "/" + p + "_y"]
        elif c.layout == "zip":
            import zipfile
            with zipfile.ZipFile(self.root + "/" + p + ".zip", "w") as z:
                for f in [f for f in files if f.startswith(p + "/")]:
                    z.writestr(f, files.pop(f))
            extra = [self.root + "/" + p + ".zip"]
        files[q + ".py"] = self.body("", "q", p)
        if extra:
            py = "import sys\nsys.path[:] = [x for x in sys.path if not x.endswith(('_y', '.zip'))] + %r" % extra
            return {"files": files, "ops": [{"op": "py", "code": py}, {"op": "new"}] + [
                {"op": "module_name", "name": re.sub("^q$", q, re.sub(r"^p\b", p, r))} for r in c.req] + [{"op": "generate"}]}
        return {"files": files, "modules": [re.sub("^q$", q, re.sub(r"^p\b", p, r)) for r in c.req], "cfg": {"traverse_submodules": c.cfg != "notraverse"}}

    def body(self, f, tag, p):
        if tag.startswith("!"):
            return tag[1:] + "\n"
        tag, _, extra = tag.partition("+")
        t = tag.replace(".", "_")
        return "def f_%s(): pass\nclass K_%s: pass\nv_%s = 1\n_p_%s = 2\n%s\n" % (t, t, t, t, extra.format(p=p))

    # ------------------------------------------------------------ oracle

    def judge(self, b, cases):
        root = prog.newdir("c07")
        names = {c.id: ("g%05d" % i, "h%05d" % i) for i, c in enumerate(cases)}
        self.root = root
        gen = prog.generate(b, {c.id: self.program(c, *names[c.id]) for c in cases}, root)
        bad, n = {}, 0
        for c in cases:
            g = gen[c.id]
            if not g["ok"]:
                bad[c.id] = [prog.why(g)]
                continue
            v, k = getattr(self, "judge_" + c.kind)(c, g["ast"], *names[c.id])
            n += k
            if v:
                bad[c.id] = v[:4]
        if len(cases) > 1:
            self.info.update(evaluations=n, traces_validated_against_impl=n)
        return bad

    def items(self, items):
        """(kind, name) of every item of a module, without the parts that belong to another item."""
        out = []
        structs = [prog.unraw(i["name"]) for i in items if i["kind"] == "struct"]
        for i in items:
            nm = prog.unraw(i.get("name") or "")
            if i["kind"] == "impl" or i["kind"] == "use" or i["kind"] == "macro":
                continue
            if i["kind"] == "trait" and nm.endswith("Methods") and nm[:-7] in structs:
                continue
            out.append((i["kind"], nm))
        return sorted(out)

    def compare(self, where, got, want, either=()):
        v = []
        for x in sorted(set(got) | set(want)):
            if got.count(x) != want.count(x) and x not in either:
                v.append(("missing" if want.count(x) > got.count(x) else "extra", "%s: %s %s: %d in the bindings, %d expected" % (where, x[0], x[1], got.count(x), want.count(x))))
        self.outcome((tuple(got)))
        return v

    def judge_member(self, c, ast, p, q):
        v = []
        path = {"m": [p], "pkg": [p], "embed": [p], "sub": [p, "s"], "deep": [p, "s", "t"]}[c.host]
        for i in range(len(path)):
            items = prog.mod(ast, path[:i + 1])
            if items is None:
                return [("missing", "module %s has no bindings" % path[:i + 1])], 1
            want = []
            if i + 1 < len(path):
                want.append(("mod", path[i + 1]))
            else:
                for k, nm in c.members:
                    e = MEMBERS[k][2]
                    if nm in HIDDEN.values() or e == N:
                        continue
                    want += {S: [("struct", nm)], F: [("fn", nm)], V: [("fn", nm), ("fn", "set_" + nm)], T: [("type", nm)], P: [("fn", nm)]}[e]
                if c.host == "embed":
                    want.append(("fn", "pyo3_embed_python_source_code"))
            v += self.compare(".".join(path[:i + 1]), self.items(items), want, [("fn", "set_" + nm) for k, nm in c.members if MEMBERS[k][2] == P])
        v += self.compare("top", self.items(ast), [("mod", p)])
        return v, len(path)

    def sized(self, c, p):
        """The program of a size and, for every module of it, the items that are expected."""
        n, w = c.n, c.what
        r = range(n)
        f, s, v = lambda x: [("fn", x)], lambda x: [("struct", x)], lambda x: [("fn", x), ("fn", "set_" + x)]
        if w.startswith("depth"):
            _, leaf, req = w.split(":")
            dirs = ["d%d" % i for i in range(n - 1)]
            files, want = {}, {}
            for i in range(n):
                path = [p] + dirs[:i]
                last = i == n - 1
                full = last or leaf == "every"
                files["/".join(path) + ("/__init__.py" if not last or leaf == "pkg" else ".py")] = "def here(): pass\nclass Here: pass\n" if full else ""
                want[tuple(path)] = (f("here") + s("Here") if full else []) + ([] if last else [("mod", dirs[i])])
            paths = sorted(want, key=len)
            names = {"top": paths[0], "leaf": paths[-1], "mid": paths[n // 2]}
            mods = [names[x] for x in req.split("+")]
            for q in want:
                if not any(q[:len(m)] == m for m in mods):
                    want[q] = [x for x in want[q] if x[0] == "mod"]
            return {"files": files, "modules": [".".join(m) for m in mods]}, want
        if w in ("sub", "subpkg"):
            files = {p + "/__init__.py": ""}
            files.update({p + "/s%d%s.py" % (i, "" if w == "sub" else "/__init__"): "def here%d(): pass\n" % i for i in r})
            return {"files": files, "modules": [p]}, {(p,): [("mod", "s%d" % i) for i in r], **{(p, "s%d" % i): f("here%d" % i) for i in r}}
        one = {"def": ("def x%d(): pass\n", f), "class": ("class x%d: pass\n", s), "var": ("x%d = 1\n", v), "doc": ("def x%d():\n    'Doc.'\n", f),
               "typevar": ("import typing as _t\nx%d = _t.TypeVar('x')\n", lambda x: [("type", x)])}
        if w in one:
            return {"files": {p + ".py": "".join(one[w][0] % i for i in r)}, "modules": [p]}, {(p,): sum((one[w][1]("x%d" % i) for i in r), [])}
        if w == "mixed":
            ks = [one[("def", "class", "var")[i % 3]] for i in r]
            return {"files": {p + ".py": "".join(k[0] % i for i, k in enumerate(ks))}, "modules": [p]}, {(p,): sum((k[1]("x%d" % i) for i, k in enumerate(ks)), [])}
        mem = {"method": ("    def x%d(self): pass\n", f), "static": ("    @staticmethod\n    def x%d(): pass\n", f), "mprop": ("    @property\n    def x%d(self): pass\n", f),
               "mvar": ("    x%d = 1\n", f)}[w]
        return ({"files": {p + ".py": "class C:\n" + "".join(mem[0] % i for i in r)}, "modules": [p]},
                {(p,): s("C"), (p, "C"): sum((mem[1]("x%d" % i) for i in r), [])})

    def judge_size(self, c, ast, p, q):
        v, n = [], 0
        want = self.sized(c, p)[1]
        for path, w in want.items():
            n += 1
            if path[-1] == "C":
                items = prog.mod(ast, list(path[:-1])) or []
                ms, _ = prog.methods(items, "C")
                got = sorted([("fn", prog.unraw(f["name"])) for f in ms + prog.inherent(items, "C")])
            else:
                items = prog.mod(ast, list(path))
                if items is None:
                    v.append(("missing", "module %s has no bindings" % ".".join(path)))
                    continue
                got = self.items(items)
            v += self.compare(".".join(path), got, w)
        return v, n

    def judge_class(self, c, ast, p, q):
        items = prog.mod(ast, [p])
        if items is None or not prog.struct(items, "C"):
            return [("missing", "no binding for the class")], 1
        v = self.compare(p, self.items(items), [("struct", "C")])
        ms, tr = prog.methods(items, "C")
        got = sorted([("fn", prog.unraw(f["name"])) for f in ms + prog.inherent(items, "C")])
        want, either = [], []
        if c.style in ("init", "instance"):
            want.append(("fn", "new"))
        if c.style == "init":
            want.append(("fn", "call"))
        if c.style == "slots":
            want.append(("fn", "zz"))
        if c.style == "shadow":
            want.append(("fn", "x1"))
        elif c.style not in ("meta", "instance"):
            for k, nm in c.members:
                e = CMEMBERS[k][1]
                want += {F: [("fn", nm)], "ro": [("fn", nm)], V: [("fn", nm), ("fn", "set_" + nm)], N: [], P: [("fn", nm)]}[e]
                if e == P:
                    either.append(("fn", "set_" + nm))
        return v + self.compare("class", got, want, either), 2

    def judge_tree(self, c, ast, p, q):
        tree = {"p": "p", "q": "q"}
        every = {**A[c.a], **B[c.b], **H[c.h]}
        for f, tag in every.items():
            tree["p." + re.sub(r"(/__init__)?\.py$", "", f).replace("/", ".")] = tag
        broken = {m for m, t in tree.items() if t.startswith("!")}
        if c.b == "uses" and c.a == "-":
            broken.add("p.b")
        hidden = lambda s: s.startswith("_") or s in ("test", "tests", "testing", "builtins")
        full, shell = set(), set()
        for r in c.req:
            segs = r.split(".")
            shell |= {".".join(segs[:i]) for i in range(1, len(segs))}
            for m in tree:
                if m == r or c.cfg != "notraverse" and m.startswith(r + ".") and not any(hidden(s) for s in m[len(r) + 1:].split(".")):
                    if not any(m == x or m.startswith(x + ".") for x in broken):
                        full.add(m)
        every = full | shell
        v, n = [], 0
        real = lambda m: re.sub("^q$", q, re.sub(r"^p\b", p, m)).split(".")
        for m in sorted(every):
            items = prog.mod(ast, real(m))
            n += 1
            if items is None:
                v.append(("missing", "module %s has no bindings" % m))
                continue
            want = [("mod", x.rpartition(".")[2]) for x in every if x.rpartition(".")[0] == m]
            if m in full and not (m == "p" and c.layout.startswith("ns")):
                t = tree[m].partition("+")[0].replace(".", "_")
                want += [("fn", "f_" + t), ("fn", "v_" + t), ("fn", "set_v_" + t), ("struct", "K_" + t)]
                if m == "p" and c.i == "star":
                    want += [("fn", "v_a"), ("fn", "set_v_a")]
            v += self.compare(m, self.items(items), want)
        v += self.compare("top", self.items(ast), [("mod", real(m)[0]) for m in every if "." not in m])
        return v, n


CHECK = C07
