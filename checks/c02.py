"""C02: generation survives any module.

Space: an ordinary package in which one member misbehaves in one way: every kind of object x every attribute that could be
inspected x every behaviour (raise, odd value), at every kind of place; every annotation text up to a length over the tokens
that matter; names, annotation objects, default values, module attributes and submodules of every odd kind; the nth inspection of
a member failing. Oracle: generation gives valid Rust, and everything else in the bindings is what it is without that member."""
import itertools, json, re
from harness import core, prog
from harness.ctx import Check, Case, Space

ROOT = '''"""Doc of p."""
import typing
import mc_hostile as _h
T = typing.TypeVar("T")
__all__ = ["A", "before", "sub", "zvar"]
class A:
    """Doc of A."""
    def __init__(self, a: int): pass
    def am(self, x: "A") -> "A": ...
def before(a: A, *, k: str = "") -> float:
    """Doc of before."""
%(mod)s
class K(A):
    """Doc of K."""
    one: int = 1
    def first(self, a: A) -> "K": ...
    @property
    def ro(self) -> int: return 1
%(cls)s
    @classmethod
    def cm(cls, *a): ...
    @property
    def rw(self) -> str: return ""
    @rw.setter
    def rw(self, v: str): pass
    @staticmethod
    def last(a: int, b: typing.List["K"]): ...
def after(k: K, *a, **b) -> typing.Dict[str, A]: ...
class Z:
    def zm(self): ...
zvar: int = 3
avar: A = A(1)
from .sub import SubC
def f(z: Z): ...
%(end)s
'''
SUB = '''"""Doc of sub."""
import mc_hostile as _h
from . import A
class SubC(A):
    def sm(self, a: A, b: "SubC") -> "SubC": ...
def sf(a: A) -> SubC: ...
%(mod)s
svar: float = 1.0
%(end)s
'''
DEEP = '''import mc_hostile as _h
import typing
from p.sub import SubC
class R:
    def rm(self, a: SubC) -> "R": ...
%(mod)s
def rf(r: R) -> SubC: ...
%(end)s
'''
SINGLE = DEEP.replace("from p.sub import SubC", "class SubC: ...")
TARGETS = ["*", "__module__", "__name__", "__qualname__", "__doc__", "__class__", "__dict__", "__annotations__", "__signature__", "__wrapped__", "__text_signature__", "__init__", "__call__", "__new__",
           "__bases__", "__mro__", "__origin__", "__args__", "__code__", "__defaults__", "__kwdefaults__", "__closure__", "__type_params__", "__parameters__", "__path__", "__all__", "__file__", "fget", "fset",
           "func", "__func__", "__self__", "__get__", "__set__", "__isabstractmethod__", "name", "kind", "annotation", "default", "parameters", "return_annotation", "keywords", "args", "__partialmethod__", "m", "p", "v", "__objclass__", "__supertype__", "__globals__", "__spec__", "__loader__"]
BEH_ALL = ["value", "attr", "stop", "none", "five", "empty", "colons", "lead", "inner", "dash", "nul", "sur", "self", "bytes", "badstr", "nonestr", "tree", "list", "type", "Self", "brackets", "lambda", "p", "locals", "prop", "angle", "space", "num", "sup"]
BEH_KEY = ["value", "attr", "none", "five", "empty", "colons", "sur", "self", "badstr", "tree", "type", "lambda"]
STRUCTURED = {"__module__", "__name__", "__qualname__", "__doc__", "__signature__", "__annotations__", "__wrapped__", "__class__", "*", "__init__", "__mro__", "name", "annotation", "default", "parameters", "__call__", "fget", "fset", "__text_signature__"}
DUNDERS = ["__str__", "__repr__", "__hash__", "__eq__", "__bool__", "__len__", "__iter__", "__getattr__", "__dir__", "__call__", "__get__", "__set__", "__instancecheck__", "__subclasscheck__", "__mro_entries__", "__class_getitem__", "__contains__", "__getitem__", "__del__", "__format__", "__ne__", "__lt__", "__index__", "__prepare__", "__fspath__", "__next__", "__enter__", "__await__", "__missing__", "keys", "items"]
ANN = ["_h.inst(__name__, '%s', '%s')" % (t, b) for t in ("*", "__module__", "__name__", "__qualname__", "__origin__", "__args__", "__class__", "__repr__", "__str__", "__forward_arg__") for b in BEH_KEY] + \
      ["_h.klass(__name__, '%s', '%s')" % (t, b) for t in ("*", "__module__", "__name__", "__qualname__", "__mro__", "__origin__", "__class__", "__doc__") for b in BEH_ALL] + \
      ["_h.plain_class(__name__, '%s', '%s')" % (t, b) for t in ("__module__", "__name__", "__qualname__") for b in BEH_ALL] + \
      ["_h.dunder(__name__, '%s', '%s')" % (t, b) for t in ("__str__", "__repr__", "__eq__", "__hash__", "__bool__", "__getattr__", "__len__", "__iter__", "__call__") for b in BEH_KEY] + \
      ["_h.meta_dunder(__name__, '%s', '%s')" % (t, b) for t in ("__str__", "__repr__", "__eq__", "__hash__", "__bool__", "__getattr__", "__instancecheck__", "__subclasscheck__", "__or__") for b in BEH_KEY] + \
      ["_h.module(__name__, '%s', '%s')" % (t, b) for t in ("*", "__name__") for b in BEH_KEY] + \
      ["5", "None", "NotImplemented", "...", "[]", "[int]", "{}", "{'a': int}", "lambda: 1", "object()", "10**5000", "1j", "float('nan')", "b'int'", "'a' * 100000", "'\\ud800'", "'\\0'", "()", "(int, str)", "typing", "len", "int.real", "type(None)", "print",
       "(i for i in [])", "property(lambda s: 1)", "classmethod(len)", "frozenset([1])", "range(3)", "slice(1)", "type", "object", "super", "T", "typing.ParamSpec('P')", "typing.TypeVarTuple('Ts')", "typing.Unpack[typing.TypeVarTuple('Ts')]", "typing.Concatenate[int, typing.ParamSpec('P')]",
       "typing.Callable[typing.ParamSpec('P'), int]", "typing.Callable[..., typing.Any]", "typing.Callable[[], None]", "typing.Literal[()]", "typing.Literal['a::b', \"'\", '[', ']', ',', '']", "typing.Literal[b'x', 1, True, None, -1]", "typing.Annotated[int, _h.BadStr()]", "typing.Annotated[int, 'a, b]', object()]",
       "typing.NewType('N', int)", "typing.NewType('', int)", "typing.ForwardRef('int')", "typing.ForwardRef('no.such', module='p')", "typing.Optional['no such thing']" if False else "typing.Optional['nosuch']", "typing.List['A::B']" if False else "typing.List['nosuch[int]']", "typing.Self", "typing.Never", "typing.NoReturn", "typing.LiteralString", "typing.Final[int]", "typing.ClassVar[int]",
       "typing.TypeGuard[int]", "typing.Generic[T]", "typing.Protocol[T]", "typing.Union[int, 'nosuch']", "int | None", "list[int] | 'x'" if False else "list[int] | T", "typing.Dict", "typing.Tuple", "typing.Tuple[()]", "tuple[()]", "tuple[int, ...]", "dict[int]", "list[int, str]", "list[()]", "set[list[int]]", "type[A]", "type['A']", "typing.Type[typing.Any]",
       "typing.NamedTuple", "typing.NamedTuple('NT', [('a', int)])", "typing.TypedDict('TD', {'a': int})", "typing.Required[int]", "typing.IO[str]", "typing.Pattern[str]", "typing.Text", "typing.AnyStr", "typing.Hashable", "typing.SupportsInt", "typing.Awaitable[int]", "typing.AsyncIterator[int]", "typing.Coroutine[int, int, int]",
       "__import__('collections').OrderedDict[int, str]", "__import__('collections.abc').abc.Callable[[int], str]", "__import__('collections.abc').abc.Mapping", "__import__('contextlib').AbstractContextManager[int]", "__import__('re').Pattern[str]", "__import__('types').GenericAlias(5, (6,))", "__import__('types').GenericAlias(list, ())", "__import__('types').GenericAlias(dict, (int,))",
       "__import__('types').GenericAlias(list, ('',))", "__import__('types').GenericAlias(list, (_h.BadStr(),))", "__import__('types').GenericAlias(A, (int, [str]))", "__import__('functools').partial(int)", "__import__('inspect').Parameter.empty", "__import__('inspect').signature(len)", "_h.BadStr()", "_h.NoneStr()", "_h.Tree()", "_h.BadStr", "__import__('enum').Enum('E', 'A B')", "__import__('weakref').ref(A)",
       "_h.nest(20)", "_h.nest(100)", "_h.nest(400)", "_h.nest(60, typing.Optional.__class_getitem__) if False else 1", "'list[' * 300 + 'int' + ']' * 300", "'list[' * 1000 + 'int' + ']' * 1000", "'[' * 3000", "'(' * 3000", "'a.' * 3000 + 'b'", "'|'.join(['int'] * 3000)", "'int,' * 3000", "']' * 100", "'Optional[' * 100", "'Union[int, ' * 500 + 'str' + ']' * 500", "'dict[str, ' * 100 + 'int' + ']' * 100", "'tuple[' + 'int, ' * 500 + 'str]'"]
TOKENS = ["int", "A", "list", "Optional", "Union", "dict", "Callable", "Literal", "[", "]", ",", "|", ".", "::", "...", "'", " ", "(", ")", "<", ">", "nosuch", "Self", "-", "\n", "None", "\"", "typing.", "'A'", "\\", "&", "!", "#", "tuple", "Annotated", "é", "0", "$", "{", "r#", "super", ":"]
DOCTOKENS = ["/", "é", " ", "\n", "*", "`", "\\", "#", "\"", "\t", "x", "```", "😀", "\r", "\0", ">>> ", "    ", "~~~"]
DEFAULTS = ["_h.inst('p', '*', 'value')", "_h.BadStr()", "_h.NoneStr()", "_h.dunder('p', '__eq__', 'value')", "_h.dunder('p', '__bool__', 'value')", "_h.dunder('p', '__hash__', 'value')", "_h.dunder('p', '__eq__', 'list')", "_h.dunder('p', '__eq__', 'badstr')", "_h.klass('p', '*', 'value')", "_h.Tree()", "__import__('inspect').Parameter.empty", "...", "10**5000", "float('nan')", "'\\ud800'", "_h.module('p', '*', 'value')", "_h.meta_dunder('p', '__eq__', 'value')", "_h.dunder('p', '__getattr__', 'five')"]
MODVARS = ["__all__", "__doc__", "__path__", "__package__", "__file__", "__spec__", "__loader__", "__annotations__", "__builtins__", "__cached__", "__getattr__", "__dir__", "__dict__", "__class__", "__wrapped__", "__signature__", "__module__", "__version__", "__mro_entries__", "__name__", "__qualname__", "__origin__"]
MODVARS_KEY = ["__all__", "__path__", "__getattr__", "__dir__", "__name__", "__class__"]
MODVALS = ["None", "5", "''", "'p'", "[]", "[5]", "['nosuch']", "['']", "['a::b']", "['a b', 'A', 'A']", "'AKZ'", "b'x'", "{}", "{'A': 1}", "(i for i in ['A'])", "lambda *a: None", "lambda *a: 5", "lambda *a: ['nosuch', 5, '', 'a::b', 'A']", "lambda *a: 1 / 0", "lambda *a: _h.Tree()", "_h.BadStr()", "_h.NoneStr()", "_h.Tree()",
           "_h.inst('p', '*', 'value')", "_h.bad_dict('__iter__', {})", "_h.dunder('p', '__iter__', 'value')", "_h.dunder('p', '__getitem__', 'value')", "_h.dunder('p', '__len__', 'value')", "object", "type", "['/nonexistent']", "['\\0']", "[b'/']", "['\\ud800']", "'\\ud800'", "'a::b'", "'..x'", "'no.such.module'", "property(lambda s: 1 / 0)", "10**5000"]
DELETE = ["__doc__", "__file__", "__spec__", "__loader__", "__package__", "__builtins__", "__cached__", "__path__", "__name__"]
SUBFILES = {
    "raise": ["raise %s('x')" % e for e in ("ImportError", "ValueError", "SystemExit", "KeyboardInterrupt", "RecursionError", "StopIteration", "MemoryError", "GeneratorExit", "NotImplementedError", "DeprecationWarning", "BaseException", "AttributeError")] + ["raise _h.BadStr()" , "import nosuch_module", "from . import nosuch", "def f(:", "\tx\n  y", "x = '\\ud800", "# coding: nosuch\n", "def g(): return g()\ng()", "import sys; sys.exit(3)", "1 / 0"],
    "replace": ["import sys; sys.modules[__name__] = %s" % v for v in ("None", "5", "object()", "_h.BadStr()", "_h.Tree()", "_h.inst('p', '*', 'value')", "sys", "sys.modules['p']", "sys.modules['p'].sub", "_h.module('p', '*', 'value')", "_h.module('p', '__name__', 'value')", "_h.module('p', '__name__', 'five')", "_h.module('p', '__name__', 'empty')", "_h.module('p', '__name__', 'colons')", "_h.module('p', '__name__', 'p')", "_h.module('p', '__name__', 'psub')", "_h.module('p', '__path__', 'value')", "_h.module('p', '__dict__', 'value')", "_h.module('p', '__dict__', 'five')", "_h.module('p', '__all__', 'value')", "_h.module('p', '__doc__', 'value')", "_h.module('p', '__class__', 'value')", "type('X', (), {})", "type('X', (), {'__path__': []})()", "__import__('types').ModuleType('other')", "__import__('types').ModuleType('')", "__import__('types').ModuleType('a::b')", "__import__('types').ModuleType('p.hx.more')", "__import__('types').SimpleNamespace(__name__=__name__)")] + ["import sys; del sys.modules[__name__]", "import sys, os; sys.modules[__name__] = os.path", "import sys; sys.modules['p.hx2'] = sys.modules[__name__]"],
    "self": ["__class__ = 5", "import sys; sys.modules[__name__].__class__ = type('X', (type(sys),), {'__getattribute__': _h.ga(type(sys), '__dict__', 'value')})", "import sys; sys.modules[__name__].__class__ = type('X', (type(sys),), {'__dir__': lambda s: 1 / 0})", "import sys; sys.modules[__name__].__class__ = type('X', (type(sys),), {'__getattr__': lambda s, n: 1 / 0})", "import sys; sys.modules[__name__].__class__ = type('X', (type(sys),), {'__name__': property(lambda s: 1 / 0)})",
             "import sys\nhx = sys.modules[__name__]", "import p\nhx = p", "import p.sub as hx", "def __getattr__(n): return _h.Tree()", "def __getattr__(n): return 5", "def __getattr__(n): raise ValueError(n)", "def __dir__(): raise ValueError()", "def __dir__(): return 5", "def __dir__(): return ['a', 'a', '', 'a::b', 5]", "__path__ = [__file__]", "globals()[5] = 5", "globals()[''] = 5", "globals()['\\ud800'] = 5", "globals()[None] = 5", "globals()[('a',)] = 5", "import threading; threading.Thread(target=lambda: 1 / 0).start()", "import warnings; warnings.warn('w')", "import sys; sys.setrecursionlimit(400)", "import os; os.chdir('/')"],
}
FILENAMES = ["hx-y", "class", "struct", "1x", "self", "Self", "super", "crate", "ünï", "a b", "async", "match", "type", "None", "r#x", "a::b", "x'y", "x\"y", "call", "__main__", "__init__x", "pyo3", "std", "core", "hx.so", "test", "T", "py", "ℌx", "e\u0301", "-", "$", "union", "dyn", "new", "sub_", "set_zvar"]
NAMES = ["class", "struct", "self", "Self", "super", "crate", "_", "1a", "a-b", "a b", "a.b", "a::b", "", " ", "\0", "\n", "é", "e\u0301", "ℌ", "\ud800", "'", "\"", "r#a", "#", "async", "union", "macro_rules", "call", "py", "pyo3", "std", "None", "Some", "bytes", "x" * 5000, "set_zvar", "A", "new", "__x", "<locals>", "a.b.c", ".", "..", "$", "{", "}", "//", "/*", "\\", "😀", "\u202e", "-", "::", "a::", "K::x", "f<T>", "fn", "KMethods", "AMethods", "Box", "\u200d", "a\u200d", "·a", "a·", "℘", "゛"]
NAMEVALS = {"func": "(lambda a: a)", "named": "_h.func(__name__, '__x__', 'none')", "class": "type('hx', (), {'__module__': __name__, 'm': lambda self: 1})", "named_class": "type({n}, (), {'__module__': __name__, 'm': lambda self: 1})", "int": "5", "prop": "property(lambda s: 1, lambda s, v: None)", "typevar": "typing.List[int]", "module": "__import__('types').ModuleType('m')", "module2": "__import__('types').ModuleType({n})", "import": "__import__('json').dumps", "static": "staticmethod(len)"}


PLAIN = {"A", "before", "K", "after", "Z", "zvar", "avar", "f", "set_zvar", "new", "AMethods", "KMethods", "call", "SubC", "sub"}


# growth in one dimension: generation has to end, and in time
SCALE = {
    "list": "hx = lambda a: 0\nhx.__annotations__ = {'a': 'list[' * {d} + 'int' + ']' * {d}, 'return': 'list[' * {d} + 'int' + ']' * {d}}",
    "dict": "def hx(a: 'dict[str, ' * {d} + 'int' + ']' * {d}): pass",
    "dictkey": "def hx(a: 'dict[' * {d} + 'int' + ', str]' * {d}): pass",
    "opt": "def hx(a: 'Optional[' * {d} + 'int' + ']' * {d}): pass",
    "union": "def hx(a: 'Union[None, ' * {d} + 'int' + ']' * {d}): pass",
    "cbl": "def hx(a: 'Callable[[' * {d} + 'int' + '], int]' * {d}): pass",
    "cblret": "def hx(a: 'Callable[[int], ' * {d} + 'int' + ']' * {d}): pass",
    "tup": "def hx(a: 'tuple[' * {d} + 'int' + ', ...]' * {d}): pass",
    "tup2": "def hx(a: 'tuple[int, ' * {d} + 'int' + ']' * {d}): pass",
    "lit": "def hx(a: 'Literal[' * {d} + '1' + ']' * {d}): pass",
    "annd": "def hx(a: 'Annotated[' * {d} + 'int' + ', 1]' * {d}): pass",
    "paren": "def hx(a: '(' * {d} + 'int' + ')' * {d}): pass",
    "open": "def hx(a: '[' * {d}): pass",
    "close": "def hx(a: ']' * {d}): pass",
    "openname": "def hx(a: 'list[' * {d}): pass",
    "quotes": "def hx(a: chr(39) * {d} + 'int' + chr(39) * {d}): pass",
    "backs": 'def hx(a: chr(92) * {d}): pass',
    "pipes": "def hx(a: ' | '.join(['int'] * {d})): pass",
    "pipes2": "def hx(a: ' | '.join('list[int | T%d]' % i for i in range({d}))): pass",
    "wide": "def hx(a: 'Union[' + 'int, ' * {d} + 'str]'): pass",
    "widet": "def hx(a: 'tuple[' + 'int, ' * {d} + 'str]'): pass",
    "dots": "def hx(a: 'a.' * {d} + 'b'): pass",
    "longname": "def hx(a: 'A' * {d} * 10): pass",
    "real": '_t = int\nfor _i in range({d}): _t = list[_t]\ndef hx(a: _t) -> _t: pass',
    "realu": 'import typing as _ty\n_t = int\nfor _i in range({d}): _t = _ty.Union[list[_t], None]\ndef hx(a: _t) -> _t: pass',
    "bases": "class hx:\n    def m(self): pass\nfor _i in range({d}): hx = type('hx', (hx,), {'__module__': __name__, 'm%d' % _i: lambda self: 0})",
    "many": "for _i in range({d}): locals()['hx_v%d' % _i] = _i",
    "manyf": "for _i in range({d}): exec('def hx_f%d(a: int) -> str: pass' % _i)",
    "manyc": "for _i in range({d}): exec('class hx_c%d:\\n    def m(self): pass' % _i)",
    "members": "hx = type('hx', (), dict({'__module__': __name__}, **{'m%d' % i: (lambda self: 0) for i in range({d})}))",
    "overl": "for _i in range({d}): exec('def hx%s(): pass' % ('_' * _i))",
    "params": "exec('def hx(' + ', '.join('a%d: int = 0' % i for i in range({d})) + '): pass')",
    "kwparams": "exec('def hx(*, ' + ', '.join('a%d: int = 0' % i for i in range({d})) + '): pass')",
    "longid": "exec('def hx%s(): pass' % ('x' * {d} * 5))",
    "ticks": "def hx(): pass\nhx.__doc__ = '`' * {d} + chr(10) + 'x' + chr(10) + '`' * {d}",
    "fences": "def hx(): pass\nhx.__doc__ = ('```' + chr(10) + 'x' + chr(10)) * {d}",
    "indent": "def hx(): pass\nhx.__doc__ = chr(10).join(' ' * i + 'x' for i in range({d}))",
    "slashes": "def hx(): pass\nhx.__doc__ = 'x' + '/' * {d}",
    "quotesdoc": "def hx(): pass\nhx.__doc__ = '> ' * {d} + 'x'",
    "listdoc": "def hx(): pass\nhx.__doc__ = '- ' * {d} + 'x'",
    "spaces": "def hx(): pass\nhx.__doc__ = 'x' + ' ' * {d} * 10 + 'y' + chr(10) * {d} + 'z'",
    "wraps": 'import functools as _ft\ndef hx(a): pass\nfor _i in range({d}): hx = _ft.wraps(hx)(lambda *a: 0)',
    "partial": 'import functools as _ft\ndef hx(*a): pass\nfor _i in range({d}): hx = _ft.partial(hx, 1)',
    "defaults": '_v = []\nfor _i in range({d}): _v = [_v]\ndef hx(a=_v): pass',
    "cyclic": '_v = []\n_v.append(_v)\ndef hx(a=_v, b=[_v] * {d}): pass',
    "meta": "_m = type\nfor _i in range({d} // 10): _m = type(_m)('hxm', (_m,), {'__module__': __name__})\nhx = _m('hx', (), {'__module__': __name__})",
}


class C02(Check):
    ID = "C02"
    LEVEL = "fault_enumeration"
    TECHNIQUE = "exhaustive enumeration of misbehaving members (kind of object x inspected attribute x behaviour x place, nth inspection, names, annotation texts up to a bound, submodules) in a package, on the real engine"
    NOTE = "One misbehaving member at a time (pairs of faults are not combined); annotation texts of up to 3 tokens over 42 tokens."
    ASSUMPTIONS = ["the module itself can be imported", "a member may lose its own binding, but nothing else", "docstrings aside, Python refusing to create a member means that there is none"]
    RULE = "one case = one package with one misbehaving member, or one chunk of annotation texts"

    def space(self):
        sp = Space()

        def add(cid, **kw):
            sp.states += 1
            sp.transitions += 1
            sp.add(Case(cid, **kw))
        kinds = ["klass", "inst", "callable", "partial", "prop", "cmeth", "smeth", "module", "signed", "param", "func", "plain_class"]
        for kind, tgt in itertools.product(kinds, TARGETS):
            full = core.THOROUGH or tgt in STRUCTURED
            for beh in (BEH_ALL if full else BEH_KEY[:6]):
                for place in ("mod", "cls", "deep") if full else ("mod", "cls"):
                    if place == "deep" and kind not in ("klass", "func", "plain_class", "module", "callable") and not core.THOROUGH:
                        continue
                    add("obj/%s/%s/%s/%s" % (kind, tgt, beh, place), code="hx = _h.make(__name__, %r, %r, %r)" % (kind, tgt, beh), place=place)
        for kind, d in itertools.product(["dunder", "meta_dunder", "dictlike", "listlike", "strlike", "intlike"], DUNDERS):
            for beh in BEH_KEY:
                for place in ("mod", "cls"):
                    add("dunder/%s/%s/%s/%s" % (kind, d, beh, place), code="hx = _h.make(__name__, %r, %r, %r)" % (kind, d, beh), place=place)
        for beh in BEH_ALL:
            add("descr/%s" % beh, code="hx = _h.make(__name__, 'descriptor', '', %r)" % beh, place="cls")
        for i, a in enumerate(dict.fromkeys(ANN)):
            for w in ("all", "param", "ret", "var"):
                for place in ("mod", "cls") if w == "all" or core.THOROUGH else ("mod",):
                    add("ann/%s/%s/%s" % (a, w, place), code="hx = _h.annotated(__name__, %s, %r)" % (a, w), place=place)
            add("ann/%s/variable" % a, code="hx = 5\n__annotations__['hx'] = %s" % a, place="mod")
            add("ann/%s/attribute" % a, code="hx = 5\n__annotations__['hx'] = %s" % a, place="cls")
            add("ann/%s/getter" % a, code="def _hx(self): pass\n_hx.__annotations__['return'] = %s\nhx = property(_hx, _h.annotated(__name__, %s, 'param'))" % (a, a), place="cls")
            add("ann/%s/init" % a, code="class hx:\n    def __init__(self, a): pass\n    __init__.__annotations__['a'] = %s\n    def __call__(self, a): pass\n    __call__.__annotations__['return'] = %s" % (a, a), place="mod")
            add("ann/%s/typevar" % a, code="import typing as _t, types as _ty\nhx = _ty.GenericAlias(list, (%s,))" % a, place="mod")
            add("ann/%s/base" % a, code="try:\n    hx = type('hx', (%s,), {'__module__': __name__})\nexcept Exception: pass" % a, place="mod")
        for d in DEFAULTS:
            for place in ("mod", "cls"):
                add("default/%s/%s" % (d, place), code="hx = _h.default(__name__, %s)" % d, place=place)
        for n, (k, v) in itertools.product(NAMES, NAMEVALS.items()):
            for place in ("mod", "cls", "deep"):
                if place == "cls":
                    code = "locals()[%r] = %s" % (n, v.replace("{n}", repr(n.replace("\0", ""))))
                else:
                    code = "try:\n    globals()[%r] = %s\nexcept (ValueError, UnicodeError): pass" % (n, v.replace("{n}", repr(n)))
                if place == "cls" and "\0" not in n and "{n}" in v and "\ud800" in n:
                    continue
                add("name/%s/%s/%s" % (json.dumps(n[:40]), k, place), code=code, place=place, own=n)
        for n, k in itertools.product(NAMES, ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "KEYWORD_ONLY", "VAR_POSITIONAL", "VAR_KEYWORD")):
            for place in ("mod", "cls"):
                add("param/%s/%s/%s" % (json.dumps(n[:40]), k, place), code="hx = _h.badparam(__name__, %r, %r)" % (n, k), place=place)
        for v, x in itertools.product(MODVARS, MODVALS):
            for f in ("root", "sub", "deep", "single", "pkg") if core.THOROUGH or v in MODVARS_KEY else ("root", "sub"):
                add("modvar/%s/%s/%s" % (v, x, f), code="try:\n    %s = %s\nexcept Exception: pass" % (v, x), place="end:" + f, strict=v not in ("__all__", "__path__", "__dir__", "__annotations__", "__name__") if f != "hx" else True, var=v)
        for v in DELETE:
            for f in ("root", "sub", "deep", "single", "pkg"):
                add("delete/%s/%s" % (v, f), code="globals().pop(%r, None)" % v, place="end:" + f, strict=v not in ("__path__", "__name__"), var=v)
        for fam, l in SUBFILES.items():
            for s in l:
                for form in ("hx.py", "hx/__init__.py", "q/hx.py"):
                    add("sub/%s/%s" % (s, form), code="import mc_hostile as _h\nclass H: ...\ndef h(): ...\n" + s, place="file:" + form)
        for n in FILENAMES:
            for form in ("%s.py", "%s/__init__.py", "q/%s.py"):
                add("file/%s" % (form % n), code="class H: ...\ndef h(a: H) -> H: ...\nv = 1", place="file:" + form % n, own=n)
        for data in ("\x00", "\xff\xfe", "\\x80bad"):
            add("file/bytes/%r" % data, code=data, place="file:hx.py")
        for code in self.cycles():
            for place in ("mod", "deep"):
                add("cycle/%s/%s" % (code, place), code=code, place=place)
        for (n, code), d in itertools.product(SCALE.items(), (30, 200, 1000) if core.THOROUGH else (30, 200)):
            for place in ("mod", "cls"):
                add("scale/%s/%d/%s" % (n, d, place), code=code.replace("{d}", str(d)), place=place)
        for kind, e in itertools.product(("klass", "inst", "callable", "partial", "prop", "module", "signed", "param"), ("value", "attr")):
            for k in range(1, 40 if core.THOROUGH else 25):
                add("nth/%s/%s/%d" % (kind, e, k), code="hx = _h.make(__name__, %r, _h.Nth(%d), %r)" % (kind, k, e), place="mod")
        depth = 4 if core.THOROUGH else 3
        for pre in [()] + [(t,) for t in TOKENS] + ([p for p in itertools.product(TOKENS, repeat=2)] if core.THOROUGH else []):
            n = depth - 1 if core.THOROUGH else depth
            d = 0 if not pre else (n - len(pre) + 1 if core.THOROUGH and len(pre) == 2 else (2 if not core.THOROUGH else 0))
            sp.states += sum(len(TOKENS) ** i for i in range(d + 1))
            sp.transitions += sum(len(TOKENS) ** i for i in range(d + 1))
            sp.add(Case("text/%s" % json.dumps(list(pre)), pre=list(pre), depth=d, place="text"))
        # documentation texts
        for pre in [()] + [(t,) for t in DOCTOKENS]:
            d = 0 if not pre else (3 if core.THOROUGH else 2)
            sp.states += sum(len(DOCTOKENS) ** i for i in range(d + 1))
            sp.transitions += sum(len(DOCTOKENS) ** i for i in range(d + 1))
            sp.add(Case("doctext/%s" % json.dumps(list(pre)), pre=list(pre), depth=d, place="doctext"))
        return sp

    def cycles(self):
        return ["class hx: pass\nhx.me = hx\nhx.inner = hx", "import sys as _s\nhx = _s.modules[__name__]", "def hx(): pass\nhx.__wrapped__ = hx", "def hx(): pass\ndef _g(): pass\nhx.__wrapped__ = _g\n_g.__wrapped__ = hx", "import typing as _t\nhx = _t.List['hx']", "type hx = list[hx]", "type hx = nosuch[hx]", "type hx[**P] = 1 / 0",
                "hx = []\nhx.append(hx)", "hx = {}\nhx['a'] = hx", "import functools as _f\nhx = _f.partial(len)\nhx.__dict__['func2'] = hx", "import functools as _f\nhx = lambda: 1\nfor _i in range(300):\n    hx = _f.partial(hx)", "import functools as _f\nhx = lambda: 1\nhx.__name__ = 'hx'\nfor _i in range(2000):\n    def _w(): pass\n    _w.__wrapped__ = hx\n    _w.__name__ = 'hx'\n    hx = _w",
                "class hx: pass\nfor _i in range(300):\n    hx = type('hx', (hx,), {'__module__': __name__})", "class hx: pass\nfor _i in range(300):\n    setattr(hx, 'm%d' % _i, lambda self: 1)", "def hx(a): pass\nhx.__signature__ = hx", "class _M(type): pass\nhx = _M('hx', (_M,), {'__module__': __name__})", "import enum as _e\nclass hx(_e.Enum):\n    a = 1\n    b = a", "import enum as _e\nclass hx(_e.Flag):\n    A = 1\n    B = 2",
                "exec('def hx(' + ', '.join('a%d' % i for i in range(300)) + '): pass')", "exec('def hx(' + ', '.join('a%d=None' % i for i in range(3000)) + '): pass')", "import typing as _t\nclass hx(_t.Generic[_t.TypeVar('X', bound='hx')]): pass", "import typing as _t\nclass hx(_t.Protocol):\n    x: 'hx'", "import typing as _t\nclass hx(_t.TypedDict):\n    x: 'hx'", "import typing as _t\nclass hx(_t.NamedTuple):\n    x: 'hx'\n    count: int = 1",
                "import dataclasses as _d\n@_d.dataclass\nclass hx:\n    x: 'hx'\n    y: list = _d.field(default_factory=list)", "import abc as _a\nclass hx(_a.ABC):\n    @_a.abstractmethod\n    def m(self): ...\n    @property\n    @_a.abstractmethod\n    def p(self): ...", "class hx:\n    __slots__ = ('a', 'b')", "class hx:\n    def __getattr__(self, n): return hx()\nhy = hx()", "class hx(int): pass", "class hx(Exception): pass", "class hx(dict): pass", "class hx(type): pass", "class hx(typing.Any): pass" if False else "import typing as _t\nclass hx(_t.Any): pass", "import ctypes as _c\nclass hx(_c.Structure):\n    _fields_ = [('a', _c.c_int)]", "import ctypes as _c\nhx = _c.CFUNCTYPE(_c.c_int)(lambda: 1)",
                "import types as _t\nhx = _t.ModuleType('hx')\nhx.hx = hx", "import types as _t\nhx = _t.ModuleType('p.sub')", "import types as _t\nhx = _t.ModuleType('p')", "import types as _t\nhx = _t.ModuleType(__name__ + '.hx')", "import types as _t, sys as _s\nhx = _s.modules[__name__ + '.hx'] = _t.ModuleType(__name__ + '.hx')\nhx.__path__ = []\nhx.hx = hx", "import unittest.mock as _m\nhx = _m.MagicMock()", "import unittest.mock as _m\nhx = _m.Mock(spec=int)", "import unittest.mock as _m\nclass hx(_m.MagicMock): pass", "import operator as _o\nhx = _o.itemgetter(1)", "import weakref as _w\nhx = _w.proxy(type('X', (), {})())", "import weakref as _w\n_o = type('X', (), {})()\nhx = _w.proxy(_o)", "hx = (i for i in [])", "async def hx(): yield 1", "hx = memoryview(b'x')", "hx = __builtins__", "hx = __import__('builtins').__dict__", "import sys as _s\nhx = _s._getframe()", "hx = type.__dict__['__doc__']", "hx = type('a').__call__", "hx = [].append", "hx = 'x'.join", "hx = int.from_bytes", "hx = dict.fromkeys", "hx = object.__new__", "hx = (1).__add__", "import functools as _f\n@_f.singledispatch\ndef hx(a): pass", "import functools as _f\n@_f.lru_cache\ndef hx(a): pass", "import functools as _f\nclass hx:\n    @_f.cached_property\n    def cp(self): ...\n    @_f.singledispatchmethod\n    def sd(self, a): ...\n    pm = _f.partialmethod(len)", "import contextlib as _c\n@_c.contextmanager\ndef hx(): yield", "import typing as _t\n@_t.overload\ndef hx(a: int): ...\n@_t.overload\ndef hx(a: str): ...\ndef hx(a): ...", "class hx[T]:\n    def m(self, a: T) -> T: ...", "def hx[T: (int, str), *Ts, **P](a: T, *b: *Ts) -> T: ...", "import enum as _e\nhx = _e.IntEnum('hx', 'a b')", "import collections as _c\nhx = _c.namedtuple('hx', 'a b def', rename=True)", "import collections as _c\nhx = _c.namedtuple('hx', ['count', 'index'])", "import collections as _c\nhx = _c.ChainMap()", "hx = None", "hx = ...", "hx = NotImplemented", "hx = object()", "hx = object", "hx = type", "hx = print", "hx = Exception", "del before" if False else "hx = __debug__"]

    # ------------------------------------------------------------ programs

    def base_files(self, mod="", cls="", deep="", end=None):
        end = end or {}
        ind = lambda s, n: "\n".join(" " * n + l if l else l for l in s.split("\n"))
        d = {"mod": "", "cls": "", "end": ""}
        return {"p/__init__.py": ROOT % dict(d, mod=mod, cls=ind(cls, 4), end=end.get("root", "")), "p/sub.py": SUB % dict(d, end=end.get("sub", "")), "p/q/__init__.py": '"""Doc of q."""\nqvar = 1\n' + end.get("pkg", ""), "p/q/r.py": DEEP % dict(d, mod=deep, end=end.get("deep", ""))}

    def witness(self, i, place):
        return "def w%d(%sa: %s) -> %s: ..." % ((i,) + {"mod": ("", "A", "A"), "cls": ("self, ", "A", "'K'"), "deep": ("", "R", "R")}[place])

    def program(self, cs):
        c = cs[0]
        if len(cs) > 1:
            code = "\n".join(re.sub(r"\bhx\b", "hx%d" % i, x.code) + "\n" + self.witness(i, c.place) for i, x in enumerate(cs))
            return self.base_files(**{c.place: code})
        if c.place == "text":
            files = self.base_files()
            files["p/__init__.py"] += "for _i, _t in enumerate(%r):\n    exec('def hx%%d(a: _t, *b, c: _t) -> _t: pass' %% _i)\n" % (self.texts(c),)
        elif c.place == "doctext":
            files = self.base_files()
            files["p/__init__.py"] += ("class hx: pass\nfor _i, _t in enumerate(%r):\n    exec('def hx%%d(): pass' %% _i)\n    globals()['hx%%d' %% _i].__doc__ = _t\n"
                                       "    _t2 = lambda self: 1\n    _t2.__doc__ = _t\n    setattr(hx, 'hp%%d' %% _i, property(_t2))\n    setattr(hx, 'hm%%d' %% _i, _t2)\n" % (self.texts(c, DOCTOKENS),))
        elif c.place in ("mod", "cls", "deep"):
            files = self.base_files(**{c.place: c.code})
        elif c.place == "end:single":
            return {"p.py": SINGLE % {"mod": "", "end": c.code}}
        elif c.place.startswith("end:"):
            files = self.base_files(end={c.place[4:]: c.code})
        else:
            files = self.base_files()
            files["p/" + c.place[5:]] = c.code
        return files

    def texts(self, c, tokens=TOKENS):
        return ["".join(tuple(c.pre) + t) for k in range(c.depth + 1) for t in itertools.product(tokens, repeat=k)]

    PACKED = ("obj", "dunder", "descr", "ann", "default", "name", "param", "nth")

    def judge(self, b, cases):
        """Cases are run together, each followed by an ordinary member; what fails together is run again one by one."""
        byid = {c.id: c for c in cases}
        groups, units = {}, {}
        for c in cases:
            fam = c.id.split("/")[0]
            if fam in self.PACKED and len(cases) > 100 and c.data.get("own") not in PLAIN:
                groups.setdefault((fam, c.place, c.id.split("/")[-2] if fam == "name" else ""), []).append(c)
            else:
                units[c.id] = [c]
        for k, l in groups.items():
            for n, ch in enumerate(l[i:i + 16] for i in range(0, len(l), 16)):
                units["%s/%s/%s#%d" % (k + (n,))] = ch
        for c in cases:
            if "together" in c.data:
                units[c.id] = c.data["together"]
        bad = self.units(b, units)
        single = {c.id: [c] for u in bad for c in units[u] if len(units[u]) > 1 and u not in byid}
        alone = self.units(b, single) if single else {}
        out = dict(alone)
        for u, v in bad.items():
            if u in byid:
                out[u] = v
            elif not any(c.id in alone for c in units[u]):
                units[u][0].data["together"] = units[u]
                out[units[u][0].id] = v
        if len(cases) > 100:
            self.info.update(evaluations=len(cases) + sum(len(self.texts(c, TOKENS if c.place == "text" else DOCTOKENS)) for c in cases if c.place in ("text", "doctext")), traces_validated_against_impl=len(cases))
        return out

    def units(self, b, units):
        gen, bases = self.run(b, units)
        bad = {}
        for u, cs in units.items():
            g, c = gen[u], cs[0]
            base = bases["single" if c.place == "end:single" else c.place if len(cs) > 1 else "pkg"]
            v = []
            if g["vacuous"]:
                self.info["not_importable"] = self.info.get("not_importable", 0) + 1
                continue
            if not g["ok"]:
                why = prog.why(g)
                self.outcome(why)
                if why[0] == "err" and c.id.startswith(("modvar/__name__", "delete/__name__")) and c.place in ("end:root", "end:single"):
                    continue  # such a module has no name to generate bindings for
                v.append(why)
            else:
                missing = self.missing(base, g["ast"], c, {x.data.get("own", "hx%d" % i) for i, x in enumerate(cs)}, len(cs))
                if missing:
                    v.append(("lost", "%s" % missing[:4]))
                self.outcome(hash(json.dumps(g["ast"])))
            if v:
                bad[u] = v
        return bad

    def run(self, b, units):
        # every case has a directory of its own, every worker imports under the name p, so each job purges what it imported
        root = prog.newdir("c02")
        jobs = []
        progs = {u: self.program(cs) for u, cs in units.items()}
        progs[":pkg"] = self.base_files()
        for pl in ("mod", "cls", "deep"):
            progs[":" + pl] = self.base_files(**{pl: "\n".join(self.witness(i, pl) for i in range(16))})
        progs[":single"] = {"p.py": SINGLE % {"mod": "", "end": ""}}
        for i, (cid, files) in enumerate(progs.items()):
            d = "%s/%d" % (root, i)
            enc = {}
            for f, s in files.items():
                enc[f] = s
            write(d, enc)
            jobs.append({"id": cid, "ops": [
                {"op": "py", "code": PURGE % {"dir": d, "check": ["p", "p.sub", "p.q", "p.q.r"] if "p/sub.py" in files else ["p"]}},
                {"op": "new"}, {"op": "module_name", "name": "p"}, {"op": "generate"}]})
        res = core.run_jobs(b, jobs, sys_path=[core.HPY], timeout=40)
        out = {}
        for cid in progs:
            r = res[cid]
            rep = r.get("res") or [r]
            last = rep[-1]
            ok = bool(last.get("ok")) and "ast" in last and all("ok" in x for x in rep)
            if "pyerr" in rep[0]:
                raise core.CheckError("setup failed: %r" % rep[0])
            out[cid] = {"ok": ok, "ast": last.get("ast"), "report": rep[1:] or rep, "vacuous": rep[0].get("out") == "0"}
        for k in (":pkg", ":single", ":mod", ":cls", ":deep"):
            if not out[k]["ok"]:
                raise core.CheckError("the base program fails: %r" % out[k]["report"])
        return out, {k[1:]: out[k]["ast"] for k in (":pkg", ":single", ":mod", ":cls", ":deep")}

    def missing(self, base, got, c, owns, n):
        var = c.data.get("var", "")
        if n == 1:
            owns = {c.data.get("own", "hx")}
        owns |= {"set_" + o for o in owns}
        if var == "__module__":  # of the module, which might look like a part of another one
            owns |= {"sub": {"sub", "SubC"}, "pkg": {"q"}, "deep": {"r"}}.get(c.place[4:], set())
        out = []

        def key(i):
            return (i["kind"], prog.norm(str(i.get("name") or "")), re.sub(r"Methods\d+$", "Methods", prog.norm(str(i.get("trait") or ""))), prog.norm(str(i.get("self") or "")))

        def sub(a, b, path):
            have = {}
            for i in b:
                have.setdefault(key(i), []).append(i)
            for i in a:
                nm = prog.unraw(str(i.get("name") or ""))
                if nm in owns or (n > 1 and n < 16 and re.match(r"w\d+$", nm) and int(nm[1:]) >= n):  # the member that takes its place
                    continue
                if var in ("__all__",) and nm.startswith("call"):
                    continue
                cand = have.get(key(i), [])
                if i["kind"] == "use":
                    need = [p for p in i["paths"] if p["as"] not in owns]
                    cand = [x for x in cand if all(p in x["paths"] for p in need)] or ([1] if any(p["as"] in owns or p["path"][-1] in owns for p in i["paths"]) else [])
                    if not cand:
                        out.append("%s: no use of %s" % (path, i["paths"]))
                    continue
                if not cand:
                    if any(o and o in str(i.get("self")) for o in owns if n == 1):
                        continue
                    out.append("%s: no %s %s" % (path, i["kind"], i.get("name") or i.get("self")))
                    continue
                if i["kind"] not in ("mod", "struct", "fn", "trait", "impl", "type"):
                    if i not in cand:
                        out.append("%s: no such %s" % (path, i["kind"]))
                    continue
                o = cand[0]
                for f in i:
                    if f == "trait":
                        continue
                    if f in ("items", "fns"):
                        if i[f] is not None:
                            sub(i[f], o[f] or [], path + "::" + (nm or str(i.get("self"))))
                    elif i[f] != o.get(f) and not (f == "doc" and i["kind"] == "mod" and var):
                        out.append("%s::%s: %s is %r instead of %r" % (path, nm, f, o.get(f), i[f]))
        sub(base, got, "")
        if c.id.startswith(("modvar", "delete")) and var in ("__path__", "__dir__", "__name__", "__getattr__", "__class__", "__annotations__", "__package__", "__dict__") and not c.data.get("strict", True):
            return [] if var != "__annotations__" else [o for o in out if "zvar" not in o and "avar" not in o and "svar" not in o]
        return out


def write(d, files):
    import os
    for f, s in files.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as h:
            h.write(s.encode("utf-8", "surrogatepass") if s != "\xff\xfe" else b"\xff\xfe")


PURGE = '''
import sys, importlib, os, warnings
sys.path[:] = [x for x in sys.path if not getattr(sys, "_mc_dir", None) or x != sys._mc_dir]
sys._mc_dir = %(dir)r
sys.path.insert(0, sys._mc_dir)
for k in [k for k in sys.modules if k == "p" or (isinstance(k, str) and k.startswith("p."))]:
    del sys.modules[k]
importlib.invalidate_caches()
sys.path_importer_cache.clear()
os.chdir("/")
sys.setrecursionlimit(1000)
warnings.simplefilter("ignore")
out = "1"
for m in %(check)r:  # what Python cannot import is not a module
    try:
        importlib.import_module(m)
    except BaseException:
        out = "0"
for k in [k for k in sys.modules if k == "p" or (isinstance(k, str) and k.startswith("p."))]:
    del sys.modules[k]
'''
CHECK = C02
