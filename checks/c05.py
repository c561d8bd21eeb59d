"""C05: typed values cross the boundary unchanged.

Space: every annotation reachable from the base annotations by applying up to two type constructors, in every spelling
(runtime generics, typing generics, string annotations). Each annotation's bindings are compiled and called with every sample
value as positional and keyword-only argument and as result. Oracle: Python's own view of the same values."""
import itertools, re, sys, types
from harness import core, prog
from harness.ctx import Check, Case, Space
sys.path.insert(0, core.HPY)
import mc_rt

HEAD = '''import typing, typing as T, collections, collections.abc, datetime, pathlib, ipaddress, enum, decimal, fractions, types, functools, os, re, sys, dataclasses
from typing import *
from collections.abc import Sequence, Iterable, Iterator, Mapping
'''
# definitions a case includes if it names them
DEFS = {
    "K": "class K:\n    def __init__(self, n=0): self.n = n\n", "KL": "class KL(list): pass\n", "KD": "class KD(dict): pass\n",
    "KI": "class KI(int): pass\n", "KS": "class KS(str): pass\n", "KF": "class KF(float): pass\n", "KB": "class KB(bytes): pass\n",
    "KDate": "class KDate(datetime.date): pass\n", "_Hidden": "class _Hidden:\n    n = 1\n", "Col": "class Col(enum.Enum):\n    A = 1\n    B = 'b'\n",
    "ICol": "class ICol(enum.IntEnum):\n    A = 1\n    B = 2\n", "SCol": "class SCol(str, enum.Enum):\n    A = 'a'\n", "TD": "class TD(TypedDict):\n    a: int\n",
    "NT": "class NT(NamedTuple):\n    a: int\n    b: str\n", "Pr": "class Pr(Protocol):\n    def p(self): ...\n", "HasP": "class HasP:\n    def p(self): pass\n",
    "Gen": "class Gen(Generic[TypeVar('_G')]):\n    pass\n", "Dc": "@dataclasses.dataclass(frozen=True)\nclass Dc:\n    a: int = 1\n", "UserId": "UserId = NewType('UserId', int)\n",
    "_Tv": "_Tv = TypeVar('_Tv')\n", "_Ps": "_Ps = ParamSpec('_Ps')\n", "_Ts": "_Ts = TypeVarTuple('_Ts')\n", "Alias": "type Alias = int\n"}
OWN = ["code", "frame", "function", "capsule", "cfunction", "module", "traceback", "timedelta", "NoneType", "Path", "PathLike", "IPv4Address", "Optional2", "ellipsis", "OsString", "Vec", "Option", "PyAny", "Result", "i64", "String"]


def head(text):
    words = set(re.findall(r"\w+", text))
    own = [n for n in OWN if re.search(r"(?<![.\w'])%s(?![\w'])" % n, text)]
    return HEAD + "".join(v for k, v in DEFS.items() if k in words) + "".join("class %s:\n    n = 1\n" % n for n in own)


class B:
    """A base annotation: text evaluated at runtime, sample values, values only returned, other spellings, hashable."""

    def __init__(self, text, vals, ret=(), alt=(), strict=True):
        self.text, self.vals, self.ret, self.alt = text, list(vals), list(ret), list(alt)


BASES = {
    "bool": B("bool", ["True", "False"], alt=["'bool'"]),
    "int": B("int", ["5", "-2**63", "2**63-1", "0"], ["True", "KI(7)", "ICol.B"], ["'int'"]),
    "float": B("float", ["1.5", "float('inf')", "-0.0", "1e-320"], ["3", "KF(2.5)"], ["'float'"]),
    "str": B("str", ["'a'", "''", "'\\x00é漢\\U0001F600'"], ["KS('k')", "SCol.A"], ["'str'"]),
    "bytes": B("bytes", ["b'x'", "b''", "b'\\x00\\xff'"], ["KB(b'k')"], ["'bytes'"]),
    "bytearray": B("bytearray", ["bytearray(b'x')", "bytearray()"], alt=["'bytearray'"]),
    "None": B("None", ["None"], alt=["type(None)", "'None'"]),
    "Any": B("Any", ["5", "'s'", "None", "[1]", "K(3)", "(1,)", "b'x'"], alt=["'Any'", "'typing.Any'", "object", "'object'"]),
    "list": B("list", ["[1, 'a']", "[]"], ["KL([1])"], ["'list'", "List"]),
    "dict": B("dict", ["{'a': 1, 2: None}", "{}"], ["KD(a=1)", "collections.OrderedDict(b=2)"], ["'dict'", "Dict"]),
    "set": B("set", ["{1, 'a'}", "set()"], alt=["'set'", "Set"]),
    "frozenset": B("frozenset", ["frozenset({1, 'a'})", "frozenset()"], alt=["'frozenset'", "FrozenSet"]),
    "tuple": B("tuple", ["(1, 'a')", "()", "(1,)", "(1, 2, 3)"], ["NT(1, 'x')"], ["'tuple'", "Tuple"]),
    "Path": B("pathlib.Path", ["pathlib.Path('/a b/é')", "pathlib.Path('.')"], alt=["'pathlib.Path'"]),
    "PathLike": B("os.PathLike", ["pathlib.Path('/a')"], alt=["'os.PathLike'"]),
    "IPv4": B("ipaddress.IPv4Address", ["ipaddress.ip_address('1.2.3.4')"], alt=["'ipaddress.IPv4Address'"]),
    "IPv6": B("ipaddress.IPv6Address", ["ipaddress.ip_address('::1')"], alt=["'ipaddress.IPv6Address'"]),
    "complex": B("complex", ["1+2j"], alt=["'complex'"]),
    "slice": B("slice", ["slice(1, 2, None)"], alt=["'slice'"]),
    "date": B("datetime.date", ["datetime.date(2020, 2, 29)"], ["datetime.datetime(2020, 1, 1)", "KDate(1, 1, 1)"], ["'datetime.date'"]),
    "datetime": B("datetime.datetime", ["datetime.datetime(2020, 2, 29, 1, 2, 3, 4)", "datetime.datetime(1, 1, 1, tzinfo=datetime.timezone.utc)"], alt=["'datetime.datetime'"]),
    "time": B("datetime.time", ["datetime.time(1, 2, 3, 4)"], alt=["'datetime.time'"]),
    "timedelta": B("datetime.timedelta", ["datetime.timedelta(-1, 5, 7)", "datetime.timedelta(0)"], alt=["'datetime.timedelta'", "'timedelta'"]),
    "tzinfo": B("datetime.tzinfo", ["datetime.timezone.utc"], alt=["'datetime.tzinfo'"]),
    "timezone": B("datetime.timezone", ["datetime.timezone.utc"], alt=["'datetime.timezone'"]),
    "type": B("type", ["int", "K"], alt=["'type'", "Type"]),
    "module": B("types.ModuleType", ["re", "datetime"], alt=["'types.ModuleType'"]),
    "function": B("types.FunctionType", ["re.compile"], ["(lambda: 1)"], ["'types.FunctionType'"]),
    "builtin": B("types.BuiltinFunctionType", ["len"], alt=["'types.BuiltinFunctionType'"]),
    "code": B("types.CodeType", ["re.compile.__code__"], alt=["'types.CodeType'"]),
    "Callable": B("Callable", ["len", "re.compile", "K", "str.upper", "functools.partial(len)", "'a'.upper"], alt=["collections.abc.Callable", "'Callable'", "'callable'"]),
    "Sequence": B("Sequence", ["[1, 'a']", "[]"], ["(1, 2)", "range(2)", "KL([1])"], ["'Sequence'", "typing.Sequence", "'typing.Sequence'"]),
    "Iterable": B("Iterable", ["[1, 'a']", "[]"], ["(1, 2)", "{1}", "range(2)", "{1: 2}", "'ab'"], ["'Iterable'", "typing.Iterable"]),
    "Iterator": B("Iterator", ["iter([])", "iter(())"], ["iter('a')"], ["'Iterator'", "typing.Iterator", "Generator", "AsyncIterator"]),
    "Mapping": B("Mapping", ["{'a': 1}", "{}"], ["types.MappingProxyType({1: 2})", "KD(a=1)"], ["'Mapping'", "typing.Mapping"]),
    "K": B("K", ["K(1)", "K(2)"], alt=["'K'"]),
    "KL": B("KL", ["KL([1])"]), "KD": B("KD", ["KD(a=1)"]), "KI": B("KI", ["KI(7)"]), "KS": B("KS", ["KS('a')"]), "KF": B("KF", ["KF(1.5)"]),
    "KB": B("KB", ["KB(b'a')"]), "KDate": B("KDate", ["KDate(1, 2, 3)"]), "Hidden": B("_Hidden", ["_Hidden()"]), "Col": B("Col", ["Col.A", "Col.B"]),
    "ICol": B("ICol", ["ICol.B"]), "SCol": B("SCol", ["SCol.A"]), "TD": B("TD", ["{'a': 1}"]), "NT": B("NT", ["NT(1, 'x')"]), "Pr": B("Pr", ["HasP()"]),
    "Gen": B("Gen", ["Gen()"], alt=["Gen[int]", "'Gen[int]'"]), "Dc": B("Dc", ["Dc(3)"]), "UserId": B("UserId", ["5", "KI(3)"], alt=["'UserId'"]),
    "TypeVar": B("_Tv", ["5", "'s'"], alt=["'_Tv'"]), "Alias": B("Alias", ["5", "2**70"], alt=["'Alias'"]),
    "Decimal": B("decimal.Decimal", ["decimal.Decimal('1.5')"], alt=["'decimal.Decimal'"]), "Fraction": B("fractions.Fraction", ["fractions.Fraction(1, 3)"]),
    "deque": B("collections.deque", ["collections.deque([1])"], alt=["'collections.deque'", "Deque", "Deque[int]", "'deque'"]),
    "OrderedDict": B("collections.OrderedDict", ["collections.OrderedDict(a=1)"], alt=["OrderedDict[str, int]", "'OrderedDict'"]),
    "defaultdict": B("collections.defaultdict", ["collections.defaultdict(int, a=1)"], alt=["DefaultDict[str, int]", "collections.defaultdict[str, int]"]),
    "Counter": B("collections.Counter", ["collections.Counter('ab')"], alt=["typing.Counter[str]", "collections.Counter[str]"]),
    "ChainMap": B("collections.ChainMap", ["collections.ChainMap({1: 2})"], alt=["ChainMap[str, int]"]),
    "range": B("range", ["range(1, 5)"]), "memoryview": B("memoryview", ["memoryview(b'a')"]), "exception": B("ValueError", ["ValueError(1)"]),
    "property": B("property", ["property()"]), "ellipsis": B("type(...)", ["..."], alt=["...", "'...'", "'Ellipsis'", "types.EllipsisType"]),
    "SimpleNamespace": B("types.SimpleNamespace", ["types.SimpleNamespace(a=1)"]), "Pattern": B("re.Pattern", ["re.compile('a')"], alt=["Pattern[str]", "re.Pattern[str]"]),
    "AbstractSet": B("collections.abc.Set", ["{1}", "frozenset()", "{1: 2}.keys()"], alt=["AbstractSet", "AbstractSet[int]", "collections.abc.Set[int]"]),
    "MutableSequence": B("collections.abc.MutableSequence", ["[1]", "collections.deque([1])"], alt=["MutableSequence[int]"]),
    "MutableMapping": B("collections.abc.MutableMapping", ["{'a': 1}", "collections.ChainMap({})"], alt=["MutableMapping[str, int]"]),
    "MutableSet": B("collections.abc.MutableSet", ["{1}"], alt=["MutableSet[int]"]), "Collection": B("collections.abc.Collection", ["[1]", "'ab'", "{1}"], alt=["Collection[int]"]),
    "Hashable": B("collections.abc.Hashable", ["5", "'a'", "(1,)"], alt=["Hashable"]), "Sized": B("collections.abc.Sized", ["[1]", "'a'"], alt=["Sized"]),
    "Buffer": B("collections.abc.Buffer", ["b'a'", "bytearray(b'b')", "memoryview(b'c')"]), "AnyStr": B("AnyStr", ["'a'", "b'a'"], alt=["'AnyStr'"]),
    "Literal": B("Literal[1, 'a']", ["1", "'a'"], alt=["Literal['int']", "Literal['a | None']", "Literal['x[', ']']", "'Literal[1]'", "Literal[None, 1]", "Literal['a,b', 'c']"]),
    "Never": B("Never", ["5"], alt=["NoReturn", "'NoReturn'"]), "Self": B("typing.Self", ["5", "K()"], alt=["'typing.Self'", "'Self'"]),
    "ClassVar": B("ClassVar[int]", ["5", "2**70"], alt=["'ClassVar[int]'"]), "Final": B("Final[int]", ["5"], alt=["Final"]), "Required": B("Required[int]", ["5"]),
    "LiteralString": B("LiteralString", ["'a'"]), "SupportsInt": B("SupportsInt", ["5", "1.5", "K()"]), "IO": B("IO[str]", ["5"], alt=["TextIO", "BinaryIO", "'IO[str]'"]),
    "Awaitable": B("Awaitable[int]", ["5"], alt=["Coroutine[int, int, int]", "AsyncGenerator[int, None]", "ContextManager[int]", "collections.abc.Awaitable[int]"]),
    "NewGen": B("Generator[int, str, None]", ["iter([])"], alt=["collections.abc.Generator[int, str, None]"]), "ForwardRef": B("ForwardRef('K')", ["K(1)", "5"]),
    "ParamSpec": B("Callable[_Ps, int]", ["len"], alt=["Callable[Concatenate[int, _Ps], int]", "Callable[..., int]", "Callable[[], None]", "collections.abc.Callable[[int, 'str'], list[int]]",
                                           "'Callable[[int, str], int]'", "'Callable[..., None]'", "'Callable[[Callable[[int], str]], dict[str, int]]'"]),
    "UnionT": B("Union[int, str]", ["5", "'s'"], alt=["int | str", "'int | str'", "'Union[int, str]'", "'typing.Union[int, str]'", "int | str | None", "Optional[Union[int, str]]",
                                                  "Union[int, str, None]", "'int|None|str'", "None | int | str", "'list[int] | dict[str, int] | int'"]),
    "odd": B("'1 + 1'", ["5", "'s'", "None"], alt=["5", "'a b c'", "''", "' '", "[int]", "(int, str)", "{'a': int}", "print", "len", "lambda: 1", "3.5", "b'int'", "'['", "']'", "'|'", "'['*3",
                                            "'a]['", "'int]'", "'tuple[int, str'", "'Optional[int'", "'K.missing'", "'missing.K'", "'.K'", "'K.'", "'..'", "'é'",
                                            "'<x>'", "'lambda: 0'", "'\\n'", "'\"'", "'#'", "'dict'*2", "Annotated[5, 'x']", "True", "NotImplemented", "re", "Optional", "Union", "Literal", "Generic", "'Optional'", "'Union'"]),
    "odddict": B("dict[int]", ["{}", "{1: 'a'}"], alt=["'dict[int]'", "'dict[]'", "'dict[int, str, bool]'", "dict[int, str, bool]"]),
    "oddlist": B("list[int, str]", ["[]", "[1, 'a']"], alt=["'list[]'", "'list[int]]'", "'list[int, str]'", "Sequence[()]"]),
    "noneish": B("'NoneX | int'", ["5", "'s'", "None"], alt=["'int | NoneX'", "'NoneType2 | str'", "'xNone | int'", "'m.None_ | int'"]),
    "nested": B("'list[int | None]'", ["[1, None]"], alt=["list[int | None]", "List[Optional[int]]", "list[Optional[int]]", "'list[None | int]'"]),
    "nested2": B("'dict[str, int | None]'", ["{'a': None, 'b': 1}"], alt=["dict[str, int | None]", "Dict[str, Optional[int]]", "'dict[str, None | int]'"]),
    "nested3": B("'tuple[int | None, str | None]'", ["(None, 'a')", "(1, None)"], alt=["tuple[int | None, str | None]", "Tuple[Optional[int], Optional[str]]"]),
    "nested4": B("'dict[str, list[int]] | None'", ["{'a': [1]}", "None"], alt=["dict[str, list[int]] | None", "Optional[Dict[str, List[int]]]", "None | dict[str, list[int]]", "'None | dict[str, list[int]]'"]),
    "nested5": B("'tuple[dict[str, int], list[tuple[int, str]], int]'", ["({'a': 1}, [(2, 'b')], 3)"], alt=["tuple[dict[str, int], list[tuple[int, str]], int]", "Tuple[Dict[str, int], List[Tuple[int, str]], int]"]),
    "nested6": B("'dict[tuple[int, str], dict[str, tuple[int, int]]]'", ["{(1, 'a'): {'b': (2, 3)}}"], alt=["dict[tuple[int, str], dict[str, tuple[int, int]]]"]),
    "unpack": B("tuple[int, *tuple[str, ...]]", ["(1,)", "(1, 'a')", "(1, 'a', 'b')"], alt=["tuple[*_Ts]", "Tuple[Unpack[_Ts]]", "Tuple[int, Unpack[_Ts]]", "'tuple[int, *tuple[str, ...]]'"]),
    "tup0": B("tuple[()]", ["()"], alt=["Tuple[()]", "'tuple[()]'"]),
    "tup12": B("tuple[%s]" % ", ".join(["int"] * 12), [str(tuple(range(12)))]), "tup13": B("tuple[%s]" % ", ".join(["int"] * 13), [str(tuple(range(13)))]),
    "tupmix": B("tuple[str, int, bytes, float, bool]", ["('a', 1, b'x', 2.5, True)"], alt=["Tuple[str, int, bytes, float, bool]", "'tuple[str, int, bytes, float, bool]'"]),
    # rarely used built-in types, and classes of the module that are named like something else
    "capsule": B("type(datetime.datetime_CAPI)", ["datetime.datetime_CAPI"]), "frame": B("types.FrameType", ["sys._getframe()"], alt=["'types.FrameType'"]),
    "traceback": B("types.TracebackType", ["types.TracebackType(None, sys._getframe(), 0, 1)"], alt=["'types.TracebackType'"]), "super": B("super", ["super(bool, True)"], alt=["'super'"]),
    "method": B("types.MethodType", ["K().__init__"], alt=["'types.MethodType'"]), "gentype": B("types.GeneratorType", ["(i for i in ())"]),
    **{"own " + n: B(n, [n + "()"], alt=["'%s'" % n, "globals()['%s']" % n]) for n in OWN},
    "unann": B("__empty__", ["5", "'s'", "None", "K()"]),
}


def pick(v, i):
    return v[i % len(v)]


# constructor: name -> (spellings over X, values from the values of X, needs hashable values)
CONS = {
    "list": (["list[%s]", "List[%s]", "'list[%s]'"], lambda v: ["[]", "[%s]" % pick(v, 0), "[%s, %s]" % (pick(v, 1), pick(v, 0))], False),
    "set": (["set[%s]", "Set[%s]", "'set[%s]'"], lambda v: ["set()", "{%s, %s}" % (pick(v, 0), pick(v, 1))], True),
    "frozenset": (["frozenset[%s]", "FrozenSet[%s]", "'frozenset[%s]'"], lambda v: ["frozenset()", "frozenset([%s, %s])" % (pick(v, 0), pick(v, 1))], True),
    "dictv": (["dict[str, %s]", "Dict[str, %s]", "'dict[str, %s]'"], lambda v: ["{}", "{'a': %s, '': %s}" % (pick(v, 0), pick(v, 1))], False),
    "dictk": (["dict[%s, int]", "Dict[%s, int]", "'dict[%s, int]'"], lambda v: ["{}", "{%s: 1, %s: 2}" % (pick(v, 0), pick(v, 1))], True),
    "dictkk": (["dict[%s, %s]", "Dict[%s, %s]", "'dict[%s, %s]'"], lambda v: ["{%s: %s}" % (pick(v, 0), pick(v, 1))], True),
    "tuple1": (["tuple[%s]", "Tuple[%s]", "'tuple[%s]'"], lambda v: ["(%s,)" % pick(v, 0), "(%s,)" % pick(v, 1)], False),
    "tuple2": (["tuple[%s, int]", "Tuple[%s, int]", "'tuple[%s, int]'"], lambda v: ["(%s, 4)" % pick(v, 0), "(%s, 5)" % pick(v, 1)], False),
    "tuple3": (["tuple[str, %s, %s]", "Tuple[str, %s, %s]", "'tuple[str, %s, %s]'"], lambda v: ["('a', %s, %s)" % (pick(v, 0), pick(v, 1))], False),
    "tuplev": (["tuple[%s, ...]", "Tuple[%s, ...]", "'tuple[%s, ...]'"], lambda v: ["()", "(%s,)" % pick(v, 0), "(%s, %s, %s)" % (pick(v, 1), pick(v, 0), pick(v, 0))], False),
    "optional": (["Optional[%s]", "Union[None, %s]", "'%s | None'", "'None | %s'"], lambda v: ["None", pick(v, 0), pick(v, 1)], False),
    "union": (["Union[%s, int, dict]", "'%s | int | dict'", "'int | None | %s'"], lambda v: [pick(v, 0), "{'z': 1}"], False),
    "seq": (["Sequence[%s]", "typing.Sequence[%s]", "'Sequence[%s]'", "'typing.Sequence[%s]'"], lambda v: ["[]", "[%s, %s]" % (pick(v, 0), pick(v, 1))], False),
    "iterable": (["Iterable[%s]", "typing.Iterable[%s]", "'Iterable[%s]'", "'collections.abc.Iterable[%s]'"], lambda v: ["[]", "[%s, %s]" % (pick(v, 0), pick(v, 1))], False),
    "mapping": (["Mapping[str, %s]", "typing.Mapping[str, %s]", "'Mapping[str, %s]'"], lambda v: ["{}", "{'a': %s}" % pick(v, 0)], False),
    "iterator": (["Iterator[%s]", "typing.Iterator[%s]", "'Iterator[%s]'", "Generator[%s, None, None]"], lambda v: ["iter([])"], False),
    "annotated": (["Annotated[%s, 'meta|x']", "Annotated[%s, 1, int]", "'Annotated[%s, 1]'"], lambda v: v[:2], False),
    "type": (["type[%s]", "Type[%s]", "'type[%s]'"], lambda v: ["int", "K"], False),
    "callable": (["Callable[[%s], int]", "typing.Callable[[int], %s]", "'Callable[[%s], %s]'"], lambda v: ["len", "K"], False),
    "final": (["Final[%s]", "ClassVar[%s]", "Literal[%s]"], lambda v: v[:1], False),
    "unpacked": (["tuple[int, *tuple[%s, ...]]"], lambda v: ["(1,)", "(1, %s)" % pick(v, 0)], False),
}
RETX = {"list": lambda v: ["KL([%s])" % pick(v, 0)], "dictv": lambda v: ["KD(a=%s)" % pick(v, 0)], "seq": lambda v: ["(%s,)" % pick(v, 0), "()"],
        "iterable": lambda v: ["(%s,)" % pick(v, 0), "iter(())", "{}.keys()"], "mapping": lambda v: ["types.MappingProxyType({'a': %s})" % pick(v, 0)],
        "iterator": lambda v: ["iter(())"]}
SEQ = {"int": "5", "dict[str, int]": "{'a': 1}", "tuple[int, str, bool]": "(1, 'a', True)", "list[tuple[int, int]]": "[(1, 2)]",
       "tuple[tuple[int, str], list[str], int, bytes]": "((1, 'a'), ['b'], 2, b'c')"}
SMALL = ["bool", "int", "str", "float", "bytes", "None", "Any", "Path", "IPv4", "K", "dict", "list", "date", "timedelta", "tuple", "Callable", "Iterable"]
TINY = ["int", "bytes", "Any", "K"]
MEMBERS = ("new", "call", "im", "sm", "cm", "pr")
NOCONS = {"odd", "unann", "noneish"} | {"own " + n for n in OWN if n not in ("code", "Path")}


class C05(Check):
    ID = "C05"
    TECHNIQUE = "exhaustive enumeration of annotations up to a constructor depth in every spelling, executed on the compiled bindings against CPython"
    NOTE = "All base annotations, all type constructors applied to them, and all pairs of constructors over a few bases; values are a few samples per annotation including the extremes. Deeper nestings and other values are not covered."
    ASSUMPTIONS = ["values Rust can represent: integers of 64 bits, text without lone surrogates",
                   "a name in an annotation given as a string denotes what the module that defines the function calls by it"]
    RULE = "one evaluation = one value crossing in one direction; distinct = distinct observed values"

    def space(self):
        sp = Space()
        ns = {"__name__": "x"}
        exec(compile(HEAD + "".join(DEFS.values()), "head", "exec", dont_inherit=True), ns)
        exec("".join("class %s: pass\n" % n for n in OWN), ns)
        self.ns = ns
        sp.states = sp.transitions = 0

        def hashable(e):
            try:
                hash(eval(e, ns))
                return True
            except TypeError:
                return False

        def emit(cid, spells, vals, ret, cls=False):
            sp.states += 1
            ok = []
            for s in spells:
                if s == "__empty__":
                    ok.append(s)
                    continue
                try:
                    eval(s, ns)
                    ok.append(s)
                except Exception:
                    pass
            if ok and vals:
                sp.add(Case(cid, spells=ok, vals=vals, ret=ret, cls=cls))

        def quote(s):
            return s if "'" not in s else None
        level = {}
        for n, b in BASES.items():
            emit(n, [b.text] + b.alt, b.vals, b.ret, n != "Self")
            if n not in NOCONS:
                level[n] = (b.text, b.vals, b.ret)
        lv2 = {}
        for cn, (spells, mkv, needs) in CONS.items():
            for n, (text, vals, ret) in level.items():
                sp.transitions += 1
                v = [x for x in vals if hashable(x)] if needs else vals
                if not v:
                    continue
                sps = self.apply(spells, text)
                emit("%s(%s)" % (cn, n), sps, mkv(v), RETX.get(cn, lambda v: [])(v), n in (SMALL if core.THOROUGH else TINY))
                lv2["%s(%s)" % (cn, n)] = (sps[0].strip("'") if sps else "", mkv(v), n)
        bases = SMALL if core.THOROUGH else TINY
        for cn, (spells, mkv, needs) in CONS.items():
            for n2, (text, vals, n) in lv2.items():
                if n not in bases or not text:
                    continue
                sp.transitions += 1
                v = [x for x in vals if hashable(x)] if needs else vals
                if not v:
                    continue
                emit("%s(%s)" % (cn, n2), self.apply(spells, text), mkv(v), [])
        # sequences of composite element types, where the elements of the text have to be told apart
        for n in (2, 3):
            for els in itertools.product(SEQ, repeat=n):
                sp.transitions += 1
                t = "tuple[%s]" % ", ".join(els)
                emit("tuple(%s)" % ";".join(els), [t, "'%s'" % t], ["(%s,)" % ", ".join(SEQ[e] for e in els)], [])
                if n == 2:
                    t = "dict[str, tuple[%s]]" % ", ".join(els)
                    emit("dicttuple(%s)" % ";".join(els), [t, "'%s'" % t], ["{'k': (%s,)}" % ", ".join(SEQ[e] for e in els)], [])
        return sp

    def apply(self, spells, text):
        out = []
        for s in spells:
            if s.startswith("'") and "'" in text:
                continue
            out.append(s.replace("%s", text))
        return out

    def source(self, c):
        s = head(" ".join(c.spells + c.vals + c.ret)) + "SEEN = []\ndef pop():\n    r = SEEN[:]\n    SEEN.clear()\n    return r\n"
        s += "VALS = lambda: [%s]\nRET = lambda: [%s]\n" % ("".join(v + ", " for v in c.vals), "".join(v + ", " for v in c.vals + c.ret))
        for i, t in enumerate(c.spells):
            if t == "__empty__":
                s += "def f%d(x, *, y): SEEN.append((x, y))\ndef g%d(i): return RET()[i]\n" % (i, i)
            else:
                s += "def f%d(x: %s, *, y: %s): SEEN.append((x, y))\ndef g%d(i) -> %s: return RET()[i]\n" % (i, t, t, i, t)
        if c.cls:                             # the first spelling, at every kind of class member
            t = c.spells[0]
            a, r = ("", "") if t == "__empty__" else (": " + t, " -> " + t)
            s += ("IDX = 0\nclass Zz:\n    def __init__(self, x{a}, *, y{a}): SEEN.append((x, y))\n    def __call__(self, x{a}, *, y{a}){r}:\n        SEEN.append((x, y))\n        return RET()[IDX]\n"
                  "    def im(self, x{a}, *, y{a}){r}:\n        SEEN.append((x, y))\n        return RET()[IDX]\n"
                  "    @staticmethod\n    def sm(x{a}, *, y{a}){r}:\n        SEEN.append((x, y))\n        return RET()[IDX]\n"
                  "    @classmethod\n    def cm(cls, x{a}, *, y{a}){r}:\n        SEEN.append((x, y))\n        return RET()[IDX]\n"
                  "    @property\n    def pr(self){r}: return RET()[IDX]\n    @pr.setter\n    def pr(self, v{a}): SEEN.append((v, v))\n").format(a=a, r=r)
        return s

    def judge(self, b, cases):
        root = prog.newdir("c05")
        names = {c.id: "v05_%04d" % i for i, c in enumerate(cases)}
        cfg = {"generate_classes": True, "generate_properties": False, "generate_type_vars": False, "generate_imports": False}
        progs = {c.id: {"files": {names[c.id] + ".py": self.source(c)}, "modules": [names[c.id]]} for c in cases}
        gen = prog.generate(b, progs, root, cfg=cfg)
        bad, rust, rets = {}, {}, {}
        for c in cases:
            g = gen[c.id]
            if not g["ok"]:
                bad[c.id] = [prog.why(g)]
                continue
            items = prog.mod(g["ast"], [names[c.id]]) or []
            drive, v = self.drive(c, names[c.id], items, rets)
            if v:
                bad[c.id] = v
                continue
            rust[c.id] = core.case_text(g["path"], drive, True)
        errs, obs = core.execute(b, rust, [root], batches=8 if len(rust) < 400 else 32)
        for cid, ms in errs.items():
            bad[cid] = [("compile", ms[0][0] + "\n" + ms[0][1])]
        n = 0
        import importlib
        importlib.invalidate_caches()
        sys.path.insert(0, root)
        try:
            for c in cases:
                if c.id in bad:
                    continue
                m = importlib.import_module(names[c.id])
                got = {}
                v = []
                for o in obs.get(c.id, []):
                    if o["kind"] in ("crash", "panic"):
                        v.append(("crash", "%s %s" % (o["kind"], o["v"])))
                    got[o["label"]] = (o["kind"], o["v"])
                for i, t in enumerate(c.spells):
                    for j in range(len(c.vals)):
                        n += 1
                        want = mc_rt.show([(m.VALS()[j], m.VALS()[j])])
                        a, s = got.get("a%d.%d" % (i, j)), got.get("s%d.%d" % (i, j))
                        self.outcome(s)
                        if a is None or a[0] != "ok" or s != ("ok", want):
                            v.append(("arrive", "annotation %s, argument %s: call %r, Python saw %r, expected %s" % (t, c.vals[j], a, s, want)))
                    for j, val in enumerate(c.vals + c.ret):
                        n += 1
                        r = got.get("r%d.%d" % (i, j))
                        o = m.RET()[j]
                        want = mc_rt.show(o) if rets[c.id, i] else mc_rt.loose(o)
                        self.outcome(r)
                        if r != ("ok", want):
                            v.append(("return", "annotation %s, result %s: Rust got %r, expected %s" % (t, val, r, want)))
                for mem in MEMBERS if c.cls else ():
                    for j in range(len(c.vals)):
                        n += 1
                        want = mc_rt.show([(m.VALS()[j], m.VALS()[j])])
                        a, s = got.get("A%s.%d" % (mem, j)), got.get("S%s.%d" % (mem, j))
                        if a is None or a[0] != "ok" or s != ("ok", want):
                            v.append(("arrive", "%s, annotation %s, argument %s: call %r, Python saw %r, expected %s" % (mem, c.spells[0], c.vals[j], a, s, want)))
                    for j, val in enumerate(c.vals + c.ret if mem != "new" else ()):
                        n += 1
                        r, o = got.get("R%s.%d" % (mem, j)), m.RET()[j]
                        want = mc_rt.show(o) if rets[c.id, mem] else mc_rt.loose(o)
                        if r != ("ok", want):
                            v.append(("return", "%s, annotation %s, result %s: Rust got %r, expected %s" % (mem, c.spells[0], val, r, want)))
                if v:
                    seen = []
                    for x in v:
                        if x[0] not in [y[0] for y in seen] or len(seen) < 2:
                            seen.append(x)
                    bad[c.id] = seen[:4]
        finally:
            sys.path.remove(root)
            for k in list(sys.modules):
                if k.startswith("v05_"):
                    del sys.modules[k]
        if len(cases) > 1:
            self.info.update(evaluations=n, traces_validated_against_impl=n)
        return bad

    def drive(self, c, name, items, rets):
        s = ["py.import_bound(%s).unwrap();" % core.rs(name)]
        for i, t in enumerate(c.spells):
            f, g = prog.fn(items, "f%d" % i), prog.fn(items, "g%d" % i)
            if f is None or g is None:
                return None, [("missing", "no binding for annotation %s" % t)]
            ty = [p[1] for p in f["params"][1:]]
            if len(ty) != 2:
                return None, [("params", "annotation %s: parameters %r" % (t, ty))]
            for j in range(len(c.vals)):
                e = "I('%s').VALS()[%d]" % (name, j)
                s.append('{ let r = b::%s::f%d(py, %s, %s); l.unit(py, "a%d.%d", r); l.py(py, "s%d.%d", "I(\'%s\').pop()"); }'
                         % (name, i, prog.arg(ty[0], e), prog.arg(ty[1], e), i, j, i, j, name))
            strict = prog.norm(g["ret"] or "").startswith("::pyo3::PyResult<::pyo3::Bound<")
            rets[c.id, i] = strict
            for j in range(len(c.vals) + len(c.ret)):
                s.append('l.%s(py, "r%d.%d", b::%s::g%d(py, %s));' % ("val" if strict else "loose", i, j, name, i, prog.arg(g["params"][1][1], str(j))))
        if c.cls:
            meths, trait = prog.methods(items, "Zz")
            inh = prog.inherent(items, "Zz")
            pick = lambda n, pool: ([f for f in pool if prog.unraw(f["name"]) == n] + [None])[0]
            q = "b::%s::Zz" % name
            s.append("let o: Bound<'_, %s> = ev(py, \"object.__new__(I('%s').Zz)\").extract().unwrap();" % (q, name))
            for mem in MEMBERS:
                f = pick(mem, meths) or pick(mem, inh)
                st = pick("set_pr", meths)
                if f is None or mem == "pr" and st is None:
                    return None, [("missing", "no binding for member %s with annotation %s" % (mem, c.spells[0]))]
                recv = f["recv"] is not None
                call = lambda args: ("%sMethods::%s(&o%s)" % (q, f["name"], "".join(", " + a for a in args)) if recv
                                     else "%s::%s(py%s)" % (q, f["name"], "".join(", " + a for a in args)))
                strict = prog.norm(f["ret"] or "").startswith("::pyo3::PyResult<::pyo3::Bound<")
                rets[c.id, mem] = strict
                ty = [p[1] for p in (st if mem == "pr" else f)["params"]]
                ty = ty if recv else ty[1:]
                if len(ty) != (1 if mem == "pr" else 2):
                    return None, [("params", "%s, annotation %s: parameters %r" % (mem, c.spells[0], ty))]
                E = lambda j: "I('%s').VALS()[%d]" % (name, j)
                for j in range(len(c.vals) + len(c.ret)):
                    if j < len(c.vals) and mem == "pr":
                        s.append('l.unit(py, "A%s.%d", %sMethods::%s(&o, %s));' % (mem, j, q, st["name"], prog.arg(ty[0], E(j))))
                    elif j < len(c.vals) and mem == "new":
                        s.append('l.unit(py, "A%s.%d", %s);' % (mem, j, call([prog.arg(t, E(j)) for t in ty])))
                    elif j < len(c.vals):
                        s.append('l.unit(py, "A%s.%d", %s);' % (mem, j, call([prog.arg(t, E(j)) for t in ty])))
                    if j < len(c.vals):
                        s.append('l.py(py, "S%s.%d", "I(\'%s\').pop()");' % (mem, j, name))
                    if mem != "new":
                        s.append('ex(py, "I(\'%s\').IDX = %d");' % (name, j))
                        s.append('l.%s(py, "R%s.%d", %s);' % ("val" if strict else "loose", mem, j, call([] if mem == "pr" else [prog.arg(t, E(0)) for t in ty])))
                        s.append('ex(py, "I(\'%s\').SEEN.clear(); I(\'%s\').IDX = 0");' % (name, name))
        return "\n".join(s), None


CHECK = C05
