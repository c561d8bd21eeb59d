"""C01: generated bindings always compile.

Space: (ann) every type expression over a set of atoms and constructors up to a depth, in every position a binding can have;
(sig) every signature up to a length over kinds x awkward names; (cls) every combination of constructor, call operator, base and
members with derived names; (mem) every triple of members with related names; (tree) package layouts in which submodules, members
and re-exports share names and refer to each other; (flag) feature-rich programs under all combinations of flags; (std) the
standard library. Oracle: rustc accepts the tokens (for every second case the pretty-printed text) against pyo3 alone."""
import itertools, json, os, sys, zlib
from harness import core, prog
from harness.ctx import Check, Case, Space

PRE = '''import typing, types, datetime, pathlib, decimal, fractions, ipaddress, enum, collections, collections.abc, os, uuid, re
from typing import *
class K:
    def __init__(self, k: "K" = None): ...
class E(enum.Enum):
    A = 1
class Fn(Protocol):
    def __call__(self, a: int) -> str: ...
class G(Generic[TypeVar("GT")]): ...
class type_: ...
globals()["self"] = type("self", (), {"__module__": __name__})
globals()["bool"] = type("bool", (), {"__module__": __name__, "__init__": lambda self, f: None})
del globals()["bool"]
T = TypeVar("T")
P = ParamSpec("P")
LI = list[int]
NT = NewType("NT", int)
TD = TypedDict("TD", {"a": int})
def _n(c, n, a=int):
    for _ in range(n):
        a = eval(c.replace("%s", "a"), dict(globals(), a=a))
    return a
def _nt(c, n):
    return c.split("%s")[0] * n + "int" + c.split("%s")[1] * n
'''
NESTED = ["list[%s]", "List[%s]", "set[%s]", "frozenset[%s]", "Optional[%s]", "tuple[%s]", "tuple[int, %s]", "Tuple[%s, str, K]", "Sequence[%s]", "Iterable[%s]", "dict[str, %s]", "Dict[%s, int]", "Mapping[str, %s]", "Callable[[%s], int]", "Callable[..., %s]", "type[%s]", "G[%s]", "Union[%s, int]", "Annotated[%s, 1]", "typing.Sequence[%s]",
          "Optional[List[%s]]", "list[dict[str, tuple[%s, int]]]", "collections.abc.Iterable[%s]", "collections.abc.Sequence[dict[str, %s]]"]
DEPTHS = [4, 8, 15, 16, 17, 24, 31, 32, 33, 34, 40, 63, 64, 65, 100, 127, 128, 129, 300, 1000]
ATOMS = ["int", "str", "float", "bool", "bytes", "bytearray", "None", "complex", "object", "Any", "list", "dict", "set", "frozenset", "tuple", "type", "slice", "range", "memoryview", "...", "super", "property",
         "List", "Dict", "Tuple", "Set", "FrozenSet", "Optional", "Union", "Callable", "Type", "Mapping", "Sequence", "Iterable", "AnyStr", "NoReturn", "Self", "LiteralString", "Hashable",
         "datetime.date", "datetime.datetime", "datetime.time", "datetime.timedelta", "datetime.tzinfo", "decimal.Decimal", "fractions.Fraction", "pathlib.Path", "pathlib.PurePosixPath", "os.PathLike", "uuid.UUID", "re.Pattern",
         "ipaddress.IPv4Address", "ipaddress.IPv6Address", "ipaddress.IPv4Network", "types.ModuleType", "types.FunctionType", "types.BuiltinFunctionType", "types.CodeType", "types.FrameType", "types.TracebackType", "types.MethodType", "types.GeneratorType", "types.NoneType", "types.EllipsisType",
         "collections.OrderedDict", "collections.defaultdict", "collections.deque", "collections.Counter", "collections.abc.Callable", "collections.abc.Mapping", "BaseException", "ValueError",
         "K", "E", "E.A", "Fn", "G", "G[int]", "self", "type_", "T", "P", "LI", "NT", "TD", "Literal[1, 'a']", "Literal['[', ',']", "1", "'x y'", "'K'", "'nope'", "'a.b.c'", "'list['", "'K[int]'", "'tuple[()]'", "tuple[()]", "lambda: 1", "[int, str]", "(int, str)", "{}"]
SMALL = ["int", "str", "bytes", "None", "Any", "list", "dict", "float", "K", "T", "datetime.timedelta", "ipaddress.IPv4Address", "pathlib.Path", "frozenset", "tuple", "..."]
TINY = ["int", "str", "float", "K", "dict", "frozenset[str]", "Optional[int]", "bytes"]
UNARY = ["list[%s]", "List[%s]", "set[%s]", "frozenset[%s]", "Set[%s]", "Optional[%s]", "tuple[%s]", "tuple[%s, ...]", "Tuple[%s, %s]", "collections.deque[%s]", "Sequence[%s]", "Iterable[%s]", "type[%s]", "G[%s]", "Annotated[%s, 1]", "Final[%s]", "Awaitable[%s]", "Callable[[%s], %s]", "Callable[..., %s]", "collections.Counter[%s]", "tuple[" + ", ".join(["%s"] * 13) + "]", "collections.abc.Set[%s]", "MutableSequence[%s]", "AbstractSet[%s]"]
BINARY = ["dict[%s, %s]", "Mapping[%s, %s]", "tuple[%s, %s]", "Union[%s, %s]", "Callable[[%s], %s]", "collections.defaultdict[%s, %s]", "collections.OrderedDict[%s, %s]", "Dict[%s, %s]", "collections.abc.Mapping[%s, %s]", "MutableMapping[%s, %s]", "Generator[%s, %s, int]"]
POS = {
    "fn": "def f%(i)d(a: X, b: X = ..., *c: X, d: X, e: X = None, **f: X) -> X: ...\n",
    "meth": "class C%(i)d:\n    def __init__(self, a: X, *, b: X): ...\n    def __call__(self, a: X) -> X: ...\n    def m(self, a: X) -> X: ...\n    @classmethod\n    def c(cls, a: X) -> X: ...\n    @staticmethod\n    def s(a: X) -> X: ...\n",
    "prop": "class D%(i)d:\n    @property\n    def p(self) -> X: ...\n    @p.setter\n    def p(self, v: X): ...\n    @property\n    def q(self) -> X: ...\n",
}

SIGNAMES = ["a", "self", "cls", "py", "args", "kwargs", "p_a", "type", "crate", "_", "__a", "Some", "str", "é"]
SIGPRE = PRE + '''def _sig(ps):
    import inspect
    return inspect.Signature([inspect.Parameter(n, k, default=d, annotation=a) for n, k, d, a in ps])
'''

BASES = ["", "int", "str", "dict", "list", "tuple", "Exception", "K", "enum.Enum", "enum.IntFlag", "NamedTuple", "Protocol", "Generic[T]", "TypedDict", "Fn", "abc.ABC", "metaclass=abc.ABCMeta", "metaclass=M", "bytes", "set", "types.ModuleType", "type", "threading.local", "K, dict"]
INITS = {"none": "", "plain": "    def __init__(self): ...\n", "args": "    def __init__(self, a: int, *b: str, c: 'K', **d): ...\n", "noself": "    def __init__(*args): ...\n", "zero": "    def __init__(): ...\n", "static": "    @staticmethod\n    def __init__(a): ...\n", "cls": "    @classmethod\n    def __init__(cls, a): ...\n", "prop": "    __init__ = property(lambda self: 1)\n", "var": "    __init__ = 5\n", "partial": "    __init__ = functools.partial(print)\n", "class": "    class __init__: ...\n"}
CALLS = {k: v.replace("__init__", "__call__") for k, v in INITS.items()}
CLSPRE = PRE + "import abc, functools, threading, dataclasses\nclass M(type):\n    def __call__(cls, *a): return type.__call__(cls, *a)\n    def mm(cls): ...\n    @property\n    def mp(cls): ...\n"

TRIPLE = ["x", "set_x", "get_x", "new", "call", "get_new", "set_new", "new1", "self", "f_self", "f1_self", "get_self", "set_self", "XMethods", "X", "s_self", "p_x", "name", "s_name", "type", "get_type"]
GROUPS = [["x", "set_x", "get_x", "p_x"], ["new", "get_new", "set_new", "new1"], ["call", "get_call", "set_call", "call1"], ["self", "f_self", "f1_self", "get_self", "set_self", "s_self", "s1_self", "Self", "f_Self"],
          ["a-b", "a+b", "f_a_b", "f1_a_b", "s_a_b", "get_a-b", "set_a-b"], ["X", "XMethods", "XMethods1", "XMethodsMethods"], ["f", "s_f", "f_f"], ["type", "get_type", "set_type", "typeMethods", "r#type"], ["bool", "s_bool", "f64", "Vec"]]
MODKINDS = {"fn": "def _(): ...\n_P('%s', _)\n", "class": "_P('%s', _bi.type('%s', (), {'__module__': __name__, '__init__': lambda self, f: None, 'm': lambda self, f: None}))\n", "var": "_P('%s', 1.5)\n", "tv": "_P('%s', _bi.list[_bi.int])\n", "sub": None, "imp": None}
CLSKINDS = {"meth": "def _m(self, f: int) -> 'K': ...\n_A(%r, _m)\n", "sm": "def _m(): ...\n_A(%r, _bi.staticmethod(_m))\n", "rw": "_A(%r, _bi.property(lambda self: 1, lambda self, v: None))\n", "ro": "_A(%r, _bi.property(lambda self: 1))\n", "cvar": "_A(%r, 5)\n"}
MEMPRE = '''import builtins as _bi, typing as _t
def _P(n, o):
    try: o.__name__ = o.__qualname__ = n
    except _bi.Exception: pass
    _bi.globals()[n] = o
class K:
    def __init__(self, k: "K" = None): ...
class K2:
    def __init__(self, a: K = None): ...
    def __call__(self, name: int): ...
def _A(n, o):
    f = _bi.getattr(o, "fget", None) or _bi.getattr(o, "__func__", o)
    try: f.__name__ = n; f.__qualname__ = "K2." + n; f.__module__ = __name__
    except _bi.Exception: pass
    _bi.setattr(K2, n, o)
def user(a: bool, b: bytes, c: K2, f: float, p_x: int, name: str, s: K, ob: "list[int]", *args: int, other: _t.Optional[str] = None) -> _t.Dict[str, _t.List[_t.Tuple[int, bool]]]: ...
'''

STDLIB = ["typing", "json", "pathlib", "collections", "math", "abc", "string", "heapq", "builtins", "random"]
FLAGS = ["generate_preludes", "generate_imports", "generate_classes", "generate_type_vars", "generate_functions", "generate_properties", "generate_docs", "traverse_submodules", "generate_dependencies", "include_private"]

LEAF = '''"""Doc `code`."""
import typing as _t
class %(c)s:
    """Doc."""
    def __init__(self, a: int, other: "%(c)s"): ...
    def m(self, x: "%(c)s") -> "_t.List[%(c)s]": ...
    @property
    def p(self) -> "%(c)s": ...
    @p.setter
    def p(self, v: "%(c)s"): ...
def %(f)s(x: %(c)s, *args, k: "_t.Optional[%(c)s]" = None) -> %(c)s:
    """Doc."""
%(v)s = 5
%(t)s = _t.TypeVar("%(t)s")
def u_%(t)s(x: %(t)s, y: "_t.Dict[%(t)s, %(c)s]") -> %(t)s: ...
'''


def leaf(c="C", f="f", v="v", t="T", extra=""):
    return LEAF % {"c": c, "f": f, "v": v, "t": t} + extra


class C01(Check):
    ID = "C01"
    TECHNIQUE = "exhaustive bounded enumeration of Python programs on the real engine; every generated crate is compiled by rustc against pyo3"
    NOTE = "Type expressions up to depth two (binary constructors with a reduced alphabet), signatures up to three parameters, member groups up to three, packages up to depth three; the standard library is the one installed (Python 3.12)."
    ASSUMPTIONS = ["pyo3 0.21 with the toolchain installed here; the bindings need no other crate", "programs for which generation fails are C02's concern", "names that differ only in Unicode normalisation are not covered"]
    RULE = "one case = one program with its requests and flags; distinct = distinct generated texts"

    def space(self):
        sp = Space()

        def add(cid, fam, **kw):
            sp.states += 1
            sp.transitions += 1
            sp.add(Case(cid, fam=fam, **kw))
        # annotations, grown constructor by constructor
        nb = 8 if core.THOROUGH else 2
        d1 = list(dict.fromkeys([u.replace("%s", a) for u in UNARY for a in ATOMS]
                                + [b % (x, y) for b in BINARY[: (11 if core.THOROUGH else 5)] for x, y in itertools.chain(itertools.product(ATOMS, SMALL[:nb]), itertools.product(SMALL[:nb], ATOMS))]))
        d2 = [u.replace("%s", v.replace("%s", a)) for u in UNARY for v in UNARY for a in TINY[: (8 if core.THOROUGH else 2)]]
        d2 += [b % (u.replace("%s", a), x) for b in BINARY[:4] for u in UNARY for a in TINY[: (8 if core.THOROUGH else 2)] for x in ("int", u.replace("%s", a))]
        d2 += [u.replace("%s", b % (x, y)) for b in BINARY for u in UNARY[:12] for x, y in (itertools.product(TINY, repeat=2) if core.THOROUGH else (('int', 'str'), ('K', 'int'), ('dict', 'frozenset[str]')))]
        if core.THOROUGH:
            d2 += [b % (x, c % (y, z)) for b in BINARY for c in BINARY for x in TINY for y in TINY for z in TINY]
            d2 += [b % (c % (y, z), x) for b in BINARY for c in BINARY for x in TINY[:4] for y in TINY for z in TINY]
        for x in ATOMS:
            for p in POS:
                for q in (False, True):
                    add("ann/%s/%s%s" % (p, x, "/text" if q else ""), "ann", pos=p, text=repr(x) if q else x)
        for x in dict.fromkeys(d1 + d2):
            for p in POS if core.THOROUGH else ["fn"]:
                add("ann/%s/%s" % (p, x), "ann", pos=p, text=x)
            if not core.THOROUGH and x in d1[: 8 * len(ATOMS)]:
                add("ann/prop/" + x, "ann", pos="prop", text=x)
        # deep nesting: one constructor (or a few in turn) applied over and over
        for c, n in itertools.product(NESTED, DEPTHS):
            for h in ("_nt", "_n"):
                if h == "_n" and n > 300:
                    continue  # Python itself fails to represent these
                for p in POS if core.THOROUGH else ("fn", "prop")[: 1 + (n == 33)]:
                    add("ann/%s/%s(%s, %d)" % (p, h, c, n), "ann", pos=p, text="%s(%r, %d)" % (h, c, n))
        # signatures: every sequence of kinds, names rotate through the alphabet
        kinds = ["P", "K", "A", "O", "W"]
        for n in (1, 2, 3):
            for ks in itertools.combinations_with_replacement(range(5), n):
                ks = "".join(kinds[k] for k in ks)
                if ks.count("A") > 1 or ks.count("W") > 1:
                    continue
                for names in itertools.permutations(SIGNAMES[: (14 if core.THOROUGH else (14, 9, 3)[n - 1])] if n < 3 else SIGNAMES[: (8 if core.THOROUGH else 3)], n):
                    for own in ("mod", "meth", "init") if n < 3 or core.THOROUGH else ("mod", "meth"):
                        add("sig/%s/%s/%s" % (own, ks, ",".join(names)), "sig", own=own, kinds=ks, names=list(names))
        # classes
        for base in BASES:
            for i in INITS:
                for k in CALLS if core.THOROUGH or base in ("", "K", "dict") else ["none", "plain", "args", "class"]:
                    add("cls/%s/%s/%s" % (base, i, k), "cls", src="class X(%s):\n    a: int\n%s%s    def m(self, f): ...\n    @property\n    def r(self) -> 'X': ...\ndef user(x: X, y: 'list[X]') -> X: ...\n" % (base, INITS[i], CALLS[k]))
        # groups of members with related names
        for g in GROUPS:
            for n in (2, 3):
                for names in itertools.combinations(g, n):
                    for sc, kinds in (("mod", MODKINDS), ("cls", CLSKINDS)):
                        for ks in itertools.product(kinds, repeat=n):
                            if n == 3 and not core.THOROUGH and (len(g) > 5 or {"imp", "tv", "ro", "sm", "sub"} & set(ks) or len(set(ks)) == 3):
                                continue
                            if n == 2 and not core.THOROUGH and not {"sub", "imp"} & set(ks):
                                continue  # C09 executes these
                            if any(k == "sub" and not m.isidentifier() for k, m in zip(ks, names)):
                                continue
                            add("mem/%s/%s" % (sc, "/".join("%s:%s" % x for x in zip(ks, names))), "mem", scope=sc, members=[list(x) for x in zip(ks, names)])
        # packages
        for cid, files, mods in trees():
            for k, ms in enumerate(mods):
                add("tree/%s/%d" % (cid, k), "tree", files=files, modules=ms)
        # names of preludes, which must not meet those of members
        pk = [k for k in MODKINDS]
        for n in (1, 2, 3):
            for ks in itertools.product(pk, repeat=n):
                if n == 3 and not core.THOROUGH and len(set(ks)) > 1:
                    continue
                for off in range(2):
                    for al in ("some", "none", "own", "more"):
                        add("prel/%s/%d/%s" % ("/".join(ks), off, al), "mem", scope="mod", members=[[k, ("call", "call1", "call2")[(i + off) % 3]] for i, k in enumerate(ks)], index=al)
        # flags
        for name, files, mods in rich():
            for bits in range(1 << len(FLAGS)):
                on = [f for j, f in enumerate(FLAGS) if bits >> j & 1]
                if not core.THOROUGH and len(on) not in (0, 1, 9, 10) and zlib.crc32(repr((name, bits)).encode()) % 20:
                    continue
                add("flag/%s/%s" % (name, "".join("1" if f in on else "0" for f in FLAGS)), "flag", files=files, modules=mods, cfg={f: f in on for f in FLAGS})
        # the standard library
        for m in sorted(sys.stdlib_module_names - {"antigravity", "this", "idlelib", "turtledemo", "test", "lib2to3"}):
            if not core.THOROUGH and zlib.crc32(m.encode()) % 6 and m not in STDLIB:
                continue
            for cfg in ({}, {"include_private": True}) if core.THOROUGH else ({},):
                add("std/%s%s" % (m, "/private" if cfg else ""), "std", files={}, modules=[m], cfg=cfg)
        return sp

    PACK = {"ann": 40, "sig": 30, "cls": 12}

    def program(self, cs, m):
        c = cs[0]
        cfg = dict(c.data.get("cfg") or {})
        if c.fam == "ann":
            src = PRE
            for i, x in enumerate(cs):
                # an annotation that cannot be evaluated is none of a program's
                body = (POS[x.pos] % {"i": i}).replace("X", "_x")
                src += "try: _x = %s\nexcept Exception: _x = int\n%s" % (x.text, body)
            return {"files": {m + ".py": src}, "modules": [m], "cfg": cfg}
        if c.fam == "sig":
            src = SIGPRE
            for i, x in enumerate(cs):
                ps = [(n, "PKAOW".index(k), True) for n, k in zip(x.names, x.kinds)]
                val = "[%s]" % ", ".join("(%r, %d, inspect.Parameter.empty, %s)" % (n, k, a) for (n, k, _), a in zip(ps, itertools.cycle(["int", "inspect.Parameter.empty", "'K'"])))
                tgt = {"mod": "def f%(i)d(*a, **k): ...\nf%(i)d.__signature__ = _sig(%(v)s)\n",
                       "meth": "class C%(i)d:\n    def m(self, *a, **k): ...\n    m.__signature__ = _sig([('self', 0, inspect.Parameter.empty, inspect.Parameter.empty)] + %(v)s if %(s)r else %(v)s)\n",
                       "init": "class C%(i)d:\n    def __init__(self, *a, **k): ...\n    __init__.__signature__ = _sig([('this', 0, inspect.Parameter.empty, inspect.Parameter.empty)] + %(v)s)\n"}[x.own]
                src += tgt % {"i": i, "v": val, "s": "self" not in x.names}
            return {"files": {m + ".py": src.replace("import typing,", "import inspect, typing,", 1)}, "modules": [m], "cfg": cfg}
        if c.fam == "cls":
            src = CLSPRE
            for i, x in enumerate(cs):
                s = x.src.replace("X", "X%d" % i).replace("user", "user%d" % i)
                src += "try:\n" + "".join("    " + l + "\n" for l in s.splitlines()) + "except Exception: pass\n"
            return {"files": {m + ".py": src}, "modules": [m], "cfg": cfg}
        if c.fam == "mem":
            files, src, pkg = {}, MEMPRE, any(k in ("sub", "imp") for k, _ in c.members)
            for k, n in c.members:
                if k == "sub":
                    files["%s/%s.py" % (m, n)] = "class C:\n    def __init__(self): ...\ndef f(x: C) -> C: ...\n"
                elif k == "imp":
                    files["%s/hh.py" % m] = files.get("%s/hh.py" % m, "import builtins as _bi\n") + "def _h(): ...\n_h.__name__ = %r\n_bi.globals()[%r] = _h\n" % (n, n)
                    src += "from . import hh as _hh\n_bi.globals()[%r] = _bi.getattr(_hh, %r)\n" % (n, n)
                else:
                    t = (MODKINDS if c.scope == "mod" else CLSKINDS)[k]
                    src += t % ((n, n) if t.count("%") == 2 else n)
            own = [n for _, n in c.members]
            src += {"": "", "some": "__all__ = ['K', 'user']\n", "none": "__all__ = []\n", "own": "__all__ = %r\n" % own, "more": "__all__ = %r\n" % (own + ["K"])}[c.data.get("index", "")]
            files["%s/__init__.py" % m if pkg else m + ".py"] = src
            return {"files": files, "modules": [m], "cfg": cfg}
        files = {k.replace("§", m): v.replace("§", m) for k, v in c.files.items()}
        return {"files": files, "modules": [x.replace("§", m) for x in c.modules], "cfg": cfg}

    def judge(self, b, cases):
        byid = {c.id for c in cases}
        units, groups = {}, {}
        for c in cases:
            if c.fam in self.PACK and len(cases) > 100:
                groups.setdefault((c.fam, c.data.get("pos") or c.data.get("own") or ""), []).append(c)
            elif "together" in c.data:
                units[c.id] = c.data["together"]
            else:
                units[c.id] = [c]
        for (fam, k), l in groups.items():
            n = self.PACK[fam]
            for j in range(0, len(l), n):
                units["%s/%s#%d" % (fam, k, j)] = l[j:j + n]
        self.lost = set()
        bad = self.units(b, units)
        packed = {u for u in bad if len(units[u]) > 1 and u not in byid} | self.lost
        single = {c.id: [c] for u in packed for c in units[u]}
        alone = self.units(b, single) if single else {}
        out = dict(alone)
        for u, v in bad.items():
            if u not in packed:
                out[u] = v
            elif not any(c.id in alone for c in units[u]):
                units[u][0].data["together"] = units[u]
                out[units[u][0].id] = v
        return out

    def units(self, b, units):
        root = prog.newdir("c01")
        progs = {u: self.program(cs, "m%05d" % i) for i, (u, cs) in enumerate(units.items())}
        jobs, paths = [], {}
        os.makedirs(root + "/.rs")
        for i, (u, p) in enumerate(progs.items()):
            prog.write_files(root, p["files"])
            paths[u] = "%s/.rs/%d.rs" % (root, i)
            jobs.append({"id": u, "ops": [{"op": "new", "cfg": p["cfg"]}] + [{"op": "module_name", "name": x} for x in p["modules"]] + [{"op": "generate", "ast": False, "write": paths[u], "pretty": zlib.crc32(u.encode("utf-8", "replace")) % 2 == 0}]})
        res = core.run_jobs(b, [j for j in jobs if not j["id"].startswith("std/")], sys_path=[root])
        res.update(core.run_jobs(b, [j for j in jobs if j["id"].startswith("std/")], fresh=True))
        bad, rust, failed = {}, {}, 0
        for u in units:
            r = res[u]
            last = (r.get("res") or [r])[-1]
            if last.get("unparsable") or last.get("pretty_err"):
                bad[u] = [("syntax", str(last.get("unparsable") or last.get("pretty_err")))]
            elif not last.get("ok"):
                if len(units[u]) > 1 and "together" not in units[u][0].data:
                    self.lost.add(u)  # one of the programs packed together stops all of them
                    continue
                failed += 1
                self.info.setdefault("not_generated", []).append("%s: %s" % (u, json.dumps(r)[:200]))
            else:
                t = last.get("pretty") or open(paths[u]).read()
                self.outcome(zlib.crc32(t.encode()))
                rust[u] = t
        errs = core.compile_all(b, dict(sorted(rust.items(), key=lambda x: -len(x[1]))), nbatch=24, deal=True)
        for u, ms in errs.items():
            if u in self.info.get("not_compiled", []):
                continue
            bad[u] = [("compile", "%s\n%s" % (ms[0][0], ms[0][1][:1500]))]
        l = self.info.get("not_generated", [])
        self.info["not_generated_count"] = len(l)
        self.info["programs_compiled"] = self.info.get("programs_compiled", 0) + len(rust)
        if len(l) > 40 + len(units) // 50:
            raise core.CheckError("generation failed for %d programs, e.g. %s" % (len(l), l[-3:]))
        return bad


def trees():
    """Package layouts: (id, files, lists of requests). `§` is the name of the package."""
    out = []
    names = ["a", "type", "C", "call", "self1", "std", "pyo3", "core", "super_", "alloc"]
    every = [["§"], ["§", "§.s"], ["§.s"], ["§.s", "§.s.t"]]
    # a package, its submodule and the submodule's submodule, with members named like each other
    for a, c in itertools.product(["s", "t", "C", "std", "pyo3", "type"], ["C", "s", "t", "T", "std", "core", "pyo3"]):
        files = {"§/__init__.py": leaf(c="C", f=a, v="v", t="T", extra="from .s import D as E\nfrom .s.t import g\n"),
                 "§/s/__init__.py": leaf(c="D", f="f", v=a + "_", t="U", extra="import §\nclass %s: ...\ndef back(x: '§.C', y: %s) -> '§.s.t.B': ...\n" % (c, c)),
                 "§/s/t.py": leaf(c="B", f="g", v=c, t="V", extra="from §.s import D\ndef q(x: D, y: 'list[D]') -> 'dict[str, D]': ...\n")}
        out.append(("same/%s/%s" % (a, c), files, every))
    # re-exports of every kind of member under every kind of name
    for kind in ("class", "fn", "var", "tv", "mod"):
        src = {"class": "D", "fn": "f", "var": "v", "tv": "U", "mod": None}[kind]
        for alias in ("same", "X", "type", "call", "s", "self", "u", "bool", "set_w", "new"):
            for allv in (None, "one", "both"):
                tgt = alias if alias != "same" else (src or "u")
                imp = ("from . import s as _s\n" + ("globals()[%r] = _s.%s\n" % (tgt, src))) if src else "from .s import u as _u\nglobals()[%r] = _u\n" % tgt
                al = {None: "", "one": "__all__ = [%r]\n" % tgt, "both": "__all__ = [%r, 'w', 's', 'Own']\n" % tgt}[allv]
                files = {"§/__init__.py": imp + "w = 5\nclass Own:\n    def __init__(self, a: 'Own'): ...\n" + al,
                         "§/s/__init__.py": leaf(c="D", t="U"), "§/s/u.py": leaf(c="W")}
                out.append(("reexport/%s/%s/%s" % (kind, alias, allv), files, [["§"], ["§", "§.s"]] if kind in ("class", "mod") else [["§"]]))
    # names of submodules
    for n in ["type", "fn", "std", "core", "alloc", "pyo3", "call", "C", "Vec", "bool", "str", "é", "match_", "dyn", "crate", "self", "super", "Self", "_", "a-b", "1a", "test", "u8", "i64", "f64", "Option", "prelude", "call1", "get_type", "py", "f", "name", "Python", "box", "try_", "macro_rules", "union", "auto"]:
        files = {"§/__init__.py": leaf(extra="def call(): ...\n"), "§/%s/__init__.py" % n: leaf(c="D"), "§/%s/%s.py" % (n, n): leaf(c="B", extra="def up(x: '§.C', y: '§.%s.D') -> 'list[§.C]': ...\n" % n)}
        out.append(("sub/%s" % n, files, [["§"], ["§.%s" % n], ["§.%s.%s" % (n, n), "§"]]))
    # classes and type variables of other modules in annotations
    for x, y in itertools.product(["§.C", "§.s.D", "§.s.t.B", "§.s.U", "§2.Z", "collections.OrderedDict", "§.s", "§.nope"], repeat=2):
        ann = "def g(x: '%s', y: 'dict[str, %s]', z: 'tuple[%s, %s]') -> 'list[%s]': ...\nclass R:\n    def __init__(self, a: '%s'): ...\n    @property\n    def p(self) -> '%s': ...\n" % (x, y, x, y, y, x, y)
        files = {"§/__init__.py": leaf(extra=ann), "§/s/__init__.py": leaf(c="D", t="U", extra=ann), "§/s/t.py": leaf(c="B", extra=ann), "§2.py": leaf(c="Z")}
        out.append(("refer/%s/%s" % (x, y), files, [["§"], ["§", "§2"]] if x <= y or core.THOROUGH else [["§"]]))
    # alias chains, cycles and hubs
    for n, body in {"chain": ("from .s import D\nE = D\nF = E\n", "from .t import B as D\n", "class B: ...\nA = B\n"),
                    "cycle": ("from . import s\n", "from .. import § if False else None\n" if False else "import §\nfrom . import t\n", "import §.s\nclass B: ...\n"),
                    "star": ("from .s import *\nfrom .s.t import *\n", "from .t import *\nclass D: ...\n__all__ = ['D', 'B']\n", "class B: ...\ndef b(): ...\nbb = 1\n"),
                    "up": ("class Base:\n    def m(self, x: 'Base') -> 'Base': ...\nfrom . import s\n", "from .. import *\n" if False else "import §\nfrom .t import B\n", "from § import Base\nclass B(Base): ...\n"),
                    "child_named_like_package": ("", "", ""),
                    "all_of_everything": ("__all__ = ['s', 't', 'D', 'f', 'v', 'nope', 'type', '', 5]\nfrom .s import t, D\ndef f(): ...\nv = 1\nhidden = 2\ntype = 3\n", "class D: ...\n", "class B: ...\n"),
                    "doc": ('"""Doc ``` fence\n\n    code\n"""\n', '"""/** */ // \\\\ \\" #[x] ]]> \n"""\n', "'''\n\n'''\n"),
                    }.items():
        out.append(("shape/" + n, {"§/__init__.py": body[0], "§/s/__init__.py": body[1], "§/s/t.py": body[2], "§/s/s.py": body[2], "§/§.py": body[2]}, every + [["§.§", "§"]]))
    return out


def rich():
    head = "import typing as _t\n"
    body = leaf("type", "fn", "mod_", "T", '''class Sub(type):
    def __call__(self, *a, **k): ...
    @staticmethod
    def new(f): ...
    def call(self): ...
    set_p = 5
def ref(a: type, b: "§.s.D", c: "§.s.t.B", d: "_t.Callable[[int], T]", e: "list[Sub]") -> "§.s.D | None": ...
_private = 1
class _Hidden:
    def _x(self): ...
def hid(x: _Hidden) -> _Hidden: ...
''')
    return [
        ("pkg", {"§/__init__.py": head + body + "from .s import D, T as W, f\nfrom .s.t import B as B2, f as g2\n__all__ = ['D', 'W', 'f', 'B2', 's', 'fn', 'type', 'T']\n", "§/s/__init__.py": leaf("D", extra="import bisect\nfrom bisect import insort\nfrom colorsys import rgb_to_hls\nfrom .t import B\n__all__ = ['B', 'D']\ndef call(): ...\n"), "§/s/t.py": leaf("B", extra="import §\ndef w(x: '§.type') -> '§.s.D': ...\n")}, ["§"]),
        ("flat", {"§.py": head + body + "__all__ = ['fn', 'Sub']\nself = 1\ndef set_mod_(): ...\nx = 1\ndef get_self(): ...\n"}, ["§"]),
        ("two", {"§/__init__.py": "from .a import A\nfrom .b import *\n", "§/a.py": leaf("A", extra="from .b import Z\ndef z(x: Z) -> Z: ...\n"), "§/b.py": leaf("Z", "zf", "zv", "ZT"), "§x.py": leaf("Y", extra="import §.a\ndef y(x: '§.a.A') -> '§.b.Z': ...\n")}, ["§x", "§.a", "§"]),
    ]


CHECK = C01
