"""C13: requesting and generating bindings leaves the analysed modules and the interpreter as they were.

Space: modules composed of every feature of the alphabet (alone, and all pairs), with every kind of request and
configuration, imported beforehand or by the request. Around each history the whole object graph of the modules is
compared (identity and contents), the interpreter's global state is compared, and every call into the modules' code is
logged."""
import itertools, json, sys
from harness import core, prog
from harness.ctx import Check, Case, Space

FEATURES = {
    "scalars": "i = 1\nf = 1.5\ns = 'x'\nb = b'y'\nn = None\n",
    "containers": "l = [1, [2, {'a': [3]}]]\nd = {'k': {1, 2}, 'z': []}\nt = ([], {})\nba = bytearray(b'q')\n",
    "func": "def fn(a: int, b: 'str' = [], *c, d: list = {}, **e) -> 'dict[str, int]':\n    'doc'\n    raise SystemExit(3)\nfn.mark = [1]\n",
    "nofunc": "def bare(): raise RuntimeError\nlam = lambda x: 1 / 0\n",
    "gen": "def _g():\n    yield 1\n    yield 2\ngen = _g()\nnext(gen)\nit = iter([1, 2, 3])\nrng = iter(range(5))\n",
    "count": "import itertools as _i\ncnt = _i.count()\nzz = zip([1], [2])\n",
    "io": "import io as _io\nsio = _io.StringIO('abc')\nsio.read(1)\n",
    "lru": "import functools as _f\n@_f.lru_cache(None)\ndef cached(x=1): return x\ncached(5)\n",
    "partial": "import functools as _f\npart = _f.partial(print, 1, end='')\n",
    "wrapped": "import functools as _f\ndef _orig(a, b): raise ValueError\n@_f.wraps(_orig)\ndef wrapped(*a, **k): raise ValueError\n",
    "class": "class K:\n    shared = []\n    count = 0\n    def __init__(self, a: int = 3):\n        K.count += 1\n    def m(self): K.shared.append(1)\n    @staticmethod\n    def s(): K.shared.append(2)\n    @classmethod\n    def c(cls): cls.extra = 1\n    @property\n    def p(self) -> int: K.shared.append(3)\n    @p.setter\n    def p(self, v: int): K.shared.append(4)\n",
    "noann": "class Empty: pass\nclass Base:\n    x: int = 3\nclass Derived(Base):\n    pass\nx: int\n",
    "slots": "class Sl:\n    __slots__ = ('a', 'b')\nslobj = Sl()\nslobj.a = [1]\n",
    "meta": "class _M(type):\n    def __getattr__(cls, n):\n        raise AttributeError(n)\n    def __call__(cls, *a):\n        cls.made = True\n        return type.__call__(cls)\n    def __len__(cls): return 1 / 0\n    def __bool__(cls): return 1 / 0\n    def __iter__(cls): return 1 / 0\n    def __setattr__(cls, n, v): type.__setattr__(cls, n, v)\n    def __eq__(cls, o): cls.compared = True; return type.__eq__(cls, o)\n    def __hash__(cls): return 5\nclass Me(metaclass=_M):\n    def m(self): pass\n",
    "ops": "class _Op:\n    def __eq__(self, o): self.seen = 1; return False\n    def __hash__(self): self.seen = 2; return 1\n    def __bool__(self): self.seen = 3; return True\n    def __len__(self): self.seen = 4; return 2\n    def __iter__(self): self.seen = 5; return iter(())\n    def __call__(self, *a): self.seen = 6\n    def __int__(self): self.seen = 7; return 7\n    def __contains__(self, x): self.seen = 8; return True\n    def __getitem__(self, k): self.seen = 9; return k\n    def __setattr__(self, k, v): object.__setattr__(self, k, v)\n    def __delattr__(self, k): object.__delattr__(self, k)\n    def __repr__(self): self.seen = 10; return 'op'\n    def __str__(self): self.seen = 11; return 'op'\n    def __format__(self, s): self.seen = 12; return 'op'\nop = _Op()\n",
    "dyn": "class _Dy:\n    def __getattr__(self, n):\n        if n == '__module__': return 'elsewhere'\n        raise AttributeError(n)\ndy = _Dy()\n",
    "modattr": "def __getattr__(n):\n    if n in ('lazy', 'later'): return {'v': n}\n    raise AttributeError(n)\ndef __dir__(): return sorted(list(globals()) + ['lazy', 'later'])\n",
    "all": "__all__ = ['i0', 'Cls0']\ni0 = 1\nclass Cls0: pass\nhidden = 3\n",
    "alltuple": "__all__ = ('i0', 'nothere')\ni0 = 1\n",
    "desc": "class _D:\n    def __set_name__(self, o, n): self.n = n\n    def __set__(self, i, v): 1 / 0\n    def __delete__(self, i): 1 / 0\nclass Ds:\n    d = _D()\n",
    "cachedprop": "import functools as _f\nclass Cp:\n    @_f.cached_property\n    def v(self): return [1]\ncpobj = Cp()\n",
    "enum": "import enum as _e\nclass Color(_e.Enum):\n    RED = 1\n    GREEN = [2]\n",
    "dataclass": "import dataclasses as _dc\n@_dc.dataclass\nclass Dc:\n    a: int\n    b: list = _dc.field(default_factory=list)\ndcobj = Dc(1)\n",
    "ntuple": "import collections as _c\nNt = _c.namedtuple('Nt', 'a b', defaults=[3])\nntobj = Nt(1)\nod = _c.OrderedDict(a=1)\ndd = _c.defaultdict(list)\ndq = _c.deque([1])\n",
    "typing": "import typing as _t\nT = _t.TypeVar('T')\nclass Ge(_t.Generic[T]):\n    def m(self, x: T) -> 'Ge[T]': ...\ndef ty(a: _t.Optional[int], b: _t.Dict[str, _t.List[int]], c: _t.Callable[[int], str], d: 'Undefined') -> _t.Union[int, str]: ...\nAl = _t.List[int]\n",
    "abc": "import abc as _a\nclass Ab(_a.ABC):\n    @_a.abstractmethod\n    def m(self): ...\n    @classmethod\n    def __subclasshook__(cls, c): cls.asked = True; return NotImplemented\n",
    "instcheck": "class _I(type):\n    def __instancecheck__(c, o): c.asked = 1; return True\n    def __subclasscheck__(c, o): c.asked = 2; return True\nclass In(metaclass=_I): pass\n",
    "fakeclass": "class _F:\n    @property\n    def __class__(self): return dict\nfk = _F()\n",
    "initsub": "class Is:\n    subs = []\n    def __init_subclass__(cls, **k): Is.subs.append(cls)\nclass Is2(Is): pass\n",
    "exc": "class Er(Exception):\n    made = []\n    def __init__(self, *a): Er.made.append(a)\nerr = Er(1)\n",
    "sig": "def sg(a): pass\nimport inspect as _in\nsg.__signature__ = _in.Signature([])\nclass _Sig:\n    def __call__(self): 1 / 0\n",
    "annobj": "class _An:\n    def __init__(self): self.log = []\n    def __call__(self): self.log.append('call')\n    def __eq__(self, o): self.log.append('eq'); return False\n    def __hash__(self): self.log.append('hash'); return 1\n    def __bool__(self): self.log.append('bool'); return True\n    def __getitem__(self, k): self.log.append('item'); return k\ndef an(a: _An(), b=_An()) -> _An(): ...\n",
    "default": "class _De:\n    def __init__(self): self.log = []\n    def __eq__(self, o): self.log.append('eq'); return True\n    def __bool__(self): self.log.append('bool'); return True\n    def __hash__(self): self.log.append('hash'); return 1\ndef de(a=_De(), *, b=_De()): ...\n",
    "weak": "import weakref as _w\nclass Wk: pass\n_keep = Wk()\nwref = _w.ref(_keep)\nwprox = _w.proxy(_keep)\n",
    "ctx": "class _Cx:\n    def __enter__(self): self.entered = 1\n    def __exit__(self, *a): self.exited = 1\n    def __next__(self): self.nexted = 1\n    def __iter__(self): return self\n    def __await__(self): 1 / 0\n    def __del__(self): pass\ncx = _Cx()\n",
    "dictmut": "class _Ld(dict):\n    def __missing__(self, k): self[k] = 1; return 1\n    def __getitem__(self, k): dict.__setitem__(self, 'touched', 1); return 1\nld = _Ld(a=1)\n",
    "callablecls": "class Ca:\n    def __call__(self, x): self.called = x\nca = Ca()\n",
    "selfimport": "import sys as _s\nme = _s.modules[__name__]\nimport os, json\nfrom os import path\nfrom json import loads, JSONDecoder\n",
    "async": "async def co(x: int) -> str: ...\nasync def ag():\n    yield 1\n",
    "text": "ev = []\ndef eff(*a):\n    ev.append(a)\n    return int\ndef tx(a: 'eff()', *b: 'eff(1)', c: 'eff(2) | None' = None, **d: 'eff(3)') -> 'eff(4)': ...\n",
    "texttyping": "import typing as _t\nev2 = []\ndef eff2(*a):\n    ev2.append(a)\n    return int\ndef tt(a: _t.List['eff2()'], b: _t.Optional['eff2(1)'], c: 'dict[str, eff2(2)]', d: _t.Callable[['eff2(3)'], 'eff2(4)']) -> _t.Union['eff2(5)', int]: ...\n",
    "textclass": "ev3 = []\ndef eff3(*a):\n    ev3.append(a)\n    return int\nva: 'eff3()' = 1\nclass Tc:\n    at: 'eff3(1)' = 2\n    only: 'eff3(2)'\n    def __init__(self, a: 'eff3(3)'): ...\n    def __call__(self, a: 'eff3(4)') -> 'eff3(5)': ...\n    def m(self, a: 'eff3(6)') -> 'Tc': ...\n    @property\n    def p(self) -> 'eff3(7)': ...\n    @p.setter\n    def p(self, v: 'eff3(8)'): ...\n    @classmethod\n    def c(cls, a: 'eff3(9)'): ...\n",
    "textbind": "seen = []\ndef tb(a: '(tb_new := 5)', b: '[seen.append(i) for i in range(2)]', c: 'seen.append(1)', d: '__import__(\"colorsys\").hls_to_rgb', e: 'globals().update(zz=1)', f: 'lambda: seen.append(2)') -> 'exec(\"import chunk\")': ...\n",
    "textlookup": "class _Lk:\n    log = []\n    def __getitem__(self, k): _Lk.log.append(k); return k\n    def __or__(self, k): _Lk.log.append('or'); return k\n    def __call__(self, *a): _Lk.log.append('call'); return a\n    def __class_getitem__(cls, k): cls.log.append(k); return cls\nlk = _Lk()\ndef tl(a: 'lk[1]', b: 'lk | int', c: 'lk(1)', d: '_Lk[3]', e: 'lk.log.append') -> 'lk[2]': ...\n",
    "future": "from __future__ import annotations as _an\n",
    "lazytypes": "ev4 = []\ndef eff4(*a):\n    ev4.append(a)\n    return int\ntype Lz = eff4(1)\ntype Lg[T] = list[eff4(2)]\ndef lf[T: eff4(3), *U](a: T, b: Lz, c: 'Lg[int]') -> T: ...\nclass Lc[T: (eff4(4), eff4(5))]:\n    def m[S: eff4(6)](self, a: S) -> T: ...\n",
    "lazyimport": "def li(a: 'wave.Wave_read', b: 'xml.sax.handler.X', c: 'colorsys.x.y') -> 'mailcap': ...\ndef lj(a: 'xml.nosuch'): ...\n",
    "wrapsig": "import functools as _f\nev5 = []\nclass _Sg:\n    def __init__(self, f): self.f = f; _f.update_wrapper(self, f)\n    def __call__(self, *a): ev5.append('called')\n@_Sg\ndef wsg(a: int): ev5.append('body')\nclass Wsg:\n    @_Sg\n    def m(self): ev5.append('m')\n",
    "inherit": "class Pa:\n    reg = {}\n    def m(self, a: 'Pa') -> 'Pa': ...\nclass Ch(Pa):\n    def n(self): ...\n",
    "classops": "class _Co:\n    def __init__(self): object.__setattr__(self, 'log', [])\n    def __eq__(self, o): self.log.append('eq'); return False\n    def __ne__(self, o): self.log.append('ne'); return True\n    def __lt__(self, o): self.log.append('lt'); return True\n    def __hash__(self): self.log.append('hash'); return 1\n    def __bool__(self): self.log.append('bool'); return True\n    def __len__(self): self.log.append('len'); return 2\n    def __iter__(self): self.log.append('iter'); return iter(())\n    def __next__(self): self.log.append('next'); return 1\n    def __call__(self, *a, **k): self.log.append('call'); return self\n    def __contains__(self, x): self.log.append('in'); return True\n    def __getitem__(self, k): self.log.append('item'); return k\n    def __index__(self): self.log.append('index'); return 1\n    def __int__(self): self.log.append('int'); return 1\n    def __float__(self): self.log.append('float'); return 1.0\n    def __str__(self): self.log.append('str'); return 'op'\n    def __format__(self, s): self.log.append('format'); return 'op'\n    def __dir__(self): self.log.append('dir'); return []\n    def __reduce_ex__(self, p): self.log.append('reduce'); return 'op'\n    def __copy__(self): self.log.append('copy'); return self\n    def __enter__(self): self.log.append('enter'); return self\n    def __fspath__(self): self.log.append('fspath'); return '/tmp'\n    def __bytes__(self): self.log.append('bytes'); return b'op'\n    def __delattr__(self, n): self.log.append('del')\n    def __setattr__(self, n, v): self.log.append('set')\nclass Co:\n    op = _Co()\n    def m(self): ...\n    m.mark = _Co()\nco = _Co()\n",
    "classiter": "import io as _io\nclass Ci:\n    sio = _io.StringIO('abc')\n    it = iter([1, 2, 3])\n    gen = (x for x in [1, 2])\n    l = [1]\n    d = {'a': []}\n    s = {1}\n",
    "defaultops": "class _Do:\n    def __init__(self): object.__setattr__(self, 'log', [])\n    def __eq__(self, o): self.log.append('eq'); return False\n    def __ne__(self, o): self.log.append('ne'); return True\n    def __lt__(self, o): self.log.append('lt'); return True\n    def __hash__(self): self.log.append('hash'); return 1\n    def __bool__(self): self.log.append('bool'); return True\n    def __len__(self): self.log.append('len'); return 2\n    def __iter__(self): self.log.append('iter'); return iter(())\n    def __next__(self): self.log.append('next'); return 1\n    def __call__(self, *a, **k): self.log.append('call'); return self\n    def __contains__(self, x): self.log.append('in'); return True\n    def __getitem__(self, k): self.log.append('item'); return k\n    def __index__(self): self.log.append('index'); return 1\n    def __int__(self): self.log.append('int'); return 1\n    def __float__(self): self.log.append('float'); return 1.0\n    def __str__(self): self.log.append('str'); return 'op'\n    def __format__(self, s): self.log.append('format'); return 'op'\n    def __dir__(self): self.log.append('dir'); return []\n    def __reduce_ex__(self, p): self.log.append('reduce'); return 'op'\n    def __copy__(self): self.log.append('copy'); return self\n    def __enter__(self): self.log.append('enter'); return self\n    def __fspath__(self): self.log.append('fspath'); return '/tmp'\n    def __bytes__(self): self.log.append('bytes'); return b'op'\n    def __delattr__(self, n): self.log.append('del')\n    def __setattr__(self, n, v): self.log.append('set')\ndef do(a=_Do(), *, b=_Do()): ...\nclass Do:\n    def __init__(self, a=_Do()): ...\n    def m(self, a=_Do(), *c, b=_Do()): ...\n",
    "annops": "class _Ao:\n    def __init__(self): object.__setattr__(self, 'log', [])\n    def __eq__(self, o): self.log.append('eq'); return False\n    def __ne__(self, o): self.log.append('ne'); return True\n    def __lt__(self, o): self.log.append('lt'); return True\n    def __hash__(self): self.log.append('hash'); return 1\n    def __bool__(self): self.log.append('bool'); return True\n    def __len__(self): self.log.append('len'); return 2\n    def __iter__(self): self.log.append('iter'); return iter(())\n    def __next__(self): self.log.append('next'); return 1\n    def __call__(self, *a, **k): self.log.append('call'); return self\n    def __contains__(self, x): self.log.append('in'); return True\n    def __getitem__(self, k): self.log.append('item'); return k\n    def __index__(self): self.log.append('index'); return 1\n    def __int__(self): self.log.append('int'); return 1\n    def __float__(self): self.log.append('float'); return 1.0\n    def __format__(self, s): self.log.append('format'); return 'op'\n    def __dir__(self): self.log.append('dir'); return []\n    def __reduce_ex__(self, p): self.log.append('reduce'); return 'op'\n    def __copy__(self): self.log.append('copy'); return self\n    def __enter__(self): self.log.append('enter'); return self\n    def __fspath__(self): self.log.append('fspath'); return '/tmp'\n    def __bytes__(self): self.log.append('bytes'); return b'op'\n    def __delattr__(self, n): self.log.append('del')\n    def __setattr__(self, n, v): self.log.append('set')\ndef ao(a: _Ao(), *, b: _Ao() = 1) -> _Ao(): ...\nclass Ao:\n    x: _Ao() = 3\n    def m(self, a: _Ao()) -> _Ao(): ...\n    @property\n    def p(self) -> _Ao(): ...\n",
    "propobj": "class _Pg:\n    def __init__(self): object.__setattr__(self, 'log', [])\n    def __ne__(self, o): self.log.append('ne'); return True\n    def __lt__(self, o): self.log.append('lt'); return True\n    def __hash__(self): self.log.append('hash'); return 1\n    def __bool__(self): self.log.append('bool'); return True\n    def __len__(self): self.log.append('len'); return 2\n    def __iter__(self): self.log.append('iter'); return iter(())\n    def __next__(self): self.log.append('next'); return 1\n    def __call__(self, *a, **k): self.log.append('call'); return self\n    def __contains__(self, x): self.log.append('in'); return True\n    def __getitem__(self, k): self.log.append('item'); return k\n    def __index__(self): self.log.append('index'); return 1\n    def __int__(self): self.log.append('int'); return 1\n    def __float__(self): self.log.append('float'); return 1.0\n    def __str__(self): self.log.append('str'); return 'op'\n    def __format__(self, s): self.log.append('format'); return 'op'\n    def __dir__(self): self.log.append('dir'); return []\n    def __reduce_ex__(self, p): self.log.append('reduce'); return 'op'\n    def __copy__(self): self.log.append('copy'); return self\n    def __enter__(self): self.log.append('enter'); return self\n    def __fspath__(self): self.log.append('fspath'); return '/tmp'\n    def __bytes__(self): self.log.append('bytes'); return b'op'\n    def __delattr__(self, n): self.log.append('del')\n    def __setattr__(self, n, v): self.log.append('set')\n_pg = _Pg()\nclass Po:\n    p = property(_pg, _pg, _pg, 'doc')\n    s = staticmethod(_pg)\n    c = classmethod(_pg)\n",
    "docobj": "class _Oo:\n    def __init__(self): object.__setattr__(self, 'log', [])\n    def __eq__(self, o): self.log.append('eq'); return False\n    def __ne__(self, o): self.log.append('ne'); return True\n    def __lt__(self, o): self.log.append('lt'); return True\n    def __hash__(self): self.log.append('hash'); return 1\n    def __bool__(self): self.log.append('bool'); return True\n    def __len__(self): self.log.append('len'); return 2\n    def __iter__(self): self.log.append('iter'); return iter(())\n    def __next__(self): self.log.append('next'); return 1\n    def __call__(self, *a, **k): self.log.append('call'); return self\n    def __contains__(self, x): self.log.append('in'); return True\n    def __getitem__(self, k): self.log.append('item'); return k\n    def __index__(self): self.log.append('index'); return 1\n    def __int__(self): self.log.append('int'); return 1\n    def __float__(self): self.log.append('float'); return 1.0\n    def __str__(self): self.log.append('str'); return 'op'\n    def __format__(self, s): self.log.append('format'); return 'op'\n    def __dir__(self): self.log.append('dir'); return []\n    def __reduce_ex__(self, p): self.log.append('reduce'); return 'op'\n    def __copy__(self): self.log.append('copy'); return self\n    def __enter__(self): self.log.append('enter'); return self\n    def __fspath__(self): self.log.append('fspath'); return '/tmp'\n    def __bytes__(self): self.log.append('bytes'); return b'op'\n    def __delattr__(self, n): self.log.append('del')\n    def __setattr__(self, n, v): self.log.append('set')\ndef oo(): ...\noo.__doc__ = _Oo()\nclass Oo:\n    __doc__ = _Oo()\n    def m(self): ...\n    m.__doc__ = _Oo()\n",
    "funcattrs": "class _Fa:\n    def __init__(self): object.__setattr__(self, 'log', [])\n    def __eq__(self, o): self.log.append('eq'); return False\n    def __ne__(self, o): self.log.append('ne'); return True\n    def __lt__(self, o): self.log.append('lt'); return True\n    def __hash__(self): self.log.append('hash'); return 1\n    def __bool__(self): self.log.append('bool'); return True\n    def __len__(self): self.log.append('len'); return 2\n    def __iter__(self): self.log.append('iter'); return iter(())\n    def __next__(self): self.log.append('next'); return 1\n    def __call__(self, *a, **k): self.log.append('call'); return self\n    def __contains__(self, x): self.log.append('in'); return True\n    def __getitem__(self, k): self.log.append('item'); return k\n    def __index__(self): self.log.append('index'); return 1\n    def __int__(self): self.log.append('int'); return 1\n    def __float__(self): self.log.append('float'); return 1.0\n    def __str__(self): self.log.append('str'); return 'op'\n    def __format__(self, s): self.log.append('format'); return 'op'\n    def __dir__(self): self.log.append('dir'); return []\n    def __reduce_ex__(self, p): self.log.append('reduce'); return 'op'\n    def __copy__(self): self.log.append('copy'); return self\n    def __enter__(self): self.log.append('enter'); return self\n    def __fspath__(self): self.log.append('fspath'); return '/tmp'\n    def __bytes__(self): self.log.append('bytes'); return b'op'\n    def __delattr__(self, n): self.log.append('del')\n    def __setattr__(self, n, v): self.log.append('set')\ndef fa(a=1): ...\nfa.x = _Fa()\nfa.__module__ = _Fa()\nfa.__type_params__ = ()\n",
    "strsub": "class _Ss(str):\n    log = []\n    def __eq__(self, o): _Ss.log.append('eq'); return str.__eq__(self, o)\n    def __hash__(self): _Ss.log.append('hash'); return str.__hash__(self)\n    def __len__(self): _Ss.log.append('len'); return 0\n    def split(self, *a): _Ss.log.append('split'); return []\n    def encode(self, *a): _Ss.log.append('encode'); return b''\n    def __iter__(self): _Ss.log.append('iter'); return iter('')\n    def __str__(self): _Ss.log.append('str'); return 'x'\nss = _Ss('int')\ndef sf(a: _Ss('int')) -> _Ss('str'): ...\nclass Sc:\n    __doc__ = _Ss('hello')\n    k = _Ss('v')\n",
    "classattr": "class At:\n    sub = [1, 2]\n    obj = object()\n    fn = len\n    cls = dict\n    class Nested:\n        log = []\n        def __init__(self): At.Nested.log.append(1)\n",
}
REQ = {
    "name": lambda m: [{"op": "module_name", "name": m}],
    "names": lambda m: [{"op": "module_names", "names": [m, m]}],
    "object": lambda m: [{"op": "module", "name": m}],
    "objects": lambda m: [{"op": "modules", "names": [m]}],
    "sub": lambda m: [{"op": "module_name", "name": m + ".sub"}],
}
CFGS = {"default": {}, "private": {"include_private": True}, "deps": {"generate_dependencies": True},
        "nodocs": {"generate_docs": False, "generate_preludes": False}, "shown": {"suppress_python_stdout": False, "suppress_python_stderr": False},
        "flat": {"traverse_submodules": False}}
# Code that reading an attribute, listing a module or displaying a class or annotation runs.
ATTRIBUTE_ACCESS = ("__getattr__", "__getattribute__", "__dir__", "__get__", "__class__", "<lambda>.__get__")
DISPLAY = ("_M.__repr__", "_An.__repr__")


class C13(Check):
    ID = "C13"
    TECHNIQUE = "bounded exhaustive exploration of module feature combinations and request histories with full object-graph comparison and a call log on the real engine"
    NOTE = "Every single feature under every request kind and configuration, every pair of features under one request, every history of two requests; the complete object graph of the modules is compared by identity and contents, interpreter globals are compared, calls into module code are logged. State held by C extensions outside the visible object graph is not compared."
    ASSUMPTIONS = ["inspect.signature compares a callable object with type and object (==); getters with their own __eq__ are left out",
                   "importing a submodule binds it in its package, as every Python import does",
                   "displaying a class or an annotation (repr) is part of reading it"]
    RULE = "one case = (features, request history, configuration, imported before or by the request); distinct = distinct (features, calls made)"

    def space(self):
        sp = Space()
        feats = list(FEATURES)

        def add(fs, reqs, cfg, warm):
            sp.states += 1
            sp.transitions += 1
            sp.add(Case("%s|%s|%s|%s" % ("+".join(fs), ",".join(reqs), cfg, "warm" if warm else "cold"),
                        feats=list(fs), reqs=list(reqs), cfg=cfg, warm=warm))
        for f in feats:
            for cfg in CFGS:
                for r in REQ:
                    add([f], [r], cfg, True)
                add([f], ["name"], cfg, False)
            if f != "future":
                add(["future", f], ["name"], "default", True)
            for r in itertools.product(REQ, REQ):
                add([f], r, "default", True)
        feats.remove("future")  # only valid at the start
        for p in itertools.combinations(feats, 2):
            add(p, ["name"], "default", True)
            add(p, ["name"], "private", True)
        if core.THOROUGH:
            for p in itertools.combinations(feats, 3):
                add(p, ["name"], "private", True)
            for f in feats:
                for r in itertools.product(REQ, REQ, REQ):
                    add([f], r, "private", True)
        return sp

    def judge(self, b, cases):
        root = prog.newdir("c13")
        jobs, want = [], {}
        refs = {}
        for i, c in enumerate(cases):
            m = "s%05d" % i
            src = "".join(FEATURES[f] for f in c.feats)
            prog.write_files(root, {m + "/__init__.py": '"""doc"""\n' + src, m + "/sub.py": "q = []\ndef qq(): q.append(1)\n"})
            mods = [m, m + ".sub"]
            ops = []
            reqs = sum((REQ[r](m) for r in c.reqs), [])
            if c.warm:
                ops.append({"op": "py", "code": "import mc_state, %s, %s.sub\nmc_state.begin(%r, [%r])" % (m, m, mods, root + "/" + m)})
                ops += [{"op": "new", "cfg": CFGS[c.cfg]}] + reqs
                ops.append({"op": "py", "code": "import mc_state\nout = mc_state.check(())"})
                ops.append({"op": "generate", "ast": False})
                ops.append({"op": "py", "code": "import mc_state\nout = mc_state.check(())"})
            else:
                ops.append({"op": "py", "code": "import mc_state, %s, %s.sub\nout = mc_state.shape(%r)\nmc_state.stop(%r)" % (m, m, mods, m)})
                ops += [{"op": "new", "cfg": CFGS[c.cfg]}] + reqs + [{"op": "generate", "ast": False}]
                ops.append({"op": "py", "code": "import mc_state, %s.sub\nout = mc_state.shape(%r)" % (m, mods)})
            ops.append({"op": "py", "code": "import mc_state\nmc_state.stop(%r)" % m})
            jobs.append({"id": c.id, "ops": ops})
        # a first request outside the measurement loads the standard library modules the engine uses
        reps = core.run_jobs(b, self.primed(jobs), sys_path=[root, core.HPY], timeout=60)
        bad = {}
        for c in cases:
            r = reps[c.id]
            v = []
            if "crash" in r:
                bad[c.id] = [("crash", r["crash"])]
                continue
            rs = r["res"][4:]
            if any("panic" in x for x in rs):
                bad[c.id] = [("panic", str([x for x in rs if "panic" in x]))]
                continue
            nreq = len(c.reqs)
            if c.warm:
                for when, x in (("the request", rs[2 + nreq]), ("generate()", rs[4 + nreq])):
                    if "out" not in x:
                        raise core.CheckError("no snapshot: %r" % (rs,))
                    s = json.loads(x["out"])
                    if s["diff"]:
                        v.append(("changed", "after %s: %s" % (when, s["diff"])))
                    if s["gone"]:
                        v.append(("modules", "after %s: replaced or removed from sys.modules: %s" % (when, s["gone"])))
                    if [k for k in s["mods"] if c.cfg != "deps"]:
                        v.append(("modules", "after %s: new in sys.modules: %s" % (when, s["mods"])))
                    if s["world"]:
                        v.append(("world", "after %s: %s" % (when, s["world"])))
                    calls = [q for q in s["calls"] if not q.endswith(ATTRIBUTE_ACCESS) and q not in DISPLAY]
                    if calls:
                        v.append(("called", "by %s: %s" % (when, calls)))
                self.outcome((tuple(c.feats), tuple(s["calls"])))
            else:
                a, z = rs[0].get("out"), rs[3 + nreq].get("out")
                if not a or not z:
                    raise core.CheckError("no snapshot: %r" % (rs,))
                if a != z:
                    A, Z = json.loads(a), json.loads(z)
                    v.append(("changed", "a plain import gives %s, after generation there is %s" %
                              ([x for x in A if x not in Z][:3], [x for x in Z if x not in A][:3])))
                self.outcome((tuple(c.feats), "cold"))
            if v:
                bad[c.id] = v[:4]
        return bad

    def primed(self, jobs):
        prime = [{"op": "new"}, {"op": "module_from_str", "src": "def f(a: int = 1): ...\nclass A:\n    def m(self): ...\n    @property\n    def p(self): ...\n", "name": "mc_prime"},
                 {"op": "py", "code": "import sys\nsys.modules.pop('mc_prime', None)\nimport inspect, pkgutil, io, typing, random, locale, json, os, datetime, pathlib, ipaddress, decimal, functools, collections.abc"},
                 {"op": "py", "code": "import mc_state; import %s" % ", ".join(
                     ["itertools", "functools", "enum", "dataclasses", "collections", "abc", "weakref", "json", "encodings.idna"])}]
        return [dict(j, ops=prime + j["ops"]) for j in jobs]


CHECK = C13
