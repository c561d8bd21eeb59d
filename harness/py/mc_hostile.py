"""Objects that misbehave in one chosen way when they are inspected."""
import functools, inspect, sys, types, typing

EXC = {"value": ValueError, "attr": AttributeError, "type": TypeError, "import": ImportError, "key": KeyError, "recursion": RecursionError,
       "stop": StopIteration, "notimpl": NotImplementedError, "unicode": lambda *a: UnicodeDecodeError("utf-8", b"x", 0, 1, "bad")}


class BadStr:
    def __str__(self): raise ValueError("str")
    __repr__ = __str__


class Tree:
    """Every attribute of it is another such object."""
    def __getattr__(self, n): return Tree()


class NoneStr:
    def __str__(self): return None
    __repr__ = __str__


VALUES = {"none": lambda s: None, "five": lambda s: 5, "empty": lambda s: "", "colons": lambda s: "a::b", "dot": lambda s: ".", "lead": lambda s: "..x", "inner": lambda s: "a..b", "tail": lambda s: "a.",
          "dash": lambda s: "a-b", "nul": lambda s: "a\0\nb", "sur": lambda s: "a\ud800", "self": lambda s: s, "bytes": lambda s: b"p", "badstr": lambda s: BadStr(), "nonestr": lambda s: NoneStr(),
          "tree": lambda s: Tree(), "list": lambda s: [], "type": lambda s: int, "Self": lambda s: "Self", "quote": lambda s: "\"'{}", "brackets": lambda s: "list[", "space": lambda s: " ", "lambda": lambda s: (lambda *a, **k: None),
          "dict": lambda s: {}, "true": lambda s: True, "p": lambda s: "p", "psub": lambda s: "p.sub", "pA": lambda s: "A", "locals": lambda s: "f.<locals>.g", "prop": lambda s: property(lambda x: 1), "angle": lambda s: "<class 'x'>", "sup": lambda s: "super", "num": lambda s: "1a"}


def act(beh, obj, name):
    if beh in EXC:
        raise EXC[beh]("hostile " + name)
    return VALUES[beh](obj)


def ga(base, target, beh):
    def __getattribute__(self, n):
        if target == "*" or target == n:
            return act(beh, self, n)
        return base.__getattribute__(self, n)
    return __getattribute__


def _body(mod):
    return {"__module__": mod, "__init__": lambda self, a=1: None, "m": lambda self, x: x, "p": property(lambda self: 1), "v": 5, "__doc__": "Doc."}


def klass(mod, target, beh):
    return type("M", (type,), {"__getattribute__": ga(type, target, beh)})("hx", (), _body(mod))


def inst(mod, target, beh):
    return type("I", (), dict(_body(mod), __getattribute__=ga(object, target, beh)))()


def callable_(mod, target, beh):
    return type("C", (), dict(_body(mod), __getattribute__=ga(object, target, beh), __call__=lambda self, a: a))()


def partial(mod, target, beh):
    t = type("partial", (functools.partial,), {"__getattribute__": ga(functools.partial, target, beh), "__module__": "functools"})
    return t(lambda a, b: a)


def prop(mod, target, beh):
    return type("P", (property,), {"__getattribute__": ga(property, target, beh)})(lambda self: 1, lambda self, v: None)


def cmeth(mod, target, beh):
    return type("CM", (classmethod,), {"__getattribute__": ga(classmethod, target, beh)})(lambda cls, a: a)


def smeth(mod, target, beh):
    return type("SM", (staticmethod,), {"__getattribute__": ga(staticmethod, target, beh)})(lambda a: a)


def module(mod, target, beh):
    m = type("Mod", (types.ModuleType,), {"__getattribute__": ga(types.ModuleType, target, beh)})("hxmod")
    return m


def signed(mod, target, beh):
    """A function with a signature object that misbehaves."""
    def hx(a, *b, c=1, **d): pass
    hx.__module__ = mod
    s = inspect.signature(hx)
    t = type("S", (inspect.Signature,), {"__getattribute__": ga(inspect.Signature, target, beh)})
    hx.__signature__ = t(list(s.parameters.values()))
    return hx


def param(mod, target, beh):
    """A function whose signature has a parameter that misbehaves."""
    def hx(a, *b, c=1, **d): pass
    hx.__module__ = mod
    t = type("Pa", (inspect.Parameter,), {"__getattribute__": ga(inspect.Parameter, target, beh)})
    class S(inspect.Signature):
        __slots__ = ()
        parameters = property(lambda self: types.MappingProxyType({"a": t("a", inspect.Parameter.POSITIONAL_OR_KEYWORD)}))
    hx.__signature__ = S()
    return hx


def func(mod, target, beh):
    """A plain function with a strange attribute."""
    def hx(a: int, *b, c=1, **d) -> int: pass
    hx.__module__ = mod
    try:
        setattr(hx, target, act(beh, hx, target))
    except Exception:
        hx.__dict__[target] = act(beh, hx, target) if beh not in EXC else None
    return hx


def plain_class(mod, target, beh):
    c = type("hx", (), _body(mod))
    try:
        setattr(c, target, act(beh, c, target))
    except Exception:
        pass
    return c


def descriptor(mod, target, beh):
    class D:
        def __get__(self, o, t=None):
            return act(beh, self, "__get__")
        def __set__(self, o, v):
            return act(beh, self, "__set__")
    return D()


def dunder(mod, target, beh):
    """An instance whose type defines a special method that misbehaves."""
    return type("Du", (), {target: lambda self, *a, **k: act(beh, self, target), "__module__": mod})()


def meta_dunder(mod, target, beh):
    """A class whose metaclass defines a special method that misbehaves."""
    return type("MD", (type,), {target: lambda self, *a, **k: act(beh, self, target)})("hx", (), _body(mod))


def sub_dunder(base):
    def make(mod, target, beh):
        return type("Bu", (base,), {target: lambda self, *a, **k: act(beh, self, target), "__module__": mod})()
    return make


KINDS = {"klass": klass, "inst": inst, "callable": callable_, "partial": partial, "prop": prop, "cmeth": cmeth, "smeth": smeth, "module": module, "signed": signed, "param": param, "func": func,
         "plain_class": plain_class, "descriptor": descriptor, "dunder": dunder, "meta_dunder": meta_dunder, "dictlike": sub_dunder(dict), "listlike": sub_dunder(list), "strlike": sub_dunder(str), "intlike": sub_dunder(int)}


def make(mod, kind, target, beh):
    try:
        return KINDS[kind](mod, target, beh)
    except Exception:  # Python itself refuses such an object
        return None


def annotated(mod, ann, where):
    """A function or class with a hostile annotation."""
    def hx(a, *b, c=1, **d): pass
    hx.__module__ = mod
    hx.__annotations__ = {k: ann for k in {"param": ("a",), "ret": ("return",), "var": ("b", "d"), "all": ("a", "b", "c", "d", "return")}[where]}
    return hx


def default(mod, obj):
    def hx(a=obj, *, b=obj): pass
    hx.__module__ = mod
    return hx


def nest(n, wrap=list):
    t = int
    for _ in range(n):
        t = wrap[t]
    return t


class Dict(dict):
    """A dictionary that raises in one of its methods."""
    def __init__(self, name, *a):
        dict.__init__(self, *a)
        self._n = name


def bad_dict(name, content):
    return type("BD", (dict,), {name: lambda self, *a: act("value", self, name)})(content)


class Nth(str):
    """Equal to every attribute name, but only at the nth comparison and after."""
    def __new__(cls, k):
        s = str.__new__(cls, "nth")
        s.k, s.n = k, 0
        return s
    def __eq__(self, o):
        self.n += 1
        return self.n >= self.k
    __hash__ = str.__hash__


def badparam(mod, name, kind):
    """A function whose signature has a parameter of that name."""
    def hx(a): pass
    hx.__module__ = mod
    class P(inspect.Parameter):
        pass
    P.name = property(lambda s: name)
    class S(inspect.Signature):
        parameters = property(lambda s: {"a": P("a", getattr(inspect.Parameter, kind))})
    hx.__signature__ = S()
    return hx
