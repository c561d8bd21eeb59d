"""Snapshots of the state of Python modules and of the interpreter, and a log of the calls made into them."""
import builtins, gc, json, os, signal, sys, threading, types, warnings

SKIP = {"__builtins__", "__cached__", "__file__", "__loader__", "__spec__", "__package__"}
_td = type.__dict__["__dict__"].__get__


class Snap:
    """`shape`: the object graph with objects numbered in order of the first visit; `ids`: their identities."""

    def __init__(self, mods):
        self.mods = mods
        self.n, self.ids, self.paths, self.keep = {}, [], [], []
        self.shape = []

    def take(self):
        for m in self.mods:
            self.obj(sys.modules.get(m), m)
        return self

    def leaf(self, path, text):
        self.shape.append((path, text))

    def obj(self, o, path, depth=0):
        t = type(o)
        if o is None or t in (bool, int, float, complex, str, bytes, type(...)):
            self.leaf(path, repr(o))
            return
        if id(o) in self.n:
            self.leaf(path, "-> #%d" % self.n[id(o)])
            return
        self.n[id(o)] = len(self.n)
        self.ids.append((path, id(o)))
        self.keep.append(o)
        tname = "%s.%s" % (t.__module__ if isinstance(t.__module__, str) else "?", t.__qualname__)
        self.leaf(path, "#%d %s" % (self.n[id(o)], tname))
        if depth > 9:
            return
        if issubclass(t, types.ModuleType):
            if depth and o.__dict__.get("__name__") not in self.mods and o not in [sys.modules.get(m) for m in self.mods]:
                return
            self.attrs(types.ModuleType.__dict__["__dict__"].__get__(o), path, depth, SKIP)
        elif issubclass(t, type):
            mod = _td(o).get("__module__")
            if mod not in self.mods:
                return
            self.leaf(path + ".<bases>", repr([id(b) and b.__name__ for b in type.__dict__["__bases__"].__get__(o)]))
            self.leaf(path + ".<name>", type.__dict__["__name__"].__get__(o) + "/" + type.__dict__["__qualname__"].__get__(o))
            self.attrs(_td(o), path, depth, {"__weakref__", "__dict__", "__static_attributes__", "__firstlineno__"})
        elif t is types.FunctionType:
            if o.__code__.co_filename.startswith(sys.prefix + "/lib") or o.__globals__.get("__name__") not in self.mods:
                return
            for a in ("__name__", "__qualname__", "__doc__", "__module__", "__defaults__", "__kwdefaults__",
                      "__annotations__", "__code__", "__closure__", "__type_params__"):
                self.obj(types.FunctionType.__dict__[a].__get__(o) if a in types.FunctionType.__dict__ else getattr(o, a),
                         path + "." + a, depth + 1)
            self.attrs(o.__dict__, path, depth, ())
        elif t in (list, tuple) or (issubclass(t, (list, tuple)) and t.__module__ in self.mods):
            for i, x in enumerate(list.__iter__(o) if issubclass(t, list) else tuple.__iter__(o)):
                self.obj(x, "%s[%d]" % (path, i), depth + 1)
        elif t in (set, frozenset):
            self.leaf(path, repr(sorted(map(repr, o))) if all(type(x) in (str, int) for x in o) else "set of %d" % len(o))
        elif issubclass(t, dict):
            for i, (k, v) in enumerate(dict.items(o)):
                self.obj(k, "%s{%d}" % (path, i), depth + 1)
                self.obj(v, "%s{%s}" % (path, repr(k)[:40] if type(k) in (str, int) else i), depth + 1)
        elif t is bytearray:
            self.leaf(path, bytes(o).hex())
        elif t in (staticmethod, classmethod):
            self.obj(o.__func__, path + ".__func__", depth + 1)
        elif t is property:
            for a in ("fget", "fset", "fdel", "__doc__"):
                self.obj(getattr(o, a), path + "." + a, depth + 1)
        elif t is types.MethodType:
            self.obj(o.__func__, path + ".__func__", depth + 1)
            self.obj(o.__self__, path + ".__self__", depth + 1)
        elif t is types.GeneratorType:
            self.leaf(path, "gen at %s" % (o.gi_frame.f_lasti if o.gi_frame else "end"))
        elif tname in ("builtins.list_iterator", "builtins.range_iterator", "builtins.tuple_iterator"):
            self.leaf(path, "iter %d" % o.__length_hint__())
        elif tname in ("_io.StringIO", "_io.BytesIO"):
            self.leaf(path, "pos %d %r" % (o.tell(), o.getvalue()))
        elif tname == "functools._lru_cache_wrapper":
            self.leaf(path, repr(o.cache_info()))
            self.attrs(o.__dict__, path, depth, ())
        elif tname == "itertools.count":
            self.leaf(path, repr(o))
        else:
            try:
                d = object.__getattribute__(o, "__dict__")
            except AttributeError:
                d = {}
            if isinstance(d, dict):
                self.attrs(d, path, depth, ())
            for c in t.__mro__:
                for s in _td(c).get("__slots__", ()) if c.__module__ in self.mods else ():
                    try:
                        self.obj(_td(c)[s].__get__(o), path + "." + s, depth + 1)
                    except (AttributeError, KeyError):
                        self.leaf(path + "." + s, "unset")

    def attrs(self, d, path, depth, skip):
        for k, v in list(d.items()):
            if k == '__annotations__' and type(v) is dict and not v:
                continue    # created by CPython when it is read
            if k not in skip:
                self.obj(v, "%s.%s" % (path, k), depth + 1)


def world():
    import locale, random
    return {
        "env": sorted(os.environ.items()), "cwd": os.getcwd(), "path": list(sys.path),
        "meta": [id(x) for x in sys.meta_path], "hooks": [id(x) for x in sys.path_hooks],
        "filters": [repr(f) for f in warnings.filters], "rec": sys.getrecursionlimit(),
        "sig": [id(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)],
        "excepthook": id(sys.excepthook), "displayhook": id(sys.displayhook), "trace": repr(sys.gettrace()),
        "profile": repr(sys.getprofile()), "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "threads": threading.active_count(), "builtins": sorted(k for k in vars(builtins) if k != "_"),
        "builtin ids": [id(v) for k, v in sorted(vars(builtins).items()) if k != "_"],
        "random": hash(random.getstate()), "locale": locale.setlocale(locale.LC_ALL),
        "argv": list(sys.argv) if hasattr(sys, "argv") else None, "dont_write": sys.dont_write_bytecode,
        "switch": sys.getswitchinterval(), "intmax": sys.get_int_max_str_digits(),
        "stdin": id(sys.stdin), "import": id(builtins.__import__), "fds": len(os.listdir("/proc/self/fd")),
    }


CALLS = []
TOOL = 4
FILES = ()
S0 = W0 = M0 = None


def _start(code, off):
    if code.co_filename in FILES or code.co_filename.startswith(PRE):
        CALLS.append(code.co_qualname)


PRE = ("/nonexistent",)


def begin(mods, prefixes):
    """Take the reference snapshot and start logging calls into files below `prefixes`."""
    global S0, W0, M0, PRE
    import inspect, pkgutil, random, locale
    del CALLS[:]
    PRE = tuple(prefixes)
    S0 = Snap(mods).take()
    W0 = world()
    M0 = {k: id(v) for k, v in sys.modules.items()}
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "mc")
    mon.register_callback(TOOL, mon.events.PY_START, _start)
    mon.set_events(TOOL, mon.events.PY_START)


def check(allowed_new):
    """What changed since begin(), as JSON."""
    mon = sys.monitoring
    mon.set_events(TOOL, 0)
    calls = list(CALLS)
    out = {"calls": sorted(set(calls)), "n": len(calls)}
    s = Snap(S0.mods).take()
    diff = []
    if s.shape != S0.shape:
        a, b = set(S0.shape), set(s.shape)
        diff = ["was %s: %s" % x for x in S0.shape if x not in b][:3] + ["is %s: %s" % x for x in s.shape if x not in a][:3]
        diff = diff or ["order of attributes changed"]
    elif s.ids != S0.ids:
        diff = ["%s is a different object" % p for (p, i), (q, j) in zip(S0.ids, s.ids) if i != j][:3]
    out["diff"] = diff
    w = world()
    out["world"] = ["%s: %r -> %r" % (k, W0[k], w[k]) for k in w if w[k] != W0[k]]
    out["mods"] = sorted(k for k in set(sys.modules) - set(M0) if k not in allowed_new)
    out["gone"] = sorted(k for k in M0 if k not in sys.modules or id(sys.modules[k]) != M0[k])
    out["shape"] = len(s.shape)
    mon.set_events(TOOL, mon.events.PY_START)
    return json.dumps(out)


def shape(mods):
    return json.dumps(Snap(mods).take().shape)


def stop(prefix):
    if sys.monitoring.get_tool(TOOL) is not None:
        sys.monitoring.set_events(TOOL, 0)
    for k in list(sys.modules):
        if k == prefix or k.startswith(prefix + "."):
            del sys.modules[k]
