"""Helpers available to the compiled cases and to the reference runs: canonical display of values."""
import importlib, re, sys, types
I = importlib.import_module
KEEP = [object() for _ in range(8)]      # objects to be recognised by identity
G = {"I": I, "sys": sys, "types": types, "importlib": importlib}


def show(o, depth=0):
    t = type(o)
    n = t.__name__
    if depth > 12:
        return "..."
    if o is None or t in (bool, int, float, complex, str, bytes, type(...)):
        return repr(o)
    if t in (list, tuple):
        b = ", ".join(show(x, depth + 1) for x in o)
        return ("[%s]" if t is list else "(%s)") % b
    if t in (set, frozenset):
        return n + "{" + ", ".join(sorted(show(x, depth + 1) for x in o)) + "}"
    if t is dict:
        return "{" + ", ".join(sorted(show(k, depth + 1) + ": " + show(v, depth + 1) for k, v in o.items())) + "}"
    if t is bytearray:
        return "bytearray(%r)" % bytes(o)
    if isinstance(o, type):
        return "<type %s.%s>" % (o.__module__, o.__qualname__)
    if isinstance(o, types.ModuleType):
        return "<module %s>" % o.__name__
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        return "<%s %s>" % (n, getattr(o, "__qualname__", "?"))
    if t is types.MappingProxyType:
        return "mappingproxy:" + show(dict(o), depth + 1)
    if t in (type({}.keys()), type({}.values()), type({}.items())):
        return "%s:%s" % (n, sorted(show(x, depth + 1) for x in o))
    if t.__module__ in ("datetime", "ipaddress", "pathlib", "builtins", "decimal", "fractions"):
        return "%s:%s" % (n, re.sub(r" at 0x[0-9a-f]+", "", repr(o)))
    if hasattr(o, "__dict__") or hasattr(t, "__slots__"):
        base = ""
        for b in (bool, int, float, str, bytes, list, tuple, dict, set, frozenset):
            if isinstance(o, b):
                base = "=" + (show(b(o), depth + 1))
                break
        d = {k: v for k, v in getattr(o, "__dict__", {}).items()}
        return "<%s.%s%s %s>" % (t.__module__, t.__qualname__, base, show(d, depth + 1))
    return "<%s.%s>" % (t.__module__, t.__qualname__)


def loose(o):
    """Displays a value up to the representations a converted Rust value can have: sequences, sets, numbers, paths."""
    import os, collections
    for b in (bool, int):
        if isinstance(o, b):
            return repr(int(o))
    if isinstance(o, float):
        return repr(int(o)) if o == o and abs(o) < 2 ** 53 and o == int(o) and str(o) != "-0.0" else repr(float(o))
    if isinstance(o, os.PathLike):
        return repr(os.fspath(o))
    if isinstance(o, str):
        return repr(str.__str__(o))
    if isinstance(o, (bytes, bytearray)):
        return "[%s]" % ", ".join(str(x) for x in o)
    if isinstance(o, (list, tuple)):
        return "[%s]" % ", ".join(loose(x) for x in o)
    if isinstance(o, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(loose(x) for x in o))
    if isinstance(o, dict):
        return "{%s}" % ", ".join(sorted(loose(k) + ": " + loose(v) for k, v in o.items()))
    if isinstance(o, range):
        return "[%s]" % ", ".join(loose(x) for x in o)
    return show(o)


def showerr(e):
    return "%s:%s" % (type(e).__name__, show(e.args))


def ev(expr):
    return eval(expr, G)


def ex(code):
    exec(code, G)


G["ex"] = ex
