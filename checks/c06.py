"""C06: class annotations denote exactly that class's binding.

Space: every way of bringing a class into a module (definition, from-import, alias, module import, module alias, alias colliding with
another module's name, nested, private, rebound) x the module it is used in x the class meant x the set of requested modules; in each,
every spelling (object, text, inside generics, as forward reference) at every kind of annotation site. Oracle: the class Python itself
evaluates the annotation to, compared by identity with the Python origin of the struct the Rust path leads to."""
import importlib, itertools, re, sys
from harness import core, prog
from harness.ctx import Check, Case, Space

# classes: key -> (module, expression inside of the module)
CLASSES = {"p.K": ("p", "K"), "p.a.K": ("p.a", "K"), "p.b.K": ("p.b", "K"), "p.a.c.K": ("p.a.c", "K"), "q.K": ("q", "K"),
           "p.a.Out.K": ("p.a", "Out.K"), "p._h.K": ("p._h", "K"), "p.a.Own": ("p.a", "Own")}
# names the generated code uses for something else, or cannot use as they are
NAMED = ("Vec", "Option", "Result", "String", "Box", "Some", "Self", "PyAny", "PyList", "Bound", "Python", "HashMap", "str", "bool", "int", "list",
         "dict", "bytes", "tuple", "type", "object", "fn", "match", "struct", "dyn", "union", "crate_", "py", "p_x", "s_str", "u8", "f64", "é", "名",
         "Any", "Optional", "Path", "Decimal", "call", "std", "pyo3", "T0", "Union", "None_", "f0", "KMethods", "Ok")
SITES = ["p", "p.a", "p.b", "p.a.c", "q"]
FILES = {"p": "p/__init__.py", "p.a": "p/a/__init__.py", "p.b": "p/b.py", "p.a.c": "p/a/c.py", "q": "q.py", "p._h": "p/_h.py"}
STYLES = ["%s", "'%s'", "T.List[%s]", "T.List['%s']", "list[%s]", "'list[%s]'", "list['%s']", "T.Optional[%s]", "T.Optional['%s']", "'%s | None'", "dict[str, %s]", "'dict[str, %s]'",
          "tuple[int, %s]", "'tuple[%s, int]'", "T.Union[None, '%s']"]
WRONGISH = ["type[%s]", "'%s[int]'", "T.Callable[[%s], int]"]


def forms(site, key):
    """(tag, statements, expression) of every way to name class `key` in `site`."""
    m, e = CLASSES[key]
    head, rest = (e.split(".", 1) + [""])[:2]
    rest = "." + rest if rest else ""
    out = []
    if m == site:
        out.append(("own", "", e))
        out.append(("ownalias", "L = %s\n" % e, "L"))
        out.append(("ownprivate", "_L = %s\n" % e, "_L"))
        return out
    par, _, last = m.rpartition(".")
    out.append(("from", "from %s import %s\n" % (m, head), e))
    out.append(("fromas", "from %s import %s as L\n" % (m, head), "L" + rest))
    out.append(("fromasprivate", "from %s import %s as _L\n" % (m, head), "_L" + rest))
    if not (m.startswith(site + ".") and site != "p"):  # the package is not an attribute of its parent yet
        out.append(("import", "import %s\n" % m, m + "." + e))
    out.append(("importas", "import %s as x\n" % m, "x." + e))
    for al in ("a", "b", "q", "p", "K"):
        if site == "p" and al in ("a", "b"):  # importing the submodule rebinds the name
            continue
        out.append(("importas-" + al, "import %s as %s\n" % (m, al), al + "." + e))
    if par:
        out.append(("frompkg", "from %s import %s\n" % (par, last), last + "." + e))
        out.append(("frompkgas", "from %s import %s as x\n" % (par, last), "x." + e))
    out.append(("assign", "import %s as _m\nL = _m.%s\ndel _m\n" % (m, e), "L"))
    return out


def sites_src(tag, expr):
    s = ""
    for i, st in enumerate(STYLES):
        a = st % expr
        s += "def f%s_%d(x: %s, *, y: %s) -> %s: pass\n" % (tag, i, a, a, a)
    s += "class C%s:\n" % tag
    for i, st in enumerate(STYLES[:4]):
        a = st % expr
        s += "    def m%d(self, x: %s) -> %s: pass\n    @staticmethod\n    def s%d(x: %s) -> %s: pass\n    @classmethod\n    def c%d(cls, x: %s) -> %s: pass\n" % (i, a, a, i, a, a, i, a, a)
        s += "    @property\n    def v%d(self) -> %s: pass\n    @v%d.setter\n    def v%d(self, value: %s): pass\n" % (i, a, i, i, a)
    s += "    def __init__(self, x: '%s'): pass\n    def __call__(self, x: '%s'): pass\n" % (expr, expr)
    return s


class C06(Check):
    ID = "C06"
    TECHNIQUE = "exhaustive enumeration of import forms, sites, classes and requests; every generated path resolved and compared by identity with the class CPython evaluates the annotation to; all bindings compiled"
    NOTE = "A fixed package tree of six modules; one or two imports per module. Deeper trees and combinations of more imports are not covered."
    ASSUMPTIONS = ["text that Python cannot evaluate in the module of the function may only denote the class whose full path it spells",
                   "annotations that wrap the class into something other than a container or union (type[K], Callable) are objects"]
    RULE = "one evaluation = one annotation occurrence (parameter, result, property) resolved"

    def space(self):
        sp = Space()
        sp.states = sp.transitions = 0
        reqs = [["p"], ["p", "q"], ["q"], ["p.a"], ["p.a.c", "p.b"]]
        for site in SITES:
            for key in CLASSES:
                for tag, stmt, expr in forms(site, key):
                    for own in ("none", "before", "after"):
                        # the site's own class of the same name, before or after the import
                        if own != "none" and (CLASSES[key][0] == site) or own == "after" and tag == "importas-K":
                            continue
                        sp.transitions += 1
                        for ri, req in enumerate(reqs):
                            if not any(site == r or site.startswith(r + ".") for r in req):
                                continue
                            if not core.THOROUGH and (ri > 1 and own != "none" or ri == 0 and own == "after"):
                                continue
                            sp.states += 1
                            sp.add(Case("%s/%s/%s/%s/%s" % (site, key, tag, own, "+".join(req)), site=site, key=key, stmt=stmt, expr=expr, own=own, req=req, kind="form", compile=own == "none" and ri == (1 if len(tag) % 2 else 3)))
        # text only: names that are bound to nothing or to something else
        for site in SITES:
            for binding in ("", "import q as p\n", "import q\n", "import p.b as a\n", "x = 5\n", "p = 5\n", "import p.a as q\n", "class p:\n    class a:\n        class K: pass\n"):
                if site == "p" and " as a" in binding:
                    continue
                for own in ("none", "before"):
                    for req in (["p", "q"], ["p.a.c", "p.b", "q"]):
                        if not any(site == r or site.startswith(r + ".") for r in req):
                            continue
                        sp.states += 1
                        sp.transitions += 1
                        sp.add(Case("text/%s/%s/%s/%s" % (site, binding.split("\n")[0], own, "+".join(req)), site=site, key=None, stmt=binding, expr=None, own=own, req=req, kind="text", compile=True))
        # members defined with text in one module and inherited, wrapped or redefined in another
        for site, base in itertools.product(SITES, repeat=2):
            if site == base or (base == "q" and False):
                continue
            for own in ("none", "before"):
                for req in (["p", "q"], [site]):
                    sp.states += 1
                    sp.transitions += 1
                    sp.add(Case("inherit/%s/%s/%s/%s" % (site, base, own, "+".join(req)), site=site, key=base, stmt="", expr=None, own=own, req=req, kind="inherit", compile=True))
        for site in SITES:
            for how in ("redefined", "deleted", "renamed", "local", "modname", "qualname", "decorated", "namedtuple", "metaclass", "lies",
                        "aliases", "nestedaliases", "privatealiases") + tuple("named:" + n for n in NAMED):
                if how.startswith("named:") and site not in ("p.a", "q"):
                    continue
                for req in (["p", "q"],):
                    sp.states += 1
                    sp.transitions += 1
                    sp.add(Case("shadow/%s/%s/%s" % (site, how, "+".join(req)), site=site, key=how, stmt="", expr=None, own="none", req=req, kind="shadow", compile=True))
        for what, ns in (("deep", (2, 3, 4, 5, 7, 9, 12)), ("wide", (2, 3, 9, 11, 17, 33, 65)), ("names", (3, 9, 17, 33, 65, 129))):
            for n, at in itertools.product(ns + ((24, 130) if core.THOROUGH else ()), ("first", "mid", "last")):
                site = self.sized(what, n, at)[0]
                for req in (["p"], [site], [site, "p"]):
                    sp.states += 1
                    sp.transitions += 1
                    sp.add(Case("size/%s/%d/%s/%s" % (what, n, at, "+".join(req)), site=site, key=[what, n, at], stmt="", expr=None, own="none", req=req, kind="size", compile=n <= 12))
        return sp

    def sized(self, what, n, at):
        """Site and files of a program with many or deeply nested modules, each with a class K, that are all used by the site."""
        if what == "deep":
            dirs = ["p"] + ["d%d" % i for i in range(n)]
            mods = [".".join(dirs[:i + 1]) for i in range(n + 1)]
            files = {m.replace(".", "/") + "/__init__.py": "class K:\n    pass\n" for m in mods}
        elif what == "wide":
            mods = ["p"] + ["p.s%d" % i for i in range(n)]
            files = {m.replace(".", "/") + ("/__init__.py" if m == "p" else ".py"): "class K:\n    pass\n" for m in mods}
        else:
            files = {"p/__init__.py": "", "p/s.py": "".join("class K%d:\n    pass\n" % i for i in range(n))}
            site = {"first": "p.s", "last": "p", "mid": "p"}[at]
            uses = "" if at == "first" else "from p.s import *\n" if at == "last" else "import p.s as _s\n"
            for i in range(n):
                k = ("_s." if at == "mid" else "") + "K%d" % i
                uses += "def f%d(x: %s, y: '%s', z: T.List['%s']) -> '%s | None': pass\n" % (i, k, k, k, k)
            f = {"p": "p/__init__.py", "p.s": "p/s.py"}[site]
            files[f] = "import typing as T\n" + files[f] + uses
            return site, files
        site = {"first": mods[0], "last": mods[-1], "mid": mods[len(mods) // 2]}[at]
        f = site.replace(".", "/") + ("/__init__.py" if site.replace(".", "/") + "/__init__.py" in files else ".py")
        s = "import typing as T\n" + files[f]
        for i, m in enumerate(mods):
            if m != site:
                s += "from %s import K as L%d\n" % (m, i) if i % 2 else "import %s as _m%d\n" % (m, i)
            k = "K" if m == site else "L%d" % i if i % 2 else "_m%d.K" % i
            s += "def f%d(x: %s, y: '%s', z: T.List['%s'], *, o: T.Optional[%s]) -> '%s | None': pass\n" % (i, k, k, k, k, k)
        return site, {**files, f: s}

    def files(self, c, p, q):
        if c.kind == "size":
            sub = lambda s: re.sub(r"\bp\b(?=[./\s]|$|')", p, s)
            return {sub(f): sub(s) for f, s in self.sized(*c.key)[1].items()}
        sub = lambda s: re.sub(r"\bq\b(?=[.\s]|$|')", q, re.sub(r"\bp\b(?=[.\s]|$|')", p, s))
        files = {m: "" for m in FILES}
        for m in FILES:
            body = "import typing, typing as T\n"
            own = "class K:\n    pass\n"
            extra = "class Own:\n    pass\nclass Out:\n    class K:\n        pass\n" if m == "p.a" else ""
            if m != c.site:
                body += own + extra
                if c.kind == "inherit" and m == c.key:
                    body += ("class Base:\n    def m(self, x: 'K') -> 'K': pass\n    @staticmethod\n    def s(x: 'K') -> T.Optional['K']: pass\n    @classmethod\n    def c(cls, x: 'list[K]') -> 'K': pass\n"
                             "    @property\n    def v(self) -> 'K': pass\n    @v.setter\n    def v(self, value: 'K'): pass\n    def __init__(self, x: 'K'): pass\n"
                             "def f(x: 'K') -> 'K': pass\n")
                files[m] = body
                continue
            ann = c.expr
            if c.kind == "form":
                if c.own == "before" or (CLASSES[c.key][0] == c.site):
                    body += own
                body += extra + c.stmt
                if c.own == "after":
                    body += own
                body += sites_src("", c.expr)
            elif c.kind == "text":
                body += extra + (own if c.own == "before" else "") + c.stmt
                for i, t in enumerate(["K", "p.K", "p.a.K", "p.b.K", "p.a.c.K", "q.K", "a.K", "b.K", "x.K", "c.K", "K.K", ".K", "..K", "p.a.Out.K", "Out.K", "a.Out.K", "p.L", "missing.K", "Own", "a", "p", "p.a"]):
                    if t.split(".")[0] in {"p": ("a", "b"), "p.a": ("c",)}.get(c.site, ()):
                        continue  # the name appears when the submodule is imported later on
                    if t.startswith("."):
                        body += "def f%d(x: '%s') -> '%s | None': pass\n" % (i, t, t)
                        continue
                    body += "def f%d(x: '%s', y: T.List['%s']) -> '%s | None': pass\n" % (i, t, t, t)
            elif c.kind == "inherit":
                body += extra + (own if c.own == "before" else "")
                body += "from %s import Base as _Base, f as _f\nimport functools as _ft\nclass D(_Base):\n    pass\nclass E(_Base):\n    def m(self, x: 'K') -> 'K': pass\n" % c.key
                body += "@_ft.wraps(_f)\ndef w(x): return _f(x)\nw.__module__ = __name__\nw.__name__ = 'w'\n"
            else:
                body += extra
                if c.key.startswith("named:"):
                    nm = c.key[6:]
                    body += ("class %s:\n    pass\nclass K:\n    pass\ndef f0(x: %s, y: list[K]) -> %s: pass\ndef t0(x: '%s', y: 'K') -> '%s': pass\n"
                             "def t1(x: T.List['%s'], y: T.Optional[%s]) -> T.Optional['%s']: pass\n" % ((nm,) * 8)).replace("list[K]", "T.List[K]")
                    body += "class D:\n    m = t1\n    def __init__(self, x: '%s'): pass\n" % nm
                body += "" if c.key.startswith("named:") else {
                    "aliases": "def mk():\n    class K:\n        pass\n    return K\nnode = _node = mk()\nclass K:\n    pass\ndef f0(x: node, y: T.List[node]) -> _node: pass\ndef t0(x: 'node', y: '_node') -> 'K': pass\n",
                    "nestedaliases": "class Big:\n    class K:\n        pass\n_k = Big.K\nk = Big.K\nclass K:\n    pass\ndef f0(x: k, y: T.List[Big.K]) -> _k: pass\ndef t0(x: 'k', y: '_k') -> 'Big.K': pass\n",
                    "privatealiases": "class Big:\n    class K:\n        pass\n_k = Big.K\n_j = Big.K\ndef f0(x: _k, y: T.List[Big.K]) -> _j: pass\ndef t0(x: '_j', y: '_k') -> 'Big.K': pass\n",
                    "redefined": "class K:\n    pass\ndef f0(x: K) -> K: pass\ndef t0(x: 'K') -> 'K': pass\nclass K:\n    pass\ndef f1(x: K, y: T.List[K]) -> K: pass\n",
                    "deleted": "class K:\n    pass\ndef f0(x: K, y: list[K]) -> K: pass\ndef t0(x: 'K') -> 'K': pass\ndel K\n",
                    "renamed": "class K:\n    pass\nL = K\ndel K\ndef f0(x: L, y: list[L]) -> L: pass\ndef t0(x: 'L') -> 'L': pass\n",
                    "local": "class K:\n    pass\ndef mk():\n    class K:\n        pass\n    return K\n_Z = mk()\nY = mk()\ndef f0(x: _Z) -> _Z: pass\ndef f1(x: Y) -> Y: pass\ndef t0(x: '_Z') -> '_Z': pass\ndef t1(x: 'Y') -> 'Y': pass\n",
                    "modname": "class K:\n    pass\nclass M:\n    pass\nM.__name__ = M.__qualname__ = 'K'\ndef f0(x: M) -> M: pass\ndef f1(x: K) -> K: pass\ndef t0(x: 'M') -> 'M': pass\n",
                    "qualname": "class K:\n    pass\nclass M:\n    pass\nM.__qualname__ = 'K'\ndef f0(x: M, y: T.Optional[M]) -> M: pass\ndef t0(x: 'M') -> 'M': pass\n",
                    "decorated": "def _deco(c):\n    class W(c):\n        pass\n    return W\n@_deco\nclass K:\n    pass\ndef f0(x: K) -> K: pass\ndef t0(x: 'K') -> 'K': pass\n",
                    "namedtuple": "import collections as _c\nPt = _c.namedtuple('K', 'a')\nclass K:\n    pass\ndef f0(x: Pt) -> Pt: pass\ndef t0(x: 'Pt') -> 'Pt': pass\ndef f1(x: K) -> K: pass\n",
                    "metaclass": "class Me(type):\n    pass\nclass K(metaclass=Me):\n    pass\ndef f0(x: K) -> K: pass\ndef t0(x: 'K', y: 'list[K]') -> 'K': pass\ndef f1(x: Me) -> Me: pass\n",
                    "lies": "class K:\n    pass\nclass M:\n    pass\nM.__module__ = 'p.b' if __name__ != 'p.b' else 'p.a'\nM.__name__ = M.__qualname__ = 'K'\ndef f0(x: M) -> M: pass\ndef t0(x: 'M') -> 'M': pass\n",
                }[c.key]
            files[m] = body
        return {FILES[m].replace("p/", p + "/", 1) if m != "q" else q + ".py": sub(s) for m, s in files.items()}

    def judge(self, b, cases):
        root = prog.newdir("c06")
        tree = lambda c: c.id.rpartition("/")[0]
        number = {t: i for i, t in enumerate(dict.fromkeys(map(tree, cases)))}
        names = {c.id: ("g%05d" % number[tree(c)], "h%05d" % number[tree(c)]) for c in cases}
        real = lambda c, m: re.sub(r"^p\b", names[c.id][0], re.sub(r"^q\b", names[c.id][1], m))
        first = {number[tree(c)]: c.id for c in reversed(cases)}
        progs = {c.id: {"files": self.files(c, *names[c.id]) if first[number[tree(c)]] == c.id else {}, "modules": [real(c, m) for m in c.req]} for c in cases}
        gen = prog.generate(b, progs, root)
        bad, n = {}, 0
        importlib.invalidate_caches()
        sys.path.insert(0, root)
        sys.dont_write_bytecode = True
        comp = {}
        try:
            for c in cases:
                g = gen[c.id]
                if not g["ok"]:
                    bad[c.id] = [prog.why(g)]
                    continue
                v, k = self.one(c, g["ast"], names[c.id], real)
                n += k
                if v:
                    bad[c.id] = v[:4]
                elif core.THOROUGH or len(cases) == 1 or c.compile:
                    comp[c.id] = open(g["path"]).read()
        finally:
            sys.path.remove(root)
            for k in list(sys.modules):
                if re.match(r"[gh]\d{5}\b", k):
                    del sys.modules[k]
        errs = core.compile_all(b, comp, nbatch=16 if len(comp) > 16 else 1)
        for cid, ms in errs.items():
            bad[cid] = [("compile", ms[0][0] + "\n" + ms[0][1])]
        if len(cases) > 1:
            self.info.update(evaluations=n, traces_validated_against_impl=n)
        return bad

    def one(self, c, ast, pq, real):
        import typing
        site = importlib.import_module(real(c, c.site))
        bound = {}

        def walk(items, path):
            for i in items:
                if i["kind"] == "mod" and i["name"] not in ("call",):
                    walk(i["items"], path + [i["name"]])
                if i["kind"] == "struct":
                    nm, m = prog.unraw(i["name"]), importlib.import_module(".".join(path))
                    o = getattr(m, nm, None) or getattr(m, nm.removeprefix("s_"), None)
                    if o is not None:
                        bound.setdefault(id(o), []).append((path, nm))
        walk(ast, [])
        modpath = real(c, c.site).split(".")
        items = prog.mod(ast, modpath)
        if items is None:
            return [("missing", "module %s has no bindings" % modpath)], 0
        v, n = [], 0

        def judge(where, ann, ty, ns):
            nonlocal n
            n += 1
            want, text = self.meaning(ann, ns)
            got = []
            for p in re.findall(r"Bound<'py,([^<>]+)>", prog.norm(ty)):
                if not p.startswith("::"):
                    got.append(p)
            res = [self.resolve(ast, modpath, p) for p in got]
            self.outcome((ann, tuple(got)))
            if None in res:
                v.append(("dangling", "%s: annotation %r became %s, which leads nowhere" % (where, ann, ty)))
                return
            res = [(path, nm) for path, nm in res]
            if want is not None and id(want) in bound:
                if not res or any(r not in bound[id(want)] for r in res):
                    v.append(("wrong" if res else "unresolved", "%s: annotation %r means %r, bound as %s, but became %s" % (where, ann, want, bound[id(want)], ty)))
            elif res:
                full = [".".join(p + [k]) for p, k in res]
                if not (want is None and all(f in text for f in full) and self.unbound(text, ns)):
                    v.append(("wrong", "%s: annotation %r means %r, which has no binding, but became %s" % (where, ann, want, ty)))

        def judge_fn(where, f, obj):
            import inspect
            try:
                sig = inspect.signature(obj)
            except Exception:
                return
            o = inspect.unwrap(obj)
            o = getattr(o, "__func__", o)
            ns = getattr(o, "__globals__", None)
            if ns is None:
                return
            by = {prog.unraw(p[0])[2:]: p[1] for p in f["params"] if prog.unraw(p[0]).startswith("p_")}
            for nm, p in sig.parameters.items():
                if p.annotation is not p.empty and nm in by:
                    judge("%s(%s)" % (where, nm), p.annotation, by[nm], ns)
            if sig.return_annotation is not sig.empty and f["ret"]:
                judge("%s result" % where, sig.return_annotation, f["ret"], ns)

        for f in prog.fns(items):
            o = getattr(site, prog.unraw(f["name"]), None)
            if callable(o) and not isinstance(o, type):
                judge_fn(f["name"], f, o)
        for st in [i for i in items if i["kind"] == "struct"]:
            cls = getattr(site, prog.unraw(st["name"]), None) or getattr(site, prog.unraw(st["name"]).removeprefix("s_"), None)
            if not isinstance(cls, type) or not any(k in cls.__dict__ for k in ("m0", "m")) and cls.__name__ not in ("D", "E"):
                continue
            ms, _ = prog.methods(items, st["name"])
            for f in ms + prog.inherent(items, st["name"]):
                nm = prog.unraw(f["name"])
                if nm in ("new", "call"):
                    o = getattr(cls, {"new": "__init__", "call": "__call__"}[nm], None)
                    if hasattr(o, "__globals__"):
                        judge_fn("%s.%s" % (st["name"], nm), f, o)
                    continue
                import inspect
                o = inspect.getattr_static(cls, nm[4:] if nm.startswith("set_") else nm, None)
                if isinstance(o, property):
                    fn = o.fset if nm.startswith("set_") else o.fget
                    sig = inspect.signature(fn)
                    ann = list(sig.parameters.values())[1].annotation if nm.startswith("set_") else sig.return_annotation
                    ty = f["params"][-1][1] if nm.startswith("set_") else f["ret"]
                    if ann is not inspect.Parameter.empty:
                        judge("%s.%s" % (st["name"], nm), ann, ty, fn.__globals__)
                elif o is not None:
                    o = getattr(o, "__func__", o)
                    judge_fn("%s.%s" % (st["name"], nm), f, o)
        return v, n

    def meaning(self, ann, ns):
        """The one user class the annotation contains according to Python, and the texts in it."""
        import typing
        found, texts = [], []

        def go(a):
            if isinstance(a, typing.ForwardRef):
                a = a.__forward_arg__
            if isinstance(a, str):
                texts.append(a)
                try:
                    a = eval(a, ns)
                except Exception:
                    return
                if isinstance(a, str):
                    return
                return go(a)
            if isinstance(a, type) and not getattr(a, "__origin__", None) and not typing.get_args(a):
                if re.match(r"[gh]\d{5}\b", a.__module__ or ""):
                    found.append(a)
                return
            if typing.get_origin(a) in (type,):
                return
            for x in typing.get_args(a):
                go(x)
        go(ann)
        assert len({id(x) for x in found}) <= 1, (ann, found)
        return (found[0] if found else None), " ".join(texts)

    def unbound(self, text, ns):
        """No name in the text is bound to anything the text could mean instead."""
        for w in re.findall(r"[\w.]+", text):
            if "." in w and re.match(r"[gh]\d{5}\b", w) and w.split(".")[0] in ns:
                o = ns[w.split(".")[0]]
                if getattr(o, "__name__", None) != w.split(".")[0]:
                    return False
        return True

    def resolve(self, ast, modpath, p, depth=0):
        segs = [prog.unraw(s) for s in p.split("::")]
        cur = list(modpath)
        while segs and segs[0] in ("self", "super"):
            s = segs.pop(0)
            if s == "super":
                if not cur:
                    return None
                cur.pop()
        while segs:
            items = prog.mod(ast, cur) if cur else ast
            if items is None:
                return None
            s = segs.pop(0)
            if not segs and any(i["kind"] == "struct" and prog.unraw(i["name"]) == s for i in items):
                return (cur, s)
            if any(i["kind"] == "mod" and prog.unraw(i["name"]) == s for i in items):
                cur = cur + [s]
                continue
            for i in items:
                if i["kind"] == "use" and depth < 8:
                    for q in i["paths"]:
                        if prog.unraw(q["as"] or q["path"][-1]) == s:
                            r = self.resolve(ast, cur, "::".join(list(q["path"]) + segs), depth + 1)
                            if r:
                                return r
            return None
        return None


CHECK = C06
