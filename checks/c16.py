"""C16: re-exports and preludes name the same Python object.

Space: site x source x member x import form x alias x own members x __all__ shape x request over a tree of six modules, chains through
an intermediate module, names that collide with submodules or with the prelude. Oracle: identity of Python objects."""
import importlib, inspect, itertools, re, sys, types
from harness import core, prog
from harness.ctx import Check, Case, Space

FILES = {"p": "p/__init__.py", "p.a": "p/a/__init__.py", "p.b": "p/b.py", "p.a.c": "p/a/c.py", "q": "q.py", "p._h": "p/_h.py"}
SITES = ["p", "p.a", "p.b", "p.a.c", "q"]
BODY = '''import typing as _t
import functools as _ft
class K: pass
class Out:
    class K: pass
def f(): pass
class R: pass
RR = R
T = _t.TypeVar("T")
v = 1
P = _ft.partial(f)
@_ft.wraps(f)
def w(): pass
M = type("K", (), {"__module__": __name__})
def _mk():
    class L: pass
    return L
L = _mk()
class N: pass
N.__module__ = "{other}"
def n(): pass
n.__module__ = "{other}"
ins = K()
lam = lambda: None
class _Hid: pass
def _hid(): pass
'''
SMALL = '''import typing as _t
class K: pass
def f(): pass
class N: pass
def w(): pass
T = _t.TypeVar("T")
'''
MEMBERS = ["K", "f", "RR", "T", "v", "P", "w", "M", "L", "N", "n", "ins", "lam", "Out", "_Hid", "_hid"]
OWN = "class Own: pass\ndef g(): pass\nu = 5\nimport math as _m\nsine = _m.sin\n_pv = 3\n"
ALLS = {"no": None, "self": "[{A}]", "mix": "[{A}, 'Own', 'u']", "own": "['Own', 'g']", "full": "[x for x in list(globals()) if x[0] != '_']", "tuple": "('Own', {A}, 'sine')", "dup": "['Own', {A}, 'Own', {A}]",
        "miss": "['nothing', 'Own', '']", "nonstr": "['Own', 5, None]", "empty": "[]", "half": "[x for i, x in enumerate(sorted(globals())) if x[0] != '_' and i %% 2]".replace("%%", "%"), "priv": "['_pv', 'Own', '__name__', '_Hid']", "subs": "['a', 'b', 'c', '_h', 'Own']",
        "fullsubs": "[x for x in list(globals()) if x[0] != '_'] + ['a', 'b', 'c']", "fulldup": "[x for x in list(globals()) if x[0] != '_'] * 2", "almost": "[x for x in list(globals()) if x[0] != '_' and x != 'g']"}
REQS = [["p"], ["p", "q"], ["p.a"], ["p.a.c"], ["q", "p.b", "p.a.c"]]


def forms(site, src, mem):
    """(tag, statements, alias)"""
    out = [("from", "from %s import %s\n" % (src, mem), mem), ("as", "from %s import %s as Z\n" % (src, mem), "Z"), ("private", "from %s import %s as _Z\n" % (src, mem), "_Z"),
           ("askw", "from %s import %s as match\n" % (src, mem), "match"), ("asself", "from %s import %s as Self\n" % (src, mem), "Self"), ("assign", "import %s as _s\nY = _s.%s\n" % (src, mem), "Y")]
    for al in ("K", "f", "Own"):
        if al != mem:
            out.append(("as" + al, "from %s import %s as %s\n" % (src, mem, al), al))
    if mem == "K":
        out += [("star", "from %s import *\n" % src, "f"), ("nested", "import %s as _s\nY = _s.Out.K\n" % src, "Y"),
                ("both", "from %s import K\nfrom %s import K as K2\n" % (src, src), "K2"), ("sub", "from %s import K as _B\nclass K(_B): pass\n" % src, "K"),
                ("deco", "from %s import f as _f, K as _K\nimport functools as _ft\n@_ft.wraps(_f)\ndef f(): pass\n@_ft.wraps(_f)\ndef f2(): pass\nK = type('K', (_K,), {})\n" % src, "f")]
        par, _, last = src.rpartition(".")
        if par:
            out += [("mod", "from %s import %s\n" % (par, last), last), ("modas", "from %s import %s as Z\n" % (par, last), "Z"), ("modK", "from %s import %s as K\n" % (par, last), "K")]
        if not (src.startswith(site + ".") and site != "p"):
            out.append(("import", "import %s\n" % src, src.split(".")[0]))
        out.append(("importas", "import %s as Z\n" % src, "Z"))
    return out


class C16(Check):
    ID = "C16"
    TECHNIQUE = "exhaustive enumeration of re-export graphs over a package tree; every use item resolved in the bindings and compared by identity with the object Python exposes, preludes compared with __all__, bindings compiled"
    NOTE = "A fixed tree of six modules; one re-export statement per module and chains of two."
    ASSUMPTIONS = ["C functions and instances of foreign classes may or may not be listed in preludes", "a submodule that is requested itself may take the place of a member of the same name", "an item of the bindings originates from the attribute of the same name of the module it is generated in (C07, C09)"]
    RULE = "one evaluation = one re-export or prelude entry resolved"

    def space(self):
        sp = Space()
        sp.states = sp.transitions = 0

        def add(cid, req, **d):
            sp.states += 1
            sp.add(Case("%s/%s" % (cid, "+".join(req)), req=req, **d))
        for site, src in itertools.product(SITES, FILES):
            if site == src or src.startswith("p.a.c") and False:
                continue
            for mem in MEMBERS:
                for tag, stmt, al in forms(site, src, mem):
                    for own in ("none", "before", "after"):
                        if own == "after" and tag.startswith("asf"):
                            continue
                        for all_ in ALLS:
                            if not core.THOROUGH and (tag in ("assign", "askw", "private", "asf") and mem not in ("K", "f", "RR", "M") or tag in ("asself", "asOwn") and mem not in ("K", "T") or src in ("q", "p._h") and mem not in ("K", "f", "T") or site == "q" and mem not in ("K", "f", "v", "N") or site == "p.a.c" and src != "p.a" and mem not in ("K", "w", "N")):
                                continue
                            if not core.THOROUGH and all_ != "mix" and (mem != "K" or tag not in ("from", "as", "mod", "modas") or own != "none" or src not in ("p.a", "p.b", "p.a.c")):
                                continue
                            if not core.THOROUGH and own != "none" and (tag not in ("from", "asK", "star", "modK") or mem not in ("K", "f", "RR", "w", "N") or own == "after" and tag != "from"):
                                continue
                            sp.transitions += 1
                            for ri, req in enumerate(REQS):
                                if not any(site == r or site.startswith(r + ".") for r in req):
                                    continue
                                if not core.THOROUGH and ri not in (0, 1) and (mem not in ("K",) or own != "none" or all_ != "mix"):
                                    continue
                                if not core.THOROUGH and ri == (0 if site != "q" and src == "q" else 1) and site != "q" and src != "q":
                                    continue
                                add("one/%s/%s.%s/%s/%s/%s" % (site, src, mem, tag, own, all_), req, kind="one", steps=[[site, stmt]], own=own, all=all_, alias=al, priv=mem[0] == "_" or src == "p._h")
        # chains: source -> middle -> site
        for site, mid, src in itertools.permutations(list(FILES), 3):
            if mid == "p" or site == "p._h" or src == "p" and mid.startswith("p.") and site == "q":
                continue
            for m1, m2, mem in itertools.product((None, "Z", "_Z", "f"), (None, "Y", "K"), ("K", "f", "RR", "w", "N")):
                sp.transitions += 2
                a1, a2 = m1 or mem, m2 or m1 or mem
                steps = [[mid, "from %s import %s as %s\n" % (src, mem, a1)], [site, "from %s import %s as %s\n" % (mid, a1, a2)]]
                if mid.startswith(site + ".") and src == site:
                    continue
                if not core.THOROUGH and (m1 == "f" or mem in ("f", "RR") or m1 and m2 == "K" or mem == "w" and site not in ("p", "p.a") or site not in ("p", "p.a") and (m1 or m2) or "q" in (mid, src) and m1):
                    continue
                for req in (["p"], ["p", "q"])[:1 if "q" not in (site, mid, src) else 2]:
                    if site == "q" and "q" not in req:
                        continue
                    add("chain/%s<%s<%s.%s/%s/%s" % (site, mid, src, mem, m1, m2), req, kind="chain", steps=steps, own="none", all="mix", alias=a2, priv=False)
        # names that collide with submodules
        for what in ("K", "f", "v", "T", "w", "M", "RR", "Out", "N", "L"):
            for name in ("K", "f", "v", "a", "b", "x"):
                for src in ("p." + name, "p.a", "p.b", "q", "p.x.y"):
                    for all_ in ("no", "mix", "full", "almost") if core.THOROUGH else ("mix",):
                        for place in ("file", "pkg"):
                            if name == "f" and what in ("K", "M", "RR", "Out", "N", "L"):
                                continue  # a class named f breaks the macros of pyo3 (see C01)
                            if not core.THOROUGH and (what in ("N", "L", "Out") or name in ("a", "v") or place == "pkg" and what != "K"):
                                continue
                            sp.transitions += 1
                            for early, req in itertools.product(("", "import p.%s as _early\n" % name), (["p"], ["p", "p." + name], ["p." + name]) if all_ == "mix" else (["p"],)):
                                if early and src == "p." + name:
                                    continue
                                add("clash%s/%s/%s.%s/%s/%s" % ("early" if early else "", name, src, what, place, all_), req, kind="clash", steps=[["p", early + "from %s import %s as %s\n" % (src, what, name)]], own="none", all=all_, alias=name, priv=False,
                                    extra={("p/%s.py" if place == "file" else "p/%s/__init__.py") % name: 1, "p/x/__init__.py": 1, "p/x/y.py": 1})
        # many re-exports, deep re-exports
        for n in (3, 9, 17, 33, 65, 129) + ((257, 600) if core.THOROUGH else ()):
            kinds = {"class": "class x%d: pass\n", "def": "def x%d(): pass\n"}
            for k, how, all_ in itertools.product(("class", "def", "mix"), ("list", "star", "as", "each"), ("no", "half", "almost", "full")):
                body = "".join(list(kinds.values())[i % 2 if k == "mix" else k == "def"] % i for i in range(n))
                stmt = {"list": "from p.big import %s\n" % ", ".join("x%d" % i for i in range(n)), "star": "from p.big import *\n", "as": "from p.big import %s\n" % ", ".join("x%d as y%d" % (i, i) for i in range(n)),
                        "each": "".join("from p.big%s import x%d\n" % (i % 5 or "", i) for i in range(n))}[how]
                extra = {"p/big%s.py" % (i or ""): body for i in range(5 if how == "each" else 1)}
                sp.transitions += 1
                add("size/%d/%s/%s/%s" % (n, k, how, all_), ["p"], kind="size", steps=[["p", stmt]], own="none", all=all_, alias="x0", priv=False, extra=extra)
        for n in (2, 3, 4, 5, 6, 8, 10, 13):
            leaf = "class K: pass\ndef f(): pass\n"
            for how, site, all_, req in itertools.product(("direct", "chain", "two", "star"), ("p", "p.d0"), ("no", "mix", "half"), (["p"], ["p.d0"])):
                dirs = ["d%d" % i for i in range(n)]
                deep = "p." + ".".join(dirs)
                extra = {"p/" + "/".join(dirs[:i + 1]) + "/__init__.py": "" if how != "chain" else "from %s import K, f\n" % ("p." + ".".join((dirs + ["leaf"])[:i + 2])) for i in range(n)}
                extra["p/" + "/".join(dirs) + "/leaf.py"] = leaf
                stmt = {"direct": "from %s.leaf import K, f\n" % deep, "two": "from %s.leaf import K\nfrom %s.leaf import f as g2, K as K2\n" % (deep, deep), "star": "from %s.leaf import *\n" % deep,
                        "chain": "from p.%s import K, f\n" % dirs[0 if site == "p" else 1]}[how]
                if how == "chain" and site == "p.d0":
                    stmt = stmt.replace("p.d1", "p.d0.d1")
                del extra["p/d0/__init__.py"]
                extra = {"p/d0/__init__.py": "from p.d0.d1 import K, f\n" if how == "chain" else "", **extra}
                if site == "p.d0" or req == ["p.d0"] and site == "p":
                    if req == ["p.d0"] and site == "p":
                        continue
                sp.transitions += 1
                add("deep/%d/%s/%s/%s" % (n, how, site, all_), req, kind="size", steps=[[site, stmt]], own="none", all=all_, alias="K", priv=False, extra=extra)
        # names that collide with the prelude
        for how, all_, req in itertools.product(("def call(): pass\n", "class call: pass\n", "call = 1\n", "from .b import K as call\n", "from q import K as call\n", "def call(): pass\ndef call1(): pass\n", "from .b import f as call1\ncall = 3\n", "call=1\ncall1=2\ncall2=3\n", "SUB", "import q as call\n", "from . import b as call\n"),
                                                ("mix", "self", "almost"), (["p"], ["p", "q"], ["p.a"])):
            sp.transitions += 1
            extra = {"p/call.py": 1} if how == "SUB" else {}
            add("call/%s/%s" % (how, all_), req, kind="call", steps=[["p", "" if how == "SUB" else how]], own="none", all=all_, alias="call", priv=False, extra=extra)
        return sp

    def files(self, c, p, q):
        sub = lambda s: re.sub(r"\bq\b(?=[.\s\"]|$)", q, re.sub(r"\bp\b(?=[.\s\"]|$)", p, s))
        steps = dict(c.steps)
        files = {}
        mods = {m: FILES[m] for m in FILES}
        for f in c.data.get("extra") or {}:
            mods[f[:-3].replace("/__init__", "").replace("/", ".")] = f
        for m, path in mods.items():
            body = BODY if any("%s import " % m in st or "import %s as" % m in st for st in steps.values()) else SMALL
            if isinstance((c.data.get("extra") or {}).get(path), str):
                body = c.data["extra"][path]
            body = body.replace("{other}", "p.b" if m != "p.b" else "p.a")
            if m in steps and m == c.steps[-1][0]:
                body = {"none": "", "before": body}.get(c.own, "") + OWN + steps[m] + (body if c.own == "after" else "")
                if ALLS[c.all]:
                    body += "__all__ = %s\n" % ALLS[c.all].replace("{A}", repr(c.alias))
            elif m in steps:
                body = steps[m] + OWN + "__all__ = ['Own', %r]\n" % c.alias
            path = path.replace("p/", p + "/", 1) if m != "q" else q + ".py"
            files[path] = sub(body)
        return files

    def judge(self, b, cases):
        root = prog.newdir("c16")
        tree = lambda c: c.id.rpartition("/")[0]
        number = {t: i for i, t in enumerate(dict.fromkeys(map(tree, cases)))}
        names = {c.id: ("g%05d" % number[tree(c)], "h%05d" % number[tree(c)]) for c in cases}
        real = lambda c, m: re.sub(r"^p\b", names[c.id][0], re.sub(r"^q\b", names[c.id][1], m))
        first = {}
        for c in cases:
            first.setdefault(number[tree(c)], c.id)
        progs = {}
        for c in cases:
            files = self.files(c, *names[c.id]) if first[number[tree(c)]] == c.id else {}
            progs[c.id] = {"files": files, "modules": [real(c, m) for m in c.req], "cfg": {}}
            if c.priv or core.THOROUGH:
                progs[c.id + "~private"] = {"files": {}, "modules": [real(c, m) for m in c.req], "cfg": {"include_private": True}}
        gen = prog.generate(b, progs, root)
        bad, n = {}, 0
        importlib.invalidate_caches()
        sys.path.insert(0, root)
        sys.dont_write_bytecode = True
        comp = {}
        try:
            for i, c in enumerate(cases):
                v = []
                for pid in (c.id, c.id + "~private"):
                    if pid not in gen:
                        continue
                    g = gen[pid]
                    if not g["ok"]:
                        v.append(prog.why(g))
                        continue
                    self.mods = [real(c, m) for m in FILES] + [real(c, f[:-3].replace("/__init__", "").replace("/", ".")) for f in c.data.get("extra") or {}]
                    self.reqs = [real(c, r) for r in c.req]
                    w, k = self.one(c, g["ast"], pid != c.id)
                    v += w
                    n += k
                    if not w and (len(cases) == 1 or pid == c.id and i % 10 == 0):
                        comp[c.id] = open(g["path"]).read()
                if v:
                    bad[c.id] = v[:4]
        finally:
            sys.path.remove(root)
            for k in list(sys.modules):
                if re.match(r"[gh]\d{5}\b", k):
                    del sys.modules[k]
        errs = core.compile_all(b, comp, nbatch=16 if len(comp) > 16 else 1)
        for cid, ms in errs.items():
            bad.setdefault(cid, []).append(("compile", ms[0][0] + "\n" + ms[0][1]))
        if len(cases) > 1:
            self.info.update(evaluations=n, traces_validated_against_impl=len(progs))
        return bad

    # ------------------------------------------------------------ oracle

    def one(self, c, ast, private):
        v, n = [], 0
        for m in sorted(self.mods) * 2:
            try:  # circular imports work in one of the orders
                importlib.import_module(m)
            except ImportError:
                pass

        def own(items):
            return {prog.unraw(i["name"]): i for i in items if i["kind"] in ("struct", "fn", "type", "mod")}

        def item(modpath, name):
            items = prog.mod(ast, modpath)
            return items is not None and name in own(items)

        def walk(items, path):
            nonlocal n
            if path:
                m = importlib.import_module(".".join(path))
                n += self.module(c, ast, items, path, m, own(items), item, v, private)
            for i in items:
                if i["kind"] == "mod" and not self.prelude(i):
                    walk(i["items"], path + [prog.unraw(i["name"])])
        walk(ast, [])
        return v, n

    def prelude(self, i):
        return i["kind"] == "mod" and re.fullmatch(r"call\d*", i["name"]) and len(i["items"]) == 1 and i["items"][0]["kind"] == "use"

    def module(self, c, ast, items, path, m, own, item, v, private):
        name = ".".join(path)
        n = 0
        uses = {}
        for u in items:
            if u["kind"] != "use":
                continue
            for p in u["paths"]:
                al = prog.unraw(p["as"] or p["path"][-1])
                n += 1
                if al in uses or al in own:
                    v.append(("clash", "%s: %s is introduced twice" % (name, al)))
                uses[al] = p["path"]
                if not u["pub"]:
                    v.append(("private", "%s: re-export %s has visibility %r" % (name, al, u["pub"])))
                hit = self.resolve(ast, path, p["path"])
                if hit is None:
                    v.append(("dangling", "%s: re-export %s leads nowhere (%s)" % (name, al, p["path"])))
                    continue
                o = self.origin(hit)
                self.outcome((al, type(o).__name__, len(p["path"])))
                if not hasattr(m, al):
                    v.append(("phantom", "%s: re-export %s, but Python exposes no such attribute" % (name, al)))
                elif o is not getattr(m, al):
                    v.append(("wrong", "%s: re-export %s leads to %s = %r, but Python exposes %r" % (name, al, ".".join(hit), o, getattr(m, al))))
        # completeness of the re-exports of a package
        import pkgutil
        subs = {x.name for x in pkgutil.iter_modules(m.__path__)} if hasattr(m, "__path__") else set()
        requested = any(name == r or name.startswith(r + ".") for r in self.reqs)
        for al, o in list(vars(m).items()) if requested else ():
            if al.startswith("_") or al == "Self":
                continue
            if al in subs and isinstance(o, types.ModuleType):
                # something has to be there: the submodule, or the member that took its place until the submodule was imported
                n += 1
                if al not in own and al not in uses and o.__name__ == "%s.%s" % (name, al):
                    v.append(("lost", "%s: there is neither a submodule nor a member %s" % (name, al)))
                continue
            if al in own and (own[al]["kind"] != "mod" or isinstance(o, types.ModuleType)):
                continue
            if isinstance(o, types.ModuleType):
                on, om = o.__name__, o.__name__.rpartition(".")[0]
                full, last = o.__name__, o.__name__.rpartition(".")[2]
            elif isinstance(o, (type, types.FunctionType)) and "<" not in o.__qualname__:
                om, last = o.__module__, o.__name__
                full = om + "." + last
            else:
                continue
            if not full.startswith(name + ".") or any(s.startswith("_") for s in full.split(".")):
                continue
            if not isinstance(o, types.ModuleType) and getattr(sys.modules.get(om), last, None) is not o:
                continue
            n += 1
            # the member takes the place of a submodule of its name, unless that (or what is in it) is requested itself
            if al in subs and any((r + ".").startswith("%s.%s." % (name, al)) for r in self.reqs):
                continue
            hidden = al in subs and full.startswith("%s.%s." % (name, al))
            if (item(om.split("."), last) or hidden) and al not in uses:
                v.append(("lost", "%s: %s (%s) is not re-exported" % (name, al, full)))
        # prelude
        pre = [i for i in items if self.prelude(i)]
        listed = getattr(m, "__all__", None)
        listed = [x for x in listed if isinstance(x, str) and x] if isinstance(listed, (list, tuple)) else []
        public = {x for x in dir(m) if not x.startswith("_")} - subs
        modown = {k for k in own if not (own[k]["kind"] == "mod" and self.prelude(own[k]))}
        want = {x for x in listed if x in modown}
        if not requested or set(listed) - subs == public or not private and any(x in ("get_type", "obj", "py", "repr", "str") for x in want):
            want = set()
        home = lambda o: isinstance(o, types.ModuleType) or not isinstance(getattr(o, "__module__", None), str) or (o.__module__ + ".").startswith(path[0] + ".")
        maybe = {x for x in want if not home(getattr(m, x, None))}
        if len(pre) > 1:
            v.append(("prelude", "%s has two preludes" % name))
        got = []
        for i in pre:
            u = i["items"][0]
            for p in u["paths"]:
                n += 1
                if p["path"][0] != "super" or len(p["path"]) != 2 or p["as"] not in (None, p["path"][1]):
                    v.append(("prelude", "%s: prelude entry %s" % (name, p)))
                got.append(prog.unraw(p["path"][-1]))
        self.outcome(("prelude", tuple(sorted(got))))
        if len(got) != len(set(got)) or set(got) - maybe != want - maybe:
            v.append(("prelude", "%s: the prelude lists %s, __all__ demands %s" % (name, sorted(got), sorted(want))))
        return n

    def origin(self, hit):
        path = ".".join(hit)
        if path in sys.modules and not (len(hit) > 1 and hit[-1] in vars(sys.modules[".".join(hit[:-1])]) and vars(sys.modules[".".join(hit[:-1])])[hit[-1]] is not sys.modules[path]):
            return sys.modules[path]
        return getattr(importlib.import_module(".".join(hit[:-1])), hit[-1], None)

    def resolve(self, ast, modpath, segs, depth=0):
        """The path of the item (not re-export) a Rust path leads to."""
        segs = [prog.unraw(s) for s in segs]
        cur = list(modpath)
        while segs and segs[0] in ("self", "super"):
            if segs.pop(0) == "super":
                if not cur:
                    return None
                cur.pop()
        while segs:
            items = prog.mod(ast, cur) if cur else ast
            if items is None:
                return None
            s = segs.pop(0)
            hit = [i for i in items if i["kind"] in ("struct", "fn", "type", "mod") and prog.unraw(i["name"]) == s]
            if hit and not segs:
                return cur + [s]
            if hit:
                if hit[0]["kind"] != "mod":
                    return None
                cur = cur + [s]
                continue
            for i in items:
                if i["kind"] == "use" and depth < 8:
                    for q in i["paths"]:
                        if prog.unraw(q["as"] or q["path"][-1]) == s:
                            return self.resolve(ast, cur, list(q["path"]) + segs, depth + 1)
            return None
        return cur


CHECK = C16
