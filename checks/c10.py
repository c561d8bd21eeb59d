"""C10: docstrings are carried over as documentation only.

Space: all docstrings up to a length over an alphabet of significant fragments (on functions), and every position that has a docstring x a
smaller set of docstrings x the documentation flag. Oracle: the words of the docstring; the list of documentation tests that rustdoc itself
finds in the documentation; the bindings of the same program with plain docstrings; the formatted output read back."""
import itertools, json, os, re, subprocess, tempfile
from harness import core, prog
from harness.ctx import Check, Case, Space

FRAGS = ["w", " ", "\n", "    ", "\t", "```", "~~~", "`", "~", "/", "*/", "/*", "\"", "\\", "{", "}", "#", "]", "\r", "é", "\0", "\u2028", "'", "> ", "- ", "1. ", "\x0c", "None", "\\n", "$", "<pre>", "\u202e", "\u00a0", "\x1b", "=", "!", "rust", "\U0001f600"]
DEEP = ["w", "\n", "    ", "\t", "```", "~~~", "> ", "- ", " ", "`"]


def expand(seq):
    """Two docstrings per sequence: on its own, and between other text."""
    n = itertools.count(1)
    s = "".join("word%d" % next(n) if f == "w" else f for f in seq)
    return [s, "lead\n\n" + s + "\nend = 1;"]


# documentation that is repeated this often
SIZES = (7, 40, 90, 300, 1100) if not core.THOROUGH else (7, 10, 20, 40, 64, 90, 128, 300, 1100, 9000)


WORDS = re.compile(r"\w+")
NAMES = re.compile(r"(f|m)(\d+)$")

# positions: {D} is the docstring; "no" are objects whose __doc__ is not a docstring
FULL = {
    "p/__init__.py": '''D
class K:
    D
    def __init__(self, a):
        D
    def __call__(self, a):
        D
    def m(self):
        D
    async def ma(self):
        D
    @staticmethod
    def s():
        D
    @classmethod
    def c(cls):
        D
    @property
    def ro(self):
        D
    @property
    def rw(self):
        D
    @rw.setter
    def rw(self, v):
        pass
    def _get(self):
        return 1
    def _doc(self):
        D
    def _set(self, v):
        pass
    def _sdoc(self, v):
        D
    ex = property(_get, doc=_doc.__doc__)
    ex2 = property(_doc, doc="plain explicit")
    wo = property(_get, _sdoc)
    both = property(_doc, _sdoc)
    lam = lambda self: 1
    lam.__doc__ = m.__doc__
    nodoc = lambda self: 1
    var = 5
class Sub(K):
    pass
class Own(K):
    D
    def m(self):
        pass
def f():
    D
async def fa():
    D
def gen():
    D
    yield 1
def plain(): pass
var = 5
kvar = K(1)
Dyn = type("Dyn", (), {"__doc__": f.__doc__})
Dyn.__module__ = __name__
class Cls:
    __doc__ = f.__doc__
    __slots__ = ("x",)
class Meta(type):
    D
class M2(metaclass=Meta):
    D
import functools as _ft
@_ft.wraps(f)
def w(): pass
w.__name__ = "w"
def late(): pass
late.__doc__ = f.__doc__
import enum as _e
class E(_e.Enum):
    D
    A = 1
class Ex(Exception):
    D
''',
    "p/sub.py": '''D
def f():
    D
''',
    "p/q/__init__.py": '''D
''',
    "p/q/r.py": '''D
class R:
    D
''',
}
EXPECT = {  # path -> has the docstring (None: not judged)
    "": 1, "K": 1, "K.new": 1, "K.call": 1, "K.m": 1, "K.ma": 1, "K.s": 1, "K.c": 1, "K.ro": 1, "K.rw": 1, "K.set_rw": None, "K.ex": 1, "K.ex2": "plain explicit", "K.wo": None, "K.set_wo": 1, "K.both": 1, "K.set_both": 1,
    "K.lam": 1, "K.nodoc": 0, "K.var": None, "K.set_var": None, "Sub.m": 1, "Sub": 0, "Own": 1, "Own.m": 0, "Own.s": 1, "f": 1, "fa": 1, "gen": 1, "plain": 0, "var": 0, "set_var": 0, "kvar": 0, "Dyn": 1, "Cls": 1, "Meta": 1, "M2": 1,
    "w": 1, "late": 1, "E": 1, "Ex": 1, "sub": 1, "sub.f": 1, "q": 1, "q.r": 1, "q.r.R": 1}
NODOC = '''class _Raises:
    def __get__(self, o, t=None): raise ValueError("no doc")
class _Str(str): pass
class _Obj:
    def __str__(self): raise KeyError("called")
class K%d:
    __doc__ = %s
    def m(self): pass
    m.__doc__ = %s
def f%d(): pass
f%d.__doc__ = %s
'''


class C10(Check):
    ID = "C10"
    TECHNIQUE = "exhaustive enumeration of docstrings over significant fragments x positions x documentation flag; compared by words, rustdoc's own list of documentation tests, and the bindings of the undocumented program"
    NOTE = "Docstrings of up to three fragments over the full alphabet and four over the fragments that matter for code blocks (four and five in the thorough tier)."
    ASSUMPTIONS = ["words are maximal runs of letters, digits and underscores", "lone surrogates are not text"]
    RULE = "one evaluation = one docstring at one position"

    def space(self):
        sp = Space()
        sp.states = sp.transitions = 0
        full, deep = (4, 5) if core.THOROUGH else (3, 4)

        def chunk(tag, alpha, depth, pre):
            # all sequences that start with the prefix
            for k in range(0, depth - len(pre) + 1):
                sp.states += len(alpha) ** k
                sp.transitions += len(alpha) ** k
            sp.add(Case("%s/%s" % (tag, json.dumps(list(pre))), kind="strings", alpha=tag, pre=list(pre), depth=depth))
        for tag, alpha, depth in (("full", FRAGS, full), ("deep", DEEP, deep)):
            for pre in itertools.product(alpha, repeat=depth - 2):
                chunk(tag, alpha, depth, pre)
            for k in range(0, depth - 2):
                for pre in itertools.product(alpha, repeat=k):
                    sp.states += 1
                    sp.add(Case("%s0/%s" % (tag, json.dumps(list(pre))), kind="strings", alpha=tag, pre=list(pre), depth=k))
        for f in FRAGS:
            sp.states += len(SIZES)
            sp.transitions += len(SIZES)
            sp.add(Case("long/%s" % json.dumps(f), kind="strings", alpha="long", pre=[f], depth=0))
        for d in self.docs():
            for docs in (1, 0):
                for req in (["p"], ["p.q.r", "p.sub"]):
                    sp.states += 1
                    sp.transitions += 1
                    sp.add(Case("pos/%s/%d/%s" % (json.dumps(d), docs, "+".join(req)), kind="pos", doc=d, docs=docs, req=req))
        for i, v in enumerate(("5", "None", "_Raises()", "_Obj()", "''", "_Str('sub class')", "b'bytes'", "['list']", "type", "property(lambda s: 1)", "_Raises", "f'''fstring'''", "'None'", "'5'")):
            sp.states += 1
            sp.add(Case("nodoc/%s" % v, kind="nodoc", value=v, i=i))
        return sp

    def docs(self):
        out = ["Plain words."]
        for f in FRAGS:
            for e in expand((f,)) + expand(("w", f, "w")) + expand(("\n", f, "w")):
                if e not in out:
                    out.append(e)
        if core.THOROUGH:
            for p in itertools.product(FRAGS, repeat=2):
                for e in expand(p):
                    if e not in out:
                        out.append(e)
        return out

    def strings(self, c):
        if c.alpha == "long":
            out = []
            for n in SIZES:
                out += ["start " + c.pre[0] * n + " end", "start " + c.pre[0] + " and more" * n + " end", ("line%s\n" % c.pre[0]) * n + "end"]
                out += ["start\n" + ("  word " + c.pre[0] + "x\n\n") * n + "end"]
            return list(dict.fromkeys(out))
        alpha = FRAGS if c.alpha == "full" else DEEP
        out = []
        for k in range(0, c.depth - len(c.pre) + 1):
            for t in itertools.product(alpha, repeat=k):
                out += expand(list(c.pre) + list(t))
        return list(dict.fromkeys(out))

    def judge(self, b, cases):
        root = prog.newdir("c10")
        progs, lists = {}, {}
        for n, c in enumerate(cases):
            g = "g%05d" % n
            if c.kind == "strings":
                l = lists[c.id] = self.strings(c)
                src = "".join("def f%d(): pass\n" % i for i in range(len(l))) + "for _f, _d in zip(list(globals().values())[-%d:], %r):\n    _f.__doc__ = _d\n" % (len(l), l)
                progs[c.id] = {"files": {g + ".py": src}, "modules": [g], "pretty_ast": True}
            elif c.kind == "pos":
                files = {f.replace("p/", g + "/"): self.fill(s, c.doc) for f, s in FULL.items()}
                progs[c.id] = {"files": files, "modules": [re.sub(r"^p\b", g, r) for r in c.req], "cfg": {"generate_docs": bool(c.docs)}, "pretty_ast": True}
            else:
                progs[c.id] = {"files": {g + ".py": NODOC % (c.i, c.value, c.value, c.i, c.i, c.value)}, "modules": [g]}
        for req in {tuple(c.req) for c in cases if c.kind == "pos"}:
            progs["base/" + "+".join(req)] = {"files": {f.replace("p/", "gbase0/"): self.fill(s, "Plain") for f, s in FULL.items()}, "modules": [re.sub(r"^p\b", "gbase0", r) for r in req], "pretty_ast": True}
        for k, p in list(progs.items()):
            if p.get("pretty_ast"):
                p["ops"] = [{"op": "new", "cfg": p.get("cfg") or {}}] + [{"op": "module_name", "name": m} for m in p["modules"]] + [{"op": "generate", "pretty_ast": True, "ast": True}]
        gen = prog.generate(b, progs, root)
        bad, n, tests = {}, 0, []
        for i, c in enumerate(cases):
            g = gen[c.id]
            if not g["ok"]:
                bad[c.id] = [prog.why(g)]
                continue
            rep = g["report"][-1]
            v = []
            views = [("", g["ast"])]
            if "pretty_err" in rep:
                v.append(("format", "the formatted output is not valid Rust: " + rep["pretty_err"]))
            elif "pretty_ast" in rep:
                views.append((" (formatted)", rep["pretty_ast"]))
            for tag, ast in views:
                n += getattr(self, "one_" + c.kind)(c, ast, "g%05d" % i, lists.get(c.id), v, tag, gen)
                self.collect(ast, c.id, tests)
            if v:
                bad[c.id] = v[:4]
        for cid, d in self.doctests(tests):
            bad.setdefault(cid, [])
            if len(bad[cid]) < 5:
                bad[cid].append(("doctest", "rustdoc would run code of the documentation %r" % d))
        if len(cases) > 1:
            self.info.update(evaluations=n, traces_validated_against_impl=len(cases))
        return bad

    def fill(self, src, doc):
        return re.sub(r"^( *)D$", lambda m: m[1] + repr(doc), src, flags=re.M)

    # ------------------------------------------------------------ oracle

    def same(self, doc, got):
        return WORDS.findall(doc) == WORDS.findall(got or "")

    def one_strings(self, c, ast, g, docs, v, tag, gen):
        items = prog.mod(ast, [g]) or []
        fns = {f["name"]: f for f in items if f["kind"] == "fn"}
        if len(items) != len(docs) or len(fns) != len(docs):
            v.append(("altered", "%d functions became %d items%s" % (len(docs), len(items), tag)))
            return len(docs)
        for i, d in enumerate(docs):
            f = fns["f%d" % i]
            self.outcome(hash(f["doc"]))
            if not self.same(d, f["doc"]):
                v.append(("words", "docstring %r became %r%s" % (d, f["doc"], tag)))
        ref = None
        for i in range(len(docs)):
            f = fns["f%d" % i]
            sig = (f["pub"], f["recv"], f["params"], f["ret"])
            if ref is None:
                ref = sig
            elif sig != ref:
                v.append(("altered", "the signature of f%d is different%s" % (i, tag)))
        return len(docs)

    def one_pos(self, c, ast, g, _docs, v, tag, gen):
        found = {}

        def bare(items, path):
            out = []
            for i in items:
                i = dict(i)
                nm = prog.unraw(i.get("name") or "")
                if i["kind"] in ("mod", "struct", "fn", "type"):
                    found[".".join(path + [nm])] = i.get("doc")
                i["doc"] = None
                if i["kind"] == "mod":
                    i["items"] = bare(i["items"], path + [nm])
                if i["kind"] in ("impl", "trait"):
                    fs = []
                    for f in i.get("fns") or []:
                        f = dict(f)
                        own = prog.unraw(re.sub(r".*,|[<> ]", "", (i.get("self") or "").replace(" ", ""))) if i["kind"] == "impl" else None
                        key = ".".join(path + [own or i["name"], prog.unraw(f["name"])])
                        if i["kind"] == "trait":
                            key = "trait " + key
                        found[key] = f.get("doc")
                        f["doc"] = None
                        fs.append(f)
                    i["fns"] = fs
                out.append(i)
            return out
        plain = bare(ast, [])
        mine = dict(found)
        found.clear()
        other = gen["base/" + "+".join(c.req)]
        base = bare(other["report"][-1]["pretty_ast"] if tag else other["ast"], [])
        if json.dumps(plain).replace(g, "gbase0") != json.dumps(base):
            d = prog.difference(prog.canon(json.loads(json.dumps(plain).replace(g, "gbase0"))), prog.canon(base))
            v.append(("altered", "the docstring changes the bindings%s: %s" % (tag, d[:2])))
        k = 0
        for key, d in mine.items():
            k += 1
            self.outcome((key.replace(g, "p"), hash(d)))
            if not c.docs:
                if d is not None:
                    v.append(("docs", "%s is documented (%r) although documentation is disabled%s" % (key, d, tag)))
                continue
        if not c.docs:
            return k
        for key, want in EXPECT.items():
            full = g + ("." + key if key else "")
            if "p" not in c.req and not re.match(r"(q\.r(\.R)?|sub(\.f)?|q|)$", key):
                continue
            hits = [x for x in (full, "trait " + re.sub(r"\.(\w+)\.(\w+)$", r".\1Methods.\2", full)) if x in mine]
            if not hits:
                if want is not None:
                    v.append(("missing", "%s has no binding%s" % (key, tag)))
                continue
            if want is None:
                continue
            w = {0: "", 1: c.doc}.get(want, want)
            if not any(self.same(w, mine[h]) for h in hits):
                v.append(("words", "%s: docstring %r became %r%s" % (key or "module", w, [mine[h] for h in hits], tag)))
        return k

    def one_nodoc(self, c, ast, g, _docs, v, tag, gen):
        items = prog.mod(ast, [g])
        f, s, (ms, _) = prog.fn(items, "f%d" % c.i), prog.struct(items, "K%d" % c.i), prog.methods(items, "K%d" % c.i)
        m = [x for x in ms if x["name"] == "m"]
        if not f or not s or not m:
            v.append(("missing", "a member is missing because of its __doc__"))
            return 3
        want = {"_Str('sub class')": "sub class", "'None'": "None", "'5'": "5", "f'''fstring'''": "fstring"}.get(c.value, "")
        tr = [t for i in items if i["kind"] == "trait" for t in i["fns"] if t["name"] == "m"]
        for what, docs in (("function", [f["doc"]]), ("class", [s["doc"]]), ("method", [m[0]["doc"]] + [t["doc"] for t in tr])):
            if what == "class" and c.value.startswith(("property", "_Raises")):
                continue
            if not any(self.same(want, d) for d in docs):
                v.append(("words", "__doc__ = %s of the %s became %r" % (c.value, what, docs)))
        return 3

    # ------------------------------------------------------------ documentation tests

    def collect(self, items, cid, out):
        for i in items:
            if i.get("doc") is not None:
                out.append((cid, i["doc"]))
            self.collect(i.get("items") or [], cid, out)
            for f in i.get("fns") or []:
                if f.get("doc") is not None:
                    out.append((cid, f["doc"]))

    def doctests(self, docs):
        uniq = {}
        for cid, d in docs:
            uniq.setdefault(d, cid)
        ds = list(uniq)

        def one(ch):
            wd = tempfile.mkdtemp(prefix="rd-", dir=core.SCRATCH)
            src = os.path.join(wd, "l.rs")
            with open(src, "w") as f:
                f.write("\n".join("#[doc = %s] pub fn f%d() {}" % (core.rs(ds[k]), k) for k in ch))
            p = subprocess.run(["rustdoc", "--test", "--edition", "2021", "-Aunused", src, "--test-args=--list"], env=core.ENV, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if p.returncode != 0:
                raise core.CheckError("rustdoc failed: %s" % p.stderr[-2000:])
            return [int(m) for m in re.findall(r" - f(\d+) \(line \d+\): test", p.stdout)]
        hits = set(sum(core.parallel(one, core.chunk(range(len(ds)), 16)), []))
        return [(uniq[ds[k]], ds[k]) for k in sorted(hits)]


CHECK = C10
