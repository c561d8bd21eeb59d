"""C14: embedded source is exact and makes the bindings usable.

Space: source texts composed of every fragment and every ordered pair of fragments (quotes, escapes, line endings,
non-ASCII, control characters ...), all module names of the alphabet (keywords, dotted, non-ASCII), and all histories mixing
modules from text with modules by name. The embedding function of every history is compared with the text, compiled, called once
on an interpreter without the module, and every binding is called."""
import itertools, json, sys, types
from harness import core, prog
from harness.ctx import Check, Case, Space
sys.path.insert(0, core.HPY)
import mc_rt

FRAGS = {
    "plain": 'V%d = "plain"\n', "dq": "V%d = '\"'\n", "sq": 'V%d = "\'"\n', "raw": 'V%d = r"\\n\\x"\n',
    "triple": 'V%d = """tri\n"q" \'s\' \\""""\n', "hash": 'V%d = "\\"#" + "r#\\"x\\"#"  # "#\n', "comment": "# */ /* // \\ {} %%s {0} $x #[doc]\nV%d = 1\n",
    "tab": "if True:\n\tV%d = '\t'\n", "uni": 'V%d = "é漢😀ß"\n', "del": 'V%d = "\x7f\x1b\x01"\n', "bidi": 'V%d = "\u202e\u2066\u200b\ufeff"\n',
    "comb": 'V%d = "e\u0301" + "\u0301x"\n', "ls": 'V%d = "\u2028\u2029\x85"\n', "ff": '\x0cV%d = "\x0c"\n', "crlf": 'V%d = """a\r\nb"""\r\n',
    "cr": 'V%d = """a\rb"""\n', "esc": 'V%d = "\\u00e9\\\\\\t\\0"\n', "cont": 'V%d = "a\\\nb"\n', "nonl": 'V%d = "end"', "blank": "\n\n  \n\nV%d = 2\n   \n",
    "braces": 'V%d = "{{}}{x}" "%%d"\n', "fstr": 'V%d = f"{1+1!r:>4}"\n', "doc": '"""Doc \\"\\"\\" of it."""\nV%d = 3\n', "long": "V%d = '" + "x" * 4000 + "'\n",
    "surr": 'V%d = "\\ud800".encode("utf-8", "surrogatepass")\n', "ident": "é%d = 4\nV%d = é%d\n", "bom": '\ufeffV%d = "b"\n', "rs": 'V%d = "\\" ; } fn main() { }"\n',
}
BODY = "def f(a): return (__name__, a)\nclass C:\n    def __init__(self, a): self.a = a\n    def m(self, x): return (self.a, x, type(self).__module__)\n    @staticmethod\n    def s(x): return x\n    @property\n    def p(self): return self.a\n"
NAMES = ["mod1", "struct", "type", "async", "match", "mod", "fn", "union", "été", "漢", "a9.b", "a9.b.c9", "struct.impl", "a9.fn.c9", "pk.fresh", "pk.sub2.z",
         "test", "json2", "X", "Vec", "pyo3", "std", "core", "str", "self1", "mod_", "call", "type.x"]
SOURCES = {"one": FRAGS["plain"] % 0 + BODY, "uses": 'import json\nfrom os.path import join\nV0 = json.dumps({"a": join("x", "y")})\n' + BODY,
           "empty": "", "doc": '"""Only a doc."""', "nl": "\n", "allpub": "__all__ = ['f']\nV0 = 1\n" + BODY, "relself": "import sys\nV0 = sys.modules.get(__name__) is not None\n" + BODY}
OTHER = 'def g(): return "other"\nV0 = 9\n'
# histories: letters -> op for a name/source
KID, SIB, GRAND = "def k(): return ('kid', __name__)\n", "def s(): return ('sib', __name__)\n", "def g(): return ('grand', __name__)\n"


def relatives(hist, name):
    """The further modules from text of a history: children, a sibling and a grandchild of the module."""
    parent = name.rpartition(".")[0]
    return [(n, src, f) for l, n, src, f in (("kid", name + ".kid9", KID, "k"), ("sib", (parent + "." if parent else "") + "sib9", SIB, "s"),
                                             ("grand", name + ".kid9.grand9", GRAND, "g")) if l in HIST[hist]]


HIST = {
    "S": ["S"], "SN": ["S", "N"], "NS": ["N", "S"], "NSN": ["N", "S", "N"], "ST": ["S", "T"], "TS": ["T", "S"],
    "SP": ["S", "P"], "PS": ["P", "S"], "SQ": ["S", "Q"], "QS": ["Q", "S"], "Sn": ["S", "same"], "SGS": ["S", "gen"], "-S": ["fail", "S"], "Sk": ["S", "kid"], "kS": ["kid", "S"], "kSN": ["kid", "S", "N"], "Sks": ["S", "kid", "sib"], "skS": ["sib", "kid", "S"], "sS": ["sib", "S"], "SksT": ["S", "kid", "sib", "T"], "kk": ["S", "kid", "grand"], "gkS": ["grand", "kid", "S"], "gS": ["grand", "S"], "SS": ["S", "S"], "STNP": ["S", "T", "N", "P"],
}


class C14(Check):
    ID = "C14"
    TECHNIQUE = "bounded exhaustive enumeration of source texts, module names and request histories; embedding functions executed on a fresh module table and compared with CPython"
    NOTE = "All single fragments and ordered pairs, all names, all listed histories x names; each embedding is compared byte for byte, executed, and every binding called against CPython's own execution of the text. Texts outside the fragment alphabet are not covered."
    ASSUMPTIONS = ["importable means importlib.import_module(name) returns the module; parent packages are not invented",
                   "names that Rust cannot spell even as raw identifiers may be refused"]
    RULE = "one case = (name, source text, history, configuration); distinct = distinct (observed results)"

    def space(self):
        sp = Space()

        def add(cid, name, src, hist="S", cfg=None):
            try:
                compile(src.encode("utf-8"), "x", "exec")
            except SyntaxError:
                return  # not a Python module
            if hist == "Sn" and "." in name and not name.startswith("pk."):
                return  # Python itself cannot import this name: its parent package does not exist
            sp.states += 1
            sp.transitions += 1
            sp.add(Case(cid, name=name, src=src, hist=hist, cfg=cfg or {}))

        def text(fs):
            out = ""
            for i, f in enumerate(fs):
                if out and not out.endswith("\n"):
                    out += "\n"
                out += FRAGS[f].replace("%d", str(i)).replace("%%", "%")
            return out
        for f in FRAGS:
            for where in ("before", "after", "only"):
                t = text([f])
                src = {"before": (t if t.endswith("\n") else t + "\n") + BODY, "after": BODY + t, "only": t}[where]
                add("frag:%s:%s" % (f, where), "mod1", src)
        for p in itertools.permutations(FRAGS, 2):
            if core.THOROUGH or (p[0] < p[1]):
                add("pair:%s+%s" % p, "mod1", text(p))
        if core.THOROUGH:
            some = [f for f in FRAGS if f not in ("long", "plain", "braces")]
            for p in itertools.combinations(some, 3):
                add("triple:%s+%s+%s" % p, "mod1", text(p))
        for n in NAMES:
            for s in SOURCES:
                add("name:%s:%s" % (n, s), n, SOURCES[s])
            for h in HIST:
                if h != "S":
                    add("hist:%s:%s" % (n, h), n, SOURCES["one"], h)
            for cn, cfg in (("flat", {"traverse_submodules": False}), ("nodoc", {"generate_docs": False, "generate_preludes": False}),
                            ("deps", {"generate_dependencies": True})):
                add("cfg:%s:%s" % (n, cn), n, SOURCES["uses"], "S", cfg)
        return sp

    def judge(self, b, cases):
        root = prog.newdir("c14")
        prog.write_files(root, {"other14.py": OTHER, "pk/__init__.py": "def pf(): return 'pf'\n", "pk/q.py": "def qf(): return 'qf'\n"})
        out = {c.id: root + "/.b%05d.rs" % i for i, c in enumerate(cases)}
        jobs = []
        for c in cases:
            ops = [{"op": "py", "code": "import sys\nfor k in list(sys.modules):\n    f = getattr(sys.modules[k], '__file__', None) or ''\n    if f.endswith('%s') or %r in f or k in ('tsrc', 'bad'):\n        if not f.startswith('/usr'): del sys.modules[k]" % (
                c.name + "/__init__.py", "c14-")}, {"op": "new", "cfg": c.cfg}]
            for l in HIST[c.hist]:
                ops += {"S": [{"op": "module_from_str", "src": c.src, "name": c.name}], "N": [{"op": "module_name", "name": "other14"}],
                        "T": [{"op": "module_from_str", "src": "def t(): return 't'\n", "name": "tsrc"}],
                        "P": [{"op": "module_name", "name": "pk"}], "Q": [{"op": "module_name", "name": "pk.q"}],
                        **{k: [{"op": "module_from_str", "src": src, "name": n}] for k in ("kid", "sib", "grand") for n, src, _ in relatives(c.hist, c.name) if n.endswith(k + "9")},
                        "same": [{"op": "module_name", "name": c.name}],
                        "gen": [{"op": "save"}, {"op": "generate", "ast": False}, {"op": "restore"}],
                        "fail": [{"op": "save"}, {"op": "module_from_str", "src": "def (", "name": "bad"}, {"op": "restore"}]}[l]
            jobs.append({"id": c.id, "ops": ops + [{"op": "generate", "write": out[c.id]}]})
        reps = core.run_jobs(b, jobs, sys_path=[root], timeout=60)
        bad, rust = {}, {}
        for c in cases:
            r = reps[c.id]
            x = r["res"][-1] if "res" in r else r
            if "ast" not in x:
                bad[c.id] = [("generate", str([y for y in r.get("res", [r]) if "ok" not in y][:2])[:600])]
                continue
            emb = self.embeds(x["ast"], ())
            want = {tuple(c.name.split(".")): c.src}
            want.update({tuple(n.split(".")): src for n, src, _ in relatives(c.hist, c.name)})
            if "T" in HIST[c.hist]:
                want[("tsrc",)] = "def t(): return 't'\n"
            got = {p: v for p, v in emb}
            if len(emb) != len(got) or got != want:
                what = ["%s: %s" % (".".join(p), "missing" if p not in got else "not expected" if p not in want else
                                    "text differs: %r / %r" % (got[p], want[p])) for p in set(got) | set(want) if got.get(p) != want.get(p)]
                bad[c.id] = [("text", "; ".join(what)[:800])]
                continue
            rust[c.id] = core.case_text(out[c.id], self.drive(c, x["ast"]), True)
        errs, obs = core.execute(b, rust, [root], batches=8)
        for cid, ms in errs.items():
            bad[cid] = [("compile", ms[0][0] + "\n" + ms[0][1])]
        for c in cases:
            if c.id in bad:
                continue
            got = [(o["label"], o["kind"], o["v"]) for o in obs.get(c.id, [])]
            want = self.reference(c)
            self.outcome(tuple(got))
            g = dict((l, (k, v)) for l, k, v in got)
            w = dict((l, (k, v)) for l, k, v in want)
            v = [("result", "%s: %r, Python gives %r" % (l, g.get(l), w.get(l))) for l in list(w) + [x for x in g if x not in w] if g.get(l) != w.get(l)]
            if v:
                bad[c.id] = v[:3]
        return bad

    def embeds(self, items, path):
        out = []
        for i in items:
            if i["kind"] == "mod":
                out += self.embeds(i["items"], path + (prog.unraw(i["name"]),))
            if i["kind"] == "fn" and i["name"] == "pyo3_embed_python_source_code":
                cs = [k["value"] for k in i["consts"] if k["name"] == "SOURCE_CODE"]
                out.append((path, cs[0] if len(cs) == 1 else None))
        return out

    def drive(self, c, ast):
        path = c.name.split(".")
        items = prog.mod(ast, path) or []
        p = "b::" + prog.rpath(path)
        purge = "for k in list(sys.modules):\n    if k.split('.')[0] == %r: del sys.modules[k]" % path[0]
        o = ["ex(py, %s);" % core.rs(purge), "l.unit(py, \"embed\", %s::pyo3_embed_python_source_code(py));" % p,
             "l.py(py, \"name\", %s);" % core.rs("importlib.import_module(%r).__name__" % c.name),
             "l.py(py, \"same\", %s);" % core.rs("importlib.import_module(%r) is sys.modules[%r]" % (c.name, c.name))]
        if "T" in HIST[c.hist]:
            o += ["ex(py, \"sys.modules.pop('tsrc', None)\");", "l.unit(py, \"embed t\", b::tsrc::pyo3_embed_python_source_code(py));", "l.val(py, \"t\", b::tsrc::t(py));"]
        if "N" in HIST[c.hist]:
            o.append("l.val(py, \"g\", b::other14::g(py));")
        for n, src, f in relatives(c.hist, c.name):
            q = "b::" + prog.rpath(n.split("."))
            o += ["ex(py, %s);" % core.rs("sys.modules.pop(%r, None)" % n), "l.unit(py, \"embed %s\", %s::pyo3_embed_python_source_code(py));" % (n, q),
                  "l.py(py, \"name %s\", %s);" % (n, core.rs("importlib.import_module(%r).__name__" % n)), "l.val(py, \"%s\", %s::%s(py));" % (n, q, f)]
        if "P" in HIST[c.hist]:
            o.append("l.val(py, \"pf\", b::pk::pf(py));")
            o.append("l.val(py, \"qf\", b::pk::q::qf(py));")
        if "Q" in HIST[c.hist]:
            o.append("l.val(py, \"qf\", b::pk::q::qf(py));")
        if "def f(a)" in c.src:
            o.append("l.val(py, \"f\", %s::f(py, 5));" % p)
            o.append("{ let k = %s::C::new(py, 6).unwrap(); l.val(py, \"m\", %s::CMethods::m(&k, 7)); l.val(py, \"p\", %s::CMethods::p(&k)); l.val(py, \"s\", %s::C::s(py, 8)); }" % (p, p, p, p))
        for n in self.vars(c):
            o.append("l.val(py, \"%s\", %s::%s(py));" % (n, p, n))
        return "\n".join(o)

    def vars(self, c):
        return ["V%d" % i for i in range(3) if "V%d =" % i in c.src]

    def reference(self, c):
        m = types.ModuleType(c.name)
        saved = sys.modules.get(c.name)
        sys.modules[c.name] = m
        try:
            exec(compile(c.src.encode("utf-8"), "x", "exec"), m.__dict__)
        finally:
            if saved is None:
                del sys.modules[c.name]
            else:
                sys.modules[c.name] = saved
        out = [("embed", "ok", "()"), ("name", "ok", repr(c.name)), ("same", "ok", "True")]
        if "T" in HIST[c.hist]:
            out += [("embed t", "ok", "()"), ("t", "ok", "'t'")]
        if "N" in HIST[c.hist]:
            out.append(("g", "ok", "'other'"))
        for n, src, f in relatives(c.hist, c.name):
            word = {"k": "kid", "s": "sib", "g": "grand"}[f]
            out += [("embed " + n, "ok", "()"), ("name " + n, "ok", repr(n)), (n, "ok", repr((word, n)))]
        if "P" in HIST[c.hist]:
            out += [("pf", "ok", "'pf'"), ("qf", "ok", "'qf'")]
        if "Q" in HIST[c.hist]:
            out.append(("qf", "ok", "'qf'"))
        if "def f(a)" in c.src:
            out += [("f", "ok", mc_rt.show(m.f(5)))]
            k = m.C(6)
            out += [("m", "ok", mc_rt.show(k.m(7))), ("p", "ok", mc_rt.show(k.p)), ("s", "ok", "8")]
        for n in self.vars(c):
            v = getattr(m, n)
            out.append((n, "ok", mc_rt.show(list(v) if isinstance(v, bytes) else v)))
        return out


CHECK = C14
