"""C19: generating dependencies adds exactly the modules that are imported from.

Space: every import form (and every pair of them) in every kind of importing module, with every request set and every setting
that could interfere. Oracle: a table written by hand that names for each form the modules it depends on; the bindings have to be
those of the same request without dependencies, followed by a request of these modules."""
import itertools, re
from harness import core, prog
from harness.ctx import Check, Case, Space

# what other packages contain (q, q2 modules, r package; the letters stand for unique names)
OTHER = {
    "q.py": '"""Doc of q."""\nimport typing as _t\n__all__ = ["K", "f"]\nclass K:\n    """Doc."""\n    def m(self, o: "K") -> "K": return o\nclass E(ValueError): pass\ndef f(a: K) -> int: return 1\nv: int = 1\nT = _t.TypeVar("T")\nbm = K().m\nlam = lambda: 0\n'
            "def mk():\n    class L:\n        pass\n    return L\nloc = mk()\nclass _P: pass\n_P2 = _P\n",
    "q2.py": "from q import K as KK, f\nimport r\nclass C2:\n    def g(self, k: KK) -> KK: return k\ndef h(k: KK): pass\n",
    "r/__init__.py": "from .s import S, sf\nfrom ._h import H\nfrom . import s as sx\nclass R:\n    def m(self, s: S) -> S: return s\n",
    "r/s.py": "import q\nclass S: pass\ndef sf(x: S) -> 'S': return x\nsv = 1\n",
    "r/_h.py": "class H: pass\n",
    "r/t/__init__.py": "class TT: pass\n", "r/t/u.py": "class U: pass\ndef uf(): pass\n",
    "r/tests/__init__.py": "class TC: pass\n", "testing2.py": "class TC: pass\n",
}
# form: (statements, modules it depends on)
FORMS = {
    "none": ("", []), "mod": ("import q", ["q"]), "modas": ("import q as z1", ["q"]), "pkg": ("import r", ["r"]), "dotted": ("import r.s", ["r"]), "deepdotted": ("import r.t.u", ["r"]), "sub": ("from r import s", ["r.s"]),
    "subas": ("import r.s as z2", ["r.s"]), "deepas": ("import r.t.u as z3", ["r.t.u"]), "subpkg": ("from r import t", ["r.t"]), "alias": ("from r import sx", ["r.s"]),
    "cls": ("from q import K", ["q"]), "clsas": ("from q import K as z4", ["q"]), "fn": ("from q import f", ["q"]), "fnas": ("from q import f as z5", ["q"]), "exc": ("from q import E", ["q"]), "lam": ("from q import lam", ["q"]), "meth": ("from q import bm", ["q"]),
    "clssub": ("from r.s import S", ["r.s"]), "reexp": ("from r import S as z6", ["r.s"]), "fnreexp": ("from r import sf", ["r.s"]), "ownpkg": ("from r import R", ["r"]), "deepcls": ("from r.t.u import U, uf", ["r.t.u"]), "star": ("from q import *", ["q"]), "many": ("from r import R, S as S1, sf as sf1, sx as sx1", ["r", "r.s"]),
    "chain": ("from q2 import C2, h", ["q2"]), "chain2": ("from q2 import KK", ["q"]), "two": ("from q import K as z7, f as z8\nfrom r.t import TT", ["q", "r.t"]),
    "var": ("from q import v", []), "inst": ("import q as _q\nx1 = _q.K()", []), "priv": ("from q import K as _K1", []), "privmod": ("import q as _q1", []), "privdef": ("from r._h import H as z9", []), "privre": ("from r import H", []), "privcls": ("from q import _P2 as y1", []),
    "cfn": ("from math import sin", []), "base": ("from q import K as _K2\nclass D(_K2): pass", []), "tv": ("from q import T", []), "loc": ("from q import loc", []), "part": ("import functools as _ft, q as _q2\npt = _ft.partial(_q2.f, 1)\ndel _ft", []),
    "ann": ("import q as _q3\ndef g1(x: _q3.K, *a: '_q3.K') -> _q3.K: return x", []), "annc": ("from q import K as y2\ndef g2(x: y2) -> y2: return x\nclass G2:\n    def m(self, x: 'y2') -> y2: return x", ["q"]), "annr": ("import r as y3\ndef g3(x: 'y3.S', y: y3.R) -> y3.s.S: return x", ["r"]),
    "lie": ("class L1: pass\nL1.__module__ = 'q'", ["q"]), "nowhere": ("class L2: pass\nL2.__module__ = 'nowhere'", []), "half": ("class L3: pass\nL3.__module__ = 'q.nowhere'", ["q"]), "clsmod": ("class L4: pass\nL4.__module__ = 'r.S'", ["r"]), "lief": ("def l5(): pass\nl5.__module__ = 'r.s'", ["r.s"]),
    "typing": ("from typing import Optional, List", []), "future": ("from __future__ import annotations as an", []), "std": ("from string import Template", ["string"]), "stdfn": ("from textwrap import dedent", ["textwrap"]), "builtin": ("y4 = int", []), "builtinas": ("import builtins as y5", []),
    "tests": ("import r.tests as y6", []), "testcls": ("from r.tests import TC", []), "testname": ("from q import K as testing", []), "testlike": ("import testing2", ["testing2"]), "func": ("def own():\n    import q\n    from r import S", []), "del": ("import q\ndel q", []), "cond": ("if 0:\n    import q", []),
    "all": ("from q import K as y7\ndef g4(): pass\n__all__ = ['y7', 'g4']", ["q"]), "allmod": ("import q as y8\ndef g5(): pass\n__all__ = ['y8', 'g5']", ["q"]), "shadow": ("import q\nq = 1", []), "cmember": ("class G6:\n    import q as inner\n    from r import S as N", []),
}
HOSTS = {"mod": ("{p}.py", "{p}"), "init": ("{p}/__init__.py", "{p}"), "sub": ("{p}/a.py", "{p}.a"), "subpkg": ("{p}/b/__init__.py", "{p}.b"), "deep": ("{p}/b/c.py", "{p}.b.c"), "priv": ("{p}/_d.py", "{p}._d"), "tests": ("{p}/tests.py", "{p}.tests")}
REQS = {"p": ["P"], "h": ["M"], "q,p": ["q", "P"], "p,r": ["P", "r"], "p,r.s": ["P", "r.s"], "h,p": ["M", "P"], "p,q2": ["P", "q2"]}
CFGS = {"default": {}, "notraverse": {"traverse_submodules": False}, "noimports": {"generate_imports": False}, "noclasses": {"generate_classes": False}, "nofns": {"generate_functions": False}, "nopreludes": {"generate_preludes": False}, "private": {"include_private": True},
        "blockq": {"blocklist_names": ["q", "builtins", "testing", "tests", "test"]}, "blockz": {"blocklist_names": ["K", "S", "z1", "builtins", "testing", "tests", "test"]}, "nodocs": {"generate_docs": False}}
# what the settings make of the dependencies: forms for which the table does not hold under them
OWN = {"private": {"priv": ["q"], "privmod": ["q"], "privdef": ["r._h"], "privre": ["r._h"], "privcls": ["q"], "inst": ["q"], "base": ["q"], "ann": ["q"], "part": ["q"]},
       "blockq": {f: [d for d in ds if d != "q"] for f, (_, ds) in FORMS.items() if "q" in ds} | {"mod": [], "modas": []},
       "blockz": {"modas": [], "cls": [], "clsas": [], "clssub": [], "reexp": [], "chain2": []}}
OWN["blockz"].update({"clsmod": [], "two": ["q", "r.t"], "annc": [], "all": []})




def wide(p, n, sub):
    files = {"%sd%d.py" % (p, i): "class C%d: pass\ndef f%d(): pass\n" % (i, i) for i in range(n)}
    files[p + ".py"] = "".join("from %sd%d import %s%d\n" % (p, i, "Cf"[i % 2], i) for i in range(n))
    return files, ["%sd%d" % (p, i) for i in range(n)]


def manyhosts(p, n, sub):
    files = {"%sd%d.py" % (p, i): "class C: pass\n" for i in range(n)}
    files[p + "/__init__.py"] = ""
    files.update({"%s/h%d.py" % (p, i): "from %sd%d import C as C%d\nfrom %sd0 import C as D%d\n" % (p, i, i, p, i) for i in range(n)})
    return files, ["%sd%d" % (p, i) for i in range(n)] if sub else []


def deepdep(p, n, sub):
    files = {p + "d" + "/x" * i + "/__init__.py": "class C%d: pass\n" % i for i in range(n)}
    files[p + ".py"] = "from %sd%s import C%d\nimport %sd%s as mid\n" % (p, ".x" * (n - 1), n - 1, p, ".x" * (n // 2))
    return files, [p + "d" + ".x" * (n - 1), p + "d" + ".x" * (n // 2)]


def deephost(p, n, sub):
    files = {p + "/x" * i + "/__init__.py": "" for i in range(n)}
    files[p + "/x" * (n - 1) + "/__init__.py"] = "from %sd import C\nfrom %se import f\n" % (p, p)
    files.update({p + "d.py": "class C: pass\n", p + "e.py": "def f(): pass\n"})
    return files, [p + "d", p + "e"] if sub else []


def manynames(p, n, sub):
    files = {p + "d.py": "".join("class C%d: pass\ndef f%d(): pass\n" % (i, i) for i in range(n)), p + "e.py": "class E: pass\n"}
    files[p + ".py"] = "".join("from %sd import C%d, f%d as g%d\n" % (p, i, i, i) for i in range(n)) + "from %se import E\n" % p
    return files, [p + "d", p + "e"]


SIZES = {"wide": wide, "manyhosts": manyhosts, "deepdep": deepdep, "deephost": deephost, "manynames": manynames}


class C19(Check):
    ID = "C19"
    TECHNIQUE = "exhaustive enumeration of import forms (alone and in pairs) x importing modules x request sets x settings; the bindings compared with those of a request that names the dependencies"
    NOTE = "One importing package, three packages imported from with submodules, re-exports, private parts and imports of their own. What a module depends on comes from a hand-written table."
    ASSUMPTIONS = ["a dependency is the innermost existing module on the path that __module__ and __name__ of a public class, function, method or module of another package give",
                   "private and blocklisted names, also of modules on that path, are no dependencies; dependencies of dependencies are not followed",
                   "the prelude of a module may then also list members defined in other packages; no case has such a member with an item of its own"]
    RULE = "one evaluation = two generated bindings compared as item trees"

    def space(self):
        sp = Space()
        sp.states = sp.transitions = 0

        def add(forms, host, req, cfg):
            if any(f == "future" and i for i, f in enumerate(forms)):
                forms = forms[::-1]
            sp.states += 1
            sp.transitions += 2
            sp.add(Case("%s/%s/%s/%s" % ("+".join(forms), host, req, cfg), forms=list(forms), host=host, req=req, cfg=cfg))
        for f in FORMS:
            for h in HOSTS:
                for r in REQS:
                    if h == "mod" and r in ("h", "h,p"):
                        continue
                    for c in CFGS:
                        if core.THOROUGH or c == "default" and (h in ("init", "deep", "priv") or r in ("p", "h", "p,q2")) or (h, r) in (("init", "p"), ("deep", "p,r.s"), ("sub", "h")):
                            add((f,), h, r, c)
        for i, (f, g) in enumerate(itertools.combinations(FORMS, 2)):
            if {f, g} & {"del", "shadow"} and {f, g} & {"mod", "dotted"}:
                continue
            for h in (HOSTS if core.THOROUGH else [list(HOSTS)[i % 5]]):
                add((f, g), h, "p", "default")
        for kind in sorted(SIZES):
            for n in (2, 3, 5, 9, 17, 33) + ((65, 129) if core.THOROUGH else ()):
                if kind in ("deepdep", "deephost") and n > 33:
                    continue
                for cfg in ("default", "notraverse", "nodocs"):
                    sp.states += 1
                    sp.transitions += 2
                    sp.add(Case("size/%s/%d/%s" % (kind, n, cfg), forms=["none"], host="mod", req="p", cfg=cfg, size=[kind, n]))
        return sp

    def deps(self, c):
        reached = c.host not in ("priv", "tests") or c.req in ("h", "h,p") or c.cfg == "private" and c.host == "priv"
        if c.cfg == "notraverse" and c.host not in ("mod", "init") and c.req not in ("h", "h,p"):
            reached = False
        out = []
        for f in c.forms if reached else ():
            out += OWN.get(c.cfg, {}).get(f, FORMS[f][1])
        return out

    def reqs(self, c, p):
        return [{"P": p, "M": HOSTS[c.host][1].format(p=p)}.get(x, x) for x in REQS[c.req]]

    def judge(self, b, cases):
        root = prog.newdir("c19")
        prog.write_files(root, OTHER)
        progs = {}
        for i, c in enumerate(cases):
            p = "p%05d" % i
            if getattr(c, "size", None):
                files, extra = SIZES[c.size[0]](p, c.size[1], c.cfg != "notraverse")
                progs[c.id + "#on"] = {"files": files, "modules": [p], "cfg": dict(CFGS[c.cfg], generate_dependencies=True)}
                progs[c.id + "#off"] = {"files": {}, "modules": [p] + extra, "cfg": CFGS[c.cfg]}
                continue
            files = {p + "/__init__.py": "", p + "/a.py": "", p + "/b/__init__.py": "", p + "/b/c.py": ""} if c.host != "mod" else {}
            files[HOSTS[c.host][0].format(p=p)] = "".join(FORMS[f][0] + "\n" for f in c.forms) + "class Own: pass\n"
            cfg = CFGS[c.cfg]
            # the requests add modules of their own dependencies
            extra = self.deps(c)
            for r in REQS[c.req]:
                extra = extra + {"q": [], "r": [], "r.s": ["q"], "q2": ["q", "r"]}.get(r, [])
                if r == "r" and c.cfg != "notraverse":
                    extra = extra + ["q"]     # r.s imports it
            if c.cfg == "blockq":
                extra = [e for e in extra if e != "q"]
            progs[c.id + "#on"] = {"files": files, "modules": self.reqs(c, p), "cfg": dict(cfg, generate_dependencies=True)}
            progs[c.id + "#off"] = {"files": {}, "modules": self.reqs(c, p) + extra, "cfg": cfg}
        gen = prog.generate(b, progs, root)
        bad = {}
        for c in cases:
            on, off = gen[c.id + "#on"], gen[c.id + "#off"]
            for g in (on, off):
                if not g["ok"]:
                    bad[c.id] = [prog.why(g)]
            if c.id in bad:
                continue
            x, y = prog.canon(on["ast"]), prog.canon(off["ast"])
            self.outcome(re.sub(r"p\d{5}", "P", "".join(x)))
            if x != y:
                bad[c.id] = [("dependencies", "with dependencies %s (expected %s)" % (prog.difference(y, x)[:6], progs[c.id + "#off"]["modules"]))]
        if len(cases) > 1:
            self.info.update(evaluations=len(cases), traces_validated_against_impl=2 * len(cases))
        return bad


CHECK = C19
