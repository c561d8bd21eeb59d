"""C11: the bindings depend only on the set of requested modules (and the configuration).

Space: all histories of requests up to a depth over an alphabet of requests (packages, nested submodules, single
modules, source text, module objects, batches, duplicates, failing requests, clones, earlier complete generations), for
several module trees and configurations. Every history is executed on the real engine; all histories that succeed for
the same set of modules must generate the same items. Repeats must be byte-identical, also in other processes."""
import itertools, json
from harness import core, prog
from harness.ctx import Check, Case, Space

TREES = {
    "plain": {
        "a/__init__.py": '"""pkg a"""\nx = 1\ndef fa(p: int) -> int: "fa"\nclass Ka:\n    def m(self): ...\n',
        "a/b/__init__.py": '"""pkg b"""\ndef fb(): ...\nclass Kb:\n    def m(self, k: "a.Ka") -> "Kb": ...\n',
        "a/b/c.py": '"""mod c"""\ny = "s"\ndef fc(): ...\n',
        "a/d.py": "def fd(): ...\nclass Kd: ...\n",
        "o.py": '"""mod o"""\ndef fo(): ...\n',
    },
    "reexport": {
        "a/__init__.py": '"""pkg a"""\nfrom .b import fb, Kb\nfrom a.b.c import fc as gc\nfrom . import d\n__all__ = ["fb", "Kb", "own", "d"]\ndef own(k: Kb) -> Kb: ...\n',
        "a/b/__init__.py": 'from .c import *\nfrom .c import Kc as Zc\ndef fb(): ...\nclass Kb:\n    def m(self, c: "Kc"): ...\n',
        "a/b/c.py": 'def fc(): ...\nclass Kc: ...\n__all__ = ["fc", "Kc"]\n',
        "a/d.py": "from a.b import Kb\nimport o\nfrom o import Ko\nclass Kd(Kb): ...\ndef fd(k: Kb, o: Ko) -> Ko: ...\n",
        "o.py": "class Ko: ...\ndef fo(): ...\n",
    },
    "preludes": {
        "a/__init__.py": '__all__ = ["fa"]\ndef fa(): ...\n',
        "a/b/__init__.py": '__all__ = ["fb", "c"]\ndef fb(): ...\nhidden = 1\n',
        "a/b/c.py": '__all__ = ["fc"]\ndef fc(): ...\ndef other(): ...\n',
        "a/d.py": '__all__ = []\ndef fd(): ...\n',
        "o.py": '__all__ = ["fo"]\ndef fo(): ...\n',
    },
    "clash": {
        "a/__init__.py": "from .b import b\nfrom .d import d\nd2 = 1\n",
        "a/b/__init__.py": "def b(): ...\nclass B: ...\n",
        "a/b/c.py": "class c: ...\ndef d(): ...\n",
        "a/d.py": "class d:\n    def m(self): ...\n",
        "o.py": "o = 1\ndef get_o(): ...\n",
    },
    # importing a submodule replaces the member of the same name
    "hidden": {
        "a/__init__.py": "import typing\nfrom o import Ko as d\nclass b:\n    def m(self): ...\ndef use(x: b, y: d) -> b: ...\n__all__ = ['b', 'use']\n",
        "a/b/__init__.py": "import typing\nc = typing.TypeVar('c')\ndef fb(): ...\n",
        "a/b/c.py": "def fc(): ...\n",
        "a/d.py": "import a.b.c\ndef fd(): ...\n",
        "o.py": "class Ko: ...\n",
    },
    "lazy": {
        "a/__init__.py": "import importlib\ndef __getattr__(n):\n    if n in ('b', 'd'):\n        return importlib.import_module('a.' + n)\n    raise AttributeError(n)\ndef fa(): ...\n",
        "a/b/__init__.py": "def fb(): ...\nfrom a.d import fd\n",
        "a/b/c.py": "import a.b as parent\ndef fc(): ...\n",
        "a/d.py": "def fd(): ...\n",
        "o.py": "import a\nimport a.d\nfrom a import fa\ndef fo(): ...\n",
    },
}
SETS = {"a": {"a", "a.b", "a.b.c", "a.d"}, "a.b": {"a.b", "a.b.c"}, "a.b.c": {"a.b.c"}, "a.d": {"a.d"}, "o": {"o"}, "s": {"s"}}
# where an attribute of the package hides a submodule, requesting the package does not request that submodule
TREESETS = {t: dict(SETS, a={"a"}) if t == "clash" else SETS for t in TREES}
STR = '"""from text"""\ndef fs(): ...\nclass Ks: ...\n'


def nm(n):
    return [{"op": "module_name", "name": n}], [n]


LETTERS = {
    "a": nm("a"), "b": nm("a.b"), "c": nm("a.b.c"), "d": nm("a.d"), "o": nm("o"),
    "s": ([{"op": "module_from_str", "src": STR, "name": "s"}], ["s"]),
    "B": ([{"op": "module", "name": "a.b"}], ["a.b"]),
    "N": ([{"op": "module_names", "names": ["o", "a.b.c"]}], ["o", "a.b.c"]),
    "M": ([{"op": "modules", "names": ["a.d", "o"]}], ["a.d", "o"]),
    "-": ([{"op": "save"}, {"op": "module_name", "name": "nope.x"}, {"op": "restore"}], []),
    "!": ([{"op": "save"}, {"op": "module_from_str", "src": "raise KeyError(1)", "name": "bad"}, {"op": "restore"}], []),
    "~": ([{"op": "save"}, {"op": "module_names", "names": ["o", "nope"]}, {"op": "restore"}], []),
    "g": ([{"op": "save"}, {"op": "module_name", "name": "o"}, {"op": "generate", "ast": False}, {"op": "restore"}], []),
    "G": ([{"op": "save"}, {"op": "module_name", "name": "a"}, {"op": "generate", "ast": False}, {"op": "restore"}], []),
    # a complete earlier generation under another configuration
    "X": ([{"op": "save"}, {"op": "new", "cfg": {"include_private": True, "generate_docs": False, "traverse_submodules": False, "generate_preludes": False}},
           {"op": "module_name", "name": "a"}, {"op": "module_name", "name": "o"}, {"op": "generate", "ast": False}, {"op": "restore"}], []),
    "i": ([{"op": "py", "code": "import a, a.b, a.b.c, a.d, o"}], []),
}
# openings that change a module of the process, without and with an earlier generation from it; the bindings must be the same
CHANGE = [{"op": "py", "code": "import o\no.zz = 5\ndef zf(q: int): 'zf'\nzf.__module__ = 'o'\no.zf = zf"}]
OPEN = {"z": [{"op": "py", "code": "import o"}] + CHANGE, "Z": LETTERS["g"][0] + CHANGE,
        "y": LETTERS["g"][0] + LETTERS["X"][0] + CHANGE}
CFGS = {"default": {}, "flat": {"traverse_submodules": False}, "private": {"include_private": True, "generate_docs": False},
        "deps": {"generate_dependencies": True}}


class C11(Check):
    ID = "C11"
    TECHNIQUE = "bounded exhaustive exploration of request histories on the real engine; all histories reaching the same set of modules must agree"
    NOTE = "Every history up to the depth over the request alphabet, for every module tree and configuration; byte-identity of repeats is checked in the same process, in fresh processes and under other hash seeds. Histories longer than the depth and other trees are not covered."
    ASSUMPTIONS = ["the set a request stands for is the requested module and, with traversal on, its submodules",
                   "same bindings = same items with the same contents; the order of items is not part of it"]
    RULE = "one case = (tree, configuration, history); distinct = distinct (tree, configuration, set, items)"

    def space(self):
        sp = Space()
        depth = 4 if core.THOROUGH else 3

        def succ(h):
            for l in LETTERS:
                yield l, h + (l,)
        words = sp.bfs([()], succ, depth)
        deep = [] if core.THOROUGH else [w for w in itertools.product("abcod", repeat=4)]
        for t in TREES:
            for cfg in CFGS:
                if (t, cfg) == ("hidden", "flat"):
                    continue  # what the package contains depends on what the process imported
                ws = words
                if cfg != "default":
                    ws = [w for w in words if len(w) <= (3 if core.THOROUGH else 2)]
                elif t in ("reexport", "preludes"):
                    ws = words + [w for w in deep if t == "preludes"]
                elif not core.THOROUGH:
                    ws = [w for w in words if len(w) <= 2 or set(w) <= set("abcdosNG" if t != "hidden" else "abcdi")]
                for w in ws:
                    if any(LETTERS[l][1] for l in w):
                        sp.add(Case("%s|%s|%s" % (t, cfg, "".join(w)), tree=t, cfg=cfg, word="".join(w), again=False))
        for t, cfg, z in itertools.product(TREES, CFGS, OPEN):
            if t != "hidden":
                for n in (1, 2):
                    for w in itertools.product("abcdosNM" if cfg == "default" else "aco", repeat=n):
                        sp.states += 1
                        sp.transitions += 1
                        sp.add(Case("%s|%s|%s%s" % (t, cfg, z, "".join(w)), tree=t, cfg=cfg, word=z + "".join(w), again=False))
        for t in TREES:
            for w in words:
                if any(LETTERS[l][1] for l in w) and len(w) <= 2:
                    sp.add(Case("%s|again|%s" % (t, "".join(w)), tree=t, cfg="default", word="".join(w), again=True))
        return sp

    def key(self, c):
        mods = set()
        for l in c.word:
            if l in OPEN:
                mods.add("o+zz")
                continue
            for m in LETTERS[l][1]:
                mods |= {m} if c.cfg == "flat" else TREESETS[c.tree][m]
        return (c.tree, c.cfg, tuple(sorted(mods)))

    def job(self, c, text=False):
        ops = [{"op": "py", "code": "import sys\nfor k in list(sys.modules):\n    if k.split('.')[0] in ('a', 'o', 's', 'bad'):\n        del sys.modules[k]\nsys.path[:] = [p for p in sys.path if '/c11-' not in p] + [%r]\nimport importlib\nimportlib.invalidate_caches()" % self.roots[c.tree]},
               {"op": "new", "cfg": CFGS[c.cfg]}]
        for l in c.word:
            ops += OPEN[l] if l in OPEN else LETTERS[l][0]
        ops.append({"op": "generate", "text": text, "ast": not text})
        return {"id": c.id, "ops": ops}

    def judge(self, b, cases):
        self.roots = {}
        for t in TREES:
            self.roots[t] = prog.newdir("c11")
            prog.write_files(self.roots[t], TREES[t])
        bad = {}
        # the reference of a set is its smallest history: one request for each of its maximal modules
        need = {}
        for c in cases:
            if not c.again:
                need.setdefault(self.key(c), None)
        refs = []
        for k in need:
            tree, cfg, mods = k
            word = "z" * ("o+zz" in mods) + "".join(l for l in "abcdos" if LETTERS[l][1][0] in mods and
                           (cfg == "flat" or not any(LETTERS[l][1][0] in TREESETS[tree][x] and x != LETTERS[l][1][0] and x in mods for x in SETS)))
            r = Case("ref|%s|%s|%s" % (tree, cfg, word), tree=tree, cfg=cfg, word=word, again=False)
            if self.key(r) != k:
                raise core.CheckError("no reference for %r" % (k,))
            need[k] = r
            refs.append(r)
        normal = [c for c in cases if not c.again]
        reps = core.run_jobs(b, [self.job(c) for c in refs + normal], timeout=60)
        ref = {}
        for k, r in need.items():
            x = reps[r.id].get("res", [{}])[-1]
            ref[k] = (prog.canon(x["ast"]) if "ast" in x else None, {q: x[q] for q in x if q != "ast"}, r.word)
        for c in normal:
            r = reps[c.id]
            x = r["res"][-1] if "res" in r else r
            want, info, word = ref[self.key(c)]
            if want is None:
                bad[c.id] = [("generate", "the history %r of single requests fails: %r" % (word, info))]
                continue
            if "ast" not in x:
                bad[c.id] = [("generate", "the history fails: %r" % [y for y in r.get("res", [r]) if "ok" not in y][:2])]
                continue
            got = prog.canon(x["ast"])
            self.outcome((self.key(c), hash(tuple(got))))
            if got != want:
                bad[c.id] = [("differs", "history %r and history %r request the same modules but differ: %s" % (c.word, word, prog.difference(want, got)[:6]))]
        again = [c for c in cases if c.again]
        if again:
            texts = []
            for env in ({}, {"PYTHONHASHSEED": "7"}, {"PYTHONHASHSEED": "123"}):
                jobs = [self.job(c, True) for c in again]
                if not env:       # twice in the same process, too
                    jobs += [dict(self.job(c, True), id="2" + c.id) for c in again]
                texts.append(core.run_jobs(b, jobs, timeout=60, extra_env=env))
            for c in again:
                ts = [t[c.id]["res"][-1].get("text") for t in texts] + [texts[0]["2" + c.id]["res"][-1].get("text")]
                self.outcome((c.id, len(set(ts))))
                if len(set(ts)) != 1:
                    bad[c.id] = [("bytes", "repeating the history gives different text: lengths %r" % [t and len(t) for t in ts])]
        return bad


CHECK = C11
