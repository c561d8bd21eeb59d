"""C08: each configuration flag gates exactly its own kind of item.

Space: programs x all 2^8 combinations of the generation flags x {public, private} x blocklists. Oracle: the bindings of the same program
with everything switched on, from which exactly the items of the kinds that are switched off (or named in the blocklist) are taken."""
import itertools, json, re
from harness import core, prog
from harness.ctx import Check, Case, Space

FLAGS = ["generate_preludes", "generate_imports", "generate_classes", "generate_type_vars", "generate_functions", "generate_properties", "generate_docs", "traverse_submodules"]

MOD = '''"""Doc of {t}."""
import typing as _t
import functools as _ft
T_{t} = _t.TypeVar("T_{t}")
U_{t} = int | str
class K_{t}:
    """Doc of K_{t}."""
    p_var = 1
    def __init__(self, a: int):
        """Doc of init."""
    def __call__(self, b): pass
    def m_inst(self, x: int) -> str:
        """Doc of m_inst."""
    def _m_private(self): pass
    @staticmethod
    def m_static(x: str): pass
    @classmethod
    def m_cls(cls): pass
    @property
    def p_ro(self) -> int:
        """Doc of p_ro."""
    @property
    def p_rw(self): pass
    @p_rw.setter
    def p_rw(self, v: str):
        """Doc of setter."""
    def mx_ref(self, x: "K_{t}") -> "L_{t}": pass
    @property
    def px_ref(self) -> "K_{t}": pass
class L_{t}(K_{t}):
    def p_var(self): pass
    def get_p_q(self): pass
    p_q = 5
    def m_q(self): pass
    @property
    def m_q2(self): pass
class _K_{t}:
    def m_hidden(self): pass
def f_{t}(a: int, b: str = "x", *args, c, **kwargs) -> bool:
    """Doc of f_{t}."""
def _f_{t}(): pass
def fx_{t}(x: K_{t}, y: "list[L_{t}]") -> "K_{t} | None": pass
def fy_{t}(x: T_{t}) -> T_{t}: pass
def fz_{t}(x: "_K_{t}") -> "_K_{t}": pass
f_part_{t} = _ft.partial(f_{t}, 1)
v_{t} = 1
"""no doc"""
v_none_{t} = None
vx_{t} = K_{t}(1)
_v_{t} = 2
'''
ALL = "__all__ = [%s]\n"


def module(t, extra="", names=None):
    body = MOD.replace("{t}", t) + extra
    if names is not None:
        body += ALL % ", ".join(repr(n) for n in names)
    return body


# name: (files, requests); p and q are replaced by unique names
PROGRAMS = {
    "flat": ({"p.py": module("a")}, ["p"]),
    "all": ({"p.py": module("a", names=["K_a", "f_a", "v_a", "T_a", "missing", "_f_a"])}, ["p"]),
    "onlyclass": ({"p.py": module("a", names=["K_a"])}, ["p"]),
    "onlyvar": ({"p.py": module("a", "call = 5\ndef call1(): pass\n", names=["v_a", "vx_a"])}, ["p"]),
    "pkg": ({"p/__init__.py": module("a", "from . import s_m as _s\nfrom .s_m import K_m, f_m, T_m, v_m\nfrom .s_p.s_c import L_c as KL, fx_c as fz\nfrom . import s_m as z_m\n",
                                     ["K_a", "K_m", "f_m", "T_m", "v_m", "s_m", "s_p", "f_a", "z_m"]),
             "p/s_m.py": module("m", names=["K_m", "v_m"]), "p/s_p/__init__.py": module("p", "from .s_c import K_c, v_c\nfrom p.s_m import K_m\n", ["s_c", "K_c", "v_p"]), "p/s_p/s_c.py": module("c"),
             "p/_s_h.py": module("h"), "p/tests.py": module("t")}, ["p"]),
    "sub": ({"p/__init__.py": module("a", "from .s_p import f_p\n"), "p/s_p/__init__.py": module("p", "from .s_c import K_c, v_c, f_c, T_c\n", ["K_c", "s_c", "K_p"]), "p/s_p/s_c.py": module("c", names=["K_c", "f_c"]), "p/s_p/_s_h.py": module("h")}, ["p.s_p"]),
    "two": ({"p.py": module("a", "from q import K_q, f_q\nimport q\ndef fx_q2(x: K_q): pass\n", ["K_a", "K_q"]), "q.py": module("q", names=["f_q"])}, ["p", "q"]),
    "both": ({"p/__init__.py": module("a", names=["s_m"]), "p/s_m.py": module("m", "def fx_a2(x: 'p.K_a'): pass\nimport p\n"), "p/s_n.py": module("n")}, ["p", "p.s_m"]),
}
# blocklists: names of members
BLOCK = {"none": [], "func": ["f_a"], "cls": ["K_a"], "var": ["v_a"], "method": ["m_inst"], "prop": ["p_rw"], "sub": ["s_m"], "sub2": ["s_c"], "tvar": ["T_a"], "many": ["f_a", "L_a", "p_ro", "s_p", "v_m"], "unknown": ["nothing", "K", "f", "m_", "", "K_", "v_a.x", "p.f_a"],
         "case": ["F_A", "k_a"], "reexp": ["K_m"], "alias": ["KL"], "part": ["f_part_a"], "default": None}
# members of any name that are blocked by it: the bindings must be those of the program without the member
BNAMES = sorted(prog.KEYWORDS) + ["x", "X1", "é", "a-b", "a b", "1a", "bool", "call", "new", "None_", "print", "list", "T_a", "set_x", "get_x", "p_x", "type_", "test", "tests", "typing"]
BPLACES = {"func": ("m", "def _g(): pass\n_g.__name__ = _g.__qualname__ = {n!r}\nglobals()[{n!r}] = _g"), "cls": ("m", "globals()[{n!r}] = type({n!r}, (), {{'__module__': __name__, 'm': lambda self: 1}})"),
           "var": ("m", "globals()[{n!r}] = 1"), "tvar": ("m", "globals()[{n!r}] = list[int]"), "method": ("c", "def _g(self): pass\n    locals()[{n!r}] = _g\n    del _g"),
           "static": ("c", "locals()[{n!r}] = staticmethod(lambda x: 1)"), "prop": ("c", "locals()[{n!r}] = property(lambda self: 1, lambda self, v: None)"), "cvar": ("c", "locals()[{n!r}] = 5"),
           "inherited": ("b", "locals()[{n!r}] = lambda self: 1"), "sub": ("f", ""), "subpkg": ("g", ""), "reexp": ("m", "from . import zz as _zz\nglobals()[{n!r}] = _zz.K"), "reexpf": ("m", "from . import zz as _zz\nglobals()[{n!r}] = _zz.f"), "deep": ("d", "globals()[{n!r}] = 1")}
BTEXT = """class _B:
    {b}
class C0(_B):
    def m0(self, a: int): pass
    {c}
    @property
    def p0(self): pass
def f0(a: C0): pass
{m}
v0 = 1
"""
REF = re.compile(r"^(mx_|px_|set_px_|fx_|fy_|fz|vx_|set_vx_)")


class C08(Check):
    ID = "C08"
    TECHNIQUE = "exhaustive enumeration of all flag combinations x privacy x blocklists over rich programs; bindings compared with the fully enabled bindings after removing exactly the items switched off"
    NOTE = "Eight programs that contain every kind of item; signatures that mention a removed class or type variable are compared up to their types."
    ASSUMPTIONS = ["items that only refer to removed items (re-exports, prelude entries) are removed with them", "accessors of module variables and properties are the properties; methods belong to their class"]
    RULE = "one evaluation = one configuration of one program compared"

    def space(self):
        sp = Space()
        sp.states = sp.transitions = 0
        for pn in PROGRAMS:
            for bits in itertools.product((1, 0), repeat=len(FLAGS)):
                for priv in (0, 1):
                    for bl in BLOCK:
                        off = bits.count(0)
                        if set(BLOCK[bl] or []) & {s for r in PROGRAMS[pn][1] for s in r.split(".")}:
                            continue  # names of requested modules
                        if not core.THOROUGH and bl not in ("none",) and (priv or off not in (0, 1, 8)):
                            continue
                        if not core.THOROUGH and priv and off not in (0, 1, 8):
                            continue
                        sp.states += 1
                        sp.transitions += off + priv + (bl != "none")
                        sp.add(Case("%s/%s/%s/%s" % (pn, "".join(map(str, bits)), "private" if priv else "public", bl), prog=pn, bits=list(bits), priv=priv, bl=bl))
        for place in BPLACES:
            for n in BNAMES:
                if place in ("sub", "subpkg") and not n.isidentifier():
                    continue
                sp.states += 1
                sp.transitions += 1
                sp.add(Case("blocked/%s/%s" % (place, n), bplace=place, bname=n, prog=None))
        return sp

    def blocked(self, c, p):
        """The program with and without the member."""
        place, code = BPLACES[c.bplace]
        out = []
        for with_it, q in ((1, p), (0, p.replace("w", "o"))):
            fill = lambda k: code.format(n=c.bname) if place == k and with_it else ""
            files = {q + "/__init__.py": BTEXT.format(b=fill("b") or "pass", c=fill("c"), m=fill("m")), q + "/zz.py": "class K: pass\ndef f(): pass\n" + fill("d")}
            if place in "fg" and with_it:
                files[q + "/" + c.bname + (".py" if place == "f" else "/__init__.py")] = "def f(): pass\nclass K: pass\n"
            out.append({"files": files, "modules": [q], "cfg": {"blocklist_names": [c.bname] if with_it else []}})
        return out

    def judge(self, b, cases):
        rest = [c for c in cases if c.prog is None]
        bad = self.judge_flags(b, [c for c in cases if c.prog is not None])
        root = prog.newdir("c08")
        progs = {}
        for i, c in enumerate(rest):
            progs[c.id, 1], progs[c.id, 0] = self.blocked(c, "w%04d" % i)
        gen = prog.generate(b, {"%s#%d" % k: v for k, v in progs.items()}, root)
        for i, c in enumerate(rest):
            g, o = gen[c.id + "#1"], gen[c.id + "#0"]
            if not g["ok"] or not o["ok"]:
                bad[c.id] = [prog.why(g if not g["ok"] else o)]
                continue
            a = prog.canon(json.loads(json.dumps(o["ast"]).replace("o%04d" % i, "w%04d" % i)))
            d = prog.canon(g["ast"])
            self.outcome(hash(json.dumps(d).replace("w%04d" % i, "")))
            if a != d:
                bad[c.id] = [("blocked", m) for m in prog.difference(a, d)[:4]] or [("blocked", "the bindings differ from those without the member")]
        return bad

    def judge_flags(self, b, cases):
        if not cases:
            return {}
        root = prog.newdir("c08")
        sub = lambda s, i: re.sub(r"\bq\b", "h%02d" % i, re.sub(r"\bp\b", "g%02d" % i, s))
        index = {pn: i for i, pn in enumerate(PROGRAMS)}
        for pn, (files, req) in PROGRAMS.items():
            prog.write_files(root, {sub(f.replace("/", " / ").replace(".py", " .py"), index[pn]).replace(" ", ""): sub(s, index[pn]) for f, s in files.items()})

        def p(c, bits, priv, bl):
            cfg = dict(zip(FLAGS, map(bool, bits)))
            cfg["include_private"] = bool(priv)
            if bl is not None:
                cfg["blocklist_names"] = bl
            return {"files": {}, "modules": [sub(r, index[c.prog]) for r in PROGRAMS[c.prog][1]], "cfg": cfg}
        progs = {c.id: p(c, c.bits, c.priv, BLOCK[c.bl]) for c in cases}
        for c in cases:
            for priv in (0, 1):
                progs.setdefault("base/%s/%d" % (c.prog, priv), p(c, [1] * 8, priv, []))
            progs.setdefault("shallow/" + c.prog, p(c, [1] * 7 + [0], 0, []))
        gen = prog.generate(b, progs, root)
        bad, n = {}, 0
        for c in cases:
            g, base = gen[c.id], gen["base/%s/%d" % (c.prog, c.priv)]
            if not g["ok"] or not base["ok"]:
                bad[c.id] = [prog.why(g if not g["ok"] else base)]
                continue
            n += 1
            v = self.one(c, base["ast"], g["ast"], [[sub(s, index[c.prog]) for s in r.split(".")] for r in PROGRAMS[c.prog][1]])
            if c.priv and not v:
                v = self.superset(c, gen["base/%s/0" % c.prog]["ast"], base["ast"])
            if v:
                bad[c.id] = v[:4]
        if len(cases) > 1:
            self.info.update(evaluations=n, traces_validated_against_impl=n)
        return bad

    # ------------------------------------------------------------ oracle

    def one(self, c, base, got, reqs):
        on = dict(zip(FLAGS, c.bits))
        block = BLOCK[c.bl]
        if block is None:
            block = ["builtins", "testing", "tests", "test"]
        fuzzy = not (on["generate_classes"] and on["generate_type_vars"]) or bool(block) or not on["traverse_submodules"]
        want = self.cut(base, on, block, fuzzy, [], reqs)
        want = self.cut_uses(want, want, [])
        have = self.cut(got, {f: 1 for f in FLAGS}, [], fuzzy, [], [])
        a, d = prog.canon(want), prog.canon(have)
        self.outcome(hash(json.dumps(d)))
        if a != d:
            return [("differs", m) for m in prog.difference(a, d)[:4]] or [("differs", "the bindings differ")]
        return []

    def fn(self, f, on, fuzzy):
        f = dict(f)
        if not on["generate_docs"]:
            f["doc"] = None
        if fuzzy and REF.match(prog.unraw(f["name"])):
            f = {"kind": f.get("kind"), "name": f["name"], "pub": f.get("pub"), "recv": f.get("recv"), "params": [p[0] for p in f["params"]], "doc": f.get("doc")}
        return f

    def cut(self, items, on, block, fuzzy, path, reqs):
        """The items that must remain, without the re-exports (see cut_uses)."""
        out = []
        structs = {prog.unraw(i["name"]) for i in items if i["kind"] == "struct"}
        gone = {s for s in structs if not on["generate_classes"] or s in block}
        doc = lambda i: dict(i, doc=i.get("doc") if on["generate_docs"] else None)
        for i in items:
            nm = prog.unraw(i.get("name") or "")
            if i["kind"] == "mod":
                q = path + [nm]
                if nm == "call" or nm.startswith("call") and len(i["items"]) == 1 and i["items"][0]["kind"] == "use":
                    if on["generate_preludes"]:
                        out.append(dict(i, prelude=True) if reqs else i)
                    continue
                requested = not reqs or any(q == r[:len(q)] for r in reqs)
                if (not on["traverse_submodules"] or nm in block) and not requested:
                    continue
                out.append(doc(dict(i, items=self.cut(i["items"], on, block, fuzzy, q, reqs))))
            elif i["kind"] == "struct":
                if nm not in gone:
                    out.append(doc(i))
            elif i["kind"] == "trait":
                if nm[:-7] not in gone:
                    fns = [self.fn(f, on, fuzzy) for f in i.get("fns") or [] if self.member(f) not in block]
                    out.append(dict(i, fns=fns))
            elif i["kind"] == "impl":
                s = prog.unraw(re.sub(r".*,|[<> ]", "", i["self"].replace(" ", ""))) if i["trait"] is not None else prog.unraw(i["self"])
                if s not in gone:
                    out.append(dict(i, fns=[self.fn(f, on, fuzzy) for f in i["fns"] if self.member(f) not in block]))
            elif i["kind"] == "type":
                if on["generate_type_vars"] and nm not in block:
                    out.append(doc(i))
            elif i["kind"] == "fn":
                var = not re.match(r"_?f[xyz]?_|call1$", nm)
                if on["generate_properties" if var else "generate_functions"] and self.member(i) not in block:
                    out.append(self.fn(i, on, fuzzy))
            elif i["kind"] == "use":
                if on["generate_imports"]:
                    ps = [p for p in i["paths"] if prog.unraw(p["as"] or p["path"][-1]) not in block]
                    if ps:
                        out.append(dict(i, paths=ps))
            elif i["kind"] == "macro":
                if prog.unraw(re.match(r"\s*([\w#]+)", i["tokens"]).group(1)) not in gone:
                    out.append(i)
            else:
                out.append(i)
        return out

    def member(self, f):
        n = prog.unraw(f["name"])
        return n[4:] if n.startswith("set_") else n

    def cut_uses(self, items, top, path):
        """Drop the re-exports and prelude entries whose item is gone."""
        out = []
        for i in items:
            if i["kind"] == "use":
                ps = [p for p in i["paths"] if self.leads(top, path, p["path"])]
                if ps:
                    out.append(dict(i, paths=ps))
            elif i["kind"] == "mod":
                sub = self.cut_uses(i["items"], top, path + [prog.unraw(i["name"])])
                if sub or not i.get("prelude"):
                    j = dict(i, items=sub)
                    j.pop("prelude", None)
                    out.append(j)
            else:
                out.append(i)
        return out

    def leads(self, top, path, segs):
        cur = list(path)
        segs = [prog.unraw(s) for s in segs]
        while segs and segs[0] in ("self", "super"):
            if segs.pop(0) == "super":
                cur.pop()
        while len(segs) > 1:
            cur.append(segs.pop(0))
        items = prog.mod(top, cur)
        return items is not None and any(i["kind"] != "use" and prog.unraw(i.get("name") or "") == segs[0] for i in items)

    def superset(self, c, pub, priv):
        v = []

        def go(a, d, where):
            key = lambda i: (i["kind"], prog.unraw(i.get("name") or ""), i.get("self"), i.get("trait"), i.get("tokens"))
            there = {}
            for i in d:
                there.setdefault(key(i), []).append(i)
            for i in a:
                if i["kind"] == "use":
                    have = [p for x in d if x["kind"] == "use" for p in x["paths"]]
                    for p in i["paths"]:
                        if p not in have:
                            v.append(("lost", "%s: re-export %s is missing with private members" % (where, p)))
                    continue
                hit = there.get(key(i))
                if not hit:
                    v.append(("lost", "%s: %s is missing with private members" % (where, key(i))))
                    continue
                if i["kind"] in ("mod",):
                    go(i["items"], hit[0]["items"], where + "." + i["name"])
                elif i["kind"] in ("impl", "trait"):
                    go([dict(f, kind="fn") for f in i.get("fns") or []], [dict(f, kind="fn") for f in hit[0].get("fns") or []], where + "/" + str(key(i)))
                elif i["kind"] == "fn" and re.match("fz", i["name"]):
                    continue
                elif i != hit[0]:
                    v.append(("changed", "%s: %s differs with private members: %s" % (where, key(i), prog.difference(prog.canon([i]), prog.canon([hit[0]]))[:1])))
            known = {key(i) for i in a}
            for i in d:
                if key(i) in known or i["kind"] == "use":
                    continue
                n = prog.unraw(i.get("name") or i.get("self") or i.get("tokens", "").split()[0])
                n = re.sub(r".*,|[<> ]", "", n)
                if not re.match(r"^(set_|get_|f_|s_)?_", n) and not re.search(r"\b_", n) and n not in ("s_h", "new"):
                    v.append(("added", "%s: %s %s was added although it is not private" % (where, i["kind"], n)))
        go(pub, priv, "")
        return v


CHECK = C08
