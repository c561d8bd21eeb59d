"""C09: every Python name reaches the attribute of that very name.

Space: every name of an alphabet (keywords, names that Rust cannot express, names the generated code uses itself, names in any
script) for every kind of member of modules and classes and for parameters, and every pair of a set of related names for every
pair of kinds. Every generated item of the scope is called; each Python member knows its own name. Oracle: each call reaches
exactly one member, each member is reached under the name it keeps in Rust, and its neighbours work as ever."""
import itertools, json
from harness import core, prog
from harness.ctx import Check, Case, Space
from harness.sigs import rust_args, Mismatch

FORBIDDEN = {"get_type", "obj", "py", "repr", "str"}
KEYWORDS = ["as", "async", "await", "become", "box", "break", "const", "continue", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "static", "struct", "trait", "true", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield", "abstract"]
WEAK = ["union", "auto", "default", "raw", "gen", "safe", "macro_rules"]
NORAW = ["self", "Self", "super", "crate"]
HELPERS = ["new", "new1", "call", "call1", "get_x", "set_x", "f_x", "s_x", "p_x", "p_value", "x", "r", "f", "m", "e", "T", "args", "kwargs", "value", "import", "prelude", "K1Methods", "pyo3_embed_python_source_code", "__x" if False else "x__", "SELF", "self_", "r", "rust", "R", "Py", "type_object", "raw"]
MACROS = ["err", "f", "name", "ob", "other", "s", "modules", "module", "typeobject", "checkfunction", "generics", "NAME", "MODULE", "a", "b", "t", "i", "y", "key", "val", "INTERNED", "Target", "Type", "Self_", "AsRefSource", "K", "KMethods"]
# Names that generated code itself needs (classes of that name may be renamed, type variables skipped)
RESERVED_TYPES = {"bool", "f64", "i64", "str", "u8"}
RESERVED_CLASSES = RESERVED_TYPES | {"err", "f", "modules", "name", "ob", "other", "py", "s"}
BLOCKED = {"builtins", "testing", "tests", "test"}
STD = ["Vec", "Box", "String", "Option", "Some", "Ok", "Err", "Result", "Rc", "HashMap", "HashSet", "i64", "f64", "bool", "u8", "usize", "i32", "char", "isize", "std", "core", "alloc", "pyo3", "Python", "PyAny", "PyResult", "Bound", "PyModule", "PyDict", "Clone", "Copy", "Drop", "Default", "ToString", "From", "Into", "Iterator", "Send", "Sized", "Fn", "Debug",
       "main", "drop", "clone", "as_any", "as_ref", "as_ptr", "into_py", "into_any", "into_ptr", "unbind", "bind", "getattr", "setattr", "extract", "is_none", "call0", "call_method", "deref", "to_string", "fmt", "eq", "hash", "cmp", "into", "from", "borrow", "intern", "vec", "println", "format", "panic", "derive", "doc", "allow", "test", "cfg", "inline", "automatically_derived", "repr", "str", "obj", "py", "get_type", "type_object_raw", "is_type_of", "to_object", "type_id", "try_from", "as_borrowed", "gil_ref", "iter", "len", "dir"]
SCRIPTS = ["é", "ñandú", "变量", "μ", "Δx", "имя", "ℌ", "ª", "ſ", "゛", "℘", "a·b", "数据1", "x_é", "Ünï", "ßß", "İ", "ﬁx", "a\u0301", "e\u0301", "\u0130i", "ǅ", "ა", "ꙮ", "𝒳", "ℵ0"]
ODD = ["a-b", "a+b", "a b", "1a", "a.b", "a::b", "r#a", "r#type", "r#self", "a'b", 'a"b', "a\\b", "a\nb", "{a}", "a/*b", "//a", "#", "$a", "😀", "a😀", "-", "--", "$", " ", ".", "...", "<a>", "a&b", "\u200d", "a\u200db", "\u202ea", "a\tb", "::", "r#", "'a", "a!", "(", "%s", "0", "²", "a²", "٣", "a٣"]
RELATED = ["x", "set_x", "get_x", "self", "set_self", "get_self", "f_self", "s_self", "a-b", "a+b", "f_a_b", "s_a_b", "new", "new1", "call", "call1", "get_new", "get_call", "type", "r#type", "XMethods", "X", "f1_self", "f_f_self", "s1_self", "p_x", "set_type"]
MODKINDS = ["fn", "class", "var", "tv", "sub"]
CLSKINDS = ["meth", "cm", "sm", "ro", "rw", "cvar"]

HEAD = '''import typing, sys, builtins as _bi
class Plain:
    """A neighbour."""
    def __init__(self, a: int = 1): self.a = a
    def meth(self, s: str, l: typing.List[int]) -> typing.Dict[str, float]: return {s: _bi.float(l[0])}
    @property
    def pr(self) -> bool: return True
def plain(a: int, s: str, l: typing.List[int], d: typing.Dict[str, float], o: typing.Optional[str], q: bytes, w: float, z: bool) -> typing.Tuple[int, typing.List[str]]: return (a + _bi.len(l) + _bi.len(d) + _bi.len(q), [s, _bi.str(o), _bi.str(w), _bi.str(z)])
vplain: int = 4
_TAGS = {}
def _fn(n, t):
    def f(): return t
    f.__name__ = f.__qualname__ = n
    return f
def _class(n, t):
    c = _bi.type("X", (), {"__module__": __name__, "_tag": t, "__init__": _init, "__doc__": "Doc."})
    c.__name__ = c.__qualname__ = n
    return c
def _init(self): pass
def _reset(k=None):
    for n, t in _TAGS.items():
        if k is None: _bi.globals()[n] = t
        else: k.__dict__.pop(n, None)
def _snap(k=None):
    return _bi.sorted((n, v) for n in _TAGS for v in [_bi.globals()[n] if k is None else k.__dict__.get(n)] if v == "SET")
def _put(n, k, t):
    g = _bi.globals()
    if k == "fn": g[n] = _fn(n, t)
    elif k == "class": g[n] = _class(n, t)
    elif k == "tv": g[n] = _bi.list[_bi.int]
    elif k == "var": g[n] = _TAGS[n] = t
def _add(c, n, k, t):
    def bare(x=None): return t
    bare.__name__, bare.__qualname__, bare.__module__ = n, c.__name__ + "." + n, __name__
    def m(self): return t
    m.__name__, m.__qualname__, m.__module__ = n, c.__name__ + "." + n, __name__
    def s(): return t
    s.__name__, s.__qualname__, s.__module__ = n, c.__name__ + "." + n, __name__
    def st(self, v): self.__dict__[n] = v
    if k in ("rw", "cvar"): _TAGS[n] = t
    _bi.setattr(c, n, {"meth": m, "cm": _bi.classmethod(m), "sm": _bi.staticmethod(s), "ro": _bi.property(m), "rw": _bi.property(m, st), "cvar": t}[k])
'''
PLAIN = [("a", "K", False), ("s", "K", False), ("l", "K", False), ("d", "K", False), ("o", "K", False), ("q", "K", False), ("w", "K", False), ("z", "K", False)]
PLAINVALS = {"a": "3", "s": "'q'", "l": "[1, 2]", "d": "{'u': 1.5}", "o": "None", "q": "b'xyz'", "w": "2.5", "z": "True"}
PLAINRES = "(9, ['q', 'None', '2.5', 'True'])"
NEIGHBOURS = {"Plain", "plain", "vplain", "set_vplain"}


class C09(Check):
    ID = "C09"
    TECHNIQUE = "exhaustive enumeration of names x kinds of members, and of pairs of related names x kinds, on the real engine; every generated item is executed"
    NOTE = "Single names from an alphabet of about 230 names, pairs from 27 related names; clashes of three names and names that differ only in Unicode normalisation are not covered."
    ASSUMPTIONS = ["names that Rust cannot express may be renamed or, where no valid name remains, skipped", "the names get_type, obj, py, repr and str are reserved by the tool and get no binding",
                   "a property may get the prefix get_ where its name is the one of the generated constructor or call operator", "a setter may be missing where its name is taken by another member"]
    RULE = "one case = one scope with one or two members; distinct = distinct sets of generated items and what they reach"

    def space(self):
        sp = Space()

        def add(cid, **kw):
            sp.states += 1
            sp.transitions += 1
            sp.add(Case(cid, **kw))
        names = list(dict.fromkeys(KEYWORDS + WEAK + NORAW + HELPERS + MACROS + STD + SCRIPTS + ODD))
        for n in names:
            for k in MODKINDS:
                if k == "sub" and not (n.isidentifier() and n == norm(n)):
                    continue
                if n == "test" and k == "sub":
                    continue
                add("mod/%s/%s" % (k, json.dumps(n)), scope="mod", members=[[k, n]])
            for k in CLSKINDS if core.THOROUGH or n in KEYWORDS + NORAW + SCRIPTS[:8] + ODD[:12] + ["new", "call", "x"] else CLSKINDS[:1] + ["sm", "rw"]:
                add("cls/%s/%s" % (k, json.dumps(n)), scope="cls", members=[[k, n]])
            if n.isidentifier() and n == norm(n) and n not in PYKW:
                for s in ("mod", "cls") if core.THOROUGH or n not in STD[12:] else ("cls",):
                    add("param/%s/%s" % (s, json.dumps(n)), scope="param", owner=s, name=n)
        # many names that become the same one, next to the names they could become
        arrow = lambda i: "a%sb" % chr(0x2190 + i)
        for n in (2, 3, 5, 9, 10, 11, 12, 20, 33) + ((64, 101) if core.THOROUGH else ()):
            for more in ((), ("f_a_b", "s_a_b", "get_a_b"), ("f1_a_b", "s1_a_b", "get1_a_b", "f_a_b1", "s_a_b1"), tuple("f%d_a_b" % i for i in range(2, n)), tuple("s%d_a_b" % i for i in range(2, n))):
                for k in ("fn", "class", "var", "meth", "sm", "ro", "rw"):
                    scope = "mod" if k in MODKINDS else "cls"
                    other = {"fn": "fn", "class": "class", "var": "fn"}.get(k, "meth")
                    add("many/%s/%d/%s" % (k, n, "+".join(more[:6])), scope=scope, members=[[k, arrow(i)] for i in range(n)] + [[other, x] for x in more])
                    if more and n < 6:
                        add("manyfirst/%s/%d/%s" % (k, n, "+".join(more[:6])), scope=scope, members=[[other, x] for x in more] + [[k, arrow(i)] for i in range(n)])
        for names3 in itertools.permutations(("x", "set_x", "get_x", "set_set_x", "get_set_x"), 3):
            for ks in itertools.product(("meth", "rw"), repeat=3):
                if core.THOROUGH or list(names3) == sorted(names3):
                    add("three/%s/%s" % ("+".join(names3), "+".join(ks)), scope="cls", members=[[k, x] for k, x in zip(ks, names3)])
            for ks in itertools.product(("fn", "var"), repeat=3):
                if core.THOROUGH or list(names3) == sorted(names3):
                    add("three/%s/%s" % ("+".join(names3), "+".join(ks)), scope="mod", members=[[k, x] for k, x in zip(ks, names3)])
        for a, b in itertools.combinations(RELATED, 2):
            for ka, kb in itertools.product(MODKINDS, repeat=2):
                if any(k == "sub" and not n.isidentifier() for k, n in ((ka, a), (kb, b))):
                    continue
                if core.THOROUGH or related(a, b, "mod"):
                    add("mod/%s/%s/%s/%s" % (ka, json.dumps(a), kb, json.dumps(b)), scope="mod", members=[[ka, a], [kb, b]])
            for ka, kb in itertools.product(CLSKINDS, repeat=2):
                if not core.THOROUGH and ("cm" in (ka, kb) or "cvar" in (ka, kb) or "ro" in (ka, kb)):
                    continue
                if core.THOROUGH or related(a, b, "cls"):
                    add("cls/%s/%s/%s/%s" % (ka, json.dumps(a), kb, json.dumps(b)), scope="cls", members=[[ka, a], [kb, b]])
        return sp

    # ------------------------------------------------------------ programs

    def files(self, c, m):
        s = HEAD
        files = {}
        if c.scope == "mod":
            pkg = any(k == "sub" for k, _ in c.members)
            for i, (k, n) in enumerate(c.members):
                if k == "sub":
                    files["%s/%s.py" % (m, n)] = "def who(): return %r\nclass Q: ...\ndef uses(q: Q) -> Q: return q\n" % tag(k, i)
                else:
                    s += "_put(%r, %r, %r)\n" % (n, k, tag(k, i))
                    if k == "class":
                        s += "def uses%d(x: _bi.globals()[%r]) -> _bi.globals()[%r]: return x\n" % (i, n, n)
            files["%s/__init__.py" % m if pkg else m + ".py"] = s
            return files
        if c.scope == "cls":
            s += "class K:\n    def __init__(self): pass\n    def __call__(self): return 'CALL'\n    def kk(self, a: int, s: str, l: typing.List[int]) -> typing.Dict[str, float]: return {s: _bi.float(a + _bi.len(l))}\n"
            for i, (k, n) in enumerate(c.members):
                s += "_add(K, %r, %r, %r)\n" % (n, k, tag(k, i))
        else:
            for label, sig in self.sigs(c):
                s += ("def p%s(%s): return _bi.sorted(_bi.locals().items(), key=_bi.str)\n" if c.owner == "mod" else "") % ((label, pysig(sig)) if c.owner == "mod" else ())
            if c.owner == "cls":
                s += "class K:\n    def __init__(self): pass\n"
                for label, sig in self.sigs(c):
                    first = "this"
                    s += "    def p%s(%s): return _bi.sorted(((k, v) for k, v in _bi.locals().items() if k != %r), key=_bi.str)\n" % (label, ", ".join([first] + ([pysig(sig)] if sig else [])), first)
        return {m + ".py": s}

    def sigs(self, c):
        n = c.name
        o = "other" if n != "other" else "other2"
        return [("P", [(n, "P", False), (o, "K", False)]), ("K", [(n, "K", False), (o, "K", False)]), ("O", [(o, "K", False), (n, "O", False)]), ("A", [(o, "K", False), (n, "A", False)]), ("W", [(o, "K", False), (n, "W", False)]),
                ("C", [(n, "K", False), ("p_" + n, "K", False), ("kwargs" if n != "kwargs" else "kw", "W", False)])]

    def judge(self, b, cases):
        root = prog.newdir("c09")
        bad, progs, mods = {}, {}, {}
        for i, c in enumerate(cases):
            mods[c.id] = "n%05d" % i
            progs[c.id] = {"files": self.files(c, mods[c.id]), "modules": [mods[c.id]]}
        gens = prog.generate(b, progs, root)
        rust = {}
        for c in cases:
            g = gens[c.id]
            if not g["ok"]:
                bad[c.id] = [("generate", prog.why(g)[1])]
                continue
            d = self.drive(c, mods[c.id], g["ast"])
            if isinstance(d, tuple):
                bad[c.id] = [d]
            else:
                rust[c.id] = core.case_text(g["path"], d, True)
        errs, obs = core.execute(b, rust, [root])
        for cid, ms in errs.items():
            bad[cid] = [("compile", "the bindings cannot be compiled or called: " + ms[0][0] + "\n" + ms[0][1])]
        for c in cases:
            if c.id in bad:
                continue
            got = {o["label"]: (o["kind"], o["v"]) for o in obs.get(c.id, [])}
            self.outcome(json.dumps(sorted(got.items())))
            v = self.compare(c, gens[c.id]["ast"], mods[c.id], got)
            if v:
                bad[c.id] = v[:4]
        return bad

    def scope_items(self, c, m, ast):
        items = prog.mod(ast, [m]) or []
        if c.scope == "mod":
            fns = [f for f in prog.fns(items) if prog.unraw(f["name"]) not in NEIGHBOURS and not is_uses(f["name"])]
            structs = [i for i in items if i["kind"] == "struct" and i["name"] not in NEIGHBOURS]
            return items, fns, structs
        return items, prog.inherent(items, "K"), prog.methods(items, "K")[0]

    def drive(self, c, m, ast):
        items, fns, more = self.scope_items(c, m, ast)
        path = "b::" + m
        out = ["py.import_bound(\"%s\").unwrap();" % m]
        if c.scope == "param":
            for label, sig in self.sigs(c):
                f = prog.fn(items if c.owner == "mod" else prog.methods(items, "K")[0], "p" + label)
                if f is None:
                    return ("missing", "no binding for p%s" % label)
                vals = {n: "(%d, 'y')" % i if k == "A" else "{'zz': %d}" % i if k == "W" else str(i) for i, (n, k, _) in enumerate(sig)}
                try:
                    pre, args, _ = rust_args(sig, f["params"][1:] if c.owner == "mod" else f["params"], vals)
                except Mismatch as e:
                    return ("arity", str(e))
                call = "%s::p%s(py%s)" % (path, label, "".join(", " + a for a in args)) if c.owner == "mod" else "%s::KMethods::p%s(&%s::K::new(py).unwrap()%s)" % (path, label, path, "".join(", " + a for a in args))
                out.append("{ %s l.val(py, \"%s\", %s); }" % (" ".join(pre), label, call))
            return "\n".join(out)
        if c.scope == "mod":
            for f in fns:
                n = f["name"]
                if len(f["params"]) == 1:
                    out.append("l.val(py, %s, %s::%s(py));" % (core.rs("call|" + n), path, n))
                elif len(f["params"]) == 2:
                    out.append("l.val(py, %s, %s::%s(py, %s));" % (core.rs("set|" + n), path, n, prog.arg(f["params"][1][1], "'SET'")))
                    out.append("l.py(py, %s, \"I('%s')._snap()\"); ex(py, \"I('%s')._reset()\");" % (core.rs("after|" + n), m, m))
                else:
                    return ("signature", "unexpected parameters of %s: %r" % (n, f["params"]))
            for s in more:
                n = s["name"]
                inh = [f for f in prog.inherent(items, prog.unraw(n)) if f["name"] == "new"]
                if len(inh) != 1 or not s["pub"]:
                    return ("missing", "struct %s has no constructor or is private" % n)
                out.append("l.val(py, %s, %s::%s::new(py).and_then(|o| Ok(o.as_any().getattr(\"_tag\")?.unbind())));" % (core.rs("new|" + n), path, n))
            for i, (k, n) in enumerate(c.members):
                f = prog.fn(items, "uses%d" % i)
                if k == "class":
                    if f is None:
                        return ("missing", "no binding for uses%d" % i)
                    out.append("l.val(py, \"uses%d\", %s::uses%d(py, %s).and_then(|o| Ok(o.as_any().getattr(\"_tag\")?.unbind())));" % (i, path, i, prog.arg(f["params"][1][1], "getattr(I(%r), %r)()" % (m, n))))
                if k == "sub" and rust(n):
                    si = prog.mod(items, [n])
                    if si is None:
                        if FORBIDDEN & {n}:
                            continue
                        return ("missing", "no module %s" % n)
                    out.append("l.val(py, \"who%d\", %s::%s::who(py));" % (i, path, rust(n)))
                    u = prog.fn(si, "uses")
                    if u is None or not u["pub"] or "Q" not in u["params"][1][1]:
                        return ("missing", "the function uses of submodule %s does not take its class: %r" % (n, u))
        else:
            if prog.struct(items, "K") is None:
                return ("missing", "no struct K")
            out.append("let k: Bound<'_, %s::K> = ev(py, \"I('%s').K()\").extract().unwrap();" % (path, m))
            for f in fns:
                n = f["name"]
                if len(f["params"]) == 1:
                    out.append("l.val(py, %s, %s::K::%s(py));" % (core.rs("call|" + n), path, n))
                else:
                    return ("signature", "unexpected parameters of %s: %r" % (n, f["params"]))
            for f in more:
                n = f["name"]
                if n == "kk":
                    _, args, _ = rust_args([("a", "K", False), ("s", "K", False), ("l", "K", False)], f["params"], {"a": "1", "s": "'z'", "l": "[5]"})
                    out.append("l.val(py, \"kk\", %s::KMethods::kk(&k, %s));" % (path, ", ".join(args)))
                elif not f["params"]:
                    out.append("l.val(py, %s, %s::KMethods::%s(&k));" % (core.rs("inst|" + n), path, n))
                elif len(f["params"]) == 1:
                    out.append("l.val(py, %s, %s::KMethods::%s(&k, %s));" % (core.rs("set|" + n), path, n, prog.arg(f["params"][0][1], "'SET'")))
                    out.append("{ let s = rt(py).getattr(\"I\").unwrap().call1((\"%s\",)).unwrap(); l.val(py, %s, s.call_method1(\"_snap\", (&k,)).map(|x| x.unbind())); s.call_method1(\"_reset\", (&k,)).unwrap(); }" % (m, core.rs("after|" + n)))
                else:
                    return ("signature", "unexpected parameters of %s: %r" % (n, f["params"]))
        f = prog.fn(items, "plain")
        if f is None or prog.struct(items, "Plain") is None:
            return ("neighbour", "a neighbour has no binding")
        try:
            pre, args, _ = rust_args(PLAIN, f["params"][1:], PLAINVALS)
        except Mismatch as e:
            return ("neighbour", str(e))
        out.append("{ %s l.val(py, \"plain\", %s::plain(py, %s)); }" % (" ".join(pre), path, ", ".join(args)))
        mt = [x for x in prog.methods(items, "Plain")[0] if x["name"] == "meth"]
        if len(mt) != 1 or prog.methods(items, "Plain")[1] is None:
            return ("neighbour", "method meth of Plain has no binding")
        tr = prog.methods(items, "Plain")[1].split("::")[-1].strip()
        out.append("let o = %s::Plain::new(py, 5).unwrap(); l.val(py, \"meth\", %s::%s::meth(&o, \"w\", &[4])); l.val(py, \"pr\", %s::%s::pr(&o)); l.val(py, \"vplain\", %s::vplain(py));" % (path, path, tr, path, tr, path))
        return "\n".join(out)

    def compare(self, c, ast, m, got):
        v = []
        if c.scope == "param":
            for label, sig in self.sigs(c):
                want = sorted(((n, (i, "y") if k == "A" else {"zz": i} if k == "W" else i) for i, (n, k, _) in enumerate(sig)), key=str)
                g = got.get(label)
                if g is None or g[0] != "ok" or eval(g[1]) != want and sorted(eval(g[1]), key=str) != want:
                    v.append(("param", "p%s(%s): got %r, Python binds %r" % (label, pysig(sig), g, want)))
            return v
        want = {"plain": PLAINRES, "meth": "{'w': 4.0}", "pr": "True", "vplain": "4"}
        if c.scope == "cls":
            want["kk"] = "{'z': 2.0}"
        for k, x in want.items():
            if got.get(k) != ("ok", x):
                v.append(("neighbour", "%s gives %r instead of %r" % (k, got.get(k), x)))
        items, fns, more = self.scope_items(c, m, ast)
        used = set()
        names = {n for _, n in c.members}

        def hits(prefixes, res):
            return [l for l, g in got.items() if l.split("|")[0] in prefixes and g == ("ok", res)]
        for i, (k, n) in enumerate(c.members):
            t = repr(tag(k, i))
            keep = rust(n)
            if n in BLOCKED:
                continue
            if k == "tv":
                if not keep or n in RESERVED_TYPES:
                    continue
                h = [x for x in items if x["kind"] == "type" and prog.unraw(x["name"]) == n]
                if len(h) != 1 and n not in FORBIDDEN:
                    v.append(("missing", "type variable %r has %d items" % (n, len(h))))
                continue
            if k == "sub":
                if n not in FORBIDDEN and got.get("who%d" % i) != ("ok", t):
                    if keep:
                        v.append(("reach", "the submodule %r gives %r" % (n, got.get("who%d" % i))))
                continue
            if k == "class" and got.get("uses%d" % i) != ("ok", t):
                v.append(("reach", "a function annotated with class %r gives %r" % (n, got.get("uses%d" % i))))
            h = hits({"class": ("new",), "fn": ("call",), "var": ("call",), "cm": ("call", "inst"), "sm": ("call", "inst")}.get(k, ("inst",)), t)
            used |= set(h)
            if n in FORBIDDEN:
                if h:
                    v.append(("forbidden", "%r is reserved but has a binding %r" % (n, h)))
                continue
            rn = {l.split("|")[1] for l in h}
            ok = {keep} if keep else None
            if k == "class" and (n in RESERVED_CLASSES or n.startswith("p_")):
                ok = None
            if k in ("ro", "rw", "cvar") and n in ("new", "call", "new1", "call1"):
                ok = {keep, "get_" + n}
            taken = k in ("ro", "rw", "cvar") and n in ("new", "call", "new1", "call1") and "get_" + n in names
            if len(h) > 1 or not h and not taken and (keep or k in ("fn", "class") and any(ch.isalnum() for ch in n)):
                v.append(("missing", "%s %r is reached by %d bindings: %r" % (k, n, len(h), h)))
            elif h and ok and not rn & ok:
                v.append(("renamed", "%s %r, a valid name, became %r" % (k, n, rn)))
            if k in ("var", "rw"):
                hs = [l for l, g in got.items() if l.startswith("after|") and g == ("ok", repr([(n, "SET")]))]
                used |= set(hs)
                used |= {"set|" + l.split("|")[1] for l in hs if got.get("set|" + l.split("|")[1]) == ("ok", "None")}
                if len(hs) > 1 or not hs and rust("set_" + n) and not {"set_" + n} & (names | FORBIDDEN):
                    v.append(("setter", "%r has %d setters %r" % (n, len(hs), hs)))
                elif hs and prog.unraw(hs[0].split("|")[1]) != "set_" + n:
                    v.append(("setter", "the setter of %r is %r" % (n, hs[0])))
        if c.scope == "cls":
            ctor = [l for l, g in got.items() if l.startswith("call|") and g[0] == "ok" and g[1].startswith("<%s.K " % m)]
            call = [l for l, g in got.items() if l.startswith("inst|") and g == ("ok", "'CALL'")]
            used |= set(ctor) | set(call)
            if len(ctor) != 1 or "new" not in names and ctor != ["call|new"]:
                v.append(("constructor", "constructors: %r" % ctor))
            if len(call) != 1 or "call" not in names and call != ["inst|call"]:
                v.append(("call", "call operators: %r" % call))
        for l, g in got.items():
            if "|" in l and l not in used:
                v.append(("stray", "%s gives %r" % (l, g)))
        return v


def is_uses(n):
    return n[:4] == "uses" and n[4:].isdigit()


def related(a, b, scope):
    """Pairs whose generated names have something to do with each other."""
    base = lambda n: {n.replace("r#", ""), n.split("_", 1)[-1], n.rstrip("1"), "".join(ch if ch.isalnum() else "_" for ch in n), n.replace("Methods", ""), n.split("_", 2)[-1]} | ({"a_b"} if n in ("a-b", "a+b", "f_a_b", "s_a_b") else set())
    return bool(base(a) & base(b))


PYKW = set(__import__("keyword").kwlist)


def norm(n):
    import unicodedata
    return unicodedata.normalize("NFKC", n)


def rust(n):
    """The identifier a Python name keeps in Rust, if any."""
    import unicodedata
    if not n.isidentifier() or n == "_" or any(ord(ch) > 127 for ch in n) and n != norm(n):
        return prog.rust_ident(n) if n.isidentifier() and unicodedata.normalize("NFC", n) == n and n != "_" and n not in ("゛", "℘", "a·b") else None
    return prog.rust_ident(n)


def tag(k, i):
    return "T%d-%s" % (i, k)


def pysig(sig):
    from harness.sigs import sigtext
    return sigtext(sig)


CHECK = C09
