"""C20: a request fails exactly if Python cannot import the module, and then with Python's own exception.

Space: every kind of exception (raised objects and errors of the interpreter itself) at every place of an import, for every request
operation and stream setting; every spelling of a module name; every list of up to three requests over modules that can and cannot
be imported, with the state before the failure used again. Oracle: Python's import statement in the same interpreter."""
import itertools, json, os
from harness import core, prog
from harness.ctx import Check, Case, Space

# exceptions made by the harness and raised by the module: the error has to carry that very object
OBJECTS = {
    "value": "ValueError('a', 1)", "import": "ImportError('a', name='n', path='p')", "notfound": "ModuleNotFoundError('No module named m', name='m')", "attr": "AttributeError('a')", "key": "KeyError('a')", "runtime": "RuntimeError()",
    "stop": "StopIteration(3)", "genexit": "GeneratorExit()", "kbd": "KeyboardInterrupt()", "exit0": "SystemExit(0)", "exit3": "SystemExit(3)", "exitn": "SystemExit()", "exits": "SystemExit('bye')", "memory": "MemoryError()", "rec": "RecursionError('deep')",
    "os": "OSError(2, 'no', 'file')", "perm": "PermissionError(13, 'no')", "unicode": "UnicodeDecodeError('utf-8', b'\\xff', 0, 1, 'why')", "syntax": "SyntaxError('s', ('f', 1, 2, 't'))", "system": "SystemError('s')", "warn": "UserWarning('w')", "group": "ExceptionGroup('g', [ValueError(1), KeyError(2)])",
    "base": "BaseException('b')", "custom": "type('Custom', (Exception,), {})('c')", "custombase": "type('Custom', (BaseException,), {})('c')", "strraise": "type('Bad', (Exception,), {'__str__': lambda s: 1 / 0, '__repr__': lambda s: 1 / 0})('c')", "attrs": "type('Slots', (ValueError,), {'__slots__': ('z',)})(1)",
    "surrogate": "ValueError('\\udcff')", "nul": "ValueError('a\\0b')", "long": "ValueError('x' * 100000)", "notimpl": "NotImplementedError()", "eof": "EOFError()", "type": "TypeError('t')", "downcast": "TypeError(\"'int' object cannot be converted to 'PyModule'\")", "timeout": "TimeoutError()", "assert": "AssertionError('m')",
    "caused": "(lambda e: (setattr(e, '__cause__', KeyError('c')), e)[1])(ValueError('d'))", "noted": "(lambda e: (e.add_note('n'), e)[1])(ValueError('d'))", "empty": "ValueError('')", "nonstr": "ValueError(object())",
}
# statements with errors of the interpreter: type and arguments have to be those of the import statement
NATURAL = {
    "zero": "1 / 0", "nomod": "import nope_m", "nosub": "import json.nope_m", "noname": "from json import nope_n", "undefined": "nope_v", "attrerr": "''.nope", "syntax": "def f(:", "indent": "  x = 1", "nul": "x = '\0'", "eof": "x = (", "coding": "# -*- coding: nope -*-", "bytes": "x = '\udcff'",
    "chained": "raise ValueError('a') from KeyError('b')", "context": "try:\n    1 / 0\nexcept ZeroDivisionError:\n    raise KeyError('k')", "none": "raise ValueError('a') from None", "recursion": "def f(): return f()\nf()", "assertion": "assert 0, 'm'", "sysexit": "import sys\nsys.exit('bye')", "raisestr": "raise 'text'",
    "relative": "from . import nope_x", "relative2": "from .. import nope_x", "toplevel": "from ... import y", "circular": "from nope_c import x", "yieldout": "return 1", "tab": "if 1:\n\tx = 1\n        y = 2", "badimport": "from __future__ import nope_f", "iter": "next(iter(()))", "unpack": "a, b = 1,",
    # no error of the import, but no module either, or a module after all
    "selfdel": "import sys\ndel sys.modules[__name__]", "selfnone": "import sys\nsys.modules[__name__] = None", "selfobj": "import sys\nsys.modules[__name__] = object()", "selfmod": "import sys, types\nsys.modules[__name__] = types.ModuleType(__name__)",
    "selfsub": "import sys, types\nclass M(types.ModuleType): pass\nsys.modules[__name__].__class__ = M", "fine": "x = 1", "nothing": "", "warning": "import warnings\nwarnings.warn('w')", "handled": "try:\n    1 / 0\nexcept ZeroDivisionError:\n    pass", "closeout": "import sys\nprint('x')\nsys.stdout.flush()",
    "lateexit": "import atexit\natexit.register(lambda: None)", "thread": "import threading\nt = threading.Thread(target=lambda: 1 / 0 if 0 else None)\nt.start()\nt.join()", "unraisable": "class D:\n    def __del__(self): 1 / 0\nD()",
}
SYNTAX = ["syntax", "indent", "nul", "eof", "coding", "bytes", "tab", "nothing", "yieldout", "badimport"]
# place: (files with {s} for the statement, indented variants {i}; the module requested)
PLACES = {
    "body": ({"{p}.py": "{s}\n"}, "{p}"), "late": ({"{p}.py": "def f(a): pass\nclass K: pass\nv = 1\n{s}\n"}, "{p}"), "func": ({"{p}.py": "def go():\n{i}\n    return 0\ngo()\n"}, "{p}"), "cls": ({"{p}.py": "class K:\n{i}\n    x = 1\n"}, "{p}"),
    "init": ({"{p}/__init__.py": "{s}\n", "{p}/a.py": ""}, "{p}"), "parent": ({"{p}/__init__.py": "{s}\n", "{p}/a.py": "x = 1\n"}, "{p}.a"), "child": ({"{p}/__init__.py": "y = 1\n", "{p}/a.py": "{s}\n"}, "{p}.a"), "deep": ({"{p}/__init__.py": "", "{p}/b/__init__.py": "", "{p}/b/c.py": "{s}\n"}, "{p}.b.c"),
    "middle": ({"{p}/__init__.py": "", "{p}/b/__init__.py": "{s}\n", "{p}/b/c.py": ""}, "{p}.b.c"), "helper": ({"{p}.py": "import {p}h\n", "{p}h.py": "{s}\n"}, "{p}"), "fromhelper": ({"{p}/__init__.py": "from .h import *\n", "{p}/h.py": "{s}\n"}, "{p}"),
    "only": ({"{p}/__init__.py": "x = 1\n", "{p}/h.py": "{s}\n"}, "{p}"), "onlydeep": ({"{p}/__init__.py": "x = 1\n", "{p}/h/__init__.py": "", "{p}/h/j.py": "{s}\n"}, "{p}"), "finally": ({"{p}.py": "try:\n{i}\n    x = 1\nfinally:\n    y = 1\n"}, "{p}"),
    "finder": ({"{p}h.py": "import sys\nclass F:\n    def find_spec(self, n, path=None, target=None):\n        if n == '{p}':\n{ii}\nsys.meta_path.insert(0, F())\n", "{p}.py": "x = 1\n"}, "{p}"),
    "loader": ({"{p}h.py": "import sys, importlib.machinery as im\nclass F:\n    def find_spec(self, n, path=None, target=None):\n        if n == '{p}':\n            return im.ModuleSpec(n, self)\n    def create_module(self, spec): return None\n    def exec_module(self, m):\n        if 1:\n{ii}\nsys.meta_path.insert(0, F())\n"}, "{p}"),
}
OPS = {"name": "module_name", "names": "module_names", "str": "module_from_str"}
STREAMS = {"both": {}, "none": {"suppress_python_stdout": False, "suppress_python_stderr": False}, "out": {"suppress_python_stderr": False}, "err": {"suppress_python_stdout": False}}
# names of modules as requested; {p} is a package with the modules a and b.c
NAMES = ["", ".", "..", " ", "\\", "{p}.", ".{p}", "{p}..a", "{p}.a.", "{p}.nope", "{p}.a.nope", "{p}.b.nope", "{p}.a.K", "{p}.K", "{p}.v", " {p}", "{p} ", "{p}\n", "{p}/a", "{p}:a", "{p}-a", "{p}.a b", "nope_p", "nope_p.a", "{p}.b.c", "{p}.b.c.d", "{p}.__init__", "{P}", "{p}.A", "{p}.ä", "{p}.a.py", "./{p}", "{p}.*",
         "*", "-m", "{p}\t", "{p},json", "{p};json", "__main__x", "{p}.\u200b", "{p}.a\u0301", "\ufb01", "{p}.1", "1", "{p}\0", "\0", "{p}.class", "None", "\U0001d4ab", "{p}" * 60, ".".join(["{p}"] * 40)]
# modules that can be imported, but not named in Rust: generation must report it
RUST = {"1a": False, "a-b": False, "a b": False, "self": False, "super": False, "crate": False, "Self": False, "_": False, "é": True, "type": True, "fn": True, "async": True, "a_": True, "__x": True, "A": True, "try": True, "9": False, "a+": False, "π": True, "²": False, "a²": False}
MODS = {"ok": "x = 1\ndef f(a): pass\n", "ok2": "class K: pass\n", "val": "raise ValueError('v')\n", "imp": "raise ImportError('i')\n", "exit": "raise SystemExit(4)\n", "miss": None, "syn": "def f(:\n"}

PRE = '''
import builtins, sys, json, importlib
def mc_make():
    builtins.mc_exc = %(make)s
def mc_clean(hook=%(hook)r):
    for k in [k for k in sys.modules if k.startswith(%(p)r) or k in %(extra)r]:
        del sys.modules[k]
    sys.meta_path[:] = [f for f in sys.meta_path if type(f).__name__ != "F"]
    importlib.invalidate_caches()
    if hook:
        importlib.import_module(%(p)r + "h")
def mc_show(e):
    if e is None:
        return None
    tb, frames = e.__traceback__, []
    while tb is not None:
        n = tb.tb_frame.f_code.co_filename
        if %(p)r in n and tb.tb_frame.f_code.co_name != "find_spec":
            frames.append([n.rpartition("/")[2], tb.tb_lineno, tb.tb_frame.f_code.co_name])
        tb = tb.tb_next
    own = e is getattr(builtins, "mc_exc", None)
    try:
        import re
        args = re.sub("0x[0-9a-f]+", "0x", repr(e.args).encode("utf-8", "backslashreplace").decode())
    except Exception:
        args = "?"
    if isinstance(e, RecursionError) and not own:
        frames, args = frames[:2], "deep"
    c = lambda x: None if x is None or own else type(x).__name__
    return [type(e).__name__, args[:400], own, c(e.__cause__), c(e.__context__), frames, getattr(e, "__notes__", None)]
'''
ORACLE = '''
mc_make(); mc_clean()
import io
so, se = sys.stdout, sys.stderr
sys.stdout = sys.stderr = io.StringIO()
try:
    if %(src)r is None:
        import types
        for n in %(names)r:
            __import__(n)
            m = sys.modules[n]
            if not isinstance(m, types.ModuleType):
                raise TypeError("not a module")
    else:
        import types
        exec(compile(%(src)r, %(names)r[0] + "/__init__.py", "exec"), types.ModuleType(%(names)r[0]).__dict__)
    res = None
except BaseException as e:
    res = mc_show(e)
finally:
    sys.stdout, sys.stderr = so, se
mc_clean(); mc_make()
sys.mc_err = None
out = json.dumps(res)
'''


class C20(Check):
    ID = "C20"
    TECHNIQUE = "exhaustive fault placement: every exception kind at every place of an import x request operations x stream settings, every spelling of module names, all request lists up to length three; compared with Python's own import in the same interpreter"
    NOTE = "The exception that a request returns is compared by identity (for objects made by the harness) or by type, arguments, cause, context and traceback lines. Requests for source text have no place but the module itself."
    ASSUMPTIONS = ["what a name in sys.modules refers to must be a module; a request for anything else fails with a TypeError", "errors in submodules that were not requested do not fail a request (C02)"]
    RULE = "one evaluation = one request compared with the import statement"

    def space(self):
        sp = Space()
        sp.states = sp.transitions = 0

        def add(cid, **d):
            sp.states += 1
            sp.transitions += 1
            sp.add(Case(cid, **d))
        for pl in PLACES:
            for kind in [("obj", k) for k in OBJECTS] + [("nat", k) for k in NATURAL]:
                if kind in (("nat", "badimport"),) and pl != "body" or kind == ("nat", "yieldout") and pl in ("func", "finder", "loader"):
                    continue
                if pl in ("finder", "loader") and kind[0] == "nat" and (kind[1].startswith("self") or kind[1] in SYNTAX):
                    continue    # the hook itself has to be valid
                for op in OPS:
                    if op == "str" and pl not in ("body", "late", "func", "cls", "finally") or op == "str" and (kind[1].startswith(("self", "relative", "toplevel")) or kind[1] in ("bytes", "coding", "nul")):
                        continue
                    for st in STREAMS:
                        if core.THOROUGH or st in ("both", "none") or pl in ("body", "parent"):
                            add("%s/%s:%s/%s/%s" % (pl, kind[0], kind[1], op, st), kind="fault", place=pl, what=kind, how=op, st=st)
        for i, n in enumerate(NAMES):
            for st in STREAMS:
                for op in ("name", "names"):
                    add("name/%d:%s/%s/%s" % (i, n.encode("unicode_escape").decode()[:30], op, st), kind="name", name=n, how=op, st=st)
        for n in RUST:
            for pl in ("top", "sub", "with"):
                for last in ("generate", "build"):
                    add("rust/%s/%s/%s" % (n, pl, last), kind="rust", name=n, place=pl, last=last)
        for k in (0, 1, 2, 3):
            for l in itertools.product(MODS, repeat=k):
                if k == 3 and not core.THOROUGH and len(set(l)) < 3:
                    continue
                for how in ("fold", "names", "split"):
                    for last in ("generate", "build"):
                        if last == "generate" or k < 2:
                            add("list/%s/%s/%s" % ("+".join(l) or "-", how, last), kind="list", mods=list(l), how=how, last=last)
        # longer lists, with failing modules at every position and pair of positions
        for n in (4, 5, 6, 7, 8, 9, 10, 12, 17, 33, 65):
            ok = ["ok%d" % i for i in range(n)]
            for how in ("fold", "names", "split"):
                for last in ("generate", "build"):
                    add("long/%d/%s/%s" % (n, how, last), kind="list", mods=ok, how=how, last=last)
                for f in ("val", "exit", "miss"):
                    for i in range(n):
                        add("long/%d/%d%s/%s" % (n, i, f, how), kind="list", mods=ok[:i] + [f] + ok[i + 1:], how=how, last="generate")
                for i, j in itertools.combinations(range(n), 2):
                    if n <= 10:
                        add("long/%d/%d+%d/%s" % (n, i, j, how), kind="list", mods=[("val" if k == i else "imp") if k in (i, j) else ok[k] for k in range(n)], how=how, last="generate")
        return sp

    def job(self, c, i, root):
        p = "p%05dx" % i
        pre = dict(p=p, make="None", extra=[], hook=False)
        if c.kind == "fault":
            t, k = c.what
            s = "import builtins\nraise builtins.mc_exc" if t == "obj" else NATURAL[k]
            if t == "obj":
                pre["make"] = OBJECTS[k]
            files, name = PLACES[c.place]
            ind = lambda n: "\n".join(" " * n + l for l in s.split("\n"))
            sub = lambda x: x.replace("{s}", s).replace("{ii}", ind(12)).replace("{i}", ind(4)).replace("{p}", p)
            files = {sub(f): sub(x) for f, x in files.items()}
            name = sub(name)
            if c.place in ("finder", "loader"):
                pre["hook"] = True
            src = None
            if c.how == "str":
                src = next(iter(files.values()))
                files = {}
            prog.write_files(root, files)
            op = {"op": OPS[c.how], "keep_err": True}
            op.update({"names": [name]} if c.how == "names" else {"name": name})
            if src is not None:
                op["src"] = src
            return pre, [name], src, [{"op": "new", "cfg": STREAMS[c.st]}, op], []
        if c.kind == "name":
            prog.write_files(root, {p + "/__init__.py": "class K: pass\nv = 1\n", p + "/a.py": "class K: pass\n", p + "/b/__init__.py": "", p + "/b/c.py": ""})
            name = c.name.replace("{p}", p).replace("{P}", p.upper())
            op = {"op": OPS[c.how], "keep_err": True}
            op.update({"names": [name]} if c.how == "names" else {"name": name})
            return pre, [name], None, [{"op": "new", "cfg": STREAMS[c.st]}, op], []
        out = {"op": "generate"} if c.last == "generate" else {"op": "build", "path": "%s/%s.out" % (root, p)}
        if c.kind == "rust":
            prog.write_files(root, {c.name + ".py": "x = 1\n", p + "/__init__.py": "", p + "/" + c.name + ".py": "x = 1\n", p + "o.py": "x = 1\n"})
            pre["extra"] = [c.name]
            names = {"top": [c.name], "sub": [p + "." + c.name], "with": [p + "o", c.name]}[c.place]
            return pre, names, None, [{"op": "new"}, {"op": "module_names", "names": names, "keep_err": True}], [out]
        names = [p + m for m in c.mods]
        prog.write_files(root, {p + m + ".py": s for m, s in MODS.items() if s is not None})
        prog.write_files(root, {p + m + ".py": "x = 1\n" for m in c.mods if m not in MODS})
        if c.how == "fold":
            ops = [{"op": "module_name", "name": n, "keep_err": True} for n in names]
        elif c.how == "names":
            ops = [{"op": "module_names", "names": names, "keep_err": True}]
        else:
            ops = ([{"op": "module_name", "name": names[0], "keep_err": True}] if names else []) + [{"op": "module_names", "names": names[1:], "keep_err": True}]
        # after a failure the requests before it can be used again
        ops = [x for o in ops for x in ({"op": "save"}, o)]
        return pre, names, None, [{"op": "new"}] + ops, [out]

    def judge(self, b, cases):
        root = prog.newdir("c20")
        jobs, info = [], {}
        for i, c in enumerate(cases):
            d = "%s/%05d" % (root, i)     # a directory each, so that looking for modules stays cheap
            os.mkdir(d)
            pre, names, src, ops, after = self.job(c, i, d)
            P = PRE % pre
            show = {"op": "py", "code": P + "\nout = json.dumps([mc_show(sys.mc_err)])\nmc_clean(False)\nsys.path.remove(%r)" % d}
            oracle = {"op": "py", "code": P + "sys.path.insert(0, %r)\n" % d + ORACLE % {"src": src, "names": names}}
            head = []
            all_ops = head + [oracle] + ops + after + [show]
            if c.kind == "list" and ops[-1]["op"] != "new":
                all_ops[-1:-1] = [{"op": "restore"}, dict(after[0])] if any(not m.startswith("ok") for m in c.mods) else []
            jobs.append({"id": c.id, "ops": all_ops})
            info[c.id] = (len(head), len(head) + 1, len(head) + 1 + len(ops), names, [o["op"] for o in all_ops])
        res = core.run_jobs(b, jobs, sys_path=[])
        bad = {}
        for c in cases:
            v = self.verdict(c, res[c.id], *info[c.id])
            if v:
                bad[c.id] = v[:3]
        if len(cases) > 1:
            self.info.update(evaluations=len(cases), traces_validated_against_impl=len(cases))
        return bad

    def verdict(self, c, r, ho, lo, hi, names, kinds):
        rep = r.get("res")
        if rep is None:
            return [("crash", repr(r)[:300])]
        for x in rep:
            if "panic" in x:
                return [("panic", x["panic"][:300])]
            if "pyerr" in x:
                return [("harness", x["pyerr"][:500])]
        want = json.loads(rep[ho]["out"])
        got = json.loads(rep[-1]["out"])[0]
        req = [x for x, k in zip(rep[lo:hi], kinds[lo:hi]) if k.startswith("module")]
        failed = [x for x in req if "err" in x]
        self.outcome((c.kind, str(want and want[:2]), failed and failed[0]["err"] or ""))
        v = []
        if (want is None) != (not failed):
            return [("success", "the request %s (%s), but Python's import %s" % ("fails" if failed else "succeeds", failed and failed[0]["msg"][:200], "raises %s" % want if want else "succeeds"))]
        if want is not None:
            if failed[0]["err"] != "PyError":
                return [("kind", "the error is %s (%s), not Python's %s" % (failed[0]["err"], failed[0]["msg"][:200], want))]
            if want[:2] == ["TypeError", "('not a module',)"]:
                if got is None or got[0] != "TypeError":
                    v.append(("exception", "%s instead of a TypeError" % got))
            elif got is None or got[:5] + got[6:] != want[:5] + want[6:]:
                v.append(("exception", "the error carries %s, but Python raised %s" % (got, want)))
            elif got[5] != want[5]:
                v.append(("traceback", "the traceback of the error is %s, Python's %s" % (got[5], want[5])))
        if c.kind in ("rust", "list"):
            gens = [(k, x) for k, x in zip(kinds, rep) if k in ("generate", "build")]
            k, x = gens[0]
            ok = "ok" in x
            if c.kind == "rust":
                if ok != RUST[c.name]:
                    v.append(("generate", "%s of module %r %s" % (k, c.name, x)))
                elif not ok and x["err"] != "CodegenError":
                    v.append(("generate", "%s" % x))
            else:
                good = all(m.startswith("ok") for m in c.mods)
                if good and c.mods:
                    if not ok:
                        v.append(("generate", "%s fails: %s" % (k, x)))
                elif good:
                    if x.get("err") != "CodegenError":
                        v.append(("empty", "%s without any module gives %s" % (k, str(x)[:200])))
                else:
                    # the Codegen is gone; the one before the failure still works
                    if not x.get("skipped"):
                        v.append(("generate", "%s after a failure gives %s" % (k, str(x)[:200])))
                    before = next(i for i, m in enumerate(c.mods) if not m.startswith("ok"))
                    if c.how == "names":
                        before = 0
                    elif c.how == "split":
                        before = min(before, 1)
                    y = gens[1][1]
                    if ("ok" in y) != (before > 0) or before == 0 and y.get("err") != "CodegenError":
                        v.append(("before", "what was requested before the failure gives %s" % str(y)[:200]))
                    elif before and k == "generate":
                        mods = sorted({prog.unraw(m["name"]) for m in y["ast"]})
                        if mods != sorted({n for n in names[:before]}):
                            v.append(("before", "the bindings of the requests before the failure contain %s" % mods))
        return v


CHECK = C20
