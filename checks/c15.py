"""C15: every front end yields the same tokens for the same modules, or reports failure and leaves the output alone.

Space: all module lists up to length three over valid, failing, duplicate and dotted modules x every front end (library,
build helper, command line tool in every option spelling to stdout and to a file, macro in sequences of invocations in
one compiler process) x every state of the output path, write faults at every boundary, and histories of several
generations into one file. The reference is the library: the tokens of a fold of `Codegen::module_name`."""
import concurrent.futures, itertools, os, resource, shutil, signal, subprocess, tempfile
from harness import core, prog
from harness.core import rs
from harness.ctx import Check, Case, Space

FILES = {
    "pa.py": '"""Module pa."""\nN: int = 3\ndef f(a, b: int = 1, *c, k=2, **d) -> str:\n    """Doc `f` \\\\ "q"."""\n    return str(a)\n'
             'class K:\n    def __init__(self, a: int): self.a = a\n    def m(self, x): return x\n'
             '    @property\n    def p(self) -> int: return self.a\n',
    "pb.py": 'import sys\nprint("pollution on stdout")\nprint("and stderr", file=sys.stderr)\nsys.stdout.write("x" * 20000)\n'
             'def g() -> int: return 1\ndef __getattr__(n):\n    print("getattr", n)\n    raise AttributeError(n)\n',
    "pe.py": "",
    "pk/__init__.py": '"""Package."""\nfrom .sub import S, h as hh\n__all__ = ["S", "own"]\ndef own(): ...\n',
    "pk/sub.py": "class S:\n    def s(self) -> int: ...\ndef h(*a): ...\n",
    "pk/deep/__init__.py": "",
    "pk/deep/leaf.py": 'def leaf(match, ünï): "d\\u00e9"\n',
    "bad.py": "def f(): ...\nraise RuntimeError('boom')\n",
    "syn.py": "def f(:\n",
    "ext.py": "import sys\nsys.exit(0)\n",
    "1a.py": "def f(): ...\n",
}
OK = ["pa", "pb", "pe", "pk", "pk.sub", "pk.deep.leaf"]
FAIL = ["nope", "pk.nope", "bad", "syn", "ext", "1a", "", "-x", " pa"]
# spellings that name no module
ODD = ["pk/sub", "pk::sub", "pa.py", "pk.sub.", "PA", "./pa", "pa ", "pk..sub", ".pa", "pk-sub", "pa,pb", "pa;pb", "pa pb", "*", "pk.*", "r#pa", "\\"]
SHORT = ["pa", "pk", "pk.sub", "pe", "nope", "1a"]


def cli_args(spell, mods, out):
    """Command lines that mean the same."""
    o = {"": [], "-o": ["-o", out], "-oX": ["-o%s" % out], "--output": ["--output", out],
         "--output=": ["--output=%s" % out]}
    s, _, oo = spell.partition("/")
    o = o[oo]
    if s == "list":
        return ["-m"] + mods + o
    if s == "each":
        return [x for m in mods for x in ("-m", m)] + o
    if s == "long":
        return o + ["--module-name"] + mods
    if s == "eq":
        return o + ["--module-name=%s" % m for m in mods]
    if s == "glued":
        return ["-m" + m for m in mods] + o
    if s == "mixed":
        return ["-m", mods[0]] + o + ["--module-name"] + mods[1:] if len(mods) > 1 else ["-m", mods[0]] + o
    raise KeyError(spell)


SPELLS = ["list", "each", "long", "eq", "glued", "mixed"]
OUTS = ["", "-o", "-oX", "--output", "--output="]
STATES = ["absent", "short", "long", "empty", "parent1", "parent3", "dir", "link", "dangling", "linkdir", "filepar",
          "hardlink", "space", "rel", "reldot", "relparent", "slash", "emptypath", "devfull", "devnull", "neighbour",
          "readonly"]
MACRO_FORMS = ['("%s")', '["%s"]', '{"%s"}', '(r"%s")', '(r#"%s"#)']


def failing(mods):
    return not mods or any(m in FAIL or m in ODD for m in mods)


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            st = os.lstat(p)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = ("l", os.readlink(p), st.st_ino)
            elif os.path.isdir(p):
                out[os.path.relpath(p, d)] = ("d", st.st_mode, st.st_ino)
            else:
                out[os.path.relpath(p, d)] = ("f", open(p, "rb").read(), st.st_mtime_ns, st.st_ino, st.st_mode)
    return out


def put(path, text):
    with open(path, "w") as f:
        f.write(text)
    os.utime(path, (1000000000, 1000000000))


def place(state, d):
    """Prepare the output path in the scratch directory d. Returns (path as given, path to read, files that may change,
    can it be written)."""
    o = os.path.join(d, "out.rs")
    put(os.path.join(d, "other.rs"), "// other\n")
    if state == "absent":
        return o, o, {"out.rs"}, True
    if state == "short":
        put(o, "// old\n")
    elif state == "long":
        put(o, "// old old old\n" * 20000)
    elif state == "empty":
        put(o, "")
    elif state == "readonly":
        put(o, "// old\n")
        os.chmod(o, 0o444)
        return o, o, {"out.rs"}, None
    elif state == "parent1":
        o = os.path.join(d, "n", "out.rs")
        return o, o, {"n", "n/out.rs"}, None
    elif state == "parent3":
        o = os.path.join(d, "n", "m", "l", "out.rs")
        return o, o, {"n", "n/m", "n/m/l", "n/m/l/out.rs"}, None
    elif state == "dir":
        os.mkdir(o)
        put(os.path.join(o, "x.rs"), "// x\n")
        return o, None, set(), False
    elif state == "link":
        put(os.path.join(d, "real.rs"), "// real\n")
        os.symlink("real.rs", o)
        return o, o, {"out.rs", "real.rs"}, True
    elif state == "dangling":
        os.symlink("real.rs", o)
        return o, o, {"out.rs", "real.rs"}, True
    elif state == "linkdir":
        os.mkdir(os.path.join(d, "rd"))
        os.symlink("rd", os.path.join(d, "ld"))
        o = os.path.join(d, "ld", "out.rs")
        return o, o, {"rd/out.rs"}, True
    elif state == "filepar":
        put(os.path.join(d, "fp"), "x")
        return os.path.join(d, "fp", "out.rs"), None, set(), False
    elif state == "hardlink":
        put(o, "// old\n")
        os.link(o, os.path.join(d, "twin.rs"))
        return o, o, {"out.rs", "twin.rs"}, True
    elif state == "space":
        o = os.path.join(d, "a b ü.rs")
        return o, o, {"a b ü.rs"}, True
    elif state == "rel":
        return "out.rs", o, {"out.rs"}, True
    elif state == "reldot":
        put(o, "// old\n")
        return "./out.rs", o, {"out.rs"}, True
    elif state == "relparent":
        return "q/out.rs", os.path.join(d, "q", "out.rs"), {"q", "q/out.rs"}, None
    elif state == "slash":
        return o + "/", None, set(), False
    elif state == "emptypath":
        return "", None, set(), False
    elif state == "devfull":
        return "/dev/full", None, set(), False
    elif state == "devnull":
        return "/dev/null", None, set(), True
    elif state == "neighbour":
        put(o, "// old\n")
        for n in ("out.rs.tmp", "out.rs.bak", "out.rs~", ".out.rs"):
            put(os.path.join(d, n), "// mine\n")
    return o, o, {"out.rs"}, True


class C15(Check):
    ID = "C15"
    LEVEL = "fault_enumeration"
    TECHNIQUE = ("exhaustive enumeration of module lists, front ends, output path states, write faults and generation "
                 "histories on the real tools, compared with the library's tokens")
    NOTE = ("All lists up to length two over 15 modules (valid, failing in import or generation, dotted, empty) and up to "
            "three over six; 30 spellings of the command line; 22 states of the output path; file size limits at every "
            "boundary of the output; histories of two (thorough: three) generations into one file.")
    ASSUMPTIONS = ["the compiler's expanded output shows what the macro returned",
                   "checks run as root, so permission bits do not make writing fail"]
    RULE = "one case = (front end, module list, output state / fault); distinct = distinct (front end, outcome, tokens) triples"

    def space(self):
        sp = Space()
        sp.states += 1
        ok_fail = OK + FAIL
        lists = [()] + [(m,) for m in ok_fail + ODD] + [("pa", m) for m in ODD]
        lists += list(itertools.product(ok_fail, repeat=2))
        lists += list(itertools.product(SHORT if not core.THOROUGH else OK + ["nope", "bad", "1a"], repeat=3))
        for l in lists:
            sp.states += 1
            sp.transitions += 1 if l else 0
            key = ",".join(l)
            if l and not any(m.startswith("-") for m in l):
                n = len(l)
                for i, s in enumerate(SPELLS):
                    if n == 3 and s not in (("list", "each") if not core.THOROUGH else SPELLS):
                        continue
                    if "" in l and s == "glued":
                        continue
                    for j, o in enumerate(OUTS):
                        if n >= 2 and not core.THOROUGH and (i + j + sum(map(len, l))) % 5:
                            # each list meets every spelling and every output option, not every pair of them
                            if not (n == 2 and failing(l) is False):
                                continue
                        sp.add(Case("cli|%s|%s/%s" % (key, s, o), kind="cli", mods=list(l), spell=s + "/" + o))
            elif l:
                sp.add(Case("cli|%s|eq/" % key, kind="cli", mods=list(l), spell="eq/"))
            for f in ("names", "build") + (() if failing(l) else ("objects",)):
                sp.add(Case("lib|%s|%s" % (key, f), kind="lib", mods=list(l), front=f))
        # macro: sequences of invocations in one compiler process
        seqs = [(m,) for m in ok_fail + ODD] + list(itertools.product(ok_fail, repeat=2))
        if core.THOROUGH:
            seqs += list(itertools.product(SHORT + ["ext"], repeat=3))
        for l in seqs:
            sp.states += 1
            sp.transitions += 1
            sp.add(Case("macro|%s" % ",".join(l), kind="macro", mods=list(l), form=0))
        for m in ok_fail:
            for k in range(1, len(MACRO_FORMS)):
                sp.add(Case("macro|%s|form%d" % (m, k), kind="macro", mods=[m], form=k))
        for m in OK:
            sp.add(Case("use|%s" % m, kind="use", mods=[m]))
        # states of the output path
        for l in [("pa",), ("pa", "pk.sub"), ("pk", "pk.sub", "pe"), ("bad",), ("pa", "nope"), ("nope", "pa"), ("1a",),
                  ("pa", "1a"), ("ext",), ("syn",), ()]:
            for st in STATES:
                for f in ("build", "-o", "--output="):
                    sp.states += 1
                    sp.transitions += 1
                    sp.add(Case("out|%s|%s|%s" % (",".join(l), st, f), kind="out", mods=list(l), st=st, front=f))
        # faults while writing
        for l in [("pa",), ("pk", "pa")]:
            for dest in ("file", "existing", "stdout"):
                for lim in ("0", "1", "half", "n-1", "n", "n+1"):
                    sp.add(Case("limit|%s|%s|%s" % (",".join(l), dest, lim), kind="limit", mods=list(l), dest=dest, lim=lim))
            for dest in ("devfull", "pipe"):
                sp.add(Case("limit|%s|%s|-" % (",".join(l), dest), kind="limit", mods=list(l), dest=dest, lim="-"))
        # histories of generations into one file
        ops = [(f, l) for f in ("build", "cli") for l in (("pa",), ("pe",), ("pa", "nope"), ("1a",))]
        for n in (2, 3) if core.THOROUGH else (2,):
            for h in itertools.product(range(len(ops)), repeat=n):
                sp.states += 1
                sp.transitions += n
                sp.add(Case("hist|%s" % ">".join("%s:%s" % (ops[i][0], "+".join(ops[i][1])) for i in h), kind="hist",
                            ops=[ops[i] for i in h]))
        # command lines without modules, or wrong ones
        for a in ([], ["-m"], ["-o", "out.rs"], ["-m", "pa", "-o"], ["--nope"], ["-m", "pa", "-o", "out.rs", "-o", "out.rs"],
                  ["-m", "pa", "--output"], ["pa"], ["-o", "out.rs", "-m"]):
            sp.add(Case("args|%s" % " ".join(a), kind="args", args=a))
        return sp

    # -- running

    def setup(self, b):
        if getattr(self, "root", None):
            return
        self.cli, self.macro = core.build_front()
        self.root = prog.newdir("c15")
        prog.write_files(self.root, FILES)
        self.env = dict(core.ENV, PYTHONPATH=self.root)
        self.tmp = prog.newdir("c15-t")
        self.refs = {}
        self.b = b

    def dir(self):
        return tempfile.mkdtemp(dir=self.tmp)

    def run_cli(self, args, cwd, stdout=None, limit=None):
        def pre():
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        try:
            p = subprocess.run([self.cli] + args, cwd=cwd, env=self.env, stdin=subprocess.DEVNULL,
                               stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                               preexec_fn=pre if limit is not None else None, restore_signals=limit is None)
        except subprocess.TimeoutExpired:
            return "timeout", b"", b""
        return p.returncode, p.stdout or b"", p.stderr

    def references(self, b, lists):
        """Library reports, text and canonical tokens for module lists."""
        todo = [l for l in dict.fromkeys(lists) if l not in self.refs]
        jobs = []
        for l in todo:
            p = os.path.join(self.dir(), "ref.rs")
            jobs.append({"id": repr(l), "ops": [{"op": "new"}] + [{"op": "module_name", "name": m} for m in l] +
                         [{"op": "generate", "write": p, "text": True, "ast": False}, {"op": "canon", "path": p}]})
        reps = core.run_jobs(b, jobs, sys_path=[self.root]) if jobs else {}
        for l in todo:
            r = reps[repr(l)]
            if "crash" in r:
                self.refs[l] = {"crash": r["crash"]}
                continue
            res = r["res"]
            bad = [x for x in res if "err" in x and x["err"] != "Read"]
            pan = [x for x in res if "panic" in x]
            self.refs[l] = {"ok": bool(res[-2].get("ok")), "text": res[-2].get("text"), "canon": res[-1], "bad": bad, "pan": pan}

    def same(self, ref, canon):
        if not canon.get("ok") or not ref["canon"].get("ok"):
            return False
        a = {ref["canon"]["plain"], ref["canon"]["pretty"]}
        return canon["plain"] in a or canon["pretty"] in a

    def judge(self, b, cases):
        self.setup(b)
        bad = {}
        self.references(b, [()] + [(m,) for m in OK] + [tuple(c.mods) for c in cases if c.kind in ("cli", "lib", "out", "limit")] +
                        [tuple(l) for c in cases if c.kind == "hist" for _, l in c.ops])
        self.expand_refs(b)

        def add(c, cls, msg):
            bad.setdefault(c.id, []).append((cls, msg))

        # the library itself: fails exactly on lists with a failing module
        libjobs = []
        for c in cases:
            c.data["canon"] = None
            if c.kind == "lib":
                ref = self.refs[tuple(c.mods)]
                if "crash" in ref or ref["pan"]:
                    add(c, "library-crash", repr(ref)[:500])
                    continue
                if ref["ok"] == failing(c.mods) or (failing(c.mods) and not ref["bad"]):
                    add(c, "library-outcome", "expected %s, got %r" % ("failure" if failing(c.mods) else "success", ref["bad"]))
                d = self.dir()
                out = os.path.join(d, "out.rs")
                put(out, "// old\n")
                c.data["dir"] = d
                if c.front == "names":
                    ops = [{"op": "new"}, {"op": "module_names", "names": c.mods}, {"op": "build", "path": out}]
                elif c.front == "objects":
                    ops = [{"op": "new"}, {"op": "modules", "names": c.mods}, {"op": "build", "path": out}]
                else:
                    ops = [{"op": "new"}] + [{"op": "module_name", "name": m} for m in c.mods] + [{"op": "build", "path": out}]
                libjobs.append({"id": c.id, "ops": ops})
        reps = core.run_jobs(b, libjobs, sys_path=[self.root]) if libjobs else {}
        for c in cases:
            if c.kind != "lib" or c.id not in reps:
                continue
            self.finish_build(c, reps[c.id], c.dir, os.path.join(c.dir, "out.rs"), "// old\n", add)

        with concurrent.futures.ThreadPoolExecutor(core.NCPU) as ex:
            fs = {}
            for c in cases:
                f = getattr(self, "do_" + c.kind, None)
                if f:
                    fs[c.id] = (c, ex.submit(f, c))
            for c, fu in fs.values():
                for cls, msg in fu.result() or ():
                    add(c, cls, msg)
        self.do_out_builds(b, [c for c in cases if c.kind == "out" and c.front == "build"], add)
        # compare the tokens of all outputs
        jobs = [{"id": c.id, "ops": [{"op": "canon", "path": c.canon[0]}]} for c in cases if c.canon]
        reps = core.run_jobs(b, jobs, sys_path=[self.root]) if jobs else {}
        for c in cases:
            if c.canon:
                ref = self.refs[tuple(c.canon[1])]
                got = (reps[c.id].get("res") or [{}])[0]
                if not self.same(ref, got):
                    add(c, "different-tokens", "front end: %s\nlibrary: %s" % (repr(got)[:700], repr(ref["canon"])[:700]))
                self.outcome((c.kind, "ok", hash(ref["canon"].get("pretty"))))
            else:
                self.outcome((c.kind, "fail" if c.id not in bad else "bad", ""))
            for k in ("canon", "dir"):
                c.data.pop(k, None)
        for p in os.listdir(self.tmp):
            shutil.rmtree(os.path.join(self.tmp, p), ignore_errors=True)
        return bad

    def finish_build(self, c, rep, d, out, old, add):
        if "crash" in rep or any("panic" in x for x in rep.get("res", ())):
            add(c, "crash", repr(rep)[:600])
            return
        errs = [x for x in rep["res"] if "err" in x]
        content = open(out).read() if os.path.exists(out) else None
        if failing(c.mods):
            if not errs:
                add(c, "failure-not-reported", repr(rep)[:400])
            if content != old:
                add(c, "output-touched", "content is now %r" % (content and content[:200]))
        elif errs:
            add(c, "failed", repr(errs)[:400])
        else:
            c.data["canon"] = (out, c.mods)
        if sorted(os.listdir(d)) != ["out.rs"]:
            add(c, "other-files", repr(sorted(os.listdir(d))))

    def do_cli(self, c):
        v = []
        d = self.dir()
        out = os.path.join(d, "out.rs")
        put(out, "// old\n")
        before = snapshot(d)
        rc, so, se = self.run_cli(cli_args(c.spell, c.mods, out), d)
        tofile = not c.spell.endswith("/")
        after = snapshot(d)
        if failing(c.mods):
            if rc == 0:
                v.append(("failure-not-reported", "exit 0, stderr %r" % se[-300:]))
            if so:
                v.append(("output-on-failure", repr(so[:200])))
            if after != before:
                v.append(("output-touched", repr(sorted(set(after.items()) ^ set(before.items())))[:400]))
        elif rc != 0:
            v.append(("failed", "exit %s: %s" % (rc, se[-600:].decode(errors="replace"))))
        else:
            if set(after) != set(before):
                v.append(("other-files", repr(sorted(after))))
            if tofile:
                if so:
                    v.append(("stdout-polluted", repr(so[:200])))
            else:
                if after != before:
                    v.append(("output-touched", "written without --output"))
                out = os.path.join(self.dir(), "stdout.rs")
                with open(out, "wb") as f:
                    f.write(so)
            c.data["canon"] = (out, c.mods)
        return v

    def do_args(self, c):
        v = []
        d = self.dir()
        put(os.path.join(d, "out.rs"), "// old\n")
        before = snapshot(d)
        rc, so, se = self.run_cli(c.args, d)
        if rc == 0:
            v.append(("failure-not-reported", "exit 0"))
        if snapshot(d) != before:
            v.append(("output-touched", ""))
        if so:
            v.append(("output-on-failure", repr(so[:200])))
        return v

    def check_out(self, c, d, before, place_, okrun, msg):
        given, read, may, can = place_
        v = []
        after = snapshot(d)
        changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
        if failing(c.mods):
            if okrun:
                v.append(("failure-not-reported", msg))
            if changed:
                v.append(("output-touched", repr(sorted(changed))))
            return v
        if can is True and not okrun:
            v.append(("failed", msg))
        if can is False and okrun:
            v.append(("write-failure-not-reported", msg))
        if okrun:
            if changed - may:
                v.append(("other-files", repr(sorted(changed - may))))
            if read:
                if not os.path.isfile(read):
                    v.append(("nothing-written", repr(sorted(after))))
                else:
                    c.data["canon"] = (read, c.mods)
        elif changed - {x for x in may if x in after and after[x][0] == "d"}:
            v.append(("failed-and-written", repr(sorted(changed))))
        return v

    def do_out(self, c):
        if c.front == "build":
            return []
        d = self.dir()
        pl = place(c.st, d)
        if c.st in ("parent1", "parent3", "relparent"):
            pl = pl[:3] + (True,)    # the tool creates the directories of its output
        before = snapshot(d)
        args = ["-m"] + c.mods if c.mods else []
        args += ["-o", pl[0]] if c.front == "-o" else ["--output=" + pl[0]]
        rc, so, se = self.run_cli(args, d)
        v = self.check_out(c, d, before, pl, rc == 0, "exit %s %s" % (rc, se[-300:]))
        if so:
            v.append(("stdout-polluted", repr(so[:100])))
        return v

    def do_out_builds(self, b, cases, add):
        # relative paths: one worker process per working directory
        jobs, info = [], {}
        for c in cases:
            d = self.dir()
            pl = place(c.st, d)
            info[c.id] = (d, pl, snapshot(d))
            job = {"id": c.id, "ops": [{"op": "py", "code": "import os; os.chdir(%r)" % d}, {"op": "new"}] +
                   [{"op": "module_name", "name": m} for m in c.mods] + [{"op": "build", "path": pl[0]}]}
            jobs.append(job)
        reps = core.run_jobs(b, jobs, sys_path=[self.root]) if jobs else {}
        for c in cases:
            d, pl, before = info[c.id]
            r = reps[c.id]
            if "crash" in r or any("panic" in x for x in r["res"]):
                add(c, "crash", repr(r)[:500])
                continue
            errs = [x for x in r["res"] if "err" in x]
            for cls, msg in self.check_out(c, d, before, pl, not errs, repr(errs)[:300]):
                add(c, cls, msg)

    def do_limit(self, c):
        d = self.dir()
        out = os.path.join(d, "out.rs")
        rc, full, se = self.run_cli(["-m"] + c.mods, d)
        if rc != 0:
            return [("failed", repr(se[-300:]))]
        n = len(full)
        if c.dest == "devfull":
            with open("/dev/full", "wb") as f:
                rc, _, _ = self.run_cli(["-m"] + c.mods, d, stdout=f)
            return [] if rc != 0 else [("write-failure-not-reported", "stdout is /dev/full")]
        if c.dest == "pipe":
            r, w = os.pipe()
            os.close(r)
            rc, _, _ = self.run_cli(["-m"] + c.mods, d, stdout=w)
            os.close(w)
            return [] if rc != 0 else [("write-failure-not-reported", "stdout is a closed pipe")]
        lim = {"0": 0, "1": 1, "half": n // 2, "n-1": n - 1, "n": n, "n+1": n + 1}[c.lim]
        if c.dest == "existing":
            put(out, "// old old\n" * 10)
        if c.dest == "stdout":
            with open(out, "wb") as f:
                rc, _, se = self.run_cli(["-m"] + c.mods, d, stdout=f, limit=lim)
        else:
            rc, _, se = self.run_cli(["-m"] + c.mods + ["-o", out], d, limit=lim)
        if lim < n:
            return [] if rc != 0 else [("write-failure-not-reported", "limit %d of %d bytes" % (lim, n))]
        if rc != 0:
            return [("failed", repr(se[-300:]))]
        c.data["canon"] = (out, c.mods)
        return []

    def do_hist(self, c):
        v = []
        d = self.dir()
        out = os.path.join(d, "out.rs")
        last = None
        for i, (f, l) in enumerate(c.ops):
            l = list(l)
            before = snapshot(d)
            if f == "cli":
                rc, so, se = self.run_cli(["-m"] + l + ["-o", out], d)
                okrun = rc == 0
            else:
                r = core.run_jobs(self.b, [{"id": "h", "ops": [{"op": "new"}] + [{"op": "module_name", "name": m} for m in l] +
                                            [{"op": "build", "path": out}]}], sys_path=[self.root], workers=1)["h"]
                if "crash" in r:
                    return [("crash", repr(r)[:300])]
                okrun = not any("err" in x or "panic" in x for x in r["res"])
            if okrun == failing(l):
                v.append(("outcome", "step %d" % i))
            if not okrun and snapshot(d) != before:
                v.append(("output-touched", "step %d" % i))
            if okrun:
                last = l
        if last:
            c.data["canon"] = (out, last)
        elif os.path.exists(out):
            v.append(("output-touched", "written by failing generations"))
        return v

    # -- macro

    def rustc(self, args, cwd, boot=True):
        env = dict(self.env)
        if boot:
            env["RUSTC_BOOTSTRAP"] = "1"
        cmd = ["rustc", "--edition=2021", "-L", "dependency=" + self.b.deps, "--extern", "pyo3=" + self.b.pyo3,
               "--extern", "pyo3_bindgen_macros=" + self.macro] + args
        return subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    @staticmethod
    def sections(text):
        """The expanded modules m0, m1, ... without layout."""
        out = {}
        cur = None
        for line in text.splitlines():
            if line.startswith("pub mod m") and line.split()[2][1:].split("{")[0].isdigit():
                cur = int(line.split()[2][1:].split("{")[0])
                out[cur] = []
            if cur is not None:
                out[cur].append(line.split("{", 1)[1] if line.startswith("pub mod m") else line)
                if line.rstrip() == "}" or (line.startswith("pub mod m") and line.rstrip().endswith("}")):
                    cur = None
        return {k: "".join("".join(v).split()) for k, v in out.items()}

    def expand_refs(self, b):
        """What the compiler makes of the library's tokens."""
        if getattr(self, "xrefs", None):
            return
        d = self.dir()
        src = os.path.join(d, "lib.rs")
        with open(src, "w") as f:
            f.write("#![allow(warnings)]\n")
            for i, m in enumerate(OK):
                f.write("pub mod m%d { %s }\n" % (i, self.refs[(m,)].get("text") or "compile_error!();"))
        p = self.rustc(["--crate-type=lib", "-Zunpretty=expanded", src], d)
        sec = self.sections(p.stdout)
        if set(sec) != set(range(len(OK))):
            if all(self.refs[(m,)].get("ok") for m in OK):
                raise core.CheckError("cannot expand the library's tokens: %s" % p.stderr[-1000:])
        self.xrefs = {m: sec.get(i) for i, m in enumerate(OK)}

    def do_macro(self, c):
        v = []
        d = self.dir()
        src = os.path.join(d, "lib.rs")
        with open(src, "w") as f:
            f.write("#![allow(warnings)]\n")
            for i, m in enumerate(c.mods):
                arg = MACRO_FORMS[c.form] % m
                f.write("pub mod m%d { pyo3_bindgen_macros::import_python!%s%s }\n" % (i, arg, "" if arg[0] == "{" else ";"))
        p = self.rustc(["--crate-type=lib", "--error-format=json", "-Zunpretty=expanded", src], d)
        import json
        lines = set()
        loose = []
        for line in p.stderr.splitlines():
            try:
                x = json.loads(line)
            except ValueError:
                continue
            if x.get("level") != "error":
                continue
            ls = {s["line_start"] - 2 for s in x.get("spans", ())}
            if ls:
                lines |= ls
            elif "aborting" not in x["message"]:
                loose.append(x["message"])
        if p.returncode not in (0, 1):
            v.append(("crash", "exit %s %s" % (p.returncode, p.stderr[-500:])))
            return v
        sec = self.sections(p.stdout)
        for i, m in enumerate(c.mods):
            if failing([m]):
                if i not in lines:
                    v.append(("failure-not-reported", "invocation %d (%r): %r" % (i, m, p.stderr[:300])))
            elif i in lines:
                v.append(("failed", "invocation %d (%r): %s" % (i, m, p.stderr[:600])))
            elif not (set(range(len(c.mods))) & lines) or i in sec:
                if sec.get(i) != self.xrefs[m]:
                    v.append(("different-tokens", "invocation %d (%r): %s\nlibrary: %s"
                              % (i, m, (sec.get(i) or "")[:500], (self.xrefs[m] or "")[:500])))
        if "pollution" in p.stdout:
            v.append(("stdout-polluted", ""))
        if any(failing([m]) for m in c.mods) and p.returncode == 0:
            v.append(("failure-not-reported", "the compiler exits with 0"))
        if loose:
            v.append(("failed", repr(loose)[:300]))
        if os.listdir(d) != ["lib.rs"]:
            v.append(("other-files", repr(os.listdir(d))))
        return v

    def do_use(self, c):
        """The macro's bindings compile and work in place."""
        d = self.dir()
        src = os.path.join(d, "main.rs")
        m = c.mods[0]
        body = {"pb": "assert_eq!(pb::g(py).unwrap(), 1);"}.get(m, "")
        with open(src, "w") as f:
            f.write("#![allow(warnings)]\npyo3_bindgen_macros::import_python!(%s);\npub use %s::*;\n"
                    "fn main() { ::pyo3::Python::with_gil(|py| { %s }) }\n" % (rs(m), m.replace(".", "::"), body))
        p = self.rustc(["-Cdebuginfo=0", src, "-o", os.path.join(d, "x")], d, boot=False)
        if p.returncode:
            return [("does-not-compile", p.stderr[:1000])]
        r = subprocess.run([os.path.join(d, "x")], env=self.env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return [] if r.returncode == 0 else [("does-not-work", r.stderr[-600:])]


CHECK = C15
