"""Shared machinery: building the driver against /repo, running histories on the real Codegen,
compiling and executing generated bindings, reporting.

Everything a check does goes through this module, so the rules live here:
  * exit 0 / exit 1 + "VIOLATION property=.. replay=.." are verdicts, anything else is an error;
  * nothing is written outside a scratch directory (removed at exit), /verif/evidence, /verif/replays
    and the ignored build directory /verif/mc/target;
  * all enumeration is deterministic; no random choice is made anywhere.
"""
import atexit, hashlib, json, os, queue, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "mc", "target")
NCPU = max(2, min(8, os.cpu_count() or 2))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"

ENV = dict(os.environ)
ENV.update(
    HOME="/root", PYO3_PYTHON="/usr/bin/python3.12", RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="",
    CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0", LC_ALL="C.UTF-8",
    PATH="/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin",
)
for k in ("PYTHONPATH", "PYTHONSTARTUP", "RUSTFLAGS", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)

SCRATCH = tempfile.mkdtemp(prefix="mc-")
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))


def _memory_scratch():
    """A scratch directory for many small files: in memory where there is room for it."""
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 4 << 30 and st.f_favail > 500000:
            d = tempfile.mkdtemp(prefix="mc-", dir="/dev/shm")
            atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
            return d
    except OSError:
        pass
    return SCRATCH


FAST = _memory_scratch()


class CheckError(Exception):
    """The machinery failed (not the property): the check exits 2."""


def rs(s):
    """A Rust string literal."""
    out = ['"']
    for c in s:
        if c in '\\"':
            out.append("\\" + c)
        elif ord(c) < 0x20 or 0x7f <= ord(c) < 0xa0 or c in "\u2028\u2029\u202a\u202b\u202c\u202d\u202e\u2066\u2067\u2068\u2069":
            out.append("\\u{%x}" % ord(c))
        else:
            out.append(c)
    return "".join(out) + '"'


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build

class Build:
    """The driver binary and the pyo3 rlib it was linked with, built from /repo's working tree."""
    bin = None
    pyo3 = None
    deps = None


def _cargo(args, cwd, target, features=()):
    cmd = ["cargo", "build", "--offline", "--message-format=json-render-diagnostics",
           "--target-dir", target] + list(args)
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise CheckError("build failed: %s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    arts = []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            arts.append(m)
    return arts


def _source_digest():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO)):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for fn in sorted(files):
            if fn.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, fn)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as f:
                    h.update(f.read())
    return h.hexdigest()


def build(features=()):
    t0 = time.time()
    target = TARGET if not features else TARGET + "-" + "-".join(features)
    # cargo decides staleness by modification times; never trust them for the code under test.
    stamp = os.path.join(target, "repo-digest")
    digest = _source_digest()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != digest:
        subprocess.run(["cargo", "clean", "--offline", "--target-dir", target, "-p", "pyo3_bindgen_engine"],
                       cwd=os.path.join(VERIF, "mc"), env=ENV, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
    args = ["--locked"] + (["--features", ",".join(features)] if features else [])
    arts = _cargo(args, os.path.join(VERIF, "mc"), target)
    b = Build()
    for m in arts:
        name = m["target"]["name"]
        if name == "mc" and m.get("executable"):
            b.bin = m["executable"]
        if name == "pyo3":
            b.pyo3 = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    if not b.bin or not b.pyo3:
        raise CheckError("build produced no driver")
    b.deps = os.path.dirname(b.pyo3)
    b.wall = time.time() - t0
    with open(stamp, "w") as f:
        f.write(digest)
    return b


def build_front():
    """The command line tool and the procedural macro, built from /repo's working tree into a directory of their own.
    Returns (path of the tool, path of the macro library)."""
    target = TARGET + "-front"
    stamp = os.path.join(target, "repo-digest")
    digest = _source_digest()
    old = open(stamp).read() if os.path.exists(stamp) else None
    env = dict(ENV, CARGO_PROFILE_DEV_DEBUG="0")
    if old is not None and old != digest:
        subprocess.run(["cargo", "clean", "--offline", "--target-dir", target, "-p", "pyo3_bindgen_engine",
                        "-p", "pyo3_bindgen_cli", "-p", "pyo3_bindgen_macros", "-p", "pyo3_bindgen"],
                       cwd=REPO, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cmd = ["cargo", "build", "--offline", "--locked", "--message-format=json-render-diagnostics", "--target-dir", target,
           "-p", "pyo3_bindgen_cli", "-p", "pyo3_bindgen_macros"]
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise CheckError("build failed: %s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    cli = macro = None
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            if m["target"]["name"] == "pyo3_bindgen" and m.get("executable"):
                cli = m["executable"]
            if m["target"]["name"] == "pyo3_bindgen_macros":
                for f in m["filenames"]:
                    if f.endswith(".so"):
                        macro = f
    if not cli or not macro:
        raise CheckError("build produced no command line tool or macro")
    with open(stamp, "w") as f:
        f.write(digest)
    return cli, macro


# ---------------------------------------------------------------- running histories on the real code

class _Worker:
    def __init__(self, b, idx, sys_path, cwd, extra_env=None):
        self.b, self.idx = b, idx
        self.res = os.path.join(SCRATCH, "res-%s-%d-%d" % (id(self), idx, time.time_ns()))
        env = dict(ENV)
        if sys_path:
            env["PYTHONPATH"] = os.pathsep.join(sys_path)
        if extra_env:
            env.update(extra_env)
        self.err = open(self.res + ".err", "wb")
        self.p = subprocess.Popen([b.bin, self.res], stdin=subprocess.PIPE, stdout=self.err,
                                  stderr=self.err, env=env, cwd=cwd)
        self.f = None

    def run(self, job, timeout):
        try:
            self.p.stdin.write((json.dumps(job) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            return {"id": job["id"], "crash": "worker gone (exit %s)" % self.p.wait()}
        t0 = time.time()
        buf = b""
        while True:
            if self.f is None:
                if os.path.exists(self.res):
                    self.f = open(self.res, "rb")
            else:
                buf += self.f.read()
                while b"\n" in buf:
                    line, buf = buf.split(b"\n", 1)
                    m = json.loads(line)
                    if "begin" in m:
                        continue
                    return m
            if self.p.poll() is not None:
                # drain once more
                if self.f is not None:
                    buf += self.f.read()
                    if b"\n" in buf:
                        continue
                return {"id": job["id"], "crash": "driver process died, exit %s" % self.p.returncode}
            if time.time() - t0 > timeout:
                self.p.kill()
                self.p.wait()
                return {"id": job["id"], "crash": "timeout after %.0fs" % timeout, "timeout": True}
            time.sleep(0.0002 if time.time() - t0 < 0.5 else 0.01)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.err.close()
        if self.f:
            self.f.close()
        for p in (self.res, self.res + ".err"):
            try:
                os.unlink(p)
            except OSError:
                pass


def run_jobs(b, jobs, sys_path=(), timeout=60, fresh=False, workers=None, cwd=None, extra_env=None):
    """Run every job on the real engine; jobs are spread over worker processes. `fresh` gives each job
    a process (an interpreter) of its own. Returns {job id: report}."""
    cwd = cwd or SCRATCH
    results = {}
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    lock = threading.Lock()
    errors = []

    def loop(i):
        w = None
        try:
            while True:
                try:
                    j = q.get_nowait()
                except queue.Empty:
                    break
                if w is None:
                    w = _Worker(b, i, list(sys_path), cwd, extra_env)
                r = w.run(j, timeout)
                if r.get("driver_panic"):
                    raise CheckError("driver panicked on job %r" % (j["id"],))
                with lock:
                    results[j["id"]] = r
                if fresh or "crash" in r:
                    w.close()
                    w = None
        except Exception:
            errors.append(traceback.format_exc())
        finally:
            if w is not None:
                w.close()

    ts = [threading.Thread(target=loop, args=(i,)) for i in range(workers or NCPU)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise CheckError("\n".join(errors))
    if len(results) != len(jobs):
        raise CheckError("lost jobs: %d of %d reported (duplicate ids?)" % (len(results), len(jobs)))
    return results


# ---------------------------------------------------------------- compiling generated bindings

def _rustc(b, args, cwd):
    cmd = ["rustc", "--edition=2021", "--error-format=json", "-Adead_code", "-Aunused",
           "-L", "dependency=" + b.deps, "--extern", "pyo3=" + b.pyo3] + args
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def _files_in(diag, acc):
    for sp in diag.get("spans", []):
        while sp:
            acc.append(sp.get("file_name", ""))
            sp = (sp.get("expansion") or {}).get("span")
    for c in diag.get("children", []):
        _files_in(c, acc)


FOLLOW_UPS = ("E0055", "E0282", "E0283")


def compile_batch(b, cases, out, driver="", run=False, workdir=None):
    """Compile one crate holding all `cases` ({id: rust source text}), each in a module `c_<n>`.
    Cases with errors are removed (their first messages recorded) and the rest is compiled again, until
    what remains compiles. Returns (errors {id: [messages]}, executable or None, {id: module name})."""
    workdir = workdir or tempfile.mkdtemp(prefix="cc-", dir=SCRATCH)
    names = {cid: "c_%d" % i for i, cid in enumerate(cases)}
    rev = {v: k for k, v in names.items()}
    alive = list(cases)
    for cid in cases:
        with open(os.path.join(workdir, names[cid] + ".rs"), "w") as f:
            f.write(cases[cid])
    errors = {}
    rounds = 0
    while alive:
        rounds += 1
        if rounds > 12:
            raise CheckError("compile_batch: no progress")
        main = ["#![allow(warnings)]"]
        main += ["#[path = \"%s.rs\"] pub mod %s;" % (names[c], names[c]) for c in alive]
        if run:
            main.append("fn main() {\n let mut r = Runner::new();")
            main += ["  r.case(%s, %s::drive);" % (rs(str(c)), names[c]) for c in alive]
            main.append("  r.finish();\n}")
        main.append(driver)
        src = os.path.join(workdir, "main.rs")
        with open(src, "w") as f:
            f.write("\n".join(main))
        exe = os.path.join(workdir, out)
        args = [src, "-o", exe, "-Cdebuginfo=0", "-Copt-level=0", "-Ccodegen-units=8"]
        args += ["--crate-type=bin"] if run else ["--crate-type=lib", "--emit=metadata"]
        p = _rustc(b, args, workdir)
        if p.returncode == 0:
            return errors, exe, names
        bad = {}
        unattributed = []
        for line in p.stderr.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                unattributed.append(line)
                continue
            if d.get("level") not in ("error", "error: internal compiler error"):
                continue
            acc = []
            _files_in(d, acc)
            hit = None
            for fn in acc:
                base = os.path.basename(fn)
                if base.endswith(".rs") and base[:-3] in rev and os.path.dirname(fn) in ("", workdir):
                    hit = rev[base[:-3]]
                    break
            code = (d.get("code") or {}).get("code") or ""
            msg = ("%s %s" % (code, d.get("message", ""))).strip()
            if hit is None:
                if "aborting due to" not in d.get("message", "") and "Some errors" not in d.get("message", ""):
                    unattributed.append(d.get("rendered") or d.get("message"))
                continue
            bad.setdefault(hit, []).append((msg, d.get("rendered") or ""))
        if not bad:
            raise CheckError("rustc failed without a case to blame:\n" + "\n".join(unattributed)[:4000]
                             + p.stderr[-1500:])
        # Follow-up errors (type inference) may hit cases that are fine; they count once nothing else is left
        first = {c: ms for c, ms in bad.items() if any(m.split(" ")[0] not in FOLLOW_UPS for m, _ in ms)}
        bad = first or bad
        for c, ms in bad.items():
            errors.setdefault(c, []).extend(ms)
        alive = [c for c in alive if c not in bad]
    return errors, None, names


def chunk(seq, n):
    seq = list(seq)
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]


def parallel(fn, items, workers=None):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(fn, items))


def compile_all(b, cases, per=None, nbatch=None, deal=False):
    """Type-check all cases; {id: [(message, rendered)]} for those that do not compile."""
    ids = list(cases)
    n = nbatch or max(1, min(NCPU, (len(ids) + 24) // 25))
    if per:
        n = (len(ids) + per - 1) // per

    def one(ch):
        e, _, _ = compile_batch(b, {c: cases[c] for c in ch}, "out.rmeta")
        return e
    errs = {}
    for e in parallel(one, [ids[i::n] for i in range(min(n, len(ids)))] if deal else chunk(ids, n)):
        errs.update(e)
    return errs


# ---------------------------------------------------------------- executing generated bindings

HPY = os.path.join(VERIF, "harness", "py")


def case_text(bindings_path_or_text, drive, is_path=False):
    """The Rust file of one case: the bindings in `b`, the drive in `d`."""
    t = open(bindings_path_or_text).read() if is_path else bindings_path_or_text
    return ("pub mod b {\n%s\n}\npub mod d {\n use crate::mcrt::*; use super::b;\n"
            " pub fn drive(py: Python<'_>, l: &mut Log) {\n%s\n }\n}\npub use d::drive;\n" % (t, drive))


def execute(b, cases, sys_path=(), batches=None, timeout=300):
    """Compile and run cases {id: rust text}. Returns (errors {id: [(msg, rendered)]},
    observations {id: [{"label","kind","v"}]}); a crash of the process is attributed to its case."""
    driver = open(os.path.join(VERIF, "harness", "rt.rs")).read()
    ids = list(cases)
    n = batches or max(1, min(NCPU, (len(ids) + 3) // 4))
    env = dict(ENV)
    env["PYTHONPATH"] = os.pathsep.join(list(sys_path) + [HPY])

    def one(ch):
        wd = tempfile.mkdtemp(prefix="run-", dir=SCRATCH)
        errs, exe, names = compile_batch(b, {c: cases[c] for c in ch}, "run.exe", driver, True, wd)
        obs = {}
        alive = [c for c in ch if c not in errs]
        skip = []
        while alive:
            res = os.path.join(wd, "obs-%d.jsonl" % len(skip))
            try:
                p = subprocess.run([exe, res] + [str(s) for s in skip], cwd=wd, env=env, timeout=timeout,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            cur, finished = None, False
            if os.path.exists(res):
                for line in open(res, encoding="utf-8"):
                    try:
                        m = json.loads(line)
                    except ValueError:
                        continue
                    if m["kind"] == "begin":
                        cur = m["case"]
                        obs[cur] = []
                    elif m["kind"] == "finish":
                        finished = True
                    elif m["kind"] == "end":
                        cur = None
                    else:
                        obs[m["case"]].append(m)
            if finished:
                break
            if cur is None:
                raise CheckError("case runner died (%s): %s" % (rc, p.stderr[-2000:] if rc != "timeout" else ""))
            obs[cur].append({"label": "", "kind": "crash", "v": "process ended: %s" % rc})
            skip += [c for c in (str(x) for x in ch) if c in obs and c not in skip]
            if len(skip) >= len(alive):
                break
        shutil.rmtree(wd, ignore_errors=True)
        return errs, obs
    errors, observations = {}, {}
    for e, o in parallel(one, chunk(ids, n)):
        errors.update(e)
        observations.update(o)
    return errors, observations
