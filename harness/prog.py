"""Programs: Python packages written to scratch, their bindings generated by the real engine, and a
small reader for what was generated."""
import os, re, sys
from . import core
from .core import SCRATCH, CheckError

KEYWORDS = set("as async await break const continue crate dyn else enum extern false fn for if impl in let "
               "loop match mod move mut pub ref return self Self static struct super trait true type unsafe "
               "use where while abstract become box do final macro override priv try typeof unsized virtual "
               "yield".split())
RAW_FORBIDDEN = {"self", "Self", "super", "crate", "_"}


def rust_ident(name):
    """The identifier a Python name keeps in Rust, or None if there is none."""
    if name in RAW_FORBIDDEN or not name.isidentifier():
        return None
    return "r#" + name if name in KEYWORDS else name


def write_files(root, files):
    for rel, src in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8", errors="surrogatepass", newline="") as f:
            f.write(src)


def newdir(tag):
    import tempfile
    return tempfile.mkdtemp(prefix=tag + "-", dir=core.FAST)


def generate(b, progs, root, cfg=None, fresh=False, timeout=60, extra_ops=(), sys_path=None, pretty=False):
    """progs: {id: {"files": {...}, "modules": [...], "cfg": {...}, "ops": [...]}}. Files go to `root`.
    Returns {id: {"ok": bool, "ast": items, "path": rust file, "report": [...]}}."""
    jobs = []
    paths = {}
    for i, (pid, p) in enumerate(progs.items()):
        write_files(root, p.get("files", {}))
        out = os.path.join(root, ".rs", "%d.rs" % i)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        paths[pid] = out
        c = dict(cfg or {})
        c.update(p.get("cfg") or {})
        ops = p.get("ops") or ([{"op": "new", "cfg": c}] +
                               [{"op": "module_name", "name": m} for m in p["modules"]] +
                               [{"op": "generate", "write": out, "pretty": pretty}])
        ops = [dict(o, write=out) if o.get("op") == "generate" and o.get("write") is True else o for o in ops]
        jobs.append({"id": pid, "ops": ops})
    res = core.run_jobs(b, jobs, sys_path=sys_path or [root], timeout=timeout, fresh=fresh)
    out = {}
    for pid in progs:
        r = res[pid]
        rep = r.get("res") or [r]
        last = rep[-1]
        ok = bool(last.get("ok")) and "ast" in last and all("ok" in x for x in rep)
        out[pid] = {"ok": ok, "ast": last.get("ast"), "path": paths[pid], "report": rep, "pretty": last.get("pretty")}
    return out


def why(g):
    """A short account of why generation did not give parsable bindings."""
    for x in g["report"]:
        for k in ("panic", "err", "crash", "unparsable", "pyerr"):
            if k in x:
                return k, "%s: %s" % (k, x.get("msg") or x[k])
    return "other", repr(g["report"])[:300]


# ---------------------------------------------------------------- reading bindings

def mod(items, path):
    """The item list of the module at `path` (Python or Rust names), or None."""
    for seg in path:
        hit = [i for i in items if i["kind"] == "mod" and unraw(i["name"]) == unraw(seg)]
        if len(hit) != 1:
            return None
        items = hit[0]["items"]
    return items


def unraw(n):
    return n[2:] if n.startswith("r#") else n


def fns(items):
    return [i for i in items if i["kind"] == "fn"]


def fn(items, name):
    hit = [i for i in items if i["kind"] == "fn" and unraw(i["name"]) == name]
    return hit[0] if len(hit) == 1 else None


def struct(items, name):
    hit = [i for i in items if i["kind"] == "struct" and unraw(i["name"]) == name]
    return hit[0] if len(hit) == 1 else None


def inherent(items, sname):
    out = []
    for i in items:
        if i["kind"] == "impl" and i["trait"] is None and unraw(i["self"]) == sname:
            out += i["fns"]
    return out


def methods(items, sname):
    """Trait methods implemented for Bound<'_, sname>, with the trait's name."""
    out, tr = [], None
    for i in items:
        if i["kind"] == "impl" and i["trait"] is not None:
            t = i["self"].replace(" ", "")
            if t.endswith("," + sname + ">") or t.endswith(",r#" + sname + ">"):
                out += i["fns"]
                tr = i["trait"]
    return out, tr


def norm(t):
    return re.sub(r"\s+", "", t)


def arg(ty, pyexpr):
    """A Rust expression passing the value of a Python expression to a parameter of type `ty`."""
    t = norm(ty)
    q = core.rs(pyexpr)
    if t.startswith("impl"):
        if "PyTuple" in t:
            return "tup(py, %s)" % q
        if "IntoPyDict" in t:
            return "dict(py, %s)" % q
        return "ev(py, %s)" % q
    if t.startswith("&str"):
        return "&*mk::<String>(ev(py, %s))" % q
    if t.startswith("&["):
        return "&mk::<Vec<_>>(ev(py, %s))" % q
    if t.endswith("path::Path") and t.startswith("&"):
        return "&*mk::<std::path::PathBuf>(ev(py, %s))" % q
    if t.startswith("&"):
        return "&mk(ev(py, %s))" % q
    return "mk(ev(py, %s))" % q


def rpath(path):
    return "::".join("r#" + s if s in KEYWORDS else s for s in path)


def canon(items):
    """A canonical form of an item list: the order of items, of impl members and of use groups is dropped."""
    import json

    def one(i):
        i = dict(i)
        if i["kind"] == "use":
            return [(json.dumps(o), o) for o in (["use", i["pub"], i["leading_colon"], p["path"], p["as"]] for p in i["paths"])]
        for k in ("items", "fns"):
            if i.get(k) is not None:
                i[k] = [o for _, o in sorted(sum((one(x) for x in i[k]), []), key=lambda t: t[0])]
        return [(json.dumps(i, sort_keys=True), i)]
    return None if items is None else sorted(s for s, _ in sum((one(i) for i in items), []))


def difference(a, b, depth=0):
    """Human-readable difference of two canonical item lists."""
    import json
    text = lambda l: [x if isinstance(x, str) else json.dumps(x, sort_keys=True) for x in l or []]
    out = []
    A, B = text(a), text(b)
    for x in list(A):
        if x in B:
            A.remove(x)
            B.remove(x)

    def tag(s):
        d = json.loads(s)
        return ("use %s as %s" % ("::".join(d[3]), d[4])) if isinstance(d, list) else "%s %s" % (d["kind"], d.get("name") or d.get("self"))
    used = []
    for x in A:
        d = json.loads(x)
        mate = None
        if isinstance(d, dict):
            for y in B:
                e = json.loads(y)
                if isinstance(e, dict) and y not in used and tag(x) == tag(y):
                    mate = e
                    used.append(y)
                    break
        if mate is None:
            out.append("-" + tag(x))
        elif d["kind"] == "mod" and depth < 6:
            sub = difference(d["items"], mate["items"], depth + 1)
            out += [d["name"] + "::" + s for s in sub] or ["%s: doc %r / %r" % (d["name"], d.get("doc"), mate.get("doc"))]
        else:
            out.append("%s: %s / %s" % (tag(x), {k: v for k, v in d.items() if mate.get(k) != v}, {k: v for k, v in mate.items() if d.get(k) != v}))
    out += ["+" + tag(y) for y in B if y not in used]
    return out
