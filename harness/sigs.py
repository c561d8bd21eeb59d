"""Parameter lists: enumeration, Python text, argument choices, and the Rust call passing them."""
import itertools
from . import core, prog

P, K, A, O, W = "P", "K", "A", "O", "W"          # positional-only, plain, *args, keyword-only, **kwargs
ORDER = {P: 0, K: 1, A: 2, O: 3, W: 4}
NAMES = ["a", "b", "c", "d", "e", "f"]


def succ(sig):
    """All one-parameter extensions of a parameter list (tuples (kind, has default))."""
    last = sig[-1][0] if sig else P
    for k in (P, K, A, O, W):
        if ORDER[k] < ORDER[last] or (k in (A, W) and any(x[0] == k for x in sig)):
            continue
        for d in ((False,) if k in (A, W) else (False, True)):
            if k in (P, K) and not d and any(x[1] for x in sig if x[0] in (P, K)):
                continue
            yield (k, d), sig + ((k, d),)


def sigtext(params):
    """params: [(name, kind, default)] -> Python parameter list."""
    out = []
    npos = sum(1 for p in params if p[1] == P)
    seen_star = False
    for i, (n, k, d) in enumerate(params):
        if k == O and not seen_star:
            if not any(p[1] == A for p in params):
                out.append("*")
            seen_star = True
        out.append({A: "*", W: "**"}.get(k, "") + n + ("=%d" % (900 + i) if d else ""))
        if k == P and i == npos - 1:
            out.append("/")
    return ", ".join(out)


VALUES = [["%d" % (101 + i) for i in range(8)],
          ["None", "'s\\u00e9'", "[1, 2]", "{'k': 1}", "(7,)", "1.5", "b'x'", "True"]]


def calls_for(params):
    """The argument choices for one parameter list: [(label, {name: pyexpr})]."""
    hasA = [n for n, k, _ in params if k == A]
    hasW = [n for n, k, _ in params if k == W]
    ponly = [n for n, k, _ in params if k == P]
    plain = [n for n, k, _ in params if k == K]
    avs = ["()", "(201,)", "(202, 'x')"] if hasA else [None]
    wvs = ["None", "{}", "{'zz': 301}"] if hasW else [None]
    if hasW and ponly:
        wvs.append("{%r: 302}" % ponly[0])
    if hasW and plain:
        wvs.append("{%r: 303}" % plain[0])
    out = []
    for vi, (a, w) in enumerate(itertools.product(avs, wvs)):
        vals = VALUES[vi % 2] if vi else VALUES[0]
        m = {}
        for i, (n, k, _) in enumerate(params):
            m[n] = a if k == A else w if k == W else vals[i % len(vals)]
        out.append(("c%d" % vi, m))
    if not hasA and not hasW:
        m = {n: VALUES[1][i % 8] for i, (n, k, _) in enumerate(params)}
        out.append(("c1", m))
    return out



class Mismatch(Exception):
    """The generated signature cannot take the arguments of the Python one."""


def rust_args(params, ps, vals, tag="kwd"):
    """Rust argument expressions for a binding with parameters `ps` standing for the Python parameter list
    `params`, called with the Python expressions `vals`. Returns (statements before, [expressions],
    whether a kwargs dict named `tag` is passed)."""
    generic = len(ps) == 2 and "PyTuple" in ps[0][1] and "PyDict" in ps[1][1]
    pre, args, haskw = [], [], False
    if len(ps) == len(params) and (not generic or [k for _, k, _ in params] == [A, W]):
        for (n, k, _), (_, ty) in zip(params, ps):
            if k == W and "PyDict" in ty:
                if vals[n] == "None":
                    args.append("None")
                else:
                    pre.append("let %s = dict(py, %s);" % (tag, core.rs(vals[n])))
                    args.append("Some(%s.clone())" % tag)
                    haskw = True
            else:
                args.append(prog.arg(ty, vals[n]))
    elif generic:
        pos = "(" + "".join(("*%s, " if k == A else "%s, ") % vals[n] for n, k, _ in params if k in (P, K, A)) + ")"
        kw = "{" + "".join("%r: %s, " % (n, vals[n]) for n, k, _ in params if k == O)
        kw += "".join("**(%s or {}), " % vals[n] for n, k, _ in params if k == W) + "}"
        args = [prog.arg(ps[0][1], pos), "Some(dict(py, %s))" % core.rs(kw)]
    else:
        raise Mismatch("Python has parameters (%s), the binding takes %r" % (sigtext(params), ps))
    return pre, args, haskw


def py_args(params, vals, ev=eval):
    """The same arguments for a call made by Python."""
    pos, kw, extra = [], {}, {}
    for n, k, _ in params:
        if k in (P, K):
            pos.append(ev(vals[n]))
        elif k == A:
            pos += list(ev(vals[n]))
        elif k == O:
            kw[n] = ev(vals[n])
        else:
            extra = ev(vals[n]) or {}
    return pos, kw, extra
