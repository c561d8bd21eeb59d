"""A cooperative scheduler for threads running inside Python callbacks. Exactly one registered thread runs between two
points; which one continues at each point is dictated by the explorer (a prefix of choices, then "no switch")."""
import _thread, io, json, sys

S = None


class _State:
    pass


def begin(n, prefix, purge=(), faults=()):
    global S
    sys.setswitchinterval(1000.0)
    for m in list(sys.modules):
        if m.split(".")[0] in purge:
            del sys.modules[m]
    S = _State()
    S.n, S.prefix = n, prefix
    S.sems = [_thread.allocate_lock() for _ in range(n)]
    for s in S.sems:
        s.acquire()
    S.ids, S.done, S.choices, S.trace, S.error = {}, set(), [], [], None
    S.faults = {tuple(f) for f in faults}
    S.counts = [0] * n
    S.busy = [False] * n
    S.marks = [[] for _ in range(n)]
    S.real = (sys.stdout, sys.stderr)
    S.bufs = [io.BytesIO(), io.BytesIO()]
    S.orig = tuple(io.TextIOWrapper(b, "utf-8", "backslashreplace", write_through=True) for b in S.bufs)
    sys.stdout, sys.stderr = S.orig


def _choose(me):
    en = [i for i in range(S.n) if i not in S.done]
    if me in en:
        en.remove(me)
        en.insert(0, me)
    if len(en) == 1:
        return en[0]
    k = len(S.choices)
    c = en[0]
    if k < len(S.prefix):
        c = S.prefix[k]
        if c not in en:
            S.error = "prefix does not replay at %d: %r not in %r" % (k, c, en)
            c = en[0]
    S.choices.append([en, c, me in en])
    return c


def enter(i):
    S.ids[_thread.get_ident()] = i
    if len(S.ids) == S.n:
        S.sems[_choose(None)].release()
    S.sems[i].acquire()


def _switch(me, tag):
    nxt = _choose(me)
    S.trace.append([me, tag, nxt])
    if nxt != me:
        S.sems[nxt].release()
        S.sems[me].acquire()


def busy(flag):
    S.busy[S.ids[_thread.get_ident()]] = flag


def point(tag):
    if S is None:
        return
    me = S.ids.get(_thread.get_ident())
    if me is None:
        return
    for half in "ab":
        mark = "<%d%s%d%s>" % (me, half, S.counts[me], "r" if S.busy[me] else "")
        for k, s in (("o", sys.stdout), ("e", sys.stderr)):
            print(k + mark, file=s)
            S.marks[me].append(k + mark)
        if half == "a":
            S.counts[me] += 1
            n = S.counts[me]
            _switch(me, tag)
    if (me, n) in S.faults:
        raise RuntimeError("fault at point %d (%s)" % (n, tag))


def leave(i):
    S.done.add(i)
    S.ids.pop(_thread.get_ident(), None)
    if len(S.done) < S.n:
        S.sems[_choose(None)].release()


def state():
    r = json.dumps({"out": "original" if sys.stdout is S.orig[0] else repr(sys.stdout),
                    "err": "original" if sys.stderr is S.orig[1] else repr(sys.stderr),
                    "choices": S.choices, "trace": S.trace, "error": S.error, "counts": S.counts,
                    "marks": S.marks, "seen": [b.getvalue().decode("utf-8", "replace") for b in S.bufs]})
    sys.stdout, sys.stderr = S.real
    return r
