"""Numbered callback points: every Python callback of an instrumented module calls point(). The harness decides
at which point(s) which action happens, so that a run can be repeated with the action at every position."""
import io, json, sys

N = 0
TARGET = -1          # -1: nowhere, 0: everywhere, k: at the k-th point
ACTION = None
TAGS = []
PRINTED = []


def point(tag):
    global N
    N += 1
    TAGS.append(tag)
    if TARGET == 0 or TARGET == N:
        ACTION(tag)


def _raise(exc):
    def act(tag):
        raise exc("fault at " + tag)
    return act


def _print(how):
    def act(tag):
        n = "%d" % N
        for stream, s in (("o", sys.stdout), ("e", sys.stderr)):
            mark = "<%s%s>" % (stream, n)
            if how == "print":
                print(mark, file=s)
            elif how == "flush":
                print(mark, file=s, flush=True)
            elif how == "write":
                if s is not None:
                    r = s.write(mark)
                    assert r == len(mark), r
                    s.writelines([mark, "\u00e9\ud83d"[:1]])
                    s.flush()
            elif how == "probe":
                print(mark, file=s)
                if s is not None:
                    s.isatty(); s.encoding; s.errors; s.writable(); s.closed
                    s.buffer.write(b"")
                    try:
                        s.fileno()
                    except OSError:
                        pass
            PRINTED.append(mark)
        if how == "print":
            print("bare")
            sys.stdout is None or sys.stdout.write("")
    return act


def _streams(how):
    """What a module can do to the streams themselves."""
    def act(tag):
        for i, n in enumerate(("stdout", "stderr")):
            s = getattr(sys, n, None)
            if how == "text":
                setattr(sys, n, io.StringIO())
            elif how == "file":
                setattr(sys, n, io.TextIOWrapper(io.BytesIO(), "utf-8", "backslashreplace"))
            elif how == "none":
                setattr(sys, n, None)
            elif how == "int":
                setattr(sys, n, 5)
            elif how == "orig":
                setattr(sys, n, ORIG[i])
            elif how == "other":
                setattr(sys, n, ORIG[1 - i])
            elif how == "wrap":
                setattr(sys, n, type("Tee", (), {"__init__": lambda self, s: setattr(self, "s", s), "__getattr__": lambda self, k: getattr(self.s, k)})(s))
            elif how == "del" and hasattr(sys, n):
                delattr(sys, n)
            elif how == "close" and s is not None and s not in ORIG:
                s.close()
            elif how == "detach" and s is not None and s not in ORIG:
                try:
                    s.detach()
                except ValueError:
                    pass                 # detached before
    return act


def _redirect(tag):
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        print("redirected")
        print("redirected", file=sys.stderr)


STREAMS = ["text", "file", "none", "int", "orig", "other", "wrap", "del", "close", "detach"]
ACTIONS = {"redirect": _redirect, **{"set" + h: _streams(h) for h in STREAMS}, "runtime": _raise(RuntimeError), "attr": _raise(AttributeError), "type": _raise(TypeError),
           "key": _raise(KeyboardInterrupt), "exit": _raise(SystemExit), "import": _raise(ImportError), "systemerror": _raise(SystemError),
           "print": _print("print"), "flush": _print("flush"), "write": _print("write"), "probe": _print("probe")}

REAL = (sys.stdout, sys.stderr)
BUFS = []
ORIG = REAL


def begin(target, action, orig="text", purge=()):
    """Install fresh original streams, forget the instrumented modules, arm the fault."""
    global N, TARGET, ACTION, ORIG
    for m in list(sys.modules):
        if m.split(".")[0] in purge:
            del sys.modules[m]
    BUFS[:] = [io.BytesIO(), io.BytesIO()]
    if orig == "text":
        ORIG = tuple(io.TextIOWrapper(b, "utf-8", "backslashreplace", write_through=True) for b in BUFS)
    elif orig == "none":
        ORIG = (None, None)
    elif orig == "same":
        t = io.TextIOWrapper(BUFS[0], "utf-8", "backslashreplace", write_through=True)
        ORIG = (t, t)
    sys.stdout, sys.stderr = ORIG
    arm(target, action)


def arm(target, action):
    global N, TARGET, ACTION
    N, TARGET, ACTION = 0, target, ACTIONS.get(action)
    TAGS.clear()
    PRINTED.clear()
    for b in BUFS:
        b.seek(0)
        b.truncate()


def reset():
    """Undo what the instrumented module did to streams that are not hidden (its own business)."""
    sys.stdout, sys.stderr = ORIG


def state():
    """What a user can see after the request."""
    return json.dumps({"out": "original" if getattr(sys, "stdout", sys) is ORIG[0] else repr(getattr(sys, "stdout", "missing")),
                       "err": "original" if getattr(sys, "stderr", sys) is ORIG[1] else repr(getattr(sys, "stderr", "missing")),
                       "n": N, "tags": TAGS, "printed": PRINTED,
                       "seen": [b.getvalue().decode("utf-8", "replace") for b in BUFS]})


def end():
    sys.stdout, sys.stderr = REAL
