"""Arity: connect accepts exactly the callable callbacks, which get the longest prefix.

The shape of the callback's parameter list, the kind of callable, the arity of the
signal, the number of arguments emitted and max_args are solver variables.  The oracle
is Python itself: the callback is called directly with every number of arguments.
"""
import inspect
from functools import partial

import psygnal._exceptions as _exc
from psygnal import EmitLoopError, Signal, SignalInstance

from symx.ctx import harness, tiered

from checks import c08

BOUNDS = {
    "quick": "0-2 positional-only, 0-2 regular parameters, any number of them with "
    "defaults, with and without *args, required or optional keyword-only, **kwargs; "
    "functions, bound methods, class and static methods, callable objects, classes, partials "
    "with 1-2 positional or one keyword argument; signals of 0-3 arguments, 0-4 arguments "
    "emitted, max_args 0-4; 14 methods of (subclasses of) list, dict and set with 0-1 bound arguments; "
    "signals of psygnal and of Qt as callbacks; attribute and item setters, own and built-in, and builtin methods with any number of bound arguments and keywords",
    "thorough": "0-3 positional-only and 0-3 regular parameters",
}
ASSUMPTIONS = ["single thread", "the callback's signature is inspectable"]

MISSING = object()


def reset():
    c08.reset()


def build(x, kind, size):
    """A callable of a symbolic shape; returns (callable, log of received positionals)."""
    npos = x.pick("posonly", 0, size)
    nreg = x.pick("regular", 0, size)
    ndef = x.pick("defaults", 0, npos + nreg)
    var = x.flag("varargs")
    kwo = x.choice("kwonly", ["none", "optional", "required"])
    vkw = x.flag("varkw")
    names = [f"p{i}" for i in range(npos)] + [f"r{i}" for i in range(nreg)]
    parts = []
    for i, n in enumerate(names):
        d = i >= len(names) - ndef
        parts.append(f"{n}=MISSING" if d else n)
        if i == npos - 1:
            parts.append("/")
    if var:
        parts.append("*va")
    if kwo != "none":
        if not var:
            parts.append("*")
        parts.append("kk=1" if kwo == "optional" else "kk")
    if vkw:
        parts.append("**kw")
    bound = kind in ("method", "classmethod", "object", "class", "partial_method")
    selfname = "self, " if bound else ""
    log = []
    src = f"def f({selfname}{', '.join(parts)}):\n    rec([{', '.join(names)}], {'va' if var else '()'})\n"

    def rec(vals, va):
        log.append([v for v in vals if v is not MISSING] + list(va))

    ns = {"MISSING": MISSING, "rec": rec}
    exec(src, ns)
    f = ns["f"]
    keep = None
    if kind == "function":
        cb = f
    elif kind in ("method", "partial_method"):
        keep = type("T", (), {"f": f})()
        cb = keep.f
        if kind == "partial_method":
            cb = partial(cb, "bound0")
    elif kind == "classmethod":
        keep = type("T", (), {"f": classmethod(f)})
        cb = keep.f
    elif kind == "staticmethod":
        keep = type("T", (), {"f": staticmethod(f)})
        cb = keep().f
    elif kind == "object":
        cb = type("T", (), {"__call__": f})()
    elif kind == "class":
        cb = type("T", (), {"__init__": f})
    elif kind == "partial1":
        cb = partial(f, "bound0")
    elif kind == "partial2":
        cb = partial(f, "bound0", "bound1")
    elif kind == "partial_kw":
        # binds a regular parameter by keyword
        cb = partial(f, r0="bound")
        if not nreg and not vkw:
            x.assume(False)
    try:
        inspect.signature(cb)
    except ValueError:  # e.g. a partial with more arguments than the function takes
        x.assume(False)
    return cb, log, keep


def works(cb, log, args):
    """Call directly; the received positionals, or None if Python rejects the call."""
    del log[:]
    try:
        cb(*args)
    except TypeError:
        return None
    return log.pop()


KINDS = ["function", "method", "classmethod", "staticmethod", "object", "class",
         "partial1", "partial2", "partial_kw", "partial_method"]


@harness(
    configs=tiered(
        [{"kind": k, "size": 2, "arity": n} for k in KINDS for n in range(4)],
        [{"kind": k, "size": 3, "arity": n} for k in KINDS for n in range(5)],
    ),
    must_cover=["accepted", "rejected"],
)
def shapes(x, kind, size, arity):
    c08.stub_message(True)
    cb, log, keep = build(x, kind, size)
    pay = [x.obj(f"a{i}") for i in range(5)]
    can = [works(cb, log, pay[:j]) is not None for j in range(6)]
    ok = any(can[: arity + 1])
    s = SignalInstance((object,) * arity, name="s")
    first = []
    s.connect(lambda *a: first.append(a))
    form = x.choice("form", ["plain", "decorator"])
    err = ret = None
    del log[:]
    try:
        if form == "plain":
            ret = s.connect(cb)
        else:
            ret = s.connect()(cb)
    except ValueError as e:
        err = e
    x.check("connect does not call", log == [])
    x.check("accepted exactly when callable", (err is None) == ok)
    x.check("length", len(s) == 1 + ok)
    x.check("connected", (cb in s) == ok)
    if not ok:
        x.cover("rejected")
        s.emit(*pay[:arity])
        x.check("not called", log == [])
        x.check("others still called", x.same(first, [tuple(pay[:arity])]))
        return
    x.cover("accepted")
    x.check("returns the callable", ret is cb)
    # emission with any number of arguments: longest prefix that Python accepts
    n = x.pick("emitted", 0, 4)
    fits = [j for j in range(n + 1) if can[j]]
    err = None
    del log[:]
    try:
        s.emit(*pay[:n])
    except EmitLoopError as e:
        err = e
    if fits:
        x.check("no error", err is None)
        received = list(log)
        want = works(cb, log, pay[: max(fits)])
        x.check("longest prefix, unmodified", x.same(received, [want]))
    else:
        x.check("too few arguments are reported", err is not None and log == [])
    x.check("others get everything", x.same(first, [tuple(pay[:n])]))


@harness(
    configs=tiered(
        [{"kind": k, "size": 2, "arity": 2} for k in ("function", "method", "partial1")],
        [{"kind": k, "size": 2, "arity": n} for k in KINDS for n in range(4)],
    ),
    must_cover=["called", "failed"],
)
def max_args(x, kind, size, arity):
    """An explicit max_args limits the arguments; check_nargs=False passes them all."""
    c08.stub_message(True)
    cb, log, keep = build(x, kind, size)
    pay = [x.obj(f"a{i}") for i in range(5)]
    s = SignalInstance((object,) * arity, name="s", check_nargs_on_connect=x.flag("default"))
    m = None
    if x.flag("limited"):
        m = x.pick("max_args", 0, 4)
        s.connect(cb, max_args=m)
    else:
        s.connect(cb, check_nargs=False)
    n = x.pick("emitted", 0, 4)
    want = works(cb, log, pay[: n if m is None else min(m, n)])
    del log[:]
    err = None
    try:
        if x.flag("fast"):
            s.emit_fast(*pay[:n])
        else:
            s.emit(*pay[:n])
    except EmitLoopError as e:
        err = e
    if want is None:
        x.cover("failed")
        x.check("python's error is reported", err is not None and log == [])
        x.check("TypeError", isinstance(err.__cause__, TypeError))
    else:
        x.cover("called")
        x.check("first max_args arguments", err is None and x.same(log, [want]))


@harness(configs=[{"arity": n, "bound": b} for n in range(4) for b in (False, True)],
         must_cover=["raised", "emitted"])
def emit_check(x, arity, bound):
    """emit(check_nargs=True): TypeError exactly when the count differs."""
    if bound:
        cls = type("O", (), {"s": Signal(*[object] * arity)})
        o = cls()
        s = o.s
    else:
        s = SignalInstance((object,) * arity)
    log = []
    s.connect(lambda *a: log.append(a))
    pay = [x.obj(f"a{i}") for i in range(5)]
    n = x.pick("emitted", 0, 5)
    call = x.flag("call")
    paused = x.flag("paused")
    if paused:
        s.pause()
    err = None
    try:
        (s if call else s.emit)(*pay[:n], check_nargs=True)
    except TypeError as e:
        err = e
    if paused:
        s.resume()
    x.check("TypeError exactly when the count differs", (err is not None) == (n != arity))
    if err is None:
        x.cover("emitted")
        x.check("delivered", x.same(log, [tuple(pay[:n])]))
    else:
        x.cover("raised")
        x.check("nothing called", log == [])
        s.emit(*pay[:arity], check_nargs=True)
        x.check("still usable", x.same(log, [tuple(pay[:arity])]))


class L(list):
    """(weakly referenceable)"""


class D(dict):
    pass


class S(set):
    pass


BUILTIN = {
    "append": L, "clear": L, "insert": L, "pop": L, "reverse": L, "extend": L,
    "dict.clear": D, "setdefault": D, "dict.update": D, "add": S, "set.clear": S,
    "set.update": S, "__delitem__": L, "__init__": L,
}


def items(o):
    return list(o.items()) if isinstance(o, dict) else list(o)


@harness(
    configs=tiered([{"meth": m, "nbound": b} for m in BUILTIN for b in (0, 1)]),
    must_cover=["called", "failed", "rejected", "unlimited"],
)
def builtins(x, meth, nbound):
    """Methods of builtin containers; what they do is compared with calling them."""
    c08.stub_message(True)
    cls, name = BUILTIN[meth], meth.split(".")[-1]
    a, b = ["p", 0, 1], ["q", 1]
    start = {L: lambda: L(["x", "y", "z"]), D: lambda: D(k=1), S: lambda: S("x")}[cls]
    vals = [x.choice(f"a{i}", [0, a, "w"]) for i in range(2)] + [b]
    if name == "reverse":
        vals = [0, a, b]
    bound = vals[:nbound]
    pay = vals[nbound:]
    del pay[x.pick("arity", 0, len(pay)):]
    n = x.pick("emitted", 0, len(pay))
    m = x.choice("max_args", ["auto", "none", 0, 1, 2])

    def effect(k):
        o = start()
        try:
            getattr(o, name)(*bound, *pay[:k])
        except (TypeError, ValueError, IndexError) as e:
            return type(e), items(o)
        return None, items(o)

    o = start()
    cb = getattr(o, name)
    if bound:
        cb = partial(cb, *bound)
    try:
        psig = inspect.signature(cb)
        limits = [k for k in range(len(pay) + 1) if _binds(psig, pay[:k])]
    except ValueError:
        psig = limits = None
    s = SignalInstance((object,) * len(pay), name="s")
    x.assume(not (m == "auto" and psig is None))
    err = None
    try:
        if m == "auto":
            s.connect(cb)
        elif m == "none":
            x.cover("unlimited")
            s.connect(cb, check_nargs=False)
        else:
            s.connect(cb, max_args=m)
    except ValueError as e:
        err = e
    if m == "auto" and not limits:
        x.cover("rejected")
        x.check("rejected", err is not None and len(s) == 0)
        return
    x.check("connected", err is None and len(s) == 1 and cb in s)
    if m == "auto":
        fits = [k for k in limits if k <= n]
        used = max(fits) if fits else n
    else:
        used = n if m == "none" else min(m, n)
    want, contents = effect(used)
    err = None
    try:
        if x.flag("fast"):
            s.emit_fast(*pay[:n])
        else:
            s.emit(*pay[:n])
    except EmitLoopError as e:
        err = type(e.__cause__)
    if want is not None:
        x.cover("failed")
    else:
        x.cover("called")
    x.check("same error", err is want, info=(err, want))
    x.check("same effect", items(o) == contents, info=(items(o), contents))
    x.check("disconnected", s.disconnect(cb, missing_ok=False) is None and len(s) == 0)


class Plain:
    def __init__(self):
        self.p = 0


class Own(Plain):
    def __init__(self):
        self.__dict__["log"] = []

    def __setattr__(self, name, value):
        self.log.append(("attr", name, value))

    def __setitem__(self, key, value):
        self.log.append(("item", key, value))


class Ls(list):
    pass


class Dc(dict):
    pass


SETTERS = {  # kind -> (owner, function of it, arguments, keyword)
    "setattr": (Plain, lambda o: setattr, lambda o, v, w: [o, "p", v, w], None),
    "setattr own": (Own, lambda o: setattr, lambda o, v, w: [o, "p", v, w], None),
    "wrapper": (Plain, lambda o: o.__setattr__, lambda o, v, w: ["p", v, w], None),
    "method setattr": (Own, lambda o: o.__setattr__, lambda o, v, w: ["p", v, w], None),
    "method setitem": (Own, lambda o: o.__setitem__, lambda o, v, w: [v, w, "z"], "value"),
    "sort": (lambda: Ls([2, 3, 1]), lambda o: o.sort, lambda o, v, w: ["z"], "reverse"),
    "update": (Dc, lambda o: o.update, lambda o, v, w: [{"p": v}, "z"], "kw"),
}


def contents(o):
    return list(o.items()) if isinstance(o, dict) else list(o) if isinstance(o, list) else [
        e for k, v in sorted(vars(o).items()) for e in (v if k == "log" else [(k, v)])]


@harness(
    configs=tiered([{"kind": k} for k in SETTERS]),
    must_cover=["rejected", "called", "all bound", "none bound", "keyword"],
)
def setters(x, kind):
    """Setters and builtin methods with any number of arguments bound."""
    c08.stub_message(True)
    make, get, arguments, kw = SETTERS[kind]
    v, w = x.obj("v"), x.obj("w")
    nb = x.pick("bound", 0, len(arguments(None, v, w)))
    kws = {kw: x.choice("keyword", [True, False])} if kw and x.flag("with keyword") else {}
    arity = x.pick("arity", 0, len(arguments(None, v, w)) - nb)
    m = x.choice("max_args", ["auto", "none", 0, 1, 2])
    if kws:
        x.cover("keyword")

    def prepare():
        o = make()
        args = arguments(o, v, w)
        f = get(o)
        return o, partial(f, *args[:nb], **kws) if nb or kws else f, args[nb:nb + arity]

    def effect(k):
        o, f, pay = prepare()
        try:
            f(*pay[:k])
        except (TypeError, ValueError, AttributeError) as e:
            return type(e), contents(o)
        return None, contents(o)

    def accepts(k):
        o, f, pay = prepare()
        try:
            return _binds(inspect.signature(f), pay[:k])
        except ValueError:
            return None

    limits = [k for k in range(arity + 1) if accepts(k)]
    o, cb, pay = prepare()
    try:
        inspect.signature(cb)
    except ValueError:
        x.assume(m != "auto")
    s = SignalInstance((object,) * arity, name="s")
    err = None
    try:
        if m == "auto":
            s.connect(cb, on_ref_error="ignore")
        elif m == "none":
            s.connect(cb, check_nargs=False, on_ref_error="ignore")
        else:
            s.connect(cb, max_args=m, on_ref_error="ignore")
    except ValueError as e:
        err = e
    if m == "auto" and not limits:
        x.cover("rejected")
        x.check("rejected", err is not None and len(s) == 0)
        return
    x.check("connected", err is None and len(s) == 1 and cb in s, info=err)
    n = x.pick("emitted", 0, arity)
    if m == "auto":
        fits = [k for k in limits if k <= n]
        used = max(fits) if fits else n
    else:
        used = n if m == "none" else min(m, n)
    if (kind.startswith("setattr") and nb == 2) or (
            kind == "method setitem" and nb == 1 and not kws):
        x.assume(used == 1)  # other numbers of values are set as a tuple
    if nb == len(arguments(None, v, w)) - 1:
        x.cover("all bound")
    if nb == 0:
        x.cover("none bound")
    want, after = effect(used)
    err = None
    try:
        if x.flag("fast"):
            s.emit_fast(*pay[:n])
        else:
            s.emit(*pay[:n])
    except EmitLoopError as e:
        err = type(e.__cause__)
    if want is None:
        x.cover("called")
    x.check("same error", err is want, info=(err, want))
    x.check("same effect", x.same(contents(o), after), info=(contents(o), after))
    x.check("disconnected", s.disconnect(cb, missing_ok=False) is None and len(s) == 0)


def _binds(sig, args):
    try:
        sig.bind(*args)
    except TypeError:
        return False
    return True


def qt_signals():
    """An object with Qt signals of 0-3 arguments (None without a Qt library)."""
    try:
        from PyQt6.QtCore import QObject, pyqtSignal
    except ImportError:
        return None

    class Obj(QObject):
        q0 = pyqtSignal()
        q1 = pyqtSignal(object)
        q2 = pyqtSignal(object, object)
        q3 = pyqtSignal(object, object, object)

    return Obj()


CHAINS = ["emit", "instance", "fast", "call", "qt emit"]


@harness(
    configs=tiered([{"kind": k} for k in CHAINS]),
    must_cover=["accepted", "rejected", "chained further"],
)
def chains(x, kind):
    """Signals as callbacks of signals."""
    arity, n, own = x.pick("arity", 0, 3), x.pick("emitted", 0, 3), x.pick("own", 0, 3)
    log = []
    s = SignalInstance((object,) * arity, name="s")
    args = tuple(x.obj(f"a{i}") for i in range(n))
    if kind.startswith("qt"):
        q = qt_signals()
        if q is None:
            for c in ("accepted", "rejected", "chained further"):
                x.cover(c)
            return
        t = getattr(q, f"q{own}")
        takes = {0: lambda: log.append(()), 1: lambda a: log.append((a,)),
                 2: lambda a, b: log.append((a, b)), 3: lambda a, b, c: log.append((a, b, c))}
        t.connect(takes[own])
        # (a Qt signal itself is callable by name only, and a new object at each access)
        get = lambda: t.emit  # noqa: E731
        accepted, want = own <= arity, args[:own]
        x.assume(not accepted or n >= own)
    else:
        t = SignalInstance((object,) * own, name="t")
        t.connect(lambda *a: log.append(a), check_nargs=False)
        get = {"emit": lambda: t.emit, "instance": lambda: t, "fast": lambda: t.emit_fast,
               "call": lambda: t.__call__}[kind]
        # a signal does not count what it emits (unless asked to)
        accepted, want = True, args
    err = None
    try:
        s.connect(get())
    except ValueError as e:
        err = e
    x.check("accepted exactly if it takes no more than the signal has", (err is None) == accepted)
    if not accepted:
        x.cover("rejected")
        x.check("not connected", len(s) == 0)
        return
    x.cover("accepted")
    x.check("connected", len(s) == 1)
    x.check("found", get() in s)
    how = x.choice("how", ["emit", "emit_fast"])
    getattr(s, how)(*args)
    x.check("passed on", x.same(log, [want]), info=(log, want))
    if x.flag("chain"):
        # one more signal in front
        x.cover("chained further")
        r = SignalInstance((object,) * arity, name="r")
        r.connect(s.emit)
        del log[:]
        r.emit(*args)
        x.check("passed on twice", x.same(log, [want]), info=(log, want))
    s.disconnect(get(), missing_ok=False)
    x.check("disconnected", len(s) == 0)


# explored also with None among the arbitrary objects
emit_check.nones = [
    {"arity": 2, "bound": False},
    {"arity": 2, "bound": True},
]
setters.nones = [{"kind": "setattr"}]
shapes.nones = [
    {"kind": "function", "size": 2, "arity": 2},
    {"kind": "method", "size": 2, "arity": 2},
]

HARNESSES = [builtins, setters, shapes, max_args, emit_check, chains]
