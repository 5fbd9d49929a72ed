"""Every way of connecting honours its options, and a refused connection changes nothing."""
import threading
import warnings
import weakref
from dataclasses import dataclass
from functools import partial
from typing import ClassVar

from psygnal import EmissionInfo, EmitLoopError, Signal, SignalGroup, SignalGroupDescriptor

from symx.ctx import harness, tiered

from checks import c08

BOUNDS = {
    "quick": "connect(f, ...), @connect(...), connect(...)(f) on a signal, a group, its relay, all "
    "members, a group of an evented object; every combination of unique (False, True, 'raise'), "
    "max_args (None, 0, 1), check_nargs and check_types (None, False, True), their defaults of the "
    "signal, thread (None, 'current', this thread) with 9 callables and any priorities; callables "
    "that cannot be weakly referenced with every on_ref_error; one decorator for two "
    "callables; all members of a group of three different signatures, the callable connected to any of them before; connect_setattr and connect_setitem with every limit, policy and priorities on signals, relays and fields of evented dataclasses",
    "thorough": "the same with all callables for relays and groups of evented objects",
}
ASSUMPTIONS = ["single thread", "signals of two int arguments (one EmissionInfo for groups)"]


def reset():
    c08.reset()


class Box:
    """Weakly referenceable"""

    def __init__(self):
        self.log = []
        self.hook = None

    def got(self, *args):
        self.log.append(args)
        if self.hook is not None:
            self.hook()

    def m0(self):
        self.got()

    def m1(self, a):
        self.got(a)


class NoRef:
    __slots__ = ("got",)

    def m(self, *a):
        self.got(*a)

    def m1(self, a):
        self.got(a)

    def __call__(self, *a):
        self.got(*a)

    def __setitem__(self, k, v):
        self.got(v)


# name: (positional arguments required, accepted (None: any), annotations, required keyword)
SPECS = {
    "f0": (0, 0, (), False),
    "f1": (1, 1, (), False),
    "fint": (1, 1, ("int",), False),
    "fstr": (1, 1, ("str",), False),
    "f2str": (2, 2, (None, "str"), False),
    "f3": (3, 3, (), False),
    "opt": (1, 3, (), False),
    "star": (0, None, (), False),
    "kw": (1, 1, (), True),
    "m0": (0, 0, (), False),
    "m1": (1, 1, (), False),
    "partial": (0, 1, (), False),
}


def slot_of(kind, box):
    got = box.got
    if kind == "f0":
        def f():
            got()
    elif kind == "f1":
        def f(a):
            got(a)
    elif kind == "fint":
        def f(a: int):
            got(a)
    elif kind == "fstr":
        def f(a: str):
            got(a)
    elif kind == "f2str":
        def f(a, b: str):
            got(a, b)
    elif kind == "f3":
        def f(a, b, c):
            got(a, b, c)
    elif kind == "opt":
        def f(a, b=None, c=None):
            got(*[q for q in (a, b, c) if q is not None])
    elif kind == "star":
        def f(*a):
            got(*a)
    elif kind == "kw":
        def f(a, *, k):
            got(a)
    elif kind in ("m0", "m1"):
        f = getattr(box, kind)
    elif kind == "partial":
        def g(tag, a=None):
            got(*([a] if a is not None else []))

        f = partial(g, "tag")
    return f


class G(SignalGroup):
    a = Signal(int, int)
    b = Signal(int, int)


class Ev:
    events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor(
        signal_group_class=G, collect_fields=False, warn_on_no_fields=False)


def make(where, dn, dt):
    """object with connect(), the signal whose connections count, emit, is it a group"""
    if where == "signal":
        class T:
            s = Signal(int, int, check_nargs_on_connect=dn, check_types_on_connect=dt)

        t = T()
        return t, t.s.connect, [t.s], t.s, False
    if where == "direct":
        g = G()
        return g, g.connect_direct, [g.a, g.b], g.a, False
    if where == "group":
        g = G()
        return g, g.connect, [g.all], g.a, True
    if where == "relay":
        g = G()
        return g, g.all.connect, [g.all], g.b, True
    e = Ev()
    return e, e.events.connect, [e.events.all], e.events.a, True


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, type(e).__name__


WHERE = ["signal", "direct", "group", "relay", "object"]


@harness(
    configs=tiered(
        [{"where": w, "kind": k} for w in WHERE for k in SPECS
         if w in ("signal", "direct", "group") or k in ("f1", "fstr", "kw", "m0")],
        [{"where": w, "kind": k} for w in WHERE for k in SPECS],
    ),
    must_cover=["refused", "duplicate", "trimmed"],
)
def options(x, where, kind):
    c08.stub_message(True)
    dn = x.flag("default nargs") if where == "signal" else True
    dt = x.flag("default types") if where == "signal" else False
    keep, connect, counted, emitter, is_group = make(where, dn, dt)
    box = Box()
    f = slot_of(kind, box)
    opts = {}
    unique = x.choice("unique", [False, True, "raise"])
    if unique:
        opts["unique"] = unique
    max_args = x.choice("max_args", [None, 0, 1])
    if max_args is not None:
        opts["max_args"] = max_args
    cn = x.choice("check_nargs", [None, False, True])
    ct = x.choice("check_types", [None, False, True])
    if cn is not None:
        opts["check_nargs"] = cn
    if ct is not None:
        opts["check_types"] = ct
    prio = 0
    extra = x.choice("extra", ["none", "priority", "thread"]) if where != "direct" else "none"
    if extra == "priority":
        prio = x.int("priority")
        opts["priority"] = prio
    elif extra == "thread":
        opts["thread"] = x.choice("thread", ["current", threading.current_thread()])
    # what has to happen
    req, acc, annos, reqkw = SPECS[kind]
    nsig = 1 if is_group else 2
    eff_n = dn if cn is None else cn
    eff_t = dt if ct is None else ct
    refused = False
    limit = max_args
    if eff_n and max_args is None:
        refused = reqkw or req > nsig
        limit = acc
    if eff_t and not refused:
        for i, an in enumerate(annos[:nsig]):
            if an is not None and (is_group or an != "int"):
                refused = True
    style = x.choice("style", ["call", "decorator"])
    first = x.flag("connected before")
    if first:
        connect(f, check_nargs=False, check_types=False, max_args=0)
    before = [len(s) for s in counted]

    def go():
        if style == "call":
            return connect(f, **opts)
        return connect(**opts)(f)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r, err = attempt(go)
    dup = first and unique
    # a duplicate is found before the callback is checked
    if dup:
        x.cover("duplicate")
        x.check("duplicate", (err == "ValueError") if unique == "raise" else (err is None and r is f))
    elif refused:
        x.cover("refused")
        x.check("refused", err == "ValueError")
    else:
        x.check("accepted", err is None)
        x.check("returns the callable", r is f)
    added = 0 if (dup or refused) else 1
    x.check("connections", [len(s) for s in counted] == [n + added for n in before])
    x.check("connected", all((f in s) == bool(first or added) for s in counted))
    # priority
    other = []
    if extra == "priority" and added and not first:
        p2 = x.int("other priority")
        connect(lambda *a: other.append(len(box.log)), priority=p2)
    n0 = len(box.log)
    v, w = x.int("v"), x.int("w")
    args = (v, w)
    sent = (EmissionInfo(emitter, args),) if is_group else args
    got_args = sent if limit is None else sent[:limit]
    _, err = attempt(lambda: emitter.emit(v, w))
    if not added and not first:
        x.check("nothing is called", err is None and len(box.log) == n0)
        return
    if first:
        # the earlier connection passes no argument
        if req > 0 or reqkw:
            x.check("called without argument", err == "EmitLoopError")
            return
    if not added:
        x.check("called once", err is None and len(box.log) == n0 + 1)
        return
    fits = not reqkw and len(got_args) >= req and (acc is None or len(got_args) <= acc)
    if limit is not None and len(got_args) < len(sent):
        x.cover("trimmed")
    if not fits:
        x.check("error is reported", err == "EmitLoopError")
        return
    x.check("no error", err is None)
    x.check("called once", len(box.log) == n0 + (2 if first else 1))
    # the first of two equal priorities, or the one with the higher priority, is called first
    if first and where != "direct":
        i = -1 if bool(prio <= 0) else n0
        mine = box.log[i]
        x.check("the other one got none", box.log[n0 if i == -1 else -1] == ())
    else:
        mine = box.log[-1]
    x.check("number of arguments", len(mine) == len(got_args))
    if is_group:
        for i in mine:
            x.check("notification", type(i) is EmissionInfo and i.signal is emitter)
            x.check("arguments", x.same(i.args, args))
    else:
        x.check("arguments", x.same(mine, got_args))
    if other:
        x.check("priority", (other[0] == n0 + 1) == bool(prio >= p2))


# ---------------------------------------------------------------- on_ref_error
NOREF = ["method", "partial", "builtin", "object", "function", "partial function", "weak"]


@harness(
    configs=[{"where": w, "kind": k} for w in ["signal", "group", "relay", "object"] for k in NOREF],
    must_cover=["raised", "warned"],
)
def references(x, where, kind):
    """Callables whose object cannot be weakly referenced."""
    keep, connect, counted, emitter, is_group = make(where, True, False)
    box = Box()
    o = NoRef()
    o.got = box.got
    log = []
    weak = kind in ("function", "partial function", "weak", "object")
    if kind == "method":
        f = o.m if x.flag("any") else o.m1
    elif kind == "partial":
        f = partial(o.m, "tag")
    elif kind == "builtin":
        f = log.append
    elif kind == "object":
        f = Box().got if x.flag("m") else (lambda *a: box.got(*a))
        weak = True
        alive = f.__self__ if hasattr(f, "__self__") else None
        if alive is not None:
            alive.log = box.log
    elif kind == "function":
        def f(*a):
            box.got(*a)
    elif kind == "partial function":
        f = partial(lambda *a: box.got(*a), "tag")
    else:
        f = box.m1
    policy = x.choice("policy", [None, "raise", "warn", "ignore"])
    opts = {} if policy is None else {"on_ref_error": policy}
    if x.flag("no check"):
        opts["check_nargs"] = False
    ma = x.choice("max_args", [None, 1])
    if ma:
        opts["max_args"] = ma
    elif kind == "weak" or kind == "builtin" or (kind == "method" and f.__name__ == "m1"):
        if "check_nargs" in opts:
            opts["max_args"] = 1
    if x.flag("priority used"):
        opts["priority"] = 1
    style = x.choice("style", ["call", "decorator"])
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        r, err = attempt(lambda: connect(f, **opts) if style == "call" else connect(**opts)(f))
    raised = policy == "raise" and not weak
    if raised:
        x.cover("raised")
        x.check("raises", err in ("TypeError", "ReferenceError"))
    else:
        x.check("connects", err is None and r is f)
    warned = not weak and policy in (None, "warn")
    if warned:
        x.cover("warned")
    x.check("warns", len(seen) == (1 if warned else 0))
    x.check("connections", [len(s) for s in counted] == [0 if raised else 1])
    x.check("in", (f in counted[0]) == (not raised))
    box.log.clear()
    v, w = x.int("v"), x.int("w")
    keepf = f
    if not weak:
        # a strong reference is used
        if kind == "builtin":
            hold = log
        del o
    emitter.emit(v, w)
    n = len(hold) if kind == "builtin" else len(box.log)
    x.check("called once", n == (0 if raised else 1))
    counted[0].disconnect(keepf)
    x.check("disconnected", len(counted[0]) == 0)
    emitter.emit(v, w)
    x.check("not called any more", n == (len(hold) if kind == "builtin" else len(box.log)))


# ---------------------------------------------------------------- decorators used twice
@harness(
    configs=[{"where": w, "first": k} for w in WHERE for k in ("f0", "f1", "opt", "star", "m0", "partial", "f3")],
    must_cover=["both", "refused"],
)
def factories(x, where, first):
    """A decorator that connect(...) returned may be used for several callables."""
    keep, connect, counted, emitter, is_group = make(where, True, False)
    opts = {}
    ma = x.choice("max_args", [None, 1])
    if ma is not None:
        opts["max_args"] = ma
    unique = x.choice("unique", [False, True, "raise"])
    if unique:
        opts["unique"] = unique
    deco = connect(**opts)
    second = x.choice("second", ["f0", "f1", "opt", "star", "m1", "f3", "same"])
    nsig = 1 if is_group else 2
    v, w = x.int("v"), x.int("w")
    sent = 1 if is_group else 2
    boxes, fs, want = [], [], []
    for i, k in enumerate((first, second)):
        if k == "same":
            boxes.append(boxes[0])
            fs.append(fs[0])
            k = first
        else:
            boxes.append(Box())
            fs.append(slot_of(k, boxes[-1]))
        req, acc, _, _ = SPECS[k]
        ok = ma is not None or req <= nsig
        r, err = attempt(lambda: deco(fs[-1]))
        dup = unique and i == 1 and second == "same" and want[0]
        if dup:
            x.check("duplicate", err == "ValueError" if unique == "raise" else r is fs[-1])
            want.append(None)
            continue
        x.check("accepted", (err is None) == ok)
        if not ok:
            x.cover("refused")
            want.append(None)
            continue
        x.check("returned", r is fs[-1])
        limit = ma if ma is not None else acc
        n = sent if limit is None else min(limit, sent)
        if n < req or (acc is not None and n > acc):
            return  # (would fail when called)
        want.append((n, k))
    if want[0] and want[1]:
        x.cover("both")
    x.check("connections", all(len(s) == sum(q is not None for q in want) for s in counted))
    emitter.emit(v, w)
    for b in {id(b): b for b in boxes}.values():
        mine = [q for q, c in zip(want, boxes) if c is b and q is not None]
        x.check("calls", len(b.log) == len(mine))
        for got, (n, k) in zip(b.log, mine):
            x.check("number of arguments", len(got) == n, info=(got, n, k))
            if not is_group:
                x.check("arguments", x.same(got, (v, w)[:n]))


# ---------------------------------------------------------------- setters
class Attrs:
    """Weakly referenceable, attributes and items."""

    def __init__(self, log):
        self.__dict__.update(log=log, x=0)

    def __setattr__(self, name, value):
        self.log.append((name, value))

    def __setitem__(self, key, value):
        self.log.append((key, value))


class SlotAttrs:
    __slots__ = ("log", "x")

    def __init__(self, log):
        object.__setattr__(self, "log", log)
        object.__setattr__(self, "x", 0)

    def __setattr__(self, name, value):
        self.log.append((name, value))

    def __setitem__(self, key, value):
        self.log.append((key, value))


def setter_source(where):
    """keep, signal, emit(value, old) -> the arguments sent, default number of arguments set"""
    if where == "field":
        @dataclass
        class P:
            a: int = 0
            events: ClassVar = SignalGroupDescriptor()

        p = P()

        def start(v, w):
            with p.events.all.blocked():
                p.a = w

            def go():
                p.a = v
                return (v, w)
            return go
        return p, p.events.a, start
    if where in ("signal", "member"):
        if where == "signal":
            class T:
                s = Signal(int, int)

            t = T()
            sig = t.s
        else:
            t = G()
            sig = t.a

        def start(v, w):
            def go():
                sig.emit(v, w)
                return (v, w)
            return go
        return t, sig, start
    g = G()

    def start(v, w):
        def go():
            g.a.emit(v, w)
            return (EmissionInfo(g.a, (v, w)),)
        return go
    return g, g.all, start


@harness(
    configs=[{"where": w, "item": i} for w in ["signal", "field", "member", "relay"] for i in (False, True)],
    must_cover=["raised", "warned", "priority", "strong", "weak"],
)
def setters(x, where, item):
    """connect_setattr and connect_setitem: limits, priorities and reference policies."""
    keep, sig, start = setter_source(where)
    log = []
    weak = x.flag("can be referenced")
    x.cover("weak" if weak else "strong")
    o = Attrs(log) if weak else SlotAttrs(log)
    opts = {}
    m = x.choice("maxargs", ["default", None, 1, 2])
    if m != "default":
        opts["maxargs"] = m
    elif where == "field" and not item:
        m = 1
    else:
        m = None
    policy = x.choice("policy", [None, "raise", "warn", "ignore"])
    if policy is not None:
        opts["on_ref_error"] = policy
    prio = 0
    if x.flag("with priority"):
        opts["priority"] = prio = x.int("priority")
    other = []
    v, w = x.int("v"), x.int("w")
    x.assume(v != w)
    go = start(v, w)
    first = x.flag("other first")
    p2 = x.int("other priority")

    def connect_other():
        sig.connect(lambda: other.append(len(log)), priority=p2)

    if first:
        connect_other()
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        f = sig.connect_setitem if item else sig.connect_setattr
        h, err = attempt(lambda: f(o, "x", **opts))
    raised = policy == "raise" and not weak
    if raised:
        x.cover("raised")
        x.check("raises", err in ("TypeError", "ReferenceError"))
    else:
        x.check("connects", err is None)
    about_refs = [q for q in seen if "maxargs" not in str(q.message)]
    warned = not weak and policy in (None, "warn")
    if warned:
        x.cover("warned")
    x.check("warns", len(about_refs) == warned)
    x.check("connected", len(sig) == first + (not raised))
    if not first:
        connect_other()
    sent = go()
    x.check("the other one is called once", len(other) == 1)
    if raised:
        x.check("nothing is set", log == [])
        return
    want = sent if m is None else sent[:m]
    x.check("set once", len(log) == 1 and log[0][0] == "x")
    got = log[0][1]
    if where == "relay":
        x.check("notification", type(got) is EmissionInfo and got.signal is keep.a
                and x.same(got.args, (v, w)))
    elif len(want) == 1:
        x.check("value", x.same(got, want[0]))
    else:
        x.check("values", x.same(got, want))
    x.cover("priority")
    before = bool(prio > p2) if first else bool(prio >= p2)
    x.check("order", (other[0] == 1) == before)
    r = weakref.ref(o) if weak else None
    keepalive = o
    del o, h, f
    if weak:
        del keepalive
        x.check("not kept alive", r() is None and len(sig) == 1)
    else:
        del keepalive
        x.check("kept", len(sig) == 2)
    go = start(w, v)
    go()
    x.check("called again", len(other) == 2 and len(log) == (1 if weak else 2))


class Mixed(SignalGroup):
    a = Signal(int, int)
    b = Signal(int)
    c = Signal()


# ---------------------------------------------------------------- all members, or none
@harness(configs=[{"kind": k} for k in SPECS], must_cover=["refused", "accepted", "refused later"])
def members(x, kind):
    """connect_direct on a group whose signals differ: refused by one member, it is connected to none."""
    c08.stub_message(True)
    g = Mixed()
    sigs = [g.a, g.b, g.c]
    box = Box()
    f = slot_of(kind, box)
    opts = {}
    unique = x.choice("unique", [False, True, "raise"])
    if unique:
        opts["unique"] = unique
    max_args = x.choice("max_args", [None, 0, 1])
    if max_args is not None:
        opts["max_args"] = max_args
    cn = x.choice("check_nargs", [None, False, True])
    ct = x.choice("check_types", [None, False, True])
    if cn is not None:
        opts["check_nargs"] = cn
    if ct is not None:
        opts["check_types"] = ct
    req, acc, annos, reqkw = SPECS[kind]
    others = []
    prio = x.choice("priority of others", [0, 1])
    for i, s in enumerate(sigs):
        s.connect(lambda *a, i=i: others.append(i), priority=prio)
    first = [x.flag(f"connected before to {s.name}") for s in sigs]
    for s, q in zip(sigs, first):
        if q:
            s.connect(f, check_nargs=False, check_types=False, max_args=0)
    before = [len(s) for s in sigs]
    verdicts = []
    for n, q in zip((2, 1, 0), first):
        if q and unique:
            verdicts.append("refused" if unique == "raise" else "duplicate")
            continue
        no = cn is not False and max_args is None and (reqkw or req > n)
        if ct and not no:
            no = any(an not in (None, "int") for an in annos[:n])
        verdicts.append("refused" if no else "added")
    refused = "refused" in verdicts
    style = x.choice("style", ["call", "decorator"])
    fn = g.connect_direct if style == "call" else g.all.connect_direct
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r, err = attempt(lambda: fn(f, **opts) if style == "call" else fn(**opts)(f))
    if refused:
        x.cover("refused")
        if verdicts[0] == "added":
            x.cover("refused later")
        x.check("refused", err == "ValueError")
        x.check("nothing has changed", [len(s) for s in sigs] == before)
    else:
        x.cover("accepted")
        x.check("accepted", err is None and r is f)
        x.check("connected", [len(s) for s in sigs] == [
            n + (q == "added") for n, q in zip(before, verdicts)])
    x.check("in", [f in s for s in sigs] == [
        q or (not refused and d == "added") for q, d in zip(first, verdicts)])
    # what is called: the connections of before, and the new one
    v, w = x.int("v"), x.int("w")
    for s, args, q, d in zip(sigs, ((v, w), (v,), ()), first, verdicts):
        limit = acc if cn is not False and max_args is None else max_args
        new = not refused and d == "added"
        sent = args if limit is None else args[:limit]
        fits = not reqkw and len(sent) >= req and (acc is None or len(sent) <= acc)
        if (q and (req or reqkw)) or (new and not fits):
            continue  # (fails when called)
        del box.log[:], others[:]
        _, err = attempt(lambda: s.emit(*args))
        x.check("delivered", err is None and len(others) == 1)
        want = [()] * q + [sent] * new
        x.check("calls", len(box.log) == len(want))
        for got, exp in zip(box.log, want):
            x.check("arguments", x.same(got, exp))


HARNESSES = [options, references, factories, members, setters]
