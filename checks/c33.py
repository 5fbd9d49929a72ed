"""monitor_events / iter_signal_instances: every emission reported once, nothing left behind."""
import contextlib
import warnings
from dataclasses import dataclass
from functools import partial
from typing import ClassVar

from psygnal import EmissionInfo, EmitLoopError, EventedModel, Signal, SignalGroup
from psygnal import SignalGroupDescriptor, SignalInstance
from psygnal.containers import EventedList, Selection
from psygnal.utils import iter_signal_instances, monitor_events

from symx.ctx import harness, tiered

from checks import c08

BOUNDS = {
    "quick": "one or two nested monitors (with and without private signals) on a plain object, a "
    "group, an object with a group, an evented dataclass, an evented model; one to two nested "
    "global monitors; programs of 3 steps (emit in any way, from a callback, while blocked or "
    "paused with and without a reducer, connect, disconnect, a failing callback), any values, "
    "ending normally or by an exception; 17 kinds of loggers; objects with any 3 attributes out of "
    "7 kinds under public or private names",
    "thorough": "programs of 4 steps",
}
ASSUMPTIONS = [
    "reading the attributes of the object does not raise anything but AttributeError",
    "with nested global monitors the innermost one is the active one",
    "emit_fast is reported by monitors of an object only",
    "single thread",
]


def reset():
    c08.reset()
    if hasattr(SignalInstance, "_debug_hook"):
        SignalInstance._debug_hook = None


class Stop(Exception):
    pass


class Host:
    a = Signal(object)
    b = Signal(object, object)
    _p = Signal(object)
    n = 5

    @property
    def late(self):
        raise AttributeError("late")


class G(SignalGroup):
    a = Signal(object)
    b = Signal(object, object)
    _p = Signal(object)


class Alias(Host):
    @property
    def same(self):
        return self.a

    @property
    def _same(self):
        return self.a


def host(kind):
    """(object to monitor, the object that has the signals)"""
    if kind == "plain":
        o = Host()
        return o, o
    if kind == "alias":
        o = Alias()
        return o, o
    if kind == "group":
        o = G()
        return o, o
    raise AssertionError(kind)


def entries(log):
    return [(i.signal, *i.args) if type(i) is EmissionInfo else ("not info", i) for i in log]


def same_log(x, label, log, want):
    got = entries(log)
    x.check(f"{label}: number of reports", len(got) == len(want), info=(got, want))
    if len(got) == len(want):
        for g, w in zip(got, want):
            x.check(f"{label}: signal reported", g[0] is w[0])
            x.check(f"{label}: arguments reported", x.same(tuple(g[1:]), tuple(w[1:])))


OPS = ["emit a", "emit b", "emit _p", "call", "fast", "blocked", "paused", "reduced", "nested",
       "connect", "disconnect", "fail", "inner", "stop"]


class World:
    """Two user callbacks on `a`: the first may emit `b` when told so, the last may fail."""

    def __init__(self, x, o):
        self.x, self.o = x, o
        self.nested = None
        self.fail = False
        self.user = []
        self.n = 0

        def first(v):
            if self.nested is not None:
                args, self.nested = self.nested, None
                o.b.emit(*args)

        def last(v):
            if self.fail:
                self.fail = False
                raise Stop

        def extra(v):
            self.user.append(v)

        self.first, self.last, self.extra = first, last, extra
        self.nextra = 0
        o.a.connect(first)

    def v(self):
        self.n += 1
        return self.x.obj(f"v{self.n}")

    def step(self, op, report):
        """Perform `op`; report(name, args, how) is called in the order of delivery."""
        x, o = self.x, self.o
        if op == "emit a" or op == "call" or op == "fast":
            v = self.v()
            (o.a if op == "call" else o.a.emit if op == "emit a" else o.a.emit_fast)(v)
            report("a", (v,), "fast" if op == "fast" else "emit")
        elif op == "emit b":
            v, w = self.v(), self.v()
            o.b.emit(v, w)
            report("b", (v, w), "emit")
        elif op == "emit _p":
            v = self.v()
            o._p.emit(v)
            report("_p", (v,), "emit")
        elif op == "blocked":
            v, w = self.v(), self.v()
            with o.a.blocked():
                o.a.emit(v)
                o._p.emit(w)
            report("_p", (w,), "emit")
        elif op == "paused":
            v, w = self.v(), self.v()
            with o.a.paused():
                o.a.emit(v)
                o._p.emit(w)
                o.a.emit(w)
            report("_p", (w,), "emit")
            report("a", (v,), "emit")
            report("a", (w,), "emit")
        elif op == "reduced":
            v, w = self.v(), self.v()
            o.b.pause()
            o.b.emit(v, w)
            o.b.emit(w, v)
            o.b.resume(lambda p, q: (p[0], q[0]))
            report("b", (v, w), "emit")
        elif op == "nested":
            v, w = self.v(), self.v()
            self.nested = (v, w)
            o.a.emit(v)
            # the monitor of an object is connected after `first`, the global one reports
            # an emission before its callbacks are called
            report("a", (v,), "outer")
            report("b", (v, w), "emit")
            report("a", (v,), "outer after")
        elif op == "connect":
            o.a.connect(self.extra)
            self.nextra += 1
        elif op == "disconnect":
            o.a.disconnect(self.extra)
            self.nextra = max(0, self.nextra - 1)
        elif op == "fail":
            v = self.v()
            self.fail = True
            o.a.connect(self.last)
            try:
                o.a.emit(v)
                x.check("a failing callback is reported", False)
            except EmitLoopError:
                pass
            o.a.disconnect(self.last)
            report("a", (v,), "emit")


def counts(o):
    return [len(s) for s in (o.a, o.b, o._p)]


@harness(
    configs=tiered(
        [{"kind": k, "steps": 3, "start": s} for k in ("plain", "alias", "group") for s in OPS],
        [{"kind": k, "steps": 4, "start": s} for k in ("plain", "alias", "group") for s in OPS],
    ),
    must_cover=["stopped", "inner", "private"],
)
def monitored(x, kind, steps, start):
    c08.stub_message(True)
    obj, o = host(kind)
    w = World(x, o)
    log, log2, want, want2 = [], [], [], []
    private = x.flag("private")
    if private:
        x.cover("private")
    before = counts(o)

    def report_to(lst, private):
        def report(name, args, how):
            # `first` is always connected before the monitor
            if how != "outer" and (private or not name.startswith("_")):
                lst.append((o[name] if kind == "group" else getattr(o, name), *args))

        return report

    logger2 = log.append if x.flag("same logger") else log2.append
    private2 = private if logger2 is log.append else not private
    rep1 = report_to(want, private)

    def emitted(name, args, how):
        rep1(name, args, how)

    try:
        with monitor_events(obj, log.append, private):
            for i in range(steps):
                op = start if i == 0 else x.choice(f"op{i}", OPS)
                if op == "stop":
                    x.cover("stopped")
                    raise Stop
                if op == "inner":
                    x.cover("inner")
                    v, u = x.obj(f"in{i}"), x.obj(f"inp{i}")
                    with monitor_events(obj, log2.append, private2):
                        o.a.emit(v)
                        o._p.emit(u)
                    emitted("a", (v,), "emit")
                    emitted("_p", (u,), "emit")
                    report_to(want2, private2)("a", (v,), "emit")
                    report_to(want2, private2)("_p", (u,), "emit")
                    continue
                w.step(op, emitted)
    except Stop:
        pass
    same_log(x, "monitor", log, want)
    same_log(x, "inner monitor", log2, want2)
    before[0] += w.nextra
    x.check("no connection is left", counts(o) == before)
    del log[:], log2[:]
    o.a.emit(1)
    o.b.emit(1, 2)
    o._p.emit(1)
    x.check("nothing is reported afterwards", not log and not log2)
    with monitor_events(obj, log.append, True):
        o.a.emit("again")
    same_log(x, "second monitor", log, [(o.a, "again")])


@harness(
    configs=tiered(
        [{"steps": 3, "start": s} for s in OPS],
        [{"steps": 4, "start": s} for s in OPS],
    ),
    must_cover=["stopped", "inner"],
)
def everything(x, steps, start):
    """obj=None: the emissions of all signals."""
    c08.stub_message(True)
    objs = [Host(), G()]
    ws = [World(x, o) for o in objs]
    for k, w in enumerate(ws):
        w.v = lambda w=w, k=k: (setattr(w, "n", w.n + 1), x.obj(f"v{k}.{w.n}"))[1]
    before = [counts(o) for o in objs]
    logs, wants = [[], []], [[], []]

    def reporter(lst, o):
        def report(name, args, how):
            if how in ("emit", "outer"):
                lst.append((getattr(o, name) if type(o) is Host else o[name], *args))

        return report

    try:
        with monitor_events(None, logs[0].append):
            for i in range(steps):
                op = start if i == 0 else x.choice(f"op{i}", OPS)
                k = x.pick(f"k{i}", 0, 1) if op not in ("stop",) else 0
                if op == "stop":
                    x.cover("stopped")
                    raise Stop
                if op == "inner":
                    x.cover("inner")
                    v = x.obj(f"in{i}")
                    try:
                        with monitor_events(logger=logs[1].append):
                            objs[k].a.emit(v)
                            if x.flag(f"raise{i}"):
                                raise Stop
                    except Stop:
                        pass
                    reporter(wants[1], objs[k])("a", (v,), "emit")
                    continue
                ws[k].step(op, reporter(wants[0], objs[k]))
    except Stop:
        pass
    same_log(x, "monitor", logs[0], wants[0])
    same_log(x, "inner monitor", logs[1], wants[1])
    for k in (0, 1):
        b = list(before[k])
        b[0] += ws[k].nextra
        x.check("connections are untouched", counts(objs[k]) == b)
    del logs[0][:], logs[1][:]
    for o in objs:
        o.a.emit(1)
        o._p.emit(2)
    x.check("nothing is reported afterwards", not logs[0] and not logs[1])


@harness(configs=[{"kind": k} for k in ("paused", "blocked", "plain", "nested")])
def grouped(x, kind):
    """A monitor of all signals reports the members of a group, not the relay; group callbacks."""
    g = G()
    got = []
    g.connect(got.append)
    log = []
    v, w = x.obj("v"), x.obj("w")
    fast = x.flag("paused outside")
    with contextlib.ExitStack() as outer:
        if fast and kind == "paused":
            outer.enter_context(g.paused())
        with monitor_events(logger=log.append):
            if kind == "paused":
                with g.paused():
                    g.a.emit(v)
                    g.b.emit(v, w)
            elif kind == "blocked":
                with g.blocked(exclude=["b"]):
                    g.a.emit(v)
                    g.b.emit(v, w)
            else:
                if kind == "nested":
                    g.a.connect(lambda q: g.b.emit(q, w))
                    g.a.emit(v)
                else:
                    g.a.emit(v)
                    g.b.emit(v, w)
    want = [(g.a, v), (g.b, v, w)]
    same_log(x, "monitor", log, want[1:] if kind == "blocked" else want)
    x.check("group callbacks", len(got) == (1 if kind == "blocked" else 2))


# ---------------------------------------------------------------- loggers
class Methods:
    def __init__(self, log):
        self.log = log

    def method(self, info):
        self.log.append(info)

    def two(self, info, prefix=""):
        self.log.append(info)

    def three(self, info, prefix="", suffix=""):
        self.log.append(info)

    def var(self, *infos):
        self.log.extend(infos if len(infos) == 1 else [None])

    def kw(self, info, *, prefix=""):
        self.log.append(info)

    def old(self, name, args):
        self.log.append((name, args))

    def __call__(self, info):
        self.log.append(info)


def logger_of(kind, log):
    if kind == "function":
        def f(info):
            log.append(info)
    elif kind == "default":
        def f(info, prefix="x"):
            log.append(info if prefix == "x" else None)
    elif kind == "varargs":
        def f(*infos):
            log.extend(infos if len(infos) == 1 else [None])
    elif kind == "kwonly":
        def f(info, *, prefix="x"):
            log.append(info if prefix == "x" else None)
    elif kind == "lambda":
        f = lambda i: log.append(i)  # noqa: E731
    elif kind == "builtin":
        f = log.append
    elif kind == "defaults":
        def f(info, prefix="x", suffix="y"):
            log.append(info if (prefix, suffix) == ("x", "y") else None)
    elif kind == "classmethod":
        class C:
            @classmethod
            def f(cls, info, prefix="x"):
                log.append(info if prefix == "x" else None)

        f = C.f
    elif kind in ("method", "two", "three", "var", "kw", "old"):
        f = getattr(Methods(log), kind)
    elif kind == "object":
        f = Methods(log)
    elif kind == "partial":
        f = partial(lambda tag, info: log.append(info if tag == 1 else None), 1)
    elif kind == "oldfunction":
        def f(name, args):
            log.append((name, args))
    return f


LOGGERS = ["function", "default", "varargs", "kwonly", "lambda", "builtin", "method", "two", "three", "var",
           "defaults", "classmethod", "kw", "object", "partial", "old", "oldfunction"]


@harness(configs=[{"kind": k, "glob": g} for k in LOGGERS for g in (False, True)],
         must_cover=["old"])
def loggers(x, kind, glob):
    o = Host()
    log, outer = [], []
    f = logger_of(kind, log)
    old = kind.startswith("old")
    v, w, u = x.obj("v"), x.obj("w"), x.obj("u")
    first = x.flag("outer monitor")
    with contextlib.ExitStack() as st:
        if first:
            st.enter_context(monitor_events(None if glob else o, outer.append))
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            try:
                with monitor_events(None if glob else o, f):
                    x.check("old loggers are refused", not (old and glob))
                    o.a.emit(v)
                    o.b.emit(v, w)
            except ValueError:
                x.check("loggers that take one argument are accepted", old and glob)
        if old and not glob:
            x.cover("old")
            x.check("warns", len(seen) == 1)
            x.check("number", len(log) == 2)
            x.check("old 1", log[0][0] == "a")
            x.check("old args", x.and_(x.same(log[0][1], (v,)), x.same(log[1][1], (v, w))))
            x.check("old 2", log[1][0] == "b")
        elif old:
            x.check("nothing is called", not log)
        else:
            x.check("no warning", not seen)
            same_log(x, "logger", log, [(o.a, v), (o.b, v, w)])
        n = len(log)
        if first:
            m = len(outer)
            o.a.emit(u)
            same_log(x, "outer monitor", outer[m:], [(o.a, u)])
    o.a.emit(v)
    x.check("nothing afterwards", len(log) == n)
    x.check("no connection is left", counts(o) == [0, 0, 0])


# ---------------------------------------------------------------- iteration
ATTRS = ["instance", "same", "group", "none", "value", "raises", "signal class", "group again"]


@harness(configs=[{"first": a} for a in ATTRS], must_cover=["private", "twice"])
def iterate(x, first):
    """Each signal (and the relay of each group) that is an attribute, exactly once."""

    class O:
        pass

    o = O()
    insts, groups = [], []
    owner = Host()
    want, ids = [], set()
    private = x.flag("include private")
    for i in range(3):
        kind = first if i == 0 else x.choice(f"kind{i}", ATTRS)
        hidden = x.flag(f"hidden{i}")
        name = f"{'_' if hidden else ''}n{i}"
        sig = None
        if kind == "instance" or (kind == "same" and not insts):
            sig = SignalInstance((object,), name=name) if x.flag(f"own{i}") else G().a
            insts.append(sig)
            setattr(o, name, sig)
        elif kind == "same":
            x.cover("twice")
            sig = insts[-1]
            setattr(o, name, sig)
        elif kind == "group" or (kind == "group again" and not groups):
            g = G()
            groups.append(g)
            setattr(o, name, g)
            sig = g.all
        elif kind == "group again":
            setattr(o, name, groups[-1])
            sig = groups[-1].all
        elif kind == "value":
            setattr(o, name, (owner, [owner.a]))
        elif kind == "raises":
            def get(self):
                raise AttributeError("no")

            setattr(O, name, property(get))
        elif kind == "signal class":
            s = Signal(object)
            s.__set_name__(O, name)
            setattr(O, name, s)
            sig = getattr(o, name)
        if sig is not None and (private or not hidden):
            if hidden:
                x.cover("private")
            if id(sig) not in ids:
                ids.add(id(sig))
                want.append(sig)
    got = list(iter_signal_instances(o, private) if x.flag("kw") else
               iter_signal_instances(o, include_private_attrs=private))
    x.check("each signal once", sorted(map(id, got)) == sorted(map(id, want)))
    if not private:
        x.check("private ones are not included by default",
                sorted(map(id, iter_signal_instances(o))) == sorted(map(id, want)))


# ---------------------------------------------------------------- evented objects
@dataclass
class DC:
    n: object = 0
    m: object = 0
    events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor(equality_operators={})


class Model(EventedModel):
    n: object = 0
    m: object = 0


@harness(configs=[{"kind": k, "private": p} for k in ("dataclass", "model", "list", "selection")
                  for p in (False, True)])
def evented(x, kind, private):
    """Objects with a group report each of its notifications once."""
    v, w = x.obj("v"), x.obj("w")
    log, log2, direct = [], [], []
    if kind == "dataclass":
        o = DC()
    elif kind == "model":
        o = Model()
    elif kind == "list":
        o = EventedList([0])
    else:
        o = Selection()
    o.events.connect(direct.append)
    with contextlib.ExitStack() as st:
        via = x.flag("group monitor")
        if via:
            st.enter_context(monitor_events(o.events, log2.append, private))
        st.enter_context(monitor_events(o, log.append, private))
        if kind in ("dataclass", "model"):
            o.n = v
            o.m = w
            o.n = w
        elif kind == "list":
            o.append(v)
            o[0] = w
        else:
            o.add("i")
            o.active = "i"
            o._current = "i"
    x.check("one report for each notification of the group", len(log) == len(direct))
    x.check("the group is the signal", all(i.signal is o.events.all for i in log))
    x.check("and the notification its argument",
            all(len(i.args) == 1 and i.args[0] is d for i, d in zip(log, direct)))
    if via:
        want = [d for d in direct if private or not d.signal.name.startswith("_")]
        same_log(x, "group monitor", log2, [(d.signal, *d.args) for d in want])
    x.check("no connection is left", len(o.events.all) == 1)


# explored also with None among the arbitrary objects
monitored.nones = [{"kind": "plain", "steps": 2, "start": "emit a"}]

HARNESSES = [monitored, everything, grouped, loggers, iterate, evented]
