"""Deep copies and pickles of signals, groups, evented containers and evented models."""
import copy
import pickle
import warnings
from functools import partial
from dataclasses import dataclass, field
from typing import Any, ClassVar

from pydantic import ConfigDict, PrivateAttr

from psygnal import (
    EventedModel, Signal, SignalGroup, SignalGroupDescriptor, SignalInstance,
)
from psygnal.containers import (
    EventedDict, EventedList, EventedOrderedSet, EventedSet, SelectableEventedList, Selection,
)

from checks._lists import objs, outcome
from symx import atoms
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "signals with up to 2 connections (strongly held functions, with and without "
    "bound arguments, and methods; arbitrary integer priorities, argument limits), every "
    "combination of re-emission mode, connection checks, blocked and paused state with held "
    "emissions; then 1 (with 1 connection: 2) operations (emit, connect, disconnect, (un)block, pause/resume) on copy "
    "or original; containers with up to 2 items and one mutation of copy and original; evented "
    "models and dataclasses with nested models; deepcopy and pickle",
    "thorough": "3 connections, or 2 and 2 operations; containers with 3 items and 2 mutations",
}
ASSUMPTIONS = [
    "callbacks connected to a group as a whole (and all callbacks of a deep-copied group) are "
    "not copied along",
    "signals and containers are also copied by a running callback (containers are not "
    "pickled then: a pause in progress is part of the state), groups and dataclasses while "
    "nothing is being emitted",
    "shallow copies only of evented models and containers",
]

LOG = []


def reset():
    del LOG[:]
    del atoms.KEEP[:]


def f0(*args, tail=()):
    LOG.append((0, args + tail))


def f1(*args):
    LOG.append((1, args))


def fnew(*args):
    LOG.append((9, args))


FUNCS = [f0, f1]


def again(*args):
    """re-emits, twice, with less each time"""
    LOG.append((5, args))
    sig = Signal.current_emitter()
    if args and isinstance(args[0], str) and len(args[0]) < 3:
        sig.emit(args[0] + "a", args[1])
        sig.emit(args[0] + "b", args[1])


class Listener:
    def meth(self, *args):
        LOG.append((2, args))


class Owner:
    sig = Signal(object, object, name="public", description="what it is")
    queued = Signal(object, object, reemission="queued")
    latest = Signal(object, object, reemission="latest-only", check_nargs_on_connect=False)
    typed = Signal(int, str, check_types_on_connect=True)
    other = Signal(object)


SIGS = ["sig", "queued", "latest", "typed"]


def two_args(a: int, b: str):
    pass


def badtypes(a: str, b: str):
    pass


def three_args(a, b, c):
    pass


def clone(how, o):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if how == "deepcopy":
            return copy.deepcopy(o)
        if how == "copy":
            return copy.copy(o)
        if how == ".copy()":
            return o.copy()
        if how == "model_copy":
            return o.model_copy()
        if how == "model_copy deep":
            return o.model_copy(deep=True)
        return pickle.loads(pickle.dumps(o, int(how[-1])))


HOW = ["deepcopy", "pickle2", "pickle4"]


class Ref:
    """What a signal is expected to do."""

    def __init__(self):
        self.conns, self.blocked, self.paused, self.held = [], False, False, []
        self.seq = 0

    def copied(self):
        r = Ref()
        r.conns = [c for c in self.conns if c[2] != 2]
        r.blocked, r.paused, r.held, r.seq = self.blocked, self.paused, list(self.held), self.seq
        return r

    def connect(self, prio, k, max_args, bound=(), tail=()):
        self.conns.append((prio, self.seq, k, max_args, bound, tail))
        self.seq += 1
        self.conns.sort(key=lambda c: (-c[0], c[1]))

    def emit(self, args, out):
        if self.blocked:
            return
        if self.paused:
            self.held.append(args)
            return
        for _, _, k, n, bound, tail in self.conns:
            out.append((k, bound + (args if n is None else args[:n]) + tail))

    def resume(self, out):
        self.paused = False
        q, self.held = self.held, []
        for a in q:
            self.emit(a, out)


class Side:
    def __init__(self, sig, ref):
        self.sig, self.ref = sig, ref


@harness(
    configs=tiered(
        [{"attr": a, "how": h, "n": n, "k": k}
         for n, k in ((2, 1), (1, 2))
         for a, h in (("sig", "deepcopy"), ("sig", "pickle4"),
                      ("latest", "deepcopy"), ("queued", "pickle2"))],
        [{"attr": a, "how": h, "n": n, "k": k} for n, k in ((2, 2), (3, 1))
         for a, h in (("sig", "deepcopy"), ("sig", "pickle4"), ("latest", "pickle2"),
                      ("typed", "deepcopy"), ("queued", "pickle4"))],
    ),
    must_cover=["weak dropped", "paused copy", "blocked copy"],
)
def signal(x, attr, how, n, k):
    """Connections, state and later operations of the copy and of the original."""
    del LOG[:]
    whole = x.flag("copy the owner")
    o = Owner()
    sig = getattr(o, attr)
    lis = Listener()
    ref = Ref()
    for i in range(n):
        kind = x.choice(f"c{i}", ["f0", "f1", "partial", "partial kw", "weak"])
        m = x.choice(f"m{i}", [None, 1]) if kind in ("f0", "f1") and i == 0 else None
        p = x.int(f"p{i}") if i else 0
        with_p = {"priority": p} if i else {}
        if kind == "weak":
            sig.connect(lis.meth, check_types=False, **with_p)
            ref.connect(p, 2, None)
        elif kind == "partial":
            b = x.obj(f"b{i}")
            sig.connect(partial(f0, b), check_types=False, **with_p)
            ref.connect(p, 0, None, (b,))
        elif kind == "partial kw":
            b = x.obj(f"b{i}")
            sig.connect(partial(f0, tail=(b,)), check_types=False, **with_p)
            ref.connect(p, 0, None, (), (b,))
        else:
            sig.connect(FUNCS[int(kind[1])], max_args=m, check_types=False, **with_p)
            ref.connect(p, int(kind[1]), m)
    state = x.choice("state", ["normal", "blocked", "paused", "held"])
    want = []
    if state == "blocked":
        sig.block()
        ref.blocked = True
    elif state != "normal":
        sig.pause()
        ref.paused = True
        if state == "held":
            a = (x.obj("h0"), x.obj("h1"))
            sig.emit(*a)
            ref.emit(a, want)
    if whole:
        o2 = clone(how, o)
        sig2 = getattr(o2, attr)
    else:
        sig2 = clone(how, sig)
    ref2 = ref.copied()
    if len(ref2.conns) < len(ref.conns):
        x.cover("weak dropped")
    if state == "blocked":
        x.cover("blocked copy")
    if state == "held":
        x.cover("paused copy")
    x.check("another signal", sig2 is not sig and isinstance(sig2, SignalInstance))
    x.check("name", sig2.name == sig.name)
    x.check("description", sig2.description == sig.description)
    x.check("signature", sig2.signature == sig.signature)
    if whole:  # (otherwise nothing keeps the copied owner alive)
        x.check("instance", sig2.instance is o2 and o2 is not o and isinstance(o2, Owner))
        x.check("the signal of the copy", getattr(o2, attr) is sig2)
    x.check("copying notifies nobody", not LOG)
    x.check("number of connections", (len(sig), len(sig2)) == (len(ref.conns), len(ref2.conns)))
    sides = [Side(sig, ref), Side(sig2, ref2)]
    for t in range(k):
        side = sides[x.pick(f"side{t}", 0, 1)]
        op = x.choice(f"op{t}", ["emit", "connect", "disconnect", "disconnect all", "block",
                                 "unblock", "pause", "resume"])
        s, r = side.sig, side.ref
        if op == "emit":
            a = (x.obj(f"e{t}"), x.obj(f"d{t}"))
            s.emit(*a)
            r.emit(a, want)
        elif op == "connect":
            p = x.int(f"q{t}")
            s.connect(fnew, priority=p, check_types=False)
            r.connect(p, 9, None)
        elif op == "disconnect":
            mine = [c for c in r.conns if c[2] == 0]
            x.assume(len(mine) < 2)
            x.assume(not any(c[4] or c[5] for c in mine))
            out = outcome(lambda: s.disconnect(f0, missing_ok=False))
            x.check("disconnect", out.kind == ("ok" if mine else "err"))
            r.conns = [c for c in r.conns if c[2] != 0]
        elif op == "disconnect all":
            s.disconnect()
            r.conns = []
        elif op == "block":
            s.block()
            r.blocked = True
        elif op == "unblock":
            s.unblock()
            r.blocked = False
        elif op == "pause":
            s.pause()
            r.paused = True
        else:
            x.assume(not r.blocked)
            s.resume()
            r.resume(want)
        x.check("notifications", x.same([tuple(g) for g in LOG], want), info=(LOG, want))
        x.check("connections", (len(sig), len(sig2)) == (len(ref.conns), len(ref2.conns)))
    # and finally both emit
    for i, side in enumerate(sides):
        side.sig.unblock()
        side.ref.blocked = False
        side.sig.resume()
        side.ref.resume(want)
        a = (x.obj(f"last{i}"), 0)
        side.sig.emit(*a)
        side.ref.emit(a, want)
    x.check("finally", x.same([tuple(g) for g in LOG], want), info=(LOG, want))


@harness(
    configs=tiered([{"how": h} for h in HOW]),
    must_cover=["queued", "latest", "sig"],
)
def modes(x, how):
    """The copy re-emits, checks connections and limits recursion as the original does."""
    del LOG[:]
    o = Owner()
    attr = x.choice("attr", SIGS)
    x.cover(attr)
    if x.flag("free"):
        sig = SignalInstance(
            (int, str), name="n", description="d", check_nargs_on_connect=x.flag("nargs"),
            check_types_on_connect=x.flag("types"),
            reemission=x.choice("mode", ["immediate", "queued", "latest-only"]))
    else:
        sig = getattr(o, attr)
    prios = [x.int("p0", -1, 1), x.int("p1", -1, 1)]
    sig.connect(again, priority=prios[0], check_types=False)
    sig.connect(f1, priority=prios[1], check_types=False)
    for _ in range(x.pick("copies", 1, 2)):
        sig2 = clone(how, sig)
    for cb in (three_args, two_args, badtypes):
        for kw in ({}, {"check_types": True}):
            a = outcome(lambda: clone(how, sig).connect(cb, **kw))
            b = outcome(lambda: clone(how, sig2).connect(cb, **kw))
            x.check("same connection checks", a.kind == b.kind and a.kind != "err"
                    or a.kind == b.kind == "err" and a.value is b.value)
    v = x.obj("v")
    sig.emit("x", v)
    first = list(LOG)
    del LOG[:]
    sig2.emit("x", v)
    x.check("same re-emission", x.same([tuple(g) for g in LOG], [tuple(g) for g in first]))
    x.check("called", len(first) >= 6)
    x.check("names", (sig2.name, sig2.description) == (sig.name, sig.description))


# ------------------------------------------------------------------------------- groups
class Sigs(SignalGroup):
    a = Signal(object)
    b = Signal(object, object)


class WithGroup:
    """has a group, a signal and a descriptor's group"""

    sig = Signal(object)

    def __init__(self):
        self.sigs = Sigs(self)


@dataclass
class Point:
    u: Any = 0
    v: Any = 0
    events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor(cache_on_instance=False)


@dataclass
class Cached:
    u: Any = 0
    v: Any = 0
    inner: Any = field(default_factory=Point)
    events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor()


def hear(group, log, tag):
    for s in group:
        group[s].connect(lambda *a, s=s: log.append((tag, s, a)))
    group.connect(lambda info: log.append((tag, "group", (info.signal.name, info.args))))


class Heard:
    """Picklable listener: a method, connected weakly."""

    def __init__(self, log, tag):
        self.log, self.tag = log, tag

    def on(self, group):
        for s in group:
            group[s].connect(getattr(self, s))
        group.connect(self.whole)

    def whole(self, info):
        self.log.append((self.tag, "group", (info.signal.name, info.args)))

    def __getattr__(self, name):
        if name.startswith("__") or name in ("log", "tag"):
            raise AttributeError(name)
        raise AttributeError(name)


def make_heard(names):
    ns = {}
    for s in names:
        def meth(self, *a, _s=s):
            self.log.append((self.tag, _s, a))
        ns[s] = meth
    return type("Heard_", (Heard,), ns)


@harness(
    configs=tiered([{"how": h, "what": w} for h in HOW for w in ("group", "owner")]),
    must_cover=["emitted", "group-level"],
)
def groups(x, how, what):
    log = []
    o = WithGroup()
    g = o.sigs if what == "owner" else Sigs()
    h = make_heard("ab")(log, "orig")
    blocked = x.choice("state", ["normal", "blocked"])
    if x.flag("heard"):
        h.on(g)
    else:
        x.check("nobody", not len(g.a) and not len(g.b))
    strong = x.flag("strong")
    if strong:
        del LOG[:]
        g.a.connect(f0)
    if blocked == "blocked":
        g.a.block()
    if what == "owner":
        o2 = clone(how, o)
        g2 = o2.sigs
        x.check("the group belongs to the copy", g2.all.instance is o2 and o2 is not o)
        x.check("the signals belong to the group of the copy", g2.a.instance in (g2, o2))
        x.check("sigs", o.sigs is g and o2.sigs is g2)
    else:
        g2 = clone(how, g)
    x.check("another group", g2 is not g and isinstance(g2, Sigs))
    x.check("its own signals", all(g2[s] is not g[s] for s in g) and list(g2) == list(g))
    x.check("attributes", g2.a is g2["a"] and g2.b is g2["b"])
    x.check("signatures", all(g2[s].signature == g[s].signature for s in g))
    x.check("nobody is notified", not log and not LOG)
    g.a.unblock()
    g2.a.unblock()
    # the copy works as a group
    log2 = []
    h2 = make_heard("ab")(log2, "copy")
    h2.on(g2)
    # (a listener of the original that was pickled along is a strongly held function)
    copied = strong and how != "deepcopy"
    v, w = x.obj("v"), x.obj("w")
    which = x.choice("which", ["a", "b"])
    args = (v,) if which == "a" else (v, w)
    g2[which].emit(*args)
    x.cover("emitted")
    x.check("the original's listeners are not notified", not log)
    x.check("strong functions", x.same(LOG, [(0, args)] if copied and which == "a" else []))
    x.check("the copy's are", x.same(sorted((t, s) for t, s, _ in log2),
                                     [("copy", which), ("copy", "group")]))
    for _, s, a in log2:
        x.check("arguments", x.same(a, args if s != "group" else (which, args)))
    x.cover("group-level")
    del log2[:], LOG[:]
    g[which].emit(*args)
    x.check("the copy's listeners are not notified", not log2)
    x.check("strong function of the original",
            x.same(LOG, [(0, args)] if strong and which == "a" else []))
    # blocking and disconnecting the copy
    del log[:], LOG[:]
    with g2.blocked():
        g2[which].emit(*args)
        x.check("blocked copy", not log2 and not LOG and not log)
        g[which].emit(*args)
        n = len(log)
        x.check("the original is not blocked", not log2)
    g2[which].emit(*args)
    x.check("unblocked copy", len(log2) == 2 and len(log) == n)
    g2.disconnect()
    del log2[:], LOG[:]
    g2[which].emit(*args)
    x.check("disconnected copy", not log2 and not LOG and len(log) == n)
    g[which].emit(*args)
    x.check("the original is still connected", len(log) == 2 * n)


@harness(
    configs=tiered([{"cls": "Point", "how": h} for h in [*HOW, "copy"]]
                   + [{"cls": "Cached", "how": "deepcopy"}]),
    must_cover=["accessed", "not accessed"],
)
def dataclasses(x, cls, how):
    """Evented dataclasses."""
    K = {"Point": Point, "Cached": Cached}[cls]
    p = K(x.obj("u"), x.obj("v"))
    log, log2 = [], []
    acc = x.flag("accessed")
    x.cover("accessed" if acc else "not accessed")
    if acc:
        h = make_heard(["u", "v", "inner"])(log, "orig")
        h.on(p.events)
    p2 = clone(how, p)
    x.check("contents", x.same((p2.u, p2.v), (p.u, p.v)))
    x.check("own group", p2.events is not p.events)
    x.check("group of the copy", p2.events.all.instance is p2)
    if not acc:
        h = make_heard(["u", "v", "inner"])(log, "orig")
        h.on(p.events)
    h2 = make_heard(["u", "v", "inner"])(log2, "copy")
    h2.on(p2.events)
    f = x.choice("f", ["u", "v"])
    for a, mine, others in ((p, log, log2), (p2, log2, log)):
        del log[:], log2[:]
        old, new = getattr(a, f), x.obj(f"n{a is p}")
        setattr(a, f, new)
        x.check("not the other one's", not others)
        if new == old:
            x.check("no change", not mine)
        else:
            x.check("notified", x.same([m[2] for m in mine],
                                       [(new, old), (f, (new, old))]), info=mine)
    if cls == "Cached":
        x.check("nested", p2.inner is not p.inner)
        del log[:]
        p.inner.events.connect(lambda i: log.append(1))
        p2.inner.u = x.obj("deep")
        x.check("nested original silent", not log)


# --------------------------------------------------------------------------- containers
def build(kind, items, basetype=()):
    if kind == "dict":
        return EventedDict({f"k{i}": v for i, v in enumerate(items)}, basetype=basetype)
    return {"list": EventedList, "set": EventedSet, "oset": EventedOrderedSet,
            "selection": Selection, "selectable": SelectableEventedList}[kind](items)


def same_items(x, kind, a, b):
    """the order of the items of a set is not specified"""
    if kind != "set":
        return x.same(a, b)
    return x.and_(len(a) == len(b),
                  *[x.or_(*[x.is_(i, j) for j in b]) for i in a])


def same_log(x, kind, a, b):
    if kind != "set":
        return x.same(a, b)
    return x.and_(len(a) == len(b), *[
        x.and_(m[0] == n[0], *[same_items(x, kind, i, j) for i, j in zip(m[1], n[1])])
        for m, n in zip(a, b)])


def contents(c):
    return list(c.items()) if isinstance(c, EventedDict) else list(c)


OPS = {
    "list": ["set", "del", "append", "clear", "extend", "reverse", "move"],
    "dict": ["set", "new", "del", "clear", "popitem", "update"],
    "set": ["add", "discard", "clear", "update"],
    "selection": ["add", "discard", "clear", "update", "active", "toggle"],
}
OPS["oset"] = OPS["set"]
OPS["selectable"] = OPS["list"]


def mutate(x, c, op, v):
    if op == "set":
        c["k0" if isinstance(c, EventedDict) else 0] = v
    elif op == "new":
        c["k9"] = v
    elif op == "del":
        del c["k0" if isinstance(c, EventedDict) else 0]
    elif op == "append":
        c.append(v)
    elif op == "extend":
        c.extend([v])
    elif op == "reverse":
        c.reverse()
    elif op == "move":
        c.move(0, 2)
    elif op == "clear":
        c.clear()
    elif op == "popitem":
        c.popitem()
    elif op == "update":
        c.update({"k9": v} if isinstance(c, EventedDict) else [v])
    elif op == "add":
        c.add(v)
    elif op == "discard":
        c.discard(v)
    elif op == "active":
        c.active = v
    elif op == "toggle":
        c.toggle(v)


class Listens:
    """Methods for the events of all containers, logging (signal, arguments)."""

    def __init__(self, c):
        self.log = []
        self.keep = []
        for name in c.events:
            c.events[name].connect(getattr(self, "on_" + name.strip("_")))

    def drain(self):
        r = list(self.log)
        del self.log[:]
        return r


for _n in ("inserting", "inserted", "removing", "removed", "moving", "moved", "changed",
           "reordered", "child_event", "adding", "added", "changing", "items_changed",
           "active", "current"):
    def _m(self, *a, _n=_n):
        self.log.append((_n, a))
    setattr(Listens, "on_" + _n, _m)

KINDS = ["list", "dict", "set", "oset", "selection", "selectable"]
SHALLOW = {"list": ["copy", ".copy()"], "dict": ["copy", ".copy()"], "set": ["copy", ".copy()"],
           "oset": ["copy", ".copy()"], "selection": ["copy", ".copy()"],
           "selectable": ["copy", ".copy()"]}


@harness(
    configs=tiered(
        [{"kind": k, "n": 2, "m": 1} for k in KINDS],
        [{"kind": k, "n": 3, "m": 2} for k in KINDS],
    ),
    must_cover=["mutated copy", "mutated original"],
)
def containers(x, kind, n, m):
    items = objs(x, "i", x.pick("n", 0, n))
    if kind in ("set", "oset", "selection", "selectable"):
        for i, a in enumerate(items):
            for b in items[:i]:
                x.assume(x.not_(x.equal(a, b)))
    typed = kind == "dict" and x.flag("typed")
    basetype = (type(x.obj("some")),) if typed else ()
    c = build(kind, items, basetype)
    if kind == "selectable" and items and x.flag("one selected"):
        c.selection.active = items[0]
    lis = Listens(c)
    strong = kind == "dict" and x.flag("strong")
    if strong:
        c.events.changed.connect(f0)
        c.events.added.connect(f0)
    how = x.choice("how", [*HOW, *SHALLOW[kind]])
    before = contents(c)
    d = clone(how, c)
    x.check("another one of the same kind", d is not c and type(d) is type(c))
    x.check("equal contents", same_items(x, kind, contents(d), before))
    x.check("the original is unchanged", x.same(contents(c), before))
    x.check("own events", d.events is not c.events and type(d.events) is type(c.events))
    x.check("nobody is notified", not lis.log and not LOG)
    if kind == "selectable" and how in HOW:
        x.check("selection", x.same(list(d.selection), list(c.selection))
                and d.selection is not c.selection)
        x.check("active", d.selection.active is c.selection.active)
    if kind == "selection" and how in HOW:
        x.check("active", d.active is c.active)
    lis2 = Listens(d)
    # a reference: a fresh container with the same contents
    for t in range(m):
        on_copy = x.flag(f"on copy{t}")
        a, b, la, lb = (d, c, lis2, lis) if on_copy else (c, d, lis, lis2)
        x.cover("mutated copy" if on_copy else "mutated original")
        r = build(kind, [v for _, v in contents(a)] if kind == "dict" else contents(a))
        if kind == "dict":
            r = EventedDict(dict(contents(a)), basetype=basetype)
        if kind == "selectable":
            r.selection.clear()
            r.selection.update(list(a.selection))
            r.selection._current = a.selection._current
        if kind == "selection":
            r._current = a._current
        lr = Listens(r)
        op = x.choice(f"op{t}", OPS[kind])
        v = x.choice(f"which{t}", [x.obj(f"v{t}"), *items[:1], *(["wrong"] if typed else [])])
        other = contents(b)
        del LOG[:]
        ra = outcome(lambda: mutate(x, r, op, v))
        strong_calls = [e[1] for e in lr.log if e[0] in ("changed", "added")]
        rb = outcome(lambda: mutate(x, a, op, v))
        x.check("same outcome as a fresh one", ra.kind == rb.kind
                and (ra.kind == "ok" or ra.value is rb.value))
        x.check("same contents as a fresh one", same_items(x, kind, contents(a), contents(r)))
        x.check("same notifications as a fresh one", same_log(x, kind, la.drain(), lr.drain()))
        x.check("the other one is unchanged", x.same(contents(b), other))
        x.check("the other one's listeners are silent", not lb.log)
        if strong:
            kept = not on_copy or how.startswith("pickle")
            x.check("strong functions", x.same([g[1] for g in LOG], strong_calls if kept else []))
        if kind == "selectable" and (not on_copy or how in HOW):
            x.check("selection as of a fresh one",
                    x.same(list(a.selection), list(r.selection)))
            x.check("active as of a fresh one", a.selection.active is r.selection.active)


class Child:
    sig = Signal(object)


@harness(
    configs=tiered([{"kind": k, "n": 2} for k in ("list", "selectable")]),
    must_cover=["child of the copy", "removed"],
)
def children(x, kind, n):
    """Lists that relay the events of their items."""
    how = x.choice("how", HOW)
    k = x.pick("n", 1, n)
    cls = {"list": EventedList, "selectable": SelectableEventedList}[kind]
    kids = [Child() for _ in range(k)]
    if x.flag("accessed"):
        for c in kids:
            c.sig
    hashable = x.flag("hashable")
    c = cls(kids, child_events=True, hashable=hashable)
    lis = Listens(c)
    d = clone(how, c)
    x.check("hashable like the original", outcome(lambda: hash(d) == id(d)).value
            == (True if hashable else TypeError))
    lis2 = Listens(d)
    x.check("kids are copied", len(d) == k and all(a is not b for a, b in zip(c, d)))
    lis.drain()
    i = x.pick("i", 0, k - 1)
    v = x.obj("v")
    for a, la, lb in ((c, lis, lis2), (d, lis2, lis)):
        if a is d:
            x.cover("child of the copy")
        kid = a[i]
        kid.sig.emit(v)
        x.check("relayed once", x.same(la.drain(), [("child_event", (i, kid, kid.sig, (v,)))]))
        x.check("not by the other", not lb.log)
    # a new child, and a removed one, of the copy
    new = Child()
    d.append(new)
    lis2.drain()
    new.sig.emit(v)
    x.check("new child", x.same(lis2.drain(), [("child_event", (k, new, new.sig, (v,)))]))
    gone = d.pop(i)
    x.cover("removed")
    lis2.drain()
    gone.sig.emit(v)
    x.check("removed child", not lis2.log)
    x.check("original silent", not lis.log)
    c[i].sig.emit(v)
    x.check("original relays", len(lis.log) == 1 and not lis2.log)


# ------------------------------------------------------------------------------- models
class Leaf(EventedModel):
    s: Any = 0


class Tree(EventedModel):
    a: Any = 0
    b: Any = 0
    leaf: Leaf = Leaf()
    _hidden: Any = PrivateAttr(None)


class Props(EventedModel):
    model_config = ConfigDict(allow_property_setters=True, field_dependencies={"p": ["a", "b"]})
    a: Any = 0
    b: Any = 0
    leaf: Leaf = Leaf()
    _hidden: Any = PrivateAttr(None)

    @property
    def p(self):
        return (self.a, self.b)

    @p.setter
    def p(self, v):
        self.a, self.b = v


MODELS = {"Tree": Tree, "Props": Props}


def watch(m, names):
    log = []
    for f in names:
        m.events[f].connect(lambda *a, f=f: log.append((f, a)))
    m.events.connect(lambda info: log.append((f"group {info.signal.name}", info.args)))
    return log


@harness(
    configs=tiered(
        [{"cls": c, "how": h, "k": 1} for c in MODELS
         for h in [*HOW, "copy", "model_copy", "model_copy deep"]],
        [{"cls": c, "how": h, "k": 2} for c in MODELS
         for h in [*HOW, "copy", "model_copy", "model_copy deep"]],
    ),
    must_cover=["copy assigned", "original assigned"],
)
def models(x, cls, how, k):
    K = MODELS[cls]
    m = K(a=x.obj("a"), b=x.obj("b"))
    m.leaf.s = x.obj("s")
    m._hidden = x.obj("h")
    names = ["a", "b", "leaf", *(["p"] if cls == "Props" else [])]
    during = cls == "Props" and x.flag("copied in a listener")
    log = watch(m, names)
    leaflog = watch(m.leaf, ["s"])
    if during:  # while another change is being announced
        made = []
        copier = m.events.a.connect(lambda v: made.append(clone(how, m)))
        m.a = x.obj("a2")
        if not made:
            return
        m2 = made[0]
        m.events.a.disconnect(copier)
        del log[:]
    else:
        m2 = clone(how, m)
    deep = how not in ("copy", "model_copy")
    x.check("another model", m2 is not m and type(m2) is K)
    x.check("fields", x.same((m2.a, m2.b, m2.leaf.s), (m.a, m.b, m.leaf.s)))
    x.check("private attributes", x.same(m2._hidden, m._hidden))
    x.check("equal", bool(m2 == m) and bool(m == m2))
    x.check("fields set", m2.model_fields_set == m.model_fields_set)
    x.check("own events", m2.events is not m.events and type(m2.events) is type(m.events))
    x.check("the events belong to the model",
            m2.events.all.instance is m2 and m.events.all.instance is m)
    x.check("nested", (m2.leaf is m.leaf) == (not deep))
    x.check("nobody is notified", not log and not leaflog)
    log2 = watch(m2, names)
    leaflog2 = watch(m2.leaf, ["s"]) if deep else []
    for t in range(k):
        on_copy = x.flag(f"on copy{t}")
        x.cover("copy assigned" if on_copy else "original assigned")
        a, b, la, lb = (m2, m, log2, log) if on_copy else (m, m2, log, log2)
        del log[:], log2[:]
        what = x.choice(f"what{t}", ["a", "b", *(["p"] if cls == "Props" else []), "leaf.s",
                                     "hidden"])
        other = (b.a, b.b, b.leaf.s, b._hidden)
        v = x.obj(f"v{t}")
        if what == "leaf.s":
            if not deep:
                continue
            mine, others = (leaflog2, leaflog) if on_copy else (leaflog, leaflog2)
            del mine[:], others[:]
            old = a.leaf.s
            a.leaf.s = v
            x.check("nested model", len(mine) == (0 if v == old else 2) and not others)
        elif what == "hidden":
            a._hidden = v
            x.check("private", not la)
        else:
            old = {"a": a.a, "b": a.b}
            if what == "p":
                a.p = (v, old["b"])
                new = {"a": v, "b": old["b"]}
            else:
                setattr(a, what, v)
                new = {**old, what: v}
            changed = [f for f in "ab" if not (new[f] == old[f])]
            if cls == "Props" and changed:
                changed.append("p")
            full = {**new, "p": (new["a"], new["b"])}
            want = sorted([*changed, *(f"group {f}" for f in changed)])
            x.check("notifications", sorted(g[0] for g in la) == want, info=(la, want))
            for f, args in la:
                x.check("values", x.same(args, (full[f.split()[-1]],)))
            x.check("assigned", x.same((a.a, a.b), (new["a"], new["b"])))
        x.check("the other one is unchanged",
                x.same((b.a, b.b, b.leaf.s, b._hidden), other))
        x.check("the other one's listeners are silent", not lb)
        x.check("nested listeners", what == "leaf.s" or not (leaflog or leaflog2))
        del leaflog[:], leaflog2[:]


# ------------------------------------------------------------- copied by a running callback
COPIER = {}


def copier(*args):
    """makes the copy, in its n-th call"""
    LOG.append((3, args))
    COPIER["n"] -= 1
    if COPIER["n"] == 0:
        COPIER["made"] = clone(COPIER["how"], COPIER["what"])


@harness(
    configs=tiered([{"how": h, "mode": m} for h in HOW
                    for m in ("immediate", "queued", "latest-only")]),
    must_cover=["copied while emitting", "copied in a nested emission"],
)
def within(x, how, mode):
    """A copy made by a callback is idle: what is being emitted is not emitted by the copy."""
    del LOG[:]
    s = SignalInstance((object, object), name="s", reemission=mode)
    cbs = [again, f1, copier]
    for cb in (cbs if x.flag("copy last") else cbs[::-1]):
        s.connect(cb)
    start = x.choice("start", ["xx", "xxx"])
    COPIER.update(n=x.pick("copy in call", 1, 3), how=how, what=s, made=None)
    v = x.obj("v")
    s.emit(start, v)
    d = COPIER["made"]
    if d is None:
        return
    x.cover("copied while emitting")
    if start == "xx":
        x.cover("copied in a nested emission")
    COPIER["n"] = 0
    logs = []
    for sig in (d, s, d):
        del LOG[:]
        sig.emit(x.choice("again", ["xx", "xxx"]) if not logs else logs[0][0], v)
        if not logs:
            logs.append((LOG[0][1][0],))
        logs.append([tuple(g) for g in LOG])
    x.check("called", len(logs[1]) >= 3)
    x.check("emits like the original", x.same(logs[1], logs[2]) and x.same(logs[3], logs[2]),
            info=logs)
    x.check("no emitter left", Signal.current_emitter() is None)


class Copies:
    def __init__(self, made, make, check):
        self.made, self.make, self.check = made, make, check

    def listener(self, *a):
        if not self.made:
            self.made.append(self.make())
            self.check(self.made[0])


@harness(
    configs=tiered([{"kind": k, "n": 2} for k in KINDS], [{"kind": k, "n": 3} for k in KINDS]),
    must_cover=["copied by a callback"],
)
def while_changing(x, kind, n):
    """A container copied by one of its listeners: the copy works on its own."""
    items = objs(x, "i", x.pick("n", 0, n))
    for i, a in enumerate(items):
        for b in items[:i]:
            x.assume(x.not_(x.equal(a, b)))
    c = build(kind, items)
    if kind == "selectable" and items and x.flag("one selected"):
        c.selection.active = items[0]
    names = [*c.events] if kind != "selectable" else [*c.events, "selection"]
    name = x.choice("event", names)
    how = x.choice("how", ["deepcopy", *SHALLOW[kind][:1]])
    made = []
    hearer = Copies(made, lambda: clone(how, c), lambda d: x.check(
        "equal contents", same_items(x, kind, contents(d), contents(c))))
    (c.selection.events.items_changed if name == "selection" else c.events[name]).connect(
        hearer.listener)
    v = x.obj("v")
    op = x.choice("op", [*OPS[kind], *(["reverse each"] if kind in ("list", "selectable") else [])])
    outcome(lambda: c.reverse(emit_individual_events=True) if op == "reverse each"
            else mutate(x, c, op, v))
    if not made:
        return
    x.cover("copied by a callback")
    d = made[0]
    lis, lis2 = Listens(c), Listens(d)
    before = contents(c)
    r = build(kind, [w for _, w in contents(d)] if kind == "dict" else contents(d))
    if kind == "dict":
        r = EventedDict(dict(contents(d)))
    op2, w = x.choice("op2", OPS[kind]), x.obj("w")
    old = contents(d)
    lr = Listens(r)
    ra, rb = outcome(lambda: mutate(x, r, op2, w)), outcome(lambda: mutate(x, d, op2, w))
    x.check("same outcome as a fresh one", ra.kind == rb.kind)
    x.check("same contents as a fresh one", same_items(x, kind, contents(d), contents(r)))
    x.check("same notifications as a fresh one", same_log(
        x, kind, *[[e for e in g.drain() if e[0] not in ("active", "current")]
                   for g in (lis2, lr)]))
    x.check("the original is unchanged", x.same(contents(c), before) and not lis.log)
    sel = {"selection": d, "selectable": getattr(d, "selection", None)}.get(kind)
    if sel is not None and len(old) != len(contents(d)):
        x.check("active item of the copy",
                (sel.active is None) if len(sel) != 1 else sel.active == next(iter(sel)))
    if kind == "selectable":
        for i in old:
            if not any(i == j for j in d):
                x.check("removed items are deselected", not any(i == j for j in sel))


# explored also with None among the arbitrary objects
signal.nones = [{"attr": "sig", "how": "deepcopy", "n": 1, "k": 1}]
containers.nones = [{"kind": "list", "n": 2, "m": 1}]

HARNESSES = [signal, modes, groups, dataclasses, containers, children, models, within,
             while_changing]
