"""Delivery: every connected callback exactly once, by priority, then connection order.

The connect/disconnect/emit program is symbolic (operation codes are solver
variables), priorities are unbounded mathematical integers, payloads are opaque.
"""
from functools import partial

import toolz
from psygnal import Signal, SignalInstance

from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "4 connections with arbitrary integer priorities; programs of 4 "
    "connect/disconnect/reconnect operations over 3 callbacks, then one emission; "
    "2 callables of 13 kinds (and a function) with arbitrary priorities",
    "thorough": "5 connections; programs of 5 operations",
}
ASSUMPTIONS = [
    "callbacks do not raise, re-emit or (dis)connect (other properties cover those)",
    "single thread",
]


class Emitter:
    sig = Signal(object, int)


def make(kind):
    if kind == "bound":
        e = Emitter()
        make.keep = e
        return e.sig
    return SignalInstance((object, int))


HOWS = ["emit", "call", "emit_fast"]


def fire(sig, how, *args):
    if how == "emit":
        sig.emit(*args)
    elif how == "call":
        sig(*args)
    else:
        sig.emit_fast(*args)


def ordered(x, log, prio, seq):
    """log: ids as called; for each adjacent pair: higher priority, or equal and older."""
    return x.and_(
        *[
            x.or_(
                prio[a] > prio[b],
                x.and_(prio[a] == prio[b], seq[a] < seq[b]),
            )
            for a, b in zip(log, log[1:])
        ]
    )


@harness(
    configs=tiered(
        [{"n": 4, "how": h, "kind": k} for h in HOWS for k in ("bound", "free")],
        [{"n": 5, "how": h, "kind": "bound"} for h in HOWS],
    )
)
def priorities(x, n, how, kind):
    sig = make(kind)
    log = []
    prio = [x.int(f"p{i}") for i in range(n)]
    payload, k = x.obj("payload"), x.int("k")
    cbs = []
    for i in range(n):

        def cb(a, b, i=i):
            log.append((i, a, b))

        cbs.append(cb)
        sig.connect(cb, priority=prio[i])
    fire(sig, how, payload, k)
    ids = [c[0] for c in log]
    x.check("each exactly once", sorted(ids) == list(range(n)))
    x.check("priority order", ordered(x, ids, prio, range(n)))
    x.check(
        "arguments", x.and_(*[x.and_(x.is_(a, payload), b == k) for _, a, b in log])
    )
    # a second emission behaves identically
    del log[:]
    fire(sig, how, payload, k)
    x.check("same order again", [c[0] for c in log] == ids)


@harness(
    configs=tiered(
        [{"steps": 4, "how": h} for h in HOWS], [{"steps": 5, "how": h} for h in HOWS]
    ),
    must_cover=["reconnected", "disconnected"],
)
def program(x, steps, how):
    """Arbitrary connect (w/ or w/o priority, duplicates allowed)/disconnect program."""
    sig = make("bound")
    log = []
    cbs = []
    for i in range(3):

        def cb(a, b, i=i):
            log.append((i, a, b))

        cbs.append(cb)
    live = []  # (connection number, callback, priority)
    prio, who, calls = {}, {}, 0
    for s in range(steps):
        op = x.choice(f"op{s}", ["connect", "connect_prio", "disconnect"])
        c = x.choice(f"cb{s}", range(3))
        if op == "disconnect":
            # order of removal among duplicates is not specified: only remove when
            # there is at most one connection of this callback
            mine = [e for e in live if e[1] == c]
            if len(mine) > 1:
                x.assume(False)
            sig.disconnect(cbs[c])
            if mine:
                live.remove(mine[0])
                x.cover("disconnected")
        else:
            if any(e[1] == c for e in live):
                x.cover("reconnected")
            p = x.int(f"p{s}") if op == "connect_prio" else 0
            if op == "connect_prio":
                sig.connect(cbs[c], priority=p)
            else:
                sig.connect(cbs[c])
            live.append((s, c, p))
    x.check("len", len(sig) == len(live))
    payload, k = x.obj("payload"), x.int("k")
    fire(sig, how, payload, k)
    got = [e[0] for e in log]
    x.check("multiset", sorted(got) == sorted(e[1] for e in live))
    # expected order: stable sort by descending priority (rank computed symbolically)
    ok = []
    for e in live:
        rank = 0
        for f in live:
            if f is not e:
                before = x.or_(
                    f[2] > e[2], x.and_(f[2] == e[2], f[0] < e[0])
                )
                rank = rank + x.ite(before, 1, 0)
        # the callback at position `rank` must be e's callback
        ok.append(
            x.and_(
                *[
                    x.implies(rank == pos, got[pos] == e[1])
                    for pos in range(len(got))
                ]
            )
        )
    x.check("order", x.and_(*ok))
    x.check(
        "arguments", x.and_(*[x.and_(x.is_(a, payload), b == k) for _, a, b in log])
    )


# explored also with None among the arbitrary objects
priorities.nones = [
    {"n": 2, "how": "emit", "kind": "bound"},
    {"n": 2, "how": "emit_fast", "kind": "bound"},
]


class Owner:
    """An object whose methods and setters all report to a log."""

    def __init__(self, log):
        self.__dict__.update(log=log, x0=None, x1=None)

    def method(self, i, *args):
        self.log.append((i, args))

    def __setattr__(self, name, value):
        self.log.append((int(name[1:]), value))

    def __setitem__(self, key, value):
        self.log.append((key, value))


class Called(Owner):
    def __init__(self, log, i):
        super().__init__(log)
        self.__dict__["i"] = i

    def on(self, *args):
        self.log.append((self.i, args))

    __call__ = on


CALLABLES = ["function", "method", "object", "partial", "object partial", "curry", "setattr",
             "setitem", "partial setattr", "partial setitem", "thread", "thread partial", "signal"]


def attach(sig, kind, i, owner, log, keep, priority):
    called = Called(log, i)
    keep.append(called)
    if kind == "setattr":
        sig.connect_setattr(owner, f"x{i}", priority=priority)
    elif kind == "setitem":
        sig.connect_setitem(owner, i, priority=priority)
    elif kind == "signal":
        relay = SignalInstance((object, int))
        relay.connect(called.on)
        keep.append(relay)
        sig.connect(relay.emit, priority=priority)
    else:
        cb = {
            "function": lambda: lambda *a: log.append((i, a)),
            "method": lambda: called.on,
            "object": lambda: called,
            "partial": lambda: partial(owner.method, i),
            "object partial": lambda: partial(called),
            "curry": lambda: toolz.curry(owner.method, i),
            "partial setattr": lambda: partial(setattr, owner, f"x{i}"),
            "partial setitem": lambda: partial(owner.__setitem__, i),
            "thread": lambda: called.on,
            "thread partial": lambda: partial(called.on),
        }[kind]()
        kw = {"thread": "current"} if kind.startswith("thread") else {}
        if kind in ("curry", "partial setattr", "partial setitem"):
            kw["check_nargs"] = False
        sig.connect(cb, priority=priority, **kw)


@harness(configs=tiered(
    [{"first": k, "second": s} for k in CALLABLES for s in ("function", "method", k)],
    [{"first": k, "second": s} for k in CALLABLES for s in CALLABLES],
))
def callables(x, first, second):
    """Priorities of callables of any kind."""
    sig = SignalInstance((object, int))
    log, keep = [], []
    owner = Owner(log)
    prio = [x.int(f"p{i}") for i in range(3)]
    payload, k = x.obj("payload"), x.int("k")
    for i, kind in enumerate([first, second, "function"]):
        attach(sig, kind, i, owner, log, keep, prio[i])
    for how in ("emit", "emit_fast"):
        del log[:]
        fire(sig, how, payload, k)
        ids = [c[0] for c in log]
        x.check("each exactly once", sorted(ids) == [0, 1, 2])
        x.check("priority order", ordered(x, ids, prio, range(3)))
        for _, args in log:
            x.check("arguments", x.and_(len(args) == 2, x.is_(args[0], payload), args[1] == k))


HARNESSES = [priorities, program, callables]
