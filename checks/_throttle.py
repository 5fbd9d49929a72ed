"""Shared by C15 and C16: programs of calls, cancels and flushes at symbolic instants."""
from __future__ import annotations

from checks._clock import Clock, patch

patch()

from psygnal import SignalInstance, debounced, throttled  # noqa: E402
from psygnal._throttler import Debouncer, Throttler  # noqa: E402


class Model:
    """What the statement says, as a machine over (pending call, end of the wait)."""

    def __init__(self, kind, leading, interval, x):
        self.kind, self.leading, self.iv, self.x = kind, leading, interval, x
        self.pending = None
        self.end = None
        self.log = []

    def invoke(self, now):
        self.log.append((now, self.pending))
        self.pending = None
        self.end = now + self.iv

    def call(self, now, args):
        self.pending = args
        if self.end is None and self.leading:
            self.invoke(now)
        elif self.end is None or self.kind == "debounce":
            self.end = now + self.iv

    def cancel(self):
        self.pending = self.end = None

    def flush(self, now):
        if self.pending is not None:
            self.invoke(now)

    def timer(self):
        if self.pending is not None:
            self.invoke(self.end)
        else:
            self.end = None

    def advance(self, until, tie):
        while self.end is not None and (self.end <= until if tie else self.end < until):
            self.timer()

    def settle(self):
        while self.end is not None:
            self.timer()


def build(kind, leading, interval, how, fn):
    if how == "direct":
        f = (throttled if kind == "throttle" else debounced)(
            fn, timeout=interval, leading=leading
        )
    elif how == "deco":
        f = (throttled if kind == "throttle" else debounced)(
            timeout=interval, leading=leading
        )(fn)
    elif how == "default":  # default policy and timeout
        f = (throttled if kind == "throttle" else debounced)(fn)
    else:
        cls = Throttler if kind == "throttle" else Debouncer
        f = cls(fn, interval, "leading" if leading else "trailing")
    return f


def program(x, kind, leading, n, how, ops, twice=False):
    Clock.reset(x)
    iv = 100 if how == "default" else 1 if how == "deco" else 250
    log = []

    def fn(*a, **k):
        log.append((Clock.now, (a, tuple(k.items()))))

    f = build(kind, leading, iv, how, fn)
    m = Model(kind, leading, iv, x)
    other = None
    if twice:  # a second one must not interfere
        log2 = []
        other = build(kind, leading, iv, how, lambda *a: log2.append((Clock.now, a)))
    for i in range(n):
        gap = x.int(f"gap{i}", 0, None)
        tie = x.flag(f"tie{i}")
        Clock.advance(gap, tie)
        m.advance(Clock.now, tie)
        op = x.choice(f"op{i}", ops)
        if op == "call":
            a = x.obj(f"a{i}")
            forms = {"direct": [1, 3], "class": [0, 3], "deco": [0, 1, 2, 3]}.get(how, [0, 1])
            args, kw = [((a, i), {}), ((a,), {"k": i}), ((), {"k": i}), ((), {})][
                x.choice(f"form{i}", forms)]
            r = f(*args, **kw)
            m.call(Clock.now, (args, tuple(kw.items())))
        elif op == "cancel":
            r = f.cancel()
            if m.pending is not None:
                x.cover("cancel of a pending call")
            m.cancel()
        else:
            r = f.flush()
            if m.pending is not None:
                x.cover("flush of a pending call")
            m.flush(Clock.now)
        x.check("returns None", r is None)
        x.check("invoked when due", x.same(log, m.log), info=(log, m.log))
        if other is not None and op == "call":
            other(i)
    x.check("timers end", Clock.settle())
    m.settle()
    x.check("invocations: instants and arguments", x.same(log, m.log), info=(log, m.log))
    if len(m.log) > 1:
        x.cover("several invocations")
    if Clock.fired > 1:
        x.cover("timers fired")


def through_signal(x, kind, leading):
    """Connected to a signal, which passes as many arguments as the function accepts."""
    Clock.reset(x)
    log = []
    s = SignalInstance((int, int, int), name="s")

    def fn(a, b):
        log.append((Clock.now, a, b))

    f = build(kind, leading, 100, "direct", fn)
    s.connect(f)
    m = Model(kind, leading, 100, x)
    for i in range(3):
        gap = x.int(f"gap{i}", 0, None)
        Clock.advance(gap, True)
        m.advance(Clock.now, True)
        a, b, c = x.int(f"a{i}"), x.int(f"b{i}"), x.int(f"c{i}")
        s.emit(a, b, c)
        m.call(Clock.now, (a, b))
    x.check("timers end", Clock.settle())
    m.settle()
    x.check("delivered", x.same(log, [(t, *a) for t, a in m.log]), info=(log, m.log))
    x.check("metadata", f.__name__ == "fn" and f.__wrapped__ is fn)


def failing(x, kind, leading):
    """The function raises: from the call or the flush it propagates."""
    Clock.reset(x)
    log = []

    class Boom(Exception):
        pass

    def fn(a):
        log.append((Clock.now, a))
        if a == 0:
            raise Boom

    f = build(kind, leading, 100, "direct", fn)
    raised = False
    try:
        f(0)
        f.flush()
    except Boom:
        raised = True
    x.check("propagates", raised and log == [(0, 0)], info=log)
    # it is not tried again, and later calls are served
    x.check("timers end", Clock.settle())
    x.check("not repeated", log == [(0, 0)], info=log)
    Clock.advance(x.int("gap", 0, None), True)
    t = Clock.now
    f(1)
    x.check("timers end", Clock.settle())
    x.check("later calls are served", x.same(log[1:], [(t if leading else t + 100, 1)]), info=log)
