"""Thread-bound callbacks: queues and drains under every bounded schedule.

Real threads run the real code under a deterministic scheduler with symbolic
preemption points (see symx/sched.py).
"""
import threading

from symx import sched

sched.patch()

import psygnal._queue as _q  # noqa: E402
from psygnal import EmitLoopError, Signal, SignalInstance, emit_queued  # noqa: E402

from symx.ctx import harness, tiered  # noqa: E402

from checks import c08  # noqa: E402
from checks._prog import Boom  # noqa: E402

BOUNDS = {
    "quick": "2-3 threads (the main thread among them), 3 callbacks each bound to no thread "
    "or to any of the threads, 1-2 emissions per thread, drains at arbitrary moments; up "
    "to 2 preemptions at any line of the queue and the callbacks' wrappers or in any "
    "callback, or (2 threads) 1 at any line of the signal; failing, re-emitting and "
    "draining queued callbacks",
    "thorough": "up to 3 preemptions at any line of the queue, 2 of the signal",
}
ASSUMPTIONS = [
    "each thread drains its own queue, from one place at a time",
    "threads are switched between source lines (and when they block)",
]


def reset():
    c08.reset()
    c08.stub_message(True)
    sched.ACTIVE = None
    _q.QueuedCallback._GLOBAL_QUEUE.clear()


ALL = ("_signal.py", "_queue.py", "_weak_callback.py")
QUEUE = ("_queue.py", "_weak_callback.py")


class Run:
    """Schedule of actors in two phases: work (concurrent), then a last drain each."""

    def __init__(self, x, n, preempt, files=ALL):
        self.x, self.n = x, n
        self.s = sched.Scheduler(x, n, preempt, files)
        self.threads = [a.thread for a in self.s.actors]
        self.finished = [False] * n
        self.log = []  # (callback, emission, thread index)
        self.inside = [None] * n  # emission being made by each thread

    def me(self):
        return self.threads.index(threading.current_thread())

    def go(self, works, drains=2):
        def body(i):
            def f():
                try:
                    works[i]()
                finally:
                    self.finished[i] = True
                self.s.block(lambda: all(self.finished) and self.turn % self.n == i)
                self.s.frozen += 1
                for _ in range(drains):
                    # in turns: a drain may queue calls for another thread
                    self.s.block(lambda: self.turn % self.n == i)
                    self.drain(i)
                    self.turn += 1
                self.s.frozen -= 1

            return f

        self.turn = 0
        self.errors = [[] for _ in range(self.n)]
        self.s.run([body(i) for i in range(self.n)])
        self.x.check("no deadlock", not self.s.deadlock)
        for a in self.s.actors:
            self.x.check(f"thread {a.i} raises nothing", a.exc is None, info=repr(a.exc))

    def drain(self, i):
        try:
            emit_queued()
        except EmitLoopError as e:
            self.errors[i].append(e)


def target(run, t):
    """thread= argument"""
    if t is None:
        return None
    return "main" if t == 0 else run.threads[t]


@harness(
    configs=tiered(
        [{"n": 2, "per": 1, "preempt": 2, "bind": b, "files": QUEUE} for b in ((0, 1), (1, 1), (1, None))]
        + [{"n": 2, "per": 2, "preempt": 1, "bind": b} for b in ((0, 1), (1, 1), (1, None))]
        + [{"n": 3, "per": 1, "preempt": 1, "bind": b, "files": QUEUE} for b in ((0, 2), (1, 1), (2, None))],
        [{"n": 2, "per": 1, "preempt": 3, "bind": b, "files": QUEUE} for b in ((0, 1), (1, 1), (1, None))]
        + [{"n": 2, "per": 1, "preempt": 2, "bind": b} for b in ((0, 1), (1, 1), (1, None))]
        + [{"n": 2, "per": 2, "preempt": 2, "bind": b} for b in ((0, 1), (1, 1), (0, None))]
        + [{"n": 3, "per": 1, "preempt": 2, "bind": b} for b in ((0, 2), (1, 1), (2, None))],
    ),
    must_cover=["queued", "immediate"],
)
def threads(x, n, per, preempt, bind, files=ALL):
    r = Run(x, n, preempt, files)
    s = SignalInstance((int,), name="s")

    def mk(k):
        def cb(e):
            i = r.me()
            r.s.point()
            r.log.append((k, e, i, r.inside[i] == e))

        return cb

    # the direct callback comes first and gives the order of the emissions
    s.connect(mk("direct"))
    bound = {}
    cbs = [mk(k) for k in range(len(bind))]
    for k, t in enumerate(bind):
        s.connect(cbs[k], thread=target(r, t))
        bound[k] = t
    x.check("connections are thread independent", all(c in s for c in cbs) and len(s) == 1 + len(bind))
    drain_after = [x.pick(f"drain{i}", 0, 1) for i in range(n)]

    def work(i):
        def f():
            for j in range(per):
                e = i * 10 + j
                r.inside[i] = e
                s.emit(e)
                r.inside[i] = None
            if drain_after[i]:
                r.drain(i)

        return f

    r.go([work(i) for i in range(n)])
    emissions = [e for k, e, _, _ in r.log if k == "direct"]
    x.check("all emitted", sorted(emissions) == [i * 10 + j for i in range(n) for j in range(per)])
    for k, t in bound.items():
        calls = [(e, i, now) for kk, e, i, now in r.log if kk == k]
        x.check("exactly once", sorted(e for e, _, _ in calls) == sorted(emissions), info=r.log)
        if t is None:
            x.check("unbound callbacks run in the emitting thread",
                    all(i == e // 10 and now for e, i, now in calls))
            continue
        x.check("only on its thread", all(i == t for _, i, _ in calls), info=r.log)
        x.check("at once when emitted there", all(now for e, i, now in calls if e // 10 == t))
        queued = [e for e, _, now in calls if not now]
        x.check("queued otherwise", all(e // 10 != t for e in queued))
        x.check("in the order queued", queued == [e for e in emissions if e // 10 != t],
                info=(r.log, emissions))
        x.cover("queued")
        if any(e // 10 == t for e in emissions):
            x.cover("immediate")


@harness(
    configs=tiered(
        [{"preempt": 1, "what": w} for w in ("raise", "emit", "drain", "disconnect")],
        [{"preempt": 2, "what": w} for w in ("raise", "emit", "drain", "disconnect")],
    ),
    must_cover=["acted"],
)
def acting(x, preempt, what):
    """Queued callbacks that raise, emit, drain or disconnect."""
    r = Run(x, 2, preempt)
    s = SignalInstance((int,), name="s")
    s2 = SignalInstance((int,), name="s2")
    who = x.pick("who", 0, 2)  # emission at which the callback acts
    extra = []

    def first(e):
        r.log.append(("f", e, r.me()))
        if e == who and not extra:
            extra.append(e)
            x.cover("acted")
            if what == "raise":
                raise Boom(e)
            if what == "emit":
                s2.emit(100)
                s.emit(100)
            elif what == "drain":
                emit_queued()
            else:
                s.disconnect(second)

    def second(e):
        r.log.append(("s", e, r.me()))

    def other(e):
        r.log.append(("o", e, r.me()))

    s.connect(first, thread=r.threads[0] if x.flag("by name") is False else "main")
    s.connect(second, thread=r.threads[0])
    s.connect(other, thread=r.threads[1])
    s2.connect(other, thread=r.threads[1])

    def emitter():
        for e in range(3):
            s.emit(e)

    def drainer():
        if x.flag("early"):
            r.drain(0)

    r.go([drainer, emitter], drains=3)
    f = [(e, i) for k, e, i in r.log if k == "f"]
    sec = [(e, i) for k, e, i in r.log if k == "s"]
    o = [(e, i) for k, e, i in r.log if k == "o"]
    base = [0, 1, 2]
    x.check("only on its thread", all(i == 0 for _, i in f + sec) and all(i == 1 for _, i in o))
    if what == "emit":
        x.check("first", sorted(e for e, _ in f) == [0, 1, 2, 100], info=r.log)
        x.check("second", sorted(e for e, _ in sec) == [0, 1, 2, 100], info=r.log)
        x.check("other", sorted(e for e, _ in o) == [0, 1, 2, 100, 100], info=r.log)
    else:
        x.check("first: once, in order", [e for e, _ in f] == base, info=r.log)
        x.check("other: once, in order", [e for e, _ in o] == base)
        if what == "disconnect":
            x.check("second", [e for e, _ in sec] == sorted({e for e, _ in sec}))
        elif what == "drain":
            x.check("second: once", sorted(e for e, _ in sec) == base, info=r.log)
        else:
            x.check("second: once, in order", [e for e, _ in sec] == base, info=r.log)
    if what == "raise":
        errs = r.errors[0]
        x.check("reported by the drain", len(errs) == 1 and type(errs[0].__cause__) is Boom,
                info=r.errors)
    else:
        x.check("no error", r.errors[0] == [])
    x.check("no error elsewhere", r.errors[1] == [])


@harness(configs=tiered([{"preempt": 2}], [{"preempt": 3}]))
def current(x, preempt):
    """thread='current' binds to the connecting thread; queued calls survive a disconnect
    of other callbacks and respect max_args."""
    r = Run(x, 2, preempt)
    s = SignalInstance((int, int), name="s")
    connected = []

    def cb(a):
        r.log.append((a, r.me()))

    def connector():
        s.connect(cb, thread="current", max_args=1)
        connected.append(True)
        r.s.block(lambda: len(done) == 1)

    done = []

    def emitter():
        r.s.block(lambda: bool(connected))
        s.emit(1, 2)
        s.emit(3, 4)
        done.append(1)

    which = x.pick("connector", 0, 1)
    works = [connector, emitter] if which == 0 else [emitter, connector]
    r.go(works)
    x.check("delivered there", r.log == [(1, which), (3, which)], info=r.log)


HARNESSES = [threads, acting, current]
