"""Concurrent use of one signal: every schedule with a bounded number of preemptions.

Real threads run the real code under a deterministic scheduler; the points at which a
thread is preempted (any source line of psygnal, any callback) and who runs next are
solver variables.
"""
from symx import sched

sched.patch()

from psygnal import EmitLoopError, Signal, SignalGroup, SignalInstance  # noqa: E402

from symx.ctx import harness, tiered  # noqa: E402

from checks import c08  # noqa: E402
from checks._prog import MODES, Boom  # noqa: E402

BOUNDS = {
    "quick": "2 threads with up to 2 preemptions or 3 threads with 1, at any line of psygnal "
    "or in any callback, plus any switch when a thread blocks or ends; 1-2 operations per "
    "thread (emit, failing emit, connect, disconnect) on signals with 2-3 callbacks, all "
    "re-emission modes; `slot in signal` during a connect, disconnect or emission; "
    "concurrent emissions of two group members",
    "thorough": "2 threads with up to 3 preemptions, 3 threads with 2",
}
ASSUMPTIONS = [
    "threads are switched between source lines (and when they block)",
    "emit() is used (emit_fast documents that it takes no locks)",
    "callbacks do not wait for other threads",
]


def reset():
    c08.reset()
    c08.stub_message(True)
    sched.ACTIVE = None


def run(x, fns, preempt):
    s = sched.Scheduler(x, len(fns), preempt)
    s.run(fns)
    x.check("no deadlock", not s.deadlock)
    for a in s.actors:
        x.check(f"thread {a.i} raises nothing", a.exc is None, info=a.exc)
    x.check("nothing is being emitted", Signal.current_emitter() is None)
    return s


def contiguous(log):
    """(callback, emission) pairs: emissions are not interleaved"""
    seen = []
    for _, e in log:
        if not seen or seen[-1] != e:
            seen.append(e)
    return len(seen) == len(set(seen))


def make_signal(mode, n, log):
    o = type("O", (), {"s": Signal(int, reemission=mode)})()
    s = o.s
    emitters = []

    def mk(k):
        def cb(e):
            if sched.ACTIVE:
                sched.ACTIVE.point()
            log.append((k, e))
            emitters.append(Signal.current_emitter() is s)

        return cb

    return o, s, [mk(k) for k in range(n)], emitters


@harness(
    configs=tiered(
        [{"mode": m, "threads": 2, "per": 1, "preempt": 2} for m in MODES]
        + [{"mode": m, "threads": 2, "per": 2, "preempt": 1} for m in MODES]
        + [{"mode": m, "threads": 3, "per": 1, "preempt": 1} for m in MODES],
        [{"mode": m, "threads": 2, "per": 1, "preempt": 3} for m in MODES]
        + [{"mode": m, "threads": 2, "per": 2, "preempt": 2} for m in MODES]
        + [{"mode": m, "threads": 3, "per": 1, "preempt": 2} for m in MODES],
    )
)
def emit_emit(x, mode, threads, per, preempt):
    log = []
    o, s, cbs, emitters = make_signal(mode, 2, log)
    for c in cbs:
        s.connect(c)

    def body(t):
        def f():
            for j in range(per):
                s.emit(t * 10 + j)

        return f

    run(x, [body(t) for t in range(threads)], preempt)
    want = [(k, t * 10 + j) for t in range(threads) for j in range(per) for k in (0, 1)]
    x.check("each emission reaches each callback once", sorted(log) == sorted(want), info=log)
    x.check("not interleaved", contiguous(log), info=log)
    x.check("in order", all(log[i][0] == i % 2 for i in range(len(log))))
    x.check("program order", all(
        [e for k, e in log if k == 0 and e // 10 == t] == [t * 10 + j for j in range(per)]
        for t in range(threads)))
    x.check("emitter", all(emitters))


@harness(
    configs=tiered(
        [{"mode": m, "preempt": 2} for m in MODES], [{"mode": m, "preempt": 3} for m in MODES]
    ),
    must_cover=["failed"],
)
def emit_fail(x, mode, preempt):
    """A failing emission in one thread does not disturb the other thread's."""
    log = []
    o, s, cbs, emitters = make_signal(mode, 2, log)
    s.connect(cbs[0])

    def bad(e):
        if e == 0:
            raise Boom

    s.connect(bad)
    s.connect(cbs[1])
    errs = []

    def a():
        try:
            s.emit(0)
        except EmitLoopError as e:
            errs.append(e)

    def b():
        s.emit(10)

    run(x, [a, b], preempt)
    x.cover("failed")
    x.check("failure reported in its thread", len(errs) == 1 and isinstance(errs[0].__cause__, Boom))
    x.check("calls", sorted(log) == [(0, 0), (0, 10), (1, 10)], info=log)
    x.check("not interleaved", contiguous(log))
    del log[:]
    s.emit(20)
    x.check("usable", log == [(0, 20), (1, 20)])


@harness(
    configs=tiered(
        [{"op": o, "mode": m, "preempt": 1 if o == "connect" else 2}
         for o in ("connect", "disconnect", "clear") for m in MODES[:1]]
        + [{"op": o, "mode": m, "preempt": 1} for o in ("connect", "disconnect") for m in MODES[1:]],
        [{"op": o, "mode": m, "preempt": 2} for o in ("connect", "disconnect", "clear") for m in MODES],
    )
)
def emit_change(x, op, mode, preempt):
    """Connecting or disconnecting while another thread emits."""
    log = []
    o, s, cbs, emitters = make_signal(mode, 4, log)
    for c in cbs[:3]:
        s.connect(c)
    prio = x.pick("prio", -1, 1) if op == "connect" else 0

    def a():
        s.emit(0)

    def b():
        if op == "connect":
            s.connect(cbs[3], priority=prio)
        elif op == "disconnect":
            s.disconnect(cbs[1])
        else:
            s.disconnect()

    run(x, [a, b], preempt)
    if op == "clear":
        x.check("each at most once, in order", log == sorted(set(log)), info=log)
        live = []
    elif op == "connect":
        base = [c for c in log if c[0] != 3]
        x.check("connected callbacks", base == [(0, 0), (1, 0), (2, 0)], info=log)
        x.check("new callback at most once", len(log) <= 4)
        live = [3, 0, 1, 2] if prio > 0 else [0, 1, 2, 3]
    else:
        base = [c for c in log if c[0] != 1]
        x.check("connected callbacks", base == [(0, 0), (2, 0)], info=log)
        x.check("removed callback at most once", len(log) <= 3)
        live = [0, 2]
    x.check("length", len(s) == len(live))
    del log[:]
    s.emit(1)
    x.check("afterwards", log == [(k, 1) for k in live], info=log)


OPS = ["connect", "connect hi", "unique", "disconnect", "must disconnect", "clear"]
SETS = ["setattr", "setitem", "disconnect setattr", "disconnect setitem"]


def recorder(log, k):
    class Rec:
        @property
        def v(self):
            return 0

        @v.setter
        def v(self, val):
            log.append((k, val))

        def __setitem__(self, key, val):
            log.append((k, val))

    return Rec()


@harness(
    configs=tiered(
        [{"a": a, "b": b, "preempt": 1, "prio": False} for i, a in enumerate(OPS) for b in OPS[i:]]
        + [{"a": a, "b": b, "preempt": 1, "prio": True}
           for a in ("connect", *SETS) for b in ("connect hi", "disconnect", "clear")]
        + [{"a": a, "b": a, "preempt": 1, "prio": True} for a in SETS],
        [{"a": a, "b": b, "preempt": 2, "prio": p} for p in (False, True)
         for i, a in enumerate(OPS + SETS) for b in (OPS + SETS)[i:]],
    )
)
def changes(x, a, b, preempt, prio):
    """Two threads change the connections at once: some sequential order explains it."""
    log = []
    o, s, cbs, emitters = make_signal("immediate", 4, log)
    start = [(0, 2), (1, -1)] if prio else [(0, 0), (1, 0)]
    recs = [recorder(log, 2), recorder(log, 3)]
    old = recorder(log, 4)
    for k, p in start:
        s.connect(cbs[k], priority=p)
    if a.startswith("disconnect set") or b.startswith("disconnect set"):
        s.connect_setattr(old, "v", maxargs=1)
        s.connect_setitem(old, "k", maxargs=1)
        start = [start[0], (4, 0), (4, 0), *start[1:]] if prio else [*start, (4, 0), (4, 0)]
    errs = {}

    def act(i, op):
        def f():
            own = cbs[2 + i]
            try:
                if op == "connect":
                    s.connect(own)
                elif op == "connect hi":
                    s.connect(own, priority=i + 1)
                elif op == "setattr":
                    s.connect_setattr(recs[i], "v", maxargs=1)
                elif op == "setitem":
                    s.connect_setitem(recs[i], "k", maxargs=1)
                elif op == "disconnect setattr":
                    s.disconnect_setattr(old, "v", missing_ok=False)
                elif op == "disconnect setitem":
                    s.disconnect_setitem(old, "k", missing_ok=False)
                elif op == "unique":
                    s.connect(cbs[2], unique=True)
                elif op == "disconnect":
                    s.disconnect(cbs[0])
                elif op == "must disconnect":
                    s.disconnect(cbs[0], missing_ok=False)
                else:
                    s.disconnect()
            except ValueError:
                errs[i] = True

        return f

    run(x, [act(0, a), act(1, b)], preempt)

    def sequential(order):
        conns, err = list(start), set()
        gone = set()

        def add(c):
            for j, q in enumerate(conns):
                if q[1] < c[1]:
                    return conns.insert(j, c)
            conns.append(c)

        for i, op in order:
            own = 2 + i
            if op in ("connect", "setattr", "setitem"):
                add((own, 0))
            elif op == "connect hi":
                add((own, i + 1))
            elif op == "unique":
                if not any(c[0] == 2 for c in conns):
                    add((2, 0))
            elif op in ("disconnect", "must disconnect"):
                mine = [c for c in conns if c[0] == 0]
                if mine:
                    conns.remove(mine[0])
                elif op == "must disconnect":
                    err.add(i)
            elif op in ("disconnect setattr", "disconnect setitem"):
                if op in gone or (4, 0) not in conns:
                    err.add(i)
                else:
                    gone.add(op)
                    conns.remove((4, 0))
            else:
                conns = []
        return [c[0] for c in conns], err

    allowed = [sequential(o) for o in ([(0, a), (1, b)], [(1, b), (0, a)])]
    s.emit(0)
    got = ([k for k, _ in log], set(errs))
    x.check("explained by a sequential order", got in allowed, info=(got, allowed))
    x.check("length", len(s) == len(log))


@harness(
    configs=tiered(
        [{"op": o, "preempt": 1} for o in ("connect", "connect hi", "disconnect", "clear")],
        [{"op": o, "preempt": 2} for o in ("connect", "connect hi", "disconnect", "clear")],
    )
)
def queries(x, op, preempt):
    """Asking for a connection while another thread changes other ones."""
    log = []
    o, s, cbs, emitters = make_signal("immediate", 4, log)
    for c in cbs[:3]:
        s.connect(c)
    k = x.choice("asked", [0, 1, 2, 3])
    got = []

    def a():
        got.append(cbs[k] in s)

    def b():
        if op == "connect":
            s.connect(cbs[3])
        elif op == "connect hi":
            s.connect(cbs[3], priority=1)
        elif op == "disconnect":
            s.disconnect(cbs[0])
        else:
            s.disconnect()

    run(x, [a, b], preempt)
    changed = {"connect": [3], "connect hi": [3], "disconnect": [0], "clear": [0, 1, 2]}[op]
    x.check("answered", len(got) == 1)
    if k not in changed:
        x.check("answer", got[0] == (k < 3), info=(k, op, got))


class G(SignalGroup):
    a = Signal(int)
    b = Signal(int)


@harness(
    configs=tiered([{"preempt": 1}], [{"preempt": 2}])
)
def group(x, preempt):
    """Two members emitted at once: the group sees both, each from its own member."""
    g = G()
    log, mlog, ok = [], [], []

    def on(info):
        if sched.ACTIVE:
            sched.ACTIVE.point()
        log.append((info.signal.name, info.args))

    def member(name):
        def cb(v):
            if sched.ACTIVE:
                sched.ACTIVE.point()
            mlog.append((name, v))
            ok.append(Signal.current_emitter() is g[name])

        return cb

    first = x.flag("members first")
    if not first:
        g.connect(on)
    g.a.connect(member("a"))
    g.b.connect(member("b"))
    if first:
        g.connect(on)
    run(x, [lambda: g.a.emit(1), lambda: g.b.emit(2)], preempt)
    x.check("relayed once each", sorted(log) == [("a", (1,)), ("b", (2,))], info=log)
    x.check("members", sorted(mlog) == [("a", 1), ("b", 2)])
    x.check("current emitter of the thread", all(ok))


HARNESSES = [queries, emit_emit, emit_fail, emit_change, changes, group]
