"""The Qt timer delivers thread-bound callbacks exactly while it is running."""
import importlib
import sys
import threading
import types

from psygnal import EmitLoopError, Signal, emit_queued

from checks import c08

from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "programs of 4 operations: start with any interval and timer type, stop, emissions "
    "of any values on another thread to 2 callbacks (bound to this thread or not), timeouts, for "
    "this thread and (as a label) another one; a callback that fails, emits, stops or restarts "
    "the timer",
    "thorough": "programs of 5 operations",
}
ASSUMPTIONS = [
    "QTimer is a stand-in with the documented behaviour of start, stop, isActive, setInterval, "
    "setTimerType and timeout; Qt's own event loop is not executed",
    "timers run on the thread that starts them",
]


def reset():
    c08.reset()


class Timeout:
    def __init__(self):
        self.slots = []

    def connect(self, f):
        self.slots.append(f)


class QTimer:
    made: list = []

    def __init__(self):
        self.timeout = Timeout()
        self.active = False
        self.interval = 0
        self.kind = "coarse"
        QTimer.made.append(self)

    def setTimerType(self, kind):  # noqa: N802
        self.kind = kind

    def timerType(self):  # noqa: N802
        return self.kind

    def isActive(self):  # noqa: N802
        return self.active

    def setInterval(self, msec):  # noqa: N802
        self.interval = msec

    def start(self, msec=None):
        if msec is not None:
            self.interval = msec
        self.active = True

    def stop(self):
        self.active = False


class TimerType:
    PreciseTimer = "precise"
    CoarseTimer = "coarse"
    VeryCoarseTimer = "very coarse"


def load():
    """psygnal.qt on the stand-in, as in a new process."""
    qtpy, core = types.ModuleType("qtpy"), types.ModuleType("qtpy.QtCore")
    qt = types.SimpleNamespace(TimerType=TimerType)
    core.Qt, core.QTimer = qt, QTimer
    qtpy.QtCore = core
    QTimer.made = []
    saved = {k: sys.modules.get(k) for k in ("qtpy", "qtpy.QtCore")}
    sys.modules["qtpy"], sys.modules["qtpy.QtCore"] = qtpy, core
    sys.modules.pop("psygnal.qt", None)
    try:
        return importlib.import_module("psygnal.qt")
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def elsewhere(f):
    t = threading.Thread(target=f)
    t.start()
    t.join()


class Emitter:
    s = Signal(object)


def drain():
    """(what an earlier path left behind)"""
    while True:
        try:
            return emit_queued()
        except EmitLoopError:
            pass


OTHER = threading.Thread(target=lambda: None)


@harness(
    configs=tiered([{"k": 4, "reaction": r} for r in ("none", "fail", "emit", "stop", "start")],
                   [{"k": 5, "reaction": r} for r in ("none", "fail", "emit", "stop", "start")]),
    must_cover=["delivered", "not running", "restarted", "stopped", "second timer"],
)
def program(x, k, reaction):
    c08.stub_message(True)
    drain()
    qt = load()
    e, ran, reacted = Emitter(), [], []

    def bound(v):
        ran.append(("bound", v, threading.current_thread() is main))
        if len(reacted) < 1 and reaction != "none":
            reacted.append(1)
            if reaction == "fail":
                raise ValueError("callback")
            if reaction == "emit":
                elsewhere(lambda: e.s.emit("again"))
            elif reaction == "stop":
                qt.stop_emitting_from_queue()
            else:
                qt.start_emitting_from_queue(7)

    def free(v):
        ran.append(("free", v))

    main = threading.current_thread()
    e.s.connect(bound, thread="current")
    e.s.connect(free)
    timers = {}  # thread -> [active, interval, type]
    queue = []
    for j in range(k):
        op = x.choice(f"op{j}", ["emit", "timeout", "start", "start other", "stop", "stop other"])
        del ran[:]
        if op == "emit":
            v = x.obj(f"v{j}")
            elsewhere(lambda v=v: e.s.emit(v))
            queue.append(v)
            x.check("only unbound callbacks run at once", len(ran) == 1 and ran[0][0] == "free"
                    and bool(ran[0][1] is v))
        elif op == "timeout":
            active = [t for t in QTimer.made if t.active]
            if not active:
                x.cover("not running")
                continue
            err = None
            timer = active[0]
            for slot in list(timer.timeout.slots):
                try:
                    slot()
                except EmitLoopError as ex:
                    err = ex
            got = [r for r in ran if r[0] == "bound"]
            if queue:
                x.cover("delivered")
            n = len(queue)
            first = len(reacted) == 1 and "reaction" not in timers and n > 0
            if first and reaction != "none":
                timers["reaction"] = True
                if reaction == "fail":
                    x.check("the failure is reported", isinstance(err, EmitLoopError))
                    n = len(got)  # (the others now, or at the next timeout)
                    x.check("the failing one ran", n >= 1)
                else:
                    x.check("no failure", err is None)
                if reaction == "emit":
                    queue.append("again")
                    n = len(got)
                    x.check("what was queued has run", n >= len(queue) - 1)
                if reaction == "stop" and main in timers:
                    timers[main][0] = False
                if reaction == "start":
                    timers[main] = [True, 7, "precise"]
            else:
                x.check("no failure", err is None)
            x.check("each queued call once", len(got) == n, info=(got, queue))
            for r, v in zip(got, queue):
                x.check("in order, on this thread", r[2] and x.is_(r[1], v))
            del queue[:len(got)]
        elif op.startswith("start"):
            t = main if op == "start" else OTHER
            ms = x.int(f"ms{j}", 0, None)
            kind = x.choice(f"type{j}", ["default", "coarse", "very coarse"])
            kw = {} if kind == "default" else {"timer_type": kind}
            if t is OTHER:
                kw["thread"] = OTHER
            qt.start_emitting_from_queue(ms, **kw)
            if t in timers and not timers[t][0]:
                x.cover("restarted")
            timers[t] = [True, ms, "precise" if kind == "default" else kind]
            if len([t for t in (main, OTHER) if t in timers]) == 2:
                x.cover("second timer")
        else:
            t = main if op == "stop" else OTHER
            qt.stop_emitting_from_queue(*(() if t is main else (OTHER,)))
            if t in timers:
                x.cover("stopped")
                timers[t][0] = False
        if op != "emit" and op != "timeout":
            x.check("nothing runs before a timeout", ran == [])
        known = [timers[t] for t in (main, OTHER) if t in timers]
        x.check("one timer for each thread", len(QTimer.made) == len(known))
        x.check("running exactly when started", sorted(t.active for t in QTimer.made)
                == sorted(t[0] for t in known), info=(timers, op))
        for t in QTimer.made:
            x.check("each drains the queue once", len(t.timeout.slots) == 1)
        for a, ms, kind in known:
            if a:
                x.check("with the interval and type given last", x.or_(*[
                    x.and_(t.active and t.kind == kind, x.equal(t.interval, ms))
                    for t in QTimer.made]))
    drain()


HARNESSES = [program]
