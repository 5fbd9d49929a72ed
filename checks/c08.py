"""Failing callbacks: which callback fails, when, how deep and in which mode is symbolic."""
import sys

import psygnal._exceptions as _exc
from psygnal import EmitLoopError, Signal, SignalInstance

from symx.ctx import harness, tiered

from checks._prog import MODES, Boom, Entry, Program, make_signals

BOUNDS = {
    "quick": "1-2 signals (all mode pairs), 2 callbacks each, up to 3 actions (emit, "
    "guarded emit, raise) in any arrangement, followed by a plain emission; endless "
    "recursion in each mode; the error message is built once per mode",
    "thorough": "up to 4 actions",
}
ASSUMPTIONS = [
    "the text of the EmitLoopError message is stubbed except in the harness 'message'",
    "single thread",
]

_real_msg = getattr(_exc, "_build_psygnal_exception_msg", None)


def _stub(*a, **k):
    return "stub"


def stub_message(on):
    if _real_msg is not None:
        _exc._build_psygnal_exception_msg = _stub if on else _real_msg


def reset():
    stub_message(False)


def check_root(x, p, real, model, label):
    x.check(f"{label}: sequence of invocations", p.log == p.m_log, info=(p.log, p.m_log))
    if model is None:
        x.check(f"{label}: no error", real is None)
    else:
        x.cover("failed")
        x.check(f"{label}: EmitLoopError", type(real) is EmitLoopError)
        x.check(f"{label}: cause", real is not None and real.__cause__ is model.exc)
    x.check(f"{label}: nothing current", Signal.current_emitter() is None)
    x.check(f"{label}: no sender", Signal.sender() is None)


@harness(
    configs=tiered(
        [{"mode": m, "ncb": 3, "budget": 3} for m in MODES],
        [{"mode": m, "ncb": 3, "budget": 4} for m in MODES],
    ),
    must_cover=["failed"],
)
def single(x, mode, ncb, budget):
    stub_message(True)
    sigs, owners = make_signals([mode])
    acts = [("emit", 0), ("raise",)]
    if mode != "latest-only":
        acts.append(("try_emit", 0))
    p = Program(x, sigs, [mode], ncb, lambda s, k: acts, budget, owners, max_per_call=2)
    p.connect_all()
    p.model_start([[Entry(0, k) for k in range(ncb)]])
    real, model = p.root(0, "first")
    check_root(x, p, real, model, "first")
    p.budget = p.used
    for again in ("second", "third"):
        real, model = p.root(0, again)
        check_root(x, p, real, model, again)
        x.check(
            f"{again} complete",
            p.log[-ncb:] == [(0, k, p.eid - 1) for k in range(ncb)],
        )
    x.check("payload", x.and_(*p.payload_conds))
    x.check("still connected", len(sigs[0]) == ncb)


@harness(
    configs=tiered(
        [{"modes": [a, b], "budget": 3} for a in MODES for b in MODES],
        [{"modes": [a, b], "budget": 4} for a in MODES for b in MODES],
    ),
    must_cover=["failed"],
)
def two(x, modes, budget):
    stub_message(True)
    sigs, owners = make_signals(modes)

    def acts(s, k):
        r = [("emit", 0), ("emit", 1), ("raise",)]
        for j in (0, 1):
            if modes[j] != "latest-only":
                r.append(("try_emit", j))
        return r

    p = Program(x, sigs, modes, 2, acts, budget, owners)
    p.connect_all()
    p.model_start([[Entry(s, k) for k in range(2)] for s in range(2)])
    real, model = p.root(0, "first")
    check_root(x, p, real, model, "first")
    p.budget = p.used
    for j in (0, 1):
        real, model = p.root(j, f"again{j}")
        check_root(x, p, real, model, f"again{j}")
    x.check("payload", x.and_(*p.payload_conds))


@harness(configs=[{"n": 3, "nested": b} for b in (False, True)], must_cover=["failed"])
def fast(x, n, nested):
    """emit_fast: same reporting and state."""
    stub_message(True)
    s = SignalInstance((object,), name="s")
    log = []
    bad = x.pick("bad", 0, n)
    caught = x.flag("caught")
    exc = Boom()
    inner = SignalInstance((object,), name="inner")
    inner.connect(lambda v: (_ for _ in ()).throw(exc))

    def mk(i):
        def cb(v):
            log.append(i)
            if i == bad and v is first:
                if nested:
                    try:
                        inner.emit_fast(v)
                    except EmitLoopError:
                        if not caught:
                            raise
                else:
                    raise exc

        return cb

    for i in range(n):
        s.connect(mk(i))
    first, second = object(), object()
    err = None
    try:
        s.emit_fast(first)
    except EmitLoopError as e:
        err = e
    fails = bad < n and not (nested and caught)
    x.check("raises", (err is not None) == fails)
    if fails:
        x.cover("failed")
        x.check("cause", err.__cause__ is exc)
        x.check("stopped", log == list(range(bad + 1)))
    else:
        x.check("complete", log == list(range(n)))
    del log[:]
    s.emit_fast(second)
    s.emit(second)
    x.check("usable", log == [*range(n), *range(n)])


@harness(configs=[{"mode": m, "fast": f} for m in MODES for f in (False, True)])
def recursion(x, mode, fast):
    """Endless re-emission ends in RecursionError and leaves a usable signal."""
    stub_message(True)
    s = SignalInstance((int,), reemission=mode)
    count = [0]
    stop = [False]
    extra = x.pick("extra", 0, 1)  # a second callback before the recursing one

    def rec(i):
        count[0] += 1
        if not stop[0]:
            (s.emit_fast if fast else s.emit)(i + 1)

    seen = []
    if extra:
        s.connect(lambda i: seen.append(i) if stop[0] else None)
    s.connect(rec)
    err = None
    lim = sys.getrecursionlimit()
    try:
        (s.emit_fast if fast else s.emit)(0)
    except BaseException as e:
        err = e
    x.check("RecursionError", isinstance(err, RecursionError))
    x.check("limit untouched", sys.getrecursionlimit() == lim)
    x.check("nothing current", Signal.current_emitter() is None)
    stop[0] = True
    count[0] = 0
    for i in range(3):
        s.emit(7)
        x.check("usable", count[0] == i + 1)
        x.check("others too", seen == [7] * (i + 1) if extra else True)
    s.emit_fast(8)
    x.check("usable fast", count[0] == 4)


@harness(configs=[{"mode": m} for m in MODES])
def message(x, mode):
    """The real error message is built for any failing callback, bound or not."""

    class Owner:
        sig = Signal(object, int, reemission=mode)

    o = Owner()
    s = o.sig if x.flag("bound") else SignalInstance((object, int), reemission=mode)
    exc = Boom("text")
    nested = x.flag("nested")
    p = object()

    def cb(a, b):
        local = a  # noqa: F841
        if nested and b < 2:
            s.emit(a, b + 1)
            if mode == "queued":
                return
        raise exc

    s.connect(cb)
    err = None
    try:
        s.emit(p, 1)
    except EmitLoopError as e:
        err = e
    x.check("reported", err is not None)
    x.check("cause", err is not None and err.__cause__ is exc)
    x.check("message", "text" in str(err) and "Boom" in str(err))


HARNESSES = [single, two, fast, recursion, message]
