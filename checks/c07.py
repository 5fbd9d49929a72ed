"""Blocking and pausing: programs of (un)block/pause/resume/contexts/emissions."""
from functools import partial

from psygnal import EmitLoopError, Signal, SignalInstance

from symx.ctx import harness, tiered

from checks import c08
from checks._prog import MODES, Boom

BOUNDS = {
    "quick": "programs of 4 steps, each one of block, unblock, pause, resume (with and "
    "without reducer/initial), enter a blocked/paused context (new, made before, or used before), leave the innermost one, followed by "
    "an optional emission of an arbitrary integer; delivery of 0-3 held emissions to 2 callbacks "
    "with up to 2 actions (emit, pause, emit in a paused or blocked context, raise) in each "
    "re-emission mode; histories of 6 connects, disconnects, emissions, pauses and resumes with 2 callbacks; 9 kinds of reducers, without or with any initial value (also empty, None, false) over 0-2 held emissions of 2 arguments",
    "thorough": "programs of 5 steps; delivery with up to 3 actions",
}
ASSUMPTIONS = [
    "a paused signal is resumed while it is not blocked",
    "explicit block/unblock (pause/resume) calls are not mixed with an open blocked "
    "(paused) context",
    "single thread",
]


def reset():
    c08.reset()


def red2(a, b):
    return (a[0] * 2 + b[0],)


def red1(it):
    r = 1
    for (v,) in it:
        r = r * 3 + v
    return (r,)


OPS = ["none", "block", "unblock", "pause", "resume", "resume2", "resume2i", "resume1",
       "enter blocked", "enter paused", "enter paused2", "exit", "enter old blocked",
       "enter old paused"]


@harness(
    configs=tiered(
        [{"steps": 4, "start": o, "fast": f} for o in OPS[1:10:2] + ["enter paused", "enter paused2"] for f in (False,)]
        + [{"steps": 4, "start": o, "fast": False} for o in OPS[-2:]]
        + [{"steps": 3, "start": o, "fast": True} for o in OPS[1:11]],
        [{"steps": 5, "start": o, "fast": f} for o in OPS[1:11] + OPS[-2:] for f in (False, True)],
    ),
    must_cover=["dropped", "held", "reduced", "nested contexts", "context used again"],
)
def program(x, steps, start, fast):
    class O:
        sig = Signal(int)

    o = O()
    s = o.sig
    log = []
    s.connect(lambda v: log.append(v))
    initial = x.int("initial")
    blocked = paused = False
    held, want = [], []
    ctxs = []  # (kind, real ctx, state at entry, reducer)
    old = {"blocked": s.blocked(), "paused": s.paused()}  # entered later, or again
    entered = set()

    def deliver(reducer, init):
        nonlocal held
        q, held = held, []
        if not q:
            return
        if reducer is None:
            want.extend(q)
            return
        x.cover("reduced")
        if reducer is red1:
            want.append(red1([(v,) for v in q])[0])
            return
        acc = init if init is not None else q[0]
        for v in q if init is not None else q[1:]:
            acc = acc * 2 + v
        want.append(acc)

    for i in range(steps):
        open_kinds = [c[0] for c in ctxs]
        ops = ["none"]
        if "blocked" not in open_kinds:
            ops += ["block", "unblock"]
        if "paused" not in open_kinds:
            ops += ["pause"]
            if not blocked:
                ops += ["resume", "resume2", "resume2i", "resume1"]
        if len(ctxs) < 2:
            ops += ["enter blocked", "enter paused", "enter paused2"]
            ops += ["enter old blocked", "enter old paused"]
        if ctxs:
            k, _, was, _ = ctxs[-1]
            if not (k == "paused" and not was and blocked):
                ops.append("exit")
        if i == 0:
            if start not in ops:
                return
            op = start
        else:
            op = x.choice(f"op{i}", [p for p in OPS if p in ops])
        if op == "block":
            s.block()
            blocked = True
        elif op == "unblock":
            s.unblock()
            blocked = False
        elif op == "pause":
            s.pause()
            paused = True
        elif op.startswith("resume"):
            paused = False
            if op == "resume":
                s.resume()
                deliver(None, None)
            elif op == "resume2":
                s.resume(red2)
                deliver(red2, None)
            elif op == "resume2i":
                s.resume(red2, (initial,))
                deliver(red2, initial)
            else:
                s.resume(red1)
                deliver(red1, None)
        elif op.startswith("enter old"):
            k = op[10:]
            if k in entered:
                x.cover("context used again")
            entered.add(k)
            ctxs.append((k, old[k], blocked if k == "blocked" else paused, None))
            old[k].__enter__()
            if k == "blocked":
                blocked = True
            else:
                paused = True
        elif op == "enter blocked":
            c = s.blocked()
            ctxs.append(("blocked", c, blocked, None))
            c.__enter__()
            blocked = True
        elif op.startswith("enter paused"):
            r = red2 if op.endswith("2") else None
            c = s.paused(r) if r else s.paused()
            ctxs.append(("paused", c, paused, r))
            c.__enter__()
            paused = True
        elif op == "exit":
            k, c, was, r = ctxs.pop()
            c.__exit__(None, None, None)
            if k == "blocked":
                blocked = was
            else:
                paused = was
                if not was:
                    deliver(r, None)
        if len(ctxs) == 2:
            x.cover("nested contexts")
        if x.flag(f"emit{i}"):
            v = x.int(f"v{i}")
            (s.emit_fast if fast else s.emit)(v)
            if blocked:
                x.cover("dropped")
            elif paused:
                x.cover("held")
                held.append(v)
            else:
                want.append(v)
        x.check(f"number of deliveries after {i}", len(log) == len(want))
    # leave everything
    if blocked and "blocked" not in [c[0] for c in ctxs]:
        s.unblock()
        blocked = False
    while ctxs:
        k, c, was, r = ctxs.pop()
        if k == "paused" and not was and blocked:
            return
        c.__exit__(None, None, None)
        if k == "blocked":
            blocked = was
        else:
            paused = was
            if not was:
                deliver(r, None)
    if blocked:
        s.unblock()
    s.resume()
    deliver(None, None)
    s.emit(5)
    want.append(5)
    x.check("delivered", x.equal(log, want))


@harness(
    configs=tiered(
        [{"mode": m, "budget": 2, "held": h} for m in MODES for h in (1, 2, 3)],
        [{"mode": m, "budget": 3, "held": h} for m in MODES for h in (1, 2, 3)],
    ),
    must_cover=["raised", "emitted while delivering", "paused while delivering"],
)
def delivery(x, mode, budget, held):
    """Callbacks that emit, pause, use contexts or raise while held emissions are delivered."""
    c08.stub_message(True)
    s = SignalInstance((int,), reemission=mode, name="s")
    log, memo, st = [], {}, {"used": 0, "eid": 0}
    ACTS = ["none", "emit", "pause", "paused emit", "blocked emit", "raise"]

    def emit():
        st["eid"] += 1
        s.emit(st["eid"] - 1)

    def invoke(k, e):
        log.append((k, e))
        if (k, e) not in memo:
            a = "none"
            if st["used"] < budget:
                a = x.choice(f"a{k}.{e}", ACTS)
                if a != "none":
                    st["used"] += 1
            memo[k, e] = a
        a = memo[k, e]
        if a == "emit":
            x.cover("emitted while delivering")
            emit()
        elif a == "pause":
            x.cover("paused while delivering")
            s.pause()
        elif a == "paused emit":
            with s.paused():
                emit()
        elif a == "blocked emit":
            with s.blocked():
                emit()
        elif a == "raise":
            x.cover("raised")
            raise Boom

    s.connect(lambda v: invoke(0, v))
    s.connect(lambda v: invoke(1, v))

    # model
    m = {"eid": 0, "paused": False, "blocked": False, "held": [], "queue": [],
         "active": False, "stack": []}
    mlog = []

    class Fail(Exception):
        pass

    def m_emit():
        e = m["eid"]
        m["eid"] += 1
        if m["blocked"]:
            return
        if m["paused"]:
            m["held"].append(e)
            return
        m_loop(e)

    def m_loop(e):
        if mode == "queued":
            m["queue"].append(e)
            if m["active"]:
                return
            m["active"] = True
            try:
                while m["queue"]:
                    m_deliver(m["queue"].pop(0), None)
            finally:
                m["queue"].clear()
                m["active"] = False
            return
        for em in m["stack"]:
            em["stale"] = True
        em = {"stale": False}
        m["stack"].append(em)
        try:
            m_deliver(e, em)
        finally:
            m["stack"].pop()

    def m_resume():
        m["paused"] = False
        q, m["held"] = m["held"], []
        for e in q:
            m_loop(e)

    def m_deliver(e, em):
        for k in (0, 1):
            if mode == "latest-only" and em["stale"]:
                break
            mlog.append((k, e))
            a = memo.get((k, e), "none")
            if a == "emit":
                m_emit()
            elif a == "pause":
                m["paused"] = True
            elif a == "paused emit":
                was = m["paused"]
                m["paused"] = True
                m_emit()
                if not was:
                    m_resume()
            elif a == "blocked emit":
                was, m["blocked"] = m["blocked"], True
                m_emit()
                m["blocked"] = was
            elif a == "raise":
                raise Fail

    ctx = x.flag("context")
    c = s.paused()
    if ctx:
        c.__enter__()
    else:
        s.pause()
    m["paused"] = True
    for _ in range(held):
        emit()
        m_emit()
    x.check("held back", log == [])
    for rnd in range(2):
        err = merr = None
        try:
            if ctx and rnd == 0:
                c.__exit__(None, None, None)
            else:
                s.resume()
        except EmitLoopError as e:
            err = e
        try:
            m_resume()
        except Fail:
            merr = True
        x.check("error reported", (err is not None) == (merr is not None))
        seen = log if err is None else log[: len(mlog)]
        x.check("deliveries", seen == mlog, info=(log, mlog))
        if err is not None:
            # what becomes of the emissions after the failing one is not specified, but
            # nothing may be delivered twice and the signal works again
            break
    st["used"] = budget  # no more actions
    s.resume()
    n = len(log)
    x.check("nothing twice", len(set(log)) == len(log))
    emit()
    x.check("usable", log[n:] == [(0, st["eid"] - 1), (1, st["eid"] - 1)], info=log)


class _Acc:
    """Reducers of every kind: `None` or a tuple and a tuple -> a tuple."""

    def two(self, a, b):
        return _two(a, b)

    def one(self, it):
        return _one(it)

    def __call__(self, a, b):
        return _two(a, b)


def _two(a, b):
    if a is None:
        return (7, b[1])
    if not isinstance(a, tuple):
        return (a, b[0])
    return (*a, b[0])[-2:]


def _one(it):
    r = ()
    for t in it:
        r = (*t, *r)
    return r[:2]


def _two_default(a, b=(3, 4)):
    return _two(a, b)


REDUCERS = {
    "function": (2, lambda: _two),
    "lambda": (2, lambda: lambda p, q: _two(p, q)),
    "method": (2, lambda: _Acc().two),
    "object": (2, lambda: _Acc()),
    "default": (2, lambda: _two_default),
    "partial": (2, lambda: partial(lambda z, a, b: _two(a, b), 0)),
    "one": (1, lambda: _one),
    "one method": (1, lambda: _Acc().one),
    "one partial": (1, lambda: partial(lambda z, it: _one(it), 0)),
}


@harness(
    configs=tiered(
        [{"kind": k, "held": h} for k in REDUCERS for h in (0, 1, 2)],
        [{"kind": k, "held": h} for k in REDUCERS for h in (0, 1, 2, 3)],
    ),
    must_cover=["empty initial", "context", "false object"],
)
def reducing(x, kind, held):
    """Reducers of every kind, with arbitrary initial values (none, empty, None, false)."""
    nargs, make = REDUCERS[kind]
    reducer = make()

    class O:
        sig = Signal(object, object)

    s = O().sig
    log = []
    s.connect(lambda *a: log.append(a))
    init = x.choice("initial", ["absent", "()", "None", "object", "tuple"])
    v = x.int("initial value")
    if init == "object" and v == 0:
        x.cover("false object")
    kw = {} if init == "absent" else {
        "initial": {"()": (), "None": None, "object": v, "tuple": (v,)}[init]}
    if init == "()":
        x.cover("empty initial")
    queue = [(x.int(f"a{i}"), x.int(f"b{i}")) for i in range(held)]
    if x.flag("context"):
        x.cover("context")
        with s.paused(reducer, **kw):
            for q in queue:
                s.emit(*q)
            x.check("held back", not log)
    else:
        s.pause()
        for q in queue:
            s.emit(*q)
        x.check("held back", not log)
        s.resume(reducer, **kw)
    want = []
    if queue:
        if nargs == 1:
            want = [_one(queue)]
        else:
            todo = list(queue)
            acc = kw["initial"] if kw else todo.pop(0)
            for q in todo:
                acc = _two(acc, q)
            want = [acc]
    x.check("reduced", x.equal(log, want), info=(log, want))
    s.emit(1, 2)
    x.check("resumed", len(log) == len(want) + 1)


@harness(
    configs=tiered(
        [{"steps": 6, "fast": f, "start": o} for f in (False, True) for o in ("pause", "connect")],
        [{"steps": 6, "fast": f, "start": o} for f in (False, True) for o in ("pause", "connect")],
    ),
    must_cover=["nobody", "delivered later"],
)
def listeners(x, steps, fast, start):
    """Held-back emissions go to those connected on resume; if there is nobody, they are gone."""
    class O:
        sig = Signal(int)

    o = O()
    s = o.sig
    logs, wants = [[], []], [[], []]
    cbs = [lambda v, lg=lg: lg.append(v) for lg in logs]
    connected = []
    paused, held = False, []
    for i in range(steps):
        if i == 0:
            op = start
        else:
            op = x.choice(f"op{i}", ["connect", "disconnect", "pause", "emit", "resume"])
        if op in ("connect", "disconnect"):
            j = x.pick(f"j{i}", 0, 1) if i else 0
            x.assume((j in connected) == (op == "disconnect"))
            if op == "connect":
                s.connect(cbs[j], max_args=1)
                connected.append(j)
            else:
                s.disconnect(cbs[j])
                connected.remove(j)
        elif op == "pause":
            x.assume(not paused)
            s.pause()
            paused = True
        elif op == "emit":
            v = x.int(f"v{i}")
            (s.emit_fast if fast else s.emit)(v)
            if paused:
                held.append(v)
            else:
                for j in connected:
                    wants[j].append(v)
        else:
            x.assume(paused)
            s.resume()
            paused = False
            if held:
                x.cover("delivered later" if connected else "nobody")
            for j in connected:
                wants[j].extend(held)
            held = []
        x.check("number of deliveries", [len(q) for q in logs] == [len(q) for q in wants])
    # whatever was held back is not delivered twice
    for j in (0, 1):
        if j not in connected:
            s.connect(cbs[j], max_args=1)
            connected.append(j)
    if not paused:
        s.pause()
    s.resume()
    for j in (0, 1):
        wants[j].extend(held)
        x.check("deliveries", x.equal(logs[j], wants[j]))


HARNESSES = [program, delivery, reducing, listeners]
