"""Re-emission modes: callbacks that emit the same signal again.

Which invocation of which callback emits how often is decided by solver variables; a
reference interpreter of the documented mode gives the expected callback sequence.
"""
from psygnal import Signal

from symx.ctx import harness, tiered

from checks._prog import MODES, Entry, Program, make_signals

BOUNDS = {
    "quick": "1 signal, 2-3 callbacks, up to 4 nested emissions in any tree shape "
    "(up to 2 per callback invocation), two root emissions; emit and emit_fast roots; "
    "up to 4 emissions whose arguments may be equal",
    "thorough": "3 callbacks, up to 5 nested emissions",
}
ASSUMPTIONS = ["callbacks do not raise or change connections (C08, C10)", "single thread"]


@harness(
    configs=tiered(
        [
            {"mode": m, "ncb": n, "budget": b, "per": p}
            for m in MODES
            for n, b, p in ((2, 4, 2), (3, 3, 2), (3, 4, 1))
        ],
        [
            {"mode": m, "ncb": n, "budget": b, "per": p}
            for m in MODES
            for n, b, p in ((2, 5, 2), (3, 4, 2), (3, 5, 1))
        ],
    ),
    must_cover=["nested", "two levels"],
)
def modes(x, mode, ncb, budget, per):
    sigs, _ = make_signals([mode])
    p = Program(x, sigs, [mode], ncb, lambda s, k: [("emit", 0)], budget, max_per_call=per)
    p.connect_all()
    p.model_start([[Entry(0, k) for k in range(ncb)]])
    for r in range(2):
        real, model = p.root(0, f"root{r}")
        x.check("no error", real is None and model is None)
        x.check("sequence of invocations", p.log == p.m_log, info=(p.log, p.m_log))
    x.check("emissions made", p.eid == p.m_eid)
    x.check("payload", x.and_(*p.payload_conds))
    if p.used:
        x.cover("nested")
    if p.used >= 2:
        x.cover("two levels")
    if mode != "latest-only":
        x.check(
            "each emission reaches each callback exactly once",
            sorted(p.log) == [(0, k, e) for k in range(ncb) for e in range(p.eid)],
        )
    else:
        last = p.eid - 1
        x.check(
            "the last emission reaches every callback",
            [e for e in p.log if e[2] == last] == [(0, k, last) for k in range(ncb)],
        )


@harness(
    configs=tiered(
        [{"mode": m, "budget": 3} for m in MODES],
        [{"mode": m, "budget": 4} for m in MODES],
    )
)
def fast(x, mode, budget):
    """emit_fast is always immediate; mixed with emit on the same signal."""
    sigs, _ = make_signals([mode])
    acts = [("emit_fast", 0)] if mode != "immediate" else [("emit_fast", 0), ("emit", 0)]
    p = Program(x, sigs, [mode], 2, lambda s, k: acts, budget, max_per_call=2)
    p.connect_all()
    p.model_start([[Entry(0, k) for k in range(2)]])
    real, model = p.root(0, "root", fast=True)
    x.check("no error", real is None and model is None)
    x.check("sequence of invocations", p.log == p.m_log, info=(p.log, p.m_log))
    p.budget = p.used  # the second emission is plain
    real, model = p.root(0, "root2")
    x.check("no error", real is None and model is None)
    x.check("sequence of the next emission", p.log == p.m_log, info=(p.log, p.m_log))
    x.check("payload", x.and_(*p.payload_conds))


@harness(
    configs=tiered(
        [{"modes": [a, b], "budget": 3} for a in MODES for b in MODES],
        [{"modes": [a, b], "budget": 4} for a in MODES for b in MODES],
    )
)
def crossed(x, modes, budget):
    """Two signals with their own modes emitting each other."""
    sigs, _ = make_signals(modes)
    p = Program(
        x, sigs, modes, 2, lambda s, k: [("emit", 0), ("emit", 1)], budget, max_per_call=1
    )
    p.connect_all()
    p.model_start([[Entry(s, k) for k in range(2)] for s in range(2)])
    real, model = p.root(0, "root")
    x.check("no error", real is None and model is None)
    x.check("sequence of invocations", p.log == p.m_log, info=(p.log, p.m_log))
    x.check("payload", x.and_(*p.payload_conds))


@harness(
    configs=tiered(
        [{"mode": m, "fast": f} for m in MODES for f in (False, True)],
        [{"mode": m, "fast": f} for m in MODES for f in (False, True)],
    ),
    must_cover=["equal arguments", "different arguments"],
)
def arguments(x, mode, fast):
    """Emissions are told apart even if their arguments are equal: none are merged."""
    owner = type("Owner", (), {"sig": Signal(object, reemission=mode)})()
    sig = owner.sig
    n = x.choice("nested", [1, 2, 3])
    pay = [x.int(f"pay{i}", 0, 1) for i in range(n + 1)]
    log, count = [], [0]

    def first(v):
        count[0] += 1
        log.append(("first", v))
        if count[0] == 1:
            for i in range(n):
                (sig.emit_fast if fast else sig.emit)(pay[i + 1])

    def second(v):
        log.append(("second", v))

    sig.connect(first)
    sig.connect(second)
    sig.emit(pay[0])
    every = [("second", p) for p in pay]
    if mode == "immediate" or fast:
        want = [("first", pay[0])]
        for p in pay[1:]:
            want += [("first", p), ("second", p)]
        want += every[:1] if mode != "latest-only" or fast else []
    elif mode == "queued":
        want = []
        for p in pay:
            want += [("first", p), ("second", p)]
    else:
        want = [("first", pay[0])]
        for p in pay[1:]:
            want += [("first", p), ("second", p)]
    x.check("callbacks", [k for k, _ in log] == [k for k, _ in want], info=(log, want))
    x.check("arguments", x.and_(*[a[1] == b[1] for a, b in zip(log, want)]))
    x.cover("equal arguments" if pay[0] == pay[1] else "different arguments")


HARNESSES = [modes, fast, crossed, arguments]
