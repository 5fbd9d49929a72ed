"""Connecting and disconnecting while the signal is being emitted."""
from psygnal import SignalInstance

from symx.ctx import harness, tiered

from checks._prog import MODES, Entry, Program, make_signals

BOUNDS = {
    "quick": "3 connected callbacks (plus 1 that running callbacks may connect), up to 2-3 "
    "actions (disconnect any, disconnect all, connect with priority -1/0/1, emit again) in "
    "any arrangement; all modes and emit_fast; initial priorities from {0,0,0} and "
    "arbitrary integers; 2 callbacks connected once or twice each",
    "thorough": "up to 4 actions, 4 callbacks",
}
ASSUMPTIONS = [
    "whether a callback connected during an emission already runs in that emission is "
    "not specified (it has to take part in those made later); all other callbacks are "
    "checked exactly",
    "single thread",
]


def run(x, mode, ncb, budget, fast, prios, reemit, order=None):
    sigs, _ = make_signals([mode])

    def acts(s, k):
        if k == ncb:  # the late callback does nothing itself
            return []
        r = [("disconnect", j) for j in range(ncb)] + [("disconnect_all",)]
        r += [("connect", ncb, pr) for pr in ((0, 1, -1) if prios else (0,))]
        if reemit:
            r.append(("emit_fast" if fast else "emit", 0))
        return r

    p = Program(x, sigs, [mode], ncb + 1, acts, budget, max_per_call=2 if budget > 2 else 1)
    pr = [x.int(f"p{k}", -1, 1) if prios else 0 for k in range(ncb)]
    p.model_start([[]])
    for k in order or range(ncb):
        sigs[0].connect(p.cbs[0][k], priority=pr[k])
        p.m_insert(0, Entry(0, k, pr[k]))
    real, model = p.root(0, "root", fast)
    late = ncb
    x.check("no error", real is None and model is None)
    # emissions made after the last connection to happen before they were delivered
    settled = {e for e, (made, done) in p.m_at.items() if made == done}

    def seen(log):
        return [e for e in log if e[1] != late or e[2] in settled]

    x.check(
        "callbacks connected before: called once, in order, unless disconnected",
        seen(p.log) == seen(p.m_log),
        info=(p.log, p.m_log),
    )
    if any(e[1] == late for e in seen(p.m_log)):
        x.cover("late callback, later emission")
    if any(a[0] == "disconnect" for acts in p.memo.values() for a in acts):
        x.cover("disconnected")
    if any(a[0] == "connect" for acts in p.memo.values() for a in acts):
        x.cover("connected")
    # afterwards: exactly the remaining connections
    p.budget = p.used
    x.check("len", len(sigs[0]) == len(p.m_conns[0]))
    n, m = len(p.log), len(p.m_log)
    p.eid = p.m_eid = max(p.eid, p.m_eid)
    real, model = p.root(0, "after", fast)
    x.check("no error after", real is None and model is None)
    x.check("afterwards", p.log[n:] == p.m_log[m:], info=(p.log[n:], p.m_log[m:]))
    x.check("payload", x.and_(*p.payload_conds))


@harness(
    configs=tiered(
        [
            {"mode": m, "ncb": 3, "budget": 2, "fast": f, "reemit": r}
            for m, f in [(m, False) for m in MODES] + [("immediate", True)]
            for r in (False, True)
        ]
        + [{"mode": m, "ncb": 2, "budget": 3, "fast": False, "reemit": True} for m in MODES],
        [
            {"mode": m, "ncb": 4, "budget": 3, "fast": f, "reemit": r}
            for m, f in [(m, False) for m in MODES] + [("immediate", True)]
            for r in (False, True)
        ],
    ),
    must_cover=["disconnected", "connected", "late callback, later emission"],
)
def plain(x, mode, ncb, budget, fast, reemit):
    run(x, mode, ncb, budget, fast, False, reemit)


@harness(
    configs=tiered(
        [
            {"mode": m, "budget": 2, "fast": f}
            for m, f in [(m, False) for m in MODES] + [("immediate", True)]
        ],
        [
            {"mode": m, "budget": 3, "fast": f}
            for m, f in [(m, False) for m in MODES] + [("immediate", True)]
        ],
    ),
    must_cover=["disconnected", "connected"],
)
def priorities(x, mode, budget, fast):
    run(x, mode, 3, budget, fast, True, False)


@harness(
    configs=tiered(
        [
            {"mode": m, "budget": 2, "fast": f, "order": o}
            for m, f in [(m, False) for m in MODES] + [("immediate", True)]
            for o in ([0, 1, 0], [0, 1, 1], [1, 0, 1, 0])
        ],
        [
            {"mode": m, "budget": 3, "fast": f, "order": o}
            for m, f in [(m, False) for m in MODES] + [("immediate", True)]
            for o in ([0, 1, 0], [0, 1, 1], [1, 0, 1, 0], [0, 0, 1, 2])
        ],
    ),
    must_cover=["disconnected", "connected"],
)
def repeated(x, mode, budget, fast, order):
    """Callbacks that are connected several times."""
    run(x, mode, max(order) + 1, budget, fast, False, True, order)


HARNESSES = [plain, priorities, repeated]
