"""Current emitter and sender at every point of arbitrary trees of nested emissions."""
from psygnal import Signal, SignalGroup

from symx.ctx import harness, tiered

from checks import c08
from checks._prog import MODES, Entry, Program, make_signals

BOUNDS = {
    "quick": "2-3 signals on different objects (mode combinations), 2 callbacks each, up "
    "to 3 actions (emit any signal, guarded emit, raise) in any arrangement; the emitter "
    "is read on entry and after every action of every callback",
    "thorough": "up to 4 actions",
}
ASSUMPTIONS = ["emissions through emit(); emit_fast documents no emitter", "single thread"]

TRIPLES = [[m, m, m] for m in MODES] + [MODES, MODES[::-1]]


@harness(
    configs=tiered(
        [{"modes": t, "budget": 2} for t in TRIPLES]
        + [{"modes": [a, b], "budget": 3} for a in MODES for b in MODES],
        [{"modes": t, "budget": 3} for t in TRIPLES]
        + [{"modes": [a, b], "budget": 4} for a in MODES for b in MODES],
    ),
    must_cover=["nested", "failed"],
)
def tree(x, modes, budget):
    c08.stub_message(True)
    sigs, owners = make_signals(modes)
    n = len(sigs)
    acts = [("emit", j) for j in range(n)] + [("try_emit", j) for j in range(n)] + [("raise",)]
    p = Program(x, sigs, modes, 2, lambda s, k: acts, budget, owners, max_per_call=2)
    p.connect_all()
    p.model_start([[Entry(s, k) for k in range(2)] for s in range(n)])
    real, model = p.root(0, "root")
    x.check("emitter and sender", all(p.emitter_ok))
    x.check("emitter after", Signal.current_emitter() is None)
    x.check("sender after", Signal.sender() is None)
    if len(p.log) > 2:
        x.cover("nested")
    if real is not None:
        x.cover("failed")
    # a second tree, from another signal
    p.budget = p.used + 1
    p.root(n - 1, "root2")
    x.check("emitter and sender, again", all(p.emitter_ok))
    x.check("emitter after, again", Signal.current_emitter() is None)


class Members(SignalGroup):
    a = Signal(int)
    b = Signal(int)


@harness(configs=[{}], must_cover=["relayed"])
def group(x):
    """Group callbacks see the relay, member callbacks the member."""
    g = Members()
    seen = []
    order = x.flag("group_first")
    nested = x.flag("nested")

    def on_group(info):
        seen.append(("g", Signal.current_emitter()))
        if nested and info.signal.name == "a":
            g.b.emit(2)
            seen.append(("g", Signal.current_emitter()))

    def on_a(v):
        seen.append(("a", Signal.current_emitter()))

    def on_b(v):
        seen.append(("b", Signal.current_emitter()))

    def conn():
        g.connect(on_group)

    if order:
        conn()
    g.a.connect(on_a)
    g.b.connect(on_b)
    if not order:
        conn()
    g.a.emit(1)
    x.cover("relayed")
    want = {"g": g.all, "a": g.a, "b": g.b}
    x.check("emitters", all(e is want[k] for k, e in seen))
    x.check("all seen", sorted(k for k, _ in seen) == (["a", "b", "g", "g", "g"] if nested else ["a", "g"]))
    x.check("after", Signal.current_emitter() is None)


def reset():
    c08.reset()


HARNESSES = [tree, group]
