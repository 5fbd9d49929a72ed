"""Throttled functions over all call timings (virtual clock, symbolic instants)."""
from checks import _throttle as T
from symx.ctx import harness, tiered

KIND = "throttle"
BOUNDS = {
    "quick": "programs of 4 operations (call / cancel / flush) at arbitrary integer "
    "millisecond instants (symbolic, unbounded gaps, either order of simultaneous events), "
    "arbitrary positional and keyword arguments, both policies, intervals 1, 100, 250 ms",
    "thorough": "6 operations",
}
ASSUMPTIONS = [
    "threading.Timer is a stand-in driven by a virtual clock: a timer calls its function "
    "exactly at its deadline, unless cancelled; its thread may outlive a cancel",
    "a timer's function and the calls made to the wrapper do not overlap in time; "
    "the wrapped function takes no time and does not call its wrapper",
]


def reset():
    T.Clock.reset()


OPS = ["call", "cancel", "flush"]


@harness(
    configs=tiered(
        [{"leading": l, "n": 4, "how": "direct", "ops": OPS} for l in (True, False)]
        + [{"leading": l, "n": 5, "how": "class", "ops": ["call"]} for l in (True, False)]
        + [{"leading": l, "n": 3, "how": "deco", "ops": OPS} for l in (True, False)],
        [{"leading": l, "n": 6, "how": "direct", "ops": OPS} for l in (True, False)]
        + [{"leading": l, "n": 7, "how": "class", "ops": ["call"]} for l in (True, False)]
        + [{"leading": l, "n": 5, "how": "deco", "ops": OPS} for l in (True, False)],
    ),
    must_cover=["cancel of a pending call", "flush of a pending call", "several invocations",
                "timers fired"],
)
def program(x, leading, n, how, ops):
    T.program(x, KIND, leading, n, how, ops)


@harness(configs=tiered([{"n": 3}], [{"n": 5}]))
def defaults(x, n):
    T.program(x, KIND, KIND == "throttle", n, "default", OPS)


@harness(configs=[{"leading": True}, {"leading": False}])
def independent(x, leading):
    """Two wrappers do not interfere."""
    T.program(x, KIND, leading, 3, "direct", ["call", "cancel"], twice=True)


@harness(configs=[{"leading": True}, {"leading": False}])
def signal(x, leading):
    T.through_signal(x, KIND, leading)


@harness(configs=[{"leading": True}, {"leading": False}])
def failing(x, leading):
    T.failing(x, KIND, leading)


HARNESSES = [program, defaults, independent, signal, failing]
