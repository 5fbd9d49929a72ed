"""Fields of an evented model emit exactly when their (validated) value changes."""
import warnings
from typing import Annotated, Any

import numpy as np
import pydantic
from pydantic import AfterValidator, ConfigDict, Field, PrivateAttr

from psygnal import EmitLoopError, EventedModel, Signal

from checks._lists import outcome
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "models with and without properties, with and without validation of assignments, "
    "subclasses; histories of 2-3 assignments to 3 fields of 2 instances, any values (identity "
    "and equality patterns decided by the solver), listeners on any subset of the signals and "
    "on the group; validators that keep, replace or reject any value; frozen, private and "
    "unknown attributes; fields named like attributes of a signal group; models made by the constructor, model_construct, validation of dicts, JSON and instances; array fields; listeners that assign or raise",
    "thorough": "histories of 4 assignments",
}
ASSUMPTIONS = ["validators do not assign"]

ANY = ConfigDict(arbitrary_types_allowed=True)


class Plain(EventedModel):
    a: Any = 0
    b: Any = 0
    c: Any = 0
    fixed: Any = Field(0, frozen=True)
    _p: Any = PrivateAttr(0)


class Sub(Plain):
    pass


class WithProps(EventedModel):
    """(assignments take another way when there are properties)"""

    model_config = ConfigDict(allow_property_setters=True, field_dependencies={"q": ["a", "c"]})
    a: Any = 0
    b: Any = 0
    c: Any = 0
    fixed: Any = Field(0, frozen=True)
    _p: Any = PrivateAttr(0)

    @property
    def q(self):
        return 1

    @q.setter
    def q(self, v):
        pass


class Checked(EventedModel):
    model_config = ConfigDict(validate_assignment=True)
    a: Any = 0
    b: Any = 0
    c: Any = 0
    fixed: Any = Field(0, frozen=True)
    _p: Any = PrivateAttr(0)


MODELS = {"plain": Plain, "subclass": Sub, "properties": WithProps, "validated": Checked}


def connect(log, m, f, tag):
    m.events[f].connect(lambda *args: log.append((tag, f, args, getattr(m, f))))


@harness(
    configs=tiered([{"model": m, "k": 2} for m in MODELS] + [{"model": "plain", "k": 3}],
                   [{"model": m, "k": 4} for m in MODELS]),
)
def history(x, model, k):
    cls = MODELS[model]
    vals = {(i, f): x.obj(f"v{i}{f}") for i in range(2) for f in "ab"}
    vals.update({(i, "c"): i for i in range(2)})
    ms = [cls(**{f: vals[i, f] for f in "abc"}) for i in range(2)]
    log, glog, heard = [], [], set()
    for i, m in enumerate(ms):
        others = x.flag(f"others{i}")
        for f in "abc":
            if x.flag("listen a") if (i, f) == (0, "a") else others:
                heard.add((i, f))
                connect(log, m, f, i)
        names = ["a", "b", "c"] + ["q"] * (model == "properties")
        x.check("a signal for each field", set(m.events) == set(names))
    grouped = x.flag("group")
    if grouped:
        ms[0].events.connect(lambda info: glog.append(info))
    for j in range(k):
        i, f = x.choice(f"at{j}", [(0, "a"), (0, "b"), (1, "a")])
        new = x.obj(f"n{j}") if x.flag(f"any{j}") else vals[i, f]
        old = vals[i, f]
        del log[:], glog[:]
        setattr(ms[i], f, new)
        changed = not (new == old)
        vals[i, f] = new
        want = changed and (i, f) in heard
        x.check("emitted", len(log) == int(want), info=log)
        for g in log:
            x.check("where", g[:2] == (i, f), info=log)
            x.check("the new value", x.same(g[2], (new,)))
            x.check("already visible", x.is_(g[3], new))
        x.check("group notified", len(glog) == int(changed and i == 0 and grouped))
        for info in glog:
            x.check("group: which signal", info.signal is ms[0].events[f])
            x.check("group: value", x.same(info.args, (new,)))
        for p, m in enumerate(ms):
            for g in "abc":
                x.check("stored", x.is_(getattr(m, g), vals[p, g]))


NOW = []  # what the validator does with the current value


def validator(v):
    what, other = NOW[0]
    if what == "reject":
        raise ValueError("rejected")
    return other if what == "replace" else v


def later(v):
    return v


class Validated(EventedModel):
    model_config = ConfigDict(validate_assignment=True)
    a: Annotated[Any, AfterValidator(validator)] = 0
    b: Annotated[Any, AfterValidator(later)] = 0
    n: int = 0


class ValidatedProps(EventedModel):
    model_config = ConfigDict(validate_assignment=True, allow_property_setters=True,
                              field_dependencies={"q": ["a", "n"]})
    a: Annotated[Any, AfterValidator(validator)] = 0
    b: Annotated[Any, AfterValidator(later)] = 0
    n: int = 0

    @property
    def q(self):
        return 1

    @q.setter
    def q(self, v):
        pass


def reset():
    del NOW[:]


@harness(configs=[{"props": p, "k": k} for p in (False, True) for k in (2,)])
def validation(x, props, k):
    """What a validator makes of a value is stored, compared and emitted."""
    NOW[:] = [("keep", None)]
    v0 = x.obj("v0")
    m = (ValidatedProps if props else Validated)(a=v0)
    log = []
    heard = x.flag("listen")
    for f in "abn" if heard else "bn":
        connect(log, m, f, 0)
    state = v0
    for j in range(k):
        what = x.choice(f"what{j}", ["keep", "replace", "reject"])
        other = x.obj(f"o{j}")
        NOW[:] = [(what, other)]
        new = x.obj(f"n{j}")
        del log[:]
        got = outcome(lambda: setattr(m, "a", new))
        x.check("rejected or not", got.kind == ("err" if what == "reject" else "ok"))
        stored = {"keep": new, "replace": other, "reject": state}[what]
        changed = not (stored == state)
        x.check("emitted", len(log) == int(changed and heard), info=log)
        for g in log:
            x.check("where", g[:2] == (0, "a"))
            x.check("the stored value", x.same(g[2], (stored,)))
            x.check("visible", x.is_(g[3], stored))
        state = stored
        x.check("stored", x.is_(m.a, state))
        x.check("others stay", m.b == 0 and m.n == 0)


@harness(configs=[{"props": p} for p in (False, True)])
def coercion(x, props):
    """An int field given ints, numeric strings, booleans and things that are no numbers."""
    NOW[:] = [("keep", None)]
    m = (ValidatedProps if props else Validated)()
    log = []
    connect(log, m, "n", 0)
    connect(log, m, "a", 0)
    state = 0
    for j in range(3):
        v = x.pick(f"n{j}", 0, 2)
        form = x.choice(f"form{j}", ["int", "str", "float", "bad", "none"])
        new = {"int": v, "str": str(v), "float": float(v), "bad": f"x{v}", "none": None}[form]
        del log[:]
        got = outcome(lambda: setattr(m, "n", new))
        ok = form not in ("bad", "none")
        x.check("rejected or not", got.kind == ("ok" if ok else "err"), info=(new, got))
        want = [(0, "n", (v,), v)] if ok and v != state else []
        x.check("emitted", log == want, info=(log, want))
        x.check("an int", not log or type(log[0][2][0]) is int)
        state = v if ok else state
        x.check("stored", m.n == state and type(m.n) is int)


@harness(configs=[{"model": m} for m in MODELS])
def not_fields(x, model):
    """Frozen, private and unknown attributes have no signals and emit nothing."""
    cls = MODELS[model]
    m, other = cls(), cls()
    log = []
    for f in list(m.events):
        connect(log, m, f, 0)
        connect(log, other, f, 1)
    m.events.connect(lambda info: log.append(info))
    v = x.obj("v")
    x.check("no signal for what is not assignable",
            all(n not in m.events for n in ("fixed", "_p", "zz")))
    what = x.choice("what", ["fixed", "_p", "zz"])
    got = outcome(lambda: setattr(m, what, v))
    if what == "_p":
        x.check("private attribute set", got.kind == "ok" and x.is_(m._p, v))
    else:
        x.check("rejected", got.kind == "err")
        x.check("unchanged", m.fixed == 0 and not hasattr(m, "zz"))
    x.check("nothing emitted", not log, info=log)
    x.check("fields as before", m.a == 0 and m.b == 0 and other.a == 0 and other._p == 0)


class Arrays(EventedModel):
    model_config = ANY
    arr: np.ndarray = np.zeros(0)
    u: Any = None


@harness()
def arrays(x):
    """Array fields are compared as a whole."""
    pool = [np.array(a) for a in ([0, 0], [0, 1], [0], [[0, 0]], [0, 0])]
    first, second = x.choice("first", pool), x.choice("second", pool)
    m = Arrays(arr=first)
    log = []
    m.events.arr.connect(lambda v: log.append(v))
    m.arr = second
    changed = first.shape != second.shape or first.tolist() != second.tolist()
    x.check("emitted", len(log) == int(changed), info=(first, second, log))
    x.check("the array", all(g is second for g in log))
    x.check("stored", m.arr is second)


@harness(configs=[{"model": m} for m in MODELS])
def reentrant(x, model):
    """A listener that assigns another field or the same one, or raises."""
    m = MODELS[model](a=0, b=0)
    what = x.choice("what", ["other", "same", "raise", "back"])
    first, second = x.obj("first"), x.obj("second")
    x.assume(x.not_(first == 0))
    log = []

    def cb(v):
        log.append(("a", v))
        if what == "raise":
            raise ValueError
        if len(log) == 1:
            if what == "other":
                m.b = second
            else:
                m.a = second if what == "same" else 0

    m.events.a.connect(cb)
    m.events.b.connect(lambda v: log.append(("b", v)))
    want = [("a", first)]
    if what == "raise":
        try:
            m.a = first
            x.check("reported", False)
        except EmitLoopError as e:
            x.check("cause", isinstance(e.__cause__, ValueError))
        final = first
        del log[1:]
        # usable afterwards
        what = "done"
        m.a = second
        if not (second == first):
            want.append(("a", second))
        final = second
    else:
        m.a = first
        final = first
        if what == "other":
            if not (second == 0):
                want.append(("b", second))
            x.check("b stored", x.is_(m.b, second))
        elif what == "back":
            want.append(("a", 0))
            final = 0
        else:
            if not (second == first):
                want.append(("a", second))
            final = second
    x.check("stored", x.is_(m.a, final))
    x.check("notifications", len(log) == len(want), info=(log, want))
    for g, w in zip(log, want):
        x.check("notification", x.same(g, w))


RESERVED = ["connect", "disconnect", "block", "unblock", "all", "signals", "name", "instance",
            "emit", "paused", "blocked", "is_uniform", "psygnals_uniform", "reducer", "a"]


@harness(configs=[{"props": p} for p in (False, True)])
def names(x, props):
    """Fields (and properties) named like the attributes of a signal group."""
    f, g = x.choice("field", RESERVED), x.choice("other", ["b", "connect", "all"])
    x.assume(f != g)
    ns = {"__annotations__": {f: Any, g: Any}, f: 0, g: 0, "__module__": __name__}
    if props:
        ns["model_config"] = ConfigDict(
            allow_property_setters=True, field_dependencies={"block_all": [f]})
        ns["block_all"] = property(lambda self: (getattr(self, f),),
                                   lambda self, v: setattr(self, f, v))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = type(EventedModel)("M", (EventedModel,), ns)()
    every = [f, g] + ["block_all"] * props
    x.check("a signal for each field", set(m.events) == set(every))
    log, glog = [], []
    for n in every:
        m.events[n].connect(lambda *a, n=n: log.append((n, a)))
    grouped = x.flag("group")
    if grouped:
        m.events._psygnal_relay.connect(lambda info: glog.append((info.signal.name, info.args)))
    for j in range(2):
        n = x.choice(f"at{j}", every)
        new = x.obj(f"n{j}")
        t = f if n == "block_all" else n
        changed = not (getattr(m, t) == new)
        del log[:], glog[:]
        setattr(m, n, new)
        x.check("stored", x.is_(getattr(m, t), new))
        want = {}
        if changed:
            want[t] = (new,)
            if props and t == f:
                want["block_all"] = ((new,),)
        for got in [log, glog] if grouped else [log]:
            x.check("notified once", sorted(e[0] for e in got) == sorted(want), info=got)
            for e in got:
                x.check("the new value", x.same(e[1], want[e[0]]))
        x.check("group silent", grouped or not glog)


# explored also with None among the arbitrary objects
history.nones = [
    {"model": "plain", "k": 1},
    {"model": "properties", "k": 1},
]
validation.nones = [{"props": True, "k": 1}]
reentrant.nones = [{"model": "plain"}]

class Nested(EventedModel):
    model_config = ConfigDict(revalidate_instances="always")
    child: Plain
    a: Any = 0


ORIGINS = ["init", "construct", "construct some", "validate", "validate json", "revalidated",
           "constructed again"]


@harness(configs=[{"model": m, "how": h} for m in MODELS for h in ORIGINS
                  if h != "revalidated" or m == "plain"])
def origins(x, model, how):
    """It does not matter how the model was made."""
    cls = MODELS[model]
    a0, b0 = x.obj("a0"), x.obj("b0")
    if how == "init":
        m = cls(a=a0, b=b0)
    elif how.startswith("constructed"):
        m = cls.model_construct(**cls(a=a0, b=b0).model_copy().__dict__)
    elif how == "construct":
        m = cls.model_construct(a=a0, b=b0)
    elif how == "construct some":
        b0 = 0
        m = cls.model_construct({"a"}, a=a0)
    elif how == "validate":
        m = cls.model_validate({"a": a0, "b": b0})
    elif how == "revalidated":
        m = Nested.model_validate({"child": Sub(a=a0, b=b0)}).child
    else:
        a0, b0 = 1, 2
        m = cls.model_validate_json('{"a": 1, "b": 2}')
    x.check("the given values", x.is_(m.a, a0) and x.is_(m.b, b0) and m.c == 0 and m._p == 0)
    log, state = [], {"a": a0, "b": b0}
    heard = x.choice("heard", ["", "a", "ab"])
    for f in heard:
        connect(log, m, f, 0)
    glog = []
    if x.flag("group"):
        m.events.connect(glog.append)
    else:
        glog = None
    for j in range(2):
        f = x.choice(f"at{j}", ["a", "b"])
        new = x.obj(f"n{j}")
        del log[:]
        if glog is not None:
            del glog[:]
        setattr(m, f, new)
        changed = not (new == state[f])
        state[f] = new
        want = changed and f in heard
        x.check("emitted", len(log) == int(want))
        for g in log:
            x.check("where", g[:2] == (0, f))
            x.check("the new value", x.same(g[2], (new,)) and x.is_(g[3], new))
        if glog is not None:
            x.check("group notified", len(glog) == int(changed))
            for info in glog:
                x.check("group: which signal", info.signal is m.events[f])
                x.check("group: value", x.same(info.args, (new,)))
        x.check("stored", x.is_(m.a, state["a"]) and x.is_(m.b, state["b"]))
    x.check("current emitter", Signal.current_emitter() is None)
    x.check("its owner", m.events.all.instance is m)


HARNESSES = [history, validation, coercion, not_fields, arrays, reentrant, names, origins]
