"""Fields of evented classes emit exactly when the comparison says they changed."""
import dataclasses
import warnings
from typing import Any, ClassVar, Optional

import attrs
import msgspec
import numpy as np
import pydantic
import pydantic.dataclasses

from psygnal import EmitLoopError, EventedModel, Signal, SignalGroup, SignalGroupDescriptor, evented

from checks._lists import outcome
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "dataclasses (also with slots), attrs classes (also without slots), msgspec structs, "
    "pydantic models and dataclasses and plain classes with a hand-written group; as decorator "
    "and as descriptor; histories of 2-3 assignments to 3 fields of 2 instances, any values "
    "(identity and equality patterns decided by the solver), listeners on any subset of the "
    "signals and on the group; aliases as mapping, as function and as part of (a subclass of) a group class; custom comparisons with any "
    "results; inheritance with any order of first use; several descriptors; arrays of any shape in fields annotated in any way; histories of 4 values that "
    "may be arrays or incomparable",
    "thorough": "histories of 4 assignments",
}
ASSUMPTIONS = [
    "comparisons given by the user do not raise; aliases do not map two fields to the same signal",
    "fields are not deleted",
]

KINDS = ["dataclass", "dataclass slots", "attrs", "attrs noslots", "msgspec", "pydantic",
         "pydantic dataclass", "plain"]
cfg = {"arbitrary_types_allowed": True}


class FieldSignals(SignalGroup):
    a = Signal(object, object)
    b = Signal(object, object)
    c = Signal(object, object)


def make(kind, base=None, fields=("a", "b", "c"), descriptor=True, validate=False, anno=Any, **kw):
    """An evented class of the given kind."""
    ns = {"__annotations__": dict.fromkeys(fields, anno), "__module__": __name__}
    bases = (base,) if base is not None else ()
    if kind == "msgspec" and base is None:
        bases = (msgspec.Struct,)
    if kind == "pydantic":
        bases = bases or (pydantic.BaseModel,)
        if validate:
            ns["model_config"] = {"validate_assignment": True}
    if kind == "plain":

        def __init__(self, **k):
            for n, v in k.items():
                setattr(self, n, v)

        ns = {"__module__": __name__, "__init__": __init__}
        kw = {"signal_group_class": FieldSignals, "collect_fields": False, **kw}
    if descriptor:
        ns["events"] = SignalGroupDescriptor(**kw)
        if kind != "plain":
            ns["__annotations__"]["events"] = ClassVar
    if kind == "msgspec":
        cls = type(bases[0])("K", bases, ns)
    elif kind == "pydantic":
        cls = type(bases[0])("K", bases, ns)
    else:
        cls = type("K", bases, ns)
    if kind.startswith("dataclass"):
        cls = dataclasses.dataclass(cls, slots="slots" in kind)
    elif kind.startswith("attrs"):
        cls = attrs.define(cls, slots="noslots" not in kind)
    elif kind == "pydantic dataclass":
        cls = pydantic.dataclasses.dataclass(cls, config=cfg)
    if not descriptor:
        cls = evented(cls, **kw)
    return cls


def connect(log, obj, sig, field, tag):
    def cb(new, old):
        log.append((tag, field, new, old, getattr(obj, field)))

    sig.connect(cb)
    return cb


def check_log(x, label, log, want):
    x.check(label, len(log) == len(want), info=(log, want))
    if len(log) == len(want):
        for g, w in zip(log, want):
            x.check(label + ": where", g[:2] == w[:2], info=(log, want))
            x.check(label + ": new value", x.is_(g[2], w[2]))
            x.check(label + ": old value", x.is_(g[3], w[3]))
            x.check(label + ": already visible", x.is_(g[4], w[2]))


@harness(
    configs=tiered(
        [{"kind": k, "k": 2, "descriptor": d} for k in KINDS for d in (True, False)
         if d or k in ("dataclass", "pydantic")] + [{"kind": "dataclass", "k": 3, "descriptor": True}],
        [{"kind": k, "k": 4, "descriptor": True} for k in KINDS],
    ),
)
def history(x, kind, k, descriptor):
    """Assignments to fields of two instances of the same class."""
    cls = make(kind, descriptor=descriptor)
    vals = {(i, f): x.obj(f"v{i}{f}") for i in range(2) for f in "ab"}
    vals.update({(i, "c"): i for i in range(2)})
    obs = [cls(**{f: vals[i, f] for f in "abc"}) for i in range(2)]
    log = []
    heard = set()
    for i, o in enumerate(obs):
        # (the other fields and the other instance: all or none are listened to)
        others = x.flag(f"others{i}")
        for f in "abc":
            if x.flag("listen a") if (i, f) == (0, "a") else others:
                heard.add((i, f))
                connect(log, o, getattr(o.events, f), f, i)
        x.check("a signal for each field", set(o.events) == {"a", "b", "c"})
    grouped = x.flag("group")
    glog = []
    if grouped:
        obs[0].events.connect(lambda info: glog.append(info))
    for j in range(k):
        i, f = x.choice(f"at{j}", [(0, "a"), (0, "b"), (1, "a")])
        new = x.obj(f"n{j}") if x.flag(f"any{j}") else vals[i, f]
        old = vals[i, f]
        del log[:], glog[:]
        setattr(obs[i], f, new)
        changed = not (new == old)
        vals[i, f] = new
        want = [(i, f, new, old)] if changed and (i, f) in heard else []
        check_log(x, "emitted", log, want)
        gwant = changed and i == 0 and grouped
        x.check("group notified", len(glog) == int(gwant))
        for info in glog:
            x.check("group: which signal", info.signal is getattr(obs[0].events, f))
            x.check("group: values", x.same(info.args, (new, old)))
        for p, o in enumerate(obs):
            for g in "abc":
                x.check("stored", x.is_(getattr(o, g), vals[p, g]))


ALIASES = {
    "mapping": {"a": "a_changed", "c": None},
    "function": lambda n: None if n == "c" else f"{n}_changed",
    "swapped": {"a": "b", "b": "a", "c": None},
    "private": {"c": None},
    "class": {"a": "a_changed", "c": None},
    "class and mapping": {"a": "a_new", "c": None},
    "subclass": {"a": "a_new", "b": "b_changed", "c": None},
}


class Aliased(SignalGroup, signal_aliases={"a": "a_changed", "c": None}):
    other = Signal(int)


class AliasedAgain(Aliased, signal_aliases={"a": "a_new", "b": "b_changed"}):
    pass


class AliasedPlain(SignalGroup):
    a_changed = Signal(object, object)
    b_changed = Signal(object, object)
    a = Signal(object, object)
    b = Signal(object, object)


@harness(
    configs=tiered(
        [{"kind": k, "alias": a} for k in KINDS for a in ALIASES
         if (k != "plain" or a in ("mapping", "swapped", "private"))
         and (k == "dataclass" or a not in ("class and mapping", "subclass"))],
    ),
)
def aliases(x, kind, alias):
    """Signals of aliased fields."""
    al = ALIASES[alias]
    kw = {"signal_aliases": al}
    if alias == "class":
        kw = {"signal_group_class": Aliased}
    elif alias == "class and mapping":
        kw = {"signal_group_class": Aliased, "signal_aliases": {"a": "a_new"}}
    elif alias == "subclass":
        kw = {"signal_group_class": AliasedAgain}
    elif kind == "plain":
        kw["signal_group_class"] = AliasedPlain
    cls = make(kind, descriptor=True, **kw)

    def alias_of(f):
        return al(f) if callable(al) else al.get(f, f)

    vals = {f: x.obj(f"v{f}") for f in "abc"}
    o = cls(**vals)
    names = {f: alias_of(f) for f in "abc"}
    if kind != "plain":
        x.check("the signals", set(o.events) - {"other"} == {n for n in names.values() if n})
    log = []
    keep = [connect(log, o, o.events[names[f]], f, f) for f in "ab" if x.flag(f"listen {f}")]
    heard = [f for f in "ab" if x.flag(f"listen {f}")]
    for j in range(2):
        f = x.choice(f"f{j}", "abc")
        new, old = x.obj(f"n{j}"), vals[f]
        del log[:]
        setattr(o, f, new)
        vals[f] = new
        changed = not (new == old)
        want = [(f, f, new, old)] if changed and f in heard else []
        check_log(x, "emitted", log, want)
        for g in "abc":
            x.check("stored", x.is_(getattr(o, g), vals[g]))


@harness(configs=[{"kind": k, "how": h} for k in KINDS for h in ("argument", "attribute")
                  if k != "plain" or h != "argument"])
def comparison(x, kind, how):
    """With a comparison of its own, a field emits exactly when that says so."""
    log, now = [], [None]

    def same_as(f):
        def same(p, q):
            j, g, new, old = now[0]
            x.check("asked about the two values of the field", f == g and x.or_(
                x.same((p, q), (new, old)), x.same((p, q), (old, new))), info=(f, g))
            return x.bool(f"same{j}")

        return same

    own = {"a": same_as("a"), "c": same_as("c")}
    if how == "argument":
        cls = make(kind, equality_operators=own)
    else:
        cls = make(kind)
        cls.__eq_operators__ = own
    o = cls(a=0, b=0, c=0)
    for f in "abc":
        connect(log, o, getattr(o.events, f), f, 0)
    if how == "attribute" and kind != "plain":
        # (creating the group registers the default comparison of each field)
        cls.__eq_operators__.update(a=same_as("a"), c=same_as("c"))
    for j in range(3):
        f = x.choice(f"f{j}", "abc" if j == 0 else "ab" if j == 1 else "ca")
        new, old = x.obj(f"n{j}"), getattr(o, f)
        now[0] = (j, f, new, old)
        del log[:]
        setattr(o, f, new)
        changed = not x.bool(f"same{j}") if f in "ac" else not (new == old)
        check_log(x, "emitted", log, [(0, f, new, old)] if changed else [])
        x.check("stored", x.is_(getattr(o, f), new))


@harness(configs=[{"kind": k} for k in ("dataclass", "dataclass slots", "attrs", "attrs noslots")])
def unset(x, kind):
    """The first value of a field that had none is a change, whatever it is."""
    if kind.startswith("attrs"):

        class K:
            a: Any = attrs.field(init=False)
            b: Any = 0
            events: ClassVar = SignalGroupDescriptor()

        K = attrs.define(K, slots=kind == "attrs")
    else:

        class K:
            a: Any = dataclasses.field(init=False)
            b: Any = 0
            events: ClassVar = SignalGroupDescriptor()

        K = dataclasses.dataclass(K, slots=kind != "dataclass")
    o = K()
    log = []
    o.events.a.connect(lambda *args: log.append((o.a, args[0])))
    v = x.choice("first", [None, False, 0, x.obj("v")])
    w = x.choice("second", [None, False, x.obj("w")])
    o.a = v
    x.check("emitted with the value", x.same(log, [(v, v)]), info=log)
    o.a = w
    x.check("then as ever", x.same(log[1:], [(w, w)] if not (v == w) else []), info=log)


class Odd:
    """Cannot be compared with anything (also the other way around)."""

    def __eq__(self, other):
        raise TypeError("not comparable")

    __hash__ = None


def same_value(x, p, q):
    """What == says; when it cannot say, whether it is the same array or object."""
    arr = [isinstance(v, np.ndarray) for v in (p, q)]
    if any(arr):
        if all(arr):
            return p.shape == q.shape and p.tolist() == q.tolist()
        if any(isinstance(v, Odd) for v in (p, q)):
            return False
        other = q if arr[0] else p
        return isinstance(other, (list, tuple)) and list(other) == (p if arr[0] else q).tolist()
    if isinstance(p, Odd) or isinstance(q, Odd):
        return p is q
    return bool(p == q)


@harness(
    configs=tiered([{"kind": k} for k in ("dataclass", "attrs", "pydantic", "model")],
                   [{"kind": k} for k in KINDS + ["model"] if k != "plain"]),
    must_cover=["array", "incomparable", "plain after them"],
)
def incomparable(x, kind):
    """Values that cannot be compared: what other values of the field do stays the same."""
    if kind == "model":
        ns = {"__annotations__": dict.fromkeys("abc", Any), "a": None, "b": None, "c": None,
              "__module__": __name__}
        cls = type(EventedModel)("K", (EventedModel,), ns)
    else:
        cls = make(kind)
    pool = {"array": np.array([1, 2]), "equal array": np.array([1, 2]), "other": np.array([3]),
            "odd": Odd(), "odd2": Odd(), "none": None, "list": [1, 2], "tuple": (1, 2)}
    keys = ["array", "equal array", "odd", "odd2", "none"]
    obs = [cls(a=None, b=None, c=None) for _ in range(2)]
    log, seen = [], False
    for i, o in enumerate(obs):
        o.events.a.connect(lambda *args, i=i: log.append((i, args)))
    cur = [None, None]
    for j in range(4):
        i = 0 if j < 2 else x.pick(f"at{j}", 0, 1)
        if j < 2:
            new = pool[x.choice(f"v{j}", keys)]
        elif j == 2:
            new = pool[x.choice(f"v{j}", ["none", "list", "array", "other"])]
        else:
            new = pool[x.choice(f"v{j}", ["tuple", "list", "equal array"])]
            new = list(new) if type(new) is list else new
        old = cur[i]
        del log[:]
        if any(isinstance(v, np.ndarray) for v in (old, new)):
            x.cover("array")
        elif any(isinstance(v, Odd) for v in (old, new)):
            x.cover("incomparable")
            seen = True
        elif seen and isinstance(old, list) and isinstance(new, (list, tuple)):
            x.cover("plain after them")
        obs[i].a = new
        cur[i] = new
        changed = not same_value(x, new, old)
        x.check("emitted exactly when changed", len(log) == int(changed), info=(old, new, log))
        x.check("by that object, with the new value", all(g == i and a[0] is new for g, a in log))
        x.check("stored", obs[i].a is new)


@harness(configs=[{"kind": k} for k in KINDS if k != "plain"])
def inheritance(x, kind):
    """A subclass with more fields (and possibly aliases), whichever is used first."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = make(kind, fields=("a", "b"))
        how = x.choice("subclass", ["inherits", "decorated", "aliased", "other namespace"])
        if how == "inherits":
            sub = make(kind, base, fields=("c",), descriptor=True)
            # (the descriptor of the base class only)
            if "events" in sub.__dict__:
                del sub.events
        elif how == "decorated":
            sub = make(kind, base, fields=("c",), descriptor=False)
        elif how == "aliased":
            sub = make(kind, base, fields=("c",), descriptor=False,
                       signal_aliases={"a": "a_changed"})
        else:
            sub = make(kind, base, fields=("c",), descriptor=False, events_namespace="ev")
    o, p = base(a=0, b=0), sub(a=0, b=0, c=0)
    ns = "ev" if how == "other namespace" else "events"
    alias = {"a": "a_changed"} if how == "aliased" else {}
    log = []
    todo = [0, 1] if x.flag("base first") else [1, 0]
    for t in todo:
        if t == 0:
            for f in "ab":
                connect(log, o, o.events[f], f, "base")
            x.check("signals of the base class", set(o.events) == {"a", "b"})
        else:
            ev = getattr(p, ns)
            for f in "abc":
                connect(log, p, ev[alias.get(f, f)], f, "sub")
            x.check("signals of the subclass",
                    set(ev) == {alias.get(f, f) for f in "abc"}, info=list(ev))
            if how == "other namespace":
                for f in "ab":
                    connect(log, p, p.events[f], f, "sub")
    for j in range(2):
        obj, f = x.choice(f"at{j}", [(0, "a"), (0, "b"), (1, "a"), (1, "b"), (1, "c")])
        target = (o, p)[obj]
        new, old = x.obj(f"n{j}"), getattr(target, f)
        del log[:]
        setattr(target, f, new)
        n = 0
        if not (new == old):
            n = 2 if how == "other namespace" and obj and f != "c" else 1
        check_log(x, "emitted", log, [(("base", "sub")[obj], f, new, old)] * n)
        x.check("stored", x.is_(getattr(target, f), new))


@harness(configs=[{"kind": k} for k in KINDS if k != "plain"])
def two_descriptors(x, kind):
    """Every group of a class with two descriptors is notified."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cls = make(kind, fields=("a", "b"))
        cls = evented(cls, events_namespace="ev",
                      signal_aliases={"a": "a_changed"} if x.flag("alias") else {})
    o = cls(a=0, b=0)
    log = []
    order = x.choice("order", [("events", "ev"), ("ev", "events")])
    heard = [ns for ns in order if x.flag(f"listen {ns}")]
    for ns in heard:
        ev = getattr(o, ns)
        for f in "ab":
            n = "a_changed" if f == "a" and ns == "ev" and x.flag("alias") else f
            connect(log, o, ev[n], f, ns)
    for j in range(2):
        f = x.choice(f"f{j}", "ab")
        new, old = x.obj(f"n{j}"), getattr(o, f)
        del log[:]
        setattr(o, f, new)
        n = heard if not (new == old) else []
        x.check("each group notified", sorted(g[0] for g in log) == sorted(n))
        for g in log:
            x.check("field", g[1] == f)
            x.check("values", x.and_(x.is_(g[2], new), x.is_(g[3], old), x.is_(g[4], new)))


@harness()
def shared_group_class(x):
    """Aliases of one class do not affect another one with the same SignalGroup class."""
    mapping = x.flag("mapping proxy")
    from types import MappingProxyType
    wrap = MappingProxyType if mapping else dict
    one = make("plain", signal_aliases=wrap({"p": "a"}))
    two = make("plain", signal_aliases=wrap({"q": "a"}))
    three = make("plain")
    obs = [one(p=0, q=0), two(p=0, q=0), three(p=0, q=0)]
    log = []
    for i in x.choice("order", [(0, 1, 2), (2, 1, 0), (1, 0, 2)]):
        connect(log, obs[i], obs[i].events.a, "pqa"[i], i)
    setattr(obs[2], "a", 0)
    setattr(obs[0], "a", 0)
    setattr(obs[1], "a", 0)
    del log[:]
    i, f = x.choice("at", [(i, f) for i in range(3) for f in "pqa"])
    o = obs[i]
    new, old = x.obj("new"), getattr(o, f)
    fires = f == "pqa"[i] or f == "a"
    setattr(o, f, new)
    x.check("emitted", len(log) == int(fires and not (new == old)), info=(i, f, log))
    for g in log:
        x.check("values", x.and_(x.is_(g[2], new), x.is_(g[3], old)))


@harness(configs=[{"kind": k} for k in KINDS])
def reentrant(x, kind):
    """A listener that assigns another field, or the same one; a listener that raises."""
    cls = make(kind)
    what = x.choice("what", ["other", "same", "raise"])
    o = cls(a=0, b=0, c=0)
    log = []
    first, second = x.obj("first"), x.obj("second")

    def cb(new, old):
        log.append(("a", new, old, o.a))
        if what == "other":
            o.b = second
        elif what == "same" and len(log) == 1:
            o.a = second
        elif what == "raise":
            raise ValueError

    o.events.a.connect(cb)
    o.events.b.connect(lambda new, old: log.append(("b", new, old, o.b)))
    if what == "raise":
        try:
            o.a = first
            x.check("reported", False)
        except EmitLoopError as e:
            x.check("the cause", isinstance(e.__cause__, ValueError))
        x.check("stored nevertheless", x.is_(o.a, first))
        want = [("a", first, 0, first)]
    else:
        o.a = first
        want = [("a", first, 0, first)]
        if what == "other":
            want.append(("b", second, 0, second))
            x.check("stored", x.and_(x.is_(o.a, first), x.is_(o.b, second)))
        else:
            if not (first == second):
                want.append(("a", second, first, second))
            x.check("stored", x.is_(o.a, second))
    x.check("notifications", len(log) == len(want), info=(log, want))
    for g, w in zip(log, want):
        x.check("notification", x.same(g, w))


@harness(configs=[{"kind": k} for k in ("attrs", "pydantic", "dataclass", "plain")])
def rejected(x, kind):
    """A rejected assignment raises, keeps the value and emits nothing."""
    if kind == "attrs":
        cls = make(kind, fields=("a", "b"), descriptor=False)

        def positive(inst, attribute, value):
            if not isinstance(value, int):
                raise ValueError

        cls = type("K", (), {"__annotations__": {"a": int, "b": Any}, "a": attrs.field(
            validator=positive)})
        cls = evented(attrs.define(cls))
        make_obj = lambda: cls(a=0, b=0)  # noqa: E731
    elif kind == "pydantic":
        cls = type(pydantic.BaseModel)("K", (pydantic.BaseModel,), {
            "__annotations__": {"a": int, "b": Any, "events": ClassVar},
            "__module__": __name__,
            "model_config": {"validate_assignment": True},
            "events": SignalGroupDescriptor()})
        make_obj = lambda: cls(a=0, b=0)  # noqa: E731
    else:

        class Prop:
            def __init__(self):
                self._a = 0
                self.b = 0

            @property
            def a(self):
                return self._a

            @a.setter
            def a(self, v):
                if not isinstance(v, int):
                    raise ValueError
                self._a = v

        if kind == "plain":
            Prop.events = SignalGroupDescriptor(signal_group_class=FieldSignals,
                                                collect_fields=False)
            Prop.events.__set_name__(Prop, "events")
        else:
            Prop.__annotations__ = {"b": Any}
            a, init = Prop.a, Prop.__init__
            Prop.b = 0
            Prop = dataclasses.dataclass(Prop, init=False)
            Prop.events = SignalGroupDescriptor(signal_group_class=FieldSignals,
                                                collect_fields=False)
            Prop.events.__set_name__(Prop, "events")
        make_obj = Prop
    o = make_obj()
    log = []
    o.events.a.connect(lambda *a: log.append(("a", *a)))
    o.events.b.connect(lambda *a: log.append(("b", *a)))
    old = 0
    for j in range(3):
        good = x.flag(f"good{j}")
        new = x.pick(f"n{j}", 0, 2) if good else x.choice(f"bad{j}", ["x", None])
        del log[:]
        got = outcome(lambda: setattr(o, "a", new))
        x.check("raised or not", got.kind == ("ok" if good else "err"), info=(new, got))
        want = [("a", new, old)] if good and new != old else []
        x.check("emitted", log == want, info=(log, want))
        old = new if good else old
        x.check("stored", o.a == old)


# explored also with None among the arbitrary objects
history.nones = [
    {"kind": "dataclass", "k": 1, "descriptor": True},
    {"kind": "attrs", "k": 1, "descriptor": True},
    {"kind": "msgspec", "k": 1, "descriptor": True},
    {"kind": "pydantic", "k": 1, "descriptor": True},
]
aliases.nones = [{"kind": "dataclass", "alias": "mapping"}]
comparison.nones = [{"kind": "dataclass", "how": "argument"}]
reentrant.nones = [{"kind": "dataclass"}]

def as_whole(p, q):
    """One is an array: the same values in the same shape?"""
    if p is None or q is None:
        return False
    p, q = np.asarray(p), np.asarray(q)
    return p.shape == q.shape and p.tolist() == q.tolist()


ANNOTATIONS = {"array": np.ndarray, "any": Any, "optional": Optional[np.ndarray],
               "string": "np.ndarray"}


@harness(configs=[{"kind": k, "anno": a} for k in
                  ("dataclass", "attrs", "msgspec", "msgspec inherited", "pydantic", "model")
                  for a in ANNOTATIONS],
         must_cover=["same", "other shape", "empty"])
def whole_arrays(x, kind, anno):
    """Arrays are compared as a whole, however the field is annotated."""
    an = ANNOTATIONS[anno]
    if kind == "model":
        cls = type(EventedModel)("K", (EventedModel,), {
            "__annotations__": {"a": an, "b": an}, "a": None, "b": None, "__module__": __name__,
            "model_config": {"arbitrary_types_allowed": True}})
    elif kind == "pydantic":
        base = type(pydantic.BaseModel)("B", (pydantic.BaseModel,), {
            "__annotations__": {}, "__module__": __name__,
            "model_config": {"arbitrary_types_allowed": True}})
        cls = make(kind, base, fields=("a", "b"), anno=an)
    elif kind == "msgspec inherited":
        base = type(msgspec.Struct)("B", (msgspec.Struct,), {
            "__annotations__": {"a": an, "b": an}, "__module__": __name__})
        cls = make("msgspec", base, fields=(), descriptor=False)
    else:
        cls = make(kind, fields=("a", "b"), anno=an)
    pool = [np.array(v) for v in ([], [], [[]], [0], [0], [[0]], [1], [0, 0], 0)]
    if anno == "any":
        pool += [0, [0], None]
    first, second = x.choice("first", pool), x.choice("second", pool)
    third = x.choice("third", [pool[0], pool[3]])
    x.assume(isinstance(second, np.ndarray))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = cls(a=first, b=None) if kind not in ("pydantic", "model") or anno in (
            "any", "optional") else cls(a=first, b=second)
        log = []
        o.events.a.connect(lambda *args: log.append(args))
        cur = first
        for new in (second, third):
            del log[:]
            o.a = new
            same = as_whole(new, cur)
            if same:
                x.cover("same")
                if new.size == 0:
                    x.cover("empty")
            elif cur is not None and np.size(cur) == np.size(new) == 1:
                x.cover("other shape")
            x.check("emitted exactly when changed", len(log) == int(not same), info=(cur, new, log))
            x.check("the new value", all(g[0] is new for g in log))
            x.check("stored", o.a is new)
            cur = new


HARNESSES = [whole_arrays, incomparable, history, unset, aliases, comparison, inheritance, two_descriptors, shared_group_class,
             reentrant, rejected]
