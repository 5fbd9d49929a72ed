"""Evented containers as fields of pydantic models: exactly the validated items, in order."""
from typing import Annotated, Any

import pydantic
from pydantic import AfterValidator, BaseModel, ConfigDict, TypeAdapter

from psygnal import EventedModel
from psygnal.containers import (
    EventedDict, EventedList, EventedOrderedSet, EventedSet, OrderedSet,
    SelectableEventedList, Selection,
)

from checks._lists import objs
from checks.c22 import ordered, same_order, same_set
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "fields of 7 kinds of containers in plain and evented models, with arbitrary items "
    "(0-3 of any identity and equality pattern, validators that keep, replace or reject each) or "
    "typed ones (any choice of 0-2 values of several types), given as list, tuple, generator, "
    "set, dict or evented container, at construction or by (validated) assignment",
    "thorough": "up to 4 arbitrary items, 3 typed ones",
}
ASSUMPTIONS = ["lax validation (strict mode accepts no evented containers)",
               "how evented containers are serialized is not claimed"]

DECISIONS = {}  # item -> what the validator does with it


def validator(v):
    for item, what, other in DECISIONS["items"]:
        if item is v:
            if what == "reject":
                raise ValueError("rejected")
            return other if what == "replace" else v
    return v


Item = Annotated[Any, AfterValidator(validator)]
KINDS = {
    "list": (EventedList, list), "selectable": (SelectableEventedList, list),
    "set": (EventedSet, set), "ordered": (EventedOrderedSet, set), "plain": (OrderedSet, set),
    "selection": (Selection, set), "dict": (EventedDict, dict),
}
ORDERED = ("list", "selectable", "ordered", "plain", "selection", "dict")
MODELS = {}


def model(kind, evented, item):
    """(made once: making a model is slow)"""
    key = kind, evented, item
    if key not in MODELS:
        cls = KINDS[kind][0]
        types = {"any": Item, "int": int, "str": str, "none": None}
        t = types[item]
        ann = cls if t is None else cls[t, t] if kind == "dict" else cls[t]

        class M(EventedModel if evented else BaseModel):
            model_config = ConfigDict(validate_assignment=True)
            f: ann

        MODELS[key] = M
    return MODELS[key]


def contents(v):
    return list(v.items()) if hasattr(v, "items") else list(v)


def feed(x, kind, items):
    """The items in one of the forms that are accepted."""
    cls, builtin = KINDS[kind]
    if kind == "dict":
        form = x.choice("form", ["dict", "own"])
        d = dict(items)
        return d if form == "dict" else cls(d)
    form = x.choice("form", ["list", "tuple", "generator", "own", "set"])
    if form == "set" and kind not in ORDERED[:2]:
        x.assume(len(ordered(items)) == len(items))
        return dict.fromkeys(items).keys()
    if form == "generator":
        return (i for i in items)
    if form == "own":
        return cls(items)
    return tuple(items) if form == "tuple" else list(items)


def assign(x, cls, value, first):
    """Give the field its value; returns (model, error)."""
    if x.flag("by assignment"):
        m = cls(f=first)
        before = m.f
        try:
            m.f = value
        except pydantic.ValidationError as e:
            x.cover("assignment rejected")
            x.check("the field is as it was", m.f is before)
            return m, e
        x.cover("assigned")
        return m, None
    try:
        return cls(f=value), None
    except pydantic.ValidationError as e:
        return None, e


def compare(x, kind, got, want):
    x.check("the annotated class", type(got) is KINDS[kind][0])
    if kind in ("list", "selectable"):
        x.check("the validated items", len(got) == len(want)
                and all(bool(a is b) for a, b in zip(contents(got), want)))
    elif kind == "dict":
        g = contents(got)
        x.check("the validated items", len(g) == len(want) and all(
            bool(a is c) and bool(b is d) for (a, b), (c, d) in zip(g, want)), info=(g, want))
    elif kind == "set":
        x.check("the validated items", same_set(x, got, ordered(want)))
    else:
        x.check("the validated items in order", same_order(x, got, ordered(want)),
                info=(list(got), want))


def alive(x, kind, f):
    """The container in the field notifies its changes."""
    log, new = [], ("new", 1)
    if kind in ("list", "selectable"):
        f.events.inserted.connect(lambda *a: log.append(a))
        f.append(new)
    elif kind == "dict":
        f.events.added.connect(lambda *a: log.append(a))
        f[new] = 1
    elif hasattr(f, "events"):
        f.events.items_changed.connect(lambda *a: log.append(a))
        f.add(new)
    else:
        return
    x.check("the field's container notifies", len(log) == 1)


@harness(
    configs=tiered([{"kind": k, "n": n} for k in KINDS for n in range(4)],
                   [{"kind": k, "n": n} for k in KINDS for n in range(5)]),
    must_cover=["rejected", "replaced", "accepted", "assigned", "assignment rejected"],
)
def validated(x, kind, n):
    """Arbitrary items, and validators that do anything with each of them."""
    items = objs(x, "e", n)
    for i, a in enumerate(items):
        x.assume(all(x.not_(x.is_(a, b)) for b in items[:i]))
    if kind == "dict":
        pairs = [(f"k{i}", e) for i, e in enumerate(items)]
    decisions, out, bad = [], [], False
    for i, e in enumerate(items):
        what = x.choice(f"do{i}", ["keep", "replace", "reject"])
        other = x.obj(f"r{i}") if what == "replace" else None
        decisions.append((e, what, other))
        bad = bad or what == "reject"
        out.append(other if what == "replace" else e)
        if what == "replace":
            x.cover("replaced")
    evented = x.flag("evented model")
    DECISIONS["items"] = []
    cls = model(kind, evented, "any")
    # (what the validators get is what a set keeps of the items)
    value = feed(x, kind, pairs if kind == "dict" else items)
    if kind not in ("list", "selectable", "dict"):
        x.assume(all(x.not_(x.equal(a, b)) for i, a in enumerate(items) for b in items[:i]))
    own = value if hasattr(value, "events") else None
    before = contents(own) if own is not None else None
    first = {} if kind == "dict" else []
    DECISIONS["items"] = decisions
    m, err = assign(x, cls, value, first)
    DECISIONS["items"] = []
    x.check("rejected exactly when an item is", (err is not None) == bad, info=err)
    if err is not None:
        x.cover("rejected")
        return
    x.cover("accepted")
    compare(x, kind, m.f, [(k, o) for (k, _), o in zip(pairs, out)] if kind == "dict" else out)
    alive(x, kind, m.f)
    if own is not None:
        x.check("the given container is left alone", m.f is not own
                and contents(own) == before)


VALUES = [1, 2, "2", "x", 2.0, 2.5, None, True]
OTHERS = [None, 5, "ab", {"a": 1}, object()]
ADAPTERS = {}


def adapter(kind, item):
    key = kind in ("list", "selectable"), kind == "dict", item
    if key not in ADAPTERS:
        t = {"int": int, "str": str, "none": Any}[item]
        ADAPTERS[key] = TypeAdapter(
            list[t] if key[0] else dict[t, t] if kind == "dict" else set[t])
    return ADAPTERS[key]


@harness(
    configs=tiered([{"kind": k, "n": n} for k in KINDS for n in range(3)],
                   [{"kind": k, "n": n} for k in KINDS for n in range(4)]),
    must_cover=["rejected", "accepted", "something else"],
)
def typed(x, kind, n):
    """The same as a field of the built-in container with the same item type."""
    item = x.choice("item type", ["int", "str", "none"])
    other = n == 0 and x.flag("something else")
    if other:
        x.cover("something else")
        value = x.choice("value", OTHERS)
        same = lambda: value  # noqa: E731
    else:
        items = [x.choice(f"v{i}", VALUES) for i in range(n)]
        if kind == "dict":
            items = [(f"{i}", v) if x.flag(f"key{i}") else (v, i) for i, v in enumerate(items)]
            same = lambda: dict(items)  # noqa: E731
        else:
            same = lambda: list(items)  # noqa: E731
        value = feed(x, kind, items)
    cls = model(kind, False, item)
    try:
        want, bad = adapter(kind, item).validate_python(same()), None
    except pydantic.ValidationError as e:
        want, bad = None, e
    m, err = assign(x, cls, value, {} if kind == "dict" else [])
    x.check("accepted exactly like the built-in container", (err is None) == (bad is None),
            info=(err, bad))
    if err is not None:
        x.cover("rejected")
        x.check("as many problems", err.error_count() == bad.error_count() or kind not in
                ("list", "selectable", "dict"))
        return
    x.cover("accepted")
    got = contents(m.f)
    x.check("the annotated class", type(m.f) is KINDS[kind][0])
    if kind == "dict":
        x.check("the same items", list(want.items()) == got)
    elif kind in ("list", "selectable"):
        x.check("the same items", want == got and [*map(type, want)] == [*map(type, got)])
    else:
        x.check("the same items", set(got) == want and len(got) == len(want))
        if kind != "set" and not other:
            one = adapter("list", item).validate_python(list(items))
            x.check("in order", got == list(dict.fromkeys(one)), info=(got, one))
    alive(x, kind, m.f)


# explored also with None among the arbitrary objects
validated.nones = [
    {"kind": "list", "n": 1},
    {"kind": "dict", "n": 1},
]

HARNESSES = [validated, typed]
