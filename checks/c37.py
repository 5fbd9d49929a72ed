"""Evented classes are recognised, and the options they were made with are honoured."""
import copy
import dataclasses
import pickle
import sys
import types
import warnings
from typing import Any, ClassVar

import attrs
import pydantic

from psygnal import (
    Signal, SignalGroup, SignalGroupDescriptor, evented, get_evented_namespace, is_evented,
)
from psygnal._group_descriptor import evented_setattr

from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "families of 3 classes (any mixture of decorated, with descriptor and plain ones, "
    "derived from each other or not, with any of 3 namespaces), used in any order; dataclasses, "
    "attrs classes and pydantic models with every combination of caching, patching, a wrapped "
    "__setattr__ with and without aliases, comparisons as argument and as class attribute; 2 "
    "assignments of any values",
    "thorough": "3 assignments",
}
ASSUMPTIONS = ["single thread", "fields are not deleted, comparisons do not raise"]

HOME = types.ModuleType("symx_c37_home")  # (where pickle finds the classes)


def reset():
    sys.modules["symx_c37_home"] = HOME
    vars(HOME).clear()
    HOME.__name__ = "symx_c37_home"


def dc(ns, base=(), name="K"):
    return dataclasses.dataclass(type(name, base, {"__module__": "symx_c37_home", **ns}))


@harness(must_cover=["inherited", "plain", "overridden", "decorated", "descriptor"])
def recognised(x):
    """Which classes are evented, under which name; and what is found there."""
    made, names = [], []
    fields = "abc"
    for i in range(3):
        base = x.choice(f"base{i}", [None, *range(i)])
        how = x.choice(f"how{i}", ["plain", "decorator", "descriptor"])
        ns = {"__annotations__": {fields[i]: Any}, fields[i]: None}
        bases = () if base is None else (made[base],)
        ev = x.choice(f"name{i}", ["events", "my_events", "_e"]) if how != "plain" else None
        if how == "descriptor":
            ns[ev] = SignalGroupDescriptor()
            ns["__annotations__"][ev] = ClassVar
        cls = dc(ns, bases, f"K{i}")
        if how == "decorator":
            if ev == "events" and x.flag(f"bare{i}"):
                cls = evented(cls)
            else:
                cls = evented(cls, events_namespace=ev)
        if how != "plain":
            x.cover("decorated" if how == "decorator" else how)
            x.cover("overridden" if base is not None and names[base] else "decorated")
        elif base is not None and names[base]:
            x.cover("inherited")
        else:
            x.cover("plain")
        made.append(cls)
        names.append(ev or (names[base] if base is not None else None))
    order = x.choice("first use", [(0, 1, 2), (2, 1, 0), (1, 2, 0)])
    for i in order:
        o = made[i]()
        for what in (made[i], o):
            x.check("recognised exactly if evented", is_evented(what) is bool(names[i]))
            x.check("namespace", get_evented_namespace(what) == names[i],
                    info=(get_evented_namespace(what), names))
        if names[i] is None:
            continue
        group = getattr(o, get_evented_namespace(o))
        x.check("a group of the instance", isinstance(group, SignalGroup)
                and group.all.instance is o and getattr(o, names[i]) is group)
        want = {f.name for f in dataclasses.fields(o)}
        x.check("a signal for each field", set(group) == want)
        x.check("on the class: the descriptor",
                isinstance(getattr(made[i], names[i]), SignalGroupDescriptor))
        log = []
        for f in want:
            group[f].connect(lambda new, old, f=f: log.append((f, new, old)))
        for f in want:
            setattr(o, f, 1)
        x.check("every field emits once", sorted(log) == sorted((f, 1, None) for f in want),
                info=log)
        x.check("recognised after use as well", is_evented(o) and is_evented(made[i]))
        x.check("its __setattr__ too", is_evented(made[i].__setattr__))
    x.check("other objects are not evented", not any(
        is_evented(v) or get_evented_namespace(v) is not None for v in (int, 3, None, object())))


KINDS = ["dataclass", "attrs", "pydantic"]


def build(kind, ns):
    ns = {"__module__": "symx_c37_home", "__qualname__": "K", **ns}
    if kind == "pydantic":
        cls = type(pydantic.BaseModel)("K", (pydantic.BaseModel,), ns)
    else:
        cls = type("K", (), ns)
        cls = dataclasses.dataclass(cls) if kind == "dataclass" else attrs.define(cls, slots=False)
    HOME.K = cls
    return cls


@harness(
    configs=tiered([{"kind": k, "n": 2} for k in KINDS], [{"kind": k, "n": 3} for k in KINDS]),
    must_cover=["cached", "not cached", "by hand", "not patched", "patched", "compared", "aliased",
                "pickled"],
)
def options(x, kind, n):
    """Caching, patching and comparisons in every combination."""
    cache, patch = x.flag("cache"), x.flag("patch")
    hand = x.choice("by hand", ["no", "aliases", "no aliases"]) if not patch else "no"
    alias = hand != "no aliases" and x.flag("alias")
    eq = x.choice("comparison", ["default", "argument", "attribute"])
    calls = []

    def differs_always(p, q):
        calls.append((p, q))
        return False

    kw = {"cache_on_instance": cache, "patch_setattr": patch}
    if alias:
        x.cover("aliased")
        kw["signal_aliases"] = {"b": "bb"}
    if eq == "argument":
        kw["equality_operators"] = {"a": differs_always}
    ns = {"__annotations__": {"a": Any, "b": Any, "events": ClassVar}, "a": 0, "b": 0,
          "events": SignalGroupDescriptor(**kw)}
    if hand != "no":
        x.cover("by hand")
        super_set = pydantic.BaseModel.__setattr__ if kind == "pydantic" else object.__setattr__

        def __setattr__(self, name, value):
            super_set(self, name, value)

        if x.flag("as decorator"):
            ns["__setattr__"] = evented_setattr("events", with_aliases=hand == "aliases")(__setattr__)
        else:
            ns["__setattr__"] = evented_setattr("events", __setattr__, hand == "aliases")
    if eq == "attribute":
        ns["__eq_operators__"] = {"a": differs_always}
        if kind == "pydantic":
            ns["__annotations__"]["__eq_operators__"] = ClassVar
    cls = build(kind, ns)
    o, p = cls(a=0, b=0), cls(a=0, b=0)
    fresh = dict(vars(o))
    x.check("the same group every time", o.events is o.events)
    x.check("each instance has its own", o.events is not p.events)
    x.check("signals", set(o.events) == {"a", "bb" if alias else "b"})
    if eq == "attribute":
        cls.__eq_operators__["a"] = differs_always  # (creating the group sets the defaults)
    if cache:
        x.cover("cached")
    else:
        x.cover("not cached")
        x.check("nothing is stored on the instance", dict(vars(o)) == fresh)
        q = pickle.loads(pickle.dumps(o))
        x.cover("pickled")
        x.check("it can be pickled, with its values", type(q) is cls and (q.a, q.b) == (0, 0)
                and q.events is not o.events and q.events.all.instance is q)
    log, glog = [], []
    o.events["a"].connect(lambda *args: log.append(("a", args)))
    o.events["bb" if alias else "b"].connect(lambda *args: log.append(("b", args)))
    o.events.connect(lambda info: glog.append(info))
    works = patch or hand != "no"
    x.cover("patched" if patch else "not patched")
    cur = {"a": 0, "b": 0}
    for j in range(n):
        f = x.choice(f"f{j}", "ab")
        new = x.obj(f"n{j}") if x.flag(f"any{j}") else cur[f]
        del log[:], glog[:], calls[:]
        setattr(o, f, new)
        if f == "a" and eq != "default":
            changed = True
            if works:
                x.cover("compared")
                x.check("asked the comparison once", len(calls) == 1)
        else:
            changed = not bool(new == cur[f])
            x.check("only its own field is compared", calls == [])
        x.check("emitted exactly when changed", len(log) == int(changed and works), info=log)
        x.check("relayed", len(glog) == len(log))
        for g, args in log:
            x.check("which field", g == f)
            x.check("new and old value", x.same(args, (new, cur[f])))
        cur[f] = new
        x.check("stored", x.is_(o.a, cur["a"]))
        x.check("stored", x.is_(o.b, cur["b"]))


@harness(must_cover=["warned", "quiet", "has fields"])
def without_fields(x):
    """A warning exactly when there is nothing to emit and it was not switched off."""
    warn = x.flag("warn")
    kind = x.choice("kind", ["plain", "empty dataclass", "frozen fields", "dataclass", "group"])
    kw = {"warn_on_no_fields": warn}
    ns = {"__module__": "symx_c37_home", "__qualname__": "K"}

    class G(SignalGroup):
        s = Signal(int)

    class Empty(SignalGroup):
        pass

    nothing = kind != "dataclass"
    if kind == "group":
        nothing = x.flag("empty group")
        kw.update(signal_group_class=Empty if nothing else G, collect_fields=False)
    if kind == "dataclass":
        ns.update(__annotations__={"a": int}, a=1)
    deco = kind != "group" and x.flag("decorator")
    if not deco:
        ns["events"] = SignalGroupDescriptor(**kw)
        ns.setdefault("__annotations__", {})["events"] = ClassVar
    if kind == "frozen fields":
        ns.setdefault("__annotations__", {})["a"] = int
        ns["a"] = pydantic.Field(1, frozen=True)
        cls = type(pydantic.BaseModel)("K", (pydantic.BaseModel,), ns)
    else:
        cls = type("K", (), ns)
        if "dataclass" in kind:
            cls = dataclasses.dataclass(cls)
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        if deco:
            cls = evented(cls, **kw)
        o, p = cls(), cls()
        groups = o.events, p.events, o.events
    got = [w for w in got if issubclass(w.category, UserWarning)]
    x.check("warned exactly when asked to and without signals",
            len(got) == int(nothing and warn), info=[str(w.message) for w in got])
    x.cover("warned" if got else "quiet")
    if not nothing:
        x.cover("has fields")
    x.check("a group anyway", all(isinstance(g, SignalGroup) for g in groups)
            and groups[0] is groups[2] and groups[0].all.instance is o)
    x.check("without signals", (len(groups[0]) == 0) == nothing)
    hits = []
    if not nothing:
        groups[0].connect(hits.append)
        if kind == "dataclass":
            o.a = 5
        else:
            o.events.s.emit(5)
        x.check("relayed", len(hits) == 1)


# explored also with None among the arbitrary objects
options.nones = [{"kind": "dataclass", "n": 2}]

HARNESSES = [recognised, options, without_fields]
