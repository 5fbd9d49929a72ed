"""Signals and groups of different objects, attributes and classes are isolated."""
import copy
import gc
import warnings
import weakref
from dataclasses import dataclass, field
from typing import Any, ClassVar

import attrs
import msgspec

from psygnal import (
    EventedModel, Signal, SignalGroup, SignalGroupDescriptor, SignalInstance, evented,
)
from psygnal import _group_descriptor, _signal
from psygnal.containers import EventedObjectProxy, _evented_proxy

from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "17 families of 2-4 related classes (inheritance, overridden and named signals, "
    "slots, frozen, always-equal, unhashable and not weakly referenceable objects; signal groups, "
    "subclassed and with reserved names; group descriptors on dataclasses, slots, attrs, msgspec, "
    "with aliases, shared group classes, two descriptors, decorator; evented models); histories of "
    "3 operations after creating an object, or 1 operation and an emission after creating two with listeners: create, release, replace (at the same address), deep copy "
    "(shallow where the object does not carry its signals), connect, emit or assign; up to 3 objects alive; "
    "4 steps of creating an object of a class of its own (or a proxy), releasing one with its class and "
    "assigning, 2 alive at a time, each new object at any address that is free",
    "thorough": "histories of 4 operations, 2 after creating two objects with listeners, 1 after three",
}
ASSUMPTIONS = [
    "each Signal or descriptor object is declared under one name",
    "a shallow copy of an object that carries its signals in its __dict__ is outside",
    "single thread",
]


# ---------------------------------------------------------------- families
# make(): [(class, names of its signals)], how: how signal `n` of `o` is reached


def sig_plain(**kw):
    class A:
        s = Signal(object)
        t = Signal(object, name="zz")

    class B(A):
        t = Signal(object)
        u = Signal(object, name="s")

    class C:
        s = Signal(object)
        u = Signal(object)

    return [(A, "st"), (B, "stu"), (C, "su")]


def sig_slots():
    class A:
        __slots__ = ("__weakref__", "x")
        s = Signal(object)
        t = Signal(object, name="zz")

    class B(A):
        __slots__ = ()
        u = Signal(object)

    class C(A):  # with a __dict__
        t = Signal(object)

    return [(A, "st"), (B, "stu"), (C, "st")]


def sig_noref():
    class A:
        __slots__ = ()
        s = Signal(object)
        t = Signal(object)

    class B(A):
        __slots__ = ("__weakref__",)

    return [(A, "st"), (B, "st")]


def sig_frozen():
    @dataclass(frozen=True)
    class A:
        x: int = 1
        s: ClassVar[Signal] = Signal(object)
        t: ClassVar[Signal] = Signal(object)

    @dataclass(frozen=True, eq=True)
    class B(A):
        y: int = 1

    return [(A, "st"), (B, "st")]


def sig_equal():
    class A:
        s = Signal(object)

        def __eq__(self, other):
            return True

        def __hash__(self):
            return 1

    class B:
        __slots__ = ("__weakref__",)
        s = Signal(object)
        t = Signal(object)

        def __eq__(self, other):
            return True  # (and not hashable)

    class C:
        __slots__ = ("__weakref__",)
        s = Signal(object)

        def __eq__(self, other):
            return True

        def __bool__(self):
            return False

    return [(A, "s"), (B, "st"), (C, "s")]


def groups():
    class G(SignalGroup):
        a = Signal(object)
        b = Signal(object, name="a")

    class H(G):
        c = Signal(object)

    class K(G):
        a = Signal(object)

    return [(G, "ab"), (H, "abc"), (K, "ab")]


def reserved_groups():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")

        class G(SignalGroup):
            connect = Signal(object)
            all = Signal(object)

        class H(G):
            b = Signal(object)

    return [(G, ["connect", "all"]), (H, ["connect", "all", "b"])]


def owned_groups():
    class G(SignalGroup):
        a = Signal(object)
        b = Signal(object)

    class A:
        def __init__(self):
            self.events = G(self)

    class B:
        def __init__(self):
            self.events = G()

    return [(A, "ab"), (B, "ab")]


def fields_of(cls, names):
    cls.__annotations__ = dict.fromkeys(names, object)
    for n in names:
        setattr(cls, n, None)
    return cls


def desc_plain(**kw):
    @dataclass
    class A:
        a: object = None
        b: object = None
        events: ClassVar = SignalGroupDescriptor(**kw)

    @dataclass
    class B(A):
        c: object = None

    @dataclass
    class C:
        a: object = None
        events: ClassVar = SignalGroupDescriptor(**kw)

    return [(A, "ab"), (B, "abc"), (C, "a")]


def desc_uncached():
    return desc_plain(cache_on_instance=False)


def desc_slots():
    @dataclass(slots=True, weakref_slot=True)
    class A:
        a: object = None
        b: object = None
        events: ClassVar = SignalGroupDescriptor()

    @dataclass(slots=True, eq=False)
    class B:
        a: object = None
        c: object = None
        events: ClassVar = SignalGroupDescriptor()

    return [(A, "ab"), (B, "ac")]


def desc_two():
    """Two descriptors on one class."""
    @dataclass
    class A:
        a: object = None
        events: ClassVar = SignalGroupDescriptor()
        other: ClassVar = SignalGroupDescriptor(cache_on_instance=False)

    @dataclass
    class B(A):
        b: object = None

    return [(A, ["a", "other.a"]), (B, ["a", "b", "other.a", "other.b"])]


def desc_shared():
    """A group class used by several descriptors, with and without aliases."""
    class G(SignalGroup):
        a = Signal(object, object)
        b = Signal(object, object)

    def owner(**kw):
        class O:
            events = SignalGroupDescriptor(signal_group_class=G, collect_fields=False, **kw)

            def __init__(self):
                self.a = self.b = self.c = None

        return O

    class E(SignalGroup):
        extra = Signal(object, object)

    @dataclass
    class D:
        a: object = None
        events: ClassVar = SignalGroupDescriptor(signal_group_class=E)

    used = owner(signal_aliases={"c": "b", "b": None})
    used().events
    return [(owner(), "ab"), (used, ["a", "c>b"]),
            (owner(), "ab"), (D, "a")]


def desc_alias():
    @dataclass
    class A:
        a: object = None
        b: object = None
        events: ClassVar = SignalGroupDescriptor(signal_aliases={"a": "b_", "b": "a"})

    @dataclass
    class B(A):
        c: object = None

    return [(A, ["a>b_", "b>a"]), (B, ["a>b_", "b>a", "c"])]


def desc_decorated():
    @evented
    @dataclass
    class A:
        a: object = None

    @evented(events_namespace="mine")
    @dataclass
    class B:
        a: object = None
        b: object = None

    @dataclass
    class C(A):
        c: object = None

    return [(A, "a"), (B, ["mine.a", "mine.b"]), (C, "ac")]


def desc_attrs():
    @evented
    @attrs.define
    class A:
        a: object = None

    @evented
    @attrs.define(slots=False)
    class B:
        a: object = None
        b: object = None

    return [(A, "a"), (B, "ab")]


def desc_msgspec():
    class A(msgspec.Struct, weakref=True):
        a: object = None
        events: ClassVar = SignalGroupDescriptor()

    class B(A):
        b: object = None

    return [(A, "a"), (B, "ab")]


def models():
    class A(EventedModel):
        a: object = None
        b: object = None

    class B(A):
        c: object = None

    return [(A, "ab"), (B, "abc")]


FAMILIES = {
    # name: (make, kind, shallow copies too, released objects can be replaced)
    "plain": (sig_plain, "signal", False),
    "slots": (sig_slots, "signal", False),
    "noref": (sig_noref, "signal", True),
    "frozen": (sig_frozen, "signal", True),
    "equal": (sig_equal, "signal", False),
    "group": (groups, "group", False),
    "reserved": (reserved_groups, "group", False),
    "owned": (owned_groups, "fields", False),
    "descriptor": (desc_plain, "fields", False),
    "uncached": (desc_uncached, "fields", True),
    "dataclass slots": (desc_slots, "fields", True),
    "two": (desc_two, "fields", False),
    "shared": (desc_shared, "fields", False),
    "aliases": (desc_alias, "fields", False),
    "decorated": (desc_decorated, "fields", False),
    "attrs": (desc_attrs, "fields", False),
    "msgspec": (desc_msgspec, "fields", True),
    "models": (models, "model", True),
}


class Listener:
    def __init__(self, log, tag):
        self.log, self.tag = log, tag

    def on(self, *args):
        self.log.append((self.tag, args))


def reach(kind, o, name):
    """The signal instance called `name` of `o`."""
    if kind == "signal":
        return getattr(o, name)
    if kind == "group":
        return o[name]
    return whole(kind, o, name)[name.split(".")[-1].split(">")[-1]]


def whole(kind, o, name):
    """The group `name` belongs to."""
    if kind == "group":
        return o
    ns = name.split(".")[0] if "." in name else "events"
    return getattr(o, ns)


def value_field(name):
    return name.split(".")[-1].split(">")[0]


def fresh(cls, freed):
    others = []
    for _ in range(40 if freed else 1):
        o = cls()
        if id(o) in freed:
            break
        others.append(o)
    return o


@harness(
    configs=tiered(
        [{"family": f, "k": 3} for f in FAMILIES]
        + [{"family": f, "k": 2, "start": 2} for f in FAMILIES],
        [{"family": f, "k": 4} for f in FAMILIES]
        + [{"family": f, "k": 3, "start": 2} for f in FAMILIES]
        + [{"family": f, "k": 2, "start": 3} for f in FAMILIES],
    ),
    must_cover=["released", "address reused", "copied", "emitted", "other alive", "assigned",
                "group-level"],
)
def program(x, family, k, start=0):
    make, kind, shallow = FAMILIES[family]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        run(x, make, kind, shallow, k, start)


def run(x, make, kind, shallow, k, start):
    classes = make()
    log, keep = [], []
    alive = {}  # number -> object
    cls_of, seen, heard, grouped, freed = {}, {}, {}, {}, set()
    n = 0

    def add(o, c):
        nonlocal n
        if id(o) in freed:
            x.cover("address reused")
            freed.discard(id(o))
        alive[n], cls_of[n] = o, c
        seen[n], heard[n], grouped[n] = {}, {}, {}
        n += 1

    def drop(w):
        freed.add(id(alive[w]))
        for d in (alive, cls_of, seen, heard, grouped):
            del d[w]
        x.cover("released")

    # objects that all have listeners already
    for w in range(start):
        c = x.pick(f"start{w}", 0, len(classes) - 1)
        add(classes[c][0](), c)
        for name in classes[c][1]:
            sig = seen[w][name] = reach(kind, alive[w], name)
            keep.append(Listener(log, (w, name, len(keep))))
            sig.connect(keep[-1].on)
            heard[w][name] = [keep[-1].tag]
            del sig

    for i in range(0 if not start else 1, k + 1):
        ops = ["new", "connect", "emit"]
        if kind in ("fields", "model") and make is not owned_groups:
            ops.append("assign")
        if kind != "signal":
            ops.append("connect group")
        ops += ["release", "replace", "deepcopy"] + (["copy"] if shallow else [])
        if i == k:  # (the other operations have no effect that could be seen any more)
            ops = [p for p in ops if p in ("emit", "assign")]
        op = x.choice(f"op{i}", ops) if i else "new"
        if op == "new":
            x.assume(len(alive) < 3)
            c = x.pick(f"c{i}", 0, len(classes) - 1)
            add(classes[c][0](), c)
            continue
        x.assume(alive)
        w = x.choice(f"w{i}", sorted(alive))
        if op == "replace":
            c = x.pick(f"c{i}", 0, len(classes) - 1)
            drop(w)
            add(fresh(classes[c][0], freed), c)
            continue
        if op == "release":
            drop(w)
            continue
        o = alive[w]
        if op in ("copy", "deepcopy"):
            x.assume(len(alive) < 3)
            x.cover("copied")
            o2 = copy.copy(o) if op == "copy" else copy.deepcopy(o)
            x.check("another object", o2 is not o and type(o2) is type(o))
            add(o2, cls_of[w])
            del o, o2
            continue
        name = x.choice(f"n{i}", classes[cls_of[w]][1])
        sig = reach(kind, o, name)
        # identity
        x.check("a signal", isinstance(sig, SignalInstance))
        x.check("always the same", reach(kind, o, name) is sig)
        x.check("the same as before", seen[w].get(name, sig) is sig)
        seen[w][name] = sig
        for v, d in seen.items():
            for m, other in d.items():
                x.check("its own", (v, m) == (w, name) or other is not sig)
        if len(alive) > 1:
            x.cover("other alive")
        if op == "connect":
            keep.append(Listener(log, (w, name, len(keep))))
            sig.connect(keep[-1].on)
            heard[w].setdefault(name, []).append(keep[-1].tag)
        elif op == "connect group":
            ns = name.split(".")[0] if "." in name else ""
            x.cover("group-level")
            keep.append(Listener(log, (w, ns, "group", len(keep))))
            whole(kind, o, name).all.connect(keep[-1].on) if kind != "group" else (
                SignalGroup.all.fget(o).connect(keep[-1].on))
            grouped[w].setdefault(ns, []).append(keep[-1].tag)
        else:
            x.cover("emitted")
            v = x.obj(f"v{i}") if op == "emit" else object()
            del log[:]
            args = {"fields": (v, None), "model": (v,)}.get(kind, (v,))
            if make is owned_groups:
                args = (v,)
            todo = [name]
            if op == "assign":
                x.cover("assigned")
                f = value_field(name)
                # (all signals of this field; with two groups there are two of them)
                todo = [m for m in classes[cls_of[w]][1] if value_field(m) == f]
                old = getattr(o, f)
                setattr(o, f, v)
                args = (v, old) if kind == "fields" else (v,)
            else:
                sig.emit(*args)
            want = []
            for m in todo:
                want += [(t, args) for t in heard[w].get(m, ())]
                ns = m.split(".")[0] if "." in m else ""
                want += [(t, None) for t in grouped[w].get(ns, ())]
            got = [(t, a if "group" not in t else None) for t, a in log]
            x.check("exactly its own listeners", sorted(t for t, _ in got)
                    == sorted((t for t, _ in want)), info=(got, want))
            for t, a in got:
                x.check("arguments", a is None or x.same(a, args))
            for t, a in log:
                if "group" in t:
                    x.check("relayed", x.same(a[0].args, args)
                            and any(a[0].signal is reach(kind, o, m) for m in todo))
        del sig, o


# ------------------------------------------------- classes and proxies that go away


class Addresses:
    """id(): objects that exist at the same time differ, that is all.

    Whether a new object gets the address of one that is gone is decided by the solver.
    """

    def __init__(self, x):
        self.x, self.of, self.free, self.n = x, {}, [], 0

    def __call__(self, o):
        real = id(o)
        known = self.of.get(real)
        if known is not None and known[0]() is not None:
            return known[1]
        try:
            ref = weakref.ref(o, lambda _, a=self, r=real: a.gone(r))
        except TypeError:
            return -real
        pool = list(self.free)
        a = self.x.choice(f"address{self.n}", [*pool, "new"]) if pool else "new"
        self.n += 1
        if a == "new":
            a = self.n
        else:
            self.free.remove(a)
            self.x.cover("address reused")
        self.of[real] = (ref, a)
        return a

    def gone(self, real):
        ref, a = self.of.pop(real)
        self.free.append(a)


class TwoSignals(SignalGroup):
    p = Signal(object, object)
    q = Signal(object, object)


def class_maker(kind):
    """make(fields) -> class with these fields; all share a descriptor where they can"""
    if kind == "signals":
        return lambda fs: type("Sub", (), {f: Signal(object) for f in fs})
    if kind == "proxy":
        class Target:
            p = q = None

        return lambda fs: lambda: EventedObjectProxy(Target())
    ns = {"__annotations__": {"z": Any}, "z": None}
    if kind == "own comparisons":
        ns["__eq_operators__"] = {}
    if kind == "not collected":
        ns["events"] = SignalGroupDescriptor(
            signal_group_class=TwoSignals, collect_fields=False, cache_on_instance=False)
    else:
        ns["events"] = SignalGroupDescriptor()
    base = dataclass(eq=False)(type("Base", (), ns))

    def make(fs):
        return dataclass(eq=False)(type("Sub", (base,), {
            "__annotations__": {f: Any for f in fs}, **{f: None for f in fs}}))

    return make


@harness(
    configs=tiered(
        [{"kind": kd, "k": 4} for kd in
         ("collected", "own comparisons", "not collected", "signals", "proxy")],
        [{"kind": kd, "k": 5} for kd in
         ("collected", "own comparisons", "not collected", "signals", "proxy")],
    ),
    must_cover=["address reused", "emitted", "other alive"],
)
def released_classes(x, kind, k):
    """Objects of classes (or proxies) made after others have gone, whatever their addresses."""
    mods = [_group_descriptor, _signal, _evented_proxy]
    ids = Addresses(x)
    for m in mods:
        m.id = ids
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            run_released(x, kind, k)
    finally:
        for m in mods:
            del m.id
        gc.collect(1)


def run_released(x, kind, k):
    make = class_maker(kind)
    log, keep, alive = [], [], {}
    for i in range(k):
        ops = ["new p", "new q", "new pq"] if len(alive) < 2 else []
        if alive:
            ops += ["release", "assign"] if i < k - 1 else ["assign"]
        op = x.choice(f"op{i}", ops) if i else "new p"
        if op.startswith("new"):
            fs = op[4:]
            o = make(fs)()
            alive[i] = (o, fs)
            if kind == "proxy":
                keep.append(Listener(log, (i, "")))
                o.events.attribute_set.connect(keep[-1].on)
            elif kind == "signals":
                for f in fs:
                    keep.append(Listener(log, (i, f)))
                    getattr(o, f).connect(keep[-1].on)
            else:
                names = {"p", "q"} if kind == "not collected" else {"z", *fs}
                x.check("the signals of its class", set(o.events) == names, info=list(o.events))
                x.check("its own group", o.events.all.instance is o)
                for f in fs:
                    keep.append(Listener(log, (i, f)))
                    o.events[f].connect(keep[-1].on)
            del o
            continue
        w = x.choice(f"w{i}", sorted(alive))
        if op == "release":
            del alive[w]
            gc.collect(1)
            continue
        o, fs = alive[w]
        f = x.choice(f"f{i}", fs)
        v = x.obj(f"v{i}")
        del log[:]
        x.cover("emitted")
        if len(alive) > 1:
            x.cover("other alive")
        if kind == "signals":
            getattr(o, f).emit(v)
            want = [((w, f), (v,))]
        else:
            old = getattr(o, f)
            setattr(o, f, v)
            want = [((w, f), (v, old))]
            if kind == "proxy":
                want = [] if bool(x.is_(v, old)) else [((w, ""), (f, v))]
            elif v == old:
                want = []
        x.check("exactly its own listeners", [t for t, _ in log] == [t for t, _ in want],
                info=(log, want))
        x.check("arguments", x.same([a for _, a in log], [a for _, a in want]))
        del o


HARNESSES = [program, released_classes]
