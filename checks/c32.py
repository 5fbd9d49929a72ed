"""connect_setattr / connect_setitem: exact values, precise disconnection, no strong references."""
import warnings
import weakref
from dataclasses import dataclass
from functools import partial
from typing import ClassVar

from psygnal import EmissionInfo, EmitLoopError, Signal, SignalGroup, SignalGroupDescriptor

from checks import c08
from checks._lists import outcome
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "0-3 emitted arguments of any values, maxargs None and 0-3 (and the defaults), attributes, "
    "properties, slots, items of dicts, lists and own containers; emit, emit_fast, calls and "
    "held-back emissions; plain signals, fields of evented dataclasses and groups; histories of 4 "
    "operations (connect in either way, disconnect, disconnect by handle, disconnect all, release, "
    "emit) over 2 objects with 2 attributes and 2 keys (3 keys with any equalities and "
    "representations), arbitrary priorities",
    "thorough": "histories of 5 operations",
}
ASSUMPTIONS = ["setting the attribute or item does not raise", "single thread"]


def reset():
    c08.reset()


class Plain:
    def __init__(self):
        self.x = "x0"
        self.y = "y0"


class Slots:
    __slots__ = ("__weakref__", "x", "y")

    def __init__(self):
        self.x = "x0"
        self.y = "y0"


class NoRef:
    __slots__ = ("x", "y")

    def __init__(self):
        self.x = "x0"
        self.y = "y0"


class Prop:
    def __init__(self):
        self._x = "x0"
        self.y = "y0"

    @property
    def x(self):
        return self._x

    @x.setter
    def x(self, v):
        self._x = v


class Equal(Plain):
    def __eq__(self, other):
        return True

    __hash__ = None


class D(dict):
    pass


class L(list):
    pass


class Box:
    """Items found by equality."""

    def __init__(self):
        self.items = []

    def __setitem__(self, key, value):
        for p in self.items:
            if p[0] is key or p[0] == key:
                p[1] = value
                return
        self.items.append([key, value])


OBJS = {"plain": Plain, "slots": Slots, "noref": NoRef, "property": Prop, "equal": Equal}


def target(kind):
    """(object, attribute or key, read it, read the rest)"""
    if kind == "dict":
        o = D(x="x0", y="y0")
        return o, "x", lambda: o["x"], lambda: (o["y"], len(o))
    if kind == "new key":
        o = D(y="y0")
        return o, "x", lambda: o.get("x", "x0"), lambda: o["y"]
    if kind == "list":
        o = L(["a", "x0", "c"])
        return o, 1, lambda: o[1], lambda: (o[0], o[2], len(o))
    if kind == "negative":
        o = L(["a", "b", "x0"])
        return o, -1, lambda: o[-1], lambda: (o[0], o[1], len(o))
    o = OBJS[kind]()
    return o, "x", lambda: o.x, lambda: o.y


ITEMS = ["dict", "new key", "list", "negative"]


def expected(args, m):
    args = args if m is None else args[:m]
    return args[0] if len(args) == 1 else tuple(args)


@harness(
    configs=tiered([{"kind": k} for k in [*OBJS, *ITEMS]]),
    must_cover=["tuple", "single", "nothing", "paused"],
)
def values(x, kind):
    """What is assigned: all numbers of arguments, all limits, all ways to emit."""
    nsig = x.pick("signature", 0, 3)
    n = x.pick("emitted", 0, 3)
    sig = type("E", (), {"s": Signal(*[object] * nsig)})
    e = sig()
    s = e.s
    o, key, read, rest = target(kind)
    before = rest()
    m = x.choice("maxargs", ["default", None, 0, 1, 2, 3])
    kw = {} if m == "default" else {"maxargs": m}
    kw["on_ref_error"] = "ignore"
    prio = x.flag("priority")
    if prio:
        kw["priority"] = x.int("p")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if kind in ITEMS:
            h = s.connect_setitem(o, key, **kw)
        else:
            h = s.connect_setattr(o, key, **kw)
    x.check("warned about the default only", len(w) == (m == "default"))
    m = None if m == "default" else m
    x.check("not assigned yet", read() == "x0" and len(s) == 1)
    seen = []
    s.connect(lambda *a: seen.append(read()), max_args=0)
    args = tuple(x.obj(f"a{i}") for i in range(n))
    how = x.choice("how", ["emit", "call", "fast", "paused", "blocked"])
    if how == "emit":
        s.emit(*args)
    elif how == "call":
        s(*args)
    elif how == "fast":
        s.emit_fast(*args)
    elif how == "paused":
        x.cover("paused")
        with s.paused():
            s.emit(*args)
            x.check("held back", read() == "x0")
    else:
        with s.blocked():
            s.emit(*args)
        x.check("blocked", read() == "x0")
        return
    want = expected(args, m)
    x.cover("single" if len(args if m is None else args[:m]) == 1 else
            "tuple" if want else "nothing")
    x.check("assigned", x.same(read(), want), info=(read(), want))
    x.check("nothing else", rest() == before)
    x.check("called once each", len(seen) == 1)
    # what the connection stands for
    f = h.dereference()
    x.check("dereferenced", isinstance(f, partial) and (
        f.args == (o, key) if kind not in ITEMS else f.args == (key,)))
    v = x.obj("direct")
    f(v)
    x.check("sets directly", x.same(read(), v))
    if x.flag("by handle"):
        s.disconnect(h, missing_ok=False)
    elif kind in ITEMS:
        s.disconnect_setitem(o, key, missing_ok=False)
    else:
        s.disconnect_setattr(o, key, missing_ok=False)
    x.check("disconnected", len(s) == 1)
    s.emit(*args)
    x.check("not assigned any more", x.same(read(), v))


@harness(configs=[{}], must_cover=["field", "relay", "rejected"])
def sources(x):
    """Fields of evented dataclasses (one argument by default), groups; rejected connections."""
    @dataclass
    class P:
        a: object = None
        b: object = None
        events: ClassVar = SignalGroupDescriptor()

    class G(SignalGroup):
        a = Signal(object)
        b = Signal(object, object)

    o = Plain()
    d = D()
    v, w = x.obj("v"), x.obj("w")
    item = x.flag("item")
    src = x.choice("source", ["field", "relay", "rejected"])
    x.cover(src)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if src == "field":
            p = P()
            sig = p.events.a
            default = x.flag("default")
            kw = {} if default else {"maxargs": x.choice("m", [None, 1, 2])}
            if item:
                sig.connect_setitem(d, "k", **kw)
            else:
                sig.connect_setattr(o, "x", **kw)
            m = kw.get("maxargs", None if item else 1)
            if x.flag("other field"):
                p.b = v
                x.check("untouched", o.x == "x0" and not d)
                return
            x.assume(v is not None)
            p.a = v
            got = d.get("k") if item else o.x
            x.check("the new value", x.same(got, expected((v, None), m)), info=got)
        elif src == "relay":
            g = G()
            if item:
                g.all.connect_setitem(d, "k", maxargs=1)
            else:
                g.all.connect_setattr(o, "x", maxargs=1)
            x.check("one", len(g.all) == 1)
            which = x.choice("which", ["a", "b"])
            args = (v,) if which == "a" else (v, w)
            g[which].emit(*args)
            got = d.get("k") if item else o.x
            x.check("info", isinstance(got, EmissionInfo) and got.signal is g[which]
                    and x.same(got.args, args))
            x.check("y", o.y == "y0" and len(d) == item)
            if item:
                g.all.disconnect_setitem(d, "k", missing_ok=False)
            else:
                g.all.disconnect_setattr(o, "x", missing_ok=False)
            x.check("none", len(g.all) == 0 and len(g.a) == len(g.b) == 0)
        else:
            s = type("E", (), {"s": Signal(object)})().s
            calls = [
                (lambda: s.connect_setattr(o, "missing", 1), AttributeError),
                (lambda: s.connect_setitem(object(), "k", 1), TypeError),
                (lambda: s.disconnect_setitem(object(), "k"), TypeError),
                (lambda: s.disconnect_setattr(o, "x", missing_ok=False), ValueError),
                (lambda: s.disconnect_setitem(d, "x", missing_ok=False), ValueError),
            ]
            some = x.flag("connected")
            if some:
                s.connect_setattr(o, "y", 1)
            f, err = calls[x.pick("call", 0, 4)]
            try:
                f()
                raised = None
            except Exception as e:
                raised = type(e)
            x.check("error", raised is err, info=raised)
            x.check("unchanged", len(s) == some and s.disconnect_setattr(o, "x") is None
                    and s.disconnect_setitem(d, "y") is None and len(s) == some)


class Key:
    def __init__(self, v, text):
        self.v, self.text = v, text

    def __eq__(self, other):
        return isinstance(other, Key) and self.v == other.v

    def __hash__(self):
        return 1

    def __repr__(self):
        return self.text


class Both(Box):
    """Attributes and items."""

    def __init__(self):
        super().__init__()
        self.__dict__.update(x="0", X="0", log=[])

    def __setattr__(self, name, value):
        if name in ("x", "X"):
            self.log.append((("attr", name), value))
        object.__setattr__(self, name, value)

    def __setitem__(self, key, value):
        self.log.append((("item", key), value))


@harness(
    configs=tiered(
        [{"what": w, "k": 3, "start": st} for w in ("names", "keys") for st in ("connect", "connect limited")],
        [{"what": w, "k": 4, "start": st} for w in ("names", "keys") for st in ("connect", "connect limited")],
    ),
    must_cover=["released", "disconnected", "missing", "emitted", "twice", "equal keys"],
)
def history(x, what, k, start):
    """Connections of setters over several objects, attributes and keys."""
    class E:
        s = Signal(object, object)

    e = E()
    s = e.s
    objs = {0: Both(), 1: Both()}
    logs = {i: o.log for i, o in objs.items()}
    if what == "names":
        slots = [("attr", "x"), ("attr", "X"), ("item", "x"), ("item", 1)]
    else:
        same = x.flag("same representation")
        slots = [("item", Key(x.obj(f"k{i}"), "K" if same else f"K{i}")) for i in range(3)]
        if slots[0][1] == slots[1][1]:
            x.cover("equal keys")
    conns = []  # (object, slot, limit, priority, order, handle)

    def matches(c, w, slot):
        return c[0] == w and c[1][0] == slot[0] and c[1][1] == slot[1]

    for i in range(k + 1):
        ops = ["connect", "connect limited", "connect partial", "connect first", "disconnect", "by handle",
               "disconnect partial", "release", "emit"]
        if i == k:
            ops = ["emit"]
        op = x.choice(f"op{i}", ops) if i else start
        if op == "emit":
            x.cover("emitted")
            args = (x.obj(f"a{i}"), x.obj(f"b{i}"))
            for lg in logs.values():
                del lg[:]
            s.emit(*args)
            want = {w: [] for w in logs}
            for c in sorted(conns, key=lambda c: (-c[3], c[4])):
                want[c[0]].append((c[1], expected(args, c[2])))
            for w in logs:
                x.check("number of assignments", len(logs[w]) == len(want[w]))
                for (a, v), (b, u) in zip(logs[w], want[w]):
                    x.check("where", a[0] == b[0] and a[1] is b[1])
                    x.check("value", x.same(v, u))
            x.check("length", len(s) == len(conns))
            continue
        x.assume(objs)
        if op == "by handle":
            x.assume(conns)
            c = conns[x.pick(f"h{i}", 0, len(conns) - 1)]
            # (handles of equal connections are interchangeable)
            same_ = [d for d in conns if matches(d, c[0], c[1])]
            x.assume(len(same_) == 1)
            x.assume(c[5] is not None)
            s.disconnect(c[5], missing_ok=False)
            conns.remove(c)
            x.check("length", len(s) == len(conns))
            continue
        w = x.choice(f"w{i}", sorted(objs)) if i else 0
        if op == "release":
            x.cover("released")
            r = weakref.ref(objs[w])
            del objs[w]
            x.check("not kept alive", r() is None)
            conns = [c for c in conns if c[0] != w]
            x.check("removed", len(s) == len(conns))
            continue
        slot = slots[x.pick(f"s{i}", 0, len(slots) - 1)] if i else slots[0]
        o = objs[w]
        setter = (partial(setattr, o, slot[1]) if slot[0] == "attr"
                  else partial(o.__setitem__, slot[1]))
        if op.startswith("connect"):
            if any(matches(c, w, slot) for c in conns):
                x.cover("twice")
            m = 1 if op in ("connect limited", "connect partial") else None
            pr = x.int(f"p{i}") if op == "connect first" else 0
            kw = {"priority": pr} if op == "connect first" else {}
            if op == "connect partial":
                s.connect(setter)
                h = None
            elif slot[0] == "attr":
                h = s.connect_setattr(o, slot[1], m, **kw)
            else:
                h = s.connect_setitem(o, slot[1], m, **kw)
            conns.append((w, slot, m, pr, i, h))
            conns.sort(key=lambda c: (-c[3], c[4]))
        else:
            found = [c for c in conns if matches(c, w, slot)]
            ok = x.flag(f"missing_ok{i}") if not found else False
            f = {("disconnect", "attr"): s.disconnect_setattr,
                 ("disconnect", "item"): s.disconnect_setitem}.get((op, slot[0]))
            err = None
            try:
                if f is not None:
                    f(o, slot[1], missing_ok=ok)
                else:
                    s.disconnect(setter, missing_ok=ok)
            except ValueError:
                err = True
            if found:
                x.cover("disconnected")
                x.check("found", err is None)
                # the one that is called first
                conns.remove(min(found, key=lambda c: (-c[3], c[4])))
            else:
                x.cover("missing")
                x.check("missing", (err is None) == ok)
        x.check("length", len(s) == len(conns), info=(len(s), len(conns)))
        x.check("contains", (setter in s) == any(matches(c, w, slot) for c in conns))
        del o, setter


# explored also with None among the arbitrary objects
values.nones = [
    {"kind": "plain"},
    {"kind": "dict"},
]
history.nones = [{"what": "keys", "k": 2, "start": "connect"}]

HARNESSES = [values, sources, history]
