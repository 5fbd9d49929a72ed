"""child_event of EventedList after every bounded history of the list."""
from dataclasses import dataclass

from psygnal import Signal, SignalGroup, SignalGroupDescriptor
from psygnal.containers import EventedDict, EventedList, EventedObjectProxy, EventedSet, Selection

from checks._lists import outcome
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "all histories of 2-3 operations (insert, append, extend, assign an item or a "
    "slice, delete an item or a slice, pop, remove, clear, reverse, move, move_multiple) "
    "over 3 children of 5 kinds (signals, signal group, group itself, objects equal to each "
    "other, evented dataclass), followed by an emission of every child with arbitrary "
    "arguments; lists of up to 4 items; every container, proxy and object with a group of its own, "
    "at 3 positions, in a nested list, under each of its kinds of change",
    "thorough": "histories of 4 operations",
}
ASSUMPTIONS = [
    "each child occurs at most once in the list, and has at most one attribute for each of "
    "its signals",
]


class Sig:
    a = Signal(int)
    b = Signal(object, int)


class Same:
    """equal to every other one"""

    a = Signal(int)
    b = Signal(object, int)

    def __eq__(self, other):
        return isinstance(other, Same)

    def __hash__(self):
        return 1


class Group(SignalGroup):
    a = Signal(int)
    b = Signal(object, int)


class Owner:
    def __init__(self):
        self.events = Group(instance=self)


@dataclass
class Data:
    a: int = 0
    b: int = 0
    events = SignalGroupDescriptor()


KINDS = {
    "signals": (Sig, lambda c: c),
    "equal": (Same, lambda c: c),
    "group": (Owner, lambda c: c.events),
    "is group": (Group, lambda c: c),
    "plain": (object, None),
}


def check_emissions(x, kind, ev, ref, children, log):
    """Every child emits: exactly those in the list are reported."""
    get = KINDS[kind][1]
    for n, c in enumerate(children):
        if get is None:
            continue
        p, q = x.obj(f"p{n}"), x.int(f"q{n}")
        del log[:]
        get(c).b.emit(p, q)
        at = [i for i, r in enumerate(ref) if r is c]
        if not at:
            x.check("not in the list: not reported", log == [], info=(kind, ref, log))
            continue
        x.check("in the list: reported once", len(log) == 1, info=(kind, ref, log))
        if len(log) == 1:
            idx, obj, emitter, args = log[0]
            x.check("its position", idx == at[0], info=(ref, log))
            x.check("the object", obj is c)
            x.check("the emitter", emitter is get(c).b)
            x.check("the arguments", x.same(args, (p, q)))


@harness(
    configs=tiered(
        [{"k": 3, "kind": "signals"}]
        + [{"k": 2, "kind": k} for k in ("group", "equal", "is group", "plain")],
        [{"k": 4, "kind": k} for k in ("signals", "group", "equal")]
        + [{"k": 3, "kind": k} for k in ("is group", "plain")],
    ),
)
def history(x, k, kind):
    cls = KINDS[kind][0]
    children = [cls() for _ in range(3)]
    n0 = x.pick("n0", 0, 2)
    ev = EventedList(children[:n0], child_events=True)
    ref = children[:n0]
    used = list(ref)
    log = []
    ev.events.child_event.connect(lambda *a: log.append(a))

    def absent(nm):
        """a child that is not in the list"""
        out = [c for c in children if not any(c is r for r in ref)]
        if not out:
            return None
        # (those that were never in the list are interchangeable)
        fresh = [c for c in out if not any(c is u for u in used)]
        out = [c for c in out if any(c is u for u in used)] + fresh[:1]
        c = x.choice(nm, out)
        used.append(c)
        return c

    for j in range(k):
        op = x.choice(
            f"op{j}",
            ["insert", "append", "extend", "set", "slice", "del", "del slice", "pop",
             "remove", "clear", "reverse", "move", "multi"],
        )
        n = len(ref)
        if op in ("insert", "append", "set", "extend", "slice"):
            c = absent(f"c{j}")
            if c is None:
                return
        if op == "insert":
            i = x.pick(f"i{j}", -n, n)
            ev.insert(i, c), ref.insert(i, c)
        elif op == "append":
            ev.append(c), ref.append(c)
        elif op == "extend":
            ev.extend([c, None]), ref.extend([c, None])
        elif op == "set":
            if not n:
                return
            i = x.pick(f"i{j}", -n, n - 1)
            ev[i] = c
            ref[i] = c
        elif op == "slice":
            i, m = x.pick(f"i{j}", 0, n), x.pick(f"m{j}", 0, n)
            keep = ref[i:i + 1] if i < m and x.flag(f"keep{j}") else []
            ev[i:m] = [c, *keep]
            ref[i:m] = [c, *keep]
        elif op == "del":
            if not n:
                return
            i = x.pick(f"i{j}", -n, n - 1)
            del ev[i], ref[i]
        elif op == "del slice":
            i, m = x.pick(f"i{j}", 0, n), x.pick(f"m{j}", 0, n)
            del ev[i:m], ref[i:m]
        elif op == "pop":
            if not n:
                return
            x.check("popped", ev.pop() is ref.pop())
        elif op == "remove":
            if not n:
                return
            c = ref[x.pick(f"i{j}", 0, n - 1)]
            ev.remove(c), ref.remove(c)
        elif op == "clear":
            ev.clear(), ref.clear()
        elif op == "reverse":
            ev.reverse(emit_individual_events=x.flag(f"ind{j}")), ref.reverse()
        elif op == "move":
            if not n:
                return
            i, m = x.pick(f"i{j}", 0, n - 1), x.pick(f"m{j}", 0, n)
            ev.move(i, m)
            ref = list(ev)
        elif op == "multi":
            ev.move_multiple([n - 1] if n else [], 0)
            ref = list(ev)
        x.check("contents", len(ev) == len(ref) and all(a is b for a, b in zip(ev, ref)))
    check_emissions(x, kind, ev, ref, children, log)


@harness(configs=[{"kind": k} for k in ("signals", "group", "equal", "is group")])
def failing(x, kind):
    """Operations that raise leave the connections of the children alone."""
    cls = KINDS[kind][0]
    children = [cls() for _ in range(3)]
    ev = EventedList(children[:2], child_events=True)
    log = []
    ev.events.child_event.connect(lambda *a: log.append(a))
    ref = list(children[:2])
    op = x.choice("op", ["set", "slice", "del", "insert", "pop", "same"])
    f = {
        "set": lambda: ev.__setitem__(5, children[2]),
        "slice": lambda: ev.__setitem__(slice(0, 2, 2), [children[2], None]),
        "del": lambda: ev.__delitem__(2),
        "insert": lambda: ev.insert("a", children[2]),
        "pop": lambda: ev.pop(2),
        "same": lambda: ev.__setitem__(1, children[1]),
    }[op]
    got = outcome(f)
    x.check("raises", (got.kind == "err") == (op != "same"))
    x.check("contents", all(a is b for a, b in zip(ev, ref)) and len(ev) == 2)
    check_emissions(x, kind, ev, ref, children, log)


@harness(configs=[{}])
def fields(x):
    """Evented dataclasses, nested groups, several lists holding the same child."""
    a, b = Data(), Data()  # equal to each other
    one, two = EventedList([a, b], child_events=True), EventedList([b], child_events=True)
    off = EventedList([a, b])
    log = {0: [], 1: [], 2: []}
    for n, l in enumerate((one, two, off)):
        l.events.child_event.connect(lambda *args, n=n: log[n].append(args))
    v = x.int("v")
    which = x.pick("which", 0, 1)
    obj = (a, b)[which]
    field = x.choice("field", ["a", "b"])
    if x.flag("taken out of two"):
        two.clear()
        x.cover("taken out")
    setattr(obj, field, v)
    changed = v != 0
    want0 = [(which, obj, getattr(obj.events, field), (v, 0))] if changed else []
    want1 = [(0, obj, getattr(obj.events, field), (v, 0))] if changed and which and len(two) else []

    def same(got, want):
        return len(got) == len(want) and all(
            g[0] == w[0] and g[1] is w[1] and g[2] is w[2] and bool(x.same(g[3], w[3]))
            for g, w in zip(got, want)
        )

    x.check("first list", same(log[0], want0), info=(log, want0))
    x.check("second list", same(log[1], want1), info=(log, want1))
    x.check("without child events", log[2] == [])


@harness(configs=[{"mode": m} for m in ("queued", "latest-only", "immediate")])
def nested(x, mode):
    """Children emitting while another child's event is being delivered."""

    class Child:
        sig = Signal(int, reemission=mode)

    c, d = Child(), Child()
    ev = EventedList([c, d], child_events=True)
    log = []
    first = x.pick("first", 0, 1)
    other = 1 - first
    pair = (c, d)
    removed = x.flag("remove other")

    def on_child(idx, obj, emitter, args):
        log.append((idx, obj, emitter, args))
        if len(log) == 1:
            if removed:
                del ev[other]
            pair[other].sig.emit(7)

    ev.events.child_event.connect(on_child)
    v = x.int("v")
    pair[first].sig.emit(v)
    pair[first].sig.emit(8)
    want = [(first, pair[first], (v,))]
    if not removed:
        want.append((other, pair[other], (7,)))
    want.append((0 if removed else first, pair[first], (8,)))
    x.check("all reported", len(log) == len(want), info=(log, want))
    for g, w in zip(log, want):
        x.check("right", g[0] == w[0] and g[1] is w[1] and g[2] is w[1].sig
                and bool(x.same(g[3], w[2])), info=(log, want))


class Standalone:
    """An object whose signals are in a group of its own (not a descriptor's)."""

    def __init__(self):
        self.changes = ValueGroup()


class ValueGroup(SignalGroup):
    value = Signal(int)


def make_container(kind):
    """Return an evented object, and the functions that change it (with its signals)."""
    if kind == "list":
        c = EventedList([1, 2])
        return c, c.events, [lambda v: c.append(v), lambda v: c.__setitem__(0, v), lambda v: c.pop()]
    if kind == "dict":
        c = EventedDict({"a": 1})
        return c, c.events, [lambda v: c.__setitem__("a", v), lambda v: c.__setitem__("b", v),
                             lambda v: c.pop("a")]
    if kind == "set":
        c = EventedSet([1])
        return c, c.events, [lambda v: c.add(2), lambda v: c.discard(1), lambda v: c.clear()]
    if kind == "selection":
        c = Selection([1])
        return c, c.events, [lambda v: c.add(2), lambda v: c.remove(1)]
    if kind == "group":
        c = Standalone()
        return c, c.changes, [lambda v: c.changes.value.emit(v)]
    c = EventedObjectProxy(Plain())
    return c, c.events, [lambda v: setattr(c, "a", v)]


class Plain:
    a = 0


@harness(configs=[{"kind": k} for k in ("list", "dict", "set", "selection", "group", "proxy")])
def containers(x, kind):
    """Evented containers, and other objects that hold their signals themselves."""
    obj, group, changes = make_container(kind)
    twin = make_container(kind)[0]  # often equal to obj
    pos = x.pick("position", 0, 2)
    items = [None, twin]
    items.insert(pos, obj)
    ev = EventedList(items, child_events=True)
    outer = EventedList([ev], child_events=True)
    own, got, far = [], [], []
    for name in group:
        group[name].connect(lambda *args, name=name: own.append((name, args)), check_nargs=False)
    ev.events.child_event.connect(lambda *a: got.append(a))
    outer.events.child_event.connect(lambda *a: far.append(a))
    if x.flag("remove the first"):
        del ev[0]
        pos -= 1
    if x.flag("add one"):
        ev.insert(0, make_container(kind)[0])
        pos += 1
    inside = pos >= 0 and any(i is obj for i in ev)
    own.clear(), got.clear(), far.clear()
    v = x.int("v")
    changes[x.pick("change", 0, len(changes) - 1)](v)
    want = own if inside else []
    if inside and own:
        x.cover("inside")
    x.check("each once", len(got) == len(want), info=(got, own, inside))
    for (idx, o, emitter, args), (name, wargs) in zip(got, want):
        x.check("what it says", ev[idx] is obj and o is obj and emitter is group[name]
                and len(args) == len(wargs) and all(bool(x.same(p, q)) for p, q in zip(args, wargs)),
                info=((idx, o, emitter, args), (name, wargs)))
    x.check("the outer list", len(far) == len(got), info=(far, got))
    for f, g in zip(far, got):
        x.check("what the outer list says", f[0] == 0 and f[1] is ev
                and f[2] is ev.events.child_event and f[3][1] is g[1] and f[3][2] is g[2],
                info=(f, g))


HARNESSES = [history, failing, fields, nested, containers]
