"""Events of EventedList: replay of the log, contents visible at every event."""
from psygnal.containers import EventedList

from checks._lists import both, iterables, objs, outcome, slc
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "lists of 0-3 arbitrary elements, every mutating operation with arbitrary "
    "(unbounded) integer indices, all slices with bounds up to one beyond either end and "
    "steps -2..2, arguments of 0-3 elements; programs of 3 operations",
    "thorough": "lists of up to 5 elements, programs of 4 operations",
}
ASSUMPTIONS = ["no callbacks that modify the list are connected"]

NAMES = ("inserting", "inserted", "removing", "removed", "moving", "moved", "changed",
         "reordered")


class Watch:
    """Logs each event with the contents at that moment, and checks it on the spot."""

    def __init__(self, x, ev):
        self.x, self.ev, self.log = x, ev, []
        self.copy = x.list(list(ev))
        self.open = None
        for name in NAMES:
            getattr(ev.events, name).connect(getattr(self, "on_" + name))
        self.relayed = []
        ev.events.connect(self.relay)

    def relay(self, info):
        self.relayed.append((info.signal.name, info.args))

    def now(self, what):
        """The list looks like the replayed copy."""
        self.x.check(what, self.x.same(list(self.ev), list(self.copy)),
                     info=(self.log, list(self.ev), list(self.copy)))

    def begin(self, *e):
        self.log.append(e)
        self.x.check("events are paired", self.open is None, info=self.log)
        self.open = e
        self.now("announced before the change")

    def end(self, name, *e):
        self.log.append((name, *e))
        self.x.check("a matching announcement", self.open is not None, info=self.log)
        ok = self.open is not None and self.x.same(tuple(self.open), e)
        self.x.check("the same announcement", ok, info=self.log)
        self.open = None

    def inrange(self, i, n):
        return isinstance(i, int) and bool(self.x.and_(i >= 0, i < n))

    def on_inserting(self, i):
        self.begin("insert", i)

    def on_inserted(self, i, v):
        self.end("inserted", "insert", i)
        ok = self.inrange(i, len(self.copy) + 1)
        self.x.check("insert position", ok, info=self.log)
        if ok:
            self.copy.insert(i, v)
        self.now("inserted is confirmed after the change")

    def on_removing(self, i):
        self.begin("remove", i)

    def on_removed(self, i, v):
        self.end("removed", "remove", i)
        ok = self.inrange(i, len(self.copy))
        self.x.check("remove position", ok, info=self.log)
        if ok:
            self.x.check("removed value", self.x.same(self.copy[i], v))
            del self.copy[i]
        self.now("removed is confirmed after the change")

    def on_moving(self, i, j):
        self.begin("move", i, j)

    def on_moved(self, i, j, v):
        # announced: in front of which item; confirmed: the item's new position
        n = len(self.copy)
        self.end("moved", "move", i, self.x.ite(j > i, j + 1, j))
        ok = self.inrange(i, n) and self.inrange(j, n)
        self.x.check("move positions", ok, info=self.log)
        if ok:
            self.x.check("moved value", self.x.same(self.copy[i], v))
            del self.copy[i]
            self.copy.insert(j, v)
        self.now("moved is confirmed after the change")

    def on_changed(self, key, old, new):
        self.log.append(("changed", key, old, new))
        self.x.check("changed within nothing else", self.open is None)
        got = outcome(lambda: self.copy[key])
        self.x.check("changed position", got.kind == "ok", info=self.log)
        if got.kind == "ok":
            self.x.check("old value", self.x.same(got.value, old), info=self.log)
            self.copy[key] = new
        self.now("changed is confirmed after the change")

    def on_reordered(self):
        self.log.append(("reordered",))
        self.x.check("reordered within nothing else", self.open is None)
        if self.reversing:
            self.reversing = False
            self.copy.reverse()
        self.now("reordered is confirmed after the change")

    reversing = False

    def names(self):
        return [e[0] for e in self.log]

    def done(self):
        self.x.check("pairs are complete", self.open is None, info=self.log)
        self.now("replaying the events gives the new contents")
        # the group re-emits each of them
        x = self.x
        x.check("relayed by the group", len(self.relayed) == len(self.log))


def expected(op, before, after, a, changed_something):
    """How many events of each kind"""
    n, m = len(before), len(after)
    if op in ("insert", "append", "extend", "iadd"):
        return ["insert", "inserted"] * (m - n)
    if op in ("del", "pop", "popi", "remove", "clear"):
        return ["remove", "removed"] * (n - m)
    if op == "reverse":
        return ["reordered"]
    return None


def run(x, op, a, a2, items):
    ev, ref = EventedList(items), x.list(items)
    before = list(ref)
    w = Watch(x, ev)
    w.reversing = op == "reverse"
    got, want = both(x, op, a(ev) if callable(a) else a, a2(ref) if callable(a2) else a2,
                     ev, ref)
    after = list(ref)
    w.done()
    x.check("same contents", x.same(list(ev), after))
    names = w.names()
    if want.kind == "err":
        x.cover("error")
        x.check("nothing is confirmed", not any(
            k in ("inserted", "removed", "moved", "changed", "reordered") for k in names),
            info=w.log)
        return w, before, after
    exp = expected(op, before, after, a, None)
    if exp is not None:
        x.check("exactly the events of the operation", names == exp, info=w.log)
    elif op == "set":
        k, v = a if not callable(a) else a(ev)
        if isinstance(k, slice):
            x.check("one changed event", names == ["changed"], info=w.log)
            x.check("the slice as given, the values as lists", w.log[0][1] == k
                    and isinstance(w.log[0][2], list) and isinstance(w.log[0][3], list))
        elif x.same(x.list(before)[k], v):
            x.cover("same object")
            x.check("assigning the same object emits nothing", names == [], info=w.log)
        else:
            x.check("one changed event", names == ["changed"], info=w.log)
            x.check("the index as given", x.same(w.log[0][1], k))
            x.check("the new value", x.same(w.log[0][3], v))
    return w, before, after


SIZES = tiered([{"n": k} for k in range(4)], [{"n": k} for k in range(6)])


@harness(configs=SIZES, must_cover=["error", "same object"])
def index(x, n):
    items = objs(x, "o", n)
    op = x.choice("op", ["set", "del", "popi", "insert"])
    i = x.int("i")
    v = x.obj("v")
    a = (i, v) if op in ("set", "insert") else i
    run(x, op, a, a, items)


@harness(configs=SIZES, must_cover=["error"])
def plain(x, n):
    items = objs(x, "o", n)
    op = x.choice("op", ["append", "pop", "remove", "reverse", "clear"])
    v = x.obj("v") if x.flag("new") or n == 0 else items[x.pick("which", 0, n - 1)]
    run(x, op, v, v, items)


@harness(configs=SIZES)
def many(x, n):
    items = objs(x, "o", n)
    op = x.choice("op", ["extend", "iadd"])
    if x.flag("itself"):
        run(x, op, lambda l: l, lambda l: l, items)
        return
    m = x.pick("m", 0, 2)
    a, b = iterables(x, "form", objs(x, "p", m))
    run(x, op, a, b, items)


@harness(configs=SIZES, must_cover=["error"])
def delete(x, n):
    items = objs(x, "o", n)
    s = slc(x, "s", n)
    run(x, "del", s, s, items)


@harness(
    configs=tiered(
        [{"n": n, "m": m} for n in range(4) for m in range(4)],
        [{"n": n, "m": m} for n in range(6) for m in range(5)],
    ),
    must_cover=["error"],
)
def assign(x, n, m):
    items = objs(x, "o", n)
    s = slc(x, "s", n)
    new = objs(x, "p", m)
    if m == n and x.flag("itself"):
        run(x, "set", lambda l: (s, l), lambda l: (s, l), items)
    elif m == 0 and x.flag("not iterable"):
        run(x, "set", (s, 5), (s, 5), items)
    else:
        run(x, "set", (s, tuple(new)), (s, tuple(new)), items)


@harness(configs=SIZES)
def reverse(x, n):
    """Individually reported reversal"""
    items = objs(x, "o", n)
    ev = EventedList(items)
    w = Watch(x, ev)
    ev.reverse(emit_individual_events=True)
    w.done()
    x.check("reversed", x.same(list(ev), items[::-1]))
    x.check("changes, then reordered", w.names()[-1:] == ["reordered"]
            and set(w.names()[:-1]) <= {"changed"}, info=w.log)


@harness(
    configs=tiered(
        [{"n": 0, "k": 3}, {"n": 1, "k": 2}, {"n": 2, "k": 2}],
        [{"n": 0, "k": 4}, {"n": 1, "k": 3}, {"n": 2, "k": 3}],
    )
)
def history(x, n, k):
    items = objs(x, "o", n)
    ev, ref = EventedList(items), x.list(items)
    w = Watch(x, ev)
    for j in range(k):
        op = x.choice(f"op{j}", ["insert", "append", "set", "popi", "pop", "remove", "del",
                                 "reverse", "clear", "move"])
        if op == "move":
            a, b = x.int(f"i{j}"), x.int(f"j{j}")
            got = outcome(lambda: ev.move(a, b))
            ref[:] = list(ev)  # (what it does is the subject of C19)
            continue
        if op in ("insert", "set"):
            a = (x.int(f"i{j}"), x.obj(f"v{j}"))
        elif op in ("popi", "del"):
            a = x.int(f"i{j}")
        else:
            a = x.obj(f"v{j}")
        w.reversing = op == "reverse"
        both(x, op, a, a, ev, ref)
        w.now("replaying the events gives the contents")
    w.done()
    x.check("same contents", x.same(list(ev), list(ref)))


@harness(configs=[{}])
def validated(x):
    """Events report what is stored when a subclass converts or rejects values."""

    class Conv(EventedList):
        def _pre_insert(self, value):
            if value is None:
                raise ValueError("no")
            return value

    items = objs(x, "o", 2)
    ev = Conv(items)
    w = Watch(x, ev)
    op = x.choice("op", ["append", "insert", "set", "slice", "extend"])
    i = x.int("i", -2, 1)
    f = {
        "append": lambda: ev.append(None),
        "insert": lambda: ev.insert(i, None),
        "set": lambda: ev.__setitem__(i, None),
        "slice": lambda: ev.__setitem__(slice(0, 1), [items[0], None]),
        "extend": lambda: ev.extend([None]),
    }[op]
    got = outcome(f)
    x.check("rejected", got.kind == "err" and got.value is ValueError)
    x.check("nothing is confirmed", w.log == [], info=w.log)
    x.check("unchanged", x.same(list(ev), items))
    w.done()


HARNESSES = [index, plain, many, delete, assign, reverse, history, validated]
