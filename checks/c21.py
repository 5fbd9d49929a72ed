"""EventedDict against the built-in dict, with the replay of its events."""
from psygnal.containers import EventedDict

from checks._lists import Outcome, objs, outcome
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "dicts of 0-3 arbitrary distinct keys (all patterns in which the key of an "
    "operation coincides with one of them) with arbitrary values and with None, False and the empty string; every operation; update "
    "with mappings, pairs, keywords, evented dicts and itself (0-2 items); programs of 2-3 "
    "operations",
    "thorough": "dicts of up to 4 keys, programs of 3-4 operations",
}
ASSUMPTIONS = ["no callbacks that modify the dict are connected"]

NAMES = ("adding", "added", "changing", "changed", "removing", "removed")
_MISSING = object()


class Watch:
    def __init__(self, x, ev):
        self.x, self.ev, self.log, self.open = x, ev, [], None
        self.copy = dict(ev.items())
        self.relayed = []
        for name in NAMES:
            getattr(ev.events, name).connect(getattr(self, "on_" + name))
        ev.events.connect(lambda info: self.relayed.append(info.signal.name))

    def now(self, what):
        self.x.check(what, same_dict(self.x, self.ev, self.copy),
                     info=(self.log, self.ev, self.copy))

    def begin(self, name, k):
        self.log.append((name, k))
        self.x.check("events are paired", self.open is None, info=self.log)
        self.open = (name, k)
        self.now("announced before the change")

    def end(self, name, begun, k):
        o, self.open = self.open, None
        self.x.check("a matching announcement",
                     o is not None and o[0] == begun and bool(self.x.equal(o[1], k)),
                     info=self.log)

    def on_adding(self, k):
        self.begin("adding", k)
        self.x.check("adding a new key", k not in self.copy)

    def on_changing(self, k):
        self.begin("changing", k)
        self.x.check("changing an existing key", k in self.copy)

    def on_removing(self, k):
        self.begin("removing", k)
        self.x.check("removing an existing key", k in self.copy)

    def on_added(self, k, v):
        self.log.append(("added", k, v))
        self.end("added", "adding", k)
        self.copy[k] = v
        self.now("added is confirmed after the change")

    def on_changed(self, k, old, new):
        self.log.append(("changed", k, old, new))
        self.end("changed", "changing", k)
        self.x.check("the old value", k in self.copy and bool(self.x.same(self.copy[k], old)))
        self.x.check("it did change", self.x.not_(self.x.is_(old, new)))
        self.copy[k] = new
        self.now("changed is confirmed after the change")

    def on_removed(self, k, v):
        self.log.append(("removed", k, v))
        self.end("removed", "removing", k)
        got = self.copy.pop(k, _MISSING)
        self.x.check("the removed value", got is not _MISSING and bool(self.x.same(got, v)))
        self.now("removed is confirmed after the change")

    def confirmed(self):
        return [e for e in self.log if e[0] in ("added", "changed", "removed")]

    def done(self):
        self.x.check("pairs are complete", self.open is None, info=self.log)
        self.now("replaying the events gives the new contents")
        self.x.check("relayed by the group", len(self.relayed) == len(self.log))


def same_dict(x, ev, ref):
    a, b = list(ev.items()), list(ref.items())
    return len(a) == len(b) and bool(x.same(a, b))


def distinct(x, keys):
    for i, a in enumerate(keys):
        for b in keys[:i]:
            x.assume(x.not_(x.equal(a, b)))


SPECIAL = [None, False, ""]


def seed(x, n, special=False):
    keys, vals = objs(x, "k", n), objs(x, "v", n)
    if special:
        vals = [x.choice(f"sv{i}", SPECIAL) for i in range(n)]
    distinct(x, keys)
    return list(zip(keys, vals))


def flat(v):
    if isinstance(v, EventedDict):
        return dict(v.items())
    return v


def compare(x, got, want, ev, ref):
    x.check("same outcome", got.kind == want.kind, info=(got, want))
    if got.kind == "ok" and want.kind == "ok":
        g, w = flat(got.value), want.value
        x.check("same result", same_dict(x, g, w) if isinstance(w, dict) and
                isinstance(g, dict) else x.same(g, w), info=(got, want))
    else:
        x.check("same kind of error", got.value is want.value, info=(got, want))
    x.check("same contents in the same order", same_dict(x, ev, ref), info=(ev, ref))


OPS = {
    "get": lambda d, k, v, o: d[k],
    "get default": lambda d, k, v, o: d.get(k, v),
    "get none": lambda d, k, v, o: d.get(k),
    "contains": lambda d, k, v, o: k in d,
    "set": lambda d, k, v, o: d.__setitem__(k, v),
    "del": lambda d, k, v, o: d.__delitem__(k),
    "pop": lambda d, k, v, o: d.pop(k),
    "pop default": lambda d, k, v, o: d.pop(k, v),
    "setdefault": lambda d, k, v, o: d.setdefault(k, v),
    "setdefault none": lambda d, k, v, o: d.setdefault(k),
    "popitem": lambda d, k, v, o: d.popitem(),
    "clear": lambda d, k, v, o: d.clear(),
    "len": lambda d, k, v, o: len(d),
    "bool": lambda d, k, v, o: bool(d),
    "keys": lambda d, k, v, o: [a for a in d.keys()],
    "iter": lambda d, k, v, o: [a for a in d],
    "values": lambda d, k, v, o: [a for a in d.values()],
    "items": lambda d, k, v, o: [a for a in d.items()],
    "copy": lambda d, k, v, o: d.copy(),
}
KEYED = ["get", "get default", "get none", "contains", "set", "del", "pop", "pop default",
         "setdefault", "setdefault none"]
WHOLE = [o for o in OPS if o not in KEYED]
EXPECT = {"set", "setdefault", "setdefault none"}


def expect(x, op, before, after, w):
    """Exactly one pair per key added, replaced or removed."""
    n = sum(1 for k in before if k not in after) + sum(1 for k in after if k not in before)
    n += sum(1 for k in after if k in before and not x.is_(before[k], after[k]))
    x.check("one confirmation per key", len(w.confirmed()) == n, info=(w.log, before, after))
    x.check("and one announcement", len(w.log) == 2 * n, info=w.log)
    if n == 0:
        x.cover("nothing changes")


SIZES = tiered([{"n": k} for k in range(4)] + [{"n": 2, "special": True}],
               [{"n": k} for k in range(5)] + [{"n": k, "special": True} for k in (2, 3)])


@harness(configs=SIZES, must_cover=["nothing changes", "error"])
def keyed(x, n, special=False):
    data = seed(x, n, special)
    ev, ref = EventedDict(data), dict(data)
    before = dict(ref)
    w = Watch(x, ev)
    op = x.choice("op", KEYED)
    k, v = x.obj("key"), x.choice("sval", SPECIAL) if special else x.obj("val")
    got = outcome(lambda: OPS[op](ev, k, v, None))
    want = outcome(lambda: OPS[op](ref, k, v, None))
    compare(x, got, want, ev, ref)
    w.done()
    expect(x, op, before, ref, w)
    if want.kind == "err":
        x.cover("error")


@harness(configs=SIZES, must_cover=["error"])
def whole(x, n, special=False):
    data = seed(x, n, special)
    ev, ref = EventedDict(dict(data)), dict(data)
    before = dict(ref)
    w = Watch(x, ev)
    op = x.choice("op", WHOLE)
    got = outcome(lambda: OPS[op](ev, None, None, None))
    want = outcome(lambda: OPS[op](ref, None, None, None))
    compare(x, got, want, ev, ref)
    w.done()
    expect(x, op, before, ref, w)
    if want.kind == "err":
        x.cover("error")
    if op == "copy":
        x.check("a copy of the same type", type(got.value) is EventedDict)
        got.value["new"] = 1
        x.check("independent", "new" not in ev and len(w.log) == 0)


class Map:
    """Something with keys()"""

    def __init__(self, items):
        self.d = dict(items)

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]


@harness(
    configs=tiered(
        [{"n": n, "m": m} for n in range(3) for m in range(3)],
        [{"n": n, "m": m} for n in range(4) for m in range(4)],
    )
)
def update(x, n, m):
    data = seed(x, n)
    ev, ref = EventedDict(data), dict(data)
    before = dict(ref)
    w = Watch(x, ev)
    form = x.choice("form", ["pairs", "iter", "dict", "keys", "evented", "kw", "both", "self"])
    items = list(zip(objs(x, "uk", m), objs(x, "uv", m)))
    if form == "self":
        ev.update(ev)
        x.check("nothing happens", w.log == [])
    elif form == "kw":
        kw = {f"s{i}": v for i, (_, v) in enumerate(items)}
        ev.update(**kw), ref.update(**kw)
    elif form == "both":
        ev.update(items, s=1, t=2), ref.update(items, s=1, t=2)
    else:
        mk = {"pairs": list, "iter": iter, "dict": dict, "keys": Map,
              "evented": EventedDict}[form]
        ev.update(mk(items))
        ref.update(dict(items) if form == "evented" else mk(items))
    x.check("same contents in the same order", same_dict(x, ev, ref), info=(ev, ref))
    w.done()
    # (a key that occurs twice among the pairs is set twice)
    if form not in ("pairs", "iter", "both") or len(dict(items)) == len(items):
        expect(x, "update", before, ref, w)


@harness(configs=[{"n": n} for n in range(3)])
def built(x, n):
    """Construction and comparison"""
    data = seed(x, n)
    form = x.choice("form", ["pairs", "dict", "kw", "both", "none", "evented"])
    kw = {"a": x.obj("a"), "b": x.obj("b")}
    if form == "kw":
        ev, ref = EventedDict(**kw), dict(**kw)
    elif form == "both":
        ev, ref = EventedDict(data, **kw), dict(data, **kw)
    elif form == "none":
        ev, ref = EventedDict(), {}
    else:
        mk = {"pairs": list, "dict": dict, "evented": EventedDict}[form]
        ev, ref = EventedDict(mk(data)), dict(data)
    x.check("constructed", same_dict(x, ev, ref))
    other = dict(zip(objs(x, "ok", n), objs(x, "ov", n)))
    x.check("equal to a dict like a dict", (ev == other) == (ref == other))
    x.check("unequal", (ev != other) == (ref != other))
    x.check("equal to an evented one", (ev == EventedDict(other)) == (ref == other))
    x.check("not equal to a list", (ev == list(data)) is False)
    x.check("repr", repr(EventedDict({1: "a"})) == "EventedDict({1: 'a'})")


@harness(configs=[{}])
def typed(x):
    """Values of a wrong type and unhashable keys are rejected without effect."""
    base = x.choice("base", [int, (int, float), [int]])
    data = x.choice("data", [{"a": 1, "b": 2}, {}])
    ev = EventedDict(data, basetype=base)
    w = Watch(x, ev)
    op = x.choice("op", ["set", "new", "update", "setdefault", "unhashable", "unhashable del",
                         "unhashable get", "copy"])
    f = {
        "set": lambda: ev.__setitem__("a", "x"),
        "new": lambda: ev.__setitem__("c", "x"),
        "update": lambda: ev.update(a="x"),
        "setdefault": lambda: ev.setdefault("c", "x"),
        "unhashable": lambda: ev.__setitem__([], 1),
        "unhashable del": lambda: ev.__delitem__([]),
        "unhashable get": lambda: ev[[]],
        "copy": lambda: ev.copy().__setitem__("a", "x"),
    }[op]
    got = outcome(f)
    x.check("rejected", got.kind == "err" and got.value is TypeError, info=got)
    x.check("nothing is confirmed", w.confirmed() == [], info=w.log)
    x.check("unchanged", dict(ev.items()) == data)
    v = x.int("v")
    ev = EventedDict({"a": 1, "b": 2}, basetype=base)
    w2 = Watch(x, ev)
    ev["a"] = v
    ev["b"] = True  # (a bool is an int)
    x.check("accepted", x.same(list(ev.items()), [("a", v), ("b", True)]))
    w2.done()


@harness(
    configs=tiered(
        [{"n": 0, "k": 3}, {"n": 1, "k": 3}, {"n": 2, "k": 2}],
        [{"n": 0, "k": 4}, {"n": 1, "k": 3}, {"n": 2, "k": 3}],
    )
)
def history(x, n, k):
    data = seed(x, n)
    ev, ref = EventedDict(data), dict(data)
    w = Watch(x, ev)
    for j in range(k):
        op = x.choice(f"op{j}", ["set", "del", "pop default", "setdefault", "popitem",
                                 "clear"])
        key, v = x.obj(f"key{j}"), x.obj(f"val{j}")
        got = outcome(lambda: OPS[op](ev, key, v, None))
        want = outcome(lambda: OPS[op](ref, key, v, None))
        compare(x, got, want, ev, ref)
        w.now("replaying the events gives the contents")
    w.done()


# explored also with None among the arbitrary objects
built.nones = [{"n": 2}]
update.nones = [{"n": 1, "m": 1}]
history.nones = [{"n": 1, "k": 2}]

HARNESSES = [keyed, whole, update, built, typed, history]
