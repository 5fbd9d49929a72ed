"""Evented object proxies: every operation as on the wrapped object, changes reported once."""
import operator

from psygnal.containers import EventedCallableObjectProxy, EventedObjectProxy
from psygnal.utils import iter_signal_instances

from checks._lists import objs, outcome
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "2 operations on an object with attributes (plain, property, slot), a list of up to 2 "
    "items or a dict: get/set/delete of attributes, items and slices, in-place operations, "
    "methods, reads; any values (identity and equality patterns decided by the solver), present "
    "and absent names, indices and keys; 3 assignments to attributes and items that may not be readable; "
    "proxies created, released and replaced",
    "thorough": "3 operations; lists of 3 items",
}
ASSUMPTIONS = [
    "a value has changed if it is another object; for equal but distinct objects an event is "
    "allowed, not required",
    "reading an attribute or item twice gives the same object",
    "in-place operations on objects that support them in place",
    "listeners do not raise",
]


class Boom(Exception):
    pass


class Target:
    """attributes, a property that transforms, one that rejects, items, in-place operations"""

    fixed = "class attribute"
    copies = False

    def __init__(self, x, a):
        self.x, self.a, self.ops, self._p = x, a, [], 0

    @property
    def p(self):
        return self._p

    @p.setter
    def p(self, v):
        self._p = v if v != 0 else 7

    @p.deleter
    def p(self):
        raise AttributeError("cannot delete")

    @property
    def ro(self):
        return self.a

    def meth(self, v):
        old, self.a = self.a, v
        return old

    def __call__(self, *args, **kw):
        self.ops.append(("called", args, kw))
        if args and args[0] == "raise":
            raise ValueError("called")
        return (args, kw)


IOPS = ["iadd", "isub", "imul", "imatmul", "itruediv", "ifloordiv", "imod", "ipow",
        "ilshift", "irshift", "iand", "ixor", "ior"]
for _o in IOPS:
    def _f(self, other, _o=_o):
        self.ops.append((_o, other))
        if self.copies:  # (what an in-place operation returns replaces the object)
            new = type(self)(self.x, self.a)
            new.ops, new.copies = self.ops, True
            return new
        return self
    setattr(Target, f"__{_o}__", _f)


class Sparse:
    """Items at any key; some values are transformed, some rejected."""

    def __init__(self, d, error):
        self.d, self.error = d, error

    def __getitem__(self, k):
        if k not in self.d:
            raise self.error(k)
        return self.d[k]

    def __setitem__(self, k, v):
        if v == -1:
            raise ValueError(v)
        self.d[k] = v if v != 0 else 7

    def __delitem__(self, k):
        if k not in self.d:
            raise self.error(k)
        del self.d[k]

    def __len__(self):
        return len(self.d)


class Slotted:
    __slots__ = ("x", "a", "ops", "_p", "__weakref__")

    def __init__(self, x, a):
        self.x, self.a, self.ops, self._p = x, a, [], 0


def state(o):
    if isinstance(o, Sparse):
        o = o.d
    if isinstance(o, dict):
        return list(o.items())
    if isinstance(o, list):
        return list(o)
    return [(n, getattr(o, n)) for n in ("x", "a", "_p", "new", "ops")
            if n in getattr(o, "__dict__", ()) or hasattr(o, n)]


def listen(p, log, how):
    if how == "group":
        p.events.connect(lambda info: log.append((info.signal.name, info.args)))
    else:
        for n in p.events:
            p.events[n].connect(lambda *a, n=n: log.append((n, a)))


def read(o, what, arg):
    """Operations that change nothing."""
    return {
        "getattr": lambda: getattr(o, arg),
        "hasattr": lambda: hasattr(o, arg),
        "getitem": lambda: o[arg],
        "len": lambda: len(o),
        "iter": lambda: list(o),
        "contains": lambda: arg in o,
        "eq": lambda: bool(o == arg),
        "ne": lambda: bool(o != arg),
        "bool": lambda: bool(o),
        "isinstance": lambda: isinstance(o, (Target, Slotted, list, dict)),
        "class": lambda: o.__class__.__name__,
        "add": lambda: o + arg,
        "dir": lambda: set(dir(o)) - {"events"},
        "repr": lambda: repr(o) == repr(getattr(o, "__wrapped__", o)),
    }[what]


def compare(x, a, b):
    if a.kind != b.kind:
        return False
    if a.kind == "err":
        return a.value is b.value
    if isinstance(a.value, set):
        return a.value == b.value
    return x.same(a.value, b.value)


NAMES = ["x", "a", "p", "ro", "new", "fixed"]


def settled(x, log, name, key, before, after, existed):
    """the events of setting `key`"""
    args = (key, after)
    one = len(log) == 1 and log[0][0] == name and x.same(log[0][1], args)
    if existed and x.is_(before, after):
        x.check("nothing has changed: no event", not log, info=log)
    elif existed and before == after:
        x.check("equal values: at most one event", not log or one)
        x.check("its arguments", not log or x.same(log[0][1], args))
    else:
        x.check("one event", len(log) == 1 and log[0][0] == name, info=log)
        x.check("name or key, and value", x.same(log[0][1], args))
        x.cover("changed")


@harness(
    configs=tiered(
        [{"kind": k, "k": 2, "first": f} for k in ("object", "slotted")
         for f in ("set", "del", "inplace", "method", "read")],
        [{"kind": k, "k": 3, "first": f} for k in ("object", "slotted")
         for f in ("set", "del", "inplace", "method", "read")],
    ),
    must_cover=["changed", "rejected", "deleted", "replaced in place"],
)
def attributes(x, kind, k, first):
    cls = {"object": Target, "slotted": Slotted}[kind]
    a, b = x.obj("a"), x.obj("b")
    t, ref = cls(a, b), cls(a, b)
    if kind == "object" and first == "inplace" and x.flag("copies"):
        t.copies = ref.copies = True
        x.cover("replaced in place")
    p = EventedObjectProxy(t)
    log = []
    listen(p, log, x.choice("how", ["group", "each"]) if k == 2 else "each")
    for i in range(k):
        op = first if i == 0 else x.choice(f"op{i}", ["set", "del", "inplace", "method", "read"])
        del log[:]
        if op in ("set", "del"):
            name = x.choice(f"name{i}", NAMES)
            had = hasattr(ref, name)
            before = getattr(ref, name, None)
            if op == "set":
                v = x.choice(f"which{i}", [x.obj(f"v{i}"), a, *([0] if name == "p" else [])])
                ra = outcome(lambda: setattr(ref, name, v))
                rb = outcome(lambda: setattr(p, name, v))
                x.check("same outcome", ra.kind == rb.kind
                        and (ra.kind == "ok" or ra.value is rb.value))
                if ra.kind == "ok":
                    settled(x, log, "attribute_set", name, before, getattr(ref, name), had)
                else:
                    x.check("rejected: no event", not log)
                    x.cover("rejected")
            else:
                ra = outcome(lambda: delattr(ref, name))
                rb = outcome(lambda: delattr(p, name))
                x.check("same outcome", ra.kind == rb.kind
                        and (ra.kind == "ok" or ra.value is rb.value))
                if ra.kind == "ok":
                    x.check("deleted: one event", log == [("attribute_deleted", (name,))])
                    x.cover("deleted")
                else:
                    x.check("not deleted: no event", not log)
        elif op == "inplace":
            if kind == "slotted":
                return
            name = x.choice(f"iop{i}", IOPS)
            v = x.obj(f"v{i}")
            f = getattr(operator, name)
            ref = f(ref, v)
            q = f(p, v)
            x.check("still the proxy", q is p)
            x.check("what it wraps", (p.__wrapped__ is t) == (not ref.copies)
                    and type(p.__wrapped__) is cls)
            t = p.__wrapped__
            x.check("in_place once", len(log) == 1 and log[0][0] == "in_place"
                    and log[0][1][0] == name[1:], info=log)
            x.check("operand", x.same(log[0][1][1], v))
        elif op == "method":
            if kind == "slotted":
                return
            v = x.obj(f"v{i}")
            ra, rb = outcome(lambda: ref.meth(v)), outcome(lambda: p.meth(v))
            x.check("method", compare(x, ra, rb))
            x.check("silent", not log)
        else:
            what = x.choice(f"what{i}", ["getattr", "hasattr", "getitem", "len", "bool",
                                         "isinstance", "class", "repr", "dir"])
            arg = x.choice(f"arg{i}", NAMES) if what in ("getattr", "hasattr") else 0
            x.check("read", compare(x, outcome(read(ref, what, arg)), outcome(read(p, what, arg))))
            x.check("silent", not log)
        x.check("same state", x.same(state(t), state(ref)), info=(state(t), state(ref)))
        x.check("the wrapped object", p.__wrapped__ is t)


@harness(
    configs=tiered(
        [{"kind": kd, "n": 2, "k": 2, "first": f} for kd in ("list", "dict")
         for f in ("set", "del", "inplace", "method", "read")]
        + [{"kind": "sparse", "n": 1, "k": 2, "first": f} for f in ("set", "del")],
        [{"kind": "sparse", "n": 1, "k": 3, "first": f} for f in ("set", "del")]
        + [{"kind": kd, "n": 3 if kd == "list" else 2, "k": 3, "first": f}
         for kd in ("list", "dict") for f in ("set", "del", "inplace", "method", "read")],
    ),
    must_cover=["changed", "rejected", "deleted", "slice"],
)
def items(x, kind, n, k, first):
    vals = objs(x, "i", x.pick("n", 0, n) if k == 2 else n)
    if kind == "list":
        t, ref = list(vals), list(vals)
    else:
        t, ref = ({f"k{i}": v for i, v in enumerate(vals)} for _ in range(2))
    if kind == "sparse":
        e = x.choice("error", [KeyError, IndexError])
        t, ref = Sparse(t, e), Sparse(ref, e)
    p = EventedObjectProxy(t)
    log = []
    listen(p, log, "each")

    def key(i):
        if kind != "list":
            return x.choice(f"key{i}", ["k0", "k1", "k9"])
        c = x.pick(f"key{i}", -n - 1, n + 2)
        if c <= n:
            return c
        return slice(0, 1) if c == n + 1 else slice(None, None, -1)

    for i in range(k):
        ops = ["set", "del", "inplace", "method", "read"]
        op = first if i == 0 else x.choice(f"op{i}", ops[:2] if kind == "sparse" else ops)
        del log[:]
        if op == "set":
            c = key(i)
            v = x.choice(f"which{i}", [x.obj(f"v{i}"), *vals[:1],
                                       *([0, -1, 5] if kind == "sparse" else [])])
            if isinstance(c, slice):
                x.cover("slice")
                v = [v] * (1 if c.step is None else len(ref))
                old = list(ref)
                ra = outcome(lambda: operator.setitem(ref, c, v))
                rb = outcome(lambda: operator.setitem(p, c, v))
                if ra.kind == "ok" and not (old == ref):
                    x.check("slice: one event", len(log) == 1 and log[0][0] == "item_set")
                    x.check("slice, and value", x.same(log[0][1], (c, ref[c])))
                elif ra.kind == "err":
                    x.check("slice rejected", not log)
                else:
                    x.check("slice unchanged", len(log) <= 1)
            else:
                get = outcome(lambda: ref[c])
                ra = outcome(lambda: operator.setitem(ref, c, v))
                rb = outcome(lambda: operator.setitem(p, c, v))
                if ra.kind == "ok":
                    settled(x, log, "item_set", c, get.value, ref[c], get.kind == "ok")
                else:
                    x.check("rejected: no event", not log)
                    x.cover("rejected")
            x.check("same outcome", ra.kind == rb.kind
                    and (ra.kind == "ok" or ra.value is rb.value))
        elif op == "del":
            c = key(i)
            ra = outcome(lambda: operator.delitem(ref, c))
            rb = outcome(lambda: operator.delitem(p, c))
            x.check("same outcome", ra.kind == rb.kind
                    and (ra.kind == "ok" or ra.value is rb.value))
            if ra.kind == "ok":
                x.check("deleted: one event", len(log) == 1 and log[0][0] == "item_deleted"
                        and x.same(log[0][1], (c,)), info=log)
                x.cover("deleted")
            else:
                x.check("not deleted: no event", not log)
        elif op == "inplace":
            v = [x.obj(f"v{i}")] if kind == "list" else {"k7": x.obj(f"v{i}")}
            name = "iadd" if kind == "list" else "ior"
            if kind == "list" and x.flag(f"mul{i}"):
                name, v = "imul", 2
            f = getattr(operator, name)
            f(ref, v)
            x.check("still the proxy", f(p, v) is p)
            x.check("in_place once", len(log) == 1 and log[0][0] == "in_place"
                    and x.same(log[0][1], (name[1:], v)), info=log)
        elif op == "method":
            v = x.obj(f"v{i}")
            m = x.choice(f"m{i}", ["append", "pop", "reverse"] if kind == "list"
                         else ["pop", "popitem", "update"])
            args = {"append": (v,), "update": ({"k0": v},),
                    "pop": () if kind == "list" else ("k0",)}.get(m, ())
            ra = outcome(lambda: getattr(ref, m)(*args))
            rb = outcome(lambda: getattr(p, m)(*args))
            x.check("method", compare(x, ra, rb))
            x.check("silent", not log)
        else:
            what = x.choice(f"what{i}", ["getitem", "len", "iter", "contains", "eq", "ne", "bool",
                                         "class", "add", "repr"])
            arg = None
            if what == "getitem":
                arg = key(i)
            elif what == "contains":
                arg = x.obj(f"v{i}") if kind == "list" else x.choice(f"v{i}", ["k0", "k5"])
            elif what in ("eq", "ne"):
                arg = list(vals) if kind == "list" else {f"k{i}": v for i, v in enumerate(vals)}
            elif what == "add":
                arg = list(vals)
            x.check("read", compare(x, outcome(read(ref, what, arg)), outcome(read(p, what, arg))))
            x.check("silent", not log)
        x.check("same state", x.same(state(t), state(ref)), info=(state(t), state(ref)))
        x.check("the wrapped object", p.__wrapped__ is t)


class Vault:
    """An attribute and items that cannot be read while they are BAD."""

    def __init__(self, error):
        self._p, self.d, self.error = BAD, {}, error

    def read(self, v):
        if v is BAD:
            raise self.error
        return v

    @property
    def p(self):
        return self.read(self._p)

    @p.setter
    def p(self, v):
        self._p = v

    def __setitem__(self, k, v):
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]


class Readable(Vault):
    def __getitem__(self, k):
        return self.read(self.d.get(k, BAD))


BAD = object()


@harness(configs=tiered([{"k": 3}], [{"k": 4}]), must_cover=["readable", "unreadable"])
def unreadable(x, k):
    """Attributes and items that cannot be read can be set."""
    cls = x.choice("class", [Vault, Readable])
    error = x.choice("error", [ValueError, AttributeError, KeyError])
    t, ref = cls(error), cls(error)
    p = EventedObjectProxy(t)
    log = []
    listen(p, log, "each")
    for i in range(k):
        key = x.choice(f"key{i}", ["p", "item"])
        v = BAD if x.flag(f"bad{i}") else x.obj(f"v{i}")
        f, name = (getattr, "attribute_set") if key == "p" else (operator.getitem, "item_set")
        before = outcome(lambda: f(ref, key))
        del log[:]
        for o in (ref, p):
            if key == "p":
                o.p = v
            else:
                o[key] = v
        after = outcome(lambda: f(ref, key))
        got = outcome(lambda: f(p, key))
        x.check("reading", got.kind == after.kind and (x.is_(got.value, after.value)
                if got.kind == "ok" else got.value is after.value))
        if "ok" not in (before.kind, after.kind):
            x.cover("unreadable")
            x.check("at most one event", not log or x.same(log, [(name, (key, v))]), info=log)
        else:
            x.cover("readable")
            settled(x, log, name, key, before.value, v, "err" not in (before.kind, after.kind))
        x.check("same state", x.same([t._p, *t.d.items()], [ref._p, *ref.d.items()]))


@harness(must_cover=["raised"])
def calls(x):
    """A callable proxy announces its calls."""
    a, b = x.obj("a"), x.obj("b")
    t, ref = Target(a, b), Target(a, b)
    p = EventedCallableObjectProxy(t)
    log = []
    listen(p, log, x.choice("how", ["group", "each"]))
    for i in range(2):
        op = x.choice(f"op{i}", ["call", "raise", "set", "inplace", "plain"])
        del log[:]
        if op in ("call", "raise"):
            args = tuple(objs(x, f"arg{i}.", x.pick(f"n{i}", 0, 2)))
            if op == "raise":
                args = ("raise", *args)
                x.cover("raised")
            kw = {"k": a} if x.flag(f"kw{i}") else {}
            ra, rb = outcome(lambda: ref(*args, **kw)), outcome(lambda: p(*args, **kw))
            x.check("same result", compare(x, ra, rb))
            x.check("called once", len(log) == 1 and log[0][0] == "called", info=log)
            x.check("arguments", x.same(log[0][1], (args, kw)))
        elif op == "set":
            v, before = x.obj(f"v{i}"), ref.x
            ref.x = v
            p.x = v
            settled(x, log, "attribute_set", "x", before, v, True)
        elif op == "inplace":
            ref += 1
            p += 1
            x.check("in_place", log == [("in_place", ("add", 1))])
        else:
            ref.meth(a)
            p.meth(a)
            x.check("silent", not log)
        x.check("same state", x.same(state(t), state(ref)))
    x.check("signals", sorted(s.name for s in iter_signal_instances(p.events))
            == sorted(list(p.events)))


def fresh(cls, target, freed):
    """A new proxy, at the address of a previous one if possible."""
    others = []
    for _ in range(64 if freed else 1):
        p = cls(target)
        if id(p) in freed:
            break
        others.append(p)
    return p


@harness(
    configs=tiered([{"k": 3}], [{"k": 4}]),
    must_cover=["released", "same target", "callable", "address reused"],
)
def lifetimes(x, k):
    """Each proxy has its own events, whatever proxies have existed before."""
    targets = [Target(0, 0), Target(0, 0)]
    alive = {}  # number -> (proxy, target number)
    logs, want, freed = {}, {}, set()
    n = 0
    for i in range(k + 1):
        op = x.choice(f"op{i}", ["new", "connect", "replace", "release", "set"]) if i else "new"
        if op in ("new", "replace"):
            if op == "replace":
                x.assume(alive)
                w = x.choice(f"w{i}", sorted(alive))
            else:
                x.assume(len(alive) < 3)
            tn = x.pick(f"t{i}", 0, 1) if alive else 0
            cls = x.choice(f"cls{i}", [EventedObjectProxy, EventedCallableObjectProxy])
            if cls is EventedCallableObjectProxy:
                x.cover("callable")
            if any(e[1] == tn for e in alive.values()):
                x.cover("same target")
            if op == "replace":
                freed.add(id(alive[w][0]))
                del alive[w]
            alive[n] = (fresh(cls, targets[tn], freed), tn)
            if id(alive[n][0]) in freed:
                x.cover("address reused")
                freed.discard(id(alive[n][0]))
            logs[n], want[n] = [], 0
            n += 1
            continue
        x.assume(alive)
        w = x.choice(f"w{i}", sorted(alive))
        if op == "connect":
            first = alive[w][0].events
            x.check("always the same events", alive[w][0].events is first)
            first.connect(lambda info, w=w: logs[w].append((info.signal.name, info.args)))
            want[w] += 1
            for o, e in alive.items():
                x.check("own events", o == w or e[0].events is not first)
            del first, e
        elif op == "release":
            freed.add(id(alive[w][0]))
            e = None
            del alive[w], e
            x.cover("released")
        if op != "release":
            before = {o: len(v) for o, v in logs.items()}
            alive[w][0].x = object()
            for o, v in logs.items():
                x.check("notifies the listeners of this proxy only",
                        len(v) - before[o] == (want[o] if o == w else 0))


# explored also with None among the arbitrary objects
attributes.nones = [{"kind": "object", "k": 1, "first": "set"}]
items.nones = [
    {"kind": "list", "n": 2, "k": 1, "first": "set"},
    {"kind": "dict", "n": 2, "k": 1, "first": "set"},
]

HARNESSES = [attributes, items, calls, lifetimes, unreadable]
