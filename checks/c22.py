"""EventedSet, EventedOrderedSet and OrderedSet against the built-in set."""
import operator

from psygnal.containers import EventedOrderedSet, EventedSet, OrderedSet

from checks._lists import objs, outcome
from checks.c21 import distinct
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "sets of 0-3 arbitrary distinct elements, every method and operator, 0-2 "
    "(or three) arguments of 0-2 arbitrary elements (all coincidence patterns, duplicates included) as "
    "list, generator, set, evented set or the set itself; programs of 2-3 operations",
    "thorough": "sets of up to 4 elements, arguments of up to 3, programs of 4 operations",
}
ASSUMPTIONS = [
    "no callbacks that modify the set are connected",
    "operators are used with sets (as built-in sets demand)",
]

CLASSES = {"set": EventedSet, "ordered": EventedOrderedSet, "plain": OrderedSet}


class Ref(dict):
    """A set that remembers insertion order (keys of a dict)"""


def ordered(it):
    return list(dict.fromkeys(it))


def same_set(x, got, want):
    """same elements, each once"""
    got, want = list(got), list(want)
    return len(got) == len(want) and all(any(g == w for w in want) for g in got) and all(
        any(g == w for g in got) for w in want)


def same_order(x, got, want):
    got, want = list(got), list(want)
    return len(got) == len(want) and all(bool(g == w) for g, w in zip(got, want))


class Watch:
    def __init__(self, x, s):
        self.x, self.s, self.log, self.relayed = x, s, [], []
        if hasattr(s, "events"):
            s.events.items_changed.connect(self.on)
            s.events.connect(lambda info: self.relayed.append(info.args))

    def on(self, added, removed):
        self.log.append((added, removed, list(self.s)))

    def exact(self, before, after, single=True):
        """The notifications are exactly the net change."""
        x = self.x
        if not hasattr(self.s, "events"):
            return
        add = [a for a in after if not any(a == b for b in before)]
        rem = [b for b in before if not any(a == b for a in after)]
        if not add and not rem:
            x.cover("no change")
            x.check("no notification when nothing changes", self.log == [], info=self.log)
            x.check("nor by the group", self.relayed == [])
            return
        if single:
            x.check("exactly one notification", len(self.log) == 1, info=self.log)
        x.check("relayed by the group", len(self.relayed) == len(self.log))
        got_add = [e for a, _, _ in self.log for e in a]
        got_rem = [e for _, r, _ in self.log for e in r]
        x.check("added: exactly the new elements", same_set(x, got_add, add),
                info=(self.log, before, after))
        x.check("removed: exactly the old elements", same_set(x, got_rem, rem),
                info=(self.log, before, after))
        x.check("as tuples", all(type(a) is tuple and type(r) is tuple for a, r, _ in self.log))
        if self.log:
            x.check("after the change", same_set(x, self.log[-1][2], after))
        del self.log[:], self.relayed[:]


def seed(x, n):
    items = objs(x, "e", n)
    distinct(x, items)
    return items


def argument(x, name, m, me):
    """(for the set under test, for the reference)"""
    form = x.choice(name + ".form", ["list", "generator", "set", "evented", "itself"])
    if form == "itself":
        return me, None
    items = objs(x, name, m)
    if form == "list":
        return list(items), items
    if form == "generator":
        return (i for i in items), items
    if form == "set":
        s = set(items)
        return s, list(s)  # (in the order in which it iterates)
    return EventedOrderedSet(items), items


def is_set(a):
    return isinstance(a, (set, EventedSet, OrderedSet))


def reference(op, cur, args):
    """Contents (in insertion order) after `op`, by definition."""
    flat = [e for a in args for e in a]

    def isin(e, l):
        return any(bool(e == i) for i in l)

    if op == "update":
        out = list(cur)
        for e in flat:
            if not isin(e, out):
                out.append(e)
        return out
    if op == "difference":
        return [c for c in cur if not isin(c, flat)]
    if op == "intersection":
        return [c for c in cur if all(isin(c, a) for a in args)]
    if op == "symmetric_difference":
        (a,) = args
        out = [c for c in cur if not isin(c, a)]
        for e in a:
            if not isin(e, cur) and not isin(e, out):
                out.append(e)
        return out
    raise AssertionError(op)


INPLACE = {
    "update": "update",
    "difference_update": "difference",
    "intersection_update": "intersection",
    "symmetric_difference_update": "symmetric_difference",
}
PURE = {
    "union": "update",
    "difference": "difference",
    "intersection": "intersection",
    "symmetric_difference": "symmetric_difference",
}
OPERATORS = {
    "or": (operator.or_, operator.ior, "update"),
    "and": (operator.and_, operator.iand, "intersection"),
    "sub": (operator.sub, operator.isub, "difference"),
    "xor": (operator.xor, operator.ixor, "symmetric_difference"),
}


def sizes(extra):
    """sizes of the arguments in each configuration"""
    three = []
    if (1, 1) in extra:
        three = [{"kind": k, "n": n, "ms": (1, 1, 1)}
                 for k, n in (("set", 1), ("ordered", 0), ("plain", 1))]
    return tiered(
        [{"kind": k, "n": n, "ms": ms} for k in CLASSES for n in range(4 if k != "plain" else 3)
         for ms in extra] + three,
        [{"kind": k, "n": n, "ms": ms} for k in CLASSES for n in range(4)
         for ms in [*extra, *((2, 1),), *((3,),)]] + three,
    )


@harness(
    configs=tiered(
        [{"kind": k, "n": n} for k in CLASSES for n in range(4)],
        [{"kind": k, "n": n} for k in CLASSES for n in range(6)],
    ),
    must_cover=["no change", "error"],
)
def single(x, kind, n):
    """One element (or none) at a time"""
    items = seed(x, n)
    s = CLASSES[kind](items)
    x.check("constructed", same_set(x, s, items))
    w = Watch(x, s)
    op = x.choice("op", ["add", "discard", "remove", "pop", "clear", "contains", "len",
                         "copy", "bool"])
    e = x.obj("e")
    present = any(bool(e == i) for i in items)
    after = list(items)
    if op == "add":
        x.check("returns None", s.add(e) is None)
        if not present:
            after.append(e)
    elif op == "discard":
        x.check("returns None", s.discard(e) is None)
        after = [i for i in items if not i == e]
    elif op == "remove":
        got = outcome(lambda: s.remove(e))
        if present:
            x.check("removed", got.kind == "ok" and got.value is None)
        else:
            x.cover("error")
            x.check("KeyError", got.kind == "err" and got.value is KeyError)
        after = [i for i in items if not i == e]
    elif op == "pop":
        got = outcome(s.pop)
        if n:
            x.check("popped", got.kind == "ok")
            x.check("an element", any(bool(got.value == i) for i in items))
            after = [i for i in items if not i == got.value]
        else:
            x.check("KeyError", got.kind == "err" and got.value is KeyError)
    elif op == "clear":
        s.clear()
        after = []
    elif op == "contains":
        x.check("membership", (e in s) == present)
    elif op == "len":
        x.check("length", len(s) == n)
    elif op == "bool":
        x.check("truth", bool(s) == bool(n))
    else:
        c = s.copy()
        x.check("copy", type(c) is type(s) and c is not s and same_set(x, c, items))
        c.add(e)
        c.clear()
    x.check("contents", same_set(x, s, after), info=(s, after))
    if kind != "set":
        x.check("insertion order", same_order(x, s, after), info=(s, after))
    w.exact(items, after)


@harness(configs=sizes([(), (0,), (1,), (2,), (1, 1)]), must_cover=["no change"])
def inplace(x, kind, n, ms):
    """The updating methods"""
    items = seed(x, n)
    s = CLASSES[kind](items)
    w = Watch(x, s)
    op = x.choice("op", list(INPLACE))
    if op.startswith("symm") and len(ms) != 1:
        return
    args = [argument(x, f"a{i}", m, s) for i, m in enumerate(ms)]
    refargs = [items if r is None else r for _, r in args]
    after = reference(INPLACE[op], items, refargs)
    r = getattr(s, op)(*[a for a, _ in args])
    x.check("returns None", r is None)
    x.check("contents", same_set(x, s, after), info=(s, after))
    if kind != "set":
        ok = same_order(x, s, after)
        if not op.startswith("symm"):
            x.check("insertion order", ok, info=(s, after))
    w.exact(items, after)


@harness(configs=sizes([(), (0,), (1,), (2,), (1, 1)]))
def pure(x, kind, n, ms):
    """The methods that make a new set"""
    items = seed(x, n)
    s = CLASSES[kind](items)
    w = Watch(x, s)
    op = x.choice("op", list(PURE))
    if op.startswith("symm") and len(ms) != 1:
        return
    args = [argument(x, f"a{i}", m, s) for i, m in enumerate(ms)]
    refargs = [items if r is None else r for _, r in args]
    after = reference(PURE[op], items, refargs)
    r = getattr(s, op)(*[a for a, _ in args])
    x.check("a new set of the same type", type(r) is type(s) and r is not s)
    x.check("result", same_set(x, r, after), info=(r, after))
    if kind != "set" and not op.startswith("symm"):
        x.check("in insertion order", same_order(x, r, after), info=(r, after))
    x.check("left alone", same_set(x, s, items))
    w.exact(items, items)
    if hasattr(r, "events"):
        r.add("something new")
        w.exact(items, items)


@harness(configs=sizes([(0,), (1,), (2,)]))
def operators(x, kind, n, ms):
    items = seed(x, n)
    s = CLASSES[kind](items)
    w = Watch(x, s)
    op = x.choice("op", list(OPERATORS))
    a, ref = argument(x, "a", ms[0], s)
    if not is_set(a):
        return
    ref = items if ref is None else ref
    fn, ifn, name = OPERATORS[op]
    after = reference(name, items, [ref])
    how = x.choice("how", ["binary", "reflected", "in place"])
    if how == "binary":
        r = fn(s, a)
        x.check("left alone", same_set(x, s, items))
        w.exact(items, items)
    elif how == "reflected":
        if not isinstance(a, set):
            return
        r = fn(a, s)
        after = reference(name, ordered(a), [items])
        x.check("left alone", same_set(x, s, items))
        w.exact(items, items)
    else:
        r = ifn(s, a)
        x.check("itself", r is s)
        w.exact(items, after, single=False)
    x.check("result", same_set(x, r, after), info=(r, after))


@harness(configs=sizes([(0,), (1,), (2,)]))
def compare(x, kind, n, ms):
    """Comparisons"""
    items = seed(x, n)
    s = CLASSES[kind](items)
    a, ref = argument(x, "a", ms[0], s)
    ref = items if ref is None else ref
    sub = all(any(bool(i == r) for r in ref) for i in items)
    sup = all(any(bool(i == r) for i in items) for r in ref)
    meet = any(bool(i == r) for i in items for r in ref)
    op = x.choice("op", ["eq", "ne", "le", "lt", "ge", "gt", "issubset", "issuperset",
                         "isdisjoint"])
    want = {
        "eq": sub and sup, "ne": not (sub and sup), "le": sub, "lt": sub and not sup,
        "ge": sup, "gt": sup and not sub, "issubset": sub, "issuperset": sup,
        "isdisjoint": not meet,
    }[op]
    if op.startswith("is"):
        got = getattr(s, op)(a)
    elif not is_set(a):
        return
    else:
        got = getattr(operator, op)(s, a)
    x.check("comparison", got is want, info=(op, got, want))


@harness(configs=[{"kind": k} for k in CLASSES])
def failing(x, kind):
    """Arguments that are no iterables, and elements that are not hashable"""
    items = seed(x, 2)
    s = CLASSES[kind](items)
    w = Watch(x, s)
    e = x.obj("e")
    bad = x.choice("bad", [5, [[]], None])
    op = x.choice("op", ["add", "discard", "remove", "contains", *INPLACE, *PURE])
    arg = [] if op in ("add", "discard", "remove", "contains") else bad
    f = (lambda: arg in s) if op == "contains" else (lambda: getattr(s, op)(arg))
    got = outcome(f)
    x.check("TypeError", got.kind == "err" and got.value is TypeError, info=(op, got))
    x.check("unchanged", same_set(x, s, items))
    w.exact(items, items)
    # the set still works
    s.add(e)
    after = reference("update", items, [[e]])
    x.check("later changes", same_set(x, s, after))
    w.exact(items, after)


@harness(configs=[{"kind": k} for k in ("set", "ordered")])
def partial(x, kind):
    """An update whose second argument fails keeps, and reports, the first."""
    items = seed(x, 1)
    s = CLASSES[kind](items)
    w = Watch(x, s)
    e, f = objs(x, "e", 2)
    got = outcome(lambda: s.update([e, f], 5))
    x.check("TypeError", got.kind == "err" and got.value is TypeError)
    now = list(s)
    w.exact(items, now)


@harness(
    configs=tiered(
        [{"kind": k, "n": n, "k": 2} for k in ("set", "ordered") for n in range(3)],
        [{"kind": k, "n": n, "k": 3} for k in ("set", "ordered") for n in range(3)],
    )
)
def history(x, kind, n, k):
    items = seed(x, n)
    s = CLASSES[kind](items)
    w = Watch(x, s)
    cur = list(items)
    for j in range(k):
        op = x.choice(f"op{j}", ["add", "discard", "clear", *INPLACE])
        if op in ("add", "discard"):
            e = x.obj(f"e{j}")
            after = reference("update" if op == "add" else "difference", cur, [[e]])
            getattr(s, op)(e)
        elif op == "clear":
            after = []
            s.clear()
        else:
            arg = [x.obj(f"e{j}"), x.obj(f"f{j}")]
            after = reference(INPLACE[op], cur, [arg])
            getattr(s, op)(arg)
        x.check("contents", same_set(x, s, after), info=(s, after))
        w.exact(cur, after)
        cur = list(s)


# explored also with None among the arbitrary objects
single.nones = [
    {"kind": "set", "n": 2},
    {"kind": "ordered", "n": 2},
]
inplace.nones = [
    {"kind": "set", "n": 1, "ms": (1,)},
    {"kind": "ordered", "n": 1, "ms": (1,)},
]
pure.nones = [
    {"kind": "set", "n": 1, "ms": (1,)},
    {"kind": "ordered", "n": 1, "ms": (1,)},
]
history.nones = [{"kind": "ordered", "n": 1, "k": 2}]

HARNESSES = [single, inplace, pure, operators, compare, failing, partial, history]
