"""Operations on a list, applied alike to an EventedList and to a built-in list."""
from __future__ import annotations

import operator


class Outcome:
    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    def __repr__(self):
        return f"{self.kind}:{self.value!r}"


def outcome(f):
    try:
        return Outcome("ok", f())
    except (IndexError, ValueError, TypeError, KeyError, AttributeError, RuntimeError,
            StopIteration) as e:
        return Outcome("err", type(e))


def objs(x, name, n):
    return [x.obj(f"{name}{i}") for i in range(n)]


def slc(x, name, n, steps=(None, 1, 2, -1, -2, 0)):
    """A slice with symbolic bounds (every value has an effect equal to one in range)."""
    lo, hi = -n - 1, n + 1

    def bound(nm):
        v = x.pick(nm, lo, hi + 1)
        return None if v == hi + 1 else v

    return slice(bound(name + ".start"), bound(name + ".stop"),
                 x.choice(name + ".step", steps))


def iterables(x, name, items):
    """(for the evented one, for the reference) in one of several forms"""
    kind = x.choice(name, ["list", "tuple", "generator", "iterator"])
    if kind == "list":
        return list(items), list(items)
    if kind == "tuple":
        return tuple(items), tuple(items)
    if kind == "generator":
        return (i for i in items), list(items)
    return iter(list(items)), list(items)


# name -> function(x, lst, args); args are made by make()
READ = {
    "get": lambda l, a: l[a],
    "len": lambda l, a: len(l),
    "iter": lambda l, a: [i for i in l],
    "reversed": lambda l, a: [i for i in reversed(l)],
    "contains": lambda l, a: a in l,
    "count": lambda l, a: l.count(a),
    "index": lambda l, a: l.index(*a),
    "eq": lambda l, a: l == a,
    "ne": lambda l, a: l != a,
    "bool": lambda l, a: bool(l),
    "add": lambda l, a: l + a,
    "radd": lambda l, a: a + l,
    "copy": lambda l, a: l.copy(),
}
WRITE = {
    "set": lambda l, a: operator.setitem(l, a[0], a[1]),
    "del": lambda l, a: operator.delitem(l, a),
    "insert": lambda l, a: l.insert(*a),
    "append": lambda l, a: l.append(a),
    "extend": lambda l, a: l.extend(a),
    "iadd": lambda l, a: operator.iadd(l, a),
    "pop": lambda l, a: l.pop(),
    "popi": lambda l, a: l.pop(a),
    "remove": lambda l, a: l.remove(a),
    "reverse": lambda l, a: l.reverse(),
    "clear": lambda l, a: l.clear(),
}


def both(x, op, a, a2, ev, ref):
    f = READ.get(op) or WRITE[op]
    got = outcome(lambda: f(ev, a))
    want = outcome(lambda: f(ref, a2))
    return got, want
