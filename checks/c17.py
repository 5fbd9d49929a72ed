"""Every operation of EventedList against the built-in list."""
from psygnal.containers import EventedList

from checks._lists import both, iterables, objs, outcome, slc
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "lists of 0-3 arbitrary elements (all identity and equality patterns); single "
    "operations with arbitrary (unbounded) integer indices, all slices with bounds up to one "
    "beyond either end and steps -2..2, arguments of 0-3 elements in several iterable forms, "
    "the list itself included; programs of 3 operations on 0-2 elements",
    "thorough": "lists of up to 5 elements, programs of 4 operations",
}
ASSUMPTIONS = [
    "no callbacks that modify the list are connected",
    "indices are integers or slices (or of a type lists reject); the other operand of + is "
    "a list",
]


def flat(v):
    return list(v) if isinstance(v, EventedList) else v


def compare(x, got, want, ev, ref, before):
    x.check("same outcome", got.kind == want.kind, info=(got, want))
    if got.kind == "ok" and want.kind == "ok":
        if want.value is ref:  # the in-place operators
            x.check("returns itself", got.value is ev)
        else:
            if isinstance(got.value, EventedList):
                x.check("a new list", got.value is not ev)
            x.check("same result", x.same(flat(got.value), want.value), info=(got, want))
    elif got.kind == "err" and want.kind == "err":
        x.check("same kind of error", got.value is want.value, info=(got, want))
        x.check("unchanged", x.same(list(ev), before))
    x.check("same contents", x.same(list(ev), list(ref)), info=(list(ev), list(ref)))
    x.check("same length", len(ev) == len(ref))


def run(x, op, a, a2, items):
    ev, ref = EventedList(items), x.list(items)
    before = list(ref)
    arg = a(ev) if callable(a) else a
    arg2 = a2(ref) if callable(a2) else a2
    got, want = both(x, op, arg, arg2, ev, ref)
    compare(x, got, want, ev, ref, before)
    if want.kind == "err":
        x.cover("error")
    return ev, ref


SIZES = tiered([{"n": k} for k in range(4)], [{"n": k} for k in range(6)])


@harness(configs=SIZES, must_cover=["error"])
def index(x, n):
    """Arbitrary integer indices"""
    items = objs(x, "o", n)
    op = x.choice("op", ["get", "set", "del", "popi", "insert"])
    i = x.int("i")
    v = x.obj("v")
    a = (i, v) if op in ("set", "insert") else i
    run(x, op, a, a, items)


@harness(configs=SIZES, must_cover=["error"])
def plain(x, n):
    """Operations without index, and those that look for a value."""
    items = objs(x, "o", n)
    op = x.choice("op", ["len", "iter", "reversed", "contains", "count", "bool", "copy",
                         "append", "pop", "remove", "reverse", "clear"])
    v = x.obj("v") if x.flag("new") or n == 0 else items[x.pick("which", 0, n - 1)]
    run(x, op, v, v, items)


@harness(configs=SIZES, must_cover=["error"])
def find(x, n):
    """index(value, start, stop)"""
    items = objs(x, "o", n)
    v = x.obj("v")
    args = [v]
    if x.flag("start"):
        args.append(x.pick("i", -n - 1, n + 1))
        if x.flag("stop"):
            args.append(x.pick("j", -n - 1, n + 1))
    run(x, "index", args, args, items)


@harness(configs=SIZES)
def whole(x, n):
    """Comparison and concatenation."""
    items = objs(x, "o", n)
    m = x.pick("m", 0, n + 1)
    other = objs(x, "p", m)
    op = x.choice("op", ["eq", "ne", "add", "radd", "eq evented", "ne evented"])
    if op.endswith("evented"):
        ev = EventedList(items)
        o = EventedList(other)
        want = (items == other) if op[:2] == "eq" else (items != other)
        got = (ev == o) if op[:2] == "eq" else (ev != o)
        x.check("compares like its contents", got == want)
        x.check("both are left alone", x.same(list(ev), items) and x.same(list(o), other))
        return
    run(x, op, list(other), list(other), items)


@harness(configs=SIZES)
def many(x, n):
    """extend and += with every form of iterable, the list itself included"""
    items = objs(x, "o", n)
    op = x.choice("op", ["extend", "iadd"])
    if x.flag("itself"):
        run(x, op, lambda l: l, lambda l: l, items)
        return
    m = x.pick("m", 0, 2)
    a, b = iterables(x, "form", objs(x, "p", m))
    run(x, op, a, b, items)


@harness(configs=SIZES, must_cover=["error"])
def slices(x, n):
    items = objs(x, "o", n)
    s = slc(x, "s", n)
    op = x.choice("op", ["get", "del"])
    run(x, op, s, s, items)


@harness(
    configs=tiered(
        [{"n": n, "m": m} for n in range(4) for m in range(4)],
        [{"n": n, "m": m} for n in range(6) for m in range(5)],
    ),
    must_cover=["error"],
)
def assign(x, n, m):
    """Slice assignment"""
    items = objs(x, "o", n)
    s = slc(x, "s", n)
    new = objs(x, "p", m)
    if m == n and x.flag("itself"):
        run(x, "set", lambda l: (s, l), lambda l: (s, l), items)
        return
    if m == 0 and x.flag("not iterable"):
        run(x, "set", (s, 5), (s, 5), items)
        return
    if x.pick("form", 0, 1) == 0:
        run(x, "set", (s, tuple(new)), (s, tuple(new)), items)
    else:
        run(x, "set", (s, (i for i in new)), (s, (i for i in new)), items)


@harness(configs=[{}])
def wrong(x):
    """Indices of a wrong type"""
    items = objs(x, "o", 2)
    k = x.choice("k", ["a", None, 1.5, (0, 1)])
    op = x.choice("op", ["get", "set", "del", "popi"])
    a = (k, x.obj("v")) if op == "set" else k
    run(x, op, a, a, items)


@harness(
    configs=tiered(
        [{"n": 0, "k": 3}, {"n": 1, "k": 3}, {"n": 2, "k": 3}],
        [{"n": 0, "k": 4}, {"n": 1, "k": 4}, {"n": 2, "k": 4}],
    )
)
def history(x, n, k):
    """Sequences of operations"""
    items = objs(x, "o", n)
    ev, ref = EventedList(items), x.list(items)
    for j in range(k):
        before = list(ref)
        op = x.choice(f"op{j}", ["insert", "append", "set", "popi", "pop", "remove", "del",
                                 "reverse", "clear", "extend", "dels"])
        if op in ("insert", "set"):
            a = (x.int(f"i{j}"), x.obj(f"v{j}"))
        elif op in ("popi", "del"):
            a = x.int(f"i{j}")
        elif op == "extend":
            a = [x.obj(f"v{j}"), x.obj(f"w{j}")]
        elif op == "dels":
            op, a = "del", slice(None, None, 2)
        else:
            a = x.obj(f"v{j}")
        got, want = both(x, op, a, a, ev, ref)
        compare(x, got, want, ev, ref, before)


@harness(configs=[{}])
def kinds(x):
    """Construction, slices and copies of subclasses; hashing; nested lists."""
    n = x.pick("n", 0, 3)
    items = objs(x, "o", n)
    a, b = iterables(x, "form", items)
    ev = EventedList(a)
    x.check("constructed", x.same(list(ev), items))

    class Sub(EventedList):
        pass

    s = Sub(items)
    sl = slc(x, "s", n, steps=(None, -1))
    x.check("slices have the same type", type(s[sl]) is Sub and x.same(list(s[sl]), items[sl]))
    x.check("copies have the same type", type(s.copy()) is Sub and type(s + []) is Sub)
    c = s.copy()
    c.append(1)
    x.check("copies are independent", len(s) == n and len(c) == n + 1)
    x.check("hash by identity", hash(s) == hash(s) and len({s, c}) == 2)
    u = outcome(lambda: hash(EventedList(items, hashable=False)))
    x.check("not hashable on request", u.kind == "err" and u.value is TypeError)
    x.check("repr", repr(EventedList([1, "a"])) == "EventedList([1, 'a'])")
    x.check("validation happens before the change", rejected(x, items))


def rejected(x, items):
    """A subclass that rejects values keeps its contents."""

    class Even(EventedList):
        def _pre_insert(self, value):
            if value == 1:
                raise ValueError("odd")
            return value

    e = Even([0, 2])
    ok = True
    for f in (lambda: e.append(1), lambda: e.__setitem__(0, 1), lambda: e.insert(0, 1),
              lambda: e.__setitem__(slice(0, 1), [2, 1])):
        ok = ok and outcome(f).value is ValueError
    return ok and e == [0, 2]


# explored also with None among the arbitrary objects
index.nones = [{"n": 2}]
plain.nones = [{"n": 2}]
find.nones = [{"n": 2}]
whole.nones = [{"n": 2}]
many.nones = [{"n": 2}]
slices.nones = [{"n": 2}]
assign.nones = [{"n": 2, "m": 1}]
history.nones = [{"n": 1, "k": 2}]

HARNESSES = [index, plain, find, whole, many, slices, assign, wrong, history, kinds]
