"""EventedList.move and move_multiple against the stated permutation."""
from psygnal.containers import EventedList

from checks import c18
from checks._lists import objs, outcome
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "lists of 0-5 arbitrary elements; move: all integer sources and destinations "
    "(unbounded); move_multiple: lists of up to 4, all sequences of up to 3 sources from one "
    "beyond either end (repetitions included), slices, all destinations up to one beyond "
    "either end",
    "thorough": "lists of up to 6, up to 4 sources",
}
ASSUMPTIONS = ["no callbacks that modify the list are connected"]


class Watch(c18.Watch):
    def on_reordered(self):
        self.log.append(("reordered",))
        self.now("reordered is confirmed after the change")


def norm(x, i, n):
    return x.ite(i < 0, i + n, i)


def norm_dest(x, d, n):
    """Destinations are gaps: -1 is behind the last item."""
    d = x.ite(d < 0, d + n + 1, d)
    return x.ite(d < 0, 0, x.ite(d > n, n, d))


@harness(
    configs=tiered([{"n": k} for k in range(6)], [{"n": k} for k in range(8)]),
    must_cover=["moved", "no-op", "invalid"],
)
def move(x, n):
    items = objs(x, "o", n)
    ev = EventedList(items)
    w = Watch(x, ev)
    src = x.int("src")
    default = x.flag("default destination")
    dest = 0 if default else x.int("dest")
    got = outcome((lambda: ev.move(src)) if default else (lambda: ev.move(src, dest)))
    w.done()
    valid = x.and_(src >= -n, src < n)
    if not valid:
        x.cover("invalid")
        x.check("invalid sources raise IndexError", got.kind == "err" and got.value is IndexError)
        x.check("and change nothing", x.same(list(ev), items) and w.log == [], info=w.log)
        return
    x.check("valid sources are accepted", got.kind == "ok", info=got)
    s, d = norm(x, src, n), norm_dest(x, dest, n)
    ref = x.list(items)
    item = ref[s]
    nop = x.or_(s == d, d == s + 1)
    del ref[s]
    ref.insert(x.ite(d > s, d - 1, d), item)
    x.check("the stated permutation", x.same(list(ev), list(ref)), info=(list(ev), list(ref)))
    if nop:
        x.cover("no-op")
        x.check("nothing to do", got.value is False and w.log == [], info=w.log)
    else:
        x.cover("moved")
        x.check("moved", got.value is True)
        x.check("its events", w.names() == ["move", "moved", "reordered"], info=w.log)
        if len(w.log) == 3:
            x.check("from where to where", x.same(w.log[0][1:], (s, d)), info=w.log)


def check_multiple(x, ev, w, items, got, sel, dest, n):
    """sel: normalised, distinct positions"""
    ok = x.check
    ok("accepted", got.kind == "ok", info=got)
    d = norm_dest(x, dest, n)
    rest_before = [items[i] for i in range(n) if i not in sel and i < d]
    rest_after = [items[i] for i in range(n) if i not in sel and i >= d]
    want = rest_before + [items[i] for i in sel] + rest_after
    ok("the stated permutation", x.same(list(ev), want), info=(list(ev), want, sel, d))
    names = w.names()
    moves = names.count("moved")
    ok("its events", names == ["move", "moved"] * moves + ["reordered"], info=w.log)
    ok("the number of moves", got.value == moves, info=(got, w.log))


@harness(
    configs=tiered(
        [{"n": n, "k": k} for n, k in
         ((0, 1), (1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (4, 1), (4, 2))],
        [{"n": n, "k": k} for n, k in
         ((0, 1), (1, 2), (2, 3), (3, 3), (3, 4), (4, 3), (5, 3), (4, 4), (6, 2))],
    ),
    must_cover=["invalid"],
)
def multiple(x, n, k):
    items = objs(x, "o", n)
    ev = EventedList(items)
    w = Watch(x, ev)
    srcs = [x.pick(f"s{i}", -n - 1, n) for i in range(k)]
    dest = x.pick("dest", -n - 2, n + 1)
    form = x.choice("form", [tuple, iter])
    got = outcome(lambda: ev.move_multiple(form(srcs), dest))
    w.done()
    if any(not -n <= s < n for s in srcs):
        x.cover("invalid")
        x.check("invalid sources raise IndexError", got.kind == "err" and got.value is IndexError)
        x.check("and change nothing", x.same(list(ev), items) and w.log == [], info=w.log)
        return
    sel = list(dict.fromkeys(s + n if s < 0 else s for s in srcs))
    check_multiple(x, ev, w, items, got, sel, dest, n)


@harness(
    configs=tiered([{"n": n} for n in range(5)], [{"n": n} for n in range(7)])
)
def sliced(x, n):
    """Slices (and an index) as sources; no sources at all; wrong types"""
    items = objs(x, "o", n)
    ev = EventedList(items)
    w = Watch(x, ev)
    dest = x.pick("dest", -n - 1, n)
    kind = x.choice("kind", ["slice", "index and slice", "none", "wrong"])
    st, sp = x.pick("start", -n, n), x.pick("stop", -n, n)
    sl = slice(st, sp, x.choice("step", [None, 2, -1]))
    rng = list(range(*sl.indices(n)))
    if kind == "slice":
        srcs, sel = [sl], rng
    elif kind == "none":
        srcs, sel = [], []
    elif kind == "index and slice":
        if not n:
            return
        srcs = [n - 1, sl]
        sel = list(dict.fromkeys([n - 1, *rng]))
    else:
        got = outcome(lambda: ev.move_multiple([sl, "a"], dest))
        x.check("rejected", got.kind == "err" and got.value is TypeError)
        x.check("unchanged", x.same(list(ev), items) and w.log == [])
        return
    got = outcome(lambda: ev.move_multiple(srcs, dest))
    w.done()
    check_multiple(x, ev, w, items, got, sel, dest, n)


# explored also with None among the arbitrary objects
move.nones = [{"n": 3}]
multiple.nones = [{"n": 3, "k": 2}]

HARNESSES = [move, multiple, sliced]
