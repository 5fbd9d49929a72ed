"""SelectableEventedList: the selection follows the list over every bounded history."""
from psygnal.containers import SelectableEventedList

from checks._lists import outcome
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "lists of 0-3 distinct items with every selection and current item; histories of "
    "2 operations (with 3 items, the first of them on the list): on the list (insert, append, extend, assign an item or a slice, delete an "
    "item or a slice, pop, remove, clear, move, move_multiple, reverse) or the selection "
    "(add, discard, toggle, set, active, select_all, deselect_all, select_next/previous with "
    "steps from -4 to 3 as last operation and of 1 or -1 before, expanding, wrapping around, remove_selected)",
    "thorough": "histories of 3 operations, lists of 0-4 items",
}
ASSUMPTIONS = [
    "the items of the list are distinct",
    "no callbacks that modify the list or the selection are connected",
]


class Item:
    """equal only to itself"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(p is q for p, q in zip(a, b))


def among(e, items):
    return any(e is i for i in items)


def same_items(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(among(e, b) for e in a) and all(among(e, a) for e in b)


LIST = ["insert", "append", "extend", "set", "slice", "del", "del slice", "pop", "remove",
        "clear", "move", "multi", "reverse", "reverse individually", "set same"]
SELECT = ["add", "discard", "toggle", "assign", "active", "active none", "all", "none",
          "next", "previous", "remove_selected", "outside"]


class State:
    steps = (-4, -2, -1, 0, 1, 2, 3)

    def __init__(self, x, n, extra=3):
        self.x = x
        self.pool = [Item(c) for c in "abcdefgh"]
        self.fresh = iter(self.pool[n:])
        self.ref = self.pool[:n]
        self.l = SelectableEventedList(self.ref)
        if n:
            x.check("the last inserted item is active", self.l.selection.active is self.ref[-1])
        sel = [i for i in self.ref if x.flag(f"sel {i}")]
        self.l.selection = sel
        x.check("selected as asked", same_items(self.l.selection, sel))
        self.sel = sel
        if n and len(sel) != 1:
            # (with several items selected, or none, any item may be the current one)
            c = x.pick("current", 0, n)
            if c < n:
                self.l.selection._current = self.ref[c]

    def step(self, j, last=True):
        x, l, ref = self.x, self.l, self.ref
        sel = list(self.sel)
        n = len(ref)
        cur = l.selection._current
        op = x.choice(f"op{j}", LIST + SELECT if last or n < 3 else LIST)
        pos = lambda nm: x.pick(f"{nm}{j}", 0, n - 1)  # noqa: E731
        if n == 0 and op in ("set", "set same", "del", "pop", "remove", "move", "multi", "add",
                             "discard", "toggle", "active"):
            return False
        if op in ("insert", "append", "extend"):
            new = [next(self.fresh)]
            if op == "insert":
                i = x.pick(f"i{j}", -n if last else 0, n)
                l.insert(i, new[0]), ref.insert(i, new[0])
            elif op == "append":
                l.append(new[0]), ref.append(new[0])
            else:
                new = new + [next(self.fresh)]
                l.extend(new), ref.extend(new)
            sel = [new[-1]]
            x.check("an inserted item becomes active", l.selection.active is new[-1])
        elif op == "set":
            i = x.pick(f"i{j}", -n if last else 0, n - 1)
            new = next(self.fresh)
            sel = [s for s in sel if s is not ref[i]]
            l[i] = new
            ref[i] = new
        elif op == "set same":
            i = pos("i")
            l[i] = ref[i]
        elif op == "slice":
            i = x.pick(f"i{j}", 0, n)
            m = x.pick(f"m{j}", i, n)
            keep = ref[i:i + 1] if i < m and x.flag(f"keep{j}") else []
            new = [next(self.fresh), *keep]
            sel = [s for s in sel if not among(s, ref[i:m]) or among(s, keep)]
            l[i:m] = new
            ref[i:m] = new
        elif op == "del":
            i = x.pick(f"i{j}", -n if last else 0, n - 1)
            sel = [s for s in sel if s is not ref[i]]
            del l[i], ref[i]
        elif op == "del slice":
            i = x.pick(f"i{j}", 0, n)
            m = x.pick(f"m{j}", i, n)
            sel = [s for s in sel if not among(s, ref[i:m])]
            del l[i:m], ref[i:m]
        elif op == "pop":
            gone = ref.pop()
            sel = [s for s in sel if s is not gone]
            x.check("popped", l.pop() is gone)
        elif op == "remove":
            gone = ref.pop(pos("i"))
            sel = [s for s in sel if s is not gone]
            l.remove(gone)
        elif op == "clear":
            l.clear(), ref.clear()
            sel = []
        elif op == "move":
            i, m = pos("i"), x.pick(f"m{j}", 0, n)
            l.move(i, m)
            ref[:] = list(l)
            x.check("a permutation", len(ref) == n)
        elif op == "multi":
            l.move_multiple([n - 1], 0)
            ref.insert(0, ref.pop())
        elif op == "reverse":
            l.reverse(), ref.reverse()
        elif op == "reverse individually":
            l.reverse(emit_individual_events=True), ref.reverse()
        elif op == "outside":
            got = outcome(lambda: l.selection.add(Item("z")))
            x.check("not selectable", got.kind == "err" and got.value is ValueError)
        elif op == "add":
            e = ref[pos("i")]
            l.selection.add(e)
            sel = sel + [e] if not among(e, sel) else sel
        elif op == "discard":
            e = ref[pos("i")]
            l.selection.discard(e)
            sel = [s for s in sel if s is not e]
        elif op == "toggle":
            e = ref[pos("i")]
            l.selection.toggle(e)
            sel = [s for s in sel if s is not e] if among(e, sel) else sel + [e]
        elif op == "assign":
            sel = [i for k, i in enumerate(ref) if x.flag(f"a{j}.{k}")]
            form = x.choice(f"form{j}", [tuple, iter]) if last else iter
            l.selection = form(sel)
        elif op == "active":
            e = ref[pos("i")]
            l.selection.active = e
            sel = [e]
        elif op == "active none":
            if l.selection.active is not None:
                sel = []
            l.selection.active = None
        elif op == "all":
            l.select_all()
            sel = list(ref)
        elif op == "none":
            l.deselect_all()
            sel = []
        elif op in ("next", "previous"):
            sel = self.select_next(j, op, cur, sel, last)
        else:
            sel = self.remove_selected(sel)
        self.sel = sel
        self.invariant(op)
        return True

    def select_next(self, j, op, cur, sel, last):
        x, l, ref = self.x, self.l, self.ref
        n = len(ref)
        expand, wrap = x.flag(f"expand{j}"), x.flag(f"wrap{j}")
        if op == "next":
            step = x.choice(f"step{j}", self.steps if last else (1, -1))
            if step == 1:
                l.select_next(expand_selection=expand, wraparound=wrap)
            else:
                l.select_next(step, expand_selection=expand, wraparound=wrap)
        else:
            step = -1
            l.select_previous(expand_selection=expand, wraparound=wrap)
        if n == 0:
            return sel

        def target(i):
            if wrap:
                return ref[i % n]
            if 0 <= i < n:
                return ref[i]
            return ref[-1] if step > 0 else ref[0]

        if not sel:
            ok = [ref[-1] if step > 0 else ref[0]]
        elif among(cur, ref):
            ok = [target(ref.index(cur) + step)]
        else:  # the current item is gone: the neighbour of a selected one
            x.cover("current item gone")
            ok = [target(ref.index(s) + step) for s in sel]
        got = l.selection._current
        x.check("the neighbouring item", among(got, ok), info=(ref, sel, cur, step, got))
        if expand:
            return sel if among(got, sel) else [*sel, got]
        x.check("is active", l.selection.active is got)
        return [got]

    def remove_selected(self, sel):
        x, l, ref = self.x, self.l, self.ref
        removed = l.remove_selected()
        x.check("returns the removed items", type(removed) is tuple and same_items(removed, sel))
        old = list(ref)
        ref[:] = [r for r in ref if not among(r, sel)]
        now = list(l.selection)
        if not sel:
            return now
        if not ref:
            return []
        x.check("one remaining item is selected", len(now) == 1 and among(now[0], ref),
                info=(old, sel, now))
        if len(now) == 1:
            p = old.index(now[0])
            x.check("next to a removed one", any(
                0 <= q < len(old) and among(old[q], sel) for q in (p - 1, p + 1)),
                info=(old, sel, now))
        return now

    def invariant(self, op):
        x, l, s = self.x, self.l, self.l.selection
        x.check("list contents", same(l, self.ref), info=(op, l, self.ref))
        x.check("selected items are in the list", all(among(i, l) for i in s), info=(op, s, l))
        x.check("the selection", same_items(s, self.sel), info=(op, list(s), self.sel))
        if len(s) == 1:
            x.check("the sole item is active", s.active is next(iter(s)))
        else:
            x.check("no active item", s.active is None)


@harness(
    configs=tiered([{"n": n, "k": 2} for n in range(4)],
                   [{"n": n, "k": 3} for n in range(4)] + [{"n": 4, "k": 2}]),
    must_cover=["current item gone"],
)
def history(x, n, k):
    st = State(x, n)
    for j in range(k):
        if not st.step(j, j == k - 1):
            return


@harness(configs=[{"n": n} for n in range(4)])
def failing(x, n):
    """Operations that raise change neither the list nor the selection."""
    st = State(x, n)
    l = st.l
    current, active = l.selection._current, l.selection.active
    new = Item("new")
    op = x.choice("op", ["set", "slice", "del", "pop", "remove", "move", "only", "active",
                         "add"])
    f = {
        "set": lambda: l.__setitem__(n, new),
        "slice": lambda: l.__setitem__(slice(0, n, 2), [new] * (n + 2)),
        "del": lambda: l.__delitem__(-n - 1),
        "pop": lambda: l.pop(n),
        "remove": lambda: l.remove(new),
        "move": lambda: l.move(n, 0),
        "only": lambda: l.selection.select_only(new),
        "active": lambda: setattr(l.selection, "active", new),
        "add": lambda: l.selection.add(new),
    }[op]
    got = outcome(f)
    x.check("raises", got.kind == "err", info=(op, got))
    st.invariant(op)
    x.check("current and active stay", l.selection._current is current
            and l.selection.active is active)


HARNESSES = [history, failing]
