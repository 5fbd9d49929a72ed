"""Selection: contents, active and current item over every bounded history."""
from psygnal import EmitLoopError
from psygnal.containers import Selection

from checks import c08
from checks._lists import objs, outcome
from checks.c21 import distinct
from checks.c22 import reference, same_order, same_set
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "selections of 0-2 arbitrary items, with a parent of 3 arbitrary items or none; "
    "all histories of 2-3 operations (add, discard, remove, toggle, clear, select_only, set "
    "active, set current, update, intersection, difference, symmetric difference, pop) with "
    "arbitrary items (all coincidence patterns); listeners that change the selection in turn "
    "(1 operation and 2 reactions, or 2 operations and 1 reaction), or raise at any time",
    "thorough": "histories of 3-4 operations",
}


def reset():
    c08.reset()


ASSUMPTIONS = ["callbacks that modify the selection in turn: only what the selection is in the "
               "end, not in which order they are notified"]


class Watch:
    def __init__(self, x, s):
        self.x, self.s = x, s
        self.trace = {"active": [s.active], "current": [s._current]}
        self.items = []
        s.events.active.connect(self.on_active)
        s.events._current.connect(self.on_current)
        s.events.items_changed.connect(self.on_items)

    def on_active(self, v):
        self.trace["active"].append(v)
        self.x.check("active: the new value", eq(v, self.s.active))

    def on_current(self, v):
        self.trace["current"].append(v)
        self.x.check("current: the new value", eq(v, self.s._current))

    def on_items(self, added, removed):
        self.items.append((added, removed))

    def settle(self, before, after, once):
        x = self.x
        for name, now in (("active", self.s.active), ("current", self.s._current)):
            t = self.trace[name]
            x.check(f"{name}: notified when, and only when, it changes",
                    not any(eq(a, b) for a, b in zip(t, t[1:])), info=t)
            x.check(f"{name}: the last notification is its value", eq(t[-1], now),
                    info=(t, now))
            self.trace[name] = [now]
        got_add = [e for a, _ in self.items for e in a]
        got_rem = [e for _, r in self.items for e in r]
        add = [a for a in after if not any(eq(a, b) for b in before)]
        rem = [b for b in before if not any(eq(a, b) for a in after)]
        x.check("items added", same_set(x, got_add, add), info=(self.items, before, after))
        x.check("items removed", same_set(x, got_rem, rem), info=(self.items, before, after))
        if once:
            x.check("at most one notification", len(self.items) <= 1, info=self.items)
        x.check("no empty notification", all(a or r for a, r in self.items), info=self.items)
        del self.items[:]


def eq(a, b):
    if a is None or b is None:
        return a is b
    return bool(a == b)


def inside(e, items):
    return any(eq(e, i) for i in items)


SINGLE = ["add", "discard", "remove", "toggle", "select_only", "active"]
OTHER = ["clear", "clear keep", "active none", "current", "current none", "update",
         "intersection_update", "difference_update", "symmetric_difference_update", "pop"]


def step(x, s, w, cur, parent, op, e, f):
    """One operation; returns the contents it must leave."""
    act0, cur0 = s.active, s._current
    parented = parent is not None
    args = [e, f]
    reject = False
    fn = None
    once = op not in ("active", "active none", "select_only")
    if op == "add":
        after = reference("update", cur, [[e]])
        reject = parented and not inside(e, parent)
        fn = lambda: s.add(e)  # noqa: E731
    elif op in ("discard", "remove"):
        after = reference("difference", cur, [[e]])
        fn = lambda: getattr(s, op)(e)  # noqa: E731
    elif op == "toggle":
        after = reference("symmetric_difference", cur, [[e]])
        reject = parented and not inside(e, cur) and not inside(e, parent)
        fn = lambda: s.toggle(e)  # noqa: E731
    elif op == "select_only":
        after = [e]
        reject = parented and not inside(e, parent)
        fn = lambda: s.select_only(e)  # noqa: E731
    elif op == "active":
        after = [e]
        reject = parented and not inside(e, parent)
        fn = lambda: setattr(s, "active", e)  # noqa: E731
    elif op == "active none":
        # (nothing to do if there is no active item)
        after = [] if act0 is not None else list(cur)
        fn = lambda: setattr(s, "active", None)  # noqa: E731
    elif op == "clear":
        after = []
        fn = s.clear
    elif op == "clear keep":
        after = []
        fn = lambda: s.clear(keep_current=True)  # noqa: E731
    elif op == "current":
        after = list(cur)
        fn = lambda: setattr(s, "_current", e)  # noqa: E731
    elif op == "current none":
        after = list(cur)
        fn = lambda: setattr(s, "_current", None)  # noqa: E731
    elif op == "pop":
        after = list(cur[1:])
        fn = s.pop
    else:
        name = {"update": "update", "intersection_update": "intersection",
                "difference_update": "difference",
                "symmetric_difference_update": "symmetric_difference"}[op]
        after = reference(name, cur, [args])
        if parented and op in ("update", "symmetric_difference_update"):
            # (several items of which one is rejected: see `only parent's items`)
            if not all(inside(a, parent) for a in after):
                outcome(lambda: getattr(s, op)(args))
                x.check("only the parent's items", all(inside(i, parent) for i in s))
                after = list(s)
                w.settle(cur, after, once)
                consistent(x, s, after)
                return after
        fn = lambda: getattr(s, op)(args)  # noqa: E731
    got = outcome(fn)
    if reject:
        x.cover("rejected")
        x.check("rejected", got.kind == "err" and got.value is ValueError, info=got)
        after = list(cur)
        x.check("active is left alone", eq(s.active, act0))
        x.check("current is left alone", eq(s._current, cur0))
        x.check("nothing is notified", len(w.items) == 0 and len(w.trace["active"]) == 1
                and len(w.trace["current"]) == 1, info=(w.items, w.trace))
    elif op in ("remove", "pop") and got.kind == "err":
        x.check("KeyError", got.value is KeyError and (
            not inside(e, cur) if op == "remove" else not cur))
        after = list(cur)
    else:
        x.check("accepted", got.kind == "ok", info=got)
    x.check("contents", same_set(x, s, after), info=(s, after))
    if op not in ("symmetric_difference_update", "toggle"):
        x.check("insertion order", same_order(x, s, after), info=(s, after))
    w.settle(cur, after, once)
    consistent(x, s, after)
    if got.kind == "ok" and not reject:
        if op == "active":
            x.check("active", eq(s.active, e))
            x.check("current", eq(s._current, e))
        elif op in ("clear", "current none"):
            x.check("no current item", s._current is None)
        elif op == "clear keep":
            x.check("current is kept", eq(s._current, cur0))
        elif op == "current":
            x.check("current is set", eq(s._current, e))
        elif op == "active none" and act0 is not None:
            x.check("no current item", s._current is None)
        elif s.active is not None and not eq(s.active, act0):
            x.cover("became active")
            x.check("a new active item is current", eq(s._current, s.active))
        elif op in ("add", "discard", "remove", "toggle", "pop"):
            x.check("current stays", eq(s._current, cur0))
    return after


def consistent(x, s, after):
    if len(after) == 1:
        x.check("the sole item is active", s.active is not None and eq(s.active, after[0]))
    else:
        x.check("no active item", s.active is None, info=(s.active, after))


def start(x, n, parented):
    pool = objs(x, "p", 3)
    distinct(x, pool)
    s = Selection(pool[:n], parent=list(pool) if parented else None)
    consistent(x, s, pool[:n])
    x.check("constructed", same_order(x, s, pool[:n]))
    return pool, s, Watch(x, s), pool[:n]


@harness(
    configs=tiered(
        [{"n": n, "k": 2, "parented": p} for n in range(3) for p in (True, False)],
        [{"n": n, "k": 3, "parented": p} for n in range(3) for p in (True, False)],
    ),
    must_cover=["rejected", "became active"],
)
def history(x, n, k, parented):
    pool, s, w, cur = start(x, n, parented)
    parent = pool if parented else None
    for j in range(k):
        op = x.choice(f"op{j}", SINGLE + OTHER)
        e = f = None
        if op in SINGLE or op.endswith("update") or op == "current":
            e = x.obj(f"e{j}")
            if op.endswith("update"):
                f = x.obj(f"f{j}")
        cur = step(x, s, w, cur, parent, op, e, f)


@harness(
    configs=tiered(
        [{"n": n, "k": 3, "parented": p} for n in range(3) for p in (True, False)],
        [{"n": n, "k": 4, "parented": p} for n in range(3) for p in (True, False)],
    ),
)
def singles(x, n, k, parented):
    """Longer histories of operations on single items, which are picked from a pool."""
    pool, s, w, cur = start(x, n, parented)
    parent = pool if parented else None
    outside = object()
    for j in range(k):
        op = x.choice(f"op{j}", ["add", "discard", "toggle", "select_only", "active",
                                 "active none", "clear", "clear keep", "current"])
        e = None
        if op in SINGLE or op == "current":
            e = x.choice(f"e{j}", [*pool, outside] if parented and op != "current" else pool)
        cur = step(x, s, w, cur, parent, op, e, None)


@harness(configs=[{"n": n} for n in range(3)])
def identity(x, n):
    """Hashing, copies, and a parent that changes (and may be empty)."""
    pool = objs(x, "p", 3)
    distinct(x, pool)
    parent = list(pool[:n])
    s = Selection(parent=parent)
    x.check("hashable", len({s, s}) == 1)
    e = x.obj("e")
    ok = inside(e, parent)
    x.check("selectable iff in the parent", (outcome(lambda: s.add(e)).kind == "ok") == ok)
    parent.append(pool[2])
    ok2 = inside(e, parent)
    x.check("the parent as it is now", (outcome(lambda: s.add(e)).kind == "ok") == ok2)
    x.check("contents", len(s) == int(ok2))


@harness(
    configs=tiered(
        [{"n": n, "k": k, "m": 3 - k, "event": e} for n in (1, 2) for k in (1, 2)
         for e in ("items_changed", "active", "_current")],
        [{"n": n, "k": 2, "m": m, "event": e} for n in range(3) for m in (1, 2)
         for e in ("items_changed", "active", "_current")],
    ),
    must_cover=["reacted", "reacted by setting active"],
)
def reacting(x, n, k, m, event):
    """A listener that changes the selection in turn: it is consistent in the end."""
    pool = objs(x, "p", 3)
    distinct(x, pool)
    s = Selection(pool[:n], parent=list(pool))
    left = [m]
    ops = ["add", "discard", "select_only", "active", "active none", "clear", "toggle"]

    def do(name):
        op = x.choice("op " + name, ops)
        e = None if op in ("clear", "active none") else x.choice("item " + name, pool)
        if op.startswith("active"):
            s.active = e
        elif op == "clear":
            s.clear()
        else:
            getattr(s, op)(e)
        return op, e

    def listener(*a):
        if left[0]:
            left[0] -= 1
            last = left[0] == 0
            op, e = do(f"in reaction {left[0]}")
            x.cover("reacted")
            if op in ("active", "select_only", "add") and last:
                x.cover("reacted by setting active")
                x.check("it is selected", inside(e, s), info=(s, op, e))
                if op != "add":
                    x.check("it is the only one selected", len(s) == 1, info=(s, op, e))
            if op == "active" and last:
                x.check("it is active", eq(s.active, e) and eq(s._current, e),
                        info=(s, s.active, e))

    s.events[event].connect(listener)
    for j in range(k):
        op, e = do(str(j))
        x.check("in the parent", all(inside(i, pool) for i in s))
        consistent(x, s, list(s))
    left[0] = 0  # from now on it does not react
    s.active = e = x.choice("last", pool)
    x.check("finally", list(s) == [e] and eq(s.active, e) and eq(s._current, e))


@harness(
    configs=tiered(
        [{"n": n, "k": 2, "event": e} for n in (1, 2)
         for e in ("items_changed", "active", "_current")],
        [{"n": n, "k": 3, "event": e} for n in (0, 1, 2)
         for e in ("items_changed", "active", "_current")],
    ),
    must_cover=["failed", "active after failure"],
)
def failing(x, n, k, event):
    """A listener that raises: active and selected items agree all the same."""
    c08.stub_message(True)
    pool = objs(x, "p", 3)
    distinct(x, pool)
    s = Selection(pool[:n], parent=list(pool))
    on = [True]

    def listener(*a):
        if on[0] and x.flag(f"raise {len(on)}"):
            on.append(True)
            raise KeyError("listener")
        on.append(True)

    s.events[event].connect(listener)
    ops = ["add", "discard", "select_only", "active", "active none", "clear", "toggle", "update"]
    for j in range(k):
        op = x.choice(f"op {j}", ops)
        e = None if op in ("clear", "active none", "update") else x.choice(f"item {j}", pool)

        def do():
            if op.startswith("active"):
                s.active = e
            elif op == "clear":
                s.clear()
            elif op == "update":
                s.update(pool[1:])
            else:
                getattr(s, op)(e)

        try:
            do()
        except EmitLoopError:
            x.cover("failed")
            if s.active is not None:
                x.cover("active after failure")
        x.check("in the parent", all(inside(i, pool) for i in s))
        consistent(x, s, list(s))
    on[0] = False
    s.active = e = x.choice("last", pool)
    x.check("finally", list(s) == [e] and eq(s.active, e) and eq(s._current, e))


HARNESSES = [history, singles, identity, reacting, failing]
