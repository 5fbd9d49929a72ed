"""Connection bookkeeping over confusable callables, against a counting model.

Bound objects and partial arguments have symbolic equality (any equality pattern), the
history of connects and disconnects is symbolic.
"""
from functools import partial

from psygnal import Signal, SignalGroup, SignalInstance

from symx.ctx import harness, tiered

from checks import c08

BOUNDS = {
    "quick": "3-4 callables out of: functions, bound methods of possibly equal objects, two "
    "methods of one object, partials with possibly equal positional/keyword payloads, "
    "setters of attributes or of items with possibly equal keys, builtin methods of equal lists, callable objects with arbitrary equality; histories "
    "of 3 connect/disconnect operations (2 where connections may be bound to a thread) and one "
    "operation with every unique/missing_ok option; 3 operations on a group",
    "thorough": "histories of 4 + 1 operations; 4 on a group",
}
ASSUMPTIONS = [
    "partials of the same callable are the same callable exactly when their arguments are equal",
    "single thread",
]


def reset():
    c08.reset()


class MyList(list):
    pass


def family(x, kind, log):
    """[(callable, identity class, tag logged)]; equal classes = the same callable"""

    def rec(tag):
        def f(*a, **k):
            log.append(tag)

        f.__name__ = f.__qualname__ = "f"
        return f

    class Eq:
        """Any equality between instances, decided by the solver."""

        def __init__(self, i):
            self.i = i

        def __eq__(self, o):
            if self is o:
                return True
            if not isinstance(o, Eq):
                return NotImplemented
            return bool(x.bool(f"eq{min(self.i, o.i)}{max(self.i, o.i)}"))

        def __hash__(self):
            return 7

        def __setattr__(self, name, v):
            if name != "i":
                log.append(("set", self.i, name))
            object.__setattr__(self, name, v)

        def m(self, *a):
            log.append(("m", self.i))

        def n(self, *a):
            log.append(("n", self.i))

        def __call__(self, *a):
            log.append(("c", self.i))

    if kind == "functions":
        f = [rec(i) for i in range(3)]
        return [(f[i], i, i) for i in range(3)], f
    if kind == "methods":
        o = [Eq(0), Eq(1)]
        return [(o[0].m, 0, ("m", 0)), (o[1].m, 1, ("m", 1)), (o[0].n, 2, ("n", 0))], o
    if kind == "fresh methods":
        # bound method objects are created anew at every access
        o = [Eq(0), Eq(1)]
        return [
            (lambda: o[0].m, 0, ("m", 0)),
            (lambda: o[1].m, 1, ("m", 1)),
            (lambda: o[1].n, 2, ("n", 1)),
        ], o
    if kind == "objects":
        o = [Eq(0), Eq(1), Eq(2)]
        return [(o[i], i, ("c", i)) for i in range(3)], o
    if kind == "attribute setters":
        o = [Eq(0), Eq(1)]
        return [(partial(setattr, o[i], n), j, ("set", i, n))
                for j, (i, n) in enumerate([(0, "a"), (1, "a"), (0, "b")])], o
    if kind in ("partials", "kw partials", "method partials", "item partials"):
        pay = [x.obj(f"pay{i}") for i in range(3)]
        cls = [0, None, None]
        for i in (1, 2):
            for j in range(i):
                if cls[i] is None and bool(pay[i] == pay[j]):
                    cls[i] = cls[j]
            if cls[i] is None:
                cls[i] = i
        owner = Eq(0)

        def f(p, *a):
            log.append(("p", p))

        if kind == "kw partials":

            def f(*a, p):
                log.append(("p", p))

        class Own:
            def m(self, p, *a):
                log.append(("p", p))

            def __setitem__(self, p, v):
                log.append(("p", p))

        own = Own()
        out = []
        for i in range(3):
            if kind == "kw partials":
                c = partial(f, p=pay[i])
            elif kind == "method partials":
                c = partial(own.m, pay[i])
            elif kind == "item partials":
                c = partial(own.__setitem__, pay[i])
            else:
                c = partial(f, pay[i])
            out.append((c, cls[i], ("p", pay[i])))
        return out, (f, own)
    if kind == "plain and partial":

        def f(*a):
            log.append(("f", len(a)))

        return [(f, 0, None), (partial(f, 1), 1, None), (partial(f, 1, 2), 2, None)], f
    if kind == "builtin":
        ls = [MyList(), MyList()]
        return [
            (ls[0].append, 0, None),
            (ls[1].append, 1, None),
            (ls[0].extend, 2, None),
        ], ls
    raise AssertionError(kind)


KINDS = ["functions", "methods", "fresh methods", "objects", "partials", "kw partials",
         "method partials", "item partials", "attribute setters", "plain and partial", "builtin"]
OPS = ["connect", "unique", "raise", "disconnect", "must_disconnect"]


def step(x, s, op, get, count, total, label, **kw):
    """One operation on both sides; returns (new count of this class, new total)."""
    if op in ("connect", "unique", "raise"):
        err = None
        try:
            if op == "connect":
                s.connect(get(), max_args=1, **kw)
            elif op == "unique":
                s.connect(get(), max_args=1, unique=True, **kw)
            else:
                s.connect(get(), max_args=1, unique="raise", **kw)
        except ValueError as e:
            err = e
        x.check(f"{label}: unique='raise'", (err is not None) == (op == "raise" and count > 0))
        if op == "connect" or count == 0:
            return count + 1, total + 1
        x.cover("not connected twice")
        return count, total
    err = None
    try:
        s.disconnect(get(), missing_ok=op == "disconnect")
    except ValueError as e:
        err = e
    x.check(f"{label}: missing_ok=False", (err is not None) == (op != "disconnect" and count == 0))
    if count:
        x.cover("disconnected")
        return count - 1, total - 1
    return count, total


@harness(
    configs=tiered(
        [{"kind": k, "plain": 3} for k in KINDS] + [{"kind": k, "plain": 2, "thread": True} for k in KINDS],
        [{"kind": k, "plain": 4} for k in KINDS] + [{"kind": k, "plain": 3, "thread": True} for k in KINDS],
    ),
    must_cover=["disconnected", "not connected twice", "disconnected all"],
)
def history(x, kind, plain, thread=False):
    c08.stub_message(True)
    log = []
    fam, keep = family(x, kind, log)
    getters = [c[0] if kind == "fresh methods" else (lambda c=c[0]: c) for c in fam]
    s = SignalInstance((object,), name="s")
    counts, total = {c[1]: 0 for c in fam}, 0
    order = []  # which callable each connection was made with
    for i in range(plain + 1):
        last = i == plain
        ops = OPS + ["clear"] if last else ["connect", "disconnect"]
        op = x.choice(f"op{i}", ops)
        if op == "clear":
            s.disconnect()
            counts, total = {c: 0 for c in counts}, 0
            x.cover("disconnected all")
        else:
            k = x.choice(f"cb{i}", range(len(fam)))
            c = fam[k][1]
            counts[c], total = step(
                x, s, op, getters[k], counts[c], total, f"op{i}",
                **({"thread": "current"} if thread and x.flag(f"bound{i}") else {}))
        x.check(f"length after {i}", len(s) == total)
        for j, g in enumerate(getters):
            x.check(f"membership after {i}", (g() in s) == (counts[fam[j][1]] > 0))
    # what runs
    if kind == "builtin":
        s.emit([1])
        ls = keep
        n = [sum(1 for e in ls[0] if e == [1]), sum(1 for e in ls[0] if e == 1), len(ls[1])]
        x.check("calls", n == [counts[0], counts[2], counts[1]])
        return
    s.emit(5)
    if kind == "plain and partial":
        want = sorted(("f", c + 1) for c, n in counts.items() for _ in range(n))
        x.check("calls", sorted(log) == want)
    elif "partials" in kind:
        x.check("number of calls", len(log) == total)
        for c, n in counts.items():
            rep = fam[c][2][1]
            got = 0
            for _, p in log:
                got = got + x.ite(p == rep, 1, 0)
            x.check("calls", got == n)
    else:
        for _, c, tag in fam:
            x.check("calls", sum(1 for t in log if t == tag) == counts[c])


class G(SignalGroup):
    a = Signal(int)
    b = Signal(int)


@harness(
    configs=tiered([{"steps": 3}], [{"steps": 4}]), must_cover=["found nowhere", "everywhere"]
)
def group(x, steps):
    """Disconnecting from a group finds the callback at the group and at every member."""
    g = G()
    log = []

    def mk(i):
        def cb(v):
            log.append(i)

        return cb

    cbs = [mk(0), mk(1)]
    places = [g.all, g.a, g.b]
    count = [[0, 0], [0, 0], [0, 0]]
    for i in range(steps):
        op = x.choice(f"op{i}", ["connect", "disconnect", "group disconnect", "direct"])
        k = x.pick(f"cb{i}", 0, 1)
        if op == "connect":
            p = x.pick(f"at{i}", 0, 2)
            (g if p == 0 and x.flag(f"via{i}") else places[p]).connect(cbs[k])
            count[p][k] += 1
        elif op == "direct":
            g.connect_direct(cbs[k])
            count[1][k] += 1
            count[2][k] += 1
        elif op == "disconnect":
            p = x.pick(f"at{i}", 1, 2)
            places[p].disconnect(cbs[k])
            count[p][k] = max(0, count[p][k] - 1)
        else:
            ok = x.flag(f"missing_ok{i}")
            err = None
            try:
                g.disconnect(cbs[k], missing_ok=ok)
            except ValueError as e:
                err = e
            nowhere = not any(c[k] for c in count)
            x.check("raises exactly when found nowhere", (err is not None) == (nowhere and not ok))
            if nowhere:
                x.cover("found nowhere")
            else:
                x.cover("everywhere")
            for c in count:
                c[k] = max(0, c[k] - 1)
        x.check("group counts only its own", len(g.all) == sum(count[0]))
        for p in range(3):
            for j in range(2):
                x.check("membership", (cbs[j] in places[p]) == (count[p][j] > 0))
    del log[:]
    g.a.emit(1)
    x.check("a", sorted(log) == sorted(j for j in range(2) for p in (0, 1) for _ in range(count[p][j])))
    del log[:]
    g.b.emit(1)
    x.check("b", sorted(log) == sorted(j for j in range(2) for p in (0, 2) for _ in range(count[p][j])))


HARNESSES = [history, group]
