"""Lifetime of callbacks bound to objects: the moment of each release is symbolic."""
import gc
import warnings
import weakref
from functools import partial
from types import MethodType

import toolz

from psygnal import Signal, SignalGroup, SignalInstance

from symx.ctx import harness, tiered

from checks import c08

BOUNDS = {
    "quick": "3 connections of any kinds (bound method, partial and curry of one, "
    "builtin method, callable object, attribute setter, item setter, partials of these, thread-bound method, plain function) on 1-2 "
    "owners; up to 2 releases before, during (in any callback) and between 2 emissions, one "
    "nested emission; all re-emission modes and emit_fast",
    "thorough": "4 connections, up to 3 releases",
}
ASSUMPTIONS = [
    "objects are released by reference count (no other reference is left), or with a collection of the "
    "cycle where a method's function refers to its own object",
    "single thread",
]


def reset():
    c08.reset()


KINDS = ["method", "partial", "setattr", "setitem", "function", "curry", "queued", "builtin",
         "object", "partial object", "partial setattr", "partial setitem"]


class World:
    """Owners whose every kind of callback reports to the harness."""

    def __init__(self):
        self.hook = None
        this = weakref.ref(self)

        class Owner(list):
            def m(self, tag, *a):
                this().hook(tag, a)

            def __setattr__(self, name, v):
                this().hook(int(name[1:]), (v,))

            def __getattr__(self, name):
                if name[0] == "x" and name[1:].isdigit():
                    return None
                raise AttributeError(name)

            def __setitem__(self, key, v):
                this().hook(key, (v,))

            def __call__(self, *a):
                if len(a) == 1:
                    this().hook(self.__dict__["plain"], a)
                else:
                    this().hook(a[0], a[1:])

            for _i in range(6):
                exec(f"def m{_i}(self, v): self.m({_i}, v)")

        self.Owner = Owner


def attach(s, world, kind, owner, i, **kw):
    """Connect connection i; True if it dies with the owner"""
    if kind == "method":
        s.connect(getattr(owner, f"m{i}"), **kw)
    elif kind == "queued":
        s.connect(getattr(owner, f"m{i}"), thread="current", **kw)
    elif kind == "partial":
        s.connect(partial(owner.m, i), **kw)
    elif kind == "curry":
        s.connect(toolz.curry(owner.m, i), max_args=1, **kw)
    elif kind == "setattr":
        s.connect_setattr(owner, f"x{i}", maxargs=1, **kw)
    elif kind == "setitem":
        s.connect_setitem(owner, i, maxargs=1, **kw)
    elif kind == "object":
        owner.__dict__["plain"] = i
        s.connect(owner, max_args=1, **kw)
    elif kind == "partial object":
        s.connect(partial(owner, i), max_args=1, **kw)
    elif kind == "partial setattr":
        s.connect(partial(setattr, owner, f"x{i}"), max_args=1, **kw)
    elif kind == "partial setitem":
        s.connect(partial(owner.__setitem__, i), **kw)
    elif kind == "builtin":
        s.connect(owner.append, max_args=1, **kw)  # silent: seen by its effect only
    else:
        this = weakref.ref(world)
        s.connect(lambda v: this().hook(i, (v,)))
        return False
    return True


MODES = ["immediate", "queued", "latest-only", "fast"]


@harness(
    configs=tiered(
        [{"n": 3, "nown": 2, "mode": m, "budget": 2, "first": k}
         for m in MODES for k in KINDS if m == "immediate" or k in ("method", "setitem")]
        + [{"n": 2, "nown": 1, "mode": "immediate", "budget": 1, "first": k, "on_ref_error": e}
           for e in ("raise", "ignore") for k in KINDS],
        [{"n": 2, "nown": 1, "mode": "immediate", "budget": 2, "first": k, "on_ref_error": e}
         for e in ("raise", "ignore") for k in KINDS]
        + [{"n": 4, "nown": 2, "mode": m, "budget": 2, "first": k} for m in MODES for k in KINDS],
    ),
    must_cover=["released while emitting", "released between", "nested"],
)
def release(x, n, nown, mode, budget, first, **kw):
    c08.stub_message(True)
    w = World()
    fast = mode == "fast"
    s = SignalInstance((object,), name="s", reemission="immediate" if fast else mode)
    emit = s.emit_fast if fast else s.emit
    holder = [w.Owner() for _ in range(nown)]
    refs = [weakref.ref(o) for o in holder]
    conns = []  # (id, owner index or None)
    kinds = []
    for i in range(n):
        if i == 0:
            k = first
        elif i == 1:
            k = x.choice("kind1", ["method", "setattr", "function"])
        else:
            k = x.choice(f"kind{i}", ["partial", "setitem"])
        own = x.pick(f"own{i}", 0, min(i, nown - 1))
        kinds.append(k)
        dies = attach(s, w, k, holder[own], i, **kw)
        conns.append((i, own if dies else None, k == "builtin"))
    x.check("no strong reference", True)

    st = {"used": 0, "depth": 0, "eid": 0}
    log, vals, memo = [], [], {}
    payloads = []

    def decide(i, e):
        """what callback i does in emission e: a list of actions"""
        if (i, e) not in memo:
            acts = []
            if st["used"] < budget:
                alive = [j for j in range(nown) if holder[j] is not None]
                a = x.choice(f"act{i}.{e}", ["none", *[("release", j) for j in alive], "emit"])
                if a != "none":
                    st["used"] += 1
                    acts.append(a)
            memo[i, e] = acts
        return memo[i, e]

    def hook(i, args):
        e = next(j for j in range(len(payloads)) if payloads[j] is args[0])
        log.append((i, e))
        vals.append(len(args) == 1)
        for a in decide(i, e):
            if a == "emit":
                x.cover("nested")
                do_emit()
            else:
                x.cover("released while emitting")
                holder[a[1]] = None

    w.hook = hook

    def do_emit():
        st["eid"] += 1
        payloads.append(Payload(st["eid"]))
        emit(payloads[-1])

    # reference model -------------------------------------------------
    gone = [False] * nown
    running = []  # owners kept alive by a running callback
    mlog = []
    m = {"eid": 0, "queue": [], "active": False, "stack": []}

    def dead(own):
        return own is not None and gone[own] and own not in running

    def m_deliver(e, em):
        removed = set()
        snapshot = [c for c in conns if not dead(c[1])]
        for c in snapshot:
            if em["stale"] and mode == "latest-only":
                break
            if dead(c[1]):
                continue
            if c[2]:
                continue
            mlog.append((c[0], e))
            if c[1] is not None:
                running.append(c[1])
            for a in memo.get((c[0], e), []):
                if a == "emit":
                    m_emit()
                else:
                    gone[a[1]] = True
            if c[1] is not None:
                running.pop()

    def m_emit():
        e = m["eid"]
        m["eid"] += 1
        if mode == "queued":
            m["queue"].append(e)
            if m["active"]:
                return
            m["active"] = True
            while m["queue"]:
                m_deliver(m["queue"].pop(0), {"stale": False})
            m["active"] = False
            return
        for em in m["stack"]:
            em["stale"] = True
        em = {"stale": False}
        m["stack"].append(em)
        m_deliver(e, em)
        m["stack"].pop()

    for r in range(2):
        for j in range(nown):
            if holder[j] is not None and st["used"] < budget and x.flag(f"before{r}.{j}"):
                st["used"] += 1
                holder[j] = None
                gone[j] = True
                x.cover("released between")
                x.check("object is freed", refs[j]() is None)
        live = [c for c in conns if not dead(c[1])]
        x.check("length before", len(s) == len(live))
        err = None
        try:
            do_emit()
        except Exception as e:
            err = f"{type(e).__name__}: {e}"
        m_emit()
        x.check("no error", err is None, info=err)
        x.check("calls", log == mlog, info=(log, mlog))
        live = [c for c in conns if not dead(c[1])]
        x.check("length", len(s) == len(live), info=(len(s), len(live)))
        for j in range(nown):
            x.check("freed when released", (refs[j]() is None) == gone[j])
    x.check("one argument", all(vals))
    for c in conns:
        if c[2] and not gone[c[1]]:
            x.check("builtin called for every emission it was live for",
                    mode == "latest-only" or len(holder[c[1]]) >= st["eid"])
    w.hook = None


class Payload:
    def __init__(self, n):
        self.n = n


class Slotted:
    __slots__ = ("log",)

    def __init__(self, log):
        self.log = log

    def m(self, v):
        self.log.append(v)


@harness(configs=[{"how": h} for h in ("method", "partial", "setattr", "callable")])
def not_weakrefable(x, how):
    """Objects without weak references are kept; 'raise' connects nothing."""
    c08.stub_message(True)
    log = []
    if how == "callable":

        class C:
            __slots__ = ()

            def __call__(self, v):
                log.append(v)

        o = C()
        cb = o
    elif how == "setattr":

        class C:
            __slots__ = ("_v",)

            @property
            def v(self):
                return 0

            @v.setter
            def v(self, val):
                log.append(val)

        o = C()
    else:
        o = Slotted(log)
        cb = o.m if how == "method" else partial(o.m)
    s = SignalInstance((object,), name="s")
    policy = x.choice("policy", ["warn", "raise", "ignore"])
    unrelated = []
    s.connect(unrelated.append if False else (lambda v: unrelated.append(v)))
    err = None
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        try:
            if how == "setattr":
                s.connect_setattr(o, "v", maxargs=1, on_ref_error=policy)
            else:
                s.connect(cb, on_ref_error=policy, check_nargs=False)
        except (TypeError, ReferenceError) as e:
            err = e.__class__
    x.check("raise", (err is not None) == (policy == "raise"))
    x.check("length", len(s) == (1 if policy == "raise" else 2))
    cb = o = None
    pay = x.obj("pay")
    s.emit(pay)
    x.check("stays connected", x.same(log, [] if policy == "raise" else [pay]))
    x.check("others", x.same(unrelated, [pay]))


class Host:
    pass


@harness(configs=[{"how": h} for h in ("method", "partial", "queued", "curry")])
def own_function(x, how):
    """A method whose function refers to its object, and belongs to it only."""
    c08.stub_message(True)
    log = []
    obs = [Host(), Host()]
    for i, o in enumerate(obs):

        def f(self, v, *, o=o, i=i):
            log.append((i, v, self is o))

        o.f = MethodType(f, o)
    s = SignalInstance((object,), name="s")
    for o in obs:
        cb = {"partial": partial, "curry": toolz.curry}.get(how, lambda f: f)(o.f)
        s.connect(cb, **({"thread": "current"} if how == "queued" else {}))
    v, w = x.obj("v"), x.obj("w")
    s.emit(v)
    x.check("called", x.same(log, [(0, v, True), (1, v, True)]))
    del log[:]
    gone = x.pick("gone", 0, 1)
    r = weakref.ref(obs[gone])
    obs[gone] = o = f = cb = None
    gc.collect()
    x.check("released", r() is None)
    x.check("length", len(s) == 1)
    s.emit(w)
    x.check("the other one only", x.same(log, [(1 - gone, w, True)]))


@harness(configs=[{"where": w} for w in ("group", "member", "direct")], must_cover=["released"])
def group(x, where):
    """Group relays: a dead listener disappears, other listeners and members are unaffected."""

    class G(SignalGroup):
        a = Signal(int)
        b = Signal(int)

    log = []

    class L:
        def on(self, *a):
            log.append((self.i, a[0].args if where == "group" else a))

        def __init__(self, i):
            self.i = i

    g = G()
    ls = [L(0), L(1)]

    def count():
        return len(g.all) if where == "group" else len(g.a)

    for o in ls:
        if where == "group":
            g.connect(o.on)
        elif where == "member":
            g.a.connect(o.on)
        else:
            g.connect_direct(o.on)
    o = None
    dead = set()
    for step in range(3):
        k = x.pick(f"release{step}", 0, 2)
        if k < 2 and ls[k] is not None:
            ls[k] = None
            dead.add(k)
            x.cover("released")
        del log[:]
        x.check("count", count() == 2 - len(dead))
        g.a.emit(step)
        live = [i for i in (0, 1) if i not in dead]
        x.check("calls", log == [(i, (step,)) for i in live], info=log)
        g.b.emit(step)
        n = len(live) * (2 if where != "member" else 1)
        x.check("other member", len(log) == n)


HARNESSES = [release, not_weakrefable, own_function, group]
