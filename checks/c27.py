"""Properties of an evented model that depend on fields are notified consistently."""
from typing import Any

from pydantic import ConfigDict, PrivateAttr, computed_field, model_validator

from psygnal import EventedModel

from checks._lists import outcome
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "8 dependency graphs (declared, guessed, shared, a field depending on a field, "
    "inherited, also from two bases, computed fields) over up to 3 fields and 2 properties; histories of 2 "
    "assignments to fields or properties with any values (identity and equality patterns "
    "decided by the solver); setters that write any sequence of up to 3 fields or raise; "
    "listeners on any subset of the signals and on the group; listeners that assign; a property "
    "that cannot be read while a field has a certain value, histories of 3 assignments",
    "thorough": "histories of 3 assignments",
}
ASSUMPTIONS = [
    "dependencies are declared for every field a property reads",
    "listeners do not raise",
]

CFG = {"allow_property_setters": True}


class Declared(EventedModel):
    """p depends on a and b; setting p sets both."""

    model_config = ConfigDict(**CFG, field_dependencies={"p": ["a", "b"]})
    a: Any = 0
    b: Any = 0
    c: Any = 0

    @property
    def p(self):
        return (self.a, self.b)

    @p.setter
    def p(self, v):
        self.a, self.b = v


class Shared(EventedModel):
    """p depends on a and b, q on b and c"""

    model_config = ConfigDict(**CFG, field_dependencies={"p": ["a", "b"], "q": ["b", "c"]})
    a: Any = 0
    b: Any = 0
    c: Any = 0

    @property
    def p(self):
        return (self.a, self.b)

    @p.setter
    def p(self, v):
        self.a, self.b = v

    @property
    def q(self):
        return (self.b, self.c)

    @q.setter
    def q(self, v):
        # (the second part by way of the other property)
        self.p = (self.a, v[0])
        self.c = v[1]


class Guessed(EventedModel):
    model_config = ConfigDict(**CFG, guess_property_dependencies=True)
    a: Any = 0
    b: Any = 0
    c: Any = 0

    @property
    def p(self):
        return (self.a, self.b)

    @p.setter
    def p(self, v):
        self.a, self.b = v


class Inherited(Shared):
    d: Any = 0


class GuessedSub(Guessed):
    """another property that depends on an inherited field"""

    d: Any = 0

    @property
    def q(self):
        return (self.b, self.d)

    @q.setter
    def q(self, v):
        self.b, self.d = v


class Left(Declared):
    pass


class Right(Declared):
    @property
    def p(self):
        return [self.a, self.b]

    @p.setter
    def p(self, v):
        self.b, self.a = v[::-1]
        self.c = v[0]


class Diamond(Left, Right):
    """p is the one of Right"""

    d: Any = 0


class Computed(EventedModel):
    model_config = ConfigDict(**CFG, field_dependencies={"p": ["a", "b"]})
    a: Any = 0
    b: Any = 0
    c: Any = 0

    @computed_field
    @property
    def p(self) -> Any:
        return (self.a, self.b)

    @p.setter
    def p(self, v):
        self.a, self.b = v


class FieldOnField(EventedModel):
    """b is always the same as a: when a is assigned, so is b"""

    model_config = ConfigDict(validate_assignment=True, field_dependencies={"b": ["a"]})
    a: Any = 0
    b: Any = 0
    c: Any = 0

    @model_validator(mode="before")
    @classmethod
    def follow(cls, values):
        if isinstance(values, dict) and "a" in values:
            return {**values, "b": values["a"]}
        return values


GRAPHS = {"declared": Declared, "shared": Shared, "guessed": Guessed, "inherited": Inherited,
          "computed": Computed, "guessed sub": GuessedSub, "diamond": Diamond}


def names_of(cls):
    return ["a", "b", "c"] + (["d"] if cls in (Inherited, GuessedSub, Diamond) else []) + (
        ["p", "q"] if issubclass(cls, (Shared, GuessedSub)) else ["p"])


class Watch:
    """Listeners on some signals of a model, and what they should hear."""

    def __init__(self, x, m, names, heard, group):
        self.x, self.m, self.names, self.heard = x, m, names, heard
        self.log, self.glog, self.group = [], [], group
        for n in heard:
            m.events[n].connect(lambda *a, n=n: self.log.append((n, a, self.state())))
        if group:
            m.events.connect(lambda info: self.glog.append(info))

    def state(self):
        return {n: getattr(self.m, n) for n in self.names}

    def check(self, before):
        x, now = self.x, self.state()
        changed = [n for n in self.names if not (now[n] == before[n])]
        want = sorted(n for n in changed if n in self.heard)
        x.check("each change notified once", sorted(g[0] for g in self.log) == want,
                info=(changed, self.log))
        for n, args, seen in self.log:
            x.check("the new value", len(args) == 1 and x.same(args[0], now[n]), info=(n, args))
            x.check("everything visible", x.same([*seen.values()], [*now.values()]))
        if self.group:
            gs = sorted(g.signal.name for g in self.glog)
            x.check("group notified", gs == sorted(changed), info=(changed, gs))
            for g in self.glog:
                x.check("group: values", x.same(g.args, (now[g.signal.name],)))
        else:
            x.check("group silent", not self.glog)
        del self.log[:], self.glog[:]


@harness(
    configs=tiered([{"graph": g, "k": 2} for g in GRAPHS],
                   [{"graph": g, "k": 3} for g in GRAPHS]),
)
def graphs(x, graph, k):
    """Assignments to fields and properties."""
    cls = GRAPHS[graph]
    names = names_of(cls)
    vals = {f: x.obj(f"v{f}") for f in "abc"}
    m, other = cls(**vals), cls()
    x.check("the signals", set(m.events) == set(names), info=list(m.events))
    # (any subset of those that matter for the property, all or none of the others)
    props = [n for n in names if n in "pq"]
    heard = [n for n in props if x.flag(f"listen {n}")]
    if x.flag("listen a"):
        heard.append("a")
    if x.flag("listen others"):
        heard += [n for n in names if n not in "apq"]
    w = Watch(x, m, names, heard, x.flag("group"))
    silent = Watch(x, other, names, names, False)
    fields = [n for n in names if n not in "pq"]
    for j in range(k):
        before, obefore = w.state(), silent.state()
        n = x.choice(f"f{j}", ["a", "b", "c", *props])
        new = x.obj(f"n{j}")
        if n in "pq":
            new = (new, x.obj(f"m{j}"))
        setattr(m, n, new)
        want = dict(before)
        if n == "p":
            want["a"], want["b"] = new
            if graph == "diamond":
                want["c"] = new[0]
        elif n == "q" and graph == "guessed sub":
            want["b"], want["d"] = new
        elif n == "q":
            want["b"], want["c"] = new
        else:
            want[n] = new
        x.check("stored", x.same([getattr(m, f) for f in fields], [want[f] for f in fields]))
        w.check(before)
        silent.check(obefore)


@harness(configs=[{"k": 2}])
def field_on_field(x, k):
    """A field that changes together with another one."""
    m = FieldOnField()
    names = ["a", "b", "c"]
    w = Watch(x, m, names, [n for n in names if x.flag(f"listen {n}")], x.flag("group"))
    for j in range(k):
        before = w.state()
        f = x.choice(f"f{j}", ["a", "c"])
        new = x.obj(f"n{j}")
        setattr(m, f, new)
        x.check("stored", x.is_(getattr(m, f), new))
        if f == "a":
            x.check("b follows", x.is_(m.b, new))
        w.check(before)


SCRIPT = []


class Scripted(EventedModel):
    """Setting p runs a script of assignments; p is what a and the private part say."""

    model_config = ConfigDict(**CFG, field_dependencies={"p": ["a", "b"]})
    a: Any = 0
    b: Any = 0
    c: Any = 0
    _p: Any = PrivateAttr(0)

    @property
    def p(self):
        return (self.a, self._p)

    @p.setter
    def p(self, v):
        for name, value in SCRIPT:
            if name is None:
                raise ValueError
            setattr(self, name, value)


class ScriptedAlone(EventedModel):
    """the same without any dependencies"""

    model_config = ConfigDict(**CFG)
    a: Any = 0
    b: Any = 0
    c: Any = 0
    _p: Any = PrivateAttr(0)

    p = Scripted.p.fget
    p = property(Scripted.__property_setters__["p"].fget, Scripted.__property_setters__["p"].fset)


def reset():
    del SCRIPT[:]


@harness(configs=tiered([{"k": 2}, {"k": 3}], [{"k": 3}, {"k": 4}]))
def setters(x, k):
    """A setter may assign fields (also repeatedly) and private attributes, and may raise."""
    m = Scripted(a=x.obj("va"), b=x.obj("vb"))
    names = ["a", "b", "c", "p"]
    heard = [n for n in ("a", "p") if x.flag(f"listen {n}")]
    if x.flag("listen others"):
        heard += ["b", "c"]
    w = Watch(x, m, names, heard, False)
    before = w.state()
    del SCRIPT[:]
    want = dict(before, _p=m._p)
    fails = False
    for j in range(k):
        f = x.choice(f"f{j}", ["a", "b", "_p", None] if k > 2 else ["a", "b", "c", "_p", None])
        SCRIPT.append((f, None if f is None else x.obj(f"n{j}")))
        if f is None:
            fails = True
            break
        want[f] = SCRIPT[-1][1]
    got = outcome(lambda: setattr(m, "p", None))
    x.check("raises if the setter does", got.kind == ("err" if fails else "ok"))
    for f in ("a", "b", "c", "_p"):
        x.check("stored", x.is_(getattr(m, f), want[f]))
    w.check(before)
    # everything works as before
    before = w.state()
    v = x.obj("after")
    m.a = v
    w.check(before)


@harness()
def without_dependencies(x):
    """A property nothing is known about: notified when it is assigned and changes."""
    m = ScriptedAlone(a=x.obj("va"), b=x.obj("vb"))
    names = ["a", "b", "c", "p"]
    heard = [n for n in names if x.flag(f"listen {n}")]
    log = []
    for n in heard:
        m.events[n].connect(lambda *a, n=n: log.append((n, a)))
    before = {n: getattr(m, n) for n in names}
    del SCRIPT[:]
    order = x.choice("order", ["ab", "ba", "a", "b", ""])
    for f in order:
        SCRIPT.append((f, x.obj(f"n{f}")))
    if x.flag("private"):
        SCRIPT.append(("_p", x.obj("n_p")))
    m.p = None
    now = {n: getattr(m, n) for n in names}
    for n, v in SCRIPT:
        x.check("stored", x.is_(getattr(m, n), v))
    changed = sorted(n for n in heard if not (now[n] == before[n]))
    x.check("each change notified once", sorted(g[0] for g in log) == changed, info=log)
    for n, args in log:
        x.check("the new value", x.same(args, (now[n],)))
    # an assigned field notifies itself only
    before, v = now, x.obj("after")
    del log[:]
    m.a = v
    want = [("a", (v,))] if "a" in heard and not (v == before["a"]) else []
    x.check("field alone", x.same(log, want))


@harness(configs=[{"graph": g} for g in ("declared", "shared", "guessed")])
def reentrant(x, graph):
    """A listener that assigns another field: all listeners end up with the final values."""
    cls = GRAPHS[graph]
    names = names_of(cls)
    m = cls()
    trigger = x.choice("trigger", ["a", "p"])
    target = x.choice("target", ["a", "b", "c"])
    value = x.obj("value")
    log = {n: [] for n in names}
    todo = [1]

    def act(v):
        if todo:
            todo.pop()
            setattr(m, target, value)

    first = x.flag("act first")
    if first:
        m.events[trigger].connect(act)
    for n in names:
        m.events[n].connect(lambda v, n=n: log[n].append(v))
    if not first:
        m.events[trigger].connect(act)
    before = {n: getattr(m, n) for n in names}
    new = x.obj("new")
    start = x.choice("start", ["a", "b", "p"])
    setattr(m, start, (new, x.obj("new b")) if start == "p" else new)
    now = {n: getattr(m, n) for n in names}
    for n in names:
        if not log[n]:
            x.check("not notified: unchanged", now[n] == before[n], info=n)
            continue
        x.check("the last one notified is the value", x.equal(log[n][-1], now[n]),
                info=(n, log[n], now))
        x.check("no more than two changes", len(log[n]) <= 2, info=(n, log[n]))
        prev = before[n]
        for v in log[n]:
            x.check("each one a change", not (v == prev), info=(n, log[n]))
            prev = v


# explored also with None among the arbitrary objects
graphs.nones = [{"graph": "declared", "k": 1}]
setters.nones = [{"k": 1}]
without_dependencies.nones = [{}]
reentrant.nones = [{"graph": "declared"}]



class Unreadable(EventedModel):
    """p cannot be read while a is BAD"""

    model_config = ConfigDict(**CFG, field_dependencies={"p": ["a"], "q": ["a", "b"]})
    a: Any = 0
    b: Any = 0

    @property
    def p(self):
        if self.a is BAD:
            raise ValueError
        return (self.a,)

    @p.setter
    def p(self, v):
        self.a = v

    @property
    def q(self):
        return (self.a, self.b)

    @q.setter
    def q(self, v):
        self.a, self.b = v


BAD = object()


@harness(configs=tiered([{"k": 3}], [{"k": 4}]), must_cover=["unreadable", "readable again"])
def unreadable(x, k):
    """A property whose getter raises for some state has no effect on other assignments."""
    m = Unreadable(a=x.obj("va"), b=x.obj("vb"))
    heard = [n for n in "apq" if x.flag(f"listen {n}")] + ["b"]
    group = x.flag("group")
    log, glog = [], []
    for n in heard:
        m.events[n].connect(lambda *a, n=n: log.append((n, a)))
    if group:
        m.events.connect(lambda info: glog.append((info.signal.name, info.args)))

    def value(n):
        return outcome(lambda: getattr(m, n))

    for j in range(k):
        f = x.choice(f"f{j}", "abp")
        new = x.obj(f"n{j}")
        if f != "b" and x.flag(f"bad{j}"):
            new = BAD
        before = {n: value(n) for n in "abpq"}
        del log[:], glog[:]
        got = outcome(lambda: setattr(m, f, new))
        now = {n: value(n) for n in "abpq"}
        x.check("stored", x.is_(now["b" if f == "b" else "a"].value, new), info=(f, got))
        if now["p"].kind == "err" and f != "b":
            x.cover("unreadable")
            continue  # (the exception of the getter may be raised)
        x.check("no exception", got.kind == "ok", info=(f, got))
        if before["p"].kind == "err" and f != "b":
            x.cover("readable again")
        changed = [n for n in "abpq" if now[n].kind == "ok" and not (
            before[n].kind == "ok" and now[n].value == before[n].value)]
        x.check("each change notified once", sorted(g[0] for g in log)
                == sorted(n for n in changed if n in heard), info=(changed, log))
        for n, args in log:
            x.check("the new value", x.same(args, (now[n].value,)), info=(n, args))
        x.check("group notified", sorted(g[0] for g in glog) == (sorted(changed) if group else []),
                info=(changed, glog))


HARNESSES = [graphs, field_on_field, setters, without_dependencies, reentrant, unreadable]
