"""update, reset and comparison of evented models."""
from typing import Any, Optional

from pydantic import ConfigDict, Field, PrivateAttr, computed_field

from psygnal import EventedModel

from checks._lists import outcome
from symx.ctx import harness, tiered

BOUNDS = {
    "quick": "update with every sub-mapping of up to 3 fields (one of them a nested model, "
    "given as mapping or as model; a third level) or with another model, recursing or not; reset of defaults, "
    "nested defaults, default factories, required and frozen fields; any values (identity and "
    "equality patterns decided by the solver); listeners on any subset of the signals and on "
    "the groups; unknown keys and rejected values at any position",
    "thorough": "two updates in a row",
}
ASSUMPTIONS = [
    "fields hold plain values or nested evented models",
    "listeners do not raise and do not assign",
]


class Inner(EventedModel):
    s: Any = 0
    t: Any = 0


class Other(EventedModel):
    s: Any = 0
    u: Any = 0


class Outer(EventedModel):
    a: Any = 0
    b: Any = 0
    n: Any = Inner()


class Checked(EventedModel):
    model_config = ConfigDict(validate_assignment=True)
    a: Any = 0
    b: Any = 0
    i: int = 0
    n: Any = Inner()


class Props(EventedModel):
    """with a property that depends on the fields"""

    model_config = ConfigDict(allow_property_setters=True, field_dependencies={"p": ["a", "b"]})
    a: Any = 0
    b: Any = 0
    n: Any = Inner()

    @property
    def p(self):
        return (self.a, self.b)

    @p.setter
    def p(self, v):
        self.a, self.b = v


class ReadOnly(EventedModel):
    """with a computed field that cannot be set"""

    a: Any = 0
    b: Any = 0
    n: Any = Inner()

    @computed_field
    @property
    def c(self) -> Any:
        return self.a


MODELS = {"outer": Outer, "props": Props, "computed": ReadOnly}


class Watch:
    """Listeners on some fields of a model and of its nested model."""

    def __init__(self, x, m, heard, group):
        self.x, self.m = x, m
        self.log, self.glog, self.ilog = [], [], []
        self.heard = heard
        for f in heard:
            m.events[f].connect(lambda *a, f=f: self.log.append((f, a)))
        self.group = group
        if group:
            m.events.connect(lambda info: self.glog.append((info, self.state())))
        self.nested = m.n
        for f in "st":
            m.n.events[f].connect(lambda *a, f=f: self.ilog.append((f, a)))

    def state(self):
        m = self.m
        return [m.a, m.b, m.n]

    def check(self, names, before, now, ibefore, inow):
        """before/now: field -> value (of the model, and of its nested model)"""
        x = self.x
        changed = [f for f in names if not (now[f] == before[f])]
        want = sorted(f for f in changed if f in self.heard)
        x.check("one notification per changed field", sorted(g[0] for g in self.log) == want,
                info=(changed, self.log))
        for f, args in self.log:
            x.check("the new value", x.same(args, (now[f],)))
        gs = [g[0].signal.name for g in self.glog]
        if self.group:
            # (properties that depend on several fields may be notified more than once)
            x.check("group: one per changed field",
                    sorted(g for g in gs if g != "p") == sorted(changed), info=(gs, changed))
            for info, state in self.glog:
                x.check("group: all values are applied", x.same(state, self.state()))
                if info.signal.name != "p":
                    x.check("group: value", x.same(info.args, (now[info.signal.name],)))
        else:
            x.check("group silent", not gs)
        ichanged = sorted(f for f in "st" if not (inow[f] == ibefore[f]))
        x.check("nested: one per changed field", sorted(g[0] for g in self.ilog) == ichanged)
        for f, args in self.ilog:
            x.check("nested: the new value", x.same(args, (inow[f],)))
        del self.log[:], self.glog[:], self.ilog[:]


def values(x, nm, m):
    """Give every field a symbolic value."""
    m.a, m.b = x.obj(f"{nm}a"), x.obj(f"{nm}b")
    m.n.s, m.n.t = x.obj(f"{nm}s"), x.obj(f"{nm}t")


def usable(x, m, w):
    """Nothing is left paused or blocked."""
    del w.log[:], w.glog[:], w.ilog[:]
    sig = m.events.a
    old = m.a
    m.a = x.obj("after")
    if not (m.a == old):
        x.check("emits afterwards", len(w.log) == int("a" in w.heard))
        if w.group:
            x.check("group notified afterwards", any(g[0].signal is sig for g in w.glog))


@harness(configs=tiered([{"model": m, "k": 1} for m in MODELS],
                        [{"model": m, "k": 1} for m in MODELS] + [{"model": "outer", "k": 2}]),
         must_cover=["replaced", "recursed"])
def update(x, model, k):
    cls = MODELS[model]
    m = cls()
    values(x, "v", m)
    heard = [f for f in ("a", "n") if x.flag(f"listen {f}")]
    if "a" in heard:
        heard.append("b")
    w = Watch(x, m, heard, x.flag("group"))
    for j in range(k):
        before = {"a": m.a, "b": m.b, "n": m.n}
        inner = m.n
        ibefore = {"s": inner.s, "t": inner.t}
        now, inow = dict(before), dict(ibefore)
        recurse = x.flag(f"recurse{j}")
        how = x.choice(f"how{j}", ["mapping", "model"])
        if how == "model":
            given = cls()
            values(x, f"n{j}", given)
            now["a"], now["b"] = given.a, given.b
            if recurse:
                inow["s"], inow["t"] = given.n.s, given.n.t
            else:
                now["n"] = given.n
        else:
            given = {}
            for f in "ab":
                if x.flag(f"{f}{j}"):
                    given[f] = now[f] = x.obj(f"n{j}{f}")
            form = x.choice(f"nested{j}", ["absent", "mapping", "model", "other"])
            if form == "other":
                # a model of another type can only replace the nested one
                if recurse:
                    return
                given["n"] = now["n"] = Other(s=x.obj(f"n{j}s"))
            elif form != "absent":
                sub = {"s": x.obj(f"n{j}s")}
                if form == "model" or x.flag(f"t{j}"):
                    sub["t"] = x.obj(f"n{j}t")
                given["n"] = Inner(**sub) if form == "model" else sub
                if recurse:
                    inow.update(sub)
                else:
                    now["n"] = given["n"]
            if x.flag(f"order{j}"):
                given = dict(reversed(given.items()))
        m.update(given, recurse=recurse)
        x.cover("recursed" if recurse else "replaced")
        x.check("the values given", x.and_(x.is_(m.a, now["a"]), x.is_(m.b, now["b"])))
        x.check("nested model kept or replaced", m.n is now["n"], info=(m.n, now["n"]))
        x.check("nested values", x.same([inner.s, inner.t], [inow["s"], inow["t"]]))
        w.check("abn", before, now, ibefore, inow)
        if now["n"] is not inner:
            return
    usable(x, m, w)


@harness(configs=[{"model": m} for m in ("checked", "outer")])
def failing_update(x, model):
    """What precedes the offending key is applied and notified; nothing stays paused."""
    m = {"outer": Outer, "checked": Checked}[model]()
    values(x, "v", m)
    w = Watch(x, m, ["a", "b", "n"] if x.flag("listen") else [], x.flag("group"))
    before = {"a": m.a, "b": m.b, "n": m.n}
    ibefore = {"s": m.n.s, "t": m.n.t}
    now, inow = dict(before), dict(ibefore)
    given = {}
    at = x.pick("at", 0, 3)
    bad = x.choice("bad", ["unknown", "unknown nested", "value"] if model == "checked"
                   else ["unknown", "unknown nested"])
    for j, f in enumerate(["a", "n", "b", None]):
        if j == at:
            if bad == "unknown":
                given["zz"] = 1
            elif bad == "value":
                given["i"] = "no number"
            else:
                given["n"] = {"s": x.obj("ns"), "zz": 1}
                inow["s"] = given["n"]["s"]
        if f is None or f in given:
            continue
        if f == "n":
            given[f] = {"t": x.obj("nt")}
            if at > j:
                inow["t"] = given[f]["t"]
                if bad == "unknown nested":
                    # (replaced below)
                    inow["t"] = ibefore["t"]
        else:
            given[f] = x.obj(f"n{f}")
    order = list(given)
    for f in order:
        if f in ("zz", "i") or (f == "n" and bad == "unknown nested"):
            break
        if f in "ab":
            now[f] = given[f]
    got = outcome(lambda: m.update(given))
    x.check("raises", got.kind == "err", info=(given, got))
    x.check("applied up to there", x.and_(x.is_(m.a, now["a"]), x.is_(m.b, now["b"])))
    x.check("nested applied up to there", x.same([m.n.s, m.n.t], [inow["s"], inow["t"]]))
    w.check("abn", before, now, ibefore, inow)
    usable(x, m, w)


def seven():
    return 7


def inner_factory():
    return Inner(s=4)


class Defaults(EventedModel):
    a: Any
    b: Any = 1
    c: Any = Field(default_factory=seven)
    f: Any = Field(2, frozen=True)
    o: Optional[int] = None
    n: Any = Inner(s=3)
    m: Any = Field(default_factory=inner_factory)
    l: Any = [5]
    _p: Any = PrivateAttr(0)


@harness()
def reset_model(x):
    """Every field with a default gets it back."""
    v = {f: x.obj(f"v{f}") for f in "abcfol"}
    m = Defaults(**{f: v[f] for f in "abf"})
    for f in "co" if x.flag("assign c") else ():
        setattr(m, f, v[f])
    if x.flag("assign l"):
        m.l = v["l"]
    if x.flag("b at default"):
        m.b = 1
    m._p = 9
    nested, made = m.n, m.m
    if x.flag("assign s"):
        nested.s = x.obj("vs")
    if x.flag("assign t"):
        nested.t, made.s = x.obj("vt"), x.obj("ms")
    replaced = x.flag("replaced")
    if replaced:
        m.n = x.choice("by", [None, Other(s=1)])
    names = list(m.events)
    x.check("signals", set(names) == set("abconml"), info=names)
    before = {n: getattr(m, n) for n in names}
    log, ilog = [], []
    heard = [n for n in "bconml"] if x.flag("listen") else []
    for n in heard:
        m.events[n].connect(lambda *a, n=n: log.append((n, a)))
    nested.events.s.connect(lambda *a: ilog.append(a))
    old_s = nested.s
    m.reset()
    now = {n: getattr(m, n) for n in names}
    x.check("required and frozen fields stay", x.and_(x.is_(m.a, v["a"]), x.is_(m.f, v["f"])))
    x.check("defaults", x.same([m.b, m.c, m.o], [1, 7, None]), info=now)
    x.check("mutable default", x.same(m.l, [5]))
    m.l.append(6)
    x.check("private attributes stay", m._p == 9)
    x.check("nested default", type(m.n) is Inner and x.and_(m.n.s == 3, m.n.t == 0), info=m.n)
    x.check("nested default by factory", type(m.m) is Inner and x.and_(m.m.s == 4, m.m.t == 0),
            info=m.m)
    if not replaced:
        x.check("nested model kept", m.n is nested)
        want = [] if old_s == 3 else [(3,)]
        x.check("nested notified once", ilog == want, info=ilog)
    want = []
    for n in heard:
        if n == "l":
            ch = not (before["l"] == [5])
        else:
            ch = now[n] is not before[n] and not (now[n] == before[n])
        if ch:
            want.append(n)
    x.check("one notification per changed field", sorted(g[0] for g in log) == sorted(want),
            info=(log, want))
    for n, args in log:
        x.check("the new value", x.same(args, (now[n],)) if n != "l" else args[0] is m.l)
    # a default is not shared: neither with the class nor with another instance
    other = Defaults(a=0)
    x.check("defaults intact", other.l == [5] and other.n.s == 3 and other.m.s == 4)
    m.n.s = 100
    other.reset()
    x.check("defaults intact", other.n.s == 3 and other.l == [5] and Defaults(a=0).n.s == 3)
    # idempotent
    m.reset()
    del log[:], ilog[:]
    m.reset()
    x.check("second reset changes nothing", not log and not ilog, info=(log, ilog))


@harness()
def frozen_nested(x):
    """Resetting a nested model restores what was declared but its frozen fields."""
    m = Holder(n=FrozenPart(r=x.obj("r"), z=x.obj("z"), s=x.obj("s")))
    part = m.n
    m.reset()
    x.check("nested model kept", part is m.n)
    x.check("declared default", x.and_(part.r == 5, part.s == 2))
    x.check("frozen field stays", x.is_(part.z, x.obj("z")))


class FrozenPart(EventedModel):
    r: Any
    z: Any = Field(1, frozen=True)
    s: Any = 2


class Holder(EventedModel):
    n: FrozenPart = FrozenPart(r=5)


class Middle(EventedModel):
    u: Any = 0
    i: Any = Inner()


class Top(EventedModel):
    a: Any = 0
    m: Any = Middle()


@harness(must_cover=["recursed", "replaced"])
def deep(x):
    """Recursion goes all the way down; every level notifies its own changes once."""
    top = Top(m=Middle(i=Inner()))
    mid, inner = top.m, top.m.i
    top.a, mid.u, inner.s, inner.t = x.obj("a"), x.obj("u"), x.obj("s"), x.obj("t")
    obs = {"a": top, "u": mid, "s": inner, "t": inner}
    before = {f: getattr(o, f) for f, o in obs.items()}
    log, glog = [], []
    for f, o in obs.items():
        o.events[f].connect(lambda *args, f=f: log.append((f, args)))
    for f, o in (("m", top), ("i", mid)):
        o.events[f].connect(lambda *args, f=f: log.append((f, args)))
    for o in (top, mid, inner):
        o.events.connect(lambda info: glog.append((info.signal.name, [getattr(p, f) for f, p in obs.items()])))
    now = {f: x.obj(f"n{f}") if x.flag(f"give {f}") else before[f] for f in obs}
    given, mm, ii = {}, {}, {}
    for f, d in (("a", given), ("u", mm), ("s", ii), ("t", ii)):
        if x.flag(f"give {f}"):
            d[f] = now[f]
    how = x.choice("how", ["mapping", "model", "inner model"])
    if how == "mapping":
        mm["i"], given["m"] = ii, mm
    else:
        x.assume("s" in ii and "t" in ii)
        mm["i"] = Inner(**ii)
        if how == "model":
            x.assume("u" in mm)
            given["m"] = Middle(**mm)
        else:
            given["m"] = mm
    if not x.flag("recurse"):
        x.cover("replaced")
        x.assume(how == "model")
        top.update(given, recurse=False)
        x.check("replaced", top.m is given["m"] and mid.i is inner)
        x.check("what was there is as it was", x.same([mid.u, inner.s, inner.t],
                                                      [before[f] for f in "ust"]))
        return
    x.cover("recursed")
    top.update(given)
    x.check("all models are kept", top.m is mid and mid.i is inner)
    x.check("values", x.same([getattr(o, f) for f, o in obs.items()], list(now.values())))
    want = sorted(f for f in obs if not (now[f] == before[f]))
    x.check("one notification per changed field", sorted(f for f, _ in log) == want, info=(log, want))
    for f, args in log:
        x.check("the new value", x.same(args, (now[f],)))
    x.check("and per group", sorted(f for f, _ in glog) == want, info=(glog, want))


@harness()
def equality(x):
    """Two models of a class are equal exactly when their fields are."""
    cls = x.choice("class", [Outer, Props, ReadOnly])
    p, q = cls(), cls()
    values(x, "p", p)
    values(x, "q", q)
    want = x.and_(p.a == q.a, p.b == q.b, p.n.s == q.n.s, p.n.t == q.n.t)
    got = p == q
    x.check("equal exactly when the fields are", x.equal(bool(got), bool(want)))
    x.check("not equal is the opposite", (p != q) == (not got))
    x.check("equal to itself", p == p)
    d = {"a": p.a, "b": p.b, "n": {"s": p.n.s, "t": p.n.t}}
    if cls is Outer:
        x.check("equal to the mapping of its fields", p == d)
        x.check("not equal to another mapping", not (p == {**d, "b": object()}))
    x.check("not equal to anything else", not (p == 1) and p != "p" and not (p == None))  # noqa


# explored also with None among the arbitrary objects
update.nones = [{"model": "outer", "k": 1}]
reset_model.nones = [{}]
equality.nones = [{}]
failing_update.nones = [{"model": "outer"}]

HARNESSES = [update, deep, failing_update, reset_model, frozen_nested, equality]
