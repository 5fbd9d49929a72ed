"""Type checks on connect and emit, over an arbitrary subclass relation.

The declared types are classes whose metaclass answers issubclass/isinstance with a
solver variable per ordered pair: the check covers every (reflexive) subclass relation.
"""
from typing import Optional, Union

from psygnal import Signal, SignalInstance

from symx.ctx import harness, tiered

from checks import c08

BOUNDS = {
    "quick": "signals of 1-2 arguments over 3 types with every reflexive subclass "
    "relation; callbacks with 0-3 positional parameters each unannotated or annotated with a "
    "type, its name as a string, a Union or X | Y, plus an optional annotated "
    "keyword-only parameter; functions and bound methods; 1-3 emitted arguments, the signal "
    "paused or not",
    "thorough": "4 types",
}
ASSUMPTIONS = ["annotated *args are outside the harness family", "single thread"]


def reset():
    c08.reset()


class Types:
    def __init__(self, x, n):
        self.x, self.n = x, n
        this = self

        class Meta(type):
            def __subclasscheck__(cls, sub):
                return bool(this.rel(sub, cls))

            def __instancecheck__(cls, obj):
                return bool(this.rel(type(obj), cls))

        self.cls = [Meta(f"T{i}", (), {}) for i in range(n)]
        self.memo = {}

    def rel(self, a, b):
        """a is a subclass of b, as a (symbolic) condition"""
        if a is b or b is object:
            return True
        if a not in self.cls or b not in self.cls:
            return False
        i, j = self.cls.index(a), self.cls.index(b)
        if (i, j) not in self.memo:
            self.memo[i, j] = self.x.bool(f"T{i}<T{j}")
        return self.memo[i, j]


FORMS = ["none", "class", "string", "union", "bar", "optional"]


def annotation(x, t, name):
    """(annotation or None, its member types)"""
    form = x.choice(f"{name}.form", FORMS)
    if form == "none":
        return None, None
    a = x.choice(f"{name}.a", t.cls)
    if form == "class":
        return a, [a]
    if form == "string":
        return a.__name__, [a]
    if form == "optional":
        return Optional[a], [a, type(None)]
    b = x.choice(f"{name}.b", [c for c in t.cls if c is not a])
    return (Union[a, b] if form == "union" else a | b), [a, b]


def build(x, t, n, method, kwonly):
    names = [f"p{i}" for i in range(n)]
    log = []
    params = [f"{m}=None" for m in names]
    if kwonly:
        params += ["*", "kk=None"]
    src = f"def f({'self, ' if method else ''}{', '.join(params)}): log.append([{', '.join(names)}])"
    ns = {"log": log, **{c.__name__: c for c in t.cls}}
    exec(src, ns)
    f = ns["f"]
    members = []
    for m in names:
        a, mem = annotation(x, t, m)
        members.append(mem)
        if a is not None:
            f.__annotations__[m] = a
    if kwonly:
        f.__annotations__["kk"] = t.cls[-1]
    f.__annotations__["return"] = None
    keep = None
    if method:
        keep = type("O", (), {"f": f})()
        return keep.f, log, members, keep
    return f, log, members, keep


@harness(
    configs=tiered(
        [{"ntypes": 3, "nsig": a, "npar": p, "method": m, "kwonly": k}
         for a, p in ((1, 1), (2, 2), (1, 2)) for m in (False, True) for k in (False, True)
         if not (m and k)]
        + [{"ntypes": 3, "nsig": 2, "npar": 1, "method": False, "kwonly": k} for k in (False, True)],
        [{"ntypes": 4, "nsig": a, "npar": p, "method": m, "kwonly": k}
         for a, p in ((1, 1), (2, 2), (1, 2), (2, 3), (2, 1)) for m in (False, True) for k in (False, True)],
    ),
    must_cover=["accepted", "rejected"],
)
def connect(x, ntypes, nsig, npar, method, kwonly):
    c08.stub_message(True)
    t = Types(x, ntypes)
    # without loss of generality the first declared type is T0 (types are symmetric)
    decl = [t.cls[0]] + [x.choice(f"decl{i}", t.cls[: i + 1]) for i in range(1, nsig)]
    default = x.flag("default")
    s = SignalInstance(tuple(decl), check_types_on_connect=default)
    cb, log, members, keep = build(x, t, npar, method, kwonly)
    before = []
    s.connect(lambda *a: before.append(a), check_types=False)
    err = None
    try:
        if default:
            s.connect(cb)
        else:
            s.connect(cb, check_types=True)
    except ValueError as e:
        err = e
    want = x.and_(
        *[
            True if mem is None else x.or_(*[t.rel(m, d) for m in mem])
            for mem, d in zip(members, decl)
        ]
    )
    x.check("accepted exactly when compatible", want if err is None else x.not_(want))
    x.check("length", len(s) == (2 if err is None else 1))
    pay = [d() for d in decl]
    s.emit(*pay)
    x.check("called exactly when connected", log == ([(pay + [None] * 9)[:npar]] if err is None else []))
    x.check("others unaffected", before == [tuple(pay)])
    x.cover("accepted" if err is None else "rejected")


@harness(
    configs=tiered(
        [{"ntypes": 3, "nsig": n} for n in (1, 2)], [{"ntypes": 4, "nsig": n} for n in (1, 2, 3)]
    ),
    must_cover=["emitted", "raised"],
)
def emit(x, ntypes, nsig):
    t = Types(x, ntypes)
    form = [x.choice(f"form{i}", ["class", "union", "object"]) for i in range(nsig)]
    decl, mem = [], []
    for i, f in enumerate(form):
        if f == "object":
            decl.append(object)
            mem.append([object])
            continue
        a = x.choice(f"decl{i}", t.cls)
        if f == "union":
            b = x.choice(f"declb{i}", [c for c in t.cls if c is not a])
            decl.append(Union[a, b])
            mem.append([a, b])
        else:
            decl.append(a)
            mem.append([a])
    s = SignalInstance(tuple(decl), name="sig")
    log = []
    s.connect(lambda *a: log.append(a))
    args = tuple(x.choice(f"arg{i}", t.cls)() for i in range(nsig))
    err = None
    call = x.flag("call")
    paused = x.flag("paused")
    if paused:
        s.pause()
    try:
        (s if call else s.emit)(*args, check_types=True)
    except TypeError as e:
        err = e
    if paused:
        x.check("held back", log == [])
        s.resume()
    want = x.and_(*[x.or_(*[t.rel(type(a), m) for m in ms]) for a, ms in zip(args, mem)])
    x.check("accepted exactly when compatible", want if err is None else x.not_(want))
    x.check("delivered exactly when accepted", log == ([args] if err is None else []))
    x.cover("emitted" if err is None else "raised")
    del log[:]
    s.emit(*args)
    x.check("unchecked emission always delivers", log == [args])


class A: ...


class B(A): ...


class C(B): ...


class D: ...


REAL = [object, A, B, C, D, int, bool]


@harness(configs=[{}], must_cover=["accepted", "rejected"])
def real_classes(x):
    """The same with ordinary classes (including bool < int)."""

    class O:
        sig = Signal(object, check_types_on_connect=True)

    decl = x.choice("decl", REAL)
    anno = x.choice("anno", [None, *REAL])
    arg = x.choice("arg", REAL)
    s = SignalInstance((decl,), check_types_on_connect=True)
    log = []

    def f(v):
        log.append(v)

    if anno is not None:
        f.__annotations__["v"] = anno.__name__ if x.flag("string") and anno is not object else anno
    ok = anno is None or issubclass(anno, decl)
    err = None
    try:
        s.connect(f)
    except ValueError as e:
        err = e
    x.check("connect", (err is None) == ok and len(s) == ok)
    if not ok:
        x.cover("rejected")
        s.connect(f, check_types=False)
    else:
        x.cover("accepted")
    val = arg()
    err = None
    try:
        s.emit(val, check_types=True)
    except TypeError as e:
        err = e
    good = issubclass(type(val), decl)
    x.check("emit", (err is None) == good and [id(v) for v in log] == [id(val)] * good)


HARNESSES = [connect, emit, real_classes]
