"""A signal instance is exactly what its declaration (or its constructor call) says."""
import gc
import inspect
import warnings
from dataclasses import dataclass

from psygnal import Signal, SignalInstance

from symx.ctx import harness, tiered

from checks import c08

BOUNDS = {
    "quick": "declarations with any combination of 0-2 types (or a Signature), name, description, "
    "argument checks, type checks and re-emission mode in several spellings; on objects of 6 kinds "
    "(ordinary, slotted, not weakly referenceable, frozen, refusing attributes, subclass) or created "
    "directly; arbitrary emitted values",
    "thorough": "0-3 types",
}
ASSUMPTIONS = [
    "one signal object is declared under one attribute of one class (and its subclasses)",
    "single thread",
]


def reset():
    c08.reset()


TYPES = [(), (int,), (int, int), (int, str, int)]
SPELL = {
    "immediate": ["immediate", "IMMEDIATE"],
    "queued": ["queued", "Queued"],
    "latest-only": ["latest-only", "Latest-Only"],
}


def make_class(kind, sig):
    if kind == "ordinary":
        class T:
            evt = sig
    elif kind == "slots":
        class T:
            __slots__ = ("__weakref__",)
            evt = sig
    elif kind == "noref":
        class T:
            __slots__ = ()
            evt = sig
    elif kind == "frozen":
        @dataclass(frozen=True)
        class T:
            evt = sig
    elif kind == "refusing":
        class T:
            evt = sig

            def __setattr__(self, name, value):
                raise AttributeError(name)
    elif kind == "sub":
        class Base:
            evt = sig
            other = Signal(object, description="other")

        class T(Base):
            mine = Signal(int, int, int, description="mine")
    return T


KINDS = ["ordinary", "slots", "noref", "frozen", "refusing", "sub"]


def signature_of(types):
    return inspect.Signature(
        [
            inspect.Parameter(f"q{i}", inspect.Parameter.POSITIONAL_ONLY, annotation=t)
            for i, t in enumerate(types)
        ]
    )


def declared_options(x, ntypes):
    o = {}
    types = TYPES[x.choice("types", list(range(ntypes)))]
    o["types"] = types
    o["name"] = x.choice("name", [None, "other_name", ""])
    o["description"] = x.choice("description", ["", "text"])
    o["nargs"] = x.choice("nargs", [None, True, False])
    o["checktypes"] = x.choice("checktypes", [None, True, False])
    mode = x.choice("mode", [None, *SPELL])
    o["mode"] = mode or "immediate"
    o["spelling"] = mode and x.choice("spelling", SPELL[mode])
    kw = {}
    if o["name"] is not None:
        kw["name"] = o["name"]
    if o["description"]:
        kw["description"] = o["description"]
    if o["nargs"] is not None:
        kw["check_nargs_on_connect"] = o["nargs"]
    if o["checktypes"] is not None:
        kw["check_types_on_connect"] = o["checktypes"]
    if mode:
        kw["reemission"] = o["spelling"]
    return o, kw


def tries(sig, slot):
    n = len(sig)
    try:
        sig.connect(slot)
        r = "ok"
    except ValueError:
        r = "refused"
    return r, len(sig) - n


def behaves(x, s, o, owner):
    types = o["types"]
    n = len(types)
    x.check("no connections", len(s) == 0)
    x.check("description", s.description == o["description"])
    x.check("signature", [p.annotation for p in s.signature.parameters.values()] == list(types))
    x.check("emitting object", s.instance is owner)
    x.check("not emitting", Signal.current_emitter() is None and Signal.sender() is None)

    # argument checks when connecting
    ns = {}
    exec(f"def greedy({', '.join('abcd'[: n + 1])}): pass", ns)
    want = "ok" if o["nargs"] is False else "refused"
    got = tries(s, ns["greedy"])
    x.check("argument check", got == (want, 1 if want == "ok" else 0), info=(got, want))
    s.disconnect()
    if n:
        def typed(a: bytes):
            pass

        want = "refused" if o["checktypes"] else "ok"
        got = tries(s, typed)
        x.check("type check", got == (want, 1 if want == "ok" else 0), info=(got, want))
        s.disconnect()
        x.cover("typed")
    x.check("empty again", len(s) == 0)

    # emission
    log = []
    first = [True]

    def one(*a):
        log.append(("one", a))
        x.check(
            "current emitter",
            Signal.current_emitter() is s and Signal.sender() is owner,
        )
        if first[0]:
            first[0] = False
            s.emit(*args[1])

    def two(*a):
        log.append(("two", a))

    args = [tuple(x.obj(f"v{e}.{i}") for i in range(n)) for e in range(2)]
    s.connect(one, check_types=False)
    s.connect(two, check_types=False)
    x.check("membership", one in s and two in s and behaves not in s and len(s) == 2)
    s.emit(*args[0])
    A, B = args
    want = {
        "immediate": [("one", A), ("one", B), ("two", B), ("two", A)],
        "queued": [("one", A), ("two", A), ("one", B), ("two", B)],
        "latest-only": [("one", A), ("one", B), ("two", B)],
    }[o["mode"]]
    x.check("callbacks", [k for k, _ in log] == [k for k, _ in want], info=(log, want))
    for (_, a), (_, b) in zip(log, want):
        x.check("arguments", x.same(a, b))
    x.check("not emitting any more", Signal.current_emitter() is None)
    s.disconnect()
    x.check("disconnected", len(s) == 0 and one not in s)


@harness(
    configs=tiered(
        [{"kind": k, "form": f, "ntypes": 3} for k in KINDS for f in ("types", "signature")],
        [{"kind": k, "form": f, "ntypes": 4} for k in KINDS for f in ("types", "signature")],
    ),
    must_cover=["typed"],
)
def declared(x, kind, form, ntypes):
    o, kw = declared_options(x, ntypes)
    decl = signature_of(o["types"]) if form == "signature" else None
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        sig = Signal(decl, **kw) if decl is not None else Signal(*o["types"], **kw)
    x.check("no warning", not seen)
    T = make_class(kind, sig)
    x.check("on the class", T.evt is sig)
    x.check("declared signature", sig.signature == decl if decl is not None else True)
    obj = T()
    s = obj.evt
    x.check("an instance", type(s) is SignalInstance and obj.evt is s)
    x.check("name", s.name == ("evt" if o["name"] is None else o["name"]), info=s.name)
    x.check("shown", (repr(s.name) in repr(s)) == bool(s.name))
    second = T() if kind != "noref" else None
    if second is not None:
        x.check("one per object", second.evt is not s and second.evt.name == s.name)
        x.check("of the second object", second.evt.instance is second)
    behaves(x, s, o, obj)
    if kind == "sub":
        x.check("others", obj.other.description == "other" and obj.mine.description == "mine")
        x.check("names of others", obj.other.name == "other" and obj.mine.name == "mine")
        x.check("different", obj.other is not s and obj.mine is not s)
    if kind not in ("noref", "frozen"):
        del obj
        gc.collect(0)
        x.check("does not keep the object alive", s.instance is None)


@harness(
    configs=[{"form": f, "owner": w} for f in ("tuple", "list", "signature") for w in (0, 1, 2)],
    must_cover=["typed"],
)
def direct(x, form, owner):
    """SignalInstance(...) without a class."""
    o, kw = declared_options(x, 3)
    decl = {"tuple": tuple, "list": list, "signature": signature_of}[form](o["types"])
    obj = [None, type("Owner", (), {})(), 5][owner]
    if obj is not None:
        kw["instance"] = obj
    s = SignalInstance(decl, **kw)
    x.check("name", s.name == (o["name"] or ""))
    behaves(x, s, o, obj)


INVALID = ["", "latest", "immediately", "none", "queued ", 5]


@harness()
def invalid(x):
    """Re-emission modes that do not exist are refused."""
    mode = x.choice("mode", INVALID)
    cls = type("T", (), {"evt": Signal(int, reemission=mode)})
    for make in (lambda: cls().evt, lambda: SignalInstance((int,), reemission=mode)):
        try:
            make()
            x.check("refused", False)
        except ValueError:
            pass
    sig = inspect.Signature([])
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        s = Signal(sig, *x.choice("extra", [(), (int,), (int, str)]))
    x.check("only the Signature counts", s.signature is sig)
    x.check("warns of the others", len(seen) in (0, 1))


@harness(
    configs=tiered(
        [{"mode": m, "n": 2} for m in ("declared", "check")],
        [{"mode": m, "n": 3} for m in ("declared", "check")],
    ),
)
def calls(x, mode, n):
    """Calling a signal is emitting it, with the same checks."""
    types = (int, str, int)[:n]
    cls = type("T", (), {"evt": Signal(*types)})
    obj = cls()
    s = obj.evt
    log = []
    s.connect(lambda *a: log.append(a))
    k = x.choice("arguments", list(range(n + 2)))
    pool = [x.int("i"), "text", x.obj("o")]
    args = tuple(x.choice(f"arg{i}", pool) for i in range(k))
    kw = {}
    for opt in ("check_nargs", "check_types"):
        v = x.choice(opt, [None, True, False])
        if v is not None:
            kw[opt] = v
    res = []
    for f in (s.emit, s):
        n0 = len(log)
        try:
            f(*args, **kw)
            res.append("ok")
        except TypeError:
            res.append("TypeError")
        if res[-1] == "ok":
            x.check("delivered", len(log) == n0 + 1)
            x.check("arguments", x.same(log[-1], args))
        else:
            x.check("nothing delivered", len(log) == n0)
    x.check("the same", res[0] == res[1], info=res)
    bad_n = bool(kw.get("check_nargs")) and k != n
    if not kw.get("check_types"):
        x.check("checked", (res[0] == "TypeError") == bad_n, info=res)


# explored also with None among the arbitrary objects
calls.nones = [{"mode": "check", "n": 2}]

HARNESSES = [declared, direct, invalid, calls]
