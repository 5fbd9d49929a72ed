"""A signal group is a mapping of exactly its declared signals, whatever they are called."""
import copy
import pickle
import warnings

from psygnal import EmissionInfo, Signal, SignalGroup, SignalInstance

from symx.ctx import harness, tiered

from checks import c08

BOUNDS = {
    "quick": "classes of up to 2 levels (and two unrelated bases) that declare any 3 signals out of "
    "names that are ordinary, private or reserved, with any of 5 signatures, strict or not, "
    "overriding inherited ones; chains of 3 subclasses that redeclare signals; every lookup, unknown names, and emission of every member",
    "thorough": "any 4 signals; chains of 4 subclasses",
}
ASSUMPTIONS = [
    "names do not start with _psygnal",
    "a declared signal is not overridden by something that is not a signal",
    "single thread",
]


def reset():
    c08.reset()


NAMES = ["a", "b", "_p", "connect", "all", "psygnal_x", "__len__", "signals", "paused"]
RESERVED = {"connect", "all", "psygnal_x", "__len__", "signals", "paused"}
SIGS = [(), (int,), (str,), (int, int), (int, str), (str, int)]


class Shared(SignalGroup):
    a = Signal(int)
    z = Signal(int)


def declare(x, tag, names, sig_names, options):
    ns = {"__module__": __name__}
    decl = {}
    for i, n in enumerate(names):
        types = x.choice(f"{tag}.sig{i}", options)
        ns[n] = Signal(*types, description=f"{tag}{i}")
        decl[n] = (types, f"{tag}{i}")
    return ns, decl


def create(bases, ns, **kw):
    """(class or None, number of warnings, name of the error)"""
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        try:
            return type("Grp", bases, ns, **kw) if kw else type("Grp", bases, ns), seen, None
        except TypeError:
            return None, seen, "TypeError"
        except RuntimeError:
            return None, seen, "RuntimeError"


def inspect_group(x, g, decl, reserved):
    """Every way of looking at the group `g` agrees with the declaration."""
    x.check("length", SignalGroup.__len__(g) == len(decl))
    names = list(g)
    x.check("names", len(names) == len(decl) and set(names) == set(decl))
    insts = {}
    for n, (types, desc) in decl.items():
        x.check("contains", n in g)
        s = g[n]
        insts[n] = s
        x.check("an instance", type(s) is SignalInstance)
        x.check("name of the signal", s.name == n)
        x.check("description", s.description == desc)
        x.check("signature", tuple(p.annotation for p in s.signature.parameters.values()) == types)
        x.check("the same again", g[n] is s)
        if n not in reserved:
            x.check("as attribute", getattr(g, n) is s)
        else:
            x.cover("reserved")
            x.check("not as attribute", getattr(g, n, None) is not s)
    x.check("all different", len({id(s) for s in insts.values()}) == len(insts))
    m = SignalGroup.signals.fget(g)
    x.check("mapping", dict(m) == insts and len(m) == len(insts))
    for n in ("nope", "", "A"):
        x.check("unknown", n not in g)
        try:
            g[n]
            x.check("unknown item", False)
        except KeyError:
            pass
    for n in ("nope", "A"):
        try:
            getattr(g, n)
            x.check("unknown attribute", False)
        except AttributeError:
            pass
    return insts


def works(x, g, decl, insts):
    """The API of the group works for every member, whatever the members are called."""
    got, direct = [], []
    SignalGroup.connect(g, got.append)
    relay = g.all
    x.check("relay", type(relay).__name__ == "SignalRelay" and len(relay) == 1)
    want = []
    for n, (types, _) in decl.items():
        args = tuple(x.obj(f"arg.{n}.{i}") for i in range(len(types)))
        log = []
        insts[n].connect(lambda *a, log=log: log.append(a))
        insts[n].emit(*args)
        want.append((insts[n], args))
        x.check("member callback", len(log) == 1)
        x.check("member arguments", x.same(log[0], args))
    x.check("notifications", len(got) == len(want))
    for i, (s, a) in zip(got, want):
        x.check("emitter", type(i) is EmissionInfo and i.signal is s)
        x.check("arguments", x.same(i.args, a))
    n = len(got)
    relay.block()
    for m in insts.values():
        m.emit(*[0] * len(m.signature.parameters))
    relay.unblock()
    x.check("blocked", len(got) == n)


def uniform(decl):
    return len({t for t, _ in decl.values()}) <= 1


@harness(
    configs=tiered(
        [{"names": 3, "strict": s, "first": n} for s in (False, True) for n in NAMES],
        [{"names": 4, "strict": s, "first": n} for s in (False, True) for n in NAMES],
    ),
    must_cover=["reserved", "not uniform", "refused"],
)
def single(x, names, strict, first):
    picked = [first]
    for i in range(1, names):
        rest = ["end"] + NAMES[NAMES.index(picked[-1]) + 1:]
        n = x.choice(f"name{i}", rest)
        if n == "end":
            break
        picked.append(n)
    ns, decl = declare(x, "s", picked, picked, [SIGS[0], SIGS[1], SIGS[4], SIGS[5]] if strict else SIGS[1:3])
    cls, seen, err = create((SignalGroup,), ns, **({"strict": True} if strict else {}))
    uni = uniform(decl)
    if not uni:
        x.cover("not uniform")
    if strict and not uni:
        x.cover("refused")
        x.check("a strict group has one signature", cls is None and err == "TypeError")
        return
    x.check("created", cls is not None)
    conflicts = [n for n in decl if n in RESERVED]
    x.check("warns of reserved names", len(seen) == (1 if conflicts else 0))
    if seen:
        x.check("and names them", all(repr(n) in str(seen[0].message) for n in conflicts))
    x.check("uniform", cls.psygnals_uniform() == uni)
    g = cls()
    insts = inspect_group(x, g, decl, RESERVED)
    works(x, g, decl, insts)


@harness(
    configs=[{"base": b, "strict": s} for b in range(4) for s in (False, True)],
    must_cover=["overridden", "reserved", "refused", "two bases"],
)
def inherited(x, base, strict):
    """Signals of base classes are members too; the ones of the subclass win."""
    bnames = [["a", "b"], ["a", "connect"], ["_p"], []][base]
    ns, bdecl = declare(x, "b", bnames, bnames, SIGS[1:3])
    ns["extra"] = 5
    B, _, err = create((SignalGroup,), ns)
    x.check("base", B is not None)
    two = x.flag("two bases")
    bases = (B,)
    if two:
        x.cover("two bases")
        bases = (B, Shared) if x.flag("order") else (Shared, B)
    snames = []
    for n in ["a", "c", "connect", "psygnal_x"]:
        if x.flag(f"declare {n}"):
            snames.append(n)
    ns2, sdecl = declare(x, "s", snames, snames, SIGS[1:3])
    sub, seen, err = create(bases, ns2, **({"strict": True} if strict else {}))
    shared = {"a": ((int,), ""), "z": ((int,), "")} if two else {}
    decl = {**shared, **bdecl, **sdecl} if not two or bases[0] is B else {**bdecl, **shared, **sdecl}
    if set(sdecl) & {*bdecl, *shared}:
        x.cover("overridden")
    if strict and not uniform(decl):
        x.cover("refused")
        x.check("strict", sub is None and err == "TypeError")
        return
    x.check("created", sub is not None)
    x.check("uniform", sub.psygnals_uniform() == uniform(decl))
    x.check("uniform base", B.psygnals_uniform() == uniform(bdecl))
    g = sub()
    x.check("other attributes", g.extra == 5)
    insts = inspect_group(x, g, decl, RESERVED)
    works(x, g, decl, insts)
    # the base class is not affected
    gb = B()
    binsts = inspect_group(x, gb, bdecl, RESERVED)
    works(x, gb, bdecl, binsts) if False else None
    x.check("separate", not ({id(s) for s in insts.values()} & {id(s) for s in binsts.values()}))


@harness(
    configs=tiered(
        [{"levels": 3, "first": f} for f in range(4)],
        [{"levels": 4, "first": f} for f in range(4)],
    ),
    must_cover=["overridden twice", "reserved"],
)
def chain(x, levels, first):
    """A chain of subclasses: every one has the latest declaration of each signal."""
    cls, decl, classes, n_decl = SignalGroup, {}, [], {}
    for lv in range(levels):
        names = []
        for i, n in enumerate(["a", "connect"]):
            if (first >> i) & 1 if lv == 0 else x.flag(f"declare {n}{lv}"):
                names.append(n)
                n_decl[n] = n_decl.get(n, 0) + 1
                if n_decl[n] > 2:
                    x.cover("overridden twice")
        ns = {"__module__": __name__}
        mine = {}
        for n in names:
            types = SIGS[1:4][lv % 3]
            ns[n] = Signal(*types, description=f"{n}{lv}")
            mine[n] = (types, f"{n}{lv}")
        cls, _, err = create((cls,), ns)
        x.check("created", cls is not None)
        decl = {**decl, **mine}
        classes.append((cls, decl))
    for c, d in classes:
        inspect_group(x, c(), d, RESERVED)
        x.check("uniform", c.psygnals_uniform() == uniform(d))
    g = cls()
    insts = {n: g[n] for n in decl}
    works(x, g, decl, insts)


@harness()
def base_class(x):
    """SignalGroup itself has no signals; reserved prefixes are refused."""
    try:
        SignalGroup(x.choice("instance", [None, 5]))
        x.check("not instantiable", False)
    except TypeError:
        pass
    cls, _, err = create((SignalGroup,), {"_psygnal_foo": Signal(int)})
    x.check("refused", cls is None and err == "TypeError")
    cls, _, err = create((SignalGroup,), {})
    g = cls()
    x.check("empty", len(g) == 0 and list(g) == [] and cls.psygnals_uniform())
    x.check("true", bool(g) in (True, False))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x.check("old name", cls.is_uniform() == cls.psygnals_uniform())


HARNESSES = [single, inherited, chain, base_class]
