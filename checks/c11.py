"""Group relays: one notification per member emission, whatever is connected where."""
import warnings

from psygnal import EmissionInfo, Signal, SignalGroup

from symx.ctx import harness, tiered

from checks import c08

BOUNDS = {
    "quick": "groups of 2-3 members with 0-2 arguments (inherited members and reserved names "
    "included); programs of 3 connect/disconnect operations on group and members, "
    "every member emitted with arbitrary values after each; trees of up to 3 nested emissions "
    "from group and member callbacks",
    "thorough": "programs of 4 operations; up to 4 nested emissions",
}
ASSUMPTIONS = [
    "members emit with emit() (emit_fast has no current emitter to relay)",
    "disconnecting everything from one member (which includes the relay) is outside",
    "single thread",
]


def reset():
    c08.reset()


class Base(SignalGroup):
    a = Signal(object)


class G(Base):
    b = Signal(object, object)
    c = Signal()


NARGS = {"a": 1, "b": 2, "c": 0}

with warnings.catch_warnings():
    warnings.simplefilter("ignore")

    class Reserved(SignalGroup):
        a = Signal(object)
        connect = Signal(object)
        all = Signal(object)

    class Sub(G):
        a = Signal(object)  # overrides
        d = Signal(object)


class Bad(Exception):
    pass


@harness(
    configs=tiered(
        [{"steps": 3, "start": i} for i in range(8)], [{"steps": 4, "start": i} for i in range(8)]
    ),
    must_cover=["reconnected", "cleared", "several"],
)
def relay(x, steps, start):
    g = G()
    logs = {}

    def mk(name, group):
        log = logs.setdefault(name, [])
        if group:

            def cb(info):
                log.append((info.signal, info.args) if type(info) is EmissionInfo else ("raw", info))
        else:

            def cb(*args):
                log.append(args)

        return cb

    gcb = [mk("g0", True), mk("g1", True)]
    mcb = [mk("m0", False), mk("m1", False)]
    gcount = [0, 0]
    mcount = {m: [0, 0] for m in NARGS}
    nemit = [0]
    OPS = ["connect g", "disconnect g", "connect m", "disconnect m", "direct",
           "disconnect all", "unique g", "gdisconnect m"]
    was = [False, False]
    for i in range(steps):
        ops = OPS[start:start + 1] if i == 0 else OPS
        op = x.choice(f"op{i}", ops)
        if op.endswith(" g"):
            k = x.pick(f"k{i}", 0, 1)
            if op == "connect g":
                if was[k] and not gcount[k]:
                    x.cover("reconnected")
                (g if x.flag(f"via{i}") else g.all).connect(gcb[k])
                gcount[k] += 1
                was[k] = True
            elif op == "unique g":
                g.connect(gcb[k], unique=True)
                gcount[k] = max(gcount[k], 1)
                was[k] = True
            else:
                g.disconnect(gcb[k])
                gcount[k] = max(0, gcount[k] - 1)
        elif op == "connect m":
            k, m = x.pick(f"k{i}", 0, 1), x.choice(f"m{i}", list(NARGS))
            g[m].connect(mcb[k])
            mcount[m][k] += 1
        elif op == "disconnect m":
            k, m = x.pick(f"k{i}", 0, 1), x.choice(f"m{i}", list(NARGS))
            getattr(g, m).disconnect(mcb[k])
            mcount[m][k] = max(0, mcount[m][k] - 1)
        elif op == "gdisconnect m":
            g.disconnect(mcb[0])
            for m in NARGS:
                mcount[m][0] = max(0, mcount[m][0] - 1)
        elif op == "direct":
            g.connect_direct(mcb[0])
            for m in NARGS:
                mcount[m][0] += 1
        else:
            x.cover("cleared")
            g.disconnect()
            gcount = [0, 0]
            mcount = {m: [0, 0] for m in NARGS}
        if sum(gcount) > 1:
            x.cover("several")
        x.check("group counts its own callbacks", len(g.all) == sum(gcount))
        for k in (0, 1):
            x.check("membership", (gcb[k] in g.all) == (gcount[k] > 0))
            x.check("member callbacks are not the group's", mcb[k] not in g.all)
        # every member emits twice, interleaved
        want = {n: [] for n in ("g0", "g1", "m0", "m1")}
        for log in logs.values():
            del log[:]
        for m in ("a", "c", "b", "a"):
            nemit[0] += 1
            args = tuple(x.obj(f"v{nemit[0]}.{j}") for j in range(NARGS[m]))
            g[m].emit(*args)
            for k in (0, 1):
                want[f"g{k}"] += [(g[m], args)] * gcount[k]
                want[f"m{k}"] += [args] * mcount[m][k]
        for n in want:
            x.check(f"notifications {n}", x.same(logs[n], want[n]))


@harness(
    configs=tiered(
        [{"mode": m, "budget": 3, "ncb": n} for m in ("immediate", "queued") for n in (1, 2)],
        [{"mode": m, "budget": 4, "ncb": n} for m in ("immediate", "queued") for n in (1, 2)],
    ),
    must_cover=["nested"],
)
def nested(x, mode, budget, ncb):
    """Callbacks of the group and of members emit members: each notified once per emission."""

    class N(SignalGroup):
        a = Signal(int, reemission=mode)
        b = Signal(int, reemission=mode)

    g = N()
    st = {"used": 0, "eid": 0}
    made, log, memo = [], [], {}

    def emit(m):
        e = st["eid"]
        st["eid"] += 1
        made.append((m, e))
        g[m].emit(e)

    def act(who, e):
        if (who, e) in memo or st["used"] >= budget:
            return
        a = memo[who, e] = x.choice(f"act{who}.{e}", ["none", "a", "b"])
        if a != "none":
            st["used"] += 1
            x.cover("nested")
            emit(a)

    def mk(k):
        def cb(info):
            log.append((f"g{k}", info.signal.name, *info.args))
            ok.append(info.signal is g[info.signal.name])
            act(f"g{k}", info.args[0])

        return cb

    ok = []
    first = x.flag("members first")

    def members():
        g.a.connect(lambda e: (log.append(("ma", "a", e)), act("ma", e)) and None)
        g.b.connect(lambda e: log.append(("mb", "b", e)))

    if first:
        members()
    for k in range(ncb):
        g.connect(mk(k))
    if not first:
        members()
    emit("a")
    emit("b")
    want = []
    for m, e in made:
        want += [(f"g{k}", m, e) for k in range(ncb)]
        want.append((f"m{m}", m, e))
    x.check("each exactly once", sorted(log) == sorted(want), info=(log, want))
    x.check("signal", all(ok))
    if not st["used"]:
        x.check("order", [e for w, m, e in log if w == "g0"] == [0, 1])


@harness(configs=[{"cls": c} for c in ("Reserved", "Sub")])
def names(x, cls):
    """Reserved and overridden names are members like any other."""
    C = Reserved if cls == "Reserved" else Sub
    g = C()
    want_names = {"Reserved": {"a", "connect", "all"}, "Sub": {"a", "b", "c", "d"}}[cls]
    x.check("names", set(g) == want_names and len(g) == len(want_names))
    log = []
    relay = SignalGroup.all.__get__(g)
    SignalGroup.connect(g, lambda info: log.append(info))
    m = x.choice("member", sorted(want_names))
    n = {"b": 2, "c": 0}.get(m, 1)
    args = tuple(x.obj(f"v{i}") for i in range(n))
    raw = []
    g[m].connect(lambda *a: raw.append(a))
    x.check("same instance", g[m] is g[m])
    g[m].emit(*args)
    x.check("relayed once", len(log) == 1 and log[0].signal is g[m] and x.same(log[0].args, args))
    x.check("direct", x.same(raw, [args]))
    g2 = C()
    g2[m].emit(*args)
    x.check("other groups are separate", len(log) == 1 and len(raw) == 1 and len(relay) == 1)


# explored also with None among the arbitrary objects
relay.nones = [{"steps": 2, "start": 0}]

HARNESSES = [relay, nested, names]
