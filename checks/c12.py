"""Blocking and pausing groups: programs of nested blocks with different exclusions."""
from psygnal import Signal, SignalGroup

from symx.ctx import harness, tiered

from checks import c08

BOUNDS = {
    "quick": "groups of 3 members; programs of 3-4 steps of group block/unblock with any of "
    "several exclusions (names and instances), nested blocked contexts (new, made before, or used before), member block/unblock, "
    "pause/resume and paused contexts; every member emits an arbitrary value after each step",
    "thorough": "programs of 5 steps",
}
ASSUMPTIONS = [
    "explicit block/unblock of the group while none of its blocked contexts is open; a "
    "member is blocked or unblocked on its own only while no group block covers it",
    "a paused group is resumed while it is not blocked",
    "contexts are closed in reverse order (with-statements)",
    "single thread",
]


def reset():
    c08.reset()


class G(SignalGroup):
    a = Signal(object)
    b = Signal(object)
    c = Signal(object)


NAMES = "abc"
EXCL = ["none", "a", "B", "ab"]


def excl(g, e):
    """(argument, set of names): upper case = by instance"""
    if e == "none":
        return (), set()
    if e == "B":
        return [g.b], {"b"}
    if e == "a":
        return {"a"}, {"a"}
    return ("a", g.b), {"a", "b"}


STARTS = ["block none", "block a", "block B", "block ab", "enter none", "enter a", "enter B",
          "enter ab", "mblock", "pause", "enter paused"]


@harness(
    configs=tiered(
        [{"steps": 6, "start": s, "few": True} for s in STARTS]
        + [{"steps": 4, "start": s, "few": False} for s in STARTS],
        [{"steps": 6, "start": s, "few": True} for s in STARTS]
        + [{"steps": 4, "start": s, "few": False} for s in STARTS],
    ),
    must_cover=["unblocked", "exited", "nested", "own block kept"],
)
def program(x, steps, start, few):
    g = G()
    glog, mlog = [], {n: [] for n in NAMES}
    g.connect(lambda info: glog.append((info.signal.name, info.args)))
    for n in NAMES:
        g[n].connect(lambda v, n=n: mlog[n].append(v))
    blocked = {n: False for n in NAMES}
    own = {n: False for n in NAMES}
    saved = {}
    gb = False
    paused = False
    held, want = [], []
    ctxs = []
    # contexts made at the start, entered later (or again)
    old_paused, old_blocked = g.paused(), g.blocked(exclude=excl(g, "a")[0])
    count = 0
    ex_opts = ["a", "none"] if few else EXCL
    for i in range(steps):
        bctx = [c for c in ctxs if c["kind"] == "b"]
        pctx = [c for c in ctxs if c["kind"] == "p"]
        ops = []
        if not bctx:
            ops += [f"block {e}" for e in ex_opts]
            if gb:
                ops.append("unblock")
        if len(ctxs) < 3:
            ops += [f"enter {e}" for e in ex_opts]
            ops += ["enter paused"] if few else ["enter paused", "enter old a", "enter old paused"]
        free = not any("a" in c["cover"] for c in bctx) and not ("a" in saved)
        if free:
            ops.append("munblock" if own["a"] else "mblock")
        if not pctx:
            ops.append("pause")
            if not gb and not bctx:
                ops.append("resume")
        if ctxs and not (ctxs[-1]["kind"] == "p" and (gb or bctx)):
            ops.append("exit")
        op = start if i == 0 else x.choice(f"op{i}", ops)
        if op.startswith("block "):
            arg, names = excl(g, op[6:])
            g.block(exclude=arg)
            for n in NAMES:
                if n not in names:
                    saved.setdefault(n, blocked[n])
                    blocked[n] = True
            gb = True
        elif op == "unblock":
            x.cover("unblocked")
            g.unblock()
            gb = False
            for n, was in saved.items():
                blocked[n] = was
                if was:
                    x.cover("own block kept")
            saved = {}
        elif op in ("enter paused", "enter old paused"):
            c = g.paused() if op == "enter paused" else old_paused
            c.__enter__()
            ctxs.append({"kind": "p", "c": c, "was": paused, "cover": ()})
            paused = True
        elif op.startswith("enter "):
            arg, names = excl(g, op.split()[-1])
            c = old_blocked if "old" in op else g.blocked(exclude=arg)
            cover = [n for n in NAMES if n not in names]
            ctxs.append({"kind": "b", "c": c, "cover": cover, "was": {n: blocked[n] for n in cover}})
            c.__enter__()
            if len(ctxs) > 1:
                x.cover("nested")
            for n in cover:
                blocked[n] = True
        elif op == "mblock":
            g.a.block()
            blocked["a"] = own["a"] = True
        elif op == "munblock":
            g.a.unblock()
            blocked["a"] = own["a"] = False
        elif op == "pause":
            g.pause()
            paused = True
        elif op == "resume":
            g.resume()
            paused = False
            want += held
            held = []
        elif op == "exit":
            x.cover("exited")
            c = ctxs.pop()
            c["c"].__exit__(None, None, None)
            if c["kind"] == "p":
                paused = c["was"]
                if not paused:
                    want += held
                    held = []
            else:
                for n, was in c["was"].items():
                    blocked[n] = was
                    if was:
                        x.cover("own block kept")
        # every member emits
        for n in NAMES:
            v = x.obj(f"v{count}")
            count += 1
            before = len(mlog[n])
            g[n].emit(v)
            if blocked[n]:
                x.check(f"blocked {n}", len(mlog[n]) == before)
                continue
            x.check(f"member {n} emits", len(mlog[n]) == before + 1)
            (held if paused else want).append((n, (v,)))
        x.check("number relayed", len(glog) == len(want), info=(glog, want))
    while ctxs:
        c = ctxs.pop()
        if c["kind"] == "p" and (gb or any(k["kind"] == "b" for k in ctxs)):
            break
        c["c"].__exit__(None, None, None)
        if c["kind"] == "p":
            paused = c["was"]
            if not paused:
                want += held
                held = []
        else:
            for n, was in c["was"].items():
                blocked[n] = was
    else:
        if gb:
            g.unblock()
            for n, was in saved.items():
                blocked[n] = was
        if paused:
            g.resume()
            want += held
            paused = False
            held = []
        for n in NAMES:
            v = x.obj(f"w{n}")
            g[n].emit(v)
            if not blocked[n]:
                want.append((n, (v,)))
    x.check("relayed", x.same(glog, want))


@harness(configs=[{"how": h} for h in ("paused", "blocked", "paused reducer")],
         must_cover=["failed"])
def failing(x, how):
    """A context left by an exception restores the group in the same way."""
    c08.stub_message(True)
    g = G()
    log = []
    g.connect(lambda info: log.append((info.signal.name, info.args)))
    own = x.flag("own")
    if own:
        g.a.block()
    fail = x.flag("fail")
    order = x.choice("order", ["abc", "cab", "aabc"])

    def reducer(p, q):
        return q

    ctx = {"paused": g.paused, "blocked": g.blocked,
           "paused reducer": lambda: g.paused(reducer)}[how]()
    vals = []
    err = None
    try:
        with ctx:
            for j, n in enumerate(order):
                v = x.obj(f"v{j}")
                if n != "a" or not own:
                    vals.append((n, (v,)))
                g[n].emit(v)
            if fail:
                x.cover("failed")
                raise KeyError("x")
    except KeyError as e:
        err = e
    x.check("exception passes", (err is not None) == fail)
    want = [] if how == "blocked" else vals[-1:] if "reducer" in how else vals
    x.check("relayed", x.same(log, want))
    del log[:]
    for n in NAMES:
        g[n].emit(1)
    x.check("restored", log == [(n, (1,)) for n in NAMES if n != "a" or not own])


# explored also with None among the arbitrary objects
failing.nones = [{"how": "paused reducer"}]

HARNESSES = [program, failing]
