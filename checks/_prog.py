"""Programs of nested emissions: the real signals next to a reference interpreter.

A program is decided lazily: whenever the real code invokes callback `k` of signal `s`
for emission `e`, the symbolic inputs decide what that invocation does (nothing, emit a
signal, emit it and catch the error, raise, disconnect/connect a callback).  The
reference interpreter then runs the same program by the documented rules.
"""
from psygnal import EmitLoopError, Signal, SignalInstance


class Boom(Exception):
    pass


class ModelError(Exception):
    def __init__(self, exc):
        self.exc = exc


class Entry:
    """One connection."""

    n = 0

    def __init__(self, sid, k, prio=0):
        self.sid, self.k, self.prio = sid, k, prio


class Program:
    def __init__(self, x, sigs, modes, ncb, actions, budget, owners=None, maxcalls=400,
                 prios=None, max_per_call=1):
        self.x, self.sigs, self.modes, self.ncb = x, sigs, modes, ncb
        self.actions, self.budget = actions, budget
        self.owners = owners
        self.max_per_call = max_per_call
        self.memo = {}
        self.used = 0
        self.eid = 0
        self.log = []  # (sid, k, eid)
        self.payload = {}
        self.payload_conds = []
        self.emitter_ok = []
        self.excs = {}
        self.calls = 0
        self.maxcalls = maxcalls
        self.cbs = [[self._make(s, k) for k in range(ncb)] for s in range(len(sigs))]
        self.extra = {}
        self.nextra = 0
        self.raised = []

    # ---- decisions -----------------------------------------------------
    def decide(self, sid, k, eid):
        """list of actions of the invocation of callback k of signal sid for emission eid"""
        key = (sid, k, eid)
        if key not in self.memo:
            acts = []
            while self.used < self.budget and len(acts) < self.max_per_call:
                opts = ["none", *self.actions(sid, k)]
                a = self.x.choice(f"a{sid}.{k}.{eid}.{len(acts)}", opts)
                if a == "none":
                    break
                self.used += 1
                acts.append(a)
                if a[0] == "raise":
                    break
            self.memo[key] = acts
        return self.memo[key]

    # ---- real side -----------------------------------------------------
    def _make(self, sid, k):
        def cb(eid, payload):
            self.invoke(sid, k, eid, payload)

        return cb

    def invoke(self, sid, k, eid, payload):
        self.calls += 1
        if self.calls > self.maxcalls:
            raise RuntimeError("too many callback invocations")
        self.log.append((sid, k, eid))
        self.payload_conds.append(self.x.is_(payload, self.payload.get(eid)))
        self.see_emitter(sid)
        for a in self.decide(sid, k, eid):
            self.act(a, sid, k, eid)
            self.see_emitter(sid)

    def see_emitter(self, sid):
        if self.owners is not None:
            self.emitter_ok.append(
                Signal.current_emitter() is self.sigs[sid]
                and Signal.sender() is self.owners[sid]
            )

    def act(self, a, sid, k, eid):
        op = a[0]
        if op == "emit":
            self.emit(a[1])
        elif op == "emit_fast":
            self.emit(a[1], fast=True)
        elif op == "try_emit":
            try:
                self.emit(a[1])
            except EmitLoopError:
                pass
        elif op == "raise":
            exc = self.excs.setdefault((sid, k, eid), Boom(f"{sid}.{k}.{eid}"))
            raise exc
        elif op == "disconnect":
            self.sigs[sid].disconnect(self.cbs[sid][a[1]])
        elif op == "disconnect_all":
            self.sigs[sid].disconnect()
        elif op == "connect":
            self.sigs[sid].connect(self.cbs[sid][a[1]], priority=a[2])
        else:
            raise AssertionError(op)

    def emit(self, sid, fast=False):
        e = self.eid
        self.eid += 1
        self.payload[e] = self.x.obj(f"pay{e}")
        (self.sigs[sid].emit_fast if fast else self.sigs[sid].emit)(e, self.payload[e])

    def connect_all(self, prios=None):
        for sid in range(len(self.sigs)):
            for k in range(self.ncb):
                p = prios[sid][k] if prios else 0
                self.sigs[sid].connect(self.cbs[sid][k], priority=p)

    # ---- reference interpreter ----------------------------------------
    def model_start(self, conns):
        """conns: per signal the ordered list of Entry"""
        self.m_eid = 0
        self.m_log = []
        self.m_conns = conns
        n = len(self.sigs)
        self.m_stack = [[] for _ in range(n)]  # active emissions (latest-only)
        self.m_queue = [[] for _ in range(n)]
        self.m_active = [False] * n
        self.m_calls = 0
        self.m_nconnects = [0] * n
        self.m_at = {}  # eid -> number of connects made when it was made / delivered

    def m_emit(self, sid, fast=False):
        eid = self.m_eid
        self.m_eid += 1
        self.m_at[eid] = [self.m_nconnects[sid], None]
        mode = "immediate" if fast else self.modes[sid]
        if mode == "immediate":
            self.m_deliver(sid, eid)
        elif mode == "queued":
            self.m_queue[sid].append(eid)
            if self.m_active[sid]:
                return
            self.m_active[sid] = True
            try:
                while self.m_queue[sid]:
                    self.m_deliver(sid, self.m_queue[sid].pop(0))
            finally:
                self.m_queue[sid].clear()
                self.m_active[sid] = False
        else:
            for em in self.m_stack[sid]:
                em["stale"] = True
            em = {"stale": False}
            self.m_stack[sid].append(em)
            try:
                self.m_deliver(sid, eid, em)
            finally:
                self.m_stack[sid].pop()

    def m_deliver(self, sid, eid, em=None):
        try:
            self.m_deliver_(sid, eid, em)
        finally:
            self.m_at[eid][1] = self.m_nconnects[sid]

    def m_deliver_(self, sid, eid, em=None):
        for e in list(self.m_conns[sid]):
            if em and em["stale"]:
                break
            if not any(e is c for c in self.m_conns[sid]):
                continue
            self.m_calls += 1
            if self.m_calls > self.maxcalls:
                raise RuntimeError("model: too many calls")
            self.m_log.append((sid, e.k, eid))
            for a in self.memo.get((sid, e.k, eid), []):
                op = a[0]
                if op == "emit":
                    self.m_emit(a[1])
                elif op == "emit_fast":
                    self.m_emit(a[1], True)
                elif op == "try_emit":
                    try:
                        self.m_emit(a[1])
                    except ModelError:
                        pass
                elif op == "raise":
                    raise ModelError(self.excs.get((sid, e.k, eid)))
                elif op == "disconnect":
                    mine = [c for c in self.m_conns[sid] if c.k == a[1]]
                    if mine:
                        self.m_conns[sid] = [c for c in self.m_conns[sid] if c is not mine[0]]
                elif op == "disconnect_all":
                    self.m_conns[sid] = []
                elif op == "connect":
                    self.m_insert(sid, Entry(sid, a[1], a[2]))

    def m_insert(self, sid, e):
        self.m_nconnects[sid] += 1
        lst = list(self.m_conns[sid])
        for i, c in enumerate(lst):
            if c.prio < e.prio:
                lst.insert(i, e)
                break
        else:
            lst.append(e)
        self.m_conns[sid] = lst

    # ---- one root emission on both sides -------------------------------
    def root(self, sid, label, fast=False):
        """Emit on the real side, then on the model; returns (real error, model error)."""
        real = model = None
        try:
            self.emit(sid, fast)
        except (EmitLoopError, Boom) as e:
            real = e
        try:
            self.m_emit(sid, fast)
        except ModelError as e:
            model = e
        return real, model


def make_signals(modes, bound=True):
    """One signal per mode, each a class-level Signal on its own object."""
    sigs, owners = [], []
    for i, m in enumerate(modes):
        cls = type(f"Owner{i}", (), {"sig": Signal(int, object, reemission=m)})
        o = cls()
        owners.append(o)
        sigs.append(o.sig)
    return sigs, owners


MODES = ["immediate", "queued", "latest-only"]
