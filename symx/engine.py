"""Path exploration: DFS by re-execution, every branch decided by z3.

The code under test runs natively in CPython on proxy values (see values.py).
Whenever control flow depends on a proxy, `Engine.branch` / `Engine.pick` is asked
which way to go.  Each answer is recorded on a trail together with the constraint it
adds; after a path ends, the deepest decision whose alternative is satisfiable is
flipped and the harness is executed again.  When the trail is exhausted, every
feasible path (within the declared ranges) has been executed and every check on it
has been put to the solver.
"""
from __future__ import annotations

import gc
import time

from . import tm


class ControlFlow(BaseException):
    """Base of the exceptions that steer the explorer (never caught by user code)."""


class PathAbort(ControlFlow):
    """The current path is infeasible or excluded by an assumption."""


class Inconclusive(ControlFlow):
    """The engine cannot decide (solver unknown, bound exceeded, nondeterminism)."""


class NeedNarrow(ControlFlow):
    """An unbounded symbolic integer had to be made concrete."""


class Entry:
    __slots__ = ("kind", "expr", "value", "tried", "open")

    def __init__(self, kind, expr, value, open_=False):
        self.kind = kind  # 'b' bool branch, 'v' value pick, 'a' assumption
        self.expr = expr
        self.value = value
        self.tried = [value]
        self.open = open_  # alternatives may remain

    def constraint(self):
        if self.kind == "b":
            t = self.expr if self.value else tm.not_(self.expr)
        elif self.kind == "v":
            t = tm.eq(self.expr, tm.I(self.value))
        else:
            t = self.expr
        return t


CURRENT: "Engine | None" = None


def current() -> "Engine":
    if CURRENT is None:
        raise RuntimeError("symbolic value used outside of an exploration")
    return CURRENT


class Engine:
    MAX_DECISIONS = 4000
    SOLVER_TIMEOUT_MS = 60_000

    def __init__(self):
        self.solver = tm.Solver(self.SOLVER_TIMEOUT_MS)
        self.trail: list[Entry] = []
        self.pos = 0
        self.prefix: list = []
        self.model = None
        self.dirty = True
        self.abort: ControlFlow | None = None
        # statistics
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.aborted_paths = 0
        self.decisions = 0
        self.checks_concrete = 0
        self.checks_symbolic = 0
        self.covered: dict[str, int] = {}
        self.narrow = False
        self.unbounded: set = set()
        self.edges = 0
        # per path
        self.inputs: dict = {}
        self.pending: list = []
        self.violations: list = []
        self.known_hits: dict = {}
        self.path_violations: list = []
        self.model_paths: list = []  # sample of completed paths (inputs)
        self.sample_every = 1
        self.sample_cap = 0
        self.free_vars_total = 0
        self.notes: set = set()

    # ------------------------------------------------------------ solver access
    def _check(self):
        t = time.perf_counter()
        r = self.solver.check()
        self.solver_s += time.perf_counter() - t
        self.queries += 1
        if r is None:
            self._raise(Inconclusive(f"solver: unknown ({self.solver.reason()})"))
        return r

    def _raise(self, exc: ControlFlow):
        if self.abort is None:
            self.abort = exc
        raise exc

    def _ensure_model(self):
        """Make sure self.model satisfies the path condition (or end the path)."""
        if not self.dirty and self.model is not None:
            return
        if not self._check():
            self._raise(PathAbort("infeasible"))
        self.model = self.solver.model()
        self.dirty = False

    def _push(self, entry: Entry):
        self.trail.append(entry)
        self.pos = len(self.trail)
        if entry.kind != 'a':
            self.edges += 1
        self.solver.push()
        self.solver.add(entry.constraint())

    def _replaying(self):
        return self.pos < len(self.trail)

    def _step(self, kind, expr):
        """Follow an already fixed trail entry; returns it or None."""
        if self.abort is not None:
            raise self.abort
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != kind or not e.expr is expr:
                self._raise(
                    Inconclusive(
                        f"nondeterministic re-execution at {self.pos}: "
                        f"{e.kind}:{e.expr} vs {kind}:{expr}"
                    )
                )
            self.pos += 1
            return e
        return None

    # ------------------------------------------------------------ decisions
    def branch(self, cond) -> bool:
        if cond is tm.TRUE:
            return True
        if cond is tm.FALSE:
            return False
        e = self._step("b", cond)
        if e is not None:
            return e.value
        self.decisions += 1
        if len(self.trail) > self.MAX_DECISIONS:
            self._raise(Inconclusive("decision bound per path exceeded"))
        if self.prefix:
            v = self.prefix.pop(0)
            self._push(Entry("b", cond, v, open_=False))
            self.dirty = True
            return v
        self._ensure_model()
        v = self.model.eval(cond)
        self._push(Entry("b", cond, v, open_=True))
        return v

    def pick(self, expr, lo=None, hi=None) -> int:
        """Fork over every feasible value of an integer term."""
        if expr.op == "i":
            return expr.args[0]
        e = self._step("v", expr)
        if e is not None:
            return e.value
        self.decisions += 1
        if len(self.trail) > self.MAX_DECISIONS:
            self._raise(Inconclusive("decision bound per path exceeded"))
        if self.prefix:
            v = self.prefix.pop(0)
            if isinstance(v, tuple):  # ("not", [values]): pick another one
                tried = list(v[1])
                self.solver.push()
                for t in tried:
                    self.solver.add(tm.not_(tm.eq(expr, tm.I(t))))
                ok = self._check()
                m = self.solver.model() if ok else None
                self.solver.pop()
                if not ok:
                    self._raise(PathAbort("exhausted"))
                val = m.eval(expr)
                en = Entry("v", expr, val, open_=True)
                en.tried = tried + [val]
                self._push(en)
                self.model, self.dirty = m, False
                return val
            self._push(Entry("v", expr, v, open_=False))
            self.dirty = True
            return v
        self._ensure_model()
        v = self.model.eval(expr)
        self._push(Entry("v", expr, v, open_=True))
        return v

    def assume(self, cond):
        self.flush_checks()
        if cond is tm.TRUE:
            return
        if cond is tm.FALSE:
            self._raise(PathAbort("assumption false"))
        e = self._step("a", cond)
        if e is not None:
            return
        known_ok = (
            not self.prefix
            and not self.dirty
            and self.model is not None
            and self.model.eval(cond)
        )
        self._push(Entry("a", cond, True))
        if not known_ok:
            self.dirty = True

    def restrict(self, cond):
        """Range constraint of a fresh variable (an assumption, cheap)."""
        e = self._step("a", cond)
        if e is not None:
            return
        self._push(Entry("a", cond, True))
        self.dirty = True

    def feasible(self) -> bool:
        try:
            self._ensure_model()
        except PathAbort:
            self.abort = None
            return False
        return True

    # ------------------------------------------------------------ checks
    def check(self, label, cond, known=None):
        """cond: bool or z3 BoolRef.  known: (finding id, bool/z3 condition)"""
        if isinstance(cond, bool):
            self.checks_concrete += 1
            self.covered[label] = self.covered.get(label, 0) + 1
            if cond:
                return
            cond = tm.FALSE
        else:
            self.checks_symbolic += 1
            self.covered[label] = self.covered.get(label, 0) + 1
            if cond is tm.TRUE:
                return
        kid = None
        kcond = None
        if known is not None:
            kid, kc = known
            kcond = tm.B(kc) if isinstance(kc, bool) else kc
            if kcond is tm.FALSE:
                kid = kcond = None
        self.pending.append((label, cond, kid, kcond))

    def flush_checks(self):
        if not self.pending:
            return
        pend, self.pending = self.pending, []
        if self._replaying():
            # This part of the path was already decided on a previous execution
            # of the same prefix (same constraints, same checks).
            if not self.recheck:
                return
        bad = []
        for _label, cond, kid, kcond in pend:
            n = tm.not_(cond)
            bad.append(n if kid is None else tm.and_(n, tm.not_(kcond)))
        if self._query(tm.or_(*bad)):
            m = self.solver_model
            labels = [
                p[0]
                for p, b in zip(pend, bad)
                if m.eval(b)
            ]
            self.path_violations.append((labels or [pend[0][0]], self.concretise(m)))
        for label, cond, kid, kcond in pend:
            if kid is not None and kid not in self.known_hits:
                if self._query(tm.and_(tm.not_(cond), kcond)):
                    self.known_hits[kid] = (label, self.concretise(self.solver_model))

    recheck = True

    def _query(self, expr) -> bool:
        if expr is tm.FALSE:
            return False
        self.solver.push()
        self.solver.add(expr)
        try:
            sat = self._check()
            if sat:
                self.solver_model = self.solver.model()
        finally:
            self.solver.pop()
        return sat

    def concretise(self, m) -> dict:
        """Assignment of all declared inputs under model m."""
        out = {}
        for name, (kind, term) in self.inputs.items():
            if kind == "int":
                out[name] = m.eval(term)
            elif kind == "bool":
                out[name] = bool(m.eval(term))
            elif kind == "obj":
                out[name] = [m.eval(t) for t in term]
        return out

    # ------------------------------------------------------------ exploration
    def run_path(self, fn):
        """Execute fn once along the current trail. Returns 'ok' or 'aborted'."""
        global CURRENT
        self.pos = 0
        self.abort = None
        self.inputs = {}
        self.pending = []
        self.path_violations = []
        CURRENT = self
        status = "ok"
        try:
            try:
                fn()
            except ControlFlow:
                pass
            except Exception as e:  # unexpected: a candidate violation
                if self.abort is None:
                    import traceback

                    tb = traceback.extract_tb(e.__traceback__)
                    self.pending.append(
                        (
                            f"unexpected exception {type(e).__name__}: {e} "
                            f"@ {tb[-1].filename}:{tb[-1].lineno}",
                            tm.FALSE,
                            None,
                            None,
                        )
                    )
            if self.abort is None:
                if self.prefix:
                    self.abort = Inconclusive("prefix longer than path")
                else:
                    try:
                        self._ensure_model()
                        self.flush_checks()
                    except ControlFlow:
                        pass
            if isinstance(self.abort, PathAbort):
                status = "aborted"
                # checks made before the abort still count: they are flushed by
                # assume() before the constraint that ended the path was added.
            elif self.abort is not None:
                raise self.abort
        finally:
            CURRENT = None
        return status

    def backtrack(self) -> bool:
        """Flip the deepest open decision. False when exhausted."""
        while self.trail:
            e = self.trail.pop()
            self.solver.pop()
            if e.open:
                if e.kind == "b":
                    self.solver.push()
                    nv = not e.value
                    c = e.expr if nv else tm.not_(e.expr)
                    self.solver.add(c)
                    if self._check():
                        self.model, self.dirty = self.solver.model(), False
                        ne = Entry("b", e.expr, nv, open_=False)
                        self.trail.append(ne)
                        self.edges += 1
                        return True
                    self.solver.pop()
                elif e.kind == "v":
                    self.solver.push()
                    for t in e.tried:
                        self.solver.add(tm.not_(tm.eq(e.expr, tm.I(t))))
                    ok = self._check()
                    m = self.solver.model() if ok else None
                    self.solver.pop()
                    if ok:
                        v = m.eval(e.expr)
                        if len(e.tried) > 512:
                            raise Inconclusive("value pick over more than 512 values")
                        ne = Entry("v", e.expr, v, open_=True)
                        ne.tried = e.tried + [v]
                        self.trail.append(ne)
                        self.edges += 1
                        self.solver.push()
                        self.solver.add(tm.eq(e.expr, tm.I(v)))
                        self.model, self.dirty = m, False
                        return True
        return False

    def split(self) -> list:
        """Unexplored alternatives of the current trail, as prefixes."""
        out = []
        values = []
        for e in self.trail:
            if e.kind == "a":
                continue
            if e.open:
                if e.kind == "b":
                    out.append([*values, not e.value])
                else:
                    out.append([*values, ("not", list(e.tried))])
            values.append(e.value)
        return out

    def explore(self, fn, prefix=(), slice_s=None, max_paths=None, max_violations=4):
        """Explore all paths under prefix. Returns list of leftover prefixes."""
        self.prefix = list(prefix)
        self.trail = []
        self.model, self.dirty = None, True
        t0 = time.perf_counter()
        n = 0
        while True:
            status = self.run_path(fn)
            n += 1
            if n % 256 == 0:
                # cyclic garbage is collected between paths only, so that finalizers of
                # one path never run inside another
                gc.collect()
            if status == "ok":
                self.paths += 1
                if self.sample_cap and self.paths % self.sample_every == 0 and len(
                    self.model_paths
                ) < self.sample_cap and not self.path_violations:
                    self._ensure_model()
                    self.model_paths.append(self.concretise(self.model))
            else:
                self.aborted_paths += 1
            for labels, asg in self.path_violations:
                self.violations.append((labels, asg))
            self.prefix = []
            if len(self.violations) >= max_violations:
                return []
            if slice_s is not None and time.perf_counter() - t0 > slice_s:
                left = self.split()
                self._reset()
                return left
            if max_paths is not None and n >= max_paths:
                left = self.split()
                self._reset()
                return left
            if not self.backtrack():
                return []

    def _reset(self):
        for _ in self.trail:
            self.solver.pop()
        self.trail = []
