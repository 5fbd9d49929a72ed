"""Hash-consed integer/boolean terms, translated to z3 on demand.

Terms are interned, so re-executing a path prefix rebuilds the same objects without
touching the solver; each is translated to a z3 AST once per process.
"""
from __future__ import annotations

_TABLE: dict = {}


class T:
    __slots__ = ("op", "args", "boolean", "z", "hasvar")

    def __repr__(self):
        if self.op in ("i", "b"):
            return str(self.args[0])
        if self.op in ("iv", "bv"):
            return str(self.args[0])
        return f"({self.op} {' '.join(map(repr, self.args))})"


def _mk(op, args, boolean):
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.boolean, t.z = op, args, boolean, None
        _TABLE[key] = t
    return t


def I(n):
    return _mk("i", (int(n),), False)


TRUE = _mk("b", (True,), True)
FALSE = _mk("b", (False,), True)


def B(b):
    return TRUE if b else FALSE


def ivar(name):
    return _mk("iv", (name,), False)


def bvar(name):
    return _mk("bv", (name,), True)


def is_const(t):
    return t.op == "i" or t.op == "b"


def add(a, b):
    if a.op == "i" and b.op == "i":
        return I(a.args[0] + b.args[0])
    if a.op == "i":
        a, b = b, a
    if b.op == "i":
        k = b.args[0]
        if k == 0:
            return a
        if a.op == "add" and a.args[1].op == "i":
            return add(a.args[0], I(a.args[1].args[0] + k))
    return _mk("add", (a, b), False)


def neg(a):
    if a.op == "i":
        return I(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    return _mk("neg", (a,), False)


def sub(a, b):
    if a is b:
        return I(0)
    return add(a, neg(b))


def mul(a, b):
    if a.op == "i" and b.op == "i":
        return I(a.args[0] * b.args[0])
    if a.op == "i":
        a, b = b, a
    if b.op == "i":
        if b.args[0] == 0:
            return b
        if b.args[0] == 1:
            return a
    return _mk("mul", (a, b), False)


def div(a, d):
    """Floor division by a positive constant."""
    assert d > 0
    if a.op == "i":
        return I(a.args[0] // d)
    if d == 1:
        return a
    return _mk("div", (a, I(d)), False)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.boolean:
        return or_(and_(c, a), and_(not_(c), b))
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if a is b:
        return a
    return _mk("ite", (c, a, b), False)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return _mk("not", (a,), True)


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in seen:
            continue
        if x.op == "and":
            for y in x.args:
                if y not in seen:
                    seen.add(y)
                    out.append(y)
            continue
        seen.add(x)
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), True)


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE or x in seen:
            continue
        if x.op == "or":
            for y in x.args:
                if y not in seen:
                    seen.add(y)
                    out.append(y)
            continue
        seen.add(x)
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), True)


def eq(a, b):
    if a is b:
        return TRUE
    if a.boolean:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return _mk("eq", (a, b), True)
    if a.op == "i" and b.op == "i":
        return B(a.args[0] == b.args[0])
    if a.op == "i":
        a, b = b, a
    if b.op == "i":
        if a.op == "add" and a.args[1].op == "i":
            return eq(a.args[0], I(b.args[0] - a.args[1].args[0]))
        if a.op == "ite" and (a.args[1].op == "i" or a.args[2].op == "i"):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    elif id(a) > id(b):
        pass
    return _mk("eq", (a, b), True)


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "i" and b.op == "i":
        return B(a.args[0] < b.args[0])
    if b.op == "i" and a.op == "add" and a.args[1].op == "i":
        return lt(a.args[0], I(b.args[0] - a.args[1].args[0]))
    if a.op == "i" and b.op == "add" and b.args[1].op == "i":
        return lt(I(a.args[0] - b.args[1].args[0]), b.args[0])
    return _mk("lt", (a, b), True)


def le(a, b):
    if a is b:
        return TRUE
    if a.op == "i" and b.op == "i":
        return B(a.args[0] <= b.args[0])
    if b.op == "i" and a.op == "add" and a.args[1].op == "i":
        return le(a.args[0], I(b.args[0] - a.args[1].args[0]))
    if a.op == "i" and b.op == "add" and b.args[1].op == "i":
        return le(I(a.args[0] - b.args[1].args[0]), b.args[0])
    return _mk("le", (a, b), True)


def val(i):
    return _mk("val", (i,), False)


def falsy(i):
    """1 if the payload of this identity is false in a boolean context."""
    return _mk("falsy", (i,), False)


# ------------------------------------------------------------------ z3 translation
_FUNCS: dict = {}


def to_z3(t):
    z = t.z
    if z is not None:
        return z
    import z3

    op = t.op
    if op == "i":
        z = z3.IntVal(t.args[0])
    elif op == "b":
        z = z3.BoolVal(t.args[0])
    elif op == "iv":
        z = z3.Int(t.args[0])
    elif op == "bv":
        z = z3.Bool(t.args[0])
    else:
        a = [to_z3(x) for x in t.args]
        if op == "add":
            z = a[0] + a[1]
        elif op == "neg":
            z = -a[0]
        elif op == "mul":
            z = a[0] * a[1]
        elif op == "div":
            z = a[0] / a[1]
        elif op == "ite":
            z = z3.If(*a)
        elif op == "not":
            z = z3.Not(a[0])
        elif op == "and":
            z = z3.And(*a)
        elif op == "or":
            z = z3.Or(*a)
        elif op == "eq":
            z = a[0] == a[1]
        elif op == "lt":
            z = a[0] < a[1]
        elif op == "le":
            z = a[0] <= a[1]
        elif op in ("val", "falsy"):
            f = _FUNCS.get(op)
            if f is None:
                f = _FUNCS[op] = z3.Function(op, z3.IntSort(), z3.IntSort())
            z = f(a[0])
        else:
            raise AssertionError(op)
    t.z = z
    return z


class _Raw:
    """The bare ctypes functions behind z3core (no per-call error fetch)."""

    def __init__(self, core):
        for n in (
            "Z3_solver_push", "Z3_solver_pop", "Z3_solver_assert", "Z3_solver_check",
            "Z3_model_get_const_interp", "Z3_get_numeral_int64", "Z3_get_bool_value",
        ):
            setattr(self, n, getattr(core, n).__defaults__[-1].f)
        el = core.Z3_solver_check.__defaults__[-1]
        self.Z3_get_error_code = el.get_error_code


class Solver:
    """Thin layer over the z3 C API (one incremental solver, one process)."""

    def __init__(self, timeout_ms):
        import z3
        from z3 import z3core

        self.z3 = z3
        self.lib = _Raw(z3core)
        self.s = z3.SimpleSolver()
        self.s.set("timeout", timeout_ms)
        self.ctx = self.s.ctx
        self.c = self.ctx.ref()
        self.sref = self.s.solver
        self._push = self.lib.Z3_solver_push
        self._pop = self.lib.Z3_solver_pop
        self._assert = self.lib.Z3_solver_assert
        self._check = self.lib.Z3_solver_check
        self._err = self.lib.Z3_get_error_code

    def push(self):
        self._push(self.c, self.sref)

    def pop(self):
        self._pop(self.c, self.sref, 1)

    def add(self, t):
        self._assert(self.c, self.sref, to_z3(t).ast)

    def check(self):
        """True sat / False unsat / None unknown or error."""
        r = self._check(self.c, self.sref)
        if self._err(self.c) != 0:
            return None
        return True if r == 1 else (False if r == -1 else None)

    def reason(self):
        return self.s.reason_unknown()

    def model(self):
        return Model(self)


class Model:
    """Reads a z3 model on demand; evaluates interned terms in Python."""

    def __init__(self, solver):
        self.sv = solver
        self.m = solver.s.model()
        self.vals = {}
        self.fn = None
        self.memo = {}

    def _var(self, t):
        r = self.vals.get(t)
        if r is not None:
            return r
        import ctypes

        sv = self.sv
        lib = sv.lib
        z = to_z3(t)
        a = lib.Z3_model_get_const_interp(sv.c, self.m.model, z.decl().ast)
        if not a:
            r = False if t.op == "bv" else 0
        elif t.op == "bv":
            r = lib.Z3_get_bool_value(sv.c, a) == 1
        else:
            i = ctypes.c_longlong()
            if lib.Z3_get_numeral_int64(sv.c, a, ctypes.byref(i)):
                r = i.value
            else:
                v = self.m.eval(z, model_completion=True)
                r = v.as_long()
        self.vals[t] = r
        return r

    def _func(self, name, k):
        if self.fn is None:
            import z3

            self.fn = {"val": ({}, 0), "falsy": ({}, 0)}
            for d in self.m.decls():
                if d.arity() == 0:
                    continue
                v = self.m[d]
                table = {}
                for j in range(v.num_entries()):
                    e = v.entry(j)
                    table[e.arg_value(0).as_long()] = e.value().as_long()
                ev = v.else_value()
                other = ev.as_long() if ev is not None and z3.is_int_value(ev) else 0
                self.fn[d.name()] = (table, other)
        table, other = self.fn[name]
        return table.get(k, other)

    def eval(self, t):
        op = t.op
        if op == "i" or op == "b":
            return t.args[0]
        if op == "iv" or op == "bv":
            return self._var(t)
        r = self.memo.get(t)
        if r is not None:
            return r
        a = t.args
        ev = self.eval
        if op == "add":
            r = ev(a[0]) + ev(a[1])
        elif op == "neg":
            r = -ev(a[0])
        elif op == "mul":
            r = ev(a[0]) * ev(a[1])
        elif op == "div":
            r = ev(a[0]) // a[1].args[0]
        elif op == "ite":
            r = ev(a[1]) if ev(a[0]) else ev(a[2])
        elif op == "not":
            r = not ev(a[0])
        elif op == "and":
            r = all(ev(x) for x in a)
        elif op == "or":
            r = any(ev(x) for x in a)
        elif op == "eq":
            r = ev(a[0]) == ev(a[1])
        elif op == "lt":
            r = ev(a[0]) < ev(a[1])
        elif op == "le":
            r = ev(a[0]) <= ev(a[1])
        elif op == "val" or op == "falsy":
            r = self._func(op, ev(a[0]))
        self.memo[t] = r
        return r


def variables(t, acc=None):
    acc = set() if acc is None else acc
    if t.op in ("iv", "bv"):
        acc.add(t.args[0])
    elif t.op not in ("i", "b"):
        for c in t.args:
            variables(c, acc)
    return acc
