"""The harness API, in its symbolic and its concrete (replay) form."""
from __future__ import annotations

from . import atoms
from .values import HASH

PLAIN = (int, str, bytes, float, bool, type(None))


class ConcreteAbort(BaseException):
    """An assumption does not hold in a concrete run."""


class Harness:
    def __init__(self, fn, configs, name=None, must_cover=()):
        self.fn = fn
        self.name = name or fn.__name__
        self.configs = configs  # callable tier -> list of param dicts, or a list
        self.must_cover = tuple(must_cover)
        self.nones = []  # configurations explored also with None among the arbitrary objects

    def config_list(self, tier):
        c = self.configs
        out = list(c(tier) if callable(c) else c)
        return out + [{**n, "nones": 1} for n in self.nones]


class _Nones:
    """A context in which up to `n` of the arbitrary objects are None."""

    def __init__(self, x, n):
        self._x, self._left, self._seen = x, n, {}

    def __getattr__(self, name):
        return getattr(self._x, name)

    def obj(self, name):
        if name not in self._seen:
            none = self._left > 0 and self._x.flag(f"{name} is None")
            self._left -= none
            self._seen[name] = none
        return None if self._seen[name] else self._x.obj(name)


def run_harness(h, x, params):
    """(the parameter `nones` of a configuration: how many arbitrary objects may be None)"""
    params = dict(params)
    nones = params.pop("nones", 0)
    h.fn(_Nones(x, nones) if nones else x, **params)


def harness(configs=({},), must_cover=(), name=None):
    def deco(fn):
        return Harness(fn, configs, name=name or fn.__name__, must_cover=must_cover)

    return deco


def tiered(quick, thorough=None):
    return lambda tier: list(thorough if tier == "thorough" and thorough else quick)


# --------------------------------------------------------------------------- symbolic
class SymCtx:
    symbolic = True

    def __init__(self, eng, unbounded_narrow=4):
        self.eng = eng
        self._narrow = unbounded_narrow
        from . import tm, values

        self.v = values
        self.tm = tm

    # inputs -------------------------------------------------------------
    def int(self, name, lo=None, hi=None, narrow=None):
        tm, eng = self.tm, self.eng
        if lo is not None and lo == hi:
            return lo
        t = tm.ivar(name)
        eng.inputs[name] = ("int", t)
        if lo is None and hi is None:
            if eng.narrow:
                lo, hi = narrow or (-self._narrow, self._narrow)
            else:
                eng.unbounded.add(name)
        cs = []
        if lo is not None:
            cs.append(tm.le(tm.I(lo), t))
        if hi is not None:
            cs.append(tm.le(t, tm.I(hi)))
        if cs:
            eng.restrict(tm.and_(*cs))
        return self.v.SymInt(t)

    def bool(self, name):
        t = self.tm.bvar(name)
        self.eng.inputs[name] = ("bool", t)
        return self.v.SymBool(t)

    def obj(self, name):
        t = self.tm.ivar(name)
        self.eng.inputs[name] = ("obj", (t, self.tm.val(t), self.tm.falsy(t)))
        return self.v.SymObj(t)

    def pick(self, name, lo, hi):
        """A symbolic integer made concrete at once (one path per value)."""
        r = self.int(name, lo, hi)
        return r if type(r) is int else r.concrete()

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, 0, len(options) - 1)]

    def flag(self, name):
        return bool(self.bool(name))

    # assertions ---------------------------------------------------------
    def assume(self, c):
        self.eng.assume(self.v.bterm(c))

    def check(self, label, cond, known=None, info=None):
        v = self.v
        if type(cond) is v.SymBool:
            cond = cond.t
        else:
            cond = bool(cond)
        if known is not None:
            kid, kc = known
            if type(kc) is v.SymBool:
                kc = kc.t
            known = (kid, kc)
        self.eng.check(label, cond, known)

    def cover(self, label):
        self.eng.covered[label] = self.eng.covered.get(label, 0) + 1

    # terms --------------------------------------------------------------
    def and_(self, *cs):
        return self.v.mkbool(self.tm.and_(*[self.v.bterm(c) for c in cs])) if cs else True

    def or_(self, *cs):
        return self.v.mkbool(self.tm.or_(*[self.v.bterm(c) for c in cs])) if cs else False

    def not_(self, c):
        return self.v.notb(c)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def ite(self, c, a, b):
        return self.v.ite(c, a, b)

    def is_(self, a, b):
        return self.v.is_(a, b)

    def list(self, it=()):
        return self.v.SymList(it)

    def _deep(self, a, b, leaf):
        v = self.v
        ta, tb = type(a), type(b)
        if ta in (v.SymObj, v.SymInt, v.SymBool) or tb in (v.SymObj, v.SymInt, v.SymBool):
            return leaf(a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b):
                return False
            return self.and_(*[self._deep(x, y, leaf) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            return self._deep(list(a.items()), list(b.items()), leaf)
        if isinstance(a, PLAIN) and isinstance(b, PLAIN):
            return type(a) is type(b) and a == b
        return a is b

    def same(self, a, b):
        """Deep identity of payloads (equality for ints/strings), as a condition."""
        return self._deep(a, b, self.v.is_)

    def equal(self, a, b):
        """Deep value equality, as a condition (does not branch)."""
        return self._deep(a, b, self._eqleaf)

    def _eqleaf(self, a, b):
        r = a == b
        return r if r is not NotImplemented else False

    def show(self, *a):
        pass


# --------------------------------------------------------------------------- concrete
class Obj:
    """Concrete stand-in of an opaque payload: identity + value equality."""

    __slots__ = ("ident", "val", "falsy", "__weakref__")

    def __init__(self, ident, val, falsy=0):
        self.ident, self.val, self.falsy = ident, val, falsy

    def __bool__(self):
        return self.falsy != 1

    def __eq__(self, o):
        if isinstance(o, Obj):
            return self.val == o.val
        return NotImplemented

    def __hash__(self):
        return HASH

    def __repr__(self):
        return f"Obj#{self.ident}(={self.val}{', false' if self.falsy == 1 else ''})"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, proto):
        return atoms.reduce(self)


class ConcreteCtx:
    symbolic = False

    def __init__(self, inputs, log=None):
        self.inputs = dict(inputs)
        self.objs = {}
        self.failed = []
        self.checked = 0
        self.known = []
        self.log = log

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def int(self, name, lo=None, hi=None, narrow=None):
        if lo is not None and lo == hi:
            return lo
        d = lo if lo is not None else (hi if hi is not None else 0)
        return self._get(name, d)

    def bool(self, name):
        return bool(self._get(name, False))

    def obj(self, name):
        i, *rest = self._get(name, (name, 0))
        if i not in self.objs:
            self.objs[i] = Obj(i, *rest)
        return self.objs[i]

    def pick(self, name, lo, hi):
        return self.int(name, lo, hi)

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, 0, len(options) - 1)]

    def flag(self, name):
        return self.bool(name)

    def assume(self, c):
        if not c:
            raise ConcreteAbort

    def check(self, label, cond, known=None, info=None):
        self.checked += 1
        if not cond:
            if known is not None and known[1]:
                self.known.append((known[0], label))
                return
            self.failed.append(label if info is None else f"{label}: {info}")
            if self.log:
                self.log(f"FAILED CHECK {label}" + (f": {info}" if info else ""))

    def cover(self, label):
        pass

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def is_(self, a, b):
        if type(a) is int and type(b) is int:
            return a == b
        return a is b

    def list(self, it=()):
        return list(it)

    def _deep(self, a, b, leaf):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b):
                return False
            return all(self._deep(x, y, leaf) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            return self._deep(list(a.items()), list(b.items()), leaf)
        if isinstance(a, PLAIN) and isinstance(b, PLAIN):
            return type(a) is type(b) and a == b
        return leaf(a, b)

    def same(self, a, b):
        return self._deep(a, b, lambda p, q: p is q)

    def equal(self, a, b):
        return self._deep(a, b, lambda p, q: bool(p == q))

    def show(self, *a):
        if self.log:
            self.log(*a)
