"""Symbolic proxy values."""
from __future__ import annotations

from . import atoms
from . import engine as _e
from . import tm

# One hash for all arbitrary objects (equal ones must agree).  With this one, built-in
# sets of a few of them iterate in the opposite of the order of insertion.
HASH = 1063


def term(v):
    """Term of an int / SymInt (None if not an integer)."""
    tv = type(v)
    if tv is SymInt:
        return v.t
    if tv is SymBool:
        return tm.ite(v.t, tm.I(1), tm.I(0))
    if isinstance(v, int):
        return tm.I(int(v))
    return None


def bterm(v):
    tv = type(v)
    if tv is SymBool:
        return v.t
    if tv is SymInt:
        return tm.not_(tm.eq(v.t, tm.I(0)))
    if tv is tm.T:
        return v
    return tm.B(bool(v))


def mkbool(t):
    if t.op == "b":
        return t.args[0]
    return SymBool(t)


def mkint(t):
    if t.op == "i":
        return t.args[0]
    return SymInt(t)


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        object.__setattr__(self, "t", t)

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return _e.current().branch(self.t)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, proto):
        return atoms.reduce(self)

    def __and__(self, o):
        return mkbool(tm.and_(self.t, bterm(o)))

    def __or__(self, o):
        return mkbool(tm.or_(self.t, bterm(o)))

    def __xor__(self, o):
        return mkbool(tm.not_(tm.eq(self.t, bterm(o))))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, int)):
            if isinstance(o, bool):
                return mkbool(tm.eq(self.t, bterm(o)))
            return mkbool(tm.eq(term(self), term(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else notb(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return "<symbool>"


def notb(v):
    return mkbool(tm.not_(bterm(v)))


def _arith(op, rev=False):
    def f(self, o):
        t = term(o)
        if t is None:
            return NotImplemented
        return mkint(op(t, self.t) if rev else op(self.t, t))

    return f


def _cmp(op):
    def f(self, o):
        t = term(o)
        if t is None:
            if isinstance(o, float):
                return _cmp_float(op, self, o)
            return NotImplemented
        a = self.t
        if op == "lt":
            r = tm.lt(a, t)
        elif op == "le":
            r = tm.le(a, t)
        elif op == "gt":
            r = tm.lt(t, a)
        elif op == "ge":
            r = tm.le(t, a)
        elif op == "eq":
            r = tm.eq(a, t)
        else:
            r = tm.not_(tm.eq(a, t))
        return mkbool(r)

    return f


def _cmp_float(op, s, f):
    import math

    if math.isnan(f):
        return op == "ne"
    if math.isinf(f):
        big = f > 0
        return {"lt": big, "le": big, "gt": not big, "ge": not big,
                "eq": False, "ne": True}[op]
    if op in ("eq", "ne"):
        if f != int(f):
            return op == "ne"
        return (s == int(f)) if op == "eq" else (s != int(f))
    if op == "lt":
        return s < math.ceil(f)
    if op == "ge":
        return s >= math.ceil(f)
    if op == "le":
        return s <= math.floor(f)
    return s > math.floor(f)


def _floordiv(a, d):
    return tm.div(a, d) if d > 0 else tm.div(tm.neg(a), -d)


class SymInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: int)

    __add__ = _arith(lambda a, b: tm.add(a, b))
    __radd__ = _arith(lambda a, b: tm.add(a, b), True)
    __sub__ = _arith(lambda a, b: tm.sub(a, b))
    __rsub__ = _arith(lambda a, b: tm.sub(a, b), True)
    __mul__ = _arith(lambda a, b: tm.mul(a, b))
    __rmul__ = _arith(lambda a, b: tm.mul(a, b), True)
    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")
    __eq__ = _cmp("eq")
    __ne__ = _cmp("ne")

    def __floordiv__(self, o):
        t = term(o)
        if t is None:
            return NotImplemented
        d = _e.current().pick(t)
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(_floordiv(self.t, d))

    def __rfloordiv__(self, o):
        return mkint(term(o)).__floordiv__(self) if type(o) is SymInt else o // int(self)

    def __mod__(self, o):
        t = term(o)
        if t is None:
            return NotImplemented
        d = _e.current().pick(t)
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(tm.sub(self.t, tm.mul(_floordiv(self.t, d), tm.I(d))))

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return o.__mod__(int(self))
        return o % int(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return int(self) / o

    def __rtruediv__(self, o):
        return o / int(self)

    def __pow__(self, o, m=None):
        return pow(int(self), o, m)

    def __rpow__(self, o):
        return o ** int(self)

    def __and__(self, o):
        return int(self) & int(o)

    def __or__(self, o):
        return int(self) | int(o)

    def __xor__(self, o):
        return int(self) ^ int(o)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return mkint(tm.sub(tm.I(-1), self.t))

    def __neg__(self):
        return mkint(tm.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(tm.ite(tm.lt(self.t, tm.I(0)), tm.neg(self.t), self.t))

    def __bool__(self):
        return _e.current().branch(bterm(self))

    def concrete(self):
        eng = _e.current()
        if not eng.narrow and tm.variables(self.t) & eng.unbounded:
            eng._raise(_e.NeedNarrow())
        return eng.pick(self.t)

    def __index__(self):
        return self.concrete()

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.concrete())

    def __hash__(self):
        return hash(self.concrete())

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return "<symint>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symint>" if not spec else format(int(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def bit_length(self):
        return int(self).bit_length()

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def __reduce_ex__(self, proto):
        return atoms.reduce(self)


class SymObj:
    """Opaque payload: symbolic identity, value equality by an uninterpreted function.

    Two payloads with the same identity are the same object; equality (`==`) is
    equality of `value_of(identity)`, so distinct objects may or may not be equal.
    """

    __slots__ = ("i", "__weakref__")

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is SymObj:
            return mkbool(tm.eq(tm.val(self.i), tm.val(o.i)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else notb(r)

    def __hash__(self):
        return HASH

    def __bool__(self):
        # (an object may well be false in a boolean context, whatever it equals)
        return _e.current().branch(tm.not_(tm.eq(tm.falsy(self.i), tm.I(1))))

    def __repr__(self):
        return f"<obj {self.i}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, proto):
        return atoms.reduce(self)


def is_(a, b):
    """Symbolic `a is b` (used by the rewritten code and by harnesses)."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymObj and tb is SymObj:
        return mkbool(tm.eq(a.i, b.i))
    if ta is SymBool or tb is SymBool:
        if (ta is SymBool or ta is bool) and (tb is SymBool or tb is bool):
            return mkbool(tm.eq(bterm(a), bterm(b)))
        return False
    if ta is SymInt or tb is SymInt:
        # identity of equal ints is an implementation detail; treat as equality
        x, y = (term(a) if ta in (SymInt, int) else None), (
            term(b) if tb in (SymInt, int) else None
        )
        if x is None or y is None:
            return False
        return mkbool(tm.eq(x, y))
    return False


def is_not(a, b):
    return notb(is_(a, b))


def mergeable(a, b):
    ta, tb = type(a), type(b)
    if ta is SymObj and tb is SymObj:
        return True
    if ta in (SymInt, int) and tb in (SymInt, int):
        return True
    return a is b


def ite(c, a, b):
    if isinstance(c, bool) and type(c) is not SymBool:
        return a if c else b
    if a is b:
        return a
    ta, tb = type(a), type(b)
    ct = bterm(c)
    if ta is SymObj and tb is SymObj:
        return SymObj(tm.ite(ct, a.i, b.i))
    if ta in (SymInt, int) and tb in (SymInt, int):
        return mkint(tm.ite(ct, term(a), term(b)))
    if ta in (SymBool, bool) and tb in (SymBool, bool):
        return mkbool(tm.ite(ct, bterm(a), bterm(b)))
    return a if _e.current().branch(ct) else b


class SymList(list):
    """A list whose positions may be addressed by symbolic integers.

    Length is concrete; the element selected by a symbolic index is an if-then-else
    term over the elements, so a single path covers every in-range index.
    """

    __slots__ = ()

    def _norm(self, k, what):
        """k symbolic -> term in [0, n), or IndexError on the out-of-range branch."""
        n = len(self)
        eng = _e.current()
        if not eng.branch(tm.and_(tm.le(tm.I(-n), k.t), tm.lt(k.t, tm.I(n)))):
            raise IndexError(what)
        return tm.ite(tm.lt(k.t, tm.I(0)), tm.add(k.t, tm.I(n)), k.t)

    def _all_mergeable(self, *extra):
        els = [*self, *extra]
        return all(mergeable(els[0], e) for e in els[1:])

    def __getitem__(self, k):
        if type(k) is SymInt:
            if not len(self) or self._all_mergeable():
                t = self._norm(k, "list index out of range")
                r = list.__getitem__(self, 0)
                for j in range(1, len(self)):
                    r = ite(mkbool(tm.eq(t, tm.I(j))), list.__getitem__(self, j), r)
                return r
            k = int(k)
        r = list.__getitem__(self, k)
        return SymList(r) if type(k) is slice else r

    def __setitem__(self, k, v):
        if type(k) is SymInt:
            if not len(self) or self._all_mergeable(v):
                t = self._norm(k, "list assignment index out of range")
                for j in range(len(self)):
                    list.__setitem__(
                        self, j, ite(mkbool(tm.eq(t, tm.I(j))), v, list.__getitem__(self, j))
                    )
                return
            k = int(k)
        list.__setitem__(self, k, v)

    def _shift_out(self, t):
        """Drop the element at symbolic position t (already normalised)."""
        n = len(self)
        new = [
            ite(
                mkbool(tm.le(t, tm.I(j))),
                list.__getitem__(self, j + 1),
                list.__getitem__(self, j),
            )
            for j in range(n - 1)
        ]
        list.__setitem__(self, slice(None), new)

    def __delitem__(self, k):
        if type(k) is SymInt:
            if not len(self) or self._all_mergeable():
                self._shift_out(self._norm(k, "list assignment index out of range"))
                return
            k = int(k)
        list.__delitem__(self, k)

    def pop(self, k=-1):
        if type(k) is SymInt:
            if not len(self):
                raise IndexError("pop from empty list")
            if self._all_mergeable():
                t = self._norm(k, "pop index out of range")
                r = list.__getitem__(self, 0)
                for j in range(1, len(self)):
                    r = ite(mkbool(tm.eq(t, tm.I(j))), list.__getitem__(self, j), r)
                self._shift_out(t)
                return r
            k = int(k)
        return list.pop(self, k)

    def insert(self, k, v):
        if type(k) is SymInt:
            n = len(self)
            if self._all_mergeable(v):
                zero, nn, kn = tm.I(0), tm.I(n), tm.add(k.t, tm.I(n))
                kt = tm.ite(
                    tm.lt(k.t, zero),
                    tm.ite(tm.lt(kn, zero), zero, kn),
                    tm.ite(tm.lt(nn, k.t), nn, k.t),
                )
                new = []
                for j in range(n + 1):
                    # element j after insertion
                    cand = v
                    if j > 0:
                        cand = ite(mkbool(tm.lt(kt, tm.I(j))), list.__getitem__(self, j - 1), cand)
                    if j < n:
                        cand = ite(mkbool(tm.lt(tm.I(j), kt)), list.__getitem__(self, j), cand)
                    new.append(cand)
                list.__setitem__(self, slice(None), new)
                return
            k = int(k)
        list.insert(self, k, v)

    def copy(self):
        return SymList(self)

    __copy__ = copy

    def __add__(self, o):
        return SymList(list.__add__(self, o))

    def __mul__(self, n):
        return SymList(list.__mul__(self, n))

    def __deepcopy__(self, memo):
        import copy

        new = SymList()
        memo[id(self)] = new
        for v in self:
            new.append(copy.deepcopy(v, memo))
        return new

    def __reduce_ex__(self, proto):
        return (SymList, (list(iter(self)),))


def sxlist(x):
    """Wrapper placed by the import hook around list displays / list(...) calls."""
    return SymList(x) if type(x) is list else x
