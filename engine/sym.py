"""Symbolic stand-ins for Python's int, bool, bytes, bytearray, str, float and UUID.

Integers are exact (unbounded): each carries an interval, and its bit-vector is always wide enough
for the interval, so no operation wraps.  Byte strings and text have a concrete length and symbolic
elements.  `__class__` reports the real type, so isinstance() behaves as in the original program.
"""
from __future__ import annotations

import datetime
import math

import z3

from . import core


# ------------------------------------------------------------------------------- integers
def need_bits(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max(hi.bit_length() + 1, (-lo - 1).bit_length() + 1)


def _fit(t, signed, w):
    """Term `t` (signed or unsigned interpretation) at width w."""
    cur = t.size()
    if cur == w:
        return t
    if cur > w:
        return z3.Extract(w - 1, 0, t)
    return z3.SignExt(w - cur, t) if signed else z3.ZeroExt(w - cur, t)


def mk_int(t, lo, hi):
    """A SymInt (or plain int when constant) from a term whose low bits are the exact value."""
    if lo == hi:
        return lo
    w = need_bits(lo, hi)
    if t.size() < w:
        # the term is narrower than the interval: only happens for unsigned terms
        t = _fit(t, lo < 0, w)
    elif t.size() > w:
        t = z3.Extract(w - 1, 0, t)
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_signed_long() if lo < 0 else t.as_long()
    return SymInt(t, lo, hi)


def is_sym(x):
    return type(x) in SYM_TYPES


def _c(x):
    """Operand as (term, lo, hi); None if not an integer."""
    tx = type(x)
    if tx is SymInt:
        return x.t, x.lo, x.hi
    if tx is SymBool:
        return z3.If(x.c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1
    if tx is int or tx is bool:
        x = int(x)
        return z3.BitVecVal(x, need_bits(x, x)), x, x
    if isinstance(x, int):
        x = int(x)
        return z3.BitVecVal(x, need_bits(x, x)), x, x
    return None


def _arith(op, a, b):
    """Exact +,-,* on operand triples."""
    at, al, ah = a
    bt, bl, bh = b
    if op == "+":
        lo, hi = al + bl, ah + bh
    elif op == "-":
        lo, hi = al - bh, ah - bl
    else:
        c = (al * bl, al * bh, ah * bl, ah * bh)
        lo, hi = min(c), max(c)
    w = need_bits(lo, hi)
    x, y = _fit(at, al < 0, w), _fit(bt, bl < 0, w)
    t = x + y if op == "+" else x - y if op == "-" else x * y
    return mk_int(t, lo, hi)


def _bitop(op, a, b):
    at, al, ah = a
    bt, bl, bh = b
    if op == "&":
        if al >= 0 and bl >= 0:
            lo, hi = 0, min(ah, bh)
        elif al >= 0:
            lo, hi = 0, ah
        elif bl >= 0:
            lo, hi = 0, bh
        else:
            n = max(need_bits(al, ah), need_bits(bl, bh))
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
    elif al >= 0 and bl >= 0:
        hi = (1 << max(ah.bit_length(), bh.bit_length())) - 1
        lo = max(al, bl) if op == "|" else 0
        if op == "|":
            # hi can be refined when one operand is constant
            if al == ah:
                hi = min(hi, al | ((1 << bh.bit_length()) - 1))
            elif bl == bh:
                hi = min(hi, bl | ((1 << ah.bit_length()) - 1))
    else:
        n = max(need_bits(min(al, -1), ah), need_bits(min(bl, -1), bh))
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if op == "|" and al < 0 and bl < 0:
            hi = -1
    w = max(need_bits(lo, hi), 1)
    x, y = _fit(at, al < 0, w), _fit(bt, bl < 0, w)
    t = x & y if op == "&" else x | y if op == "|" else x ^ y
    return mk_int(t, lo, hi)


def _cmp(op, a, b):
    """Comparison of operand triples -> bool or SymBool."""
    at, al, ah = a
    bt, bl, bh = b
    if op == "==":
        if ah < bl or bh < al:
            return False
        if al == ah == bl == bh:
            return True
    elif op == "<":
        if ah < bl:
            return True
        if al >= bh:
            return False
    elif op == "<=":
        if ah <= bl:
            return True
        if al > bh:
            return False
    w = need_bits(min(al, bl), max(ah, bh))
    x, y = _fit(at, al < 0, w), _fit(bt, bl < 0, w)
    signed = al < 0 or bl < 0
    if op == "==":
        c = x == y
    elif op == "<":
        c = x < y if signed else z3.ULT(x, y)
    else:
        c = x <= y if signed else z3.ULE(x, y)
    return mk_bool(c)


def mk_bool(c):
    if c is True or c is False:
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SymBool(c)


def to_z3(b):
    """Truth value of a bool/SymBool as a z3 boolean, without forking."""
    if type(b) is SymBool:
        return b.c
    if type(b) is SymInt:
        return b.t != 0
    return z3.BoolVal(bool(b))


class SymBase:
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, _memo):
        return self

    def __reduce__(self):
        raise core.PathIncomplete("pickling a symbolic value")

    def __reduce_ex__(self, _p):
        raise core.PathIncomplete("pickling a symbolic value")


class SymBool(SymBase):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return core.engine().decide(self.c)

    def _int(self):
        t, lo, hi = _c(self)
        return SymInt(t, lo, hi)

    def __and__(self, o):
        if type(o) in (SymBool, bool):
            return mk_bool(z3.And(self.c, to_z3(o)))
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (SymBool, bool):
            return mk_bool(z3.Or(self.c, to_z3(o)))
        return self._int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (SymBool, bool):
            return mk_bool(z3.Xor(self.c, to_z3(o)))
        return self._int() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) in (SymBool, bool):
            return mk_bool(self.c == to_z3(o))
        return self._int() == o

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "<symbolic bool>"

    __str__ = __repr__

    def __format__(self, _s):
        return "<symbolic bool>"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._int(), name)


def _via_int(name):
    def f(self, *a):
        return getattr(self._int(), name)(*a)
    f.__name__ = name
    return f


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__floordiv__", "__rfloordiv__",
           "__mod__", "__rmod__", "__lshift__", "__rlshift__", "__rshift__", "__rrshift__", "__lt__", "__le__",
           "__gt__", "__ge__", "__neg__", "__pos__", "__abs__", "__invert__", "__truediv__", "__rtruediv__",
           "__divmod__", "__rdivmod__", "__pow__", "__rpow__"):
    setattr(SymBool, _n, _via_int(_n))


def sym_not(b):
    if type(b) is SymBool:
        return mk_bool(z3.Not(b.c))
    return not b


def sym_and(items):
    cs = []
    for b in items:
        if type(b) is SymBool:
            cs.append(b.c)
        elif not b:
            return False
    if not cs:
        return True
    return mk_bool(z3.And(*cs) if len(cs) > 1 else cs[0])


def sym_or(items):
    cs = []
    for b in items:
        if type(b) is SymBool:
            cs.append(b.c)
        elif b:
            return True
    if not cs:
        return False
    return mk_bool(z3.Or(*cs) if len(cs) > 1 else cs[0])


INT_CONCRETE_LIMIT = 300


def _timedelta_mul(td, n):
    from . import models
    return models.SymTimedelta.make(models.td_us(td) * n)


class SymInt(SymBase):
    """An integer: a bit-vector term wide enough for the interval lo..hi.

    Some facts may be remembered so that divisions undo multiplications without the solver:
    lin = (b, k, r): the value is b*k + r for a SymInt b, an int k > 0 and r an int or SymInt;
    rem = (q, k, x): the value is x - q*k (the remainder that goes with the quotient q).
    """
    __slots__ = ("t", "lo", "hi", "lin", "rem", "neg")

    def __init__(self, t, lo, hi, lin=None):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.lin = lin
        self.rem = None
        self.neg = None     # the SymInt this is the negation of

    def _is(self, o):
        return type(o) is SymInt and (o is self or (o.lo == self.lo and o.hi == self.hi and o.t.eq(self.t)))

    def _recombine(self, o):
        """b*k + r + (x - b*k), if self and o have that form."""
        if type(o) is SymInt and self.lin is not None and o.rem is not None and o.rem[1] == self.lin[1] and \
                o.rem[0]._is(self.lin[0]):
            return o.rem[2] + self.lin[2]
        return None

    @property
    def __class__(self):
        return int

    # -- concretisation
    def concretize(self, limit=INT_CONCRETE_LIMIT):
        signed = self.lo < 0
        w = self.t.size()

        def to_py(v):
            return v.as_signed_long() if signed else v.as_long()

        return core.engine().pick_value(self.t, to_py, lambda v: self.t == z3.BitVecVal(v, w), limit, "integer")

    def __index__(self):
        return self.concretize()

    def __int__(self):
        return self.concretize()

    def __hash__(self):
        return hash(self.concretize())

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return core.engine().decide(self.t != z3.BitVecVal(0, self.t.size()))

    def __float__(self):
        if self.hi - self.lo < INT_CONCRETE_LIMIT:
            return float(self.concretize())
        return float(self.concretize(8))

    def __repr__(self):
        return "<symbolic int>"

    __str__ = __repr__

    def __format__(self, _s):
        return "<symbolic int>"

    # -- arithmetic
    def _bin(self, op, o, rev=False):
        c = _c(o)
        if c is None:
            return NotImplemented
        a = (self.t, self.lo, self.hi)
        r = _arith(op, c, a) if rev else _arith(op, a, c)
        if type(r) is not SymInt or r is self or r.lin is not None:
            return r
        if type(o) is int:
            b, k, d = self.lin or (self, 1, 0)
            if op == "+":
                r.lin = (b, k, d + o)
            elif op == "-" and not rev:
                r.lin = (b, k, d - o)
            elif op == "-" and self.lin is not None:
                r.lin = (-b, k, o - d)
            elif op == "*" and o > 0:
                r.lin = (b, k * o, d * o)
        elif type(o) is SymInt and op == "+":
            for x, y in ((self, o), (o, self)):
                if x.lin is not None and x.lin[1] > 1 and y.lin is None and \
                        max(abs(y.lo), abs(y.hi)) <= 4 * x.lin[1]:
                    r.lin = (x.lin[0], x.lin[1], x.lin[2] + y)
                    break
        return r

    def __add__(self, o):
        if type(o) in (float, SymFloat):
            return SymFloat.from_any(self) + o
        if type(o) is SymInt:
            x = self._recombine(o)
            if x is None:
                x = o._recombine(self)
            if x is not None:
                return x
        return self._bin("+", o)

    def __radd__(self, o):
        if type(o) is float:
            return SymFloat.from_any(self) + o
        return self._bin("+", o, True)

    def __sub__(self, o):
        if type(o) in (float, SymFloat):
            return SymFloat.from_any(self) - o
        return self._bin("-", o)

    def __rsub__(self, o):
        if type(o) is float:
            return o - SymFloat.from_any(self)
        if type(o) is int and o == 0:
            return -self
        return self._bin("-", o, True)

    def __mul__(self, o):
        if type(o) in (float, SymFloat):
            return SymFloat.from_any(self) * o
        if type(o) in (bytes, str, list, tuple, bytearray, SymBytes, SymStr, SymByteArray):
            return o * self.concretize()
        if isinstance(o, datetime.timedelta):
            return _timedelta_mul(o, self)
        return self._bin("*", o)

    def __rmul__(self, o):
        if type(o) is float:
            return SymFloat.from_any(self) * o
        if type(o) in (bytes, str, list, tuple, bytearray):
            return o * self.concretize()
        if isinstance(o, datetime.timedelta):
            return _timedelta_mul(o, self)
        return self._bin("*", o, True)

    def __neg__(self):
        if self.neg is not None:
            return self.neg
        if self.lin is not None and self.lin[1] > 1 and type(self.lin[2]) is int and self.lin[2] == 0:
            return -self.lin[0] * self.lin[1]
        r = self._bin("-", 0, True)
        if type(r) is SymInt:
            r.neg = self
        return r

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        lo, hi = (1, -self.lo) if bool(self < 0) else (0, self.hi)
        x = -self if lo else self
        r = mk_int(_fit(x.t, x.lo < 0, need_bits(lo, hi)), lo, hi)
        if type(r) is SymInt:
            r.lin, r.rem, r.neg = x.lin, x.rem, x.neg
        return r

    def __invert__(self):
        return -1 - self

    def _divmod(self, a, b):
        """Floor division and remainder of operand triples."""
        bt, bl, bh = b
        at, al, ah = a
        if bl <= 0 <= bh:
            zero = _cmp("==", b, _c(0))
            if zero if type(zero) is bool else bool(zero):
                raise ZeroDivisionError("integer division or modulo by zero")
        m = max(abs(bl), abs(bh))
        dmin = 1 if bl <= 0 <= bh else min(abs(bl), abs(bh))
        qmax = max(abs(al), abs(ah)) // dmin + 1
        if al >= 0 and bl >= 0:
            if bl == bh and bl & (bl - 1) == 0:
                k = bl.bit_length() - 1
                s = SymInt(at, al, ah)
                return s >> k, s & (bl - 1)
            w = max(need_bits(al, ah), need_bits(bl, bh))
            x, y = _fit(at, False, w), _fit(bt, False, w)
            qlo, qhi = al // max(bh, 1), ah // max(bl, 1)
            rhi = min(ah, m - 1)
            return mk_int(z3.UDiv(x, y), qlo, qhi), mk_int(z3.URem(x, y), 0, rhi)
        w = max(need_bits(min(al, -1), ah), need_bits(min(bl, -1), bh)) + 1
        x, y = _fit(at, al < 0, w), _fit(bt, bl < 0, w)
        q, r = x / y, z3.SRem(x, y)
        zero = z3.BitVecVal(0, w)
        adj = z3.And(r != zero, (r < zero) != (y < zero))
        q = z3.If(adj, q - 1, q)
        r = z3.If(adj, r + y, r)
        rlo, rhi = (0, m - 1) if bl > 0 else (-(m - 1), 0) if bh < 0 else (-(m - 1), m - 1)
        if bl == bh:
            e = (al // bl, ah // bl)
            qlo, qhi = min(e), max(e)
        else:
            qlo, qhi = -qmax, qmax
        return mk_int(q, qlo, qhi), mk_int(r, rlo, rhi)

    def __divmod__(self, o):
        c = _c(o)
        if c is None:
            return NotImplemented
        if type(o) is not int or o < 1:
            return self._divmod((self.t, self.lo, self.hi), c)
        if o == 1:
            return self, 0
        if self.lin is not None:
            b, k, d = self.lin
            if k % o == 0:
                q, r = divmod(d, o)
                return b * (k // o) + q, r
            if k > 1 and o % k == 0:
                dq, dr = divmod(d, k)
                q, r = divmod(b + dq, o // k)
                return q, r * k + dr
        q, r = self._divmod((self.t, self.lo, self.hi), c)
        if type(r) is SymInt and type(q) is SymInt:
            r.rem = (q, o, self)
        return q, r

    def __rdivmod__(self, o):
        c = _c(o)
        if c is None:
            return NotImplemented
        return self._divmod(c, (self.t, self.lo, self.hi))

    def __floordiv__(self, o):
        if type(o) is float:
            return math.floor(self / o)
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[0]

    def __rfloordiv__(self, o):
        r = self.__rdivmod__(o)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        c = _c(o)
        if c is None:
            return NotImplemented
        if c[1] == c[2] and c[1] > 0 and c[1] & (c[1] - 1) == 0:
            return self & (c[1] - 1)
        return self.__divmod__(o)[1]

    def __rmod__(self, o):
        if type(o) in (str, bytes):
            return o % (repr(self),) if type(o) is str else NotImplemented
        r = self.__rdivmod__(o)
        return r if r is NotImplemented else r[1]

    def __truediv__(self, o):
        if type(o) is float and o == o and 0 < abs(o) < 2 ** 53 and o == int(o) and \
                max(abs(self.lo), abs(self.hi)) <= 2 ** 53:
            o = int(o)
        if type(o) is int and o != 0:
            return SymFrac(self, o)
        if type(o) in (int, float, SymInt, SymFloat):
            return SymFloat.from_any(self) / SymFloat.from_any(o)
        return NotImplemented

    def __rtruediv__(self, o):
        if type(o) in (int, float):
            return SymFloat.from_any(o) / SymFloat.from_any(self)
        return NotImplemented

    def __pow__(self, o, mod=None):
        if type(o) is SymInt:
            o = o.concretize()
        if type(o) is not int or o < 0 or o > 64:
            return self.concretize(16) ** o
        r = 1
        for _ in range(o):
            r = r * self
        return r % mod if mod is not None else r

    def __rpow__(self, o):
        if type(o) is int and o == 2 and self.lo >= 0:
            return 1 << self
        return o ** self.concretize()

    # -- bits
    def _bit(self, op, o):
        c = _c(o)
        if c is None:
            return NotImplemented
        return _bitop(op, (self.t, self.lo, self.hi), c)

    def __and__(self, o):
        return self._bit("&", o)

    __rand__ = __and__

    def __or__(self, o):
        return self._bit("|", o)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit("^", o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        if type(o) in (SymInt, SymBool):
            o = o.__index__()
        if not isinstance(o, int):
            return NotImplemented
        o = int(o)
        if o < 0:
            raise ValueError("negative shift count")
        if o == 0:
            return self
        return mk_int(z3.Concat(self.t, z3.BitVecVal(0, o)), self.lo << o, self.hi << o)

    def __rlshift__(self, o):
        return o << self.concretize()

    def __rshift__(self, o):
        if type(o) in (SymInt, SymBool):
            o = o.__index__()
        if not isinstance(o, int):
            return NotImplemented
        o = int(o)
        if o < 0:
            raise ValueError("negative shift count")
        if o == 0:
            return self
        w = self.t.size()
        lo, hi = self.lo >> o, self.hi >> o
        if lo == hi:
            return lo
        o = min(o, w - 1)
        return mk_int(z3.Extract(w - 1, o, self.t), lo, hi)

    def __rrshift__(self, o):
        return o >> self.concretize()

    # -- comparisons
    def _cmp(self, op, o, neg=False, swap=False):
        if type(o) in (float, SymFloat):
            a, b = SymFloat.from_any(self), SymFloat.from_any(o)
            return {"==": a.__eq__, "<": a.__lt__, "<=": a.__le__}[op](b) if not swap else \
                {"<": b.__lt__, "<=": b.__le__}[op](a)
        if type(o) is SymFrac:
            return NotImplemented
        c = _c(o)
        if c is None:
            return NotImplemented
        s = self._scaled(o)
        if s is not None:
            b, x, q, exact = s           # self op o  <=>  b*k op x*k + diff, q = floor(diff / k)
            if op == "==":
                r = b == x + q if exact else False
            elif not swap:
                r = (b < x + q + (not exact)) if op == "<" else b <= x + q
            else:
                r = (x + q < b) if op == "<" else x + q + (not exact) <= b
        else:
            a = (self.t, self.lo, self.hi)
            r = _cmp(op, c, a) if swap else _cmp(op, a, c)
        return sym_not(r) if neg else r

    def _scaled(self, o):
        """Both sides divided by a common factor, so that the comparison needs no multiplication."""
        if self.lin is None or self.lin[1] == 1 or type(self.lin[2]) is not int:
            return None
        b, k, d = self.lin
        if type(o) is int:
            x, d2 = 0, o
        elif type(o) is SymInt and o.lin is not None and type(o.lin[2]) is int:
            x, k2, d2 = o.lin
            if k2 % k == 0:
                x = x * (k2 // k)
            elif k % k2 == 0 and k2 > 1:
                b, k = b * (k // k2), k2
            else:
                return None
        else:
            return None
        q, r = divmod(d2 - d, k)
        return b, x, q, r == 0

    def __eq__(self, o):
        return self._cmp("==", o)

    def __ne__(self, o):
        r = self._cmp("==", o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        return self._cmp("<", o)

    def __le__(self, o):
        return self._cmp("<=", o)

    def __gt__(self, o):
        return self._cmp("<", o, swap=True)

    def __ge__(self, o):
        return self._cmp("<=", o, swap=True)

    # -- int API
    def bit_length(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_length()
        lo, hi = a.lo.bit_length(), a.hi.bit_length()
        while lo < hi:  # binary search: bit_length <= mid  iff  a < 2**mid
            mid = (lo + hi) // 2
            if a < (1 << mid):
                hi = mid
            else:
                lo = mid + 1
        return lo

    def bit_count(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_count()
        w = a.t.size()
        n = need_bits(0, w)
        t = z3.BitVecVal(0, n)
        for i in range(w):
            t = t + z3.ZeroExt(n - 1, z3.Extract(i, i, a.t)) if n > 1 else t + z3.Extract(i, i, a.t)
        return mk_int(t, 0, w)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = length.__index__()
        if type(byteorder) is not str:
            raise TypeError("to_bytes() argument 'byteorder' must be str")
        if byteorder not in ("big", "little"):
            raise ValueError("byteorder must be either 'little' or 'big'")
        if length < 0:
            raise ValueError("length argument must be non-negative")
        signed = bool(signed)
        n = 8 * length
        if not signed and self.lo < 0 and bool(self < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if signed:
            lim = (0, 0) if n == 0 else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        else:
            lim = (0, (1 << n) - 1)
        if self.hi > lim[1] and bool(self > lim[1]):
            raise OverflowError("int too big to convert")
        if self.lo < lim[0] and signed and bool(self < lim[0]):
            raise OverflowError("int too big to convert")
        if n == 0:
            return b""
        t = _fit(self.t, self.lo < 0, n)
        out = [mk_int(z3.Extract(8 * i + 7, 8 * i, t), 0, 255) for i in range(length)]
        out.reverse()
        if self.lin is not None:
            denotes(out, signed, self)
        if byteorder == "little":
            out.reverse()
        return mk_bytes(out)

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return self, 1

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        if n is not None and n < 0:
            return round(self.concretize(16), n)
        return self

    real = property(lambda self: self)
    numerator = property(lambda self: self)
    imag = property(lambda self: 0)
    denominator = property(lambda self: 1)


class SymFrac(SymBase):
    """The double nearest to num/den, den a concrete positive integer (int / int in Python).

    Up to |num| <= 2**53 the rounded quotient compares with integers, and rounds to an integer,
    exactly as num/den does; every other operation goes to the IEEE model.  Above that bound only
    representative values are followed, and the path counts as incomplete.
    """
    __slots__ = ("num", "den")

    def __init__(self, num, den):
        if den < 0:
            num, den = -num, -den
        self.num, self.den = num, den

    @property
    def __class__(self):
        return float

    def small(self, lim=1 << 53):
        """None if |num| <= lim on this path, else a concrete double."""
        n = self.num
        if type(n) is not SymInt:
            return None if abs(n) <= lim else n / self.den
        if -lim <= n.lo and n.hi <= lim:
            return None
        if bool(sym_and([n >= -lim, n <= lim])):
            w = need_bits(max(n.lo, -lim), min(n.hi, lim))
            if w < n.t.size():
                self.num = mk_int(_fit(n.t, n.lo < 0, w), max(n.lo, -lim), min(n.hi, lim))
            return None
        return n.concretize(6) / self.den

    def __floor__(self):
        c = self.small()
        return self.num // self.den if c is None else math.floor(c)

    def __ceil__(self):
        c = self.small()
        return -((-self.num) // self.den) if c is None else math.ceil(c)

    def __trunc__(self):
        c = self.small()
        if c is not None:
            return math.trunc(c)
        if self.num >= 0:
            return self.num // self.den
        return -((-self.num) // self.den)

    def __round__(self, n=None):
        if n is not None:
            return SymFloat.from_any(self).__round__(n)
        return SymFloat.from_any(self).__round__()

    def is_integer(self):
        c = self.small()
        return self.num % self.den == 0 if c is None else c.is_integer()

    def __mul__(self, o):
        return SymFloat.from_any(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return SymFloat.from_any(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return SymFloat.from_any(self) - o

    def __rsub__(self, o):
        return SymFloat.from_any(o) - self

    def __neg__(self):
        return SymFrac(-self.num, self.den)

    def __abs__(self):
        return SymFrac(abs(self.num), self.den)

    def _cmpv(self, o):
        if type(o) is float and o == o and abs(o) < 2 ** 53 and o == int(o):
            o = int(o)
        if type(o) is int and abs(o) < 2 ** 53:
            c = self.small()
            return (self.num, o * self.den) if c is None else (c, o)
        return SymFloat.from_any(self), SymFloat.from_any(o)

    def __eq__(self, o):
        if not isinstance(o, (int, float)):
            return NotImplemented
        a, b = self._cmpv(o)
        return a == b

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        a, b = self._cmpv(o)
        return a < b

    def __le__(self, o):
        a, b = self._cmpv(o)
        return a <= b

    def __gt__(self, o):
        a, b = self._cmpv(o)
        return a > b

    def __ge__(self, o):
        a, b = self._cmpv(o)
        return a >= b

    def __bool__(self):
        return bool(self.num != 0)

    def __hash__(self):
        return hash(float(self))

    def __float__(self):
        n = self.num.concretize(16) if type(self.num) is SymInt else self.num
        return n / self.den

    def __truediv__(self, o):
        return SymFloat.from_any(self) / o

    def __rtruediv__(self, o):
        return SymFloat.from_any(o) / self

    def __floordiv__(self, o):
        return SymFloat.from_any(self) // o

    def __mod__(self, o):
        return SymFloat.from_any(self) % o

    def __divmod__(self, o):
        return divmod(SymFloat.from_any(self), o)

    def __repr__(self):
        return "<symbolic float>"

    __str__ = __repr__

    def __format__(self, _s):
        return "<symbolic float>"


# --------------------------------------------------------------------------------- floats
F64 = z3.Float64()
RNE = z3.RNE()


FSORT = {16: (z3.Float16(), 5, 10), 32: (z3.Float32(), 8, 23), 64: (z3.Float64(), 11, 52)}


class SymMono(SymBase):
    """f(n) for a symbolic integer n and a monotone function to doubles, such as math.log2.

    Every use as an integer or in a comparison splits on the ranges of n that give the same result,
    found by bisection with the real function, so the answer is exact if f is monotone.
    """
    __slots__ = ("n", "f", "up")

    def __init__(self, n, f, up=True):
        self.n, self.f, self.up = n, f, up

    @property
    def __class__(self):
        return float

    def _edge(self, g, lo, hi, k):
        """Largest x in lo..hi with g(x) == k, where g(lo) == k."""
        while lo < hi:
            mid = (lo + hi + 1) // 2
            if g(mid) == k:
                lo = mid
            else:
                hi = mid - 1
        return lo

    def _split(self, g, limit=400):
        """The value of g(n), for g a step function; forks over its feasible values."""
        n = self.n
        w, signed = n.t.size(), n.lo < 0

        def to_py(v):
            return g(v.as_signed_long() if signed else v.as_long())

        def mk_eq(k):
            lo, hi = n.lo, n.hi
            # first x with g(x) == k: g is monotone, so bisect on the order of the values
            def before(x):
                return g(x) < k if self.up else g(x) > k
            a, b = lo, hi
            while a < b:
                mid = (a + b) // 2
                if before(mid):
                    a = mid + 1
                else:
                    b = mid
            c = self._edge(g, a, hi, k)
            ge, le = (lambda x, y: x >= y, lambda x, y: x <= y) if signed else (z3.UGE, z3.ULE)
            return z3.And(ge(n.t, z3.BitVecVal(a, w)), le(n.t, z3.BitVecVal(c, w)))
        return core.engine().pick_value(n.t, to_py, mk_eq, limit, "value of a real function")

    def __trunc__(self):
        return self._split(lambda x: math.trunc(self.f(x)))

    __int__ = __trunc__

    def __floor__(self):
        return self._split(lambda x: math.floor(self.f(x)))

    def __ceil__(self):
        return self._split(lambda x: math.ceil(self.f(x)))

    def __round__(self, n=None):
        return self._split(lambda x: round(self.f(x), n))

    def is_integer(self):
        return float(self).is_integer()

    def __bool__(self):
        return self != 0

    def __float__(self):
        return self.f(self.n.concretize(8))

    def __hash__(self):
        return hash(float(self))

    def __repr__(self):
        return "<symbolic real>"

    def __format__(self, _s):
        return "<symbolic real>"

    def _op(self, o, g, flip=False):
        """A monotone function of this value and a concrete number."""
        if type(o) in SYM_TYPES:
            return None
        f = self.f
        return SymMono(self.n, lambda x: g(f(x), o), self.up != flip)

    def _or_float(self, o, g, flip=False):
        r = self._op(o, g, flip)
        return r if r is not None else g(float(self), o)

    def __add__(self, o):
        return self._or_float(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._or_float(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._or_float(o, lambda a, b: b - a, True)

    def __mul__(self, o):
        return self._or_float(o, lambda a, b: a * b, type(o) not in SYM_TYPES and o < 0)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._or_float(o, lambda a, b: a / b, type(o) not in SYM_TYPES and o < 0)

    def __rtruediv__(self, o):
        return o / float(self)

    def __floordiv__(self, o):
        if type(o) in SYM_TYPES:
            return float(self) // o
        up = self.up if o > 0 else not self.up
        f = self.f
        return SymMono(self.n, f, self.up)._with(up)._split(lambda x: f(x) // o)

    def _with(self, up):
        self.up = up
        return self

    def __mod__(self, o):
        return float(self) % o

    def __divmod__(self, o):
        return divmod(float(self), o)

    def __pow__(self, o):
        return float(self) ** o

    def __neg__(self):
        f = self.f
        return SymMono(self.n, lambda x: -f(x), not self.up)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def _cmp(self, o, g):
        if type(o) in SYM_TYPES:
            o = float(o)
        up = self.up
        f = self.f
        # -1, 0 or 1: a step function with the direction of f
        k = SymMono(self.n, f, up)._split(lambda x: (f(x) > o) - (f(x) < o))
        return g(k)

    def __eq__(self, o):
        return self._cmp(o, lambda k: k == 0)

    def __ne__(self, o):
        return self._cmp(o, lambda k: k != 0)

    def __lt__(self, o):
        return self._cmp(o, lambda k: k < 0)

    def __le__(self, o):
        return self._cmp(o, lambda k: k <= 0)

    def __gt__(self, o):
        return self._cmp(o, lambda k: k > 0)

    def __ge__(self, o):
        return self._cmp(o, lambda k: k >= 0)


def _bits_nan(w, b):
    e, m = FSORT[w][1:]
    return z3.UGT(b & z3.BitVecVal((1 << (w - 1)) - 1, w), z3.BitVecVal(((1 << e) - 1) << m, w))


class SymFloat(SymBase):
    """A double, as its 64 bits (so that NaN payloads are carried) and as a z3 FP term."""
    __slots__ = ("_fp", "bits", "src")

    def __init__(self, fp, bits=None, src=None):
        self._fp = fp
        self.bits = bits
        self.src = src  # (width, bits): an IEEE pattern of that width which is exactly this number

    @property
    def fp(self):
        if self._fp is None:
            w, b = self.src
            fp = z3.fpBVToFP(b, FSORT[w][0])
            self._fp = fp if w == 64 else z3.fpFPToFP(RNE, fp, F64)
        return self._fp

    @classmethod
    def from_bits(cls, bits):
        """The double that an IEEE pattern of 16, 32 or 64 bits encodes."""
        w = bits.size()
        return cls(None, bits if w == 64 else None, (w, bits))

    def _pattern(self, w):
        """This number as a pattern of width w, if it is known to be exactly one."""
        if self.src is not None:
            return self.src[1] if self.src[0] == w else None
        return None

    @classmethod
    def from_any(cls, x):
        if type(x) is SymFloat:
            return x
        if type(x) is SymFrac:
            c = x.small()
            if c is not None:
                return cls(z3.FPVal(c, F64))
            n = cls.from_any(x.num)
            return n if x.den == 1 else n / float(x.den)
        if type(x) is SymBool:
            x = x._int()
        if type(x) is SymInt:
            if x.lo < 0:
                return cls(z3.fpSignedToFP(RNE, x.t, F64))
            return cls(z3.fpUnsignedToFP(RNE, x.t, F64))
        return cls(z3.FPVal(float(x), F64))

    @property
    def __class__(self):
        return float

    def get_bits(self):
        if self.bits is None:
            self.bits = z3.fpToIEEEBV(self.fp)
        return self.bits

    def _b(self, o, f, rev=False):
        if type(o) not in (int, float, bool, SymInt, SymBool, SymFloat, SymFrac):
            return NotImplemented
        o = SymFloat.from_any(o)
        return SymFloat(f(RNE, o.fp, self.fp) if rev else f(RNE, self.fp, o.fp))

    def __add__(self, o):
        return self._b(o, z3.fpAdd)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, z3.fpSub)

    def __rsub__(self, o):
        return self._b(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._b(o, z3.fpMul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) in (int, float, SymInt, SymFloat) and bool(SymFloat.from_any(o) == 0.0):
            raise ZeroDivisionError("float division by zero")
        return self._b(o, z3.fpDiv)

    def __rtruediv__(self, o):
        return SymFloat.from_any(o).__truediv__(self)

    def __divmod__(self, o):
        if type(o) in (int, float) and o == 1:
            f = SymFloat(z3.fpRoundToIntegral(z3.RTN(), self.fp))
            return f, self - f
        return divmod(self.concretize(), concretize_deep(o))

    def __floordiv__(self, o):
        return self.__divmod__(o)[0]

    def __mod__(self, o):
        return self.__divmod__(o)[1]

    def __neg__(self):
        return SymFloat(z3.fpNeg(self.fp))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.fpAbs(self.fp))

    def _cmp(self, o, f):
        if type(o) not in (int, float, bool, SymInt, SymBool, SymFloat, SymFrac):
            return NotImplemented
        o = SymFloat.from_any(o)
        if f is z3.fpEQ and self.src is not None and o.src is not None and self.src[0] == o.src[0]:
            w, a = self.src
            b = o.src[1]
            z = z3.BitVecVal((1 << (w - 1)) - 1, w)
            return mk_bool(z3.And(z3.Not(_bits_nan(w, a)), z3.Not(_bits_nan(w, b)),
                                  z3.Or(a == b, (a | b) & z == 0)))
        return mk_bool(f(self.fp, o.fp))

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        r = self._cmp(o, z3.fpEQ)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __bool__(self):
        return core.engine().decide(z3.Not(z3.fpIsZero(self.fp)))

    def isnan(self):
        return mk_bool(_bits_nan(*self.src) if self.src is not None else z3.fpIsNaN(self.fp))

    def isinf(self):
        if self.src is not None:
            w, b = self.src
            e, m = FSORT[w][1:]
            return mk_bool(b & z3.BitVecVal((1 << (w - 1)) - 1, w) == z3.BitVecVal(((1 << e) - 1) << m, w))
        return mk_bool(z3.fpIsInf(self.fp))

    def identical(self, o):
        """Same sign and value; any NaN is identical to any NaN."""
        if self.src is not None and o.src is not None and self.src[0] == o.src[0]:
            w, a = self.src
            b = o.src[1]
            return mk_bool(z3.Or(a == b, z3.And(_bits_nan(w, a), _bits_nan(w, b))))
        return mk_bool(self.fp == o.fp)

    def narrow(self, w):
        """(nearest pattern of width w, did a finite number overflow): NaN payloads are unspecified."""
        p = self._pattern(w)
        if p is not None:
            return p, False
        if w == 64:
            return self.get_bits(), False
        y = z3.fpFPToFP(RNE, self.fp, FSORT[w][0])
        return z3.fpToIEEEBV(y), mk_bool(z3.And(z3.fpIsInf(y), z3.Not(z3.fpIsInf(self.fp))))

    def is_integer(self):
        return mk_bool(z3.And(z3.Not(z3.fpIsNaN(self.fp)), z3.Not(z3.fpIsInf(self.fp)),
                              z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), self.fp), self.fp)))

    def concretize(self, limit=6):
        import struct
        bits = self.get_bits()
        v = core.engine().pick_value(bits, lambda m: m.as_long(), lambda v: bits == z3.BitVecVal(v, 64), limit, "float")
        return struct.unpack("<d", v.to_bytes(8, "little"))[0]

    def _to_int(self, rm):
        if bool(self.isnan()):
            raise ValueError("cannot convert float NaN to integer")
        if bool(self.isinf()):
            raise OverflowError("cannot convert float infinity to integer")
        w = 80
        if bool(abs(self) < 2.0 ** 78):
            return mk_int(z3.fpToSBV(rm, self.fp, z3.BitVecSort(w)), -(1 << 79), (1 << 79) - 1)
        return int(self.concretize())

    def __trunc__(self):
        return self._to_int(z3.RTZ())

    def __floor__(self):
        return self._to_int(z3.RTN())

    def __ceil__(self):
        return self._to_int(z3.RTP())

    def __round__(self, n=None):
        if n is not None:
            return round(self.concretize(), n)
        return self._to_int(RNE)

    def modf(self):
        """(fraction, integral part) of a finite value, as C's modf."""
        ip = SymFloat(z3.fpRoundToIntegral(z3.RTZ(), self.fp))
        return self - ip, ip

    def __float__(self):
        return self.concretize()

    def __int__(self):
        return self.__trunc__()

    def __hash__(self):
        return hash(self.concretize())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.concretize(), name)

    def __repr__(self):
        return "<symbolic float>"

    __str__ = __repr__

    def __format__(self, _s):
        return "<symbolic float>"


# ---------------------------------------------------------------------------------- bytes
def bterm(e):
    """8-bit term of a byte element."""
    if type(e) is int:
        return z3.BitVecVal(e, 8)
    return _fit(e.t, False, 8)


def denotes(elems, signed, value):
    """Remember on this path that the big-endian bytes `elems` denote `value`."""
    ts = [bterm(e) for e in elems]
    core.engine().known[tuple(t.get_id() for t in ts), signed] = value, ts


def denoted(elems, signed):
    """The integer known to be denoted by the big-endian bytes, or None."""
    known = core.engine().known
    if not known:
        return None
    r = known.get((tuple(bterm(e).get_id() for e in elems), signed))
    return r and r[0]


def mk_bytes(elems):
    """bytes when everything is concrete, SymBytes otherwise."""
    for e in elems:
        if type(e) is not int:
            return SymBytes(list(elems))
    return bytes(elems)


def bytes_elems(x):
    """Elements of a bytes-like object, or None."""
    tx = type(x)
    if tx is SymBytes or tx is SymByteArray:
        return x.e
    if tx is bytes or tx is bytearray:
        return list(x)
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if tx is memoryview:
        return list(x.tobytes())
    if tx is SymMemoryView:
        return x.elems()
    return None


def elems_eq(a, b):
    """Elementwise equality of two equally long element lists."""
    return sym_and([x == y for x, y in zip(a, b)])


def _norm_slice(n, s):
    def f(x):
        return x if x is None or type(x) is int else x.__index__()
    return slice(f(s.start), f(s.stop), f(s.step)).indices(n)


class _Seq(SymBase):
    """Shared immutable sequence behaviour; subclasses define _mk and _coerce."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return len(self.e) > 0

    def __getitem__(self, i):
        if type(i) is slice:
            return self._mk([self.e[k] for k in range(*_norm_slice(len(self.e), i))])
        if type(i) is not int:
            i = i.__index__()
        return self._item(self.e[i])

    def __iter__(self):
        for x in list(self.e):
            yield self._item(x)

    def __reversed__(self):
        for x in reversed(list(self.e)):
            yield self._item(x)

    def __add__(self, o):
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        return self._mk(list(self.e) + list(b))

    def __radd__(self, o):
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        return self._mk(list(b) + list(self.e))

    def __mul__(self, n):
        if type(n) is not int:
            n = n.__index__()
        return self._mk(list(self.e) * max(n, 0))

    __rmul__ = __mul__

    def __eq__(self, o):
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        if len(b) != len(self.e):
            return False
        return elems_eq(self.e, b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def _lex(self, o, strict):
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        a = self.e
        n = min(len(a), len(b))
        r = len(a) < len(b) if strict else len(a) <= len(b)
        for i in range(n - 1, -1, -1):
            r = sym_or([a[i] < b[i], sym_and([a[i] == b[i], r])])
        return r

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        r = self._lex(o, False)
        return r if r is NotImplemented else sym_not(r)

    def __ge__(self, o):
        r = self._lex(o, True)
        return r if r is NotImplemented else sym_not(r)

    def __contains__(self, x):
        if not self.is_text and (type(x) in (int, SymInt, SymBool)):
            return bool(sym_or([e == x for e in self.e]))
        return self.find(x) >= 0

    # -- searching (forks per position)
    def _range(self, start, end):
        s, e, _ = _norm_slice(len(self.e), slice(start, end))
        return s, e

    def _needle(self, x):
        if not self.is_text and type(x) in (int, SymInt):
            return [x]
        b = self._coerce(x)
        if b is None:
            raise TypeError("argument should be a compatible sequence")
        return list(b)

    def _match(self, i, b):
        return elems_eq(self.e[i:i + len(b)], b)

    def find(self, x, start=None, end=None):
        b = self._needle(x)
        s, e = self._range(start, end)
        for i in range(s, e - len(b) + 1):
            if bool(self._match(i, b)):
                return i
        return -1

    def rfind(self, x, start=None, end=None):
        b = self._needle(x)
        s, e = self._range(start, end)
        for i in range(e - len(b), s - 1, -1):
            if bool(self._match(i, b)):
                return i
        return -1

    def index(self, x, start=None, end=None):
        i = self.find(x, start, end)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def rindex(self, x, start=None, end=None):
        i = self.rfind(x, start, end)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def count(self, x, start=None, end=None):
        b = self._needle(x)
        s, e = self._range(start, end)
        if not b:
            return max(0, e - s + 1)
        n, i = 0, s
        while i <= e - len(b):
            if bool(self._match(i, b)):
                n += 1
                i += len(b)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return any(self.startswith(q, start, end) for q in p)
        s, e = self._range(start, end)
        b = self._needle(p)
        if e - s < len(b):
            return False
        return elems_eq(self.e[s:s + len(b)], b)

    def endswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return any(self.endswith(q, start, end) for q in p)
        s, e = self._range(start, end)
        b = self._needle(p)
        if e - s < len(b):
            return False
        return elems_eq(self.e[e - len(b):e], b)

    def removeprefix(self, p):
        return self[len(p):] if bool(self.startswith(p)) else self[:]

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and bool(self.endswith(p)) else self[:]

    def _strip_set(self, chars):
        if chars is None:
            return [9, 10, 11, 12, 13, 32] + ([28, 29, 30, 31, 0x85, 0xA0] if self.is_text else [])
        return self._needle(chars)

    def lstrip(self, chars=None):
        cs = self._strip_set(chars)
        i = 0
        while i < len(self.e) and bool(sym_or([self.e[i] == c for c in cs])):
            i += 1
        return self[i:]

    def rstrip(self, chars=None):
        cs = self._strip_set(chars)
        i = len(self.e)
        while i > 0 and bool(sym_or([self.e[i - 1] == c for c in cs])):
            i -= 1
        return self[:i]

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self[:], self._mk([]), self._mk([])
        return self[:i], self._mk(self._needle(sep)), self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self._mk([]), self._mk([]), self[:]
        return self[:i], self._mk(self._needle(sep)), self[i + len(sep):]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.concretize().split(None, maxsplit)
        out, start = [], 0
        while maxsplit != 0:
            i = self.find(sep, start)
            if i < 0:
                break
            out.append(self[start:i])
            start = i + len(sep)
            maxsplit -= 1
        out.append(self[start:])
        return out

    def replace(self, old, new, count=-1):
        o, n = self._needle(old), self._needle(new)
        if not o:
            return self.concretize().replace(old, new, count)
        out, i = [], 0
        while i < len(self.e):
            if count != 0 and i + len(o) <= len(self.e) and bool(self._match(i, o)):
                out += n
                i += len(o)
                count -= 1
            else:
                out.append(self.e[i])
                i += 1
        return self._mk(out)

    def _fill(self, fill):
        if fill is None:
            return 32
        return self._needle(fill)[0]

    def ljust(self, width, fill=None):
        return self._mk(list(self.e) + [self._fill(fill)] * max(0, width - len(self.e)))

    def rjust(self, width, fill=None):
        return self._mk([self._fill(fill)] * max(0, width - len(self.e)) + list(self.e))

    def join(self, items):
        out = []
        for k, it in enumerate(items):
            if k:
                out += self.e
            b = self._coerce(it)
            if b is None:
                raise TypeError("sequence item %d: wrong type" % k)
            out += b
        return self._mk(out)

    def __hash__(self):
        return hash(self.concretize())

    def __repr__(self):
        return "<symbolic %s of %d>" % ("str" if self.is_text else "bytes", len(self.e))

    __str__ = __repr__

    def __format__(self, _s):
        return repr(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        # a method without a symbolic model: fall back to concrete values
        if not hasattr(self.__class__, name):
            raise AttributeError(name)

        def call(*a, **k):
            return getattr(self.concretize(), name)(*[concretize_deep(x) for x in a],
                                                    **{q: concretize_deep(v) for q, v in k.items()})
        return call


class SymBytes(_Seq):
    __slots__ = ()
    is_text = False

    @property
    def __class__(self):
        return bytes

    @staticmethod
    def _mk(e):
        return mk_bytes(e)

    @staticmethod
    def _coerce(o):
        return bytes_elems(o)

    @staticmethod
    def _item(x):
        return x

    def concretize(self, limit=4):
        eng = core.engine()
        terms = [(i, x) for i, x in enumerate(self.e) if type(x) is not int]
        if not terms:
            return bytes(self.e)

        def to_py(m):
            return tuple(m.eval(bterm(x), model_completion=True).as_long() for _, x in terms)

        def mk_eq(v):
            return z3.And(*[bterm(x) == z3.BitVecVal(b, 8) for (_, x), b in zip(terms, v)])

        if len(terms) == 1:
            limit = 256
        v = eng.pick_value(None, to_py, mk_eq, limit, "bytes")
        out = list(self.e)
        for (i, _), b in zip(terms, v):
            out[i] = b
        return bytes(out)

    def __bytes__(self):
        return self.concretize()

    def __buffer__(self, flags):
        return memoryview(self.concretize())

    def decode(self, encoding="utf-8", errors="strict"):
        from . import textmodel
        return textmodel.decode(self, encoding, errors)

    def hex(self, *a):
        if a:
            return self.concretize().hex(*a)
        out = []
        for x in self.e:
            for nib in (x >> 4, x & 15):
                out.append(hexdigit(nib))
        return mk_str(out)

    def tobytes(self):
        return self


def hexdigit(nib):
    """Code point of the lower-case hex digit of a 4-bit value."""
    if type(nib) is int:
        return ord("0123456789abcdef"[nib])
    t = _fit(nib.t, False, 7)
    return mk_int(z3.If(z3.ULT(t, 10), t + 48, t + 87), 48, 102)


class SymByteArray(_Seq):
    """bytearray: always used for bytearray() so that symbolic bytes can be stored in it."""
    __slots__ = ()
    is_text = False

    def __init__(self, e=()):
        self.e = list(e)

    @property
    def __class__(self):
        return bytearray

    @staticmethod
    def _mk(e):
        return SymByteArray(e)

    _coerce = staticmethod(bytes_elems)

    @staticmethod
    def _item(x):
        return x

    def __copy__(self):
        return SymByteArray(self.e)

    def __deepcopy__(self, _m):
        return SymByteArray(self.e)

    def copy(self):
        return SymByteArray(self.e)

    @staticmethod
    def _byte(v):
        if type(v) in (SymInt, SymBool):
            if type(v) is SymBool:
                v = v._int()
            if v.lo < 0 or v.hi > 255:
                if bool(sym_or([v < 0, v > 255])):
                    raise ValueError("byte must be in range(0, 256)")
                v = mk_int(v.t, 0, 255)
            return v
        if type(v) is not int:
            v = v.__index__()
        if not 0 <= v <= 255:
            raise ValueError("byte must be in range(0, 256)")
        return v

    def __setitem__(self, i, v):
        if type(i) is slice:
            b = bytes_elems(v)
            if b is None:
                b = [self._byte(x) for x in v]
            s = _norm_slice(len(self.e), i)
            if i.step is None:
                self.e[s[0]:max(s[0], s[1])] = b
            else:
                self.e[slice(*s)] = b
            return
        if type(i) is not int:
            i = i.__index__()
        self.e[i] = self._byte(v)

    def __delitem__(self, i):
        if type(i) is slice:
            s = _norm_slice(len(self.e), i)
            for k in sorted(range(*s), reverse=True):
                del self.e[k]
            return
        del self.e[i if type(i) is int else i.__index__()]

    def append(self, v):
        self.e.append(self._byte(v))

    def insert(self, i, v):
        self.e.insert(i, self._byte(v))

    def extend(self, it):
        b = bytes_elems(it)
        self.e.extend(b if b is not None else [self._byte(x) for x in it])

    def __iadd__(self, it):
        b = bytes_elems(it)
        if b is None:
            raise TypeError("can't concat to bytearray")
        self.e.extend(b)
        return self

    def __imul__(self, n):
        self.e *= n if type(n) is int else n.__index__()
        return self

    def pop(self, i=-1):
        return self.e.pop(i)

    def reverse(self):
        self.e.reverse()

    def clear(self):
        self.e.clear()

    def remove(self, v):
        del self.e[self.index(v)]

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")

    def concretize(self, limit=4):
        b = mk_bytes(self.e)
        return bytearray(b if type(b) is bytes else b.concretize(limit))

    def __bytes__(self):
        return bytes(self.concretize())

    def __buffer__(self, flags):
        return memoryview(bytes(self.concretize()))

    def decode(self, encoding="utf-8", errors="strict"):
        return to_bytes_value(self).decode(encoding, errors)

    def hex(self, *a):
        return to_bytes_value(self).hex(*a)


def to_bytes_value(x):
    return mk_bytes(bytes_elems(x))


class SymMemoryView(SymBase):
    """memoryview over a (possibly symbolic) byte sequence; writes go through to a bytearray."""
    __slots__ = ("base", "lo", "hi")

    def __init__(self, base, lo=0, hi=None):
        self.base, self.lo = base, lo
        self.hi = len(base) if hi is None else hi

    @property
    def __class__(self):
        return memoryview

    def elems(self):
        return bytes_elems(self.base)[self.lo:self.hi]

    def __len__(self):
        return self.hi - self.lo

    nbytes = property(lambda self: self.hi - self.lo)
    readonly = property(lambda self: type(self.base) is not SymByteArray)

    def __getitem__(self, i):
        if type(i) is slice:
            s, e, st = _norm_slice(len(self), i)
            if st == 1:
                return SymMemoryView(self.base, self.lo + s, self.lo + max(s, e))
            return SymMemoryView(mk_bytes(self.elems()[s:e:st]))
        return self.elems()[i if type(i) is int else i.__index__()]

    def __setitem__(self, i, v):
        if self.readonly:
            raise TypeError("cannot modify read-only memory")
        if type(i) is slice:
            s, e, st = _norm_slice(len(self), i)
            self.base[self.lo + s:self.lo + e] = v
        else:
            self.base[self.lo + i] = v

    def __iter__(self):
        return iter(self.elems())

    def __eq__(self, o):
        b = bytes_elems(o)
        if b is None:
            return NotImplemented
        return len(b) == len(self) and elems_eq(self.elems(), b)

    def __hash__(self):
        return hash(mk_bytes(self.elems()))

    def tobytes(self, *_):
        return mk_bytes(self.elems())

    def hex(self):
        return self.tobytes().hex()

    def tolist(self):
        return list(self.elems())

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def __buffer__(self, flags):
        return memoryview(bytes(concretize_deep(self.tobytes())))


# ----------------------------------------------------------------------------------- text
MAXCP = 0x10FFFF


def mk_str(elems):
    for e in elems:
        if type(e) is not int:
            return SymStr(list(elems))
    return "".join(map(chr, elems))


def str_elems(x):
    tx = type(x)
    if tx is SymStr:
        return x.e
    if tx is str or isinstance(x, str):
        return [ord(c) for c in x]
    return None


class SymStr(_Seq):
    __slots__ = ()
    is_text = True

    @property
    def __class__(self):
        return str

    @staticmethod
    def _mk(e):
        return mk_str(e)

    @staticmethod
    def _coerce(o):
        return str_elems(o)

    @staticmethod
    def _item(x):
        return mk_str([x])

    def concretize(self, limit=4):
        eng = core.engine()
        terms = [(i, x) for i, x in enumerate(self.e) if type(x) is not int]
        if not terms:
            return "".join(map(chr, self.e))

        def to_py(m):
            return tuple(m.eval(x.t, model_completion=True).as_long() for _, x in terms)

        def mk_eq(v):
            return z3.And(*[x.t == z3.BitVecVal(b, x.t.size()) for (_, x), b in zip(terms, v)])

        if len(terms) == 1:
            limit = 130
        v = eng.pick_value(None, to_py, mk_eq, limit, "text")
        out = list(self.e)
        for (i, _), b in zip(terms, v):
            out[i] = b
        return "".join(map(chr, out))

    def encode(self, encoding="utf-8", errors="strict"):
        from . import textmodel
        return textmodel.encode(self, encoding, errors)

    def isascii(self):
        return sym_and([e < 128 for e in self.e])

    def __mod__(self, o):
        return self.concretize() % o

    def lower(self):
        return self._case(65, 90, 32, "lower")

    def upper(self):
        return self._case(97, 122, -32, "upper")

    def _case(self, a, b, d, name):
        if not bool(self.isascii()):
            return getattr(self.concretize(), name)()
        out = []
        for e in self.e:
            if type(e) is int:
                out.append(ord(getattr(chr(e), name)()))
            else:
                t = _fit(e.t, False, 8)
                out.append(mk_int(z3.If(z3.And(z3.UGE(t, a), z3.ULE(t, b)), t + d, t), 0, 127))
        return mk_str(out)


# ------------------------------------------------------------------------ deep conversions
def concretize_deep(x):
    """Replace every symbolic value in x by a concrete one (forks)."""
    if type(x) in SYM_TYPES:
        if type(x) is SymBool:
            return bool(x)
        if hasattr(type(x), "concretize"):
            return x.concretize()
        if type(x) in (SymFrac, SymMono):
            return float(x)
        if type(x) is SymMemoryView:
            return memoryview(bytes(concretize_deep(x.tobytes())))
        return x
    t = type(x)
    if t is list:
        return [concretize_deep(y) for y in x]
    if t is tuple:
        return tuple(concretize_deep(y) for y in x)
    if t is dict:
        return {k: concretize_deep(v) for k, v in x.items()}
    return x


def contains_sym(x, depth=3):
    if type(x) in SYM_TYPES:
        return True
    if depth:
        t = type(x)
        if t in (list, tuple, set, frozenset):
            return any(contains_sym(y, depth - 1) for y in x)
        if t is dict:
            return any(contains_sym(y, depth - 1) for y in x.values())
    return False


SYM_TYPES = {SymInt, SymBool, SymBytes, SymByteArray, SymStr, SymFloat, SymFrac, SymMono, SymMemoryView}
