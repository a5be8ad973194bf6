"""The interface harnesses are written against, in its symbolic and its concrete form.

A harness is an ordinary function `case(rt, cfg)`.  Executed with SymRT its inputs are symbolic;
executed with ConcreteRT they are the values of a counterexample or of a sampled path.
"""
from __future__ import annotations

import datetime
import os
import struct
import time
import uuid


class HarnessFail(Exception):
    """A harness assertion failed (concrete mode)."""


class AssumeFalse(BaseException):
    """The concrete inputs violate an assumption of the harness."""


CASES = {}


def case(cfgs=(None,), thorough=None, name=None, obligations=None):
    """Register a harness.  cfgs: list of configurations, one job each."""
    def deco(f):
        mod = CASES.setdefault(f.__module__, {})
        mod[name or f.__name__] = (f, list(cfgs), list(thorough) if thorough is not None else None)
        return f
    return deco


class BaseRT:
    tier = "quick"

    def local_zone(self, minutes):
        """From here to the end of the run, local time is this many minutes ahead of UTC."""
        os.environ["TZ"] = "VTZ%s%02d:%02d" % ("-" if minutes >= 0 else "+", abs(minutes) // 60, abs(minutes) % 60)
        time.tzset()
        assert time.timezone == -60 * minutes, time.timezone

    @staticmethod
    def _reset_zone():
        if os.environ.get("TZ") != "UTC":
            os.environ["TZ"] = "UTC"
            time.tzset()

    def bound(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    # -- derived assertions, shared by both modes
    def eq(self, a, b, msg):
        """a == b for every input."""
        try:
            r = a == b
        except Exception as e:  # noqa: BLE001
            return self.check(False, f"{msg}: comparison raised {type(e).__name__}")
        return self.check(r, msg)

    def fail(self, msg):
        self.check(False, msg)

    def raises(self, exc, fn, msg):
        """fn() raises one of exc; returns the exception."""
        try:
            r = fn()
        except exc as e:
            self.check(True, msg)
            return e
        except Exception as e:  # noqa: BLE001
            self.check(False, f"{msg}: raised {type(e).__name__} instead")
            return None
        self.check(False, f"{msg}: no error (result type {type(r).__name__})")
        return None

    def same(self, a, b, msg):
        """Same type family and equal (so that None/0/NOT_PRESENT are kept apart)."""
        for t in (bool, int, float, bytes, str, list, dict, uuid.UUID, datetime.datetime):
            if isinstance(b, t):
                self.check(isinstance(a, t), f"{msg}: wrong type")
                break
        else:
            if b is None:
                self.check(a is None, f"{msg}: not None")
                return
        self.eq(a, b, msg)


# ------------------------------------------------------------------------------- symbolic
class SymRT(BaseRT):
    symbolic = True

    def __init__(self, eng, tier):
        import z3
        from . import core, models, sym
        self.z3, self.E, self.core, self.models, self.sym = z3, eng, core, models, sym
        self.tier = tier
        self._reset_zone()

    class _In:
        def __init__(self, f):
            self.concrete = f

    def _reg(self, name, f):
        if name in self.E.inputs or name in self.E.choices:
            raise RuntimeError(f"input {name} declared twice")
        self.E.inputs[name] = self._In(f)

    def int(self, name, lo, hi):
        s = self.sym
        if lo == hi:
            return lo
        w = s.need_bits(lo, hi)
        t = self.z3.BitVec(f"{name}!{w}", w)
        v = s.SymInt(t, lo, hi)
        signed = lo < 0

        def conc(m):
            x = m.eval(t, model_completion=True)
            return x.as_signed_long() if signed else x.as_long()
        self._reg(name, conc)
        full = (lo, hi) == ((-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1))
        if not full:
            a, b = self.z3.BitVecVal(lo, w), self.z3.BitVecVal(hi, w)
            self.E.assume(self.z3.And(t >= a, t <= b) if signed else
                          self.z3.And(self.z3.UGE(t, a), self.z3.ULE(t, b)))
        return v

    def bytes(self, name, n):
        if n == 0:
            return b""
        ts = [self.z3.BitVec(f"{name}[{i}]", 8) for i in range(n)]
        self._reg(name, lambda m: bytes(m.eval(t, model_completion=True).as_long() for t in ts).hex())
        return self.sym.mk_bytes([self.sym.SymInt(t, 0, 255) for t in ts])

    def text(self, name, n, lo=0, hi=0x10FFFF, exclude=()):
        if n == 0:
            return ""
        z3, s = self.z3, self.sym
        w = s.need_bits(lo, hi)
        ts = [z3.BitVec(f"{name}[{i}]!{w}", w) for i in range(n)]
        self._reg(name, lambda m: [m.eval(t, model_completion=True).as_long() for t in ts])
        for t in ts:
            c = [z3.UGE(t, z3.BitVecVal(lo, w)), z3.ULE(t, z3.BitVecVal(hi, w))]
            if hi >= 0xD800 and lo <= 0xDFFF:
                c.append(z3.Not(z3.And(z3.UGE(t, z3.BitVecVal(0xD800, w)), z3.ULE(t, z3.BitVecVal(0xDFFF, w)))))
            for x in exclude:
                if lo <= x <= hi:
                    c.append(t != z3.BitVecVal(x, w))
            self.E.assume(z3.And(*c))
        return s.mk_str([s.SymInt(t, lo, hi) for t in ts])

    def bool(self, name):
        t = self.z3.Bool(name)
        self._reg(name, lambda m: self.z3.is_true(m.eval(t, model_completion=True)))
        return self.sym.SymBool(t)

    def float(self, name):
        bits = self.z3.BitVec(f"{name}!f64", 64)
        self._reg(name, lambda m: m.eval(bits, model_completion=True).as_long())
        return self.sym.SymFloat.from_bits(bits)

    def uuid(self, name):
        t = self.z3.BitVec(f"{name}!uuid", 128)
        self._reg(name, lambda m: m.eval(t, model_completion=True).as_long())
        return self.models.SymUUID(self.sym.SymInt(t, 0, (1 << 128) - 1))

    def datetime(self, name, lo_us, hi_us, tz):
        """A datetime whose UTC instant is lo_us..hi_us microseconds from the epoch."""
        v = self.int(name, lo_us, hi_us)
        return v, self.instant(v, tz)

    def instant(self, us, tz):
        m = self.models
        return m.SymDatetime.make(us + m.tz_fixed(tz), tz)

    def choice(self, name, options):
        options = list(options)
        k = self.E.choose(len(options)) if len(options) > 1 else 0
        if name in self.E.choices:
            raise RuntimeError(f"choice {name} declared twice")
        self.E.choices[name] = k
        return options[k]

    def assume(self, c):
        self.E.assume(self.sym.to_z3(c))

    def check(self, c, msg):
        self.E.check(self.sym.to_z3(c), msg)

    def denotes(self, data, n, endian, signed):
        """The bytes are the integer n: verified here, then used by the engine when reading them."""
        s = self.sym
        if type(n) is not s.SymInt or n.lin is None:
            return
        e = s.bytes_elems(data)
        e = e if endian == "big" else e[::-1]
        t = self.z3.Concat(*[s.bterm(x) for x in e]) if len(e) > 1 else s.bterm(e[0])
        w = 8 * len(e)
        v = s.mk_int(t, -(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else s.mk_int(t, 0, (1 << w) - 1)
        if self.E._check(s.to_z3(v != n)) == self.z3.unsat:
            s.denotes(e, signed, n)

    def holds(self, c):
        """Truth of a condition on this path (forks)."""
        return bool(c)

    def cover(self, name):
        self.E.stats.covers[name] = self.E.stats.covers.get(name, 0) + 1

    def observe(self, name, value):
        self.E.observed.append((name, value))

    def float_bits(self, x):
        """IEEE bits of a float as an integer (NaNs only compared by kind)."""
        s = self.sym
        if type(x) is s.SymFloat:
            return s.mk_int(x.get_bits(), 0, (1 << 64) - 1)
        if type(x) is s.SymFrac:
            raise self.core.PathIncomplete("bits of a fraction")
        return struct.unpack("<Q", struct.pack("<d", x))[0]

    def isnan(self, x):
        return x.isnan() if type(x) is self.sym.SymFloat else x != x

    def same_float(self, a, b):
        """Identical as IEEE values: same sign, infinities, zero sign; NaN equals NaN."""
        z3 = self.z3
        S = self.sym.SymFloat
        return S.from_any(a).identical(S.from_any(b))

    # reference IEEE conversion: nearest value of a narrower width, as raw bits
    def ieee_narrow(self, x, width):
        bits, over = self.sym.SymFloat.from_any(x).narrow(width)
        return self.sym.mk_int(bits, 0, (1 << width) - 1), over

    def ieee_widen(self, n, width):
        """The double that the low `width` bits of integer n encode."""
        if type(n) is not self.sym.SymInt:
            return struct.unpack({16: "<e", 32: "<f", 64: "<d"}[width], n.to_bytes(width // 8, "little"))[0]
        return self.sym.SymFloat.from_bits(self.sym._fit(n.t, False, width))

    def concrete_of(self, v, model):
        return concretise_under(v, model, self)


def concretise_under(v, m, rt):
    """JSON-able value of v under a model (for comparison with the real code's result)."""
    s, md, z3 = rt.sym, rt.models, rt.z3
    t = type(v)

    def iv(x):
        if type(x) is s.SymInt:
            y = m.eval(x.t, model_completion=True)
            return y.as_signed_long() if x.lo < 0 else y.as_long()
        if type(x) is s.SymBool:
            return bool(z3.is_true(m.eval(x.c, model_completion=True)))
        return x
    if t in (s.SymInt, s.SymBool):
        return iv(v)
    if t in (s.SymBytes, s.SymByteArray):
        return "hex:" + bytes(iv(x) for x in v.e).hex()
    if t is s.SymStr:
        return "".join(chr(iv(x)) for x in v.e)
    if t is md.SymUUID:
        return "uuid:%032x" % iv(v.int)
    if t is md.SymDatetime:
        return ["dt", iv(v.wall), str(v.tzinfo)]
    if t is s.SymFloat:
        if v.src is not None:
            w, b = v.src
            b = m.eval(b, model_completion=True)
            return norm_float(struct.unpack({16: "<e", 32: "<f", 64: "<d"}[w], b.as_long().to_bytes(w // 8, "little"))[0])
        if z3.is_true(m.eval(z3.fpIsNaN(v.fp), model_completion=True)):
            return "nan"
        b = m.eval(v.get_bits(), model_completion=True)
        return norm_float(struct.unpack("<d", b.as_long().to_bytes(8, "little"))[0]) if z3.is_bv_value(b) else None
    if t is s.SymFrac:
        return norm_float(iv(v.num) / v.den)
    if t in (list, tuple):
        return [concretise_under(x, m, rt) for x in v]
    if t is dict:
        return {str(k): concretise_under(x, m, rt) for k, x in v.items()}
    return plain(v)


def norm_float(x):
    return "nan" if x != x else x.hex()


def plain(v):
    """JSON-able form of a concrete value."""
    if v is None or isinstance(v, (bool, int, str)) and not hasattr(v, "token"):
        return v
    if isinstance(v, (bytes, bytearray)):
        return "hex:" + bytes(v).hex()
    if isinstance(v, float):
        return norm_float(v)
    if isinstance(v, uuid.UUID):
        return "uuid:%032x" % v.int
    if isinstance(v, datetime.datetime):
        us = (v.replace(tzinfo=None) - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1)
        return ["dt", us, str(v.tzinfo)]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    return type(v).__name__


# ------------------------------------------------------------------------------- concrete
class ConcreteRT(BaseRT):
    symbolic = False

    def __init__(self, inputs, choices, tier="quick"):
        self.inputs, self.choices, self.tier = inputs, choices, tier
        self.observed = []
        self._reset_zone()

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self._get(name, lo)
        if not lo <= v <= hi:
            raise AssumeFalse()
        return v

    def bytes(self, name, n):
        if n == 0:
            return b""
        b = bytes.fromhex(self._get(name, "00" * n))
        if len(b) != n:
            raise AssumeFalse()
        return b

    def text(self, name, n, lo=0, hi=0x10FFFF, exclude=()):
        if n == 0:
            return ""
        cps = self._get(name, [lo] * n)
        if len(cps) != n or any(not lo <= c <= hi or 0xD800 <= c <= 0xDFFF or c in exclude for c in cps):
            raise AssumeFalse()
        return "".join(map(chr, cps))

    def bool(self, name):
        return bool(self._get(name, False))

    def float(self, name):
        return struct.unpack("<d", self._get(name, 0).to_bytes(8, "little"))[0]

    def uuid(self, name):
        return uuid.UUID(int=self._get(name, 0))

    def datetime(self, name, lo_us, hi_us, tz):
        v = self.int(name, lo_us, hi_us)
        return v, self.instant(v, tz)

    def instant(self, us, tz):
        off = -time.timezone * 10**6 if tz is None else tz.utcoffset(None) // datetime.timedelta(microseconds=1)
        return (datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=us + off)).replace(tzinfo=tz)

    def choice(self, name, options):
        options = list(options)
        return options[self.choices.get(name, 0)]

    def assume(self, c):
        if not c:
            raise AssumeFalse()

    def check(self, c, msg):
        if not c:
            raise HarnessFail(msg)

    def denotes(self, data, n, endian, signed):
        pass

    def holds(self, c):
        return bool(c)

    def cover(self, name):
        pass

    def observe(self, name, value):
        self.observed.append((name, plain(value)))

    def float_bits(self, x):
        return struct.unpack("<Q", struct.pack("<d", x))[0]

    def isnan(self, x):
        return x != x

    def same_float(self, a, b):
        return norm_float(float(a)) == norm_float(float(b))

    def ieee_narrow(self, x, width):
        code = {16: "e", 32: "f", 64: "d"}[width]
        try:
            return int.from_bytes(struct.pack("<" + code, x), "little"), False
        except OverflowError:
            return 0, True

    def ieee_widen(self, n, width):
        return struct.unpack({16: "<e", 32: "<f", 64: "<d"}[width], n.to_bytes(width // 8, "little"))[0]
