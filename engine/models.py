"""The call dispatcher and the models of the C-implemented functions the code under test calls.

Every call expression of the rewritten modules arrives in `rt_call`.  Calls of Python functions go
straight through.  Calls of C functions go to a model when one exists and matters; C functions that
treat their arguments as opaque objects (containers, iterators) are called directly; anything else
that would receive a symbolic value gets concrete values instead (complete forking over small
domains, otherwise a few representatives, with the path reported as incomplete).
"""
from __future__ import annotations

import builtins
import codecs
import copy
import datetime
import functools
import io
import itertools
import math
import operator
import os
import struct
import time
import types
import uuid

import z3

from . import core, textmodel
from .sym import (denoted, RNE, SYM_TYPES, SymBase, SymBool, SymByteArray, SymBytes, SymFloat, SymFrac, SymInt, SymMemoryView, SymMono,
                  SymStr, bytes_elems, bterm, concretize_deep, contains_sym, hexdigit, mk_bool, mk_bytes, mk_int,
                  mk_str, need_bits, str_elems, sym_and, sym_not, sym_or, to_z3, _fit)

MODELS = {}          # callable -> model
METHOD_MODELS = {}   # (type, method name) -> model(self, *args)
REPLACED_TYPES = {}  # real type -> model class (for isinstance / construction)


def model(*targets):
    def deco(f):
        for t in targets:
            if isinstance(t, tuple):
                METHOD_MODELS[t] = f
            else:
                MODELS[t] = f
        return f
    return deco


# ----------------------------------------------------------------------------- dispatcher
_BUILTIN = types.BuiltinFunctionType           # also bound C methods
_MDESC = type(str.join)                        # method_descriptor
_WDESC = type(int.__add__)                     # wrapper_descriptor
_MWRAP = type((1).__add__)                     # method-wrapper
_CMDESC = type(dict.__dict__["fromkeys"])      # classmethod_descriptor
_PYFUNC = types.FunctionType
_PYMETH = types.MethodType
_PARTIAL = functools.partial

# receivers whose C methods treat arguments as opaque objects
_OPAQUE_SELF = (list, dict, tuple, set, frozenset, types.GeneratorType, type(iter([])), itertools.chain,
                types.MappingProxyType)
_OPAQUE_FUNCS = {
    len, iter, next, enumerate, zip, list, tuple, dict, set, frozenset, reversed, sorted, isinstance, issubclass,
    getattr, setattr, hasattr, delattr, id, print, repr, callable, sum, min, max, any, all, abs, divmod, pow, round,
    range, slice, hash, bool, vars, dir, property, classmethod, staticmethod, super, object, type, functools.reduce,
    functools.partial, copy.copy, copy.deepcopy, filter, map, object.__new__, object.__setattr__,
    object.__getattribute__, type.__call__, Exception, BaseException,
}
for _m in (operator, itertools):
    for _k in dir(_m):
        _v = getattr(_m, _k)
        if callable(_v) and not _k.startswith("__"):
            try:
                _OPAQUE_FUNCS.add(_v)
            except TypeError:
                pass
_OPAQUE_FUNCS.discard(operator.index)
_HEAPTYPE = 1 << 9


def rt_call(f, /, *args, **kw):
    eng = core.CUR
    if eng is None:
        return f(*args, **kw)
    eng.steps += 1
    if eng.steps > eng.max_steps:
        raise core.NonTermination(f"more than {eng.max_steps} calls on one path")
    tf = type(f)
    if tf is _PYFUNC:
        m = MODELS.get(f)
        return m(*args, **kw) if m is not None else f(*args, **kw)
    if tf is _PYMETH:
        m = MODELS.get(f.__func__)
        if m is not None:
            return m(f.__self__, *args, **kw)
        return f(*args, **kw)
    if tf is _PARTIAL:
        k2 = dict(f.keywords)
        k2.update(kw)
        return rt_call(f.func, *f.args, *args, **k2)
    if tf is _BUILTIN:
        self = f.__self__
        if self is None or type(self) is types.ModuleType:
            try:
                m = MODELS.get(f)
            except TypeError:
                m = None
            if m is not None:
                return m(*args, **kw)
        else:
            if isinstance(self, type):
                m = METHOD_MODELS.get((self, f.__name__))
                if m is None and self is not object:
                    for base in self.__mro__[1:-1]:
                        m = METHOD_MODELS.get((base, f.__name__))
                        if m is not None:
                            break
                if m is not None:
                    return m(*args, **kw)
                if f.__name__ in ("__new__",):
                    return f(*args, **kw)
            else:
                m = METHOD_MODELS.get((type(self), f.__name__))
                if m is not None:
                    return m(self, *args, **kw)
                if isinstance(self, _OPAQUE_SELF):
                    return f(*args, **kw)
    elif tf is _MDESC or tf is _WDESC:
        if args and type(args[0]) in SYM_TYPES:
            return rt_call(getattr(args[0], f.__name__), *args[1:], **kw)
        if args:
            m = METHOD_MODELS.get((f.__objclass__, f.__name__))
            if m is not None:
                return m(*args, **kw)
            if f.__objclass__ in (list, dict, tuple, set, frozenset, object, type):
                return f(*args, **kw)
    elif tf is _MWRAP:
        m = METHOD_MODELS.get((type(f.__self__), f.__name__))
        if m is not None:
            return m(f.__self__, *args, **kw)
        return f(*args, **kw)
    elif isinstance(f, type):
        try:
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kw)
        if f.__flags__ & _HEAPTYPE or issubclass(f, BaseException):
            return f(*args, **kw)
    elif isinstance(f, SymBase):
        raise TypeError("'%s' object is not callable" % f.__class__.__name__)
    elif tf.__flags__ & _HEAPTYPE:
        return f(*args, **kw)
    # a C callable without a model
    try:
        if f in _OPAQUE_FUNCS:
            return f(*args, **kw)
    except TypeError:
        pass
    if contains_sym(args) or (kw and contains_sym(kw)):
        return f(*[concretize_deep(a) for a in args], **{k: concretize_deep(v) for k, v in kw.items()})
    return f(*args, **kw)


def rt_in(a, b):
    """a in b"""
    if core.CUR is None:
        return a in b
    if type(a) in SYM_TYPES:
        tb = type(b)
        if tb in (str,) and type(a) is SymStr:
            return SymStr([ord(c) for c in b]).find(a) >= 0
        if tb in (bytes, bytearray):
            if type(a) in (SymInt, SymBool):
                return bool(sym_or([e == a for e in sorted(set(b))]))
            return SymBytes(list(b)).find(a) >= 0
        if tb in (list, tuple):
            return bool(_any_eq(a, b))
        if tb in (set, frozenset) or tb in (dict, type({}.keys())):
            return bool(_any_eq(a, list(b)))
        if tb is range and type(a) is SymInt:
            return _in_range(a, b)
    return a in b


def _any_eq(a, items):
    out = []
    for x in items:
        if x is a:
            return True
        r = a == x
        out.append(r if type(r) in (bool, SymBool) else bool(r))
    return sym_or(out)


def _in_range(a, r):
    if len(r) == 0:
        return False
    lo, hi = min(r[0], r[-1]), max(r[0], r[-1])
    c = sym_and([a >= lo, a <= hi])
    if abs(r.step) != 1:
        c = sym_and([c, (a - r[0]) % abs(r.step) == 0])
    return bool(c)


def rt_fstr(*parts):
    """f-string.  parts: str constants, or (value, conversion, spec)."""
    out = []
    symbolic = False
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if not spec and conv in (-1, ord("s")):
            v2 = to_text(v)
            if v2 is not None:
                symbolic = True
                out.append(v2)
                continue
        if conv == ord("r"):
            v = repr(v)
        elif conv == ord("s"):
            v = str(v)
        elif conv == ord("a"):
            v = ascii(v)
        if spec and type(v) is SymInt and spec in ("02x", "x", "032x", "08x", "04x", "b", "d"):
            r = _format_int(v, spec)
            if r is not None:
                out.append(r)
                symbolic = True
                continue
        out.append(format(v, spec))
    if not symbolic:
        return "".join(out)
    return join_text("", out)


def _format_int(v, spec):
    if spec.endswith("x") and v.lo >= 0 and spec != "x":
        n = int(spec[:-1])
        if v.hi < 16 ** n:
            return mk_str([hexdigit((v >> (4 * i)) & 15) for i in range(n - 1, -1, -1)])
    return None


def to_text(v):
    """str(v) for values whose text form is modelled, None otherwise."""
    if type(v) is SymStr:
        return v
    if type(v) is SymUUID:
        return v.text()
    return None


def join_text(sep, items):
    items = list(items)
    if any(type(x) is SymStr for x in items) or type(sep) is SymStr:
        return (SymStr(str_elems(sep))).join(items)
    return sep.join(items)


# ------------------------------------------------------------------------ basic builtins
@model(int)
def m_int(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        t = type(x)
        if t is SymInt:
            return x
        if t is SymBool:
            return x._int()
        if t in (SymFloat, SymFrac, SymMono):
            return x.__trunc__()
        if t in (SymStr, SymBytes, SymByteArray):
            return parse_int(x, 10)
        if t not in SYM_TYPES and not isinstance(x, (int, float, str, bytes)):
            for nm in ("__int__", "__index__", "__trunc__"):
                if hasattr(type(x), nm):
                    return getattr(x, nm)()
        return int(x)
    if args and type(args[0]) in (SymStr, SymBytes, SymByteArray):
        return parse_int(args[0], concretize_deep(kw.get("base", args[1] if len(args) > 1 else 10)))
    return int(*[concretize_deep(a) for a in args], **kw)


def parse_int(s, base):
    """int(text, base) for plain digit strings (no sign, prefix, space or underscore)."""
    e = list(s.e)
    if base not in (10, 16) or not e or len(e) > 64:
        return int(concretize_deep(s), base)
    val, ok = [], []
    for c in e:
        if type(c) is int:
            if chr(c).isascii() and chr(c).isalnum() and int(chr(c), 36) < base:
                val.append(int(chr(c), 36))
                continue
            return int(concretize_deep(s), base)
        dig = sym_and([c >= 48, c <= 57])
        parts = [dig]
        t = _fit(c.t, False, max(8, c.t.size()))
        v = t - 48
        if base == 16:
            parts += [sym_and([c >= 97, c <= 102]), sym_and([c >= 65, c <= 70])]
            v = z3.If(z3.UGE(t, 97), t - 87, z3.If(z3.UGE(t, 65), t - 55, t - 48))
        ok.append(sym_or(parts))
        val.append(mk_int(v, 0, base - 1))
    if not bool(sym_and(ok)):
        return int(concretize_deep(s), base)
    if base == 16:
        t = z3.Concat(*[_fit(_lift(v).t, False, 4) for v in val]) if len(val) > 1 else _fit(_lift(val[0]).t, False, 4)
        return mk_int(t, 0, 16 ** len(val) - 1)
    r = 0
    for v in val:
        r = r * 10 + v
    return r


def _lift(v):
    if type(v) is SymInt:
        return v
    v = int(v)
    return SymInt(z3.BitVecVal(v, need_bits(v, v)), v, v)


@model(float)
def m_float(x=0.0):
    if type(x) in (SymFloat, SymFrac, SymMono):
        return x
    if type(x) in (SymInt, SymBool):
        return SymFloat.from_any(x)
    return float(concretize_deep(x))


@model(bool)
def m_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return x != 0
    return bool(x)


@model(str)
def m_str(*args, **kw):
    if len(args) == 1 and not kw:
        t = to_text(args[0])
        if t is not None:
            return t
        return str(args[0])
    if args and type(args[0]) in (SymBytes, SymByteArray, SymMemoryView):
        return mk_bytes(bytes_elems(args[0])).decode(*args[1:], **kw)
    return str(*args, **kw)


@model(type)
def m_type(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if type(x) in SYM_TYPES or isinstance(x, (ModelBytesIO, ModelStringIO)):
            return x.__class__
        return type(x)
    return type(*args, **kw)


@model(len)
def m_len(x):
    return len(x)


@model(hash)
def m_hash(x):
    return hash(x)


@model(abs)
def m_abs(x):
    return abs(x)


@model(chr)
def m_chr(x):
    if type(x) is SymInt:
        if bool(sym_or([x < 0, x > 0x10FFFF])):
            raise ValueError("chr() arg not in range(0x110000)")
        return mk_str([mk_int(x.t, max(x.lo, 0), min(x.hi, 0x10FFFF))])
    return chr(x)


@model(ord)
def m_ord(x):
    if type(x) in (SymStr, SymBytes, SymByteArray):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return x.e[0]
    return ord(x)


@model(bytes)
def m_bytes(*args, **kw):
    if not args and not kw:
        return b""
    if len(args) == 1 and not kw:
        x = args[0]
        e = bytes_elems(x)
        if e is not None:
            return mk_bytes(e)
        if isinstance(x, str):
            raise TypeError("string argument without an encoding")
        if isinstance(x, int):
            n = x.__index__()
            if n < 0:
                raise ValueError("negative count")
            return bytes(n)
        b = getattr(type(x), "__bytes__", None)
        if b is not None:
            return b(x)
        if hasattr(type(x), "__iter__"):
            return mk_bytes([_byte(v) for v in x])
        return bytes(x)
    if args and type(args[0]) is SymStr:
        return args[0].encode(*args[1:], **kw)
    return bytes(*[concretize_deep(a) for a in args], **kw)


def _byte(v):
    if type(v) not in (int, SymInt, SymBool) and not hasattr(type(v), "__index__"):
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
    try:
        return SymByteArray._byte(v)
    except ValueError:
        raise ValueError("bytes must be in range(0, 256)") from None


@model(bytearray)
def m_bytearray(*args, **kw):
    r = m_bytes(*args, **kw)
    return SymByteArray(bytes_elems(r))


@model(memoryview)
def m_memoryview(x):
    if type(x) in (SymBytes, SymByteArray):
        return SymMemoryView(x)
    if type(x) is SymMemoryView:
        return x
    return memoryview(x)


@model((int, "from_bytes"))
def m_from_bytes(data, byteorder="big", *, signed=False):
    e = bytes_elems(data)
    if e is None:
        if isinstance(data, (str, int, float)) or not hasattr(type(data), "__iter__"):
            raise TypeError("cannot convert object to bytes")
        e = [_byte(v) for v in data]
    byteorder = concretize_deep(byteorder)
    if byteorder not in ("big", "little"):
        raise ValueError("byteorder must be either 'little' or 'big'")
    signed = bool(signed)
    if all(type(x) is int for x in e):
        return int.from_bytes(bytes(e), byteorder, signed=signed)
    if byteorder == "little":
        e = e[::-1]
    v = denoted(e, signed)
    if v is not None:
        return v
    t = z3.Concat(*[bterm(x) for x in e]) if len(e) > 1 else bterm(e[0])
    n = 8 * len(e)
    if signed:
        return mk_int(t, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return mk_int(t, 0, (1 << n) - 1)


@model((int, "to_bytes"))
def m_to_bytes(self, length=1, byteorder="big", *, signed=False):
    return int(self).to_bytes(concretize_deep(length), concretize_deep(byteorder), signed=bool(signed))


@model((bytes, "fromhex"), (bytearray, "fromhex"))
def m_fromhex(s):
    if type(s) is SymStr and len(s) % 2 == 0:
        v = parse_int(s, 16)
        if type(v) is SymInt or type(v) is int:
            return v.to_bytes(len(s) // 2, "big")
    return bytes.fromhex(concretize_deep(s))


@model((bytes, "join"), (bytearray, "join"))
def m_bytes_join(self, items):
    out = []
    for k, it in enumerate(items):
        if k:
            out += list(self)
        e = bytes_elems(it)
        if e is None:
            raise TypeError("sequence item %d: expected a bytes-like object, %s found" % (k, type(it).__name__))
        out += e
    return mk_bytes(out)


@model((str, "join"))
def m_str_join(self, items):
    items = list(items)
    for i, x in enumerate(items):
        if not isinstance(x, str):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
    return join_text(self, items)


@model((str, "format"))
def m_str_format(self, *args, **kw):
    return self.format(*args, **kw)


def _lift_seq_method(name):
    def m(self, *args, **kw):
        if contains_sym(args) or contains_sym(kw):
            lifted = SymStr([ord(c) for c in self]) if isinstance(self, str) else SymBytes(list(self))
            return getattr(lifted, name)(*args, **kw)
        return getattr(self, name)(*args, **kw)
    return m


for _n in ("startswith", "endswith", "find", "rfind", "index", "rindex", "count", "replace", "split", "partition",
           "rpartition", "strip", "lstrip", "rstrip", "ljust", "rjust", "removeprefix", "removesuffix", "__add__",
           "__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__contains__"):
    METHOD_MODELS[(bytes, _n)] = METHOD_MODELS[(str, _n)] = _lift_seq_method(_n)


@model((bytes, "__len__"), (str, "__len__"))
def m_seq_len(self):
    return len(self)


@model(map)
def m_map(f, *its):
    return (rt_call(f, *xs) for xs in zip(*its))


@model(filter)
def m_filter(f, it):
    return (x for x in it if (x if f is None else rt_call(f, x)))


@model(functools.reduce)
def m_reduce(f, it, *init):
    return functools.reduce(lambda a, b: rt_call(f, a, b), it, *init)


def _keyed(real):
    def m(*args, **kw):
        k = kw.get("key")
        if k is not None:
            kw = dict(kw, key=lambda x: rt_call(k, x))
        return real(*args, **kw)
    return m


for _f in (sorted, min, max):
    MODELS[_f] = _keyed(_f)


@model(iter)
def m_iter(*args):
    if len(args) == 2:
        f = args[0]
        return iter(lambda: rt_call(f), args[1])
    return iter(*args)


@model(sum)
def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


@model(all)
def m_all(it):
    for x in it:
        if not x:
            return False
    return True


@model(any)
def m_any(it):
    for x in it:
        if x:
            return True
    return False


@model(math.ceil)
def m_ceil(x):
    return x.__ceil__() if type(x) in SYM_TYPES else math.ceil(x)


@model(math.floor)
def m_floor(x):
    return x.__floor__() if type(x) in SYM_TYPES else math.floor(x)


@model(math.trunc)
def m_trunc(x):
    return x.__trunc__() if type(x) in SYM_TYPES else math.trunc(x)


def _mono_model(fn, least):
    """fn of an integer, for a monotone fn that is defined from `least` on."""
    def m(x, *rest):
        if type(x) is SymBool:
            x = x._int()
        if type(x) is not SymInt:
            return fn(*[concretize_deep(a) for a in (x, *rest)])
        rest = [concretize_deep(a) for a in rest]
        if not bool(x >= least):
            return fn(least - 1, *rest)     # raises
        if type(x) is SymInt and x.lo < least:
            w = need_bits(least, x.hi)
            x = mk_int(_fit(x.t, x.lo < 0, w), least, x.hi)
        if type(x) is not SymInt:
            return fn(x, *rest)
        return SymMono(x, lambda n: fn(n, *rest), not rest or rest[0] > 1)
    return m


for _fn, _least in ((math.log2, 1), (math.log10, 1), (math.log, 1), (math.sqrt, 0), (math.log1p, 0)):
    model(_fn)(_mono_model(_fn, _least))


@model(math.isqrt)
def m_isqrt(x):
    if type(x) is not SymInt:
        return math.isqrt(concretize_deep(x))
    r = _mono_model(math.isqrt, 0)(x)
    return r.__trunc__() if type(r) is SymMono else r


@model(math.isnan)
def m_isnan(x):
    return x.isnan() if type(x) is SymFloat else False if type(x) is SymMono else math.isnan(concretize_deep(x))


@model(math.modf)
def m_modf(x):
    if type(x) in (SymFloat, SymFrac):
        f = SymFloat.from_any(x)
        if bool(f.isnan()) or bool(f.isinf()):
            return math.modf(concretize_deep(f))
        return f.modf()
    return math.modf(concretize_deep(x))


@model(math.fabs)
def m_fabs(x):
    return abs(x) if type(x) in (SymFloat, SymFrac, SymMono) else math.fabs(concretize_deep(x))


@model(math.isinf)
def m_isinf(x):
    return x.isinf() if type(x) is SymFloat else math.isinf(concretize_deep(x))


@model(math.isfinite)
def m_isfinite(x):
    if type(x) is SymFloat:
        return sym_not(sym_or([x.isnan(), x.isinf()]))
    return math.isfinite(concretize_deep(x))


@model(operator.index)
def m_opindex(x):
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return x._int()
    return operator.index(x)


@model(operator.contains)
def m_contains(a, b):
    return rt_in(b, a)


@model(divmod)
def m_divmod(a, b):
    return divmod(a, b)


@model(hex)
def m_hex(x):
    return hex(concretize_deep(x))


# ---------------------------------------------------------------------------- struct module
_INT_CODES = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
              "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False), "n": (8, True), "N": (8, False)}


def _parse_fmt(fmt):
    """[(code, count, size)] and byte order, for layouts without native alignment padding."""
    import sys
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order, native = sys.byteorder, True
    f = fmt
    if f and f[0] in "<>=!@":
        native = f[0] == "@"
        order = {"<": "little", ">": "big", "!": "big"}.get(f[0], sys.byteorder)
        f = f[1:]
    out, num = [], ""
    for c in f:
        if c.isdigit():
            num += c
            continue
        if c.isspace():
            continue
        n = int(num) if num else None
        num = ""
        size = struct.calcsize(("" if native else "<") + c)
        if c in "sp":
            out.append((c, 1, n if n is not None else 1))
        else:
            for _ in range(1 if n is None else n):
                out.append((c, 1, size))
    total = sum(s for _, _, s in out)
    if total != struct.calcsize(fmt):
        return None  # native alignment padding: not modelled
    return out, order


def _unpack(fmt, data):
    fmt = concretize_deep(fmt)
    e = bytes_elems(data)
    p = _parse_fmt(fmt)
    if e is None or p is None or all(type(x) is int for x in e):
        return struct.unpack(fmt, concretize_deep(mk_bytes(e) if e is not None else data))
    layout, order = p
    if len(e) != struct.calcsize(fmt):
        raise struct.error("unpack requires a buffer of %d bytes" % struct.calcsize(fmt))
    out, i = [], 0
    for c, _, size in layout:
        part = e[i:i + size]
        i += size
        if c == "x":
            continue
        if c in _INT_CODES:
            out.append(m_from_bytes(mk_bytes(part), order, signed=_INT_CODES[c][1]))
        elif c == "?":
            out.append(m_from_bytes(mk_bytes(part), order) != 0)
        elif c in "sc":
            out.append(mk_bytes(part))
        elif c in "efd":
            out.append(_load_float(part, c, order))
        else:
            out += struct.unpack(("<" if order == "little" else ">") + c, concretize_deep(mk_bytes(part)))
    return tuple(out)


_FP = {"e": (z3.Float16(), 16), "f": (z3.Float32(), 32), "d": (z3.Float64(), 64)}


def _load_float(part, c, order):
    if all(type(x) is int for x in part):
        return struct.unpack(("<" if order == "little" else ">") + c, bytes(part))[0]
    if order == "little":
        part = part[::-1]
    bits = z3.simplify(z3.Concat(*[bterm(x) for x in part]))
    return SymFloat.from_bits(bits)


_EXPLICIT = ('<', '>', '=', '!', b'<', b'>', b'=', b'!')


def _store_float(v, c, order, native=False):
    if type(v) not in SYM_TYPES:
        return list(struct.pack(("<" if order == "little" else ">") + c, v))
    if type(v) not in (SymFloat, SymInt, SymBool, SymFrac):
        raise struct.error("required argument is not a float")
    v = SymFloat.from_any(v)
    if c == "d":
        bits = v.get_bits()
    else:
        n = _FP[c][1]
        if v._pattern(n) is not None and bool(v.isnan()):
            bits = z3.fpToIEEEBV(z3.fpFPToFP(RNE, v.fp, _FP[c][0]))   # some NaN
        else:
            bits, over = v.narrow(n)
            if not (native and c == 'f') and bool(over):
                raise OverflowError("float too large to pack with %s format" % c)
    n = bits.size() // 8
    out = [mk_int(z3.Extract(8 * i + 7, 8 * i, bits), 0, 255) for i in range(n)]
    return out if order == "little" else out[::-1]


def _pack(fmt, *vals):
    fmt = concretize_deep(fmt)
    p = _parse_fmt(fmt)
    if p is None or not contains_sym(vals):
        return struct.pack(fmt, *[concretize_deep(v) for v in vals])
    layout, order = p
    need = [x for x in layout if x[0] != "x"]
    if len(need) != len(vals):
        raise struct.error("pack expected %d items for packing (got %d)" % (len(need), len(vals)))
    out, vals = [], list(vals)
    for c, _, size in layout:
        if c == "x":
            out += [0] * size
            continue
        v = vals.pop(0)
        if c in _INT_CODES:
            if type(v) in (SymInt, SymBool):
                v = v._int() if type(v) is SymBool else v
                sg = _INT_CODES[c][1]
                lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if sg else (0, (1 << 8 * size) - 1)
                if bool(sym_or([v < lo, v > hi])):
                    raise struct.error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
                out += bytes_elems(v.to_bytes(size, order, signed=sg))
            elif type(v) in SYM_TYPES:
                raise struct.error("required argument is not an integer")
            else:
                out += list(struct.pack(("<" if order == "little" else ">") + c, v))
        elif c == "?":
            t = _fit(z3.If(to_z3(m_bool(v)), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), False, 8)
            out.append(mk_int(t, 0, 1))
        elif c == "c":
            b = bytes_elems(v)
            if b is None or len(b) != 1:
                raise struct.error("char format requires a bytes object of length 1")
            out += b
        elif c == "s":
            b = bytes_elems(v)
            if b is None:
                raise struct.error("argument for 's' must be a bytes object")
            out += (b + [0] * size)[:size]
        elif c in "efd":
            out += _store_float(v, c, order, native=fmt[:1] not in _EXPLICIT)
        else:
            out += list(struct.pack(("<" if order == "little" else ">") + c, concretize_deep(v)))
    return mk_bytes(out)


MODELS[struct.pack] = _pack
MODELS[struct.unpack] = _unpack


@model(struct.unpack_from)
def m_unpack_from(fmt, buffer, offset=0):
    n = struct.calcsize(fmt)
    e = bytes_elems(buffer)
    if offset < 0:
        offset += len(e)
    if len(e) - offset < n:
        raise struct.error("unpack_from requires a buffer of at least %d bytes" % (n + offset))
    return _unpack(fmt, mk_bytes(e[offset:offset + n]))


@model(struct.pack_into)
def m_pack_into(fmt, buffer, offset, *vals):
    b = _pack(fmt, *vals)
    buffer[offset:offset + len(b)] = b


@model((struct.Struct, "pack"))
def m_S_pack(self, *vals):
    return _pack(self.format, *vals)


@model((struct.Struct, "unpack"))
def m_S_unpack(self, data):
    return _unpack(self.format, data)


@model((struct.Struct, "unpack_from"))
def m_S_unpack_from(self, data, offset=0):
    return m_unpack_from(self.format, data, offset)


# ------------------------------------------------------------------------------ io streams
class ModelBytesIO:
    """io.BytesIO over possibly symbolic bytes; the position is always concrete."""
    modelled = io.BytesIO

    def __init__(self, initial=b""):
        if initial is None:
            initial = b""
        e = bytes_elems(initial)
        if e is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(initial).__name__)
        self._e = list(e)
        self._p = 0
        self.closed = False

    @property
    def __class__(self):
        return io.BytesIO

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def _take(self, n):
        """Number of bytes a read(n) delivers."""
        self._open()
        left = max(0, len(self._e) - self._p)
        if n is None:
            return left
        if type(n) in (SymInt, SymBool):
            if n < 0:
                return left
            if n >= left:
                return left
            return n.__index__()
        if type(n) is not int:
            if not hasattr(type(n), "__index__"):
                raise TypeError("argument should be integer or None, not '%s'" % type(n).__name__)
            n = n.__index__()
        return left if n < 0 else min(n, left)

    def read(self, size=-1, /):
        n = self._take(size)
        r = self._e[self._p:self._p + n]
        self._p += n
        return mk_bytes(r)

    def read1(self, size=-1, /):
        return self.read(size)

    def readinto(self, b, /):
        n = self._take(len(b))
        b[:n] = mk_bytes(self._e[self._p:self._p + n])
        self._p += n
        return n

    readinto1 = readinto

    def readline(self, size=-1, /):
        n = self._take(size)
        for i in range(n):
            if self._e[self._p + i] == 10:
                n = i + 1
                break
        return self.read(n)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    def write(self, b, /):
        self._open()
        e = bytes_elems(b)
        if e is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)
        if self._p > len(self._e) and e:
            self._e += [0] * (self._p - len(self._e))
        self._e[self._p:self._p + len(e)] = e
        self._p += len(e)
        return len(e)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def seek(self, pos, whence=0, /):
        self._open()
        if type(pos) is not int:
            pos = pos.__index__()
        if whence == 0:
            if pos < 0:
                raise ValueError("negative seek value %d" % pos)
            self._p = pos
        elif whence == 1:
            self._p = max(0, self._p + pos)
        elif whence == 2:
            self._p = max(0, len(self._e) + pos)
        else:
            raise ValueError("invalid whence (%r, should be 0, 1 or 2)" % whence)
        return self._p

    def tell(self):
        self._open()
        return self._p

    def getvalue(self):
        self._open()
        return mk_bytes(self._e)

    def getbuffer(self):
        return SymMemoryView(mk_bytes(self._e))

    def truncate(self, size=None, /):
        size = self._p if size is None else size
        del self._e[size:]
        return size

    def readable(self):
        return True

    writable = seekable = readable

    def flush(self):
        pass

    def isatty(self):
        return False

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


class ModelStringIO:
    modelled = io.StringIO

    def __init__(self, initial="", newline="\n"):
        self._e = list(str_elems(initial or ""))
        self._p = 0

    @property
    def __class__(self):
        return io.StringIO

    def write(self, s, /):
        e = str_elems(s)
        if e is None:
            raise TypeError("string argument expected, got '%s'" % type(s).__name__)
        if self._p > len(self._e):
            self._e += [0] * (self._p - len(self._e))
        self._e[self._p:self._p + len(e)] = e
        self._p += len(e)
        return len(e)

    def read(self, size=-1, /):
        n = len(self._e) - self._p if size is None or size < 0 else min(int(size), len(self._e) - self._p)
        r = self._e[self._p:self._p + n]
        self._p += n
        return mk_str(r)

    def getvalue(self):
        return mk_str(self._e)

    def tell(self):
        return self._p

    def seek(self, pos, whence=0, /):
        self._p = pos if whence == 0 else len(self._e) if whence == 2 else self._p
        return self._p

    def truncate(self, size=None, /):
        del self._e[self._p if size is None else size:]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False


MODELS[io.BytesIO] = ModelBytesIO
MODELS[io.StringIO] = ModelStringIO

# --------------------------------------------------------------------------------- codecs
MODELS[codecs.iterdecode] = textmodel.iterdecode
MODELS[codecs.iterencode] = textmodel.iterencode


@model(codecs.getincrementaldecoder)
def m_getincdec(encoding):
    norm = textmodel.norm(encoding)  # raises LookupError for an unknown encoding
    if norm in textmodel.UTF or textmodel.charmap(norm) is not None:
        return lambda errors="strict": textmodel.IncrementalDecoder(encoding, errors)
    return codecs.getincrementaldecoder(encoding)


@model(codecs.decode)
def m_codecs_decode(obj, encoding="utf-8", errors="strict"):
    if type(obj) in (SymBytes, SymByteArray):
        return obj.decode(encoding, errors)
    return codecs.decode(obj, encoding, errors)


@model(codecs.encode)
def m_codecs_encode(obj, encoding="utf-8", errors="strict"):
    if type(obj) is SymStr:
        return obj.encode(encoding, errors)
    return codecs.encode(concretize_deep(obj), encoding, errors)


# ----------------------------------------------------------------------------------- uuid
class SymUUID(SymBase):
    """uuid.UUID with a symbolic 128-bit value."""

    def __init__(self, value):
        self.int = value

    @property
    def __class__(self):
        return uuid.UUID

    @property
    def bytes(self):
        return self.int.to_bytes(16, "big")

    @property
    def bytes_le(self):
        b = self.bytes
        return b[3::-1] + b[5:3:-1] + b[7:5:-1] + b[8:]

    @property
    def hex(self):
        return self.bytes.hex()

    def text(self):
        h = self.hex
        return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]

    @property
    def urn(self):
        return "urn:uuid:" + self.text()

    time_low = property(lambda s: s.int >> 96)
    time_mid = property(lambda s: (s.int >> 80) & 0xFFFF)
    time_hi_version = property(lambda s: (s.int >> 64) & 0xFFFF)
    clock_seq_hi_variant = property(lambda s: (s.int >> 56) & 0xFF)
    clock_seq_low = property(lambda s: (s.int >> 48) & 0xFF)
    node = property(lambda s: s.int & 0xFFFFFFFFFFFF)

    @property
    def fields(self):
        return (self.time_low, self.time_mid, self.time_hi_version, self.clock_seq_hi_variant, self.clock_seq_low,
                self.node)

    @property
    def version(self):
        if bool(sym_and([(self.int >> 62) & 3 == 2])):
            return (self.int >> 76) & 0xF
        return None

    def __int__(self):
        return self.int

    def __eq__(self, o):
        if isinstance(o, uuid.UUID):
            return self.int == o.int
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        return self.int < o.int

    def __hash__(self):
        return hash(self.int)

    def __repr__(self):
        return "<symbolic UUID>"

    __str__ = __repr__

    def __format__(self, _s):
        return "<symbolic UUID>"

    def concretize(self):
        return uuid.UUID(int=self.int.concretize(4) if type(self.int) is SymInt else self.int)


SYM_TYPES.add(SymUUID)


@model(uuid.UUID)
def m_uuid(hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None, *, is_safe=None):
    args = (hex, bytes, bytes_le, fields, int)
    if not contains_sym(args) and not contains_sym((version,)):
        kw = {} if is_safe is None else {"is_safe": is_safe}
        return uuid.UUID(hex, *[concretize_deep(a) for a in args[1:]], version, **kw)
    if args.count(None) != 4:
        raise TypeError("one of the hex, bytes, bytes_le, fields, or int arguments must be given")
    if hex is not None:
        h = hex.replace("urn:", "").replace("uuid:", "")
        h = h.strip("{}").replace("-", "")
        if len(h) != 32:
            raise ValueError("badly formed hexadecimal UUID string")
        v = parse_int(h, 16) if type(h) is SymStr else builtins.int(h, 16)
    elif bytes is not None or bytes_le is not None:
        b = bytes if bytes is not None else bytes_le
        if len(b) != 16:
            raise ValueError("bytes is not a 16-char string" if bytes is not None
                             else "bytes_le is not a 16-char string")
        if bytes_le is not None:
            b = b[3::-1] + b[5:3:-1] + b[7:5:-1] + b[8:]
        v = m_from_bytes(b, "big")
    elif fields is not None:
        tl, tm, th, ch, cl, node = fields
        v = (tl << 96) | (tm << 80) | (th << 64) | (ch << 56) | (cl << 48) | node
    else:
        v = int
        if bool(sym_or([v < 0, v >= 1 << 128])):
            raise ValueError("int is out of range (need a 128-bit value)")
    if version is not None:
        v = (v & ~(0xC000 << 48)) | (0x8000 << 48)
        v = (v & ~(0xF000 << 64)) | (version << 76)
    if type(v) is builtins.int:
        return uuid.UUID(int=v)
    return SymUUID(v)


# ------------------------------------------------------------------------- dates and times
US = 10 ** 6
EPOCH = datetime.datetime(1970, 1, 1)
MIN_US = (datetime.datetime.min - EPOCH) // datetime.timedelta(microseconds=1)
MAX_US = (datetime.datetime.max - EPOCH) // datetime.timedelta(microseconds=1)
UTC = datetime.timezone.utc


class SymTimedelta(SymBase):
    LIM = 999999999 * 86400 * US

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return datetime.timedelta

    @staticmethod
    def make(us):
        if type(us) is SymInt:
            lim = SymTimedelta.LIM
            if (us.lo < -lim or us.hi >= lim + 86400 * US) and bool(sym_or([us < -lim, us >= lim + 86400 * US])):
                raise OverflowError("days out of range for timedelta; must have magnitude <= 999999999")
            return SymTimedelta(us)
        return datetime.timedelta(microseconds=us)

    days = property(lambda s: s.us // (86400 * US))
    seconds = property(lambda s: (s.us // US) % 86400)
    microseconds = property(lambda s: s.us % US)

    def total_seconds(self):
        return SymFrac(self.us, US) if type(self.us) is SymInt else self.us / US

    def _o(self, o):
        return td_us(o) if isinstance(o, datetime.timedelta) else None

    def __add__(self, o):
        if isinstance(o, datetime.datetime):
            return dt_lift(o) + self
        u = self._o(o)
        return NotImplemented if u is None else SymTimedelta.make(self.us + u)

    __radd__ = __add__

    def __sub__(self, o):
        u = self._o(o)
        return NotImplemented if u is None else SymTimedelta.make(self.us - u)

    def __rsub__(self, o):
        if isinstance(o, datetime.datetime):
            return dt_lift(o) - self
        u = self._o(o)
        return NotImplemented if u is None else SymTimedelta.make(u - self.us)

    def __neg__(self):
        return SymTimedelta.make(-self.us)

    def __abs__(self):
        return SymTimedelta.make(abs(self.us))

    def __mul__(self, o):
        if isinstance(o, int):
            return SymTimedelta.make(self.us * o)
        return self.concretize() * concretize_deep(o)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, datetime.timedelta):
            return self.us // td_us(o)
        if isinstance(o, int):
            return SymTimedelta.make(self.us // o)
        return NotImplemented

    def __rfloordiv__(self, o):
        return td_us(o) // self.us

    def __mod__(self, o):
        return SymTimedelta.make(self.us % td_us(o))

    def __divmod__(self, o):
        q, r = divmod(self.us, td_us(o))
        return q, SymTimedelta.make(r)

    def __truediv__(self, o):
        if isinstance(o, datetime.timedelta):
            u = td_us(o)
            if type(self.us) is SymInt and type(u) is int:
                return SymFrac(self.us, u)
        return self.concretize() / concretize_deep(o)

    def _cmp(self, o, op):
        u = self._o(o)
        return NotImplemented if u is None else op(self.us, u)

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        return self._cmp(o, operator.ne)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __bool__(self):
        return bool(self.us != 0)

    def __hash__(self):
        return hash(self.concretize())

    def concretize(self):
        return datetime.timedelta(microseconds=self.us.concretize(6) if type(self.us) is SymInt else self.us)

    def __repr__(self):
        return "<symbolic timedelta>"

    __str__ = __repr__

    def __format__(self, _s):
        return "<symbolic timedelta>"


def td_us(td):
    return td.us if type(td) is SymTimedelta else td // datetime.timedelta(microseconds=1)


def tz_fixed(tz):
    """UTC offset in microseconds of a fixed-offset zone (None = naive = local)."""
    if tz is None:
        return -time.timezone * US
    if isinstance(tz, datetime.timezone):
        return td_us(tz.utcoffset(None))
    raise core.PathIncomplete("time zone with a variable offset")


def dt_lift(x):
    if type(x) is SymDatetime:
        return x
    return SymDatetime((x.replace(tzinfo=None) - EPOCH) // datetime.timedelta(microseconds=1), x.tzinfo)


class SymDatetime(SymBase):
    """datetime with symbolic wall-clock microseconds since 1970 and a concrete fixed zone.

    Naive datetimes are local time; the harnesses use local zones with a fixed offset (UTC unless stated).
    """

    def __init__(self, wall, tzinfo=None):
        self.wall = wall
        self.tzinfo = tzinfo

    fold = 0

    @property
    def __class__(self):
        return datetime.datetime

    @staticmethod
    def make(wall, tz):
        if type(wall) is not SymInt:
            if not MIN_US <= wall <= MAX_US:
                raise OverflowError("date value out of range")
            return (EPOCH + datetime.timedelta(microseconds=wall)).replace(tzinfo=tz)
        if (wall.lo < MIN_US or wall.hi > MAX_US):
            if bool(sym_or([wall < MIN_US, wall > MAX_US])):
                raise OverflowError("date value out of range")
            lin = wall.lin
            wall = mk_int(_fit(wall.t, wall.lo < 0, need_bits(MIN_US, MAX_US)), max(wall.lo, MIN_US),
                          min(wall.hi, MAX_US))
            if type(wall) is SymInt:
                wall.lin = lin
        return SymDatetime(wall, tz)

    @property
    def utc_us(self):
        return self.wall - tz_fixed(self.tzinfo)

    def timestamp(self):
        u = self.utc_us
        return SymFrac(u, US) if type(u) is SymInt else u / US

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(None)

    def tzname(self):
        return None if self.tzinfo is None else self.tzinfo.tzname(None)

    def dst(self):
        return None

    def astimezone(self, tz=None):
        if tz is None:
            tz = datetime.timezone(datetime.timedelta(seconds=-time.timezone)) if time.timezone else UTC
        return SymDatetime.make(self.utc_us + tz_fixed(tz), tz)

    def replace(self, **kw):
        w, tz = self.wall, self.tzinfo
        if "tzinfo" in kw:
            tz = kw.pop("tzinfo")
        if "fold" in kw:
            kw.pop("fold")
        if "microsecond" in kw:
            w = w - w % US + kw.pop("microsecond")
        if kw:
            return self.concretize().replace(**kw)
        return SymDatetime.make(w, tz)

    microsecond = property(lambda s: s.wall % US)
    second = property(lambda s: (s.wall // US) % 60)
    minute = property(lambda s: (s.wall // (60 * US)) % 60)
    hour = property(lambda s: (s.wall // (3600 * US)) % 24)

    def _civil(self):
        """(year, month, day) from the day number (days-from-civil inverse, integer arithmetic)."""
        z = self.wall // (86400 * US) + 719468
        era = z // 146097
        doe = z - era * 146097
        yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
        doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
        mp = (5 * doy + 2) // 153
        d = doy - (153 * mp + 2) // 5 + 1
        m = mp + 3 if bool(mp < 10) else mp - 9
        y = yoe + era * 400
        if bool(m <= 2):
            y = y + 1
        return y, m, d

    year = property(lambda s: s._civil()[0])
    month = property(lambda s: s._civil()[1])
    day = property(lambda s: s._civil()[2])

    def toordinal(self):
        return self.wall // (86400 * US) + 719163

    def timetuple(self):
        return self.concretize().timetuple()

    def utctimetuple(self):
        return SymUTCTuple(self.utc_us)

    def __add__(self, o):
        if isinstance(o, datetime.timedelta):
            return SymDatetime.make(self.wall + td_us(o), self.tzinfo)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, datetime.timedelta):
            return SymDatetime.make(self.wall - td_us(o), self.tzinfo)
        if isinstance(o, datetime.datetime):
            return self._diff(self, dt_lift(o))
        return NotImplemented

    def __rsub__(self, o):
        return self._diff(dt_lift(o), self)

    @staticmethod
    def _diff(a, b):
        if (a.tzinfo is None) != (b.tzinfo is None):
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        return SymTimedelta.make(a.utc_us - b.utc_us)

    def _cmp(self, o, op, eq):
        if not isinstance(o, datetime.datetime):
            return NotImplemented
        o = dt_lift(o)
        if (self.tzinfo is None) != (o.tzinfo is None):
            if eq is not None:
                return eq
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return op(self.utc_us, o.utc_us)

    def __eq__(self, o):
        return self._cmp(o, operator.eq, False)

    def __ne__(self, o):
        return self._cmp(o, operator.ne, True)

    def __lt__(self, o):
        return self._cmp(o, operator.lt, None)

    def __le__(self, o):
        return self._cmp(o, operator.le, None)

    def __gt__(self, o):
        return self._cmp(o, operator.gt, None)

    def __ge__(self, o):
        return self._cmp(o, operator.ge, None)

    def __hash__(self):
        return hash(self.concretize())

    def concretize(self):
        w = self.wall.concretize(6) if type(self.wall) is SymInt else self.wall
        return (EPOCH + datetime.timedelta(microseconds=w)).replace(tzinfo=self.tzinfo)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.concretize(), name)

    def __repr__(self):
        return "<symbolic datetime>"

    __str__ = __repr__

    def __format__(self, _s):
        return "<symbolic datetime>"


class SymUTCTuple:
    def __init__(self, us):
        self.us = us


SYM_TYPES.add(SymDatetime)
SYM_TYPES.add(SymTimedelta)


def _float_us(t, what):
    """A float of seconds as whole microseconds, as CPython converts it (round half even)."""
    f = SymFloat.from_any(t)
    if bool(f.isnan()):
        raise ValueError("Invalid value NaN (not a number)" if what == "ts" else "cannot convert float NaN to integer")
    if bool(abs(f) >= 2.0 ** 43):
        # far outside the representable dates: a year 280000 in seconds
        if what == "ts":
            raise ValueError("year is out of range")
        raise OverflowError("too large")
    frac, ip = f.modf()
    us = SymFloat(z3.fpRoundToIntegral(RNE, (frac * 1e6).fp))
    w = 46
    whole = mk_int(z3.fpToSBV(z3.RTZ(), ip.fp, z3.BitVecSort(w)), -(1 << 43), 1 << 43)
    part = mk_int(z3.fpToSBV(z3.RTZ(), us.fp, z3.BitVecSort(22)), -10 ** 6, 10 ** 6)
    return whole * US + part


# up to this many seconds a microsecond count survives the trip through a double unchanged
_EXACT_S = 1 << 32


@model((datetime.datetime, "fromtimestamp"))
def m_fromtimestamp(t, tz=None):
    if type(t) in (SymFrac, SymInt, SymFloat):
        us = None
        if type(t) is SymInt:
            us = t * US
        elif type(t) is SymFrac and US % t.den == 0:
            c = t.small(_EXACT_S * t.den)
            if c is not None:
                return datetime.datetime.fromtimestamp(c, tz)
            us = t.num * (US // t.den)
        if us is None:
            us = _float_us(t, "ts")
        # range errors of the C implementation
        if bool(sym_or([us < MIN_US, us > MAX_US])):
            raise ValueError("year is out of range")
        us = us if type(us) is not SymInt else mk_int(_fit(us.t, us.lo < 0, need_bits(MIN_US, MAX_US)),
                                                      max(us.lo, MIN_US), min(us.hi, MAX_US))
        return SymDatetime.make(us + tz_fixed(tz), tz)
    return datetime.datetime.fromtimestamp(concretize_deep(t), tz)


@model((datetime.datetime, "utcfromtimestamp"))
def m_utcfromtimestamp(t):
    return m_fromtimestamp(t, UTC).replace(tzinfo=None)


@model(datetime.timedelta)
def m_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    parts = ((days, 86400 * US), (seconds, US), (microseconds, 1), (milliseconds, 1000), (minutes, 60 * US),
             (hours, 3600 * US), (weeks, 7 * 86400 * US))
    if not contains_sym([p for p, _ in parts]):
        return datetime.timedelta(days, seconds, microseconds, milliseconds, minutes, hours, weeks)
    if all(isinstance(p, int) for p, _ in parts):
        return SymTimedelta.make(sum((p * k for p, k in parts if not (type(p) is int and p == 0)), 0))
    nz = [(p, k) for p, k in parts if not (type(p) in (int, float) and p == 0)]
    if len(nz) == 1 and type(nz[0][0]) in (SymFrac, SymFloat):
        f, k = nz[0]
        if k == US:
            return SymTimedelta.make(_float_us(f, "td"))
        if k == 1:
            return SymTimedelta.make(round(f))
    return datetime.timedelta(*[concretize_deep(p) for p in
                                (days, seconds, microseconds, milliseconds, minutes, hours, weeks)])


import calendar as _calendar  # noqa: E402


@model(_calendar.timegm)
def m_timegm(tt):
    if type(tt) is SymUTCTuple:
        return tt.us // US
    return _calendar.timegm(tt)


# ----------------------------------------------------------------------------- os, misc
MODELS[os.fspath] = os.fspath


def install():
    builtins.__rt_call__ = rt_call
    builtins.__rt_in__ = rt_in
    builtins.__rt_fstr__ = rt_fstr
