"""Character-encoding models over symbolic text/bytes, validated against CPython (selftest)."""
from __future__ import annotations

import codecs
import functools
import sys

import z3

from . import core
from .sym import (SymBytes, SymInt, SymStr, _fit, bytes_elems, concretize_deep, mk_bool, mk_bytes, mk_int, mk_str,
                  str_elems, sym_and, sym_or)

UTF = {"utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "utf-32-le", "utf-32-be"}


@functools.lru_cache(None)
def norm(encoding):
    return codecs.lookup(encoding).name


@functools.lru_cache(None)
def charmap(name):
    """[code point or None] * 256 for a stateless single-byte codec, None for anything else."""
    if name in UTF:
        return None
    try:
        if not codecs.lookup(name)._is_text_encoding:
            return None
        out = []
        for i in range(256):
            try:
                s = bytes([i]).decode(name)
            except UnicodeDecodeError:
                out.append(None)
                continue
            if len(s) != 1:
                return None
            out.append(ord(s))
        for i in range(0, 256, 7):
            two = bytes([65, i])
            try:
                if len(two.decode(name)) != 2:
                    return None
            except UnicodeDecodeError:
                if out[i] is not None:
                    return None
        for i, c in enumerate(out):
            if c is not None:
                b = chr(c).encode(name)
                if len(b) != 1:
                    return None
        return tuple(out)
    except Exception:  # noqa: BLE001
        return None


def derr(enc, reason="invalid data"):
    return UnicodeDecodeError(enc, b"?", 0, 1, reason)


def eerr(enc, reason="character not encodable"):
    return UnicodeEncodeError(enc, "?", 0, 1, reason)


def _in(x, a, b):
    return bool(sym_and([x >= a, x <= b]))


# ------------------------------------------------------------------------------- encoding
def encode(s, encoding="utf-8", errors="strict"):
    if type(s) is str:
        return s.encode(concretize_deep(encoding), concretize_deep(errors))
    encoding = concretize_deep(encoding)
    name = norm(encoding)
    cm = charmap(name)
    if name not in UTF and cm is None:
        return s.concretize().encode(encoding, errors)
    if errors != "strict":
        # an error handler matters only for text that is not encodable
        try:
            return encode(s, encoding)
        except UnicodeEncodeError:
            return s.concretize().encode(encoding, errors)
    out = []
    if name == "utf-16":
        out += list(codecs.BOM_UTF16)
    elif name == "utf-32":
        out += list(codecs.BOM_UTF32)
    elif name == "utf-8-sig":
        out += list(codecs.BOM_UTF8)
    for c in s.e:
        out += encode_char(c, name, cm)
    return mk_bytes(out)


def encode_char(c, name, cm):
    if cm is not None:
        return [_cm_encode(c, name, cm)]
    if name in ("utf-8", "utf-8-sig"):
        if c < 0x80:
            return [c]
        if c < 0x800:
            return [0xC0 | (c >> 6), 0x80 | (c & 0x3F)]
        if c < 0x10000:
            if _in(c, 0xD800, 0xDFFF):
                raise eerr(name, "surrogates not allowed")
            return [0xE0 | (c >> 12), 0x80 | ((c >> 6) & 0x3F), 0x80 | (c & 0x3F)]
        return [0xF0 | (c >> 18), 0x80 | ((c >> 12) & 0x3F), 0x80 | ((c >> 6) & 0x3F), 0x80 | (c & 0x3F)]
    if _in(c, 0xD800, 0xDFFF):
        raise eerr(name, "surrogates not allowed")
    big = name.endswith("-be") or (sys.byteorder == "big" and not name.endswith("-le"))
    if name.startswith("utf-16"):
        if c < 0x10000:
            units = [c]
        else:
            v = c - 0x10000
            units = [0xD800 | (v >> 10), 0xDC00 | (v & 0x3FF)]
        out = []
        for u in units:
            p = [u & 0xFF, (u >> 8) & 0xFF]
            out += p[::-1] if big else p
        return out
    p = [c & 0xFF, (c >> 8) & 0xFF, (c >> 16) & 0xFF, 0]
    return p[::-1] if big else p


def _cm_encode(c, name, cm):
    if cm == tuple(range(256)) or cm == tuple(range(128)) + (None,) * 128:
        n = 256 if cm[255] is not None else 128
        if c < n:
            return c if type(c) is int else mk_int(c.t, 0, n - 1)
        raise eerr(name)
    if type(c) is int:
        return chr(c).encode(name)[0]
    pairs = [(cp, i) for i, cp in enumerate(cm) if cp is not None and c.lo <= cp <= c.hi]
    if not bool(sym_or([c == cp for cp, _ in pairs])):
        raise eerr(name)
    t = z3.BitVecVal(0, 8)
    w = c.t.size()
    for cp, i in pairs:
        t = z3.If(c.t == z3.BitVecVal(cp, w), z3.BitVecVal(i, 8), t)
    return mk_int(t, 0, 255)


# ------------------------------------------------------------------------------- decoding
NEED = object()


def _cm_decode(b, name, cm):
    if cm == tuple(range(256)):
        return b
    if cm == tuple(range(128)) + (None,) * 128:
        if b < 128:
            return b if type(b) is int else mk_int(b.t, 0, 127)
        raise derr(name)
    if type(b) is int:
        if cm[b] is None:
            raise derr(name)
        return cm[b]
    t8 = _fit(b.t, False, 8)
    bad = [i for i, cp in enumerate(cm) if cp is None]
    if bad and bool(sym_or([b == i for i in bad])):
        raise derr(name)
    t = z3.BitVecVal(0, 17)
    hi = 0
    for i, cp in enumerate(cm):
        if cp is not None:
            hi = max(hi, cp)
            t = z3.If(t8 == z3.BitVecVal(i, 8), z3.BitVecVal(cp, 17), t)
    return mk_int(t, 0, hi)


def _utf8_step(e, i, name):
    b = e[i]
    if b < 0x80:
        return b if type(b) is int else mk_int(b.t, 0, 127), i + 1
    if b < 0xC2:
        raise derr(name, "invalid start byte")
    if b < 0xE0:
        n, first = 2, (0x80, 0xBF)
    elif b < 0xF0:
        n = 3
        if b == 0xE0:
            first = (0xA0, 0xBF)
        elif b == 0xED:
            first = (0x80, 0x9F)
        else:
            first = (0x80, 0xBF)
    elif b < 0xF5:
        n = 4
        if b == 0xF0:
            first = (0x90, 0xBF)
        elif b == 0xF4:
            first = (0x80, 0x8F)
        else:
            first = (0x80, 0xBF)
    else:
        raise derr(name, "invalid start byte")
    v = b & (0xFF >> (n + 1))
    for k in range(1, n):
        if i + k >= len(e):
            return NEED, i
        lo, hi = first if k == 1 else (0x80, 0xBF)
        if not _in(e[i + k], lo, hi):
            raise derr(name, "invalid continuation byte")
        v = (v << 6) | (e[i + k] & 0x3F)
    lo = {2: 0x80, 3: 0x800, 4: 0x10000}[n]
    hi = {2: 0x7FF, 3: 0xFFFF, 4: 0x10FFFF}[n]
    if type(v) is not int:
        v = mk_int(v.t, lo, hi) if v.t.size() >= 1 else v
        if type(v) is not int:
            v = mk_int(_fit(v.t, False, hi.bit_length()), lo, hi)
    return v, i + n


def _utf16_step(e, i, big, name):
    if i + 1 >= len(e):
        return NEED, i
    u = (e[i] << 8) | e[i + 1] if big else (e[i + 1] << 8) | e[i]
    if u < 0xD800 or u > 0xDFFF:
        return u, i + 2
    if u >= 0xDC00:
        raise derr(name, "illegal encoding")
    if i + 3 >= len(e):
        return NEED, i
    w = (e[i + 2] << 8) | e[i + 3] if big else (e[i + 3] << 8) | e[i + 2]
    if not _in(w, 0xDC00, 0xDFFF):
        raise derr(name, "illegal UTF-16 surrogate")
    v = 0x10000 + (((u & 0x3FF) << 10) | (w & 0x3FF))
    return v, i + 4


def _utf32_step(e, i, big, name):
    if i + 3 >= len(e):
        return NEED, i
    q = e[i:i + 4]
    if not big:
        q = q[::-1]
    v = (q[0] << 24) | (q[1] << 16) | (q[2] << 8) | q[3]
    if v > 0x10FFFF:
        raise derr(name, "codepoint not in range(0x110000)")
    if _in(v, 0xD800, 0xDFFF):
        raise derr(name, "code point in surrogate range")
    if type(v) is not int:
        v = mk_int(v.t, 0, 0x10FFFF)
    return v, i + 4


class IncrementalDecoder:
    need_bom = True     # the incremental codecs insist on a BOM, bytes.decode() does not

    def __init__(self, encoding, errors="strict"):
        self.encoding = encoding
        self.errors = errors
        self.name = norm(encoding)
        self.cm = charmap(self.name)
        self.supported = errors == "strict" and (self.name in UTF or self.cm is not None)
        if not self.supported:
            self.real = codecs.getincrementaldecoder(encoding)(errors)
        self.reset()

    def reset(self):
        self.buf = []
        self.order = None
        self.sig = self.name == "utf-8-sig"
        if not self.supported:
            self.real.reset()

    def getstate(self):
        return mk_bytes(self.buf), 0

    def decode(self, data, final=False):
        if not self.supported:
            return self.real.decode(concretize_deep(data), final)
        e = self.buf + list(bytes_elems(data))
        i, out, name = 0, [], self.name
        if self.sig:
            k = min(len(e), 3)
            if bool(sym_and([x == y for x, y in zip(e[:k], codecs.BOM_UTF8)])):
                if k < 3 and not final:
                    self.buf = e
                    return ""
                if k == 3:
                    i = 3
            if e or final:
                self.sig = False
        if name == "utf-16" and self.order is None:
            if len(e) < 2:
                if final and e:
                    raise derr(name, "truncated data")
                self.buf = e
                return ""
            if bool(sym_and([e[0] == 0xFF, e[1] == 0xFE])):
                self.order, i = "little", 2
            elif bool(sym_and([e[0] == 0xFE, e[1] == 0xFF])):
                self.order, i = "big", 2
            elif self.need_bom:
                raise UnicodeError("UTF-16 stream does not start with BOM")
            else:
                self.order = sys.byteorder
        if name == "utf-32" and self.order is None:
            if len(e) < 4:
                if final and e:
                    raise derr(name, "truncated data")
                self.buf = e
                return ""
            if bool(sym_and([x == y for x, y in zip(e, codecs.BOM_UTF32_LE)])):
                self.order, i = "little", 4
            elif bool(sym_and([x == y for x, y in zip(e, codecs.BOM_UTF32_BE)])):
                self.order, i = "big", 4
            elif self.need_bom:
                raise UnicodeError("UTF-32 stream does not start with BOM")
            else:
                self.order = sys.byteorder
        big = name.endswith("-be") or self.order == "big"
        while i < len(e):
            if self.cm is not None:
                out.append(_cm_decode(e[i], name, self.cm))
                i += 1
                continue
            if name.startswith("utf-8"):
                v, j = _utf8_step(e, i, name)
            elif name.startswith("utf-16"):
                v, j = _utf16_step(e, i, big, name)
            else:
                v, j = _utf32_step(e, i, big, name)
            if v is NEED:
                break
            out.append(v)
            i = j
        self.buf = e[i:]
        if final and self.buf:
            raise derr(name, "unexpected end of data")
        return mk_str(out)


def decode(b, encoding="utf-8", errors="strict"):
    encoding, errors = concretize_deep(encoding), concretize_deep(errors)
    if type(b) is bytes:
        return b.decode(encoding, errors)
    if errors != "strict" and IncrementalDecoder(encoding).supported:
        # an error handler matters only for data that is not decodable
        try:
            return decode(b, encoding)
        except UnicodeDecodeError:
            return b.concretize().decode(encoding, errors)
    d = IncrementalDecoder(encoding, errors)
    if not d.supported:
        return b.concretize().decode(encoding, errors)
    if d.name in ("utf-16", "utf-32") and len(b) == 0:
        return ""
    d.need_bom = False
    return d.decode(b, True)


def iterdecode(iterator, encoding, errors="strict", **_kw):
    d = IncrementalDecoder(encoding, errors)
    for chunk in iterator:
        out = d.decode(chunk)
        if len(out):
            yield out
    out = d.decode(b"", True)
    if len(out):
        yield out


def iterencode(iterator, encoding, errors="strict", **_kw):
    for chunk in iterator:
        out = chunk.encode(encoding, errors)
        if len(out):
            yield out
