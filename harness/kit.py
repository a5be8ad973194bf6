"""Shared helpers of the harnesses (also rewritten when run symbolically)."""
import datetime
import io
import struct
import sys

import binobj
from engine.rt import case
from binobj import errors, fields, helpers, varints
from binobj.decorators import validates, validates_struct
from binobj.fields import DEFAULT, NOT_PRESENT, UNDEFINED
from binobj.varints import VarIntEncoding

# What the library may raise for input that is not acceptable on load / values not acceptable on dump
LOAD_ERRORS = (errors.Error,)
DUMP_ERRORS = (errors.Error,)


def make(*items, meta=None, base=binobj.Struct, name="S", deco=None):
    """A struct class with the given (name, field-or-function) items in order."""
    ns = {}
    for k, v in items:
        ns[k] = v
    if meta is not None:
        ns["Meta"] = type("Meta", (), {"argument_defaults": meta})
    return type(name, (base,), ns)


# -------------------------------------------------------------- reference integer layouts
def ref_int_bytes(rt, v, size, endian):
    """Two's complement of v in `size` bytes, written from the definition."""
    out = []
    for i in range(size):
        out.append((v >> (8 * i)) & 0xFF)
    if endian == "big":
        out.reverse()
    return bytes(out)


def ref_int_value(data, endian, signed):
    n = 0
    seq = data if endian == "big" else data[::-1]
    for b in seq:
        n = (n << 8) | b
    if signed:
        size = 8 * len(data)
        n = n - ((n >> (size - 1)) << size)
    return n


def int_range(size, signed):
    return (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)


# ------------------------------------------------------------------------------ field catalogue
class Kind:
    """A field with a symbolic value generator and an independent reference serialization."""

    def __init__(self, name, size, field, val, ref, same=None):
        self.name, self.size, self.field, self.val, self.ref, self._same = name, size, field, val, ref, same

    def same(self, rt, got, v, msg):
        if self._same is not None:
            self._same(rt, got, v, msg)
        else:
            rt.same(got, v, msg)


def int_kind(name, cls, size, signed, endian):
    lo, hi = int_range(size, signed)

    def field(**kw):
        if endian is not None:
            kw["endian"] = endian
        if cls == "Integer":
            return fields.Integer(size=size, signed=signed, **kw)
        return getattr(fields, cls)(**kw)
    return Kind(name, size, field, lambda rt, n: rt.int(n, lo, hi),
                lambda rt, v: ref_int_bytes(rt, v, size, endian or sys.byteorder))


def ref_vlq(rt, v, bits=14, leb=False):
    """Unsigned base-128, canonical; v < 2**bits."""
    n = 1
    while 7 * n < bits and rt.holds(v >= (1 << (7 * n))):
        n += 1
    groups = [(v >> (7 * i)) & 0x7F for i in range(n)]
    if not leb:
        groups.reverse()
    return bytes([g | 0x80 for g in groups[:-1]] + [groups[-1]])


def ref_leb(rt, v, bits=14):
    """Signed LEB128, canonical; -2**(bits-1) <= v < 2**(bits-1)."""
    n = 1
    while 7 * n < bits and rt.holds(v < -(1 << (7 * n - 1)) or v >= (1 << (7 * n - 1))):
        n += 1
    groups = [(v >> (7 * i)) & 0x7F for i in range(n)]
    return bytes([g | 0x80 for g in groups[:-1]] + [groups[-1]])


def ref_compact(rt, v, bits=13):
    """Sign and magnitude, six bits in the first byte, big end first; |v| < 2**bits."""
    neg = rt.holds(v < 0)
    m = -v if neg else v
    n = 1
    while 6 + 7 * (n - 1) < bits and rt.holds(m >= (1 << (6 + 7 * (n - 1)))):
        n += 1
    groups = [(m >> (7 * i)) & 0x7F for i in range(n)]
    groups.reverse()
    groups[0] = (groups[0] & 0x3F) | (0x40 if neg else 0)
    return bytes([g | 0x80 for g in groups[:-1]] + [groups[-1]])


def vli_kind(name, fmt, ranges, ref):
    """Values of a few magnitudes (C03 takes all of them)."""
    def val(rt, n):
        lo, hi = rt.choice(n + ".range", ranges)
        return rt.int(n, lo, hi)
    return Kind(name, None, lambda **kw: fields.VariableLengthInteger(vli_format=fmt, **kw), val, ref)


U_RANGES = [(64, 127), (0, 0), (128, 255), (8192, 16383)]
S_RANGES = [(64, 127), (0, 0), (-63, -33), (-8191, -4097)]


def float_kind(name, cls, width, endian):
    def same(rt, got, v, msg):
        rt.check(isinstance(got, float), msg + ": not a float")
        rt.check(rt.same_float(got, v), msg)

    def ref(rt, v):
        bits, _over = rt.ieee_narrow(v, width)
        return ref_int_bytes(rt, bits, width // 8, endian)

    def val(rt, n):
        n_bits = rt.int(n, 0, (1 << width) - 1)
        v = rt.ieee_widen(n_bits, width)
        rt.assume(v == v)
        return v
    return Kind(name, width // 8, lambda **kw: getattr(fields, cls)(endian=endian, **kw), val, ref, same)


def ref_uuid(rt, u, fmt):
    b = ref_int_bytes(rt, u.int, 16, "big")
    if fmt is fields.UUIDFormat.BINARY_VARIANT_1:
        return b
    if fmt is fields.UUIDFormat.BINARY_VARIANT_2:
        return bytes([b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6]]) + b[8:]
    out = []
    for i, x in enumerate(b):
        if fmt is fields.UUIDFormat.CANONICAL_STRING and i in (4, 6, 8, 10):
            out.append(0x2D)
        for h in (x >> 4, x & 15):
            out.append(hex_digit(rt, h))
    return bytes(out)


def hex_digit(rt, h):
    """ASCII code of a lower-case hex digit, as arithmetic (no fork)."""
    is_letter = (h + 6) >> 4          # 1 for 10..15
    return h + 0x30 + is_letter * 0x27


def uuid_kind(name, fmt, size):
    return Kind(name, size, lambda **kw: fields.UUID4(stored_as=fmt, **kw), lambda rt, n: rt.uuid(n),
                lambda rt, v: ref_uuid(rt, v, fmt))


UTC = datetime.timezone.utc


def ts_kind(name, cls, size, endian, unit_us):
    lo, hi = int_range(size, True)
    lo, hi = max(lo, -62135596800 * 1000000 // unit_us), min(hi, 253402300799999999 // unit_us)

    def val(rt, n):
        return rt.instant(rt.int(n, lo, hi) * unit_us, UTC)

    def ref(rt, v):
        return ref_int_bytes(rt, (v - datetime.datetime(1970, 1, 1, tzinfo=UTC))
                             // datetime.timedelta(microseconds=unit_us), size, endian)
    res = {1000000: "s", 1000: "ms", 1: "us"}[unit_us]
    return Kind(name, size, lambda **kw: getattr(fields, cls)(endian=endian, tz_aware=True, resolution=res, **kw),
                val, ref)


def text_kind(name, size, n, **args):
    """A string of exactly n characters, one byte each in the encoding."""
    enc = args.get("encoding", "iso-8859-1")
    hi = 0xFF if enc == "iso-8859-1" else 0x7F
    return Kind(name, size, lambda **kw: fields.String(size=size, **args, **kw),
                lambda rt, nm: rt.text(nm, n, 0, hi), lambda rt, v: bytes([ord(c) for c in v]))


def strz_kind(name, enc, unit, lengths=(0, 2)):
    def val(rt, n):
        k = rt.choice(n + ".len", lengths)
        return rt.text(n, k, 1, 0xFF if enc == "iso-8859-1" else 0x7F if unit == 1 else 0xD7FF)

    def ref(rt, v):
        out = []
        for c in v:
            out.extend([ord(c)] if unit == 1 else [ord(c) & 0xFF, ord(c) >> 8])
        return bytes(out) + b"\0" * unit
    return Kind(name, None, lambda **kw: fields.StringZ(encoding=enc, **kw), val, ref)


# encodings with a byte order mark (written in the machine's order)
_LE = sys.byteorder == "little"
MARKED = {"utf-8-sig": ([0xEF, 0xBB, 0xBF], "utf-8"), "utf-16": ([0xFF, 0xFE], "utf-16-le") if _LE else ([0xFE, 0xFF], "utf-16-be"),
          "utf-32": ([0xFF, 0xFE, 0, 0] if _LE else [0, 0, 0xFE, 0xFF], "utf-32-le")}


def ref_encode(rt, s, enc):
    """Reference encoding of text, from the definitions of the encodings; None if not encodable."""
    mark, enc = MARKED.get(enc, ([], enc))
    out = list(mark)
    for c in s:
        o = ord(c)
        if enc in ("ascii", "iso-8859-1"):
            if rt.holds(o > (0x7F if enc == "ascii" else 0xFF)):
                return None
            out.append(o)
        elif enc == "utf-8":
            if rt.holds(o < 0x80):
                out.append(o)
            elif rt.holds(o < 0x800):
                out.extend([0xC0 | (o >> 6), 0x80 | (o & 0x3F)])
            elif rt.holds(o < 0x10000):
                out.extend([0xE0 | (o >> 12), 0x80 | ((o >> 6) & 0x3F), 0x80 | (o & 0x3F)])
            else:
                out.extend([0xF0 | (o >> 18), 0x80 | ((o >> 12) & 0x3F), 0x80 | ((o >> 6) & 0x3F), 0x80 | (o & 0x3F)])
        elif enc in ("utf-16-le", "utf-16-be"):
            units = [o] if rt.holds(o < 0x10000) else [0xD800 + ((o - 0x10000) >> 10), 0xDC00 + ((o - 0x10000) & 0x3FF)]
            for u in units:
                out.extend([u & 0xFF, u >> 8] if enc == "utf-16-le" else [u >> 8, u & 0xFF])
        else:
            out.extend([o & 0xFF, (o >> 8) & 0xFF, o >> 16, 0])
    return bytes(out)


def inner_class():
    return make(("p", fields.UInt8()), ("q", fields.UInt16(endian="big")), name="Inner")


def inner_var_class():
    return make(("z", fields.StringZ()), ("w", fields.Int8()), name="InnerVar")


def nested_same(rt, got, v, msg):
    for k, x in v.items():
        rt.same(got[k], x, msg + "." + k)


KINDS = {k.name: k for k in [
    int_kind("u8", "UInt8", 1, False, None),
    int_kind("i8", "Int8", 1, True, "big"),
    int_kind("u16b", "UInt16", 2, False, "big"),
    int_kind("u16l", "UInt16", 2, False, "little"),
    int_kind("i32l", "Int32", 4, True, "little"),
    int_kind("i24b", "Integer", 3, True, "big"),
    int_kind("u64b", "UInt64", 8, False, "big"),
    vli_kind("vlq", VarIntEncoding.VLQ, U_RANGES, lambda rt, v: ref_vlq(rt, v)),
    vli_kind("uleb", VarIntEncoding.ULEB128, U_RANGES, lambda rt, v: ref_vlq(rt, v, leb=True)),
    vli_kind("leb", VarIntEncoding.LEB128, S_RANGES, lambda rt, v: ref_leb(rt, v)),
    vli_kind("compact", VarIntEncoding.COMPACT_INDICES, S_RANGES, lambda rt, v: ref_compact(rt, v)),
    float_kind("f16b", "Float16", 16, "big"),
    float_kind("f32l", "Float32", 32, "little"),
    float_kind("f64b", "Float64", 64, "big"),
    Kind("bytes3", 3, lambda **kw: fields.Bytes(size=3, **kw), lambda rt, n: rt.bytes(n, 3), lambda rt, v: v),
    Kind("bytes0", 0, lambda **kw: fields.Bytes(size=0, **kw), lambda rt, n: b"", lambda rt, v: v),
    text_kind("str3", 3, 3),
    text_kind("str3u", 3, 3, encoding="utf-8"),
    text_kind("strpad", 2, 2, pad_byte=b" "),
    strz_kind("strz", "iso-8859-1", 1),
    strz_kind("strz8", "utf-8", 1),
    strz_kind("strz16", "utf-16-le", 2, (0, 1)),
    uuid_kind("uuid1", fields.UUIDFormat.BINARY_VARIANT_1, 16),
    uuid_kind("uuid2", fields.UUIDFormat.BINARY_VARIANT_2, 16),
    uuid_kind("uuidc", fields.UUIDFormat.CANONICAL_STRING, 36),
    uuid_kind("uuidh", fields.UUIDFormat.HEX_STRING, 32),
    ts_kind("ts32", "Timestamp32", 4, "big", 1000000),
    ts_kind("ts64ms", "Timestamp64", 8, "little", 1000),
    Kind("arr3", 3, lambda **kw: fields.Array(fields.Int8(), count=3, **kw),
         lambda rt, n: [rt.int(f"{n}.{i}", -128, 127) for i in range(3)],
         lambda rt, v: bytes([x & 0xFF for x in v])),
    Kind("arrz", None, lambda **kw: fields.Array(fields.StringZ(), count=2, **kw),
         lambda rt, n: [KINDS["strz"].val(rt, f"{n}.{i}") for i in range(2)],
         lambda rt, v: b"".join([KINDS["strz"].ref(rt, x) for x in v])),
    Kind("nest", 3, lambda **kw: fields.Nested(inner_class(), **kw),
         lambda rt, n: {"p": rt.int(n + ".p", 0, 255), "q": rt.int(n + ".q", 0, 65535)},
         lambda rt, v: bytes([v["p"], v["q"] >> 8, v["q"] & 0xFF]), nested_same),
    Kind("nestvar", None, lambda **kw: fields.Nested(inner_var_class(), **kw),
         lambda rt, n: {"z": KINDS["strz"].val(rt, n + ".z"), "w": rt.int(n + ".w", -128, 127)},
         lambda rt, v: KINDS["strz"].ref(rt, v["z"]) + bytes([v["w"] & 0xFF]), nested_same),
    Kind("uni", None, lambda **kw: fields.Union(
        fields.UInt8(), fields.UInt16(endian="big"),
        load_decider=lambda st, ch, ctx, lf: ch[1] if helpers.peek_bytes(st, 1) >= b"\x80" else ch[0],
        dump_decider=lambda d, ch, ctx, af: ch[1] if d >= 0x8000 else ch[0], **kw),
        lambda rt, n: (rt.int(n, 0, 127) if rt.choice(n + ".c", (0, 1)) == 0 else rt.int(n, 0x8000, 0xFFFF)),
        lambda rt, v: bytes([v]) if rt.holds(v < 0x80) else bytes([v >> 8, v & 0xFF])),
]}

SCALARS = ["u8", "i8", "u16b", "u16l", "i32l", "i24b", "u64b", "vlq", "uleb", "leb", "compact", "f16b", "f32l", "f64b",
           "bytes3", "str3", "str3u", "strpad", "strz", "strz8", "strz16", "uuid1", "uuid2", "uuidc", "uuidh", "ts32",
           "ts64ms"]
CONTAINERS = ["arr3", "arrz", "nest", "nestvar", "uni"]
ALL_KINDS = SCALARS + CONTAINERS
FIXED = [k for k in ALL_KINDS if KINDS[k].size is not None]
VARIABLE = [k for k in ALL_KINDS if KINDS[k].size is None]


def fill(rt, layout, prefix=""):
    """Values and reference bytes of the kinds in `layout` [(field name, kind name)]."""
    vals, refs = {}, []
    for n, k in layout:
        v = KINDS[k].val(rt, prefix + n)
        vals[n] = v
        refs.append(KINDS[k].ref(rt, v))
    return vals, refs


def build(layout, **kw):
    return make(*[(n, KINDS[k].field()) for n, k in layout], **kw)


def cat(parts):
    out = b""
    for p in parts:
        out = out + p
    return out
