"""C01 fixed-size integers: exact two's-complement layout, mutually inverse load and dump."""
from kit import *

SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 32, 33]
ENDS = [None, "big", "little"]
NAMED = [("Int8", 1, True), ("Int16", 2, True), ("Int32", 4, True), ("Int64", 8, True),
         ("UInt8", 1, False), ("UInt16", 2, False), ("UInt32", 4, False), ("UInt64", 8, False)]

CFGS = [("Integer", s, g, e) for s in SIZES for g in (True, False) for e in ENDS]
CFGS += [("UnsignedInteger", s, False, e) for s in (1, 3, 8) for e in ENDS]
CFGS += [(n, s, g, e) for n, s, g in NAMED for e in ENDS]
THOROUGH = [("Integer", s, g, e) for s in (9, 10, 15, 17, 24, 64, 100) for g in (True, False) for e in ENDS]

BOUNDS = {"quick": "every value of every width 1..8, 12, 16, 32, 33 bytes (thorough: also 9..100), both byte orders "
                   "and native order, signed and unsigned; all byte strings of those widths",
          }
OUTSIDE = "widths above 100 bytes; Python builds on big-endian machines (native order is the machine's)"


def build(cfg, **kw):
    cls, size, signed, endian = cfg
    if endian is not None:
        kw["endian"] = endian
    if cls == "Integer":
        f = fields.Integer(size=size, signed=signed, **kw)
    elif cls == "UnsignedInteger":
        f = fields.UnsignedInteger(size=size, **kw)
    else:
        f = getattr(fields, cls)(**kw)
    return f, size, signed, endian or sys.byteorder


@case(CFGS, THOROUGH)
def dump_field(rt, cfg):
    """field.to_bytes / to_stream write exactly the reference layout"""
    f, size, signed, endian = build(cfg)
    lo, hi = int_range(size, signed)
    v = rt.int("v", lo, hi)
    want = ref_int_bytes(rt, v, size, endian)
    got = f.to_bytes(v)
    rt.observe("bytes", got)
    rt.eq(got, want, "to_bytes differs from the reference layout")
    st = io.BytesIO()
    st.write(b"ab")
    f.to_stream(st, v)
    rt.eq(st.getvalue(), b"ab" + want, "to_stream differs from the reference layout")
    rt.eq(f.from_bytes(got), v, "load(dump(v)) != v")


@case(CFGS, THOROUGH)
def load_field(rt, cfg):
    """from_bytes gives exactly the number the bytes denote, and dumping gives the bytes back"""
    f, size, signed, endian = build(cfg)
    data = rt.bytes("d", size)
    want = ref_int_value(data, endian, signed)
    got = f.from_bytes(data)
    rt.observe("value", got)
    rt.check(isinstance(got, int), "loaded value is not an int")
    rt.eq(got, want, "loaded value differs from the reference")
    rt.eq(f.to_bytes(got), data, "dump(load(b)) != b")
    st = io.BytesIO(b"xyz" + data + b"qq")
    st.seek(3)
    rt.eq(f.from_stream(st), want, "from_stream differs")
    rt.eq(st.tell(), 3 + size, "stream position after the load")


@case(CFGS)
def in_struct(rt, cfg):
    """the same inside a struct, between two other fields"""
    f, size, signed, endian = build(cfg)
    S = make(("a", fields.UInt8()), ("x", f), ("b", fields.UInt8()))
    lo, hi = int_range(size, signed)
    v = rt.int("v", lo, hi)
    a = rt.int("a", 0, 255)
    b = rt.int("b", 0, 255)
    want = bytes([a]) + ref_int_bytes(rt, v, size, endian) + bytes([b])
    s = S(a=a, x=v, b=b)
    got = s.to_bytes()
    rt.observe("bytes", got)
    rt.eq(got, want, "struct bytes")
    t = S.from_bytes(want)
    rt.eq(t.x, v, "loaded x")
    rt.eq(t.a, a, "loaded a")
    rt.eq(t.b, b, "loaded b")
    rt.eq(bytes(t), want, "dump(load(b)) != b")
