"""C09 UUIDs in each storage format."""
from kit import *

BOUNDS = {"quick": "every UUID, every format; truncation at every length; every 16-byte string on binary loads; text in "
                   "upper or lower case digits"}
OUTSIDE = "malformed text"
F = fields.UUIDFormat
FORMATS = [(F.BINARY_VARIANT_1, 16), (F.BINARY_VARIANT_2, 16), (F.CANONICAL_STRING, 36), (F.HEX_STRING, 32)]


@case(FORMATS + [(None, 16)])
def roundtrip(rt, cfg):
    """every UUID"""
    fmt, size = cfg
    f = fields.UUID4(stored_as=fmt) if fmt else fields.UUID4()
    fmt = fmt or F.BINARY_VARIANT_1
    u = rt.uuid("u")
    want = ref_uuid(rt, u, fmt)
    rt.eq(f.size, size, "size")
    got = f.to_bytes(u)
    rt.observe("bytes", got)
    rt.eq(got, want, "stored bytes")
    back = f.from_bytes(want)
    rt.check(isinstance(back, type(u)), "not a UUID")
    rt.eq(back, u, "load(dump(u)) != u")


@case(FORMATS)
def in_struct(rt, cfg):
    """between other fields, from the middle of a stream"""
    fmt, size = cfg
    S = make(("a", fields.UInt8()), ("x", fields.UUID4(stored_as=fmt)), ("b", fields.UInt8()))
    u = rt.uuid("u")
    a = rt.int("a", 0, 255)
    b = rt.int("b", 0, 255)
    raw = bytes([a]) + ref_uuid(rt, u, fmt) + bytes([b])
    rt.eq(S(a=a, x=u, b=b).to_bytes(), raw, "struct bytes")
    st = io.BytesIO(b"00" + raw + b"zz")
    st.seek(2)
    t = S.from_stream(st)
    rt.eq(t.x, u, "loaded UUID")
    rt.eq(t.a, a, "loaded a")
    rt.eq(t.b, b, "loaded b")
    rt.eq(st.tell(), 2 + len(raw), "position")
    rt.eq(S.get_size(), size + 2, "struct size")


@case(FORMATS[:2])
def load_any(rt, cfg):
    """every 16 bytes are a UUID, and are given back on dump"""
    fmt, size = cfg
    f = fields.UUID4(stored_as=fmt)
    d = rt.bytes("d", 16)
    u = f.from_bytes(d)
    p = d if fmt is F.BINARY_VARIANT_1 else bytes([d[3], d[2], d[1], d[0], d[5], d[4], d[7], d[6]]) + d[8:]
    rt.eq(u.int, ref_int_value(p, "big", False), "number of the UUID")
    rt.eq(f.to_bytes(u), d, "dump(load(b)) != b")


@case([(f, s, k) for f, s in FORMATS for k in (0, 1, 2, 15, 16, 31, 35) if k < s])
def short(rt, cfg):
    """input that ends early"""
    fmt, size, k = cfg
    f = fields.UUID4(stored_as=fmt)
    d = rt.bytes("d", k)
    rt.raises((errors.UnexpectedEOFError,), lambda: f.from_bytes(d), "short input accepted")
    rt.raises((errors.UnexpectedEOFError,), lambda: make(("x", f)).from_bytes(d), "short input accepted by a struct")
    u = rt.uuid("u")
    b = ref_uuid(rt, u, fmt)[:k]
    rt.raises((errors.UnexpectedEOFError,), lambda: f.from_bytes(b), "a cut UUID is accepted")


@case(FORMATS)
def nullable(rt, cfg):
    """None as the null value; everything else is a UUID"""
    fmt, size = cfg
    f = fields.UUID4(stored_as=fmt, null_value=b"\xff" * size)
    rt.eq(f.to_bytes(None), b"\xff" * size, "null")
    rt.check(f.from_bytes(b"\xff" * size) is None, "null does not load as None")
    u = rt.uuid("u")
    rt.assume(u.int != (1 << 128) - 1)
    rt.eq(f.from_bytes(ref_uuid(rt, u, fmt)), u, "a UUID loads as something else")
