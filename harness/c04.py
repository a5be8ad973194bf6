"""C04 decoding variable-length integers from arbitrary bytes."""
from kit import *
from c03 import FMT, FN, SIGNED

BOUNDS = {"quick": "encodings of 1..12 bytes with arbitrary payload bits (canonical or not) and 0..2 arbitrary bytes "
                   "behind; truncation after 0..12 bytes", "thorough": "up to 40 bytes"}
OUTSIDE = "longer encodings"


def value(rt, fmt, data):
    gs = [b & 0x7F for b in data]
    if fmt in ("uleb", "leb"):
        n = 0
        for i, g in enumerate(gs):
            n |= g << (7 * i)
        if fmt == "leb":
            sign = gs[-1] >> 6
            n = n - (sign << (7 * len(gs)))
        return n
    if fmt == "vlq":
        n = 0
        for g in gs:
            n = (n << 7) | g
        return n
    n = gs[0] & 0x3F
    for g in gs[1:]:
        n = (n << 7) | g
    return -n if rt.holds((data[0] & 0x40) != 0) else n


LENS = list(range(1, 13))


@case([(f, n) for f in FMT for n in LENS], [(f, n) for f in FMT for n in range(13, 41)])
def decode(rt, cfg):
    """any terminated byte string, with something behind it and before it"""
    fmt, n = cfg
    d = rt.bytes("d", n)
    for i in range(n - 1):
        rt.assume(d[i] >= 0x80)
    rt.assume(d[n - 1] < 0x80)
    tail = rt.bytes("tail", rt.choice("ntail", (0, 1, 2)))
    want = value(rt, fmt, d)
    st = io.BytesIO(b"??" + d + tail)
    st.seek(2)
    got = getattr(varints, FN[fmt][1])(st)
    rt.observe("value", got)
    rt.check(isinstance(got, int), "not an int")
    rt.eq(got, want, "decoded value")
    rt.eq(st.tell(), 2 + n, "bytes consumed")
    rt.eq(st.read(), tail, "bytes left")


@case([(f, n) for f in FMT for n in (1, 2, 3, 5, 9)])
def field(rt, cfg):
    """through the field: from_stream, from_bytes, inside a struct"""
    fmt, n = cfg
    d = rt.bytes("d", n)
    for i in range(n - 1):
        rt.assume(d[i] >= 0x80)
    rt.assume(d[n - 1] < 0x80)
    want = value(rt, fmt, d)
    f = fields.VariableLengthInteger(vli_format=FMT[fmt])
    S = make(("a", f), ("b", fields.UInt8()))
    b = rt.int("b", 0, 255)
    s = S.from_bytes(d + bytes([b]))
    rt.eq(s.a, want, "value in a struct")
    rt.eq(s.b, b, "the next field")
    rt.eq(f.from_bytes(d), want, "from_bytes")
    e = rt.raises((errors.ExtraneousDataError,), lambda: f.from_bytes(d + bytes([b])), "trailing byte accepted")


@case([(f, n) for f in FMT for n in range(0, 13)], [(f, n) for f in FMT for n in range(13, 41)])
def truncated(rt, cfg):
    """input that ends before the last byte"""
    fmt, n = cfg
    d = rt.bytes("d", n)
    for i in range(n):
        rt.assume(d[i] >= 0x80)
    EOF = (errors.UnexpectedEOFError,)
    rt.raises(EOF, lambda: getattr(varints, FN[fmt][1])(io.BytesIO(d)), "the decoder accepts truncated input")
    f = fields.VariableLengthInteger(vli_format=FMT[fmt])
    rt.raises(EOF, lambda: f.from_bytes(d), "the field accepts truncated input")
    S = make(("a", f))
    rt.raises(EOF, lambda: S.from_bytes(d), "the struct accepts truncated input")
