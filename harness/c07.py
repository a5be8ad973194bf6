"""C07 null-terminated strings."""
from kit import *

BOUNDS = {"quick": "arbitrary text of 0..3 characters without NUL in 9 encodings (with and without byte order mark); every byte string of 0..5 bytes as "
                   "input; long Latin-1 strings up to 257; sizes 0..8 with and without pad byte"}
OUTSIDE = "stateful encodings; data in UTF-16 or UTF-32 with byte order mark that has none"
ENCS = ["iso-8859-1", "ascii", "utf-8", "utf-16-le", "utf-16-be", "utf-32-le"]
UNIT = {"iso-8859-1": 1, "ascii": 1, "utf-8": 1, "utf-16-le": 2, "utf-16-be": 2, "utf-32-le": 4, "utf-8-sig": 1, "utf-16": 2, "utf-32": 4}
COVERS = {"load": ["terminated", "unterminated", "not text"]}


def marked(rt, d, enc):
    """Data in an encoding with byte order mark starts with one (the decoders differ in what they make of anything else)."""
    unit = UNIT[enc]
    if unit > 1 and enc in MARKED and len(d) >= unit:
        mark = b"\xff\xfe" + b"\0" * (unit - 2)
        rt.assume(rt.holds(d[:unit] == mark) or d[:unit] == mark[::-1])


@case([(e, n) for e in [None] + ENCS + list(MARKED) for n in (0, 1, 2, 3)])
def roundtrip(rt, cfg):
    """text without NUL, on its own and between other fields"""
    enc, n = cfg
    f = fields.StringZ(**({} if enc is None else {"encoding": enc}))
    enc = enc or "iso-8859-1"
    s = rt.text("s", n, exclude=(0,))
    b = ref_encode(rt, s, enc)
    rt.assume(b is not None)
    want = b + b"\0" * UNIT[enc]
    got = f.to_bytes(s)
    rt.observe("bytes", got)
    rt.eq(got, want, "bytes")
    rt.same(f.from_bytes(want), s, "load(dump(s)) != s")
    tail = rt.bytes("tail", 2)
    st = io.BytesIO(b"?" + want + tail)
    st.seek(1)
    rt.same(f.from_stream(st), s, "text loaded from a stream")
    rt.eq(st.tell(), 1 + len(want), "position after the load")
    S = make(("a", fields.UInt8()), ("x", f), ("y", fields.StringZ(encoding=enc)), ("b", fields.UInt8()))
    t = S(a=1, x=s, y=s, b=2)
    rt.eq(t.to_bytes(), b"\x01" + want + want + b"\x02", "bytes inside a struct")
    u = S.from_bytes(b"\x01" + want + want + b"\x02")
    rt.same(u.x, s, "loaded from a struct")
    rt.same(u.y, s, "loaded from a struct (second)")
    rt.eq(u.b, 2, "the field behind")


@case([15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257], [1023, 1024, 1025, 4096])
def long(rt, n):
    """long text"""
    f = fields.StringZ()
    s = rt.text("s", n, 1, 255)
    b = bytes([ord(c) for c in s])
    rt.eq(f.to_bytes(s), b + b"\0", "bytes")
    st = io.BytesIO(b + b"\0" + b"q")
    rt.same(f.from_stream(st), s, "text")
    rt.eq(st.tell(), n + 1, "position")


@case([(e, n) for e in ENCS + ["utf-8-sig", "utf-16"] for n in range(0, 6)] + [("utf-16", 6), ("utf-32", 4), ("utf-32", 8), ("utf-32", 9)])
def load(rt, cfg):
    """every byte string as input"""
    enc, n = cfg
    unit = UNIT[enc]
    f = fields.StringZ(encoding=enc)
    d = rt.bytes("d", n)
    marked(rt, d, enc)
    st = io.BytesIO(b"#" + d)
    st.seek(1)
    # where the first terminator is: aligned code units for the fixed-unit encodings
    end = None
    for i in range(0, n - unit + 1, unit):
        if rt.holds(d[i:i + unit] == b"\0" * unit):
            end = i
            break
    head = d if end is None else d[:end]
    text = None
    try:
        text = head.decode(enc)
    except UnicodeDecodeError:
        pass
    if end is not None and text is not None:
        rt.cover("terminated")
        got = f.from_stream(st)
        rt.observe("text", got)
        rt.same(got, text, "text before the terminator")
        rt.eq(st.tell(), 1 + end + unit, "position after the terminator")
        return
    rt.cover("unterminated" if end is None else "not text")
    rt.raises((errors.DeserializationError,), lambda: f.from_stream(st),
              "no terminator, or not text, but the input is accepted")
    if end is None and text is not None:
        st.seek(1)
        rt.raises((errors.UnexpectedEOFError,), lambda: f.from_stream(st), "end of input before the terminator")


@case([(e, size, pad) for e in ("iso-8859-1", "utf-16-le") for size in (1, 2, 3, 4, 6) for pad in (None, b"\0", b"*")] +
      [("utf-16", 6, None), ("utf-16", 6, b"*"), ("utf-16", 5, b"*"), ("utf-8-sig", 4, b"*"), ("utf-8-sig", 5, b"*")])
def sized(rt, cfg):
    """a configured maximum size: exhausted, exactly used, padded"""
    enc, size, pad = cfg
    unit = UNIT[enc]
    f = fields.StringZ(encoding=enc, size=size, **({} if pad is None else {"pad_byte": pad}))
    S = make(("a", fields.UInt8()), ("x", f), ("b", fields.UInt8()))
    d = rt.bytes("d", size + 1)
    marked(rt, d, enc)
    end = None
    for i in range(0, size - unit + 1, unit):
        if rt.holds(d[i:i + unit] == b"\0" * unit):
            end = i
            break
    if end is None:
        rt.raises((errors.DeserializationError,), lambda: f.from_stream(io.BytesIO(d)),
                  "no terminator within the size, but the input is accepted")
        return
    try:
        text = d[:end].decode(enc)
    except UnicodeDecodeError:
        return
    st = io.BytesIO(d)
    got = f.from_stream(st)
    rt.observe("text", got)
    rt.same(got, text, "text")
    rt.eq(st.tell(), size if pad else end + unit, "bytes consumed")


@case([(size, pad) for size in (1, 2, 3, 5) for pad in (b"\0", b"*")])
def sized_roundtrip(rt, cfg):
    """what is dumped with padding loads back, and the next field is found"""
    size, pad = cfg
    n = rt.choice("n", range(size))
    s = rt.text("s", n, 1, 255)
    S = make(("x", fields.StringZ(size=size, pad_byte=pad)), ("b", fields.UInt16(endian="big")))
    b = rt.int("b", 0, 65535)
    out = S(x=s, b=b).to_bytes()
    rt.eq(out, bytes([ord(c) for c in s]) + b"\0" + pad * (size - n - 1) + bytes([b >> 8, b & 255]), "bytes")
    t = S.from_bytes(out)
    rt.same(t.x, s, "text")
    rt.same(t.b, b, "the field behind the padding")
    rt.raises((errors.UnexpectedEOFError,), lambda: S.from_bytes(out[:rt.choice("cut", range(size + 2))]), "cut")


@case([(e, n) for e in ("iso-8859-1", "utf-8") for n in (1, 2, 3)])
def embedded(rt, cfg):
    """text with an embedded NUL loads back up to it, and dumps as it is"""
    enc, n = cfg
    s = rt.text("s", n, 0, 0x7F)
    k = rt.choice("k", range(n))
    rt.assume(s[k] == "\0")
    for i in range(k):
        rt.assume(s[i] != "\0")
    f = fields.StringZ(encoding=enc)
    b = f.to_bytes(s)
    rt.eq(b, bytes([ord(c) for c in s]) + b"\0", "bytes")
    rt.same(f.from_bytes(b, exact=False), s[:k], "text up to the first NUL")


@case(["d"])
def default_unlimited(rt, cfg):
    """a default value does not limit what is loaded"""
    f = fields.StringZ(default="ab")
    S = make(("x", f), ("b", fields.UInt8()))
    n = rt.choice("n", (0, 1, 2, 3, 5))
    s = rt.text("s", n, 1, 255)
    d = bytes([ord(c) for c in s]) + b"\0"
    rt.same(f.from_bytes(d), s, "field")
    rt.same(S.from_bytes(d + b"\x05").x, s, "struct")
    rt.eq(S(b=5).to_bytes(), b"ab\0\x05", "dump of the default")
