"""C06 fixed-size strings."""
from kit import *

BOUNDS = {"quick": "arbitrary Unicode text of 0..4 characters (no surrogates), sizes 0..8 bytes, 9 encodings (with and without byte order mark), four pad "
                   "bytes; long fields of 15..257 bytes with arbitrary Latin-1 content; all byte strings of 1..4 bytes "
                   "on load"}
OUTSIDE = "stateful encodings such as iso-2022"
COVERS = {"dump": ["fits", "padded", "too long", "too short"]}
ENCS = ["iso-8859-1", "ascii", "utf-8", "utf-16-le", "utf-16-be", "utf-32-le"]


def mk(enc, size, pad, **kw):
    if enc is not None:
        kw["encoding"] = enc
    if pad is not None:
        kw["pad_byte"] = pad
    return fields.String(size=size, **kw)


@case([(e, s, p) for e in [None] + ENCS for s in (0, 1, 2, 3, 4, 6) for p in (None, b" ", b"\0", b"\xff")] +
      [(e, s, p) for e, sizes in (("utf-8-sig", (2, 3, 4, 6)), ("utf-16", (1, 2, 3, 4, 6, 8)), ("utf-32", (3, 4, 8, 9))) for s in sizes for p in (None, b" ")])
def dump(rt, cfg):
    """text of every length against every size"""
    enc, size, pad = cfg
    n = rt.choice("n", range(0, 5 if enc in ("ascii", "iso-8859-1", None) else 4))
    s = rt.text("s", n)
    f = mk(enc, size, pad)
    enc = enc or "iso-8859-1"
    b = ref_encode(rt, s, enc)
    rt.assume(b is not None)
    if size in (0, 1, 2) or n == 0:
        pass
    if len(b) > size:
        rt.cover("too long")
        rt.raises((errors.ValueSizeError,), lambda: f.to_bytes(s), "text that is too long is accepted")
    elif len(b) < size and pad is None:
        rt.cover("too short")
        rt.raises((errors.ValueSizeError,), lambda: f.to_bytes(s), "text that is too short is accepted")
    else:
        rt.cover("fits" if len(b) == size else "padded")
        want = b + (pad or b"") * (size - len(b))
        got = f.to_bytes(s)
        rt.observe("bytes", got)
        rt.eq(got, want, "bytes")
        rt.eq(len(got), size, "size")
        if len(b) == size:
            rt.same(f.from_bytes(got), s, "load(dump(s)) != s")
        elif enc == "iso-8859-1" or (pad != b"\xff" and enc in ("ascii", "utf-8")):
            rt.same(f.from_bytes(got), s + pad.decode("iso-8859-1") * (size - len(b)), "padded text")
        S = make(("a", fields.UInt8()), ("x", f), ("b", fields.UInt8()))
        t = S(a=1, x=s, b=2)
        rt.eq(t.to_bytes(), b"\x01" + want + b"\x02", "bytes inside a struct")
        if len(b) == size:
            u = S.from_bytes(b"\x01" + want + b"\x02")
            rt.same(u.x, s, "loaded from a struct")
            rt.eq(u.b, 2, "the field behind")


@case([(n, p) for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257) for p in (None, b" ")],
      [(n, p) for n in (511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097) for p in (None, b" ")])
def long(rt, cfg):
    """long fields: exact fit, one character short, one too many"""
    size, pad = cfg
    f = mk(None, size, pad)
    k = rt.choice("k", (size, size - 1, size + 1, 1))
    s = rt.text("s", k, 0, 255)
    if k > size or (k < size and pad is None):
        rt.raises((errors.ValueSizeError,), lambda: f.to_bytes(s), "wrong size accepted")
        return
    want = bytes([ord(c) for c in s]) + b" " * (size - k)
    got = f.to_bytes(s)
    rt.eq(got, want, "bytes")
    rt.same(f.from_bytes(want), s + " " * (size - k), "loaded text")
    st = io.BytesIO(b"ab" + want + b"cd")
    st.seek(2)
    rt.same(f.from_stream(st), s + " " * (size - k), "text loaded from a stream")
    rt.eq(st.tell(), 2 + size, "position after the load")


@case([(e, n) for e in ENCS + ["utf-8-sig", "utf-16"] for n in (0, 1, 2, 3, 4)] + [("utf-32", n) for n in (3, 4, 5, 8)] + [("utf-8-sig", 5), ("utf-16", 6)])
def load(rt, cfg):
    """every byte string of the field's size: its decoding or an error, exactly size bytes read"""
    enc, n = cfg
    f = mk(enc, n, None)
    d = rt.bytes("d", n)
    st = io.BytesIO(b"?" + d + b"!!")
    st.seek(1)
    try:
        want = d.decode(enc)
    except UnicodeDecodeError:
        try:
            f.from_stream(st)
        except (errors.Error, UnicodeDecodeError):
            rt.check(True, "")
            return
        rt.fail("bytes that are not text in the encoding are accepted")
        return
    got = f.from_stream(st)
    rt.observe("text", got)
    rt.same(got, want, "decoded text")
    rt.eq(st.tell(), 1 + n, "position after the load")
    if enc not in MARKED:
        rt.eq(f.to_bytes(got), d, "dump(load(b)) != b")


@case([(e, n) for e in ("iso-8859-1", "utf-8", "utf-16-le") for n in (1, 2, 4, 16)])
def short(rt, cfg):
    """input that ends early"""
    enc, n = cfg
    f = mk(enc, n, b" ")
    d = rt.bytes("d", rt.choice("k", range(n)))
    rt.raises((errors.UnexpectedEOFError,), lambda: f.from_bytes(d), "short input accepted")
    S = make(("x", f))
    rt.raises((errors.UnexpectedEOFError,), lambda: S.from_bytes(d), "short input accepted by a struct")


@case([b"", b"ab", " ", 0, b"  "])
def bad_pad(rt, pad):
    """the pad byte must be a single byte"""
    rt.raises((errors.ConfigurationError,), lambda: fields.String(size=4, pad_byte=pad), "bad pad byte accepted")


@case(["str", "ba"])
def const(rt, cfg):
    """a constant string without a size takes exactly its encoded length"""
    n = rt.choice("n", (0, 1, 3))
    s = rt.text("s", n, 0, 0x7FF)
    f = fields.String(const=s, encoding="utf-8")
    b = ref_encode(rt, s, "utf-8")
    rt.eq(f.size, len(b), "size of the constant")
    rt.eq(f.to_bytes(), b, "dump of the constant")
    rt.same(f.from_bytes(b), s, "load of the constant")
    if cfg == "ba":
        g = fields.String(size=n + 2, pad_byte=bytearray(b"_"))
        rt.assume(rt.holds(len(b) == n))
        rt.eq(g.to_bytes(s), b + b"__", "bytearray as pad byte")


@case([(e, meta, n) for e in ("utf-8", "utf-16-le", None) for meta in (None, "utf-16-be", "utf-8") for n in (0, 1, 2)])
def const_sized(rt, cfg):
    """a constant or default with an explicit size is padded to it"""
    enc, meta, n = cfg
    s = rt.text("s", n, 1, 0x7FF if enc or meta else 0xFF)
    real = enc or meta or "iso-8859-1"
    b = ref_encode(rt, s, real)
    size = 6
    want = b + b"_" * (size - len(b))
    for what in ("const", "default"):
        f = mk(enc, size, b"_", **{what: s})
        S = make(("a", fields.UInt8()), ("x", f), ("b", fields.UInt8()), meta={"encoding": meta} if meta else None)
        rt.check(f.size == size and S.get_size() == size + 2 and f.offset == 1 and S.b.offset == size + 1, "sizes")
        t = S(a=1, b=2)
        rt.eq(t.to_bytes(), b"\x01" + want + b"\x02", "bytes inside a struct")
        rt.check(len(t) == size + 2, "length")
        rt.eq(S.x.to_bytes(), want, "field alone")
        rt.eq(S.x.to_bytes(s), want, "field alone, value given")
