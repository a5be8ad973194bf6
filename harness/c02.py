"""C02 a value that does not fit its field is rejected, nothing of it is written."""
from kit import *

ERR = (errors.SerializationError,)
OUTSIDE = "custom Field subclasses other than ones that write the bytes they are given; values of the wrong Python type"
BOUNDS = {"quick": "integers of 1..16 bytes with values up to 8x outside the range on both sides; strings of up to 4 "
                   "arbitrary characters in 6 encodings in fields of 0..5 bytes, bytes of 0..5 in fields of 0..4; all "
                   "doubles; variable-length integers up to 70 bits with max_bytes 0..8; arrays of 0..4 elements "
                   "against counts 0..3, given as list, tuple, iterator or count field"}

SIZES = [1, 2, 3, 4, 7, 8, 16]
INT_CFGS = [(s, g, e) for s in SIZES for g in (True, False) for e in (None, "big", "little")]
NAMED = [("Int8", 1, True), ("Int16", 2, True), ("Int32", 4, True), ("Int64", 8, True),
         ("UInt8", 1, False), ("UInt16", 2, False), ("UInt32", 4, False), ("UInt64", 8, False)]


def rejected(rt, f, v, fits, want=None):
    """f must accept v (writing want) or reject it (writing nothing), alone and inside a struct."""
    S = make(("a", fields.UInt8()), ("x", f), ("b", fields.UInt8()))
    s = S(a=7, x=v, b=9)
    st = io.BytesIO()
    st.write(b"ab")
    st2 = io.BytesIO()
    st2.write(b"cd")
    if rt.holds(fits):
        rt.cover("fits")
        f.to_stream(st, v)
        s.to_stream(st2)
        rt.observe("out", st.getvalue())
        if want is not None:
            rt.eq(st.getvalue(), b"ab" + want, "bytes of an acceptable value")
            rt.eq(f.to_bytes(v), want, "to_bytes of an acceptable value")
            rt.eq(st2.getvalue(), b"cd\x07" + want + b"\x09", "struct bytes of an acceptable value")
    else:
        rt.cover("rejected")
        rt.raises(ERR, lambda: f.to_bytes(v), "to_bytes accepts a value that does not fit")
        rt.raises(ERR, lambda: f.to_stream(st, v), "to_stream accepts a value that does not fit")
        rt.eq(st.getvalue(), b"ab", "bytes of a rejected value were written")
        rt.raises(ERR, lambda: s.to_stream(st2), "the struct accepts a value that does not fit")
        rt.check(st2.getvalue() in (b"cd", b"cd\x07"), "the struct wrote bytes of a rejected value")
        rt.raises(ERR, lambda: s.to_bytes(), "Struct.to_bytes accepts a value that does not fit")


COVERS = {c: ["fits", "rejected"] for c in ("integers", "named_integers", "varints", "strings", "bytes_", "arrays",
                                            "floats", "stringz", "custom")}


@case(INT_CFGS)
def integers(rt, cfg):
    """out-of-range integers of any size"""
    size, signed, endian = cfg
    lo, hi = int_range(size, signed)
    span = 4 << (8 * size)
    v = rt.int("v", lo - span, hi + span)
    kw = {} if endian is None else {"endian": endian}
    fits = rt.holds(v >= lo) and rt.holds(v <= hi)
    want = ref_int_bytes(rt, v, size, endian or sys.byteorder) if fits else None
    rejected(rt, fields.Integer(size=size, signed=signed, **kw), v, fits, want)


@case(NAMED)
def named_integers(rt, cfg):
    """out-of-range values of the predefined integer classes, and of UnsignedInteger"""
    name, size, signed = cfg
    lo, hi = int_range(size, signed)
    span = 4 << (8 * size)
    v = rt.int("v", lo - span, hi + span)
    f = getattr(fields, name)()
    if not signed and rt.choice("generic", (False, True)):
        f = fields.UnsignedInteger(size=size)
    fits = rt.holds(v >= lo) and rt.holds(v <= hi)
    rejected(rt, f, v, fits, ref_int_bytes(rt, v, size, sys.byteorder) if fits else None)


VL = [(VarIntEncoding.VLQ, m) for m in (None, 0, 1, 2, 3, 8)] + [(VarIntEncoding.ULEB128, m) for m in (None, 0, 1, 2, 3, 8)] \
    + [(VarIntEncoding.LEB128, m) for m in (0, 1, 2, 3, 8)] + [(VarIntEncoding.COMPACT_INDICES, m) for m in (0, 1, 2, 3, 8)]


@case(VL)
def varints(rt, cfg):
    """negative numbers in unsigned encodings, encodings longer than max_bytes"""
    fmt, mb = cfg
    bits = 36 if mb is None else 7 * mb + 8
    v = rt.int("v", -(1 << bits), (1 << bits) - 1)
    f = fields.VariableLengthInteger(vli_format=fmt, **({} if mb is None else {"max_bytes": mb}))
    m = 99 if mb is None else mb
    if m == 0:
        rejected(rt, f, v, False, None)
        return
    if fmt in (VarIntEncoding.VLQ, VarIntEncoding.ULEB128):
        fits = rt.holds(v >= 0) and rt.holds(v < (1 << (7 * m)))
        want = ref_vlq(rt, v, bits + 1, fmt is VarIntEncoding.ULEB128) if fits else None
    elif fmt is VarIntEncoding.LEB128:
        fits = rt.holds(v >= -(1 << (7 * m - 1))) and rt.holds(v < (1 << (7 * m - 1)))
        want = ref_leb(rt, v, bits + 1) if fits else None
    else:
        fits = rt.holds(v > -(1 << (7 * m - 1))) and rt.holds(v < (1 << (7 * m - 1)))
        want = ref_compact(rt, v, bits + 1) if fits else None
    rejected(rt, f, v, fits, want)


ENCS = ["iso-8859-1", "ascii", "utf-8", "utf-16-le", "utf-16-be", "utf-32-le"]
STR_CFGS = [(e, sz, pad) for e in ENCS for sz in (0, 1, 2, 4, 5) for pad in (None, b" ", b"\0")]


@case(STR_CFGS)
def strings(rt, cfg):
    """text whose encoding is too long, too short without padding, or does not exist"""
    enc, size, pad = cfg
    n = rt.choice("n", range(0, 4 if enc == "utf-8" else 5))
    s = rt.text("s", n)
    f = fields.String(size=size, encoding=enc, **({} if pad is None else {"pad_byte": pad}))
    b = ref_encode(rt, s, enc)
    fits = b is not None and (len(b) == size or (len(b) < size and pad is not None))
    rejected(rt, f, s, fits, b + (pad or b"") * (size - len(b)) if fits else None)


@case([(e, sz, pad) for e in ("iso-8859-1", "utf-8", "utf-16-le") for sz in (None, 0, 2, 4, 6) for pad in (None, b"\0", b"*")
       if not (sz is None and pad)])
def stringz(rt, cfg):
    """null-terminated text with and without a size"""
    enc, size, pad = cfg
    n = rt.choice("n", range(0, 4))
    s = rt.text("s", n)
    f = fields.StringZ(encoding=enc, **({} if pad is None else {"pad_byte": pad}),
                       **({} if size is None else {"size": size}))
    b = ref_encode(rt, s + "\0", enc)
    fits = b is not None and (size is None or len(b) == size or (len(b) < size and pad is not None))
    if size is None and enc != "iso-8859-1":
        rt.cover("rejected")
    rejected(rt, f, s, fits, b + (pad or b"") * ((size or 0) - len(b)) if fits else None)


@case([(sz, n) for sz in range(0, 5) for n in range(0, 6)] + [(256, 255), (256, 256), (256, 257), (16, 17), (64, 63)])
def bytes_(rt, cfg):
    """byte strings of the wrong length"""
    size, n = cfg
    v = rt.bytes("v", n)
    rejected(rt, fields.Bytes(size=size), v, n == size, v)


@case([16, 32, 64])
def floats(rt, cfg):
    """numbers that are finite but too large"""
    x = rt.float("x")
    bits, over = rt.ieee_narrow(x, cfg)
    rt.assume(x == x)
    fits = not rt.holds(over)
    if cfg == 64:
        rt.cover("rejected")
    f = getattr(fields, f"Float{cfg}")(endian=rt.choice("e", ("big", "little")))
    rejected(rt, f, x, fits, ref_int_bytes(rt, bits, cfg // 8, f.endian) if fits else None)


@case([(c, n, how) for c in range(0, 4) for n in range(0, 5) for how in ("list", "tuple", "iter", "field", "name")])
def arrays(rt, cfg):
    """sequences and iterators of the wrong length"""
    count, n, how = cfg
    v = [rt.int(f"v{i}", 0, 255) for i in range(n)]
    want = bytes(v)
    if how in ("field", "name"):
        cf = fields.UInt8()
        S = make(("n", cf), ("x", fields.Array(fields.UInt8(), count=cf if how == "field" else "n")))
        k = rt.int("k", 0, 255)
        st = io.BytesIO()
        s = S(n=k, x=v)
        if rt.holds(k == n):
            rt.cover("fits")
            s.to_stream(st)
            rt.eq(st.getvalue(), bytes([k]) + want, "array bytes")
        else:
            rt.cover("rejected")
            rt.raises(ERR, lambda: s.to_stream(st), "array length differs from the count field")
            rt.check(len(st.getvalue()) <= 1, "elements of a rejected array were written")
        return
    f = fields.Array(fields.UInt8(), count=count)
    conv = {"list": list, "tuple": tuple, "iter": lambda x: iter(x)}[how]
    st = io.BytesIO()
    if count == n:
        rt.cover("fits")
        f.to_stream(st, conv(v))
        rt.eq(st.getvalue(), want, "array bytes")
    else:
        rt.cover("rejected")
        rt.raises(ERR, lambda: f.to_stream(st, conv(v)), "array length differs from the count")
        rt.eq(st.getvalue(), b"", "elements of a rejected array were written")
        rt.raises(ERR, lambda: f.to_bytes(conv(v)), "to_bytes: array length differs from the count")


@case(["u8", "i24b", "vlq", "f32l", "bytes3", "str3", "strz", "uuid1", "ts32", "arr3", "nest", "uni"])
def none_and_missing(rt, cfg):
    """None for a field that is not nullable, no value and no default"""
    K = KINDS[cfg]
    f = K.field()
    S = make(("a", fields.UInt8()), ("x", f))
    a = rt.int("a", 0, 255)
    st = io.BytesIO()
    rt.raises(ERR, lambda: f.to_stream(st, None), "None accepted by a field that is not nullable")
    rt.raises(ERR, lambda: f.to_bytes(), "no value and no default accepted")
    rt.raises((errors.MissingRequiredValueError,), lambda: f.to_stream(st), "no value and no default accepted")
    rt.raises(ERR, lambda: S(a=a, x=None).to_stream(io.BytesIO()), "struct accepts None")
    rt.raises(ERR, lambda: S(a=a).to_bytes(), "struct accepts a missing value")
    rt.eq(st.getvalue(), b"", "something was written")


@case([0, 1, 2])
def elements(rt, cfg):
    """an element, nested field or union choice that does not fit is rejected as well"""
    v = rt.int("v", -400, 700)
    if cfg == 0:
        f, val = fields.Array(fields.UInt8(), count=2), [1, v]
    elif cfg == 1:
        f, val = fields.Nested(make(("p", fields.UInt8()))), {"p": v}
    else:
        f, val = fields.Union(fields.UInt8(), load_decider=lambda s, c, x, l: c[0],
                              dump_decider=lambda d, c, x, a: c[0]), v
    st = io.BytesIO()
    if rt.holds(v >= 0) and rt.holds(v <= 255):
        rt.cover("fits")
        f.to_stream(st, val)
        rt.eq(st.getvalue(), b"\x01" * (cfg == 0) + bytes([v]), "bytes")
    else:
        rt.cover("rejected")
        rt.raises(ERR, lambda: f.to_stream(st, val), "an inner value that does not fit is accepted")
        rt.eq(st.getvalue(), b"", "something was written")


BAD = {"u8": 256, "i24b": -(1 << 23) - 1, "uvl": -1, "f32l": 1e39, "f16b": 65520.0, "str2": "abc", "asciiz": "a\x80", "bytes2": b"abc",
       "inner": {"p": 1, "q": 1 << 16}, "arr": [1, 2, 3], "none": None}


def bad_field(kind):
    return {"u8": lambda: fields.UInt8(), "i24b": lambda: fields.Integer(size=3, endian="big"),
            "uvl": lambda: fields.VariableLengthInteger(vli_format=binobj.varints.VarIntEncoding.VLQ), "f32l": lambda: fields.Float32(endian="little"),
            "f16b": lambda: fields.Float16(endian="big"), "str2": lambda: fields.String(size=2), "bytes2": lambda: fields.Bytes(size=2),
            "asciiz": lambda: fields.StringZ(encoding="ascii"),
            "inner": lambda: fields.Nested(make(("p", fields.UInt8()), ("q", fields.UInt16(endian="big")))),
            "arr": lambda: fields.Array(fields.UInt8(), count=2), "none": lambda: fields.UInt8()}[kind]()


GOOD = {"u8": 1, "i24b": -2, "uvl": 300, "f32l": 1.5, "f16b": 0.5, "str2": "ab", "bytes2": b"ab", "asciiz": "xyz", "inner": {"p": 1, "q": 2},
        "arr": [1, 2], "none": 3}


@case([(k, w, how) for k in BAD for w in ("array", "counted", "nested", "union", "deep") for how in ("list", "tuple", "iter")
       if w in ("array", "counted") or how == "list"])
def later_part(rt, cfg):
    """a container whose part at any place does not fit is rejected as a whole"""
    kind, where, how = cfg
    n = rt.choice("n", (1, 2, 3))
    at = rt.choice("at", tuple(range(n)))
    x = rt.int("x", 0, 255)
    bad = BAD[kind]
    if kind == "u8":
        bad = rt.int("bad", -300, 600)
        rt.assume(not (0 <= bad <= 255))
    elif kind == "i24b":
        bad = rt.int("bad", -(1 << 25), 1 << 25)
        rt.assume(not (-(1 << 23) <= bad < 1 << 23))
    elif kind == "uvl":
        bad = rt.int("bad", -(1 << 20), -1)
    elif kind == "str2":
        bad = rt.text("bad", 3, 0, 255)
    elif kind == "bytes2":
        bad = rt.bytes("bad", 3)
    elif kind == "asciiz":
        bad = "a" + rt.text("bad", 1, 128, 0xD7FF)
    vals = [bad if i == at else GOOD[kind] for i in range(n)]
    seq = {"list": list, "tuple": tuple, "iter": iter}[how]
    if where == "array":
        f, mk = fields.Array(bad_field(kind)), lambda: seq(vals)
    elif where == "counted":
        f, mk = fields.Array(bad_field(kind), count=n), lambda: seq(vals)
    elif where == "nested":
        f = fields.Nested(make(("h", fields.UInt8()), *[(f"f{i}", bad_field(kind)) for i in range(n)], ("z", fields.StringZ())))
        mk = lambda: {"h": x, "z": "e", **{f"f{i}": v for i, v in enumerate(vals)}}  # noqa: E731
    elif where == "union":
        f = fields.Union(fields.Array(bad_field(kind)), load_decider=lambda s, c, x, l: c[0], dump_decider=lambda d, c, x, a: c[0])
        mk = lambda: seq(vals)  # noqa: E731
    else:
        f = fields.Array(fields.Array(bad_field(kind)))
        mk = lambda: [vals[:at], vals[at:]]  # noqa: E731
    rt.cover("rejected")
    st = io.BytesIO()
    st.write(b"ab")
    rt.raises(ERR, lambda: f.to_stream(st, mk()), "a container with a part that does not fit is accepted")
    rt.eq(st.getvalue(), b"ab", "parts of a rejected value were written")
    rt.raises(ERR, lambda: f.to_bytes(mk()), "to_bytes accepts it")
    S = make(("a", fields.UInt8()), ("x", f), ("b", fields.UInt8()))
    st = io.BytesIO()
    rt.raises(ERR, lambda: S(a=x, x=mk(), b=1).to_stream(st), "the struct accepts it")
    rt.check(len(st.getvalue()) <= 1, "the struct wrote parts of a rejected value")
    if at > 0 and where != "nested":
        vals[at] = GOOD[kind]
        rt.check(len(f.to_bytes(mk())) > 0, "the corrected value is accepted")


class Plain(fields.Field):
    """A user's field that writes whatever bytes it is given."""

    def _do_dump(self, stream, data, context, all_fields):
        stream.write(data)

    def _do_load(self, stream, context, loaded_fields):
        return self._read_exact_size(stream, loaded_fields)


@case([(n, how) for n in range(4) for how in ("const", "obj", "name")])
def custom(rt, cfg):
    """fields defined by the user are held to their size, too"""
    n, how = cfg
    m = rt.choice("m", range(6))
    v = rt.bytes("v", m)
    u = fields.UInt8()
    f = Plain(size=n if how == "const" else u if how == "obj" else "u")
    S = make(("u", u), ("x", f), ("b", fields.UInt8()))
    s = S(u=n, x=v, b=9)
    st, st2 = io.BytesIO(), io.BytesIO()
    if m == n:
        rt.cover("fits")
        rt.eq(s.to_bytes(), bytes([n]) + v + b"\x09", "struct bytes")
        f.to_stream(st, v, all_fields={"u": n})
        rt.eq(st.getvalue(), v, "field bytes")
        rt.eq(S.from_bytes(bytes([n]) + v + b"\x09").x, v, "loaded")
        rt.raises((errors.UnexpectedEOFError,), lambda: S.from_bytes(bytes([n]) + v), "cut") if n else None
    else:
        rt.cover("rejected")
        rt.raises(ERR, lambda: f.to_bytes(v, all_fields={"u": n}), "to_bytes accepts a value that does not fit")
        rt.raises(ERR, lambda: f.to_stream(st, v, all_fields={"u": n}), "to_stream accepts a value that does not fit")
        rt.eq(st.getvalue(), b"", "bytes of a rejected value were written")
        rt.raises(ERR, lambda: s.to_stream(st2), "the struct accepts a value that does not fit")
        rt.check(len(st2.getvalue()) <= 1, "the struct wrote bytes of a rejected value")
