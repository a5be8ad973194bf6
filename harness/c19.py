"""C19 None is written as the null value, and only the null value loads as None."""
from scn import *

BOUNDS = {"quick": "every fixed-size kind with an arbitrary null byte string of its size, an arbitrary null value, or the default "
                   "marker, against arbitrary bytes; variable-size kinds with arbitrary null values against arbitrary values; "
                   "alone, in a struct, as array element, union choice and nested field; through every load and dump call"}
OUTSIDE = "null byte strings of another size than the field; floating-point zeros with the other sign than the null value's"
ASSUMPTIONS = ["a null byte string has the field's size (for variable-size fields: it is a complete encoding)"]
COVERS = {"stored": ["none", "other"], "load_fixed": ["null", "other"], "dump_": ["none"], "variable": ["none", "other"]}

FX = [k for k in FIXED if k != "bytes0"]
INT_LIKE = ["u8", "i8", "u16b", "u16l", "i32l", "i24b", "u64b", "bytes3", "str3", "uuid1", "uuid2", "arr3", "nest", "strpad"]
ALL_BYTES_LOAD = INT_LIKE + ["f16b", "f32l", "f64b"]
ERR = (errors.SerializationError, errors.UnserializableValueError)


def loads(S, d):
    """Outcome of loading: the struct, or the exception."""
    try:
        return S.from_bytes(d)
    except (errors.Error, ValueError) as e:
        return e


@case([(k, m) for k in FX for m in ("bytes", "value", "default")])
def load_fixed(rt, cfg):
    """arbitrary bytes against an arbitrary null value"""
    kind, mode = cfg
    k = KINDS[kind]
    if mode == "bytes":
        null = repr_ = rt.bytes("null", k.size)
    elif mode == "value":
        null = k.val(rt, "null")
        repr_ = k.ref(rt, null)
        if kind in ("f16b", "f32l", "f64b"):
            rt.assume(null != 0.0)
    else:
        null, repr_ = DEFAULT, b"\0" * k.size
    S = make(("a", fields.UInt8()), ("x", k.field(null_value=null)), ("t", fields.UInt8()))
    if rt.choice("match", (False, True)):
        rt.cover("null")
        s = S.from_bytes(b"\x01" + repr_ + b"\x02")
        rt.check(s.x is None, "the null value does not load as None")
        rt.eq(s.t, 2, "field behind the null value")
        st = io.BytesIO(repr_ + b"\x07")
        rt.check(S.x.from_stream(st) is None, "field alone")
        rt.eq(st.tell(), k.size, "consumed by the field alone")
        st = io.BytesIO(b"\x01" + repr_)
        rt.check(S.get_field(st, "x") is None, "get_field")
        p = S.partial_load(st)
        rt.check(p.x is None and st.tell() == 1 + k.size, "partial_load")
        return
    rt.cover("other")
    v = k.val(rt, "v")
    b = k.ref(rt, v)
    rt.assume(b != repr_)
    if mode == "value" and kind in ("f16b", "f32l", "f64b"):
        rt.assume(v != null)
    s = S.from_bytes(b"\x01" + b + b"\x02")
    rt.check(s.x is not None, "another value loads as None")
    k.same(rt, s.x, v, "another value")
    rt.eq(s.t, 2, "field behind the value")
    k.same(rt, S.get_field(io.BytesIO(b"\x01" + b), "x"), v, "get_field")
    k.same(rt, S.x.from_bytes(b), v, "field alone")


@case([(k, m) for k in ALL_BYTES_LOAD for m in ("bytes", "default")])
def raw(rt, cfg):
    """all bytes: None exactly if they are the null value, else what a field without null value loads"""
    kind, mode = cfg
    k = KINDS[kind]
    null = rt.bytes("null", k.size) if mode == "bytes" else DEFAULT
    repr_ = null if mode == "bytes" else b"\0" * k.size
    d = rt.bytes("d", k.size)
    f, g = k.field(null_value=null), k.field()
    got = f.from_bytes(d)
    if rt.holds(d == repr_):
        rt.check(got is None, "the null value does not load as None")
    else:
        rt.check(got is not None, "another value loads as None")
        if kind[0] == "f":
            rt.check(rt.same_float(got, g.from_bytes(d)), "another value")
        else:
            rt.eq(got, g.from_bytes(d), "another value")


def null_of(rt, kind, mode):
    k = KINDS[kind]
    if mode == "bytes":
        null = rt.bytes("null", k.size)
        return null, null
    if mode == "value":
        null = k.val(rt, "null")
        return null, k.ref(rt, null)
    return DEFAULT, b"\0" * k.size


@case([(k, m) for k in FX for m in ("bytes", "value", "default")] + [(k, "value") for k in VARIABLE if k != "uni"])
def dump_(rt, cfg):
    """None is written as the null value by every call"""
    kind, mode = cfg
    k = KINDS[kind]
    null, repr_ = null_of(rt, kind, mode)
    S = make(("a", fields.UInt8()), ("x", k.field(null_value=null)), ("t", fields.UInt8()))
    s = S(a=1, x=None, t=2)
    want = b"\x01" + repr_ + b"\x02"
    rt.cover("none")
    rt.eq(s.to_bytes(), want, "to_bytes")
    rt.eq(bytes(s), want, "bytes()")
    rt.eq(len(s), len(want), "len()")
    st = io.BytesIO()
    s.partial_dump(st, "x")
    rt.eq(st.getvalue(), want[:-1], "partial_dump")
    rt.eq(S.x.to_bytes(None), repr_, "field alone")
    rt.check(S.from_bytes(want).x is None, "does not load back as None")
    rt.check(s.to_dict()["x"] is None, "to_dict")
    u = S(a=1, t=2)
    u.x = None
    rt.eq(u.to_bytes(), want, "assigned None")
    D = make(("a", fields.UInt8()), ("x", k.field(null_value=null, default=None)), ("t", fields.UInt8()))
    rt.eq(D(a=1, t=2).to_bytes(), want, "default None")
    N = make(("n", fields.Nested(S)))
    rt.eq(N(n={"a": 1, "x": None, "t": 2}).to_bytes(), want, "nested")
    rt.check(N.from_bytes(want).n.x is None, "nested load")
    # a value that is not None is unaffected
    v = k.val(rt, "v")
    rt.eq(S(a=1, x=v, t=2).to_bytes(), b"\x01" + k.ref(rt, v) + b"\x02", "another value")


@case([k for k in VARIABLE if k != "uni"])
def variable(rt, cfg):
    """fields of variable size: None and other values round-trip"""
    k = KINDS[cfg]
    null = k.val(rt, "null")
    repr_ = k.ref(rt, null)
    S = make(("x", k.field(null_value=null)), ("t", fields.UInt8()))
    if rt.choice("none", (False, True)):
        rt.cover("none")
        rt.check(S.from_bytes(repr_ + b"\x02").x is None, "the null value does not load as None")
        rt.check(S.x.from_bytes(repr_) is None, "field alone")
        return
    v = k.val(rt, "v")
    b = k.ref(rt, v)
    if len(b) == len(repr_):
        rt.assume(b != repr_)
    rt.cover("other")
    s = S.from_bytes(b + b"\x02")
    rt.check(s.x is not None, "another value loads as None")
    k.same(rt, s.x, v, "another value")
    rt.eq(s.t, 2, "field behind")


@case([(k, n) for k in VARIABLE + ["u16b", "bytes3", "str3"] if k not in ("uni",) for n in (1, 2, 3, 5)])
def stored(rt, cfg):
    """null values given as bytes, of any length: None exactly if the data starts with all of them"""
    kind, n = cfg
    k = KINDS[kind]
    null = rt.bytes("null", n)
    v = k.val(rt, "v")
    b = k.ref(rt, v)
    f = k.field(null_value=null)
    S = make(("a", fields.UInt8()), ("x", f))
    T = make(("x", k.field(null_value=null)), ("t", fields.Bytes(size=3)))
    for what, data in (("field", b), ("end of the struct", b), ("between", b + b"\x01\x02\x03")):
        none = len(data) >= n and rt.holds(data[:n] == null)
        end = n if none else len(b)
        if what == "field":
            st, at = io.BytesIO(data), 0
            got = f.from_stream(st)
        elif what == "between":
            if len(data) - end < 3:
                continue
            st, at = io.BytesIO(data), 3
            got = T.from_stream(st).x
        else:
            st, at = io.BytesIO(b"\x01" + data), 1
            got = S.from_stream(st).x
        rt.check(st.tell() == at + end, what + ": position")
        if none:
            rt.cover("none")
            rt.check(got is None, what + ": the null value does not load as None")
        else:
            rt.cover("other")
            rt.check(got is not None, what + ": another value loads as None")
            k.same(rt, got, v, what + ": another value")


@case([(k, w) for k in ALL_KINDS for w in ("field", "struct", "array", "nested", "union", "partial", "default")])
def refused(rt, cfg):
    """a field that is not nullable refuses None"""
    kind, where = cfg
    k = KINDS[kind]
    f = k.field()
    pre = rt.bytes("pre", 1)
    st = io.BytesIO()
    st.write(pre)
    if where == "field":
        rt.raises(ERR, lambda: f.to_bytes(None), "None is accepted")
        rt.raises(ERR, lambda: f.to_stream(st, None), "None is accepted")
        rt.eq(st.getvalue(), pre, "something was written")
        return
    if where == "default":
        f = k.field(default=None)
        rt.raises(ERR, lambda: f.to_bytes(), "None as the default is accepted")
    if where == "array":
        S = make(("x", fields.Array(f, count=2)))
        v = k.val(rt, "v")
        vals = {"x": [v, None]}
    elif where == "nested":
        S = make(("x", fields.Nested(make(("y", f), name="In"))))
        vals = {"x": {"y": None}}
    elif where == "union":
        S = make(("x", fields.Union(f, load_decider=lambda s, c, x, l: c[0], dump_decider=lambda d, c, x, a: c[0])))
        vals = {"x": None}
    else:
        S = make(("x", f))
        vals = {} if where == "default" else {"x": None}
    s = S(**vals)
    rt.raises(ERR, lambda: s.to_bytes(), "None is accepted")
    if where == "partial":
        rt.raises(ERR, lambda: s.partial_dump(st, "x"), "None is accepted")
    else:
        rt.raises(ERR, lambda: s.to_stream(st), "None is accepted")
    rt.eq(st.getvalue(), pre, "something was written")


@case([(k, w) for k in FX for w in ("array", "eof_array", "union", "array_of_union")])
def inside(rt, cfg):
    """nullable elements and choices"""
    kind, where = cfg
    k = KINDS[kind]
    null = rt.bytes("null", k.size)
    c = k.field(null_value=null)
    v = k.val(rt, "v")
    b = k.ref(rt, v)
    rt.assume(b != null)

    def first(x, ch, ctx, f):
        return ch[0]
    if where == "array":
        S, val, raw_ = make(("x", fields.Array(c, count=3))), [None, v, None], null + b + null
    elif where == "eof_array":
        S, val, raw_ = make(("x", fields.Array(c))), [v, None], b + null
    elif where == "union":
        U = make(("x", fields.Union(c, load_decider=first, dump_decider=first)))
        rt.check(U.from_bytes(null).x is None, "union load")
        k.same(rt, U.from_bytes(b).x, v, "union load of a value")
        return
    else:
        u = fields.Union(c, load_decider=first, dump_decider=first, null_value=null)
        S, val, raw_ = make(("x", fields.Array(u, count=2))), [None, v], null + b
    rt.eq(S(x=val).to_bytes(), raw_, "dump")
    got = S.from_bytes(raw_).x
    rt.check(len(got) == len(val), "number of elements")
    for g, w in zip(got, val):
        if w is None:
            rt.check(g is None, "None element")
        else:
            k.same(rt, g, w, "element")


@case([("bytes", "obj"), ("bytes", "name"), ("str", "obj"), ("ts", "name")])
def sized_default(rt, cfg):
    """zero bytes of the size another field states"""
    kind, how = cfg
    n = rt.choice("n", (1, 2, 4))
    u8 = fields.UInt8()
    size = u8 if how == "obj" else "n"
    f = {"bytes": lambda: fields.Bytes(size=size, null_value=DEFAULT),
         "str": lambda: fields.String(size=size, null_value=DEFAULT),
         "ts": lambda: fields.Timestamp(size=size, null_value=DEFAULT, resolution="us", tz_aware=True, endian="big")}[kind]()
    S = make(("n", u8), ("x", f), ("t", fields.UInt8()))
    s = S(n=n, x=None, t=9)
    rt.eq(s.to_bytes(), bytes([n]) + b"\0" * n + b"\x09", "dump")
    rt.eq(len(s), n + 2, "len()")
    d = rt.bytes("d", n)
    t = S.from_bytes(bytes([n]) + d + b"\x09")
    if rt.holds(d == b"\0" * n):
        rt.check(t.x is None, "zeros do not load as None")
    else:
        rt.check(t.x is not None, "another value loads as None")
    rt.eq(t.t, 9, "field behind")


@case(["strz", "vlq", "leb", "arrz"])
def unsized_default(rt, cfg):
    """the default marker on a field without a size is refused"""
    k = KINDS[cfg]
    S = make(("x", k.field(null_value=DEFAULT)))
    rt.raises((errors.UnserializableValueError,), lambda: S(x=None).to_bytes(), "None is dumped")
    v = k.val(rt, "v")
    rt.eq(S(x=v).to_bytes(), k.ref(rt, v), "a value")
    rt.raises((errors.CannotDetermineNullError,), lambda: S.from_bytes(k.ref(rt, v)), "loads anyway")


@case([("str", n) for n in range(4)] + [("strz", n) for n in range(3)])
def padded(rt, cfg):
    """a null value shorter than the field is padded like any other value"""
    kind, n = cfg
    null = rt.text("null", n, 0x61, 0x7A)
    if kind == "str":
        f = fields.String(size=3, pad_byte=b" ", null_value=null)
        repr_ = null.encode("ascii") + b" " * (3 - n)
    else:
        f = fields.StringZ(size=4, pad_byte=b" ", null_value=null)
        repr_ = null.encode("ascii") + b"\0" + b" " * (3 - n)
    S = make(("x", f), ("t", fields.UInt8()))
    data = S(x=None, t=5).to_bytes()
    rt.eq(data, repr_ + b"\x05", "dump")
    s = S.from_bytes(data)
    rt.check(s.x is None, "does not load back as None")
    rt.eq(s.t, 5, "field behind")


@case([(k, how, n) for k in ("str", "strz", "str16") for how in ("obj", "name") for n in range(3)])
def padded_ref(rt, cfg):
    """a null value is padded to the size another field states"""
    kind, how, n = cfg
    null = rt.text("null", n, 0x61, 0x7A)
    z = fields.UInt8()
    kw = {"size": z if how == "obj" else "z", "pad_byte": b" ", "null_value": null}
    if kind == "str":
        f, enc = fields.String(**kw), null.encode("ascii")
    elif kind == "strz":
        f, enc = fields.StringZ(**kw), null.encode("ascii") + b"\0"
    else:
        f, enc = fields.String(encoding="utf-16-le", **kw), null.encode("utf-16-le")
    more = rt.choice("more", (0, 1, 2) if kind != "str16" else (0, 2))
    size = len(enc) + more
    S = make(("z", z), ("x", f), ("t", fields.UInt8()))
    repr_ = enc + (b" " * more)
    t = rt.int("t", 0, 255)
    raw = bytes([size]) + repr_ + bytes([t])
    s = S(z=size, x=None, t=t)
    rt.eq(s.to_bytes(), raw, "dump")
    rt.eq(len(s), len(raw), "len()")
    st = io.BytesIO()
    s.partial_dump(st, "x")
    rt.eq(st.getvalue(), raw[:-1], "partial_dump")
    for what, p in (("from_bytes", S.from_bytes(raw)), ("partial_load", S.partial_load(io.BytesIO(raw)))):
        rt.check(p.x is None, f"{what}: does not load back as None")
        rt.eq(p.t, t, f"{what}: field behind")
    rt.check(S.get_field(io.BytesIO(raw), "x") is None, "get_field")
    rt.eq(S.get_field(io.BytesIO(raw), "t"), t, "get_field behind")


@case([(e, c, n) for e in ("VLQ", "ULEB128", "LEB128", "COMPACT_INDICES") for c in (0, 5, 64, 1000, 16384, -1, -64, -70000) for n in (2, 3, 4)
       if c >= 0 or e in ("LEB128", "COMPACT_INDICES")])
def longer_form(rt, cfg):
    """a variable-length integer stored in more bytes than needed is None exactly if it is the null value"""
    enc, c, n = cfg
    f = fields.VariableLengthInteger(vli_format=getattr(VarIntEncoding, enc), null_value=c)
    S = make(("h", fields.UInt8()), ("x", f), ("t", fields.UInt8()))
    near = rt.choice("near", (True, False))
    signed = enc in ("LEB128", "COMPACT_INDICES")
    top = 1 << (7 * n - (1 if signed else 0))
    lo, hi = (-top if enc == "LEB128" else 1 - top if signed else 0), top - 1
    if near:
        lo, hi = max(lo, c - 2), min(hi, c + 2)
        rt.assume(lo <= hi)
    v = rt.int("v", lo, hi)
    m = abs(v) if enc == "COMPACT_INDICES" else v
    groups = [(m >> (7 * i)) & 127 for i in range(n)]
    if enc == "COMPACT_INDICES":
        groups[-1] = (groups[-1] & 63) | (64 if rt.holds(v < 0) else 0)
    if enc in ("VLQ", "COMPACT_INDICES"):
        groups = groups[::-1]
    raw = b"\x09" + bytes([g | 128 for g in groups[:-1]] + [groups[-1]]) + b"\x07"
    isnull = rt.holds(v == c)
    s = S.from_bytes(raw)
    for what, got in (("load", s.x), ("get_field", S.get_field(io.BytesIO(raw), "x")), ("field", f.from_bytes(raw[1:-1]))):
        if isnull:
            rt.check(got is None, what + ": the null value is not None")
        else:
            rt.same(got, v, what + ": another value")
    rt.eq(s.t, 7, "field behind")
    rt.eq(f.to_bytes(None), f.to_bytes(c), "dump of None")
