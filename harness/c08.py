"""C08 fields whose size is the value of another field."""
from kit import *

BOUNDS = {"quick": "every value of an 8-bit signed or unsigned, 16-bit and variable-length size field; payload data of "
                   "0..5 arbitrary bytes on load, values of 0..5 elements on dump; payload kinds bytes, string (with and "
                   "without padding, 1 and 2 byte encodings), null-terminated string, timestamp; array of sized elements; "
                   "reference by object and by name, in the same class, from the parent class, two classes up"}
OUTSIDE = "several fields sharing one computed size; size fields that are themselves conditional"

SIZERS = {"u8": (lambda **kw: fields.UInt8(**kw), 0, 255),
          "u8d": (lambda **kw: fields.UInt8(default=2, **kw), 0, 255),
          "u8f": (lambda **kw: fields.UInt8(factory=lambda: 3, **kw), 0, 255),
          "u8n": (lambda **kw: fields.UInt8(null_value=b"\xff", **kw), 0, 254), "i8": (lambda **kw: fields.Int8(**kw), -128, 127),
          "u16": (lambda **kw: fields.UInt16(endian="big", **kw), 0, 65535),
          "leb": (lambda **kw: fields.VariableLengthInteger(vli_format=VarIntEncoding.LEB128, **kw), -8192, 8191)}


def size_bytes(rt, sizer, n):
    if sizer in ("u8", "i8", "u8d", "u8f", "u8n"):
        return bytes([n & 0xFF])
    if sizer == "u16":
        return bytes([n >> 8, n & 0xFF])
    return ref_leb(rt, n)


PAY = {"bytes": lambda **kw: fields.Bytes(**kw), "str": lambda **kw: fields.String(**kw),
       "strpad": lambda **kw: fields.String(pad_byte=b" ", **kw),
       "str16": lambda **kw: fields.String(encoding="utf-16-le", **kw),
       "strz": lambda **kw: fields.StringZ(**kw), "strzpad": lambda **kw: fields.StringZ(pad_byte=b"-", **kw),
       "ts": lambda **kw: fields.Timestamp(resolution="us", endian="big", tz_aware=True, signed=False, **kw)}
REFS = ["obj", "name", "parent_obj", "parent_name", "grand_name"]


def sized_class(sizer, ref, pay, after=True):
    """n, gap, payload sized by n, tail."""
    n = SIZERS[sizer][0]()
    mid = [("gap", fields.UInt8())]
    if ref == "obj":
        return make(("n", n), *mid, ("x", PAY[pay](size=n)), ("t", fields.UInt8()))
    if ref == "name":
        return make(("n", n), *mid, ("x", PAY[pay](size="n")), ("t", fields.UInt8()))
    P = make(("n", n), *mid, name="P")
    if ref == "grand_name":
        P = make(name="M", base=P)
    return make(("x", PAY[pay](size=n if ref == "parent_obj" else "n")), ("t", fields.UInt8()), base=P)


CFGS = [(s, r, p) for s in SIZERS for r in REFS for p in PAY
        if ((r in ("obj", "parent_name") or s == "i8") if s not in ("u8d", "u8f", "u8n") else
            (r in ("obj", "name") and p in ("bytes", "strpad")))]
COVERS = {"load": ["loaded", "too long", "zero"], "load_signed": ["negative"], "dump": ["fits", "rejected"]}


@case([c for c in CFGS if c[0] in ("u8", "u16", "u8d", "u8f", "u8n")])
def load(rt, cfg):
    """what is loaded is exactly the stated number of bytes"""
    _load(rt, cfg)


@case([c for c in CFGS if c[0] in ("i8", "leb")])
def load_signed(rt, cfg):
    """the same, the size may be negative"""
    _load(rt, cfg)


def _load(rt, cfg):
    sizer, ref, pay = cfg
    S = sized_class(sizer, ref, pay)
    _, lo, hi = SIZERS[sizer]
    n = rt.int("n", lo, hi)
    avail = rt.choice("avail", range(0, 6))
    d = rt.bytes("d", avail)
    t = rt.int("t", 0, 255)
    head = size_bytes(rt, sizer, n) + b"\x2a"
    st = io.BytesIO(b"##" + head + d)
    st.seek(2)
    if rt.holds(n < 0):
        rt.cover("negative")
        rt.raises((errors.DeserializationError,), lambda: S.from_stream(st), "negative size accepted")
        st.seek(2)
        rt.raises((errors.DeserializationError,), lambda: S.partial_load(st, "x"), "negative size accepted (partial)")
        return
    if pay in ("strz", "strzpad"):
        end = None
        for i in range(avail):
            if rt.holds(n <= i):
                break
            if rt.holds(d[i] == 0):
                end = i
                break
        if end is None:
            rt.cover("too long")
            rt.raises((errors.DeserializationError,), lambda: S.from_stream(st), "no terminator within the size")
            return
        used = end + 1 if pay == "strz" else n
        want = d[:end].decode("iso-8859-1")
    else:
        used, want = n, None
    if rt.holds(used >= avail):
        rt.cover("too long")
        rt.raises((errors.UnexpectedEOFError,) + ((UnicodeDecodeError,) if pay == "str16" else ()),
                  lambda: S.from_stream(st), "more bytes stated than there are")
        return
    for k in range(avail + 1):
        if rt.holds(used == k):
            used = k
            break
    if used == 0:
        rt.cover("zero")
    rt.cover("loaded")
    if pay == "bytes":
        want = d[:used]
    elif pay in ("str", "strpad"):
        want = d[:used].decode("iso-8859-1")
    elif pay == "str16":
        try:
            want = d[:used].decode("utf-16-le")
        except UnicodeDecodeError:
            return
    s = S.from_stream(st)
    rt.same(s.n, n, "size field")
    rt.same(s.gap, 0x2a, "gap")
    if pay == "ts":
        rt.eq(s.x, datetime.datetime(1970, 1, 1, tzinfo=UTC)
              + datetime.timedelta(microseconds=ref_int_value(b"\0" + d[:used], "big", False)), "payload")
    else:
        rt.same(s.x, want, "payload")
    rt.observe("x", s.x)
    rt.same(s.t, d[used], "the field behind the payload")
    rt.eq(st.tell(), 2 + len(head) + used + 1, "position")
    st.seek(2)
    p = S.partial_load(st, "x")
    rt.eq(p.x, s.x, "payload (partial load)")
    rt.eq(st.tell(), 2 + len(head) + used, "position (partial load)")
    st.seek(2)
    rt.eq(S.get_field(st, "x"), s.x, "payload (single field)")
    rt.eq(S.get_field(st, "t"), s.t, "tail (single field)")


@case([c for c in CFGS if c[2] != "ts"])
def dump(rt, cfg):
    """only values of exactly the stated length are dumped (after padding)"""
    sizer, ref, pay = cfg
    S = sized_class(sizer, ref, pay)
    _, lo, hi = SIZERS[sizer]
    n = rt.int("n", lo, hi)
    k = rt.choice("k", range(0, 6))
    if pay == "bytes":
        v = rt.bytes("v", k)
        b = v
    elif pay == "str16":
        v = rt.text("v", k, 0, 0xD7FF)
        b = ref_encode(rt, v, "utf-16-le")
    else:
        v = rt.text("v", k, 1, 255)
        b = bytes([ord(c) for c in v]) + (b"\0" if pay in ("strz", "strzpad") else b"")
    s = S(n=n, gap=1, x=v, t=2)
    padded = pay in ("strpad", "strzpad")
    fits = rt.holds(n >= len(b)) if padded else rt.holds(n == len(b))
    st = io.BytesIO()
    if not fits:
        rt.cover("rejected")
        rt.raises((errors.SerializationError,), lambda: s.to_stream(st), "value of the wrong size accepted")
        rt.check(len(st.getvalue()) <= len(size_bytes(rt, sizer, n)) + 1, "bytes of the rejected value were written")
        return
    rt.cover("fits")
    if padded:
        rt.assume(n <= len(b) + 4)
        for j in range(5):
            if rt.holds(n == len(b) + j):
                b = b + (b" " if pay == "strpad" else b"-") * j
                break
    s.to_stream(st)
    want = size_bytes(rt, sizer, n) + b"\x01" + b + b"\x02"
    rt.observe("out", st.getvalue())
    rt.eq(st.getvalue(), want, "bytes")
    rt.eq(len(s), len(want), "len()")
    u = S.from_bytes(want)
    rt.eq(u.n, n, "size loaded")
    if pay != "strpad":
        rt.same(u.x, v, "payload loaded")


@case([(s, k) for s in ("u8", "leb") for k in range(0, 5)])
def computed(rt, cfg):
    """the size field computed from the payload"""
    sizer, k = cfg
    n = SIZERS[sizer][0]()

    def comp(f, v):
        return len(v["x"])
    n.computes(comp)
    S = make(("n", n), ("x", fields.Bytes(size=n)), ("t", fields.UInt8()))
    v = rt.bytes("v", k)
    want = bytes([k]) + v + b"\x07"
    s = S(x=v, t=7)
    rt.eq(s.to_bytes(), want, "bytes")
    rt.eq(len(s), len(want), "len()")
    u = S.from_bytes(want)
    rt.same(u.x, v, "payload")
    rt.eq(u.n, k, "size")


@case([(r, m) for r in ("obj", "name") for m in (1, 2, 3)])
def elements(rt, cfg):
    """array elements sized by a field outside the array"""
    ref, m = cfg
    n = fields.UInt8()
    S = make(("n", n), ("xs", fields.Array(fields.Bytes(size=n if ref == "obj" else "n"), count=m)),
             ("t", fields.UInt8()))
    k = rt.int("n", 0, 255)
    d = rt.bytes("d", 7)
    if rt.holds(k * m >= 7):
        rt.raises((errors.UnexpectedEOFError,), lambda: S.from_bytes(bytes([k]) + d, exact=False), "not enough data")
        return
    for j in range(7):
        if rt.holds(k == j):
            s = S.from_bytes(bytes([k]) + d, exact=False)
            rt.eq(len(s.xs), m, "number of elements")
            for i in range(m):
                rt.same(s.xs[i], d[i * j:(i + 1) * j], "element")
            rt.same(s.t, d[m * j], "the field behind")
            out = S(n=k, xs=[d[i * j:(i + 1) * j] for i in range(m)], t=s.t)
            rt.eq(out.to_bytes(), bytes([k]) + d[:m * j + 1], "bytes")
            bad = S(n=k, xs=[d[i * j:(i + 1) * j] + b"!" for i in range(m)], t=1)
            rt.raises((errors.SerializationError,), lambda: bad.to_bytes(), "elements one byte too long")


@case(["bytes", "str"])
def forward(rt, pay):
    """a missing size is reported on dump and load, a size after the payload on load"""
    n = fields.UInt8()
    S = make(("n", n), ("x", PAY[pay](size=n)))
    v = rt.bytes("v", 2) if pay == "bytes" else rt.text("v", 2, 1, 255)
    rt.raises((errors.MissingRequiredValueError,), lambda: S(x=v).to_bytes(), "dump without the size")
    T = make(("x", PAY[pay](size="n")), ("n", fields.UInt8()))
    rt.raises((errors.MissingRequiredValueError,), lambda: T.from_bytes(b"\x01\x02\x03"), "load with a later size")
    rt.eq(T(x=v, n=2).to_bytes()[2:], b"\x02", "dump with a later size")


@case([(m, p) for m in ("const", "default", "factory", "compute", "null") for p in ("bytes", "str", "strpad", "strz")])
def unset(rt, cfg):
    """the size field is left to its constant, default, factory or computation"""
    mode, pay = cfg
    n = {"const": lambda: fields.UInt8(const=2), "default": lambda: fields.UInt8(default=2),
         "factory": lambda: fields.UInt8(factory=lambda: 2), "compute": lambda: fields.UInt8(),
         "null": lambda: fields.UInt8(null_value=2, default=2)}[mode]()
    if mode == "compute":
        n.computes(lambda self, v: 2)
    S = make(("n", n), ("x", PAY[pay](size=n)), ("t", fields.UInt8()))
    k = rt.choice("k", range(0, 4))
    if pay == "bytes":
        v = rt.bytes("v", k)
        b = v
    else:
        v = rt.text("v", k, 1, 255)
        b = bytes([ord(c) for c in v]) + (b"\0" if pay == "strz" else b"")
    if pay == "strpad" and len(b) < 2:
        b = b + b" " * (2 - len(b))
    s = S(x=v, t=7)
    if len(b) != 2:
        rt.raises((errors.SerializationError,), lambda: s.to_bytes(), "value of the wrong size accepted")
        return
    want = b"\x02" + b + b"\x07"
    rt.eq(s.to_bytes(), want, "bytes")
    rt.check(len(s) == 4, "len()")
    if mode == "null":
        rt.raises((errors.Error, TypeError), lambda: S.from_bytes(want), "a size of None")
        return
    u = S.from_bytes(want)
    rt.eq(u.t, 7, "the field behind")
    if pay != "strpad":
        rt.same(u.x, v, "payload loaded")
