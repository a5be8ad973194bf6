"""C05 floats: IEEE-754 in the configured width and byte order."""
from kit import *

BOUNDS = {"quick": "every double and every bit pattern of all three widths, each byte order"}
OUTSIDE = "NaN payloads; non-IEEE platforms"
COVERS = {"dump": ["finite", "overflow", "nan"]}
CFGS = [(w, e) for w in (16, 32, 64) for e in (None, "big", "little")]


def mk(cfg, **kw):
    w, e = cfg
    if e is not None:
        kw["endian"] = e
    return getattr(fields, f"Float{w}")(**kw), w, e or sys.byteorder


@case(CFGS)
def dump(rt, cfg):
    """any double"""
    f, w, e = mk(cfg)
    x = rt.float("x")
    bits, over = rt.ieee_narrow(x, w)
    if rt.holds(x != x):
        rt.cover("nan")
        b = f.to_bytes(x)
        rt.eq(len(b), w // 8, "size of a NaN")
        y = f.from_bytes(b)
        rt.check(y != y, "a NaN does not load as NaN")
        return
    if rt.holds(over):
        rt.cover("overflow")
        st = io.BytesIO()
        rt.raises((errors.SerializationError,), lambda: f.to_stream(st, x), "a number too large is accepted")
        rt.eq(st.getvalue(), b"", "something was written")
        return
    rt.cover("finite" if w < 64 else "overflow")
    if w == 64:
        rt.cover("finite")
    want = ref_int_bytes(rt, bits, w // 8, e)
    got = f.to_bytes(x)
    rt.observe("bytes", got)
    rt.eq(got, want, "not the nearest IEEE value")
    y = f.from_bytes(want)
    rt.check(rt.same_float(y, rt.ieee_widen(bits, w)), "load(dump(x)) is not the stored value")
    if w == 64:
        rt.check(rt.same_float(y, x), "a double does not round-trip")


@case(CFGS)
def load(rt, cfg):
    """any bytes"""
    f, w, e = mk(cfg)
    d = rt.bytes("d", w // 8)
    n = ref_int_value(d, e, False)
    want = rt.ieee_widen(n, w)
    got = f.from_bytes(d)
    rt.observe("value", got)
    rt.check(isinstance(got, float), "not a float")
    rt.check(rt.same_float(got, want), "the loaded number is not the one stored")
    if rt.holds(want == want):
        rt.eq(f.to_bytes(got), d, "dump(load(b)) != b")


@case(CFGS)
def in_struct(rt, cfg):
    """between two other fields"""
    f, w, e = mk(cfg)
    S = make(("a", fields.UInt8()), ("x", f), ("b", fields.UInt8()))
    d = rt.bytes("d", w // 8)
    a = rt.int("a", 0, 255)
    b = rt.int("b", 0, 255)
    raw = bytes([a]) + d + bytes([b])
    s = S.from_bytes(raw)
    want = rt.ieee_widen(ref_int_value(d, e, False), w)
    rt.check(rt.same_float(s.x, want), "loaded x")
    rt.eq(s.a, a, "loaded a")
    rt.eq(s.b, b, "loaded b")
    rt.assume(want == want)
    rt.eq(s.to_bytes(), raw, "dump(load(b)) != b")


@case(CFGS)
def integers(rt, cfg):
    """whole numbers given as int"""
    f, w, e = mk(cfg)
    v = rt.int("v", -2048, 2048)
    x = float(v)
    bits, _over = rt.ieee_narrow(x, w)
    rt.eq(f.to_bytes(v), ref_int_bytes(rt, bits, w // 8, e), "an int is stored as another number")


@case([(w, e) for w in (16, 32, 64) for e in ("Big", "LITTLE", "=", "", 0)])
def bad_endian(rt, cfg):
    """a byte order other than big and little is refused; none means native"""
    w, e = cfg
    if e:
        rt.raises((errors.ConfigurationError,), lambda: getattr(fields, f"Float{w}")(endian=e), "bad byte order")
    else:
        rt.eq(getattr(fields, f"Float{w}")(endian=e).endian, sys.byteorder, "byte order")
