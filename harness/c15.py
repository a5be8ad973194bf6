"""C15 reported sizes and offsets match the serialization."""
from scn import *

BOUNDS = {"quick": "every scenario of harness/scn.py in four declaration styles, all ordered pairs of 15 kinds, every prefix of "
                   "the assigned fields where defaults fill in the rest"}
OUTSIDE = "len() of structs whose layout depends on the context, which len() cannot take; custom Field subclasses with their own size computation"
COVERS = {"sizes": ["fixed", "variable"]}


@case([(n, s) for n in NAMES for s in (("flat", "dc", "split", "chain", "val") if n != "empty" else ("flat",))] +
      [(n, "flat") for n in PAIRS])
def sizes(rt, cfg):
    """len(), get_size(), field sizes and offsets"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    vals = scn.vals(rt)
    s = S(**vals.assign)
    data = s.to_bytes(scn.ctx)
    has_len = scn.ctx is None or name in ("cond_ctx", "nest_ctx")     # the same layout without the context
    if has_len:
        rt.eq(len(s), len(data), "len() of the instance")
    fixed = S.get_size()
    rt.check(fixed == scn.fixed_size(), f"class size is {fixed}")
    if fixed is None:
        rt.cover("variable")
    else:
        rt.cover("fixed")
        rt.eq(len(data), fixed, "class size")
    for n, b in vals.parts:
        f = S.__binobj_struct__.components[n]
        item = scn.item(n)
        rt.check(f.offset == scn.fixed_offset(n), f"offset of {n} is {f.offset}")
        if f.offset is not None:
            rt.eq(f.offset, vals.offset(n), f"offset of {n}")
        if f.has_fixed_size and b is not None:
            rt.eq(len(b), f.size, f"size of {n}")
        if item.fixed is not None:
            rt.check(f.has_fixed_size and f.size == item.fixed, f"size of {n} is {f.size}")
        if f.offset is not None and b is not None:
            rt.eq(data[f.offset:f.offset + len(b)], b, f"bytes of {n} at its offset")
    t = S.from_bytes(data, scn.ctx)
    if scn.plain and has_len:
        rt.eq(len(t), len(data), "len() of the loaded instance")
    if scn.ctx is None and vals.parts:
        full = dict(vals.full)
        for n, b in vals.parts:
            f = S.__binobj_struct__.components[n]
            if b is not None:
                try:
                    e = f.get_expected_size(full)
                except errors.UndefinedSizeError:
                    continue
                rt.eq(e, len(b), f"expected size of {n}")


@case(CLOSED)
def inside(rt, cfg):
    """the scenario nested in another struct, in an array, and extended by a subclass"""
    scn = scenario(cfg)
    S = scn.cls()
    vals = scn.vals(rt)
    n = scn.fixed_size()
    O = make(("a", fields.UInt8()), ("s", fields.Nested(S)), ("b", fields.UInt8()), name="O")
    o = O(a=1, s=S(**vals.assign), b=2)
    data = o.to_bytes()
    rt.eq(data, b"\x01" + vals.bytes + b"\x02", "nested")
    rt.eq(len(o), len(data), "len() of the outer struct")
    rt.check(O.get_size() == (None if n is None else n + 2), "size of the outer class")
    rt.check(O.b.offset == (None if n is None else n + 1), "offset behind the nested struct")
    rt.check(O.s.offset == 1, "offset of the nested struct")
    m = O(a=1, s=dict(vals.assign), b=2)
    rt.eq(len(m), len(data), "len() with a mapping")
    A = make(("arr", fields.Array(fields.Nested(S), count=2)), ("b", fields.UInt8()), name="A")
    a = A(arr=[S(**vals.assign), S(**vals.assign)], b=3)
    rt.eq(len(a), 2 * len(vals.bytes) + 1, "len() with an array")
    rt.check(A.get_size() == (None if n is None else 2 * n + 1), "size of a class with an array")
    rt.check(A.b.offset == (None if n is None else 2 * n), "offset behind the array")
    T = make(("extra", fields.UInt16()), base=S, name="T")
    t = T(extra=5, **vals.assign)
    rt.eq(len(t), len(vals.bytes) + 2, "len() of a subclass")
    rt.check(T.get_size() == (None if n is None else n + 2), "size of a subclass")
    rt.check(T.extra.offset == n, "offset in a subclass")
    rt.check(S.get_size() == n, "the parent class changed its size")


@case(list(range(12)))
def dependent(rt, cfg):
    """sizes that come from other fields, defaults and null values"""
    n = rt.int("n", 0, 3)
    if rt.holds(n == 0):
        n = 0
    elif rt.holds(n == 1):
        n = 1
    else:
        n = 2
    d = rt.bytes("d", n)
    u8 = fields.UInt8()
    items = {
        0: [("n", u8), ("x", fields.Bytes(size=u8)), ("t", fields.UInt8(default=1))],
        1: [("n", fields.UInt8()), ("x", fields.Bytes(size="n", null_value=b"")), ("t", fields.UInt8(default=1))],
        2: [("n", u8), ("x", fields.Array(fields.UInt8(), count=u8))],
        3: [("n", fields.UInt8()), ("x", fields.Array(fields.UInt16(), count="n"))],
        4: [("n", u8), ("x", fields.Array(fields.Bytes(size=u8), count=1))],
        5: [("n", u8), ("x", fields.StringZ(default="abc"))],
        6: [("n", u8), ("x", fields.StringZ(encoding="utf-16-le"))],
        7: [("n", u8), ("x", fields.VariableLengthInteger(vli_format=VarIntEncoding.VLQ, default=300))],
        8: [("n", u8), ("x", fields.Array(fields.StringZ()))],
        9: [("n", u8), ("x", fields.StringZ(null_value="N"))],
        10: [("n", u8), ("x", fields.VariableLengthInteger(vli_format=VarIntEncoding.LEB128, null_value=200))],
        11: [("n", u8), ("x", fields.String(size=u8))],
    }[cfg]
    S = make(*items)
    val = {0: d, 1: d, 2: list(d), 3: list(d), 4: [d], 5: UNSET, 6: "\u1234" * n, 7: UNSET, 8: ["a"] * n, 9: None, 10: None,
           11: d.decode("iso-8859-1")}[cfg]
    size = {0: 1 + n + 1, 1: 1 + n + 1, 2: 1 + n, 3: 1 + 2 * n, 4: 1 + n, 5: 5, 6: 1 + 2 * n + 2, 7: 3, 8: 1 + 2 * n, 9: 3,
            10: 3, 11: 1 + n}[cfg]
    s = S(n=n)
    if val is not UNSET:
        s.x = val
    data = s.to_bytes()
    rt.eq(len(data), size, "serialization")
    rt.eq(len(s), size, "len()")
    rt.check(S.get_size() is None, "a fixed size is reported")


VLI = {"vlq": (VarIntEncoding.VLQ, 0, lambda rt, v: ref_vlq(rt, v, 21)), "uleb": (VarIntEncoding.ULEB128, 0, lambda rt, v: ref_vlq(rt, v, 21)),
       "leb": (VarIntEncoding.LEB128, -(1 << 20), lambda rt, v: ref_leb(rt, v, 21)),
       "compact": (VarIntEncoding.COMPACT_INDICES, 1 - (1 << 20), lambda rt, v: ref_compact(rt, v, 20))}


@case([(f, w) for f in VLI for w in ("alone", "struct", "array", "nested", "default", "limited")])
def varints(rt, cfg):
    """variable-length integers: the stated size is the number of bytes written"""
    fmt, where = cfg
    enc, lo, ref = VLI[fmt]
    hi = -lo if lo and fmt == "compact" else (1 << 20) - 1
    v = rt.int("v", lo, hi)
    n = len(ref(rt, v))

    def mk(**kw):
        return fields.VariableLengthInteger(vli_format=enc, **kw)
    if where == "alone":
        S = make(("x", mk()))
        s, extra = S(x=v), 0
        rt.eq(S.x.get_expected_size({"x": v}), n, "expected size")
        rt.eq(len(S.x.to_bytes(v)), n, "bytes of the field")
    elif where == "struct":
        S = make(("a", fields.StringZ()), ("x", mk()), ("t", fields.UInt16()))
        s, extra = S(a="ab", x=v, t=1), 5
        rt.eq(S.x.get_expected_size({"a": "ab", "x": v, "t": 1}), n, "expected size")
    elif where == "array":
        S = make(("x", fields.Array(mk(), count=2)))
        s, extra = S(x=[0, v]), 1
    elif where == "nested":
        N = make(("x", mk()), name="N")
        S = make(("n", fields.Nested(N)), ("t", fields.UInt8()))
        s, extra = S(n={"x": v}, t=1), 1
    elif where == "default":
        S = make(("x", mk(default=v)))
        s, extra = S(), 0
    else:
        S = make(("x", mk(max_bytes=3)))
        s, extra = S(x=v), 0
    rt.eq(len(s), n + extra, "len()")
    rt.eq(len(s.to_bytes()), n + extra, "bytes")
    rt.check(S.get_size() is None and s.__binobj_struct__.get_size() is None, "a fixed size is reported")
