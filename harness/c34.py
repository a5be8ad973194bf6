"""C34 errors name the field, value and place that really caused them."""
from scn import *

BOUNDS = {"quick": "every scenario of harness/scn.py in two declaration styles cut at every byte; for every field kind all byte strings "
                   "up to its length (at most 5) and every value outside its range; arrays with up to 2 elements too many or too few"}
OUTSIDE = "the text of messages; offsets of errors other than end of data and leftover data; fields inside nested structs on dump"
COVERS = {"cut": ["short"], "data": ["eof", "loaded"], "integers": ["refused", "fits"]}
U8 = fields.UInt8


def at_end(rt, e, S, name, start, total, msg):
    """The error is about the named field, and about a read that begins in it and goes beyond the end."""
    if e is None:
        return
    rt.check(e.field is getattr(S, name), f"{msg}: another field is named")
    rt.check(isinstance(e.offset, int), f"{msg}: no offset")
    rt.check(e.offset >= start, f"{msg}: an offset before the field")
    rt.check(e.offset <= total, f"{msg}: an offset behind the data")
    rt.check(e.offset + e.size > total, f"{msg}: a read that was possible")


@case([(n, s) for n in NAMES if n != "empty" for s in ("flat", "split")])
def cut(rt, cfg):
    """data that ends in any field"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    vals = scn.vals(rt)
    n = rt.choice("cut", range(len(vals.bytes) + 1))
    bad, end = None, 0
    for nm, b in vals.parts:
        start, end = end, end + len(b or b"")
        if end > n:
            bad = nm
            break
    if bad is None or scn.greedy and bad == "d":
        return
    rt.cover("short")
    data = vals.bytes[:n]
    at_end(rt, rt.raises((errors.UnexpectedEOFError,), lambda: S.from_bytes(data, scn.ctx), "from_bytes"), S, bad, start, n, "from_bytes")
    st = io.BytesIO(b"###" + data)
    st.seek(3)
    at_end(rt, rt.raises((errors.UnexpectedEOFError,), lambda: S.from_stream(st, scn.ctx), "from_stream"), S, bad, 3 + start, 3 + n,
           "from_stream")
    st.seek(3)
    at_end(rt, rt.raises((errors.UnexpectedEOFError,), lambda: S.partial_load(st, bad, scn.ctx), "partial_load"), S, bad, 3 + start,
           3 + n, "partial_load")


@case([n for n in NAMES if n != "empty" and not scenario(n).greedy])
def leftover(rt, cfg):
    """the number of bytes that were used"""
    scn = scenario(cfg)
    S = scn.cls()
    vals = scn.vals(rt)
    more = rt.bytes("more", rt.choice("nmore", (1, 3)))
    e = rt.raises((errors.ExtraneousDataError,), lambda: S.from_bytes(vals.bytes + more, scn.ctx), "leftover data")
    if e is not None:
        rt.eq(e.offset, len(vals.bytes), "offset")


@case([(k, w) for k in ALL_KINDS for w in ("alone", "first", "second", "array", "nested", "null", "union")])
def data(rt, cfg):
    """arbitrary bytes for every kind: whatever is wrong, the field is named"""
    kind, where = cfg
    k = KINDS[kind]
    full = k.size if k.size is not None else 3
    n = rt.choice("n", sorted({0, 1, max(0, full - 1), full} if full > 5 else set(range(full + 1))))
    if kind in ("uuidc", "uuidh") and n == full:
        return
    d = rt.bytes("d", n)
    f = {"array": lambda: fields.Array(k.field(), count=1), "nested": lambda: fields.Nested(make(("x", k.field()), name="In")),
         "null": lambda: k.field(null_value=b"\xEE" * (k.size or 2)),
         "union": lambda: fields.Union(k.field(), load_decider=lambda s, c, x, l: c[0], dump_decider=lambda v, c, x, l: c[0])
         }.get(where, lambda: k.field())()
    if where == "alone":
        load, g, p = (lambda: f.from_stream(io.BytesIO(d))), f, 0
    else:
        S = make(*([] if where == "first" else [("a", fields.UInt16())]), ("x", f), ("t", U8()))
        p = 0 if where == "first" else 2
        load, g = (lambda: S.from_stream(io.BytesIO(b"ab"[:p] + d))), S.x
    try:
        load()
    except errors.UnexpectedEOFError as e:
        rt.cover("eof")
        if where != "alone" and e.field is S.t:
            rt.eq(e.offset, p + n, "offset of the missing last byte")
            rt.eq(e.size, 1, "size of the missing last byte")
            return
        rt.check(e.field is g, "another field is named")
        rt.check(isinstance(e.offset, int), "no offset")
        rt.check(p <= e.offset and e.offset <= p + n, "offset")
        rt.check(e.offset + e.size > p + n, "a read that was possible")
    except errors.DeserializationError as e:
        rt.cover("other")
        rt.check(e.field is g, "another field is named")
    except (errors.ConfigurationError, ValueError):
        pass
    else:
        rt.cover("loaded")


@case([k for k in SCALARS if k[0] in "iu" and k[:2] not in ("uu", "ul")] + ["nullable", "array", "union", "child"])
def integers(rt, cfg):
    """integers that do not fit"""
    special = {"nullable": "i8", "array": "u8", "union": "u16b", "child": "i32l"}
    k = KINDS[special.get(cfg, cfg)]
    f = g = k.field(**({"null_value": b"\x80"} if cfg == "nullable" else {}))
    if cfg == "array":
        f = fields.Array(g, count=1)
    elif cfg == "union":
        f = fields.Union(g, load_decider=lambda s, c, x, l: c[0], dump_decider=lambda v, c, x, l: c[0])
    S = make(("a", U8()), ("x", f)) if cfg != "child" else make(("c", U8(default=1)), base=make(("a", U8()), ("x", f), name="P"))
    lo, hi = int_range(k.size, k.name[0] == "i")
    v = rt.int("v", lo - (1 << 70), hi + (1 << 70))
    fits = rt.holds(lo <= v) and rt.holds(v <= hi)
    s = S(a=1, x=[v] if cfg == "array" else v)
    for what, go in (("to_bytes", lambda: s.to_bytes()), ("to_stream", lambda: s.to_stream(io.BytesIO())),
                     ("partial_dump", lambda: s.partial_dump(io.BytesIO(), "x")), ("field", lambda: g.to_bytes(v))):
        if fits:
            rt.cover("fits")
            go()
            continue
        rt.cover("refused")
        e = rt.raises((errors.UnserializableValueError,), go, what)
        if e is not None:
            rt.check(e.field is g, f"{what}: another field is named")
            rt.eq(e.value, v, f"{what}: another value is named")


@case(["vlq", "uleb", "compact", "leb"])
def varints_(rt, cfg):
    """variable-length integers that are negative or too long"""
    k = KINDS[cfg]
    n = rt.choice("max", (1, 2))
    f = fields.VariableLengthInteger(vli_format={"vlq": VarIntEncoding.VLQ, "uleb": VarIntEncoding.ULEB128,
                                                 "compact": VarIntEncoding.COMPACT_INDICES, "leb": VarIntEncoding.LEB128}[cfg], max_bytes=n)
    S = make(("a", U8()), ("x", f))
    v = rt.int("v", -(1 << 20), 1 << 20)
    bits = 7 * n - {"compact": 1, "leb": 1}.get(cfg, 0)
    if cfg in ("vlq", "uleb"):
        ok, exc = rt.holds(v >= 0), errors.UnserializableValueError
        if ok:
            ok, exc = rt.holds(v < (1 << bits)), errors.ValueSizeError
    else:
        m = v if rt.holds(v >= 0) else (-v if cfg == "compact" else -v - 1)
        ok, exc = rt.holds(m < (1 << bits)), errors.ValueSizeError
    for go in (lambda: S(a=1, x=v).to_bytes(), lambda: f.to_bytes(v)):
        if ok:
            go()
            continue
        e = rt.raises((exc,), go, "too long or negative")
        if e is not None:
            rt.check(e.field is f, "another field is named")
            rt.eq(e.value, v, "another value is named")


@case([(k, s) for k in ("bytes", "str", "strpad", "str16", "strz") for s in range(4)])
def sizes(rt, cfg):
    """bytes and text of the wrong length"""
    kind, size = cfg
    n = rt.choice("n", range(6))
    f = {"bytes": lambda: fields.Bytes(size=size), "str": lambda: fields.String(size=size),
         "strpad": lambda: fields.String(size=size, pad_byte=b"*"), "str16": lambda: fields.String(size=size, encoding="utf-16-le"),
         "strz": lambda: fields.StringZ(size=size + 1)}[kind]()
    v = rt.bytes("v", n) if kind == "bytes" else rt.text("v", n, 1, 127)
    S = make(("a", U8()), ("x", f))
    ln = 2 * n if kind == "str16" else n
    ok = ln <= size if kind == "strpad" else ln == size
    for go in (lambda: S(a=1, x=v).to_bytes(), lambda: f.to_bytes(v)):
        if ok:
            go()
            continue
        e = rt.raises((errors.ValueSizeError,), go, "wrong length")
        if e is not None:
            rt.check(e.field is f, "another field is named")
            rt.eq(e.value, v, "another value is named") if kind == "bytes" else None


@case([(k, w) for k in ALL_KINDS for w in ("unset", "none", "second", "deleted", "undefined")
       if (k, w) != ("uni", "none")])
def missing(rt, cfg):
    """unset fields and None"""
    kind, where = cfg
    k = KINDS[kind]
    S = make(("a", U8()), ("x", k.field()), ("y", k.field()))
    v = k.val(rt, "v")
    if where == "unset":
        s, want = S(a=1, y=v), "x"
    elif where == "second":
        s, want = S(a=1, x=v), "y"
    elif where == "deleted":
        s, want = S(a=1, x=v, y=v), "x"
        del s["x"]
    elif where == "undefined":
        s, want = S(a=1, x=v, y=UNDEFINED), "y"
    else:
        s, want = S(a=1, x=None, y=v), "x"
    if where == "none":
        for what, go in (("to_bytes", lambda: s.to_bytes()), ("field", lambda: S.x.to_bytes(None))):
            e = rt.raises((errors.UnserializableValueError,), go, what)
            if e is not None:
                rt.check(e.field is S.x, f"{what}: another field is named")
                rt.check(e.value is None, f"{what}: another value is named")
        return
    for what, go in (("to_bytes", lambda: s.to_bytes()), ("to_stream", lambda: s.to_stream(io.BytesIO())),
                     ("to_dict", lambda: s.to_dict()), ("partial_dump", lambda: s.partial_dump(io.BytesIO(), "y")),
                     ("validate", lambda: s.validate_contents())):
        if where == "undefined" and what == "validate":
            continue
        e = rt.raises((errors.MissingRequiredValueError,), go, what)
        if e is not None:
            rt.check(e.field is getattr(S, want), f"{what}: another field is named")


@case([(n, how) for n in range(4) for how in ("const", "name", "obj") for _ in (0,)])
def counts(rt, cfg):
    """arrays with too many or too few elements"""
    n, how = cfg
    c = U8()
    f = fields.Array(U8(), count=n if how == "const" else "c" if how == "name" else c)
    S = make(("c", c), ("x", f))
    m = rt.choice("m", range(6))
    v = rt.bytes("v", m)
    vals = [b for b in v]
    for lazy in (False, True):
        s = S(c=n, x=iter(vals) if lazy else vals)
        st = io.BytesIO()
        if m == n:
            rt.eq(f.to_bytes(iter(vals) if lazy else vals, all_fields={"c": n}), v, "right number")
            continue
        e = rt.raises((errors.ArraySizeError,), lambda: f.to_stream(st, iter(vals) if lazy else vals, all_fields={"c": n}), "wrong number")
        if e is None:
            continue
        rt.check(e.field is f, "another field is named")
        rt.eq(e.n_expected, n, "expected number")
        rt.check(e.n_given > n and e.n_given <= m if m > n else e.n_given == m, "given number")


@case([(k, w) for k in ("u8", "i24b", "vlq", "bytes3", "str3", "strz", "f64b") for w in ("alone", "first", "second", "nested")])
def constants(rt, cfg):
    """wrong constants on load, assigning to constants"""
    kind, where = cfg
    k = KINDS[kind]
    c = {"u8": 7, "i24b": -2, "vlq": 200, "bytes3": b"abc", "str3": "abc", "strz": "ab", "f64b": 1.5}[kind]
    f = k.field(const=c)
    v = k.val(rt, "v")
    if len(k.ref(rt, v)) == len(k.ref(rt, c)):
        rt.assume(v != c)
    raw = k.ref(rt, v)
    if where == "alone":
        e = rt.raises((errors.ValidationError,), lambda: f.from_bytes(raw), "wrong constant")
    else:
        S = make(*([("a", U8())] if where == "second" else []), ("x", f))
        load = (lambda: S.from_bytes((b"a" if where == "second" else b"") + raw))
        if where == "nested":
            S2 = make(("n", fields.Nested(S)))
            load = (lambda: S2.from_bytes(raw))
        e = rt.raises((errors.ValidationError,), load, "wrong constant")
        s = S()

        def attr():
            s.x = v

        def item():
            s["x"] = c
        for go in (attr, item):
            i = rt.raises((errors.ImmutableFieldError,), go, "assigning to a constant")
            rt.check(i is None or i.field is f, "another field is named")
        rt.check("x" not in [q for q in s], "a constant was assigned")
    if e is not None:
        rt.check(e.field is f, "another field is named")
        k.same(rt, e.value, v, "another value is named")


@case([("z",), ("z", "y"), ("A", "a "), ("__values__",)])
def unknown(rt, cfg):
    """constructor arguments that are no fields"""
    S = make(("a", U8()), ("b", U8()))
    v = rt.int("v", 0, 255)
    kw = {n: v for n in cfg}
    e = rt.raises((errors.UnexpectedValueError,), lambda: S(a=1, **kw), "unknown name")
    if e is not None:
        rt.check(e.names == {n for n in cfg}, "other names are given")


@case([(f, w) for f in ("size", "count") for w in ("object", "name")])
def references(rt, cfg):
    """a size or count field that has no value"""
    what, how = cfg
    n = U8()
    n.name = None if how == "name" else None
    S = make(("n", n), ("x", fields.Bytes(size=n if how == "object" else "n") if what == "size" else
                        fields.Array(U8(), count=n if how == "object" else "n")))
    v = rt.bytes("v", 2)
    s = S(x=v if what == "size" else [v[0], v[1]])
    for go in (lambda: s.to_bytes(), lambda: s.to_dict(), lambda: s.partial_dump(io.BytesIO(), "x")):
        e = rt.raises((errors.MissingRequiredValueError,), go, "no size")
        rt.check(e is None or e.field is S.n or e.field == "n", "another field is named")
    if what == "count":
        e = rt.raises((errors.FieldReferenceError,), lambda: S.x.from_stream(io.BytesIO(b"abc")), "no count on load")
        rt.check(e is None or e.field == "n", "another field is named")
    else:
        e = rt.raises((errors.MissingRequiredValueError,), lambda: S.x.from_stream(io.BytesIO(b"abc")), "no size on load")
        rt.check(e is None or e.field == "n" or e.field is S.n, "another field is named")
