"""C20 unset fields take their constant, default, factory result or computed value."""
from scn import *

BOUNDS = {"quick": "every field kind x source (constant, default, factory, callable default, None default, computed, none) with "
                   "arbitrary source values and arbitrary assigned values, set by constructor, attribute or item, deleted "
                   "and set again; through every dump call, to_dict, item and attribute; every wrong constant on load"}
OUTSIDE = "a field with both a constant and a default or factory; a constructor argument for a constant field; NaN constants"
ASSUMPTIONS = ["factories and compute functions depend only on the values of the struct"]
COVERS = {"unset": ["unset", "deleted"], "assigned": ["constructor", "attribute", "item"],
          "wrong_const": ["right", "wrong"]}

MISSING = (errors.MissingRequiredValueError,)
U8 = fields.UInt8


def source_field(k, source, value):
    if source == "const":
        return k.field(const=value)
    if source == "default":
        return k.field(default=value)
    if source == "factory":
        return k.field(factory=lambda: value)
    if source == "callable":
        return k.field(default=lambda: value)
    f = k.field()
    f.computes(lambda self, v: value)
    return f


def check_all(rt, S, s, k, v, b, what):
    """Every way to see the value of x (between an a=1 and a t=2)."""
    want = b"\x01" + b + b"\x02"
    rt.eq(s.to_bytes(), want, what + ": to_bytes")
    st = io.BytesIO()
    s.to_stream(st)
    rt.eq(st.getvalue(), want, what + ": to_stream")
    rt.eq(bytes(s), want, what + ": bytes()")
    rt.check(len(s) == len(want), what + ": len()")
    st = io.BytesIO()
    s.partial_dump(st)
    rt.eq(st.getvalue(), want, what + ": partial_dump")
    st = io.BytesIO()
    s.partial_dump(st, "x")
    rt.eq(st.getvalue(), want[:-1], what + ": partial_dump up to it")
    k.same(rt, s.x, v, what + ": attribute")
    k.same(rt, s["x"], v, what + ": item")
    k.same(rt, s.to_dict()["x"], v, what + ": to_dict")


SOURCES = ["const", "default", "factory", "callable", "compute"]


@case([(k, s) for k in ALL_KINDS for s in SOURCES])
def unset(rt, cfg):
    """never assigned, or assigned and deleted again"""
    kind, source = cfg
    k = KINDS[kind]
    v = k.val(rt, "v")
    b = k.ref(rt, v)
    S = make(("a", U8()), ("x", source_field(k, source, v)), ("t", U8()))
    s = S(a=1, t=2)
    rt.cover("unset")
    check_all(rt, S, s, k, v, b, "unset")
    if source in ("const", "default", "factory", "callable"):
        rt.eq(S.x.to_bytes(), b, "field alone")
        buf = io.BytesIO()
        S.x.to_stream(buf)
        rt.eq(buf.getvalue(), b, "field alone, to_stream")
    if source in ("default", "factory", "callable"):
        w = KINDS[kind].val(rt, "w")
        s.x = w
        del s["x"]
        rt.cover("deleted")
        check_all(rt, S, s, k, v, b, "deleted")
    got = S.from_bytes(b"\x01" + b + b"\x02")
    k.same(rt, got.x, v, "loads back")


@case([(k, s) for k in ALL_KINDS for s in SOURCES[1:]])
def assigned(rt, cfg):
    """an assigned value wins"""
    kind, source = cfg
    k = KINDS[kind]
    v, w = k.val(rt, "v"), k.val(rt, "w")
    b = k.ref(rt, w)
    S = make(("a", U8()), ("x", source_field(k, source, v)), ("t", U8()))
    how = rt.choice("how", ("constructor",) if source == "compute" else ("constructor", "attribute", "item"))
    rt.cover(how)
    if how == "constructor":
        s = S(a=1, x=w, t=2)
    else:
        s = S(a=1, t=2)
        if how == "attribute":
            s.x = w
        else:
            s["x"] = w
    check_all(rt, S, s, k, w, b, how)
    rt.eq(S.x.to_bytes(w), b, "field alone")


@case([(k, h) for k in ALL_KINDS for h in ("never", "deleted")])
def missing(rt, cfg):
    """no source at all"""
    kind, how = cfg
    k = KINDS[kind]
    S = make(("a", U8()), ("x", k.field()), ("t", U8()))
    s = S(a=1, t=2)
    if how == "deleted":
        s.x = k.val(rt, "v")
        del s["x"]
    pre = rt.bytes("pre", 1)
    st = io.BytesIO()
    st.write(pre)
    rt.raises(MISSING, lambda: s.to_bytes(), "to_bytes")
    rt.raises(MISSING, lambda: s.to_stream(st), "to_stream")
    rt.eq(st.getvalue(), pre, "something was written")
    rt.raises(MISSING, lambda: bytes(s), "bytes()")
    rt.raises(MISSING, lambda: s.to_dict(), "to_dict")
    rt.raises(MISSING, lambda: s.x, "attribute")
    rt.raises(MISSING, lambda: s["x"], "item")
    rt.raises(MISSING, lambda: S.x.to_bytes(), "field alone")
    N = make(("n", fields.Nested(S)))
    rt.raises(MISSING, lambda: N(n=s).to_bytes(), "nested instance")
    rt.raises(MISSING, lambda: N(n={"a": 1, "t": 2}).to_bytes(), "nested mapping")


@case([(k, s) for k in ALL_KINDS if KINDS[k].size not in (0,) for s in ("default", "factory", "callable", "compute", "assigned")])
def none_value(rt, cfg):
    """None as the default of a nullable field is not the same as no default"""
    kind, source = cfg
    k = KINDS[kind]
    v = k.val(rt, "v")
    b = k.ref(rt, v)
    if k.size is None:
        null = k.val(rt, "null")
        nb = k.ref(rt, null)
    else:
        null = nb = rt.bytes("null", k.size)
    kw = {"null_value": null}
    if source == "default":
        kw["default"] = None
    elif source == "factory":
        kw["factory"] = lambda: None
    elif source == "callable":
        kw["default"] = lambda: None
    elif source == "assigned":
        kw["default"] = v
    f = k.field(**kw)
    if source == "compute":
        f.computes(lambda self, vals: None)
    S = make(("a", U8()), ("x", f), ("t", U8()))
    if source == "assigned":
        s = S(a=1, t=2, x=None)
        rt.eq(S(a=1, t=2).to_bytes(), b"\x01" + b + b"\x02", "the default")
    else:
        s = S(a=1, t=2)
        rt.eq(S(a=1, x=v, t=2).to_bytes(), b"\x01" + b + b"\x02", "an assigned value wins")
    rt.eq(s.to_bytes(), b"\x01" + nb + b"\x02", "dump")
    rt.check(s.x is None, "attribute")
    rt.check(s.to_dict()["x"] is None, "to_dict")
    st = io.BytesIO()
    s.partial_dump(st, "x")
    rt.eq(st.getvalue(), b"\x01" + nb, "partial_dump")


@case([(p, s) for p in ("u8", "u16b", "f64b", "strz", "str3", "bytes3", "arr3", "arrz", "leb", "vlq") for s in SOURCES])
def falsy(rt, cfg):
    """zeros and empty values are values"""
    kind, source = cfg
    k = KINDS[kind]
    v = {"u8": 0, "u16b": 0, "f64b": 0.0, "strz": "", "str3": "\0\0\0", "bytes3": b"\0\0\0", "arr3": [0, 0, 0],
         "arrz": ["", ""], "leb": 0, "vlq": 0}[kind]
    S = make(("a", U8()), ("x", source_field(k, source, v)), ("t", U8()))
    b = k.ref(rt, v)
    check_all(rt, S, S(a=1, t=2), k, v, b, "unset")
    w = k.val(rt, "w")
    if source == "const":
        return
    T = make(("a", U8()), ("x", source_field(k, source, w)), ("t", U8()))
    check_all(rt, T, T(a=1, x=v, t=2), k, v, b, "assigned")


@case([(s, d) for s in ("factory", "callable") for d in (False, True)])
def undefined_factory(rt, cfg):
    """a factory that has nothing to offer"""
    source, deleted = cfg
    k = KINDS["u8"]
    on = rt.bool("on")
    v = rt.int("v", 0, 255)

    def make_value():
        return v if rt.holds(on) else UNDEFINED
    f = fields.UInt8(factory=make_value) if source == "factory" else fields.UInt8(default=make_value)
    S = make(("a", U8()), ("x", f), ("t", U8()))
    s = S(a=1, t=2)
    if deleted:
        s.x = 9
        rt.eq(s.to_bytes(), b"\x01\x09\x02", "assigned")
        del s["x"]
    if rt.holds(on):
        check_all(rt, S, s, k, v, bytes([v]), "offered")
    else:
        rt.raises(MISSING, lambda: s.to_bytes(), "to_bytes")
        rt.raises(MISSING, lambda: s.x, "attribute")
        rt.raises(MISSING, lambda: s.to_dict(), "to_dict")
        rt.raises(MISSING, lambda: S.x.to_bytes(), "field alone")


@case([(k, e) for k in ALL_KINDS if KINDS[k].size != 0
       for e in ("from_bytes", "from_stream", "partial_load", "get_field", "field", "field_stream", "nested", "array", "union", "child")])
def wrong_const(rt, cfg):
    """only the constant loads"""
    kind, entry = cfg
    k = KINDS[kind]
    c = k.val(rt, "c")
    S = make(("a", U8()), ("x", k.field(const=c)), ("t", U8()))
    if rt.choice("right", (True, False)):
        v = c
        b = k.ref(rt, c)
        rt.cover("right")
    else:
        v = k.val(rt, "v")
        b = k.ref(rt, v)
        cb = k.ref(rt, c)
        if len(b) == len(cb):
            rt.assume(b != cb)
        if kind in ("f16b", "f32l", "f64b"):
            rt.assume(v != c)
        rt.cover("wrong")
    raw = b"\x01" + b + b"\x02"
    if entry == "from_bytes":
        def load():
            return S.from_bytes(raw).x
    elif entry == "from_stream":
        def load():
            return S.from_stream(io.BytesIO(raw)).x
    elif entry == "partial_load":
        def load():
            return S.partial_load(io.BytesIO(raw), "x").x
    elif entry == "get_field":
        def load():
            return S.get_field(io.BytesIO(raw), "x")
    elif entry == "field":
        def load():
            return S.x.from_bytes(b)
    elif entry == "field_stream":
        def load():
            return S.x.from_stream(io.BytesIO(raw[1:]))
    elif entry == "nested":
        N = make(("q", U8()), ("n", fields.Nested(S)))

        def load():
            return N.from_bytes(b"\0" + raw).n.x
    elif entry == "array":
        A = make(("q", fields.Array(k.field(const=c), count=2)))
        cb = k.ref(rt, c)

        def load():
            return A.from_bytes(cb + b).q[1]
    elif entry == "union":
        A = make(("q", fields.Union(k.field(const=c), load_decider=lambda st, ch, x, f: ch[0],
                                    dump_decider=lambda d, ch, x, f: ch[0])))

        def load():
            return A.from_bytes(b).q
    else:
        C = make(("z", U8()), base=S, name="C")

        def load():
            return C.from_bytes(raw + b"\x07").x
    if v is c:
        k.same(rt, load(), c, "the constant")
    elif len(b) != len(cb):
        # bytes that cannot be a value of the constant's size
        rt.raises((errors.ValidationError, errors.DeserializationError), load, "another value")
    else:
        rt.raises((errors.ValidationError,), load, "another value")


@case([(k, s, h) for k in ("u8", "i32l", "strz", "bytes3", "f64b", "arr3", "nest", "uuid1", "vlq") for s in ("const", "compute")
       for h in ("attribute", "item")])
def immutable(rt, cfg):
    """constant and computed fields cannot be assigned"""
    kind, source, how = cfg
    k = KINDS[kind]
    v = k.val(rt, "v")
    w = v if rt.choice("same", (True, False)) else k.val(rt, "w")
    S = make(("a", U8()), ("x", source_field(k, source, v)), ("t", U8()))
    s = S(a=1, t=2)
    want = s.to_bytes()
    if how == "attribute":
        def assign():
            s.x = w
    else:
        def assign():
            s["x"] = w
    rt.raises((errors.ImmutableFieldError,), assign, "assigning it")
    rt.eq(s.to_bytes(), want, "changed although refused")
    ld = S.from_bytes(want)
    s = ld
    rt.raises((errors.ImmutableFieldError,), assign, "assigning it on a loaded instance")
    rt.eq(ld.to_bytes(), want, "changed although refused, loaded")
    C = make(("z", U8()), base=S, name="C")
    s = C(a=1, t=2, z=3)
    rt.raises((errors.ImmutableFieldError,), assign, "assigning it in a subclass")
    rt.eq(s.to_bytes(), want + b"\x03", "changed although refused, subclass")


def precedence_value(rt, name):
    return rt.int(name, 0, 255)


@case(["default", "factory", "const", "none"])
def compute_last(rt, cfg):
    """default and factory go before computation"""
    d, c = rt.int("d", 0, 255), rt.int("c", 0, 255)
    if cfg == "const":
        f = U8(const=d)
        rt.raises((errors.ConfigurationError,), lambda: f.computes(lambda self, v: c), "computed constant")
        rt.eq(make(("x", f))().to_bytes(), bytes([d]), "const")
        return
    f = U8(default=d) if cfg == "default" else U8(factory=lambda: d) if cfg == "factory" else U8()
    f.computes(lambda self, v: c)
    rt.raises((errors.ConfigurationError,), lambda: f.computes(lambda self, v: 0), "computed twice")
    S = make(("x", f), ("t", U8(default=1)))
    want = c if cfg == "none" else d
    rt.eq(S().to_bytes(), bytes([want, 1]), "dump")
    rt.eq(S().x, want, "attribute")
    rt.eq(S().to_dict(), {"x": want, "t": 1}, "to_dict")
    w = rt.int("w", 0, 255)
    rt.eq(S(x=w).to_bytes(), bytes([w, 1]), "assigned")


def computing(how):
    """(class, assigned -> bytes) for values computed from others."""
    if how == "length":
        n = U8()
        n.computes(lambda self, v: len(v["d"]))
        return make(("n", n), ("d", fields.StringZ()), ("t", U8())), ["d", "t"], None
    return None


@case(["sum", "chain", "before_default", "before_factory", "array", "nested", "parent", "child", "nested_value", "deco"])
def computed_from(rt, cfg):
    """from what the other fields are going to be dumped as"""
    a, b = rt.int("a", 0, 15), rt.int("b", 0, 15)
    if cfg == "sum":
        c = U8()
        c.computes(lambda self, v: v["a"] + v["b"])
        S = make(("a", U8()), ("c", c), ("b", U8()))
        s, want, attr = S(a=a, b=b), bytes([a, a + b, b]), a + b
        rt.eq(s.c, a + b, "attribute")
        s.a = b
        rt.eq(s.to_bytes(), bytes([b, b + b, b]), "recomputed")
        rt.eq(s.c, b + b, "recomputed attribute")
        rt.eq(s.to_dict(), {"a": b, "c": b + b, "b": b}, "recomputed to_dict")
        s.a = a
    elif cfg == "chain":
        c, d = U8(), U8()
        c.computes(lambda self, v: v["a"] + 1)
        d.computes(lambda self, v: v["c"] + v["b"])
        S = make(("a", U8()), ("c", c), ("d", d), ("b", U8()))
        s, want = S(a=a, b=b), bytes([a, a + 1, a + 1 + b, b])
    elif cfg == "before_default":
        c = U8()
        c.computes(lambda self, v: v["b"] + v["a"])
        S = make(("a", U8(default=a)), ("c", c), ("b", U8(default=b)))
        s, want = S(), bytes([a, a + b, b])
        w = rt.int("w", 0, 15)
        rt.eq(S(b=w).to_bytes(), bytes([a, a + w, w]), "assigned instead of the default")
    elif cfg == "before_factory":
        c = U8()
        c.computes(lambda self, v: v["b"] + v["a"])
        S = make(("a", U8(const=a)), ("c", c), ("b", U8(factory=lambda: b)))
        s, want = S(), bytes([a, a + b, b])
    elif cfg == "array":
        c = U8()
        c.computes(lambda self, v: len(v["d"]) + v["d"][0])
        S = make(("c", c), ("d", fields.Array(U8())))
        s, want = S(d=[a, b, 1]), bytes([a + 3, a, b, 1])
    elif cfg == "nested":
        c = U8()
        c.computes(lambda self, v: v["p"] + 1)
        In = make(("c", c), ("p", U8()), name="In")
        S = make(("a", U8()), ("n", fields.Nested(In)), ("l", fields.Array(fields.Nested(In), count=2)))
        s = S(a=a, n={"p": b}, l=[{"p": a}, In(p=b)])
        want = bytes([a, b + 1, b, a + 1, a, b + 1, b])
    elif cfg == "parent":
        c = U8()
        c.computes(lambda self, v: v["b"] + 1)
        P = make(("c", c), ("b", U8()), name="P")
        S = make(("a", U8()), base=P)
        s, want = S(a=a, b=b), bytes([b + 1, b, a])
    elif cfg == "child":
        P = make(("b", U8()), name="P")
        c = U8()
        c.computes(lambda self, v: v["b"] + v["a"])
        S = make(("a", U8()), ("c", c), base=P)
        s, want = S(a=a, b=b), bytes([b, a, a + b])
    elif cfg == "nested_value":
        c = U8()
        c.computes(lambda self, v: v["n"]["p"] + v["n"]["q"])
        In = make(("p", U8()), ("q", U8()), name="In")
        S = make(("c", c), ("n", fields.Nested(In)))
        s, want = S(n={"p": a, "q": b}), bytes([a + b, a, b])
        rt.eq(S(n=In(p=a, q=b)).to_bytes(), want, "nested instance")
    else:
        class S(binobj.Struct):
            n = fields.UInt8()
            d = fields.Bytes(size=n)

            @n.computes
            def _n(self, all_fields):
                return len(all_fields["d"])
            a = fields.UInt8()
        d = rt.bytes("d", rt.choice("len", (0, 1, 3)))
        s, want = S(d=d, a=a), bytes([len(d)]) + d + bytes([a])
        rt.eq(s.n, len(d), "attribute")
    rt.eq(s.to_bytes(), want, "to_bytes")
    rt.check(len(s) == len(want), "len()")
    st = io.BytesIO()
    s.partial_dump(st)
    rt.eq(st.getvalue(), want, "partial_dump")
    rt.eq(S(**s.to_dict()).to_bytes(), want, "rebuilt from to_dict")
    if cfg in ("sum", "chain", "parent"):
        w = rt.int("c2", 0, 240)
        kw = {"a": a, "b": b, "c": w}
        got = S(**kw)
        rt.eq(got.c, w, "explicit value wins")
        rt.eq(got.to_bytes()[S.c.offset], w, "explicit value is dumped")


@case(["computed_missing", "required_after", "uncomputable_read"])
def compute_missing(rt, cfg):
    """what the computation needs has no value"""
    c = U8()
    c.computes(lambda self, v: v["b"] + 1)
    S = make(("a", U8()), ("c", c), ("b", U8()))
    s = S(a=rt.int("a", 0, 255))
    rt.raises(MISSING, lambda: s.to_bytes(), "to_bytes")
    rt.raises(MISSING, lambda: s.to_dict(), "to_dict")
    rt.raises(MISSING, lambda: s.c, "attribute")
    b = rt.int("b", 0, 254)
    s.b = b
    rt.eq(s.to_bytes(), bytes([s.a, b + 1, b]), "after assigning")


@case([(n, st) for n, x in SCNS().items() if n != "empty" and x.ctx is None for st in ("flat", "dc", "split")])
def everywhere(rt, cfg):
    """to_dict of every scenario states what is dumped; assigning that gives the same bytes"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    vals = scn.vals(rt)
    s = S(**vals.assign)
    want = vals.bytes
    d = s.to_dict(keep_discardable=True)
    rt.check(list(d) == scn.names or sorted(d) == sorted(scn.names), "fields in to_dict")
    rt.eq(s.to_bytes(), want, "to_bytes")
    for n, b in vals.parts:
        i = scn.item(n)
        if vals.full[n] is NOT_PRESENT or b is None:
            continue
        if i.inner is None:
            i.same(rt, s[n], vals.full[n], f"item {n}")
            i.same(rt, d[n], vals.full[n], f"to_dict {n}")
    rt.eq(S(**d).to_bytes(), want, "explicit values")


class Box:
    """State outside the struct."""

    def __init__(self, v):
        self.v = v


@case([(k, s, w) for k in ("u8", "i32l", "strz", "bytes3", "arr3", "nest", "vlq", "uuid1") for s in ("factory", "callable", "compute")
       for w in ("plain", "discard", "child", "after_load")])
def asked_again(rt, cfg):
    """a factory or computation is asked at each use, not once"""
    kind, source, where = cfg
    k = KINDS[kind]
    box = Box(k.val(rt, "v"))
    kw = {"discard": True} if where == "discard" else {}
    if source == "factory":
        f = k.field(factory=lambda: box.v, **kw)
    elif source == "callable":
        f = k.field(default=lambda: box.v, **kw)
    else:
        f = k.field(**kw)
        f.computes(lambda self, v: box.v)
    S = make(("a", U8()), ("x", f), ("t", U8()))
    tail = b"\x02"
    if where == "child":
        S = make(("u", U8(default=3)), base=S)
        tail = b"\x02\x03"
    if where == "after_load" and source != "compute":
        s = S.from_bytes(b"\x01" + k.ref(rt, box.v) + tail)
        del s["x"]
    else:
        s = S(a=1, t=2)
    for i in range(3):
        if i:
            box.v = k.val(rt, f"v{i}")
        b = k.ref(rt, box.v)
        rt.eq(s.to_bytes(), b"\x01" + b + tail, f"to_bytes {i}")
        rt.check(len(s) == 1 + len(b) + len(tail), f"len() {i}")
        k.same(rt, s.x, box.v, f"attribute {i}")
        k.same(rt, s.to_dict(keep_discardable=True)["x"], box.v, f"to_dict {i}")
        rt.eq(S(a=1, t=2).to_bytes(), b"\x01" + b + tail, f"a new instance {i}")
        st = io.BytesIO()
        s.partial_dump(st, "x")
        rt.eq(st.getvalue(), b"\x01" + b, f"partial_dump {i}")
        if source != "compute":
            rt.eq(S.x.to_bytes(), b, f"field alone {i}")


@case([(s, w) for s in ("flat", "dc", "split", "nested") for w in ("to_bytes", "to_stream", "partial_dump", "to_dict", "len", "attr", "item",
                                                                   "validate")])
def arguments(rt, cfg):
    """a compute function is given the field it computes and the values of the others"""
    style, entry = cfg
    a, b = rt.int("a", 0, 100), rt.int("b", 0, 100)
    calls = []
    c, d = U8(), U8()

    def compute(field, values):
        calls.append(field)
        if field.name == "c":
            return values["a"] + values["b"]
        return values["a"]
    c.computes(compute)
    d.computes(compute)
    items = [("a", U8()), ("c", c), ("d", d), ("b", U8())]
    if style == "dc":
        S = binobj.dataclass(type("S", (binobj.Struct,), {"__annotations__": dict(items)}))
    elif style == "split":
        S = make(*items[2:], base=make(*items[:2], name="P"))
    else:
        S = make(*items)
    s = S(a=a, b=b)
    want = bytes([a, a + b, a, b])
    if style == "nested":
        s = make(("n", fields.Nested(S)))(n=s)
    st = io.BytesIO()
    if entry == "to_bytes":
        rt.eq(s.to_bytes(), want, "bytes")
    elif entry == "to_stream":
        s.to_stream(st)
        rt.eq(st.getvalue(), want, "bytes")
    elif entry == "partial_dump":
        s.partial_dump(st)
        rt.eq(st.getvalue(), want, "bytes")
    elif entry == "len":
        rt.eq(len(s), 4, "len()")
    elif entry == "validate":
        (s.n if style == "nested" else s).validate_contents()
    else:
        t = s.n if style == "nested" else s
        got = t.to_dict() if entry == "to_dict" else {"c": t.c, "d": t.d} if entry == "attr" else {"c": t["c"], "d": t["d"]}
        rt.eq(got["c"], a + b, "value of c")
        rt.eq(got["d"], a, "value of d")
    if entry != "len":
        rt.check(any([f is c for f in calls]) and any([f is d for f in calls]), "not asked for each field")
    for f in calls:
        rt.check(f is c or f is d, "not given the field")
