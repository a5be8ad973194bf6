"""C25 nested structs behave exactly like the same fields written inline."""
from scn import *

BOUNDS = {"quick": "every scenario layout (all field kinds, sizes and counts from siblings, optional, constant, default, computed and "
                   "discarded fields, unions, context) nested at depth 1 to 3, in arrays and in unions, given as mapping and as instance, the "
                   "inner class declared in four styles, pairs of variable kinds; every value within the bounds of the kinds"}
OUTSIDE = "instances of another struct class than the nested one"
ASSUMPTIONS = ["data for a nested field is a mapping or an instance of the field's own struct class"]
COVERS = {"inline": ["mapping", "instance"], "refuse": ["accepted", "rejected"]}

U8 = fields.UInt8
STYLES = ["flat", "dc", "split", "chain", "val"]


def wrap(inner, how, greedy):
    """(outer class, function from inner value to the constructor arguments, function from outer struct to inner value, head, tail)."""
    tail = [] if greedy else [("t", U8())]
    if how == "one":
        S = make(("a", U8()), ("n", fields.Nested(inner)), *tail)
        return S, lambda v: {"n": v}, lambda s: s.n, b"\x05"
    if how == "two":
        M = make(("m", fields.Nested(inner)), name="M")
        S = make(("a", U8()), ("n", fields.Nested(M)), *tail)
        return S, lambda v: {"n": {"m": v}}, lambda s: s.n.m, b"\x05"
    if how == "three":
        L = make(("h", U8(default=1)), ("l", fields.Nested(inner)), name="L")
        M = make(("m", fields.Nested(L)), name="M")
        S = make(("a", U8()), ("n", fields.Nested(M)), *tail)
        return S, lambda v: {"n": M(m={"l": v})}, lambda s: s.n.m.l, b"\x05\x01"
    if how == "dc":
        ann = {"a": U8(), "n": inner}
        if not greedy:
            ann["t"] = U8()
        S = binobj.dataclass(type("D", (binobj.Struct,), {"__annotations__": ann}))
        return S, lambda v: {"n": v}, lambda s: s.n, b"\x05"
    P = make(("a", U8()), ("n", fields.Nested(inner)), name="P")
    return (make(*tail, base=P) if tail else P), lambda v: {"n": v}, lambda s: s.n, b"\x05"


@case([(n, "one", s) for n in NAMES for s in (STYLES if not n.startswith("k_") else ["flat"])]
      + [(n, w, "flat") for n in NAMES if n != "empty" for w in ("two", "three", "dc", "parent")]
      + [(p, "one", "flat") for p in PAIRS])
def inline(rt, cfg):
    """the bytes, the loaded values, the position and the sizes are those of the inline fields"""
    name, how, style = cfg
    if name == "empty" and style == "dc":
        rt.check(True, "")
        return
    sc = scenario(name)
    inner = sc.style(style)
    vals = sc.vals(rt)
    S, arg, get, head = wrap(inner, how, sc.greedy)
    tail, targ = (b"", {}) if sc.greedy else (b"\x06", {"t": 6})
    raw = head + vals.bytes + tail
    if rt.choice("as", ("mapping", "instance")) == "mapping":
        rt.cover("mapping")
        v = dict(vals.assign)
    else:
        rt.cover("instance")
        v = inner(**vals.assign)
    s = S(a=5, **arg(v), **targ)
    rt.eq(s.to_bytes(sc.ctx), raw, "dump")
    st = io.BytesIO(b"zz")
    st.seek(2)
    s.to_stream(st, sc.ctx)
    rt.eq(st.getvalue(), b"zz" + raw, "to_stream")
    rt.eq(inner(**vals.assign).to_bytes(sc.ctx), vals.bytes, "the inner struct on its own")
    if sc.ctx is None:
        rt.check(len(s) == len(raw), "length")
        rt.eq(bytes(s), raw, "bytes()")
    after = b"" if sc.greedy else rt.bytes("after", 2)
    st = io.BytesIO(b"z" + raw + after)
    st.seek(1)
    back = S.from_stream(st, sc.ctx)
    got = get(back)
    rt.check(type(got) is inner, "type of the loaded struct")
    sc.same(rt, got, vals, "load")
    rt.check(st.tell() == 1 + len(raw), "position")
    if not sc.greedy:
        rt.check(back.t == 6, "the field after")
    if sc.plain:
        rt.eq(back.to_bytes(sc.ctx), raw, "dump of the loaded struct")
    own = inner.from_bytes(vals.bytes, sc.ctx)
    sc.same(rt, own, vals, "load of the inner struct on its own")
    rt.check(got == own, "the nested struct equals the one loaded on its own")
    size = sc.fixed_size()
    rt.check(S.get_size() == (None if size is None else len(head) + size + len(tail)), "class size")
    if not sc.greedy:
        rt.check(S.t.offset == (None if size is None else len(head) + size), "offset of the field after")
    if how in ("one", "dc", "parent"):
        rt.check(S.n.size == size and S.n.offset == 1, "size and offset of the nested field")
        st.seek(1)
        got = S.get_field(st, "n", sc.ctx)
        rt.check(type(got) is inner and st.tell() == 1, "get_field")
        sc.same(rt, got, vals, "get_field")
        got = S.partial_load(st, "n", sc.ctx)
        sc.same(rt, got.n, vals, "partial_load")
        rt.check(st.tell() == 2 + len(vals.bytes), "position after partial_load")
        out = io.BytesIO()
        s.partial_dump(out, "n", sc.ctx)
        rt.eq(out.getvalue(), head + vals.bytes, "partial_dump")


@case([(n, c) for n in NAMES if n not in ("empty",) for c in ("const", "field", "end") if not scenario(n).greedy
       and (c != "end" or n != "zero")] )
def in_arrays(rt, cfg):
    """arrays of structs hold the structs one after the other"""
    name, count = cfg
    sc = scenario(name)
    inner = sc.cls()
    light = name.startswith("k_") or count == "const"
    many = [sc.vals(rt, f"e{i}.") for i in range(2 if light else 1)]
    raw = cat([v.bytes for v in many])
    n = len(many)
    if count == "const":
        S, head, args = make(("x", fields.Array(fields.Nested(inner), count=n)), ("t", U8(default=6))), b"", {}
    elif count == "field":
        c = U8()
        S, head, args = make(("c", c), ("x", fields.Array(fields.Nested(inner), count=c)), ("t", U8(default=6))), bytes([n]), {"c": n}
    else:
        S, head, args = make(("x", fields.Array(fields.Nested(inner)))), b"", {}
    tail = b"" if count == "end" else b"\x06"
    mixed = [dict(v.assign) if i == 0 else inner(**v.assign) for i, v in enumerate(many)]
    rt.eq(S(**args, x=mixed).to_bytes(sc.ctx), head + raw + tail, "dump")
    back = S.from_bytes(head + raw + tail, sc.ctx)
    rt.check(len(back.x) == n, "number of structs")
    for got, v in zip(back.x, many):
        rt.check(type(got) is inner, "type of an element")
        sc.same(rt, got, v, "element")
    if sc.plain:
        rt.eq(back.to_bytes(sc.ctx), head + raw + tail, "dump again")
    size = sc.fixed_size()
    if count == "const":
        rt.check(S.get_size() == (None if size is None else n * size + 1), "class size")


@case([n for n in NAMES if n not in ("empty",) and not scenario(n).greedy])
def in_unions(rt, cfg):
    """a union choosing the struct does the same"""
    sc = scenario(cfg)
    inner = sc.cls()
    vals = sc.vals(rt)
    S = make(("a", U8()), ("n", fields.Union(U8(), inner, load_decider=lambda st, ch, c, f: ch[1], dump_decider=lambda d, ch, c, f: ch[1])),
             ("t", U8()))
    raw = b"\x05" + vals.bytes + b"\x06"
    rt.eq(S(a=5, n=dict(vals.assign), t=6).to_bytes(sc.ctx), raw, "dump")
    back = S.from_bytes(raw, sc.ctx)
    rt.check(type(back.n) is inner, "type")
    sc.same(rt, back.n, vals, "load")


@case([(n, w) for n in NAMES if n != "empty" for w in ("nested", "array", "union") if w != "array" or not scenario(n).greedy])
def alone(rt, cfg):
    """the nested field used by itself gives the bytes and values of the struct"""
    name, how = cfg
    sc = scenario(name)
    inner = sc.cls()
    vals = sc.vals(rt)
    n = fields.Nested(inner)
    f = {"nested": lambda: n, "array": lambda: fields.Array(n, count=1),
         "union": lambda: fields.Union(U8(), n, load_decider=lambda st, ch, c, q: ch[1], dump_decider=lambda d, ch, c, q: ch[1])}[how]()
    v = dict(vals.assign) if rt.choice("as", ("mapping", "instance")) == "mapping" else inner(**vals.assign)
    v = [v] if how == "array" else v
    rt.eq(f.to_bytes(v, context=sc.ctx), vals.bytes, "to_bytes")
    st = io.BytesIO(b"zz")
    st.seek(2)
    f.to_stream(st, v, context=sc.ctx)
    rt.eq(st.getvalue(), b"zz" + vals.bytes, "to_stream")
    got = f.from_bytes(vals.bytes, context=sc.ctx)
    got = got[0] if how == "array" else got
    rt.check(type(got) is inner, "type")
    sc.same(rt, got, vals, "from_bytes")
    if not sc.greedy:
        st = io.BytesIO(b"z" + vals.bytes + b"zz")
        st.seek(1)
        got = f.from_stream(st, context=sc.ctx)
        sc.same(rt, got[0] if how == "array" else got, vals, "from_stream")
        rt.check(st.tell() == 1 + len(vals.bytes), "position")


@case([n for n in NAMES if n not in ("empty",) and scenario(n).ctx is None])
def dictionaries(rt, cfg):
    """to_dict gives plain dictionaries that rebuild the struct, and equality looks inside"""
    sc = scenario(cfg)
    inner = sc.cls()
    vals = sc.vals(rt)
    S, arg, get, head = wrap(inner, "two", True)
    s = S(a=5, **arg(inner(**vals.assign)))
    d = s.to_dict(keep_discardable=True)
    rt.check(type(d["n"]) is dict and type(d["n"]["m"]) is dict, "plain dictionaries")
    rt.eq(d["n"]["m"], inner(**vals.assign).to_dict(keep_discardable=True), "contents")
    rt.eq(S(**{k: v for k, v in d.items()}).to_bytes(), head + vals.bytes, "rebuilt from the dictionary")
    back = S.from_bytes(head + vals.bytes)
    if vals.complete():
        rt.check(s == S(a=5, **arg(dict(vals.assign))), "instance and mapping are equal")
        rt.check(s == back, "loaded struct is equal")


@case([(k, how) for k in ("u8", "u16b", "i32l", "strz", "bytes3", "vlq", "nest", "arr3") for how in ("one", "two", "three", "dc", "parent")])
def change(rt, cfg):
    """changing a field of the nested instance changes the outer struct's bytes"""
    kind, how = cfg
    k = KINDS[kind]
    inner = make(("h", U8()), ("x", k.field()), ("z", KINDS["strz"].field()))
    S, arg, get, head = wrap(inner, how, False)
    v, w = k.val(rt, "v"), k.val(rt, "w")
    raw = head + b"\x01" + k.ref(rt, v) + b"zz\0\x06"
    s = S.from_bytes(raw)
    rt.eq(s.to_bytes(), raw, "before")
    get(s).x = w
    rt.eq(s.to_bytes(), head + b"\x01" + k.ref(rt, w) + b"zz\0\x06", "after assigning")
    k.same(rt, get(s).x, w, "value")
    get(s)["x"] = v
    rt.eq(s.to_bytes(), raw, "after assigning by item")
    i = inner(h=1, x=w, z="zz")
    o = S(a=5, t=6, **arg(i))
    rt.eq(o.to_bytes(), head + b"\x01" + k.ref(rt, w) + b"zz\0\x06", "instance given")
    i.x = v
    rt.eq(o.to_bytes(), raw, "the given instance was changed")
    del get(s)["x"]
    rt.raises((errors.MissingRequiredValueError,), lambda: s.to_bytes(), "deleted in the nested struct")


@case([(w, how, give) for w in ("field", "method", "struct", "const", "range", "missing", "unknown", "null")
       for how in ("one", "two", "three", "dc", "parent", "array", "union") for give in ("mapping", "instance")])
def refuse(rt, cfg):
    """errors and validators inside the nested struct stop the outer operation"""
    where, how, give = cfg
    bad = rt.int("bad", 0, 255)
    v = rt.int("v", 0, 255)

    def no(value):
        if rt.holds(value == bad):
            raise errors.ValidationError(field=None, value=value)
    extra = []
    kw = {}
    if where == "field":
        kw = {"validate": lambda f, value: no(value)}
    elif where == "method":
        extra = [("chk", validates("x")(lambda self, f, value: no(value)))]
    elif where == "struct":
        extra = [("chk", validates_struct(lambda self, values: no(values["x"])))]
    elif where == "const":
        kw = {"const": 7}
    inner = make(("x", U8(**kw)), ("y", U8(default=3)), *extra)
    if how == "array":
        S, arg, head = make(("a", U8()), ("n", fields.Array(fields.Nested(inner), count=2)), ("t", U8())), lambda z: {"n": [z, {"x": 7, "y": 3}]}, b"\x05"
        back = b"\x07\x03"
        if where in ("field", "method", "struct"):
            rt.assume(bad != 7)
    elif how == "union":
        S, head, back = make(("a", U8()), ("n", fields.Union(inner, load_decider=lambda st, ch, c, f: ch[0],
                                                             dump_decider=lambda d, ch, c, f: ch[0])), ("t", U8())), b"\x05", b""
        arg = lambda z: {"n": z}  # noqa: E731
    else:
        S, arg, get, head = wrap(inner, how, False)
        back = b""
    ok = rt.holds(v != bad) if where in ("field", "method", "struct") else rt.holds(v == 7) if where == "const" else False
    vals = {"range": {"x": 256 + v}, "missing": {"y": v}, "unknown": {"x": v, "q": v}, "null": {"x": None}}.get(where, {"x": v})
    if give == "instance" and where == "unknown":
        rt.raises((errors.UnexpectedValueError,), lambda: inner(**vals), "unknown name")
        return
    mk = (lambda: dict(vals)) if give == "mapping" else (lambda: inner(**vals))
    raw = head + bytes([v, 3]) + back + b"\x06"
    st = io.BytesIO(b"zz")
    st.seek(2)
    if ok:
        rt.cover("accepted")
        rt.eq(S(a=5, t=6, **arg(mk())).to_bytes(), raw, "dump")
        rt.eq(S.from_bytes(raw).to_bytes(), raw, "load")
        return
    rt.cover("rejected")
    if where == "const" and how == "union":
        return              # what a wrong constant given to a constructor does is not claimed
    if where != "const":
        want = {"range": errors.UnserializableValueError, "missing": errors.MissingRequiredValueError, "unknown": errors.UnexpectedValueError,
                "null": errors.UnserializableValueError}.get(where, errors.ValidationError)
        rt.raises((want,), lambda: S(a=5, t=6, **arg(mk())).to_bytes(), "dump")
        rt.raises((want,), lambda: S(a=5, t=6, **arg(mk())).to_stream(st), "to_stream")
        rt.check(len(st.getvalue()) <= 2 + len(head), "nothing of the inner struct is written")
    if where in ("field", "method", "struct", "const"):
        rt.raises((errors.ValidationError,), lambda: S.from_bytes(raw), "load")
        rt.raises((errors.ValidationError,), lambda: S.partial_load(io.BytesIO(raw)), "partial_load")


@case(["mapping", "instance", "factory"])
def defaults(rt, cfg):
    """a nested struct can be a default"""
    p, q, t = rt.int("p", 0, 255), rt.int("q", 0, 65535), rt.int("t", 0, 255)
    inner = inner_class()
    v = {"p": 1, "q": 258}
    kw = {"mapping": lambda: {"default": dict(v)}, "instance": lambda: {"default": inner(**v)}, "factory": lambda: {"factory": lambda: inner(**v)}}[cfg]()
    S = make(("n", fields.Nested(inner, **kw)), ("t", U8()))
    rt.eq(S(t=t).to_bytes(), b"\x01\x01\x02" + bytes([t]), "default")
    rt.eq(S(t=t, n={"p": p, "q": q}).to_bytes(), bytes([p, q >> 8, q & 255, t]), "given")
    rt.eq(S(t=t).to_bytes(), b"\x01\x01\x02" + bytes([t]), "default again")
    rt.check(len(S(t=t)) == 4, "length")
    rt.eq(S(t=t).to_dict(), {"n": v, "t": t}, "to_dict")
