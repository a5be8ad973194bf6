"""C21 optional fields exist exactly when their condition holds."""
from scn import *

BOUNDS = {"quick": "every field kind as an optional field (conditions on an arbitrary byte, an arbitrary context, the next bytes "
                   "of the stream, or a later field on dump), absent values NOT_PRESENT, None or arbitrary, with default, "
                   "factory, constant, computation, null value and discard, up to four optional fields, in arrays, nested "
                   "structs and unions; every load and dump call"}
OUTSIDE = "the NOT_PRESENT marker assigned explicitly; conditions on the components of arrays"
ASSUMPTIONS = ["conditions depend only on the fields before them on load, are deterministic and do not move the stream"]
COVERS = {"single": ["present", "absent"], "stream": ["present", "absent"], "many": ["all", "none", "some"]}

U8 = fields.UInt8
NPVS = {"marker": lambda k, rt: NOT_PRESENT, "none": lambda k, rt: None, "value": lambda k, rt: k.val(rt, "npv")}


def same_npv(rt, k, got, npv, msg):
    if npv is None or npv is NOT_PRESENT:
        rt.check(got is npv, msg)
    else:
        k.same(rt, got, npv, msg)


@case([(k, n, st) for k in ALL_KINDS for n in NPVS for st in (("flat", "dc", "split") if k in ("u16b", "strz", "nest") else ("flat",))])
def single(rt, cfg):
    """one optional field between others"""
    kind, npname, style = cfg
    k = KINDS[kind]
    npv = NPVS[npname](k, rt)
    kw = {} if npname == "marker" else {"not_present_value": npv}
    f = k.field(present=lambda v, c, s: v["f"] >= 0x40, **kw)
    items = [("a", U8()), ("f", U8()), ("x", f), ("z", fields.StringZ()), ("t", U8())]
    if style == "flat":
        S = make(*items)
    elif style == "split":
        S = make(*items[2:], base=make(*items[:2], name="P"))
    else:
        S = binobj.dataclass(type("D", (binobj.Struct,), {"__annotations__": dict(items)}))
    fl = rt.int("f", 0, 255)
    v = k.val(rt, "v")
    z = KINDS["strz"].val(rt, "z")
    zb = KINDS["strz"].ref(rt, z)
    here = rt.holds(fl >= 0x40)
    rt.cover("present" if here else "absent")
    b = k.ref(rt, v) if here else b""
    head = bytes([1, fl])
    want = head + b + zb + b"\x02"
    vals = {"a": 1, "f": fl, "z": z, "t": 2}
    extra = here or rt.choice("assigned", (True, False))
    if extra:
        vals["x"] = v
    s = S(**vals)
    rt.eq(s.to_bytes(), want, "to_bytes")
    st = io.BytesIO()
    s.to_stream(st)
    rt.eq(st.getvalue(), want, "to_stream")
    rt.check(len(s) == len(want), "len()")
    st = io.BytesIO()
    s.partial_dump(st)
    rt.eq(st.getvalue(), want, "partial_dump")
    for nm, n in (("f", 2), ("x", 2 + len(b)), ("z", len(want) - 1)):
        st = io.BytesIO()
        s.partial_dump(st, nm)
        rt.eq(st.getvalue(), want[:n], f"partial_dump up to {nm}")
    if not here:
        rt.check(s.to_dict()["x"] is NOT_PRESENT, "to_dict of an absent field")
        if not extra:
            rt.check(s.x is NOT_PRESENT, "reading an absent field")
    # loading
    st = io.BytesIO(want + b"\xAA")
    g = S.from_stream(st)
    rt.check(st.tell() == len(want), "position after from_stream")
    for got, what in ((g, "from_stream"), (S.from_bytes(want), "from_bytes"), (S.partial_load(io.BytesIO(want)), "partial_load")):
        if here:
            k.same(rt, got.x, v, what)
        else:
            same_npv(rt, k, got.x, npv, what + " of an absent field")
        rt.eq(got.f, fl, what + ": flag")
        rt.eq(got.z, z, what + ": next field")
        rt.eq(got.t, 2, what + ": last field")
    rt.eq(g.to_bytes(), want, "dumped again")
    rt.check(len(g) == len(want), "len() of the loaded one")
    st = io.BytesIO(want)
    p = S.partial_load(st, "x")
    rt.check(st.tell() == 2 + len(b), "position after partial_load")
    got = S.get_field(io.BytesIO(want), "x")
    if here:
        k.same(rt, got, v, "get_field")
        k.same(rt, p.x, v, "partial_load")
    else:
        same_npv(rt, k, got, npv, "get_field of an absent field")
        same_npv(rt, k, p.x, npv, "partial_load of an absent field")
    rt.eq(S.get_field(io.BytesIO(want), "z"), z, "get_field behind it")
    # the field alone, given the others
    st = io.BytesIO(b + b"\xAA")
    got = S.x.from_stream(st, None, {"a": 1, "f": fl})
    rt.check(st.tell() == len(b), "position after the field alone")
    if here:
        k.same(rt, got, v, "field alone")
    else:
        same_npv(rt, k, got, npv, "field alone, absent")
    if style == "flat":
        for inst in (s, {**vals}):
            N = make(("l", fields.Array(fields.Nested(S), count=2)), ("e", U8()))
            n = N(l=[inst, inst], e=7)
            rt.eq(n.to_bytes(), want + want + b"\x07", "array of nested structs")
        g = N.from_bytes(want + want + b"\x07")
        rt.eq(g.l[1].z, z, "loaded array of nested structs")
        rt.eq(g.e, 7, "behind the array")


@case([(k, w) for k in ALL_KINDS for w in ("required", "default", "factory", "const", "compute", "none", "discard")
       if not (w == "none" and KINDS[k].size in (0, None))])
def sources(rt, cfg):
    """unset values of optional fields"""
    kind, source = cfg
    k = KINDS[kind]
    fl = rt.bool("f")
    v = k.val(rt, "v")
    b = k.ref(rt, v)
    kw = {"present": lambda vals, c, s: vals["f"] == 1}
    if source == "default":
        kw["default"] = v
    elif source == "factory":
        kw["factory"] = lambda: v
    elif source == "const":
        kw["const"] = v
    elif source == "none":
        kw["null_value"] = b
        kw["default"] = None
    elif source == "discard":
        kw["default"] = v
        kw["discard"] = True
    f = k.field(**kw)
    if source == "compute":
        f.computes(lambda self, vals: v)
    S = make(("f", U8()), ("x", f), ("t", U8()))
    here = rt.holds(fl)
    s = S(f=1 if here else 0, t=2)
    if source == "required" and here:
        rt.raises((errors.MissingRequiredValueError,), lambda: s.to_bytes(), "a present field without a value")
        rt.raises((errors.MissingRequiredValueError,), lambda: s.to_dict(), "to_dict")
        return
    want = b"\x01" + b + b"\x02" if here else b"\0\x02"
    rt.eq(s.to_bytes(), want, "to_bytes")
    rt.check(len(s) == len(want), "len()")
    st = io.BytesIO()
    s.partial_dump(st, "t")
    rt.eq(st.getvalue(), want, "partial_dump")
    rt.check(S.get_size() is None, "get_size")
    rt.check(S.t.offset is None, "offset behind it")
    d = s.to_dict(keep_discardable=True)
    if not here:
        rt.check(d["x"] is NOT_PRESENT, "to_dict of an absent field")
    elif source == "none":
        rt.check(d["x"] is None, "to_dict")
    else:
        k.same(rt, d["x"], v, "to_dict")
    g = S.from_bytes(want)
    rt.eq(g.t, 2, "loaded: behind it")
    if source == "discard":
        rt.check("x" not in [n for n in g], "discarded")
    elif not here:
        rt.check(g.x is NOT_PRESENT, "loaded: absent")
    elif source == "none":
        rt.check(g.x is None, "loaded: None")
    else:
        k.same(rt, g.x, v, "loaded")
    if source not in ("discard",):
        rt.eq(g.to_bytes(), want, "dumped again")


@case([(m, st) for m in ("bits", "chain", "adjacent") for st in ("flat", "dc", "chain")])
def many(rt, cfg):
    """several optional fields; a condition on an optional field"""
    mode, style = cfg
    log = []

    def bit(n):
        return lambda v, c, s: v["f"] & (1 << n)
    if mode == "chain":
        conds = [bit(0), lambda v, c, s: v["w"] is not NOT_PRESENT and v["w"] >= 0x80, bit(1), bit(2)]
    else:
        conds = [bit(0), bit(1), bit(2), bit(3)]
    kinds = ["u8", "strz", "u16b", "nestvar"] if mode != "adjacent" else ["u16b", "u8", "u8", "bytes3"]
    sep = mode == "bits"
    names = ["w", "x", "y", "z"]
    items = [("f", U8())]
    for n, k, c in zip(names, kinds, conds):
        items.append((n, KINDS[k].field(present=c)))
        if sep:
            items.append((n + "s", U8()))
    items.append(("t", U8()))
    if style == "flat":
        S = make(*items)
    elif style == "dc":
        S = binobj.dataclass(type("D", (binobj.Struct,), {"__annotations__": dict(items)}))
    else:
        S = make(items[0], name="P0")
        for n, i in enumerate(items[1:]):
            S = make(i, base=S, name=f"P{n + 1}")
    f = rt.int("f", 0, 15)
    vals, want, here = {"f": f, "t": 9}, bytes([f]), []
    for j, n in enumerate(names):
        k = KINDS[kinds[j]]
        v = k.val(rt, n)
        if mode == "chain" and n == "x":
            on = here[0] and rt.holds(vals["w"] >= 0x80)
        else:
            on = rt.holds(f & (1 << (j - 1 if mode == "chain" and j > 1 else j)))
        here.append(on)
        if on:
            vals[n] = v
            want = want + k.ref(rt, v)
        if sep:
            vals[n + "s"] = j
            want = want + bytes([j])
    want = want + b"\x09"
    rt.cover("all" if all(here) else "some" if any(here) else "none")
    s = S(**vals)
    rt.eq(s.to_bytes(), want, "to_bytes")
    rt.check(len(s) == len(want), "len()")
    g = S.from_bytes(want)
    for j, n in enumerate(names):
        if here[j]:
            KINDS[kinds[j]].same(rt, g[n], vals[n], n)
            KINDS[kinds[j]].same(rt, S.get_field(io.BytesIO(want), n), vals[n], "get_field " + n)
        else:
            rt.check(g[n] is NOT_PRESENT, n + " is absent")
            rt.check(S.get_field(io.BytesIO(want), n) is NOT_PRESENT, "get_field " + n + " is absent")
    rt.eq(g.t, 9, "last field")
    rt.eq(S.get_field(io.BytesIO(want), "t"), 9, "get_field of the last field")
    rt.eq(g.to_bytes(), want, "dumped again")


@case([(k, w) for k in ("u8", "u16b", "strz", "arr3", "nest", "vlq") for w in ("plain", "nested", "array", "union", "child")])
def context(rt, cfg):
    """the condition sees the context"""
    kind, where = cfg
    k = KINDS[kind]
    ctx = CtxType()
    ctx.k = rt.int("ctx", 0, 255)
    ctx.seen = []

    def cond(v, c, s):
        return c is not None and c.k > 99
    S = make(("a", U8()), ("x", k.field(present=cond)), ("t", U8()))
    on = rt.holds(ctx.k > 99)
    v = k.val(rt, "v")
    vals = {"a": 1, "t": 2}
    if on or rt.choice("assigned", (True, False)):
        vals["x"] = v
    want = b"\x01" + (k.ref(rt, v) if on else b"") + b"\x02"
    tail = b""
    if where == "nested":
        T = make(("n", fields.Nested(S)), ("e", U8()))
        s = T(n=S(**vals) if rt.choice("inst", (True, False)) else vals, e=3)
        tail = b"\x03"

        def inner(g):
            return g.n
    elif where == "array":
        T = make(("n", fields.Array(fields.Nested(S), count=2)))
        s = T(n=[vals, S(**vals)])
        want = want + want

        def inner(g):
            return g.n[1]
    elif where == "union":
        T = make(("n", fields.Union(S, load_decider=lambda st, ch, c, f: ch[0], dump_decider=lambda d, ch, c, f: ch[0])))
        s = T(n=vals)

        def inner(g):
            return g.n
    elif where == "child":
        T = make(("e", U8()), base=S, name="C")
        s = T(e=3, **vals)
        tail = b"\x03"

        def inner(g):
            return g
    else:
        T, s = S, S(**vals)

        def inner(g):
            return g
    want = want + tail
    rt.eq(s.to_bytes(ctx), want, "to_bytes")
    st = io.BytesIO()
    s.to_stream(st, context=ctx)
    rt.eq(st.getvalue(), want, "to_stream")
    st = io.BytesIO()
    s.partial_dump(st, context=ctx)
    rt.eq(st.getvalue(), want, "partial_dump")
    for g, what in ((T.from_bytes(want, ctx), "from_bytes"), (T.from_stream(io.BytesIO(want), ctx), "from_stream"),
                    (T.partial_load(io.BytesIO(want), context=ctx), "partial_load")):
        got = inner(g)
        if on:
            k.same(rt, got.x, v, what)
        else:
            rt.check(got.x is NOT_PRESENT, what + ": absent")
        rt.eq(got.t, 2, what + ": behind it")
    if where in ("plain", "child"):
        got = T.get_field(io.BytesIO(want), "x", ctx)
        if on:
            k.same(rt, got, v, "get_field")
        else:
            rt.check(got is NOT_PRESENT, "get_field: absent")
        rt.eq(T.get_field(io.BytesIO(want), "t", ctx), 2, "get_field behind it")
    # without a context nothing is there
    del vals["a"]
    rt.eq(S(a=1, **vals).to_bytes(), b"\x01\x02", "without context")
    rt.check(S.from_bytes(b"\x01\x02").x is NOT_PRESENT, "load without context")


@case([(k, w) for k in ("u16b", "strz", "bytes3", "nest", "i8") for w in ("peek", "eof")])
def stream(rt, cfg):
    """on load the condition sees the stream at the position of the field"""
    kind, mode = cfg
    k = KINDS[kind]

    def cond(v, c, st):
        if st is None:
            return v["tag"] == 1 if mode == "peek" else True
        if mode == "peek":
            return helpers.peek_bytes(st, 1) == b"\x01"
        return helpers.peek_bytes(st, 1) != b""
    if mode == "peek":
        S = make(("a", U8()), ("tag", U8(present=cond)), ("x", k.field()))
        a = rt.int("a", 0, 255)
        v = k.val(rt, "v")
        b = k.ref(rt, v)
        if rt.choice("there", (True, False)):
            rt.cover("present")
            g = S.from_bytes(bytes([a, 1]) + b)
            rt.check(g.tag == 1, "present")
            rt.eq(g.to_bytes(), bytes([a, 1]) + b, "dumped again")
        else:
            rt.assume(b[0] != 1)
            rt.cover("absent")
            g = S.from_bytes(bytes([a]) + b)
            rt.check(g.tag is NOT_PRESENT, "absent")
        k.same(rt, g.x, v, "behind it")
        rt.eq(g.a, a, "before it")
        return
    S = make(("a", U8()), ("x", k.field(present=cond)))
    a = rt.int("a", 0, 255)
    if rt.choice("there", (True, False)):
        rt.cover("present")
        v = k.val(rt, "v")
        b = k.ref(rt, v)
        rt.assume(len(b) > 0)
        k.same(rt, S.from_bytes(bytes([a]) + b).x, v, "present")
    else:
        rt.cover("absent")
        rt.check(S.from_bytes(bytes([a])).x is NOT_PRESENT, "absent")


@case(["load", "dump", "nested", "child"])
def sees(rt, cfg):
    """what the condition is given"""
    log = []

    def cond(v, c, st):
        log.append(({n: v[n] for n in ("a", "b", "c") if n in v}, c, st))
        return True
    if cfg == "child":
        P = make(("a", U8()), ("b", U8()), name="P")
        S = make(("x", U8(present=cond)), ("c", U8()), base=P)
    else:
        S = make(("a", U8()), ("b", U8()), ("x", U8(present=cond)), ("c", U8()))
    T = make(("n", fields.Nested(S))) if cfg == "nested" else S
    d = rt.bytes("d", 4)
    ctx = CtxType()
    st = io.BytesIO(d)
    g = T.from_stream(st, ctx)
    rt.check(len(log) >= 1, "condition is not asked on load")
    seen, c, at = log[0]
    rt.eq(seen, {"a": d[0], "b": d[1]}, "loaded fields")
    rt.check(c is ctx, "context on load")
    rt.check(at is st, "stream on load")
    log.clear()
    rt.eq(g.to_bytes(ctx), d, "dump")
    rt.check(len(log) >= 1, "condition is not asked on dump")
    seen, c, at = log[-1]
    rt.eq(seen, {"a": d[0], "b": d[1], "c": d[3]}, "values about to be dumped")
    for seen, c, at in log:
        rt.check(c is ctx and at is None, "context and stream on dump")


@case([(s, k) for s in ("plain", "default", "computed", "const") for k in ("u8", "strz")])
def later(rt, cfg):
    """on dump the condition can refer to fields behind"""
    source, kind = cfg
    k = KINDS[kind]
    f = rt.int("f", 0, 255)
    kw = {"default": f} if source == "default" else {"const": f} if source == "const" else {}
    ff = U8(**kw)
    if source == "computed":
        ff.computes(lambda self, v: v["g"])
    S = make(("x", k.field(present=lambda v, c, s: v["f"] > 7)), ("g", U8()), ("f", ff))
    v = k.val(rt, "v")
    vals = {"x": v, "g": f}
    if source == "plain":
        vals["f"] = f
    on = rt.holds(f > 7)
    want = (k.ref(rt, v) if on else b"") + bytes([f, f])
    s = S(**vals)
    rt.eq(s.to_bytes(), want, "to_bytes")
    rt.check(len(s) == len(want), "len()")
    st = io.BytesIO()
    s.partial_dump(st)
    rt.eq(st.getvalue(), want, "partial_dump")
    if not on:
        del s["x"]
        rt.eq(s.to_bytes(), want, "without a value")


@case([(w, st) for w in ("field", "method", "both", "struct") for st in ("flat", "dc", "child")])
def validators(rt, cfg):
    """validators never see an absent value"""
    where, style = cfg
    log = []

    def fv(field, value):
        log.append(value)
        if value >= 100:
            raise errors.ValidationError(field=field, value=value)

    def mv(self, field, value):
        log.append(value)
        if value >= 100:
            raise errors.ValidationError(field=field, value=value)

    def sv(self, values):
        log.append(values["x"])
    kw = {"validate": fv} if where in ("field", "both") else {}
    items = [("f", U8()), ("x", U8(present=lambda v, c, s: v["f"] & 1, **kw)), ("t", U8())]
    vs = []
    if where in ("method", "both"):
        vs.append(("m", validates("x")(mv)))
    if where == "struct":
        vs.append(("m", validates_struct(sv)))
    if style == "flat":
        S = make(*items, *vs)
    elif style == "child":
        S = make(*vs, base=make(*items, name="P"))
    else:
        S = binobj.dataclass(type("D", (binobj.Struct,), {"__annotations__": dict(items), **dict(vs)}))
    f, x = rt.int("f", 0, 255), rt.int("x", 0, 255)
    on = rt.holds(f & 1)
    bad = where != "struct" and rt.holds(x >= 100)
    if on:
        raw = bytes([f, x, 2])
        s = None
        if bad:
            rt.raises((errors.ValidationError,), lambda: S.from_bytes(raw), "rejected value loads")
            rt.raises((errors.ValidationError,), lambda: S(f=f, x=x, t=2).to_bytes(), "rejected value is dumped")
        else:
            rt.eq(S.from_bytes(raw).to_bytes(), raw, "accepted value")
            rt.check(len(log) > 0, "no validator ran")
        for v in log:
            rt.eq(v, x, "value given to the validator")
        return
    raw = bytes([f, 2])
    g = S.from_bytes(raw)
    rt.check(g.x is NOT_PRESENT, "absent")
    rt.eq(g.to_bytes(), raw, "dump of the loaded struct")
    rt.eq(S(f=f, t=2).to_bytes(), raw, "dump")
    rt.eq(S.partial_load(io.BytesIO(raw)).t, 2, "partial_load")
    st = io.BytesIO()
    g.partial_dump(st)
    rt.eq(st.getvalue(), raw, "partial_dump")
    if where != "struct":
        rt.check(len(log) == 0, "a validator ran for an absent field")


@case([(w, h) for w in ("bytes", "str", "array", "arrz") for h in ("obj", "name")])
def sized_optional(rt, cfg):
    """an optional size with the field it is for"""
    what, how = cfg
    n = U8(present=lambda v, c, s: v["f"] == 1)
    ref = n if how == "obj" else "n"

    def on(v, c, s):
        return v["f"] == 1
    f = {"bytes": lambda: fields.Bytes(size=ref, present=on), "str": lambda: fields.String(size=ref, present=on),
         "array": lambda: fields.Array(U8(), count=ref, present=on),
         "arrz": lambda: fields.Array(fields.StringZ(), count=ref, present=on)}[what]()
    S = make(("f", U8()), ("n", n), ("d", f), ("t", U8()))
    if rt.choice("on", (True, False)):
        ln = rt.choice("len", (0, 1, 2))
        raw = rt.bytes("d", ln)
        v = {"bytes": lambda: raw, "str": lambda: rt.text("s", ln, 0, 255), "array": lambda: [raw[i] for i in range(ln)],
             "arrz": lambda: [rt.text(f"s{i}", 1, 1, 255) for i in range(ln)]}[what]()
        b = {"bytes": lambda: raw, "array": lambda: raw, "str": lambda: bytes([ord(c) for c in v]),
             "arrz": lambda: cat([bytes([ord(x), 0]) for x in v])}[what]()
        want = bytes([1, ln]) + b + b"\x09"
        s = S(f=1, n=ln, d=v, t=9)
    else:
        want = b"\0\x09"
        v = NOT_PRESENT
        s = S(f=0, t=9)
    rt.eq(s.to_bytes(), want, "to_bytes")
    rt.check(len(s) == len(want), "len()")
    g = S.from_bytes(want)
    if v is NOT_PRESENT:
        rt.check(g.d is NOT_PRESENT and g.n is NOT_PRESENT, "absent")
    else:
        rt.eq(g.d, v, "value")
    rt.eq(g.t, 9, "behind it")
    rt.eq(g.to_bytes(), want, "dumped again")
    rt.check(S.get_field(io.BytesIO(want), "t") == 9, "get_field behind it")
