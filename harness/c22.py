"""C22 discarded fields are part of the layout, not of the loaded result."""
from scn import *

BOUNDS = {"quick": "every field kind discarded in every position, as required, defaulted, constant, computed, nullable or optional "
                   "field, alone, adjacent, in nested structs, arrays, unions and inherited; sizes, counts, conditions, deciders "
                   "and validators that refer to it; every load and dump call and dictionary conversion"}
OUTSIDE = "get_field for a discarded field; a discarded component of an array or union"
COVERS = {"layout": ["assigned", "unset"], "validated": ["accepted", "rejected"]}

U8 = fields.UInt8
POS = ["first", "middle", "last", "both", "only"]


def gone(rt, got, name, msg):
    rt.check(name not in [n for n in got], f"{msg}: it is there")
    rt.check(name not in got.__values__, f"{msg}: it is stored")


def dis_class(items, style):
    if style == "flat":
        return make(*items)
    if style == "split":
        return make(*items[1:], base=make(*items[:1], name="P")) if len(items) > 1 else make(*items)
    return binobj.dataclass(type("D", (binobj.Struct,), {"__annotations__": dict(items)}))


@case([(k, p, s) for k in ALL_KINDS for p in POS for s in (("flat", "split", "dc") if k in ("u16b", "strz", "bytes3") else ("flat",))])
def layout(rt, cfg):
    """dumped and read at its place, not part of the result"""
    kind, pos, style = cfg
    k = KINDS[kind]
    d = k.val(rt, "d")
    f = k.field(discard=True, default=d)
    items = {"first": [("x", f), ("a", U8()), ("t", U8())], "middle": [("a", U8()), ("x", f), ("t", U8())],
             "last": [("a", U8()), ("t", U8()), ("x", f)],
             "both": [("a", U8()), ("x", f), ("y", k.field(discard=True)), ("t", U8())], "only": [("x", f)]}[pos]
    S = dis_class(items, style)
    vals = {"a": 1, "t": 2}
    if rt.choice("assign", (True, False)):
        v = vals["x"] = k.val(rt, "v")
        rt.cover("assigned")
    else:
        v = d
        rt.cover("unset")
    names = [n for n, _ in items]
    vals["y"] = d
    vals = {n: vals[n] for n in names if n in vals}
    b, db = k.ref(rt, v), k.ref(rt, d)
    parts = {"a": b"\x01", "t": b"\x02", "x": b, "y": db}
    want = cat([parts[n] for n in names])
    s = S(**vals)
    rt.eq(s.to_bytes(), want, "to_bytes")
    rt.check(len(s) == len(want), "len()")
    st = io.BytesIO()
    s.partial_dump(st)
    rt.eq(st.getvalue(), want, "partial_dump")
    st = io.BytesIO()
    s.partial_dump(st, "x")
    rt.eq(st.getvalue(), cat([parts[n] for n in names[:names.index("x") + 1]]), "partial_dump up to it")
    kept = [n for n in names if n not in ("x", "y")]
    rt.check(sorted(s.to_dict()) == sorted(kept), "to_dict")
    rt.check(sorted(s.to_dict(keep_discardable=False)) == sorted(kept), "to_dict(False)")
    dd = s.to_dict(keep_discardable=True)
    rt.check(sorted(dd) == sorted(names), "to_dict(True)")
    k.same(rt, dd["x"], v, "to_dict(True)")
    k.same(rt, s.x, v, "attribute before the dump")
    rt.eq(S(**dd).to_bytes(), want, "rebuilt from to_dict(True)")
    # loading
    st = io.BytesIO(want + b"\xAA")
    g = S.from_stream(st)
    rt.check(st.tell() == len(want), "position")
    st = io.BytesIO(want + b"\xAA")
    p = S.partial_load(st, names[-1])
    rt.check(st.tell() == len(want), "position after partial_load")
    for got, msg in ((g, "from_stream"), (S.from_bytes(want), "from_bytes"), (p, "partial_load")):
        gone(rt, got, "x", msg)
        gone(rt, got, "y", msg)
        rt.check(sorted([n for n in got]) == sorted(kept), msg + ": fields")
        for n in kept:
            rt.eq(got[n], vals[n], f"{msg}: {n}")
        rt.eq(got.to_dict(), {n: vals[n] for n in kept}, msg + ": to_dict")
    for n in kept:
        rt.eq(S.get_field(io.BytesIO(want), n), vals[n], f"get_field {n}")
    if pos != "both":
        k.same(rt, g.to_dict(keep_discardable=True)["x"], d, "default in to_dict(True)")
        parts["x"] = db
        rt.eq(g.to_bytes(), cat([parts[n] for n in names]), "loaded and dumped: the default")
    else:
        rt.raises((errors.MissingRequiredValueError,), lambda: g.to_bytes(), "dump without the discarded value")
        g.y = d
        parts["x"] = db
        rt.eq(g.to_bytes(), cat([parts[n] for n in names]), "assigned again")


@case([(w, e) for w in ("field", "method", "struct", "const", "bytes_eof", "inherited")
       for e in ("from_bytes", "from_stream", "partial_load", "nested", "array")])
def validated(rt, cfg):
    """a discarded field is read and validated like any other"""
    where, entry = cfg

    def fv(field, value):
        if value >= 100:
            raise errors.ValidationError(field=field, value=value)

    def mv(self, field, value):
        if value >= 100:
            raise errors.ValidationError(field=field, value=value)

    def sv(self, values):
        if values["x"] >= 100:
            raise errors.ValidationError(field=self, value=values)
    kw = {"validate": fv} if where == "field" else {"const": 77} if where == "const" else {}
    items = [("a", U8()), ("x", U8(discard=True, **kw)), ("t", U8())]
    if where in ("method", "inherited"):
        items.append(("m", validates("x")(mv)))
    if where == "struct":
        items.append(("m", validates_struct(sv)))
    S = make(*items)
    if where == "inherited":
        S = make(("e", U8()), base=S, name="C")
    x = rt.int("x", 0, 255)
    raw = bytes([1, x, 2]) + (b"\x03" if where == "inherited" else b"")
    if where == "bytes_eof":
        raw = b"\x01"
    if entry == "from_bytes":
        def load():
            return S.from_bytes(raw)
    elif entry == "from_stream":
        def load():
            return S.from_stream(io.BytesIO(raw))
    elif entry == "partial_load":
        def load():
            return S.partial_load(io.BytesIO(raw), "t")
    elif entry == "nested":
        def load():
            return make(("n", fields.Nested(S))).from_bytes(raw).n
    else:
        def load():
            return make(("n", fields.Array(fields.Nested(S), count=1))).from_bytes(raw).n[0]
    if where == "bytes_eof":
        rt.raises((errors.UnexpectedEOFError,), load, "data ends before the discarded field")
        rt.cover("rejected")
        return
    if entry == "partial_load" and where in ("method", "struct", "inherited"):
        g = load()      # only field-level validators run
        gone(rt, g, "x", "partial_load")
        return
    bad = rt.holds(x != 77) if where == "const" else rt.holds(x >= 100)
    if bad:
        rt.cover("rejected")
        rt.raises((errors.ValidationError,), load, "rejected value of a discarded field")
    else:
        rt.cover("accepted")
        g = load()
        gone(rt, g, "x", "accepted")
        rt.eq(g.t, 2, "behind it")


@case([(w, st, e) for w in ("size", "size_name", "count", "count_name", "cond", "union", "halt", "strsize")
       for st in ("flat", "split", "dc") for e in ("from_bytes", "from_stream", "partial_load", "get_field", "nested")])
def dependents(rt, cfg):
    """fields that depend on a discarded one"""
    what, style, entry = cfg
    n = U8(discard=True)
    k = rt.choice("n", (0, 1, 3))
    d = rt.bytes("d", k)
    want_t = rt.int("t", 0, 255)
    if what in ("size", "size_name"):
        f, v, b = fields.Bytes(size=n if what == "size" else "n"), d, d
    elif what == "strsize":
        f, v, b = fields.String(size=n), rt.text("s", k, 0, 255), None
        b = bytes([ord(c) for c in v])
    elif what in ("count", "count_name"):
        f, v, b = fields.Array(U8(), count=n if what == "count" else "n"), [x for x in d], d
    elif what == "cond":
        f = fields.Bytes(size=1, present=lambda v, c, s: v["n"] == 1)
        v, b = (d, d) if k == 1 else (NOT_PRESENT, b"")
    elif what == "union":
        f = fields.Union(U8(), fields.UInt16(endian="big"), load_decider=lambda st, ch, c, lf: ch[lf["n"] & 1],
                         dump_decider=lambda dd, ch, c, af: ch[af["n"] & 1])
        v = rt.int("u", 0, 255)
        b = bytes([0, v]) if k & 1 else bytes([v])
    else:
        f = fields.Array(U8(), halt_check=lambda seq, st, vals, c, lf: len(vals) >= lf["n"])
        v, b = [x for x in d], d
    S = dis_class([("n", n), ("g", U8()), ("d", f), ("t", U8())], style)
    raw = bytes([k, 5]) + b + bytes([want_t])
    if entry == "nested":
        S = make(("q", fields.Nested(S)))
        g = S.from_bytes(raw).q
    elif entry == "from_bytes":
        g = S.from_bytes(raw)
    elif entry == "from_stream":
        g = S.from_stream(io.BytesIO(raw))
    elif entry == "partial_load":
        g = S.partial_load(io.BytesIO(raw), "t")
        h = S.partial_load(io.BytesIO(raw), "d")
        gone(rt, h, "n", "partial_load up to it")
        rt.same(h.d, v, "partial_load up to it") if v is not NOT_PRESENT else rt.check(h.d is v, "partial_load up to it")
    else:
        got = S.get_field(io.BytesIO(raw), "d")
        rt.same(got, v, "get_field") if v is not NOT_PRESENT else rt.check(got is v, "get_field")
        rt.eq(S.get_field(io.BytesIO(raw), "t"), want_t, "get_field behind")
        return
    gone(rt, g, "n", entry)
    if v is NOT_PRESENT:
        rt.check(g.d is v, "dependent field")
    else:
        rt.same(g.d, v, "dependent field")
    rt.eq(g.t, want_t, "behind the dependent field")
    # dumping with the value assigned
    vals = {"n": k, "g": 5, "t": want_t}
    if v is not NOT_PRESENT:
        vals["d"] = v
    s = S(q=vals) if entry == "nested" else S(**vals)
    rt.eq(s.to_bytes(), raw, "dump")
    rt.check(len(s) == len(raw), "len()")


@case(["size", "count", "array_len", "nested"])
def computed(rt, cfg):
    """a discarded computed field"""
    n = U8(discard=True)
    ln = rt.choice("len", (0, 1, 3))
    d = rt.bytes("d", ln)
    if cfg == "size":
        f, v = fields.Bytes(size=n), d
    else:
        f, v = fields.Array(U8(), count=n), [x for x in d]
    n.computes(lambda self, vals: len(vals["d"]))
    S = make(("n", n), ("d", f), ("t", U8()))
    want = bytes([ln]) + d + b"\x09"
    if cfg == "nested":
        S2 = make(("q", fields.Nested(S)), ("e", U8()))
        for q in ({"d": v, "t": 9}, S(d=v, t=9)):
            rt.eq(S2(q=q, e=1).to_bytes(), want + b"\x01", "nested")
            rt.eq(S2(q=q, e=1).to_dict(), {"q": {"d": v, "t": 9}, "e": 1}, "nested to_dict")
            rt.eq(S2(q=q, e=1).to_dict(keep_discardable=True), {"q": {"n": ln, "d": v, "t": 9} if isinstance(q, binobj.Struct)
                                                               else {"d": v, "t": 9}, "e": 1}, "nested to_dict(True)")
        g = S2.from_bytes(want + b"\x01")
        rt.eq(g.q.d, v, "nested load")
        rt.eq(g.to_bytes(), want + b"\x01", "nested, dumped again")
        return
    s = S(d=v, t=9)
    rt.eq(s.to_bytes(), want, "dump")
    rt.eq(s.to_dict(), {"d": v, "t": 9}, "to_dict")
    rt.eq(s.to_dict(keep_discardable=True), {"n": ln, "d": v, "t": 9}, "to_dict(True)")
    g = S.from_bytes(want)
    gone(rt, g, "n", "load")
    rt.eq(g.to_dict(), {"d": v, "t": 9}, "to_dict of the loaded one")
    rt.eq(g.to_bytes(), want, "dumped again")
    rt.eq(len(g), len(want), "len() of the loaded one")
    rt.check(g == S(d=v, t=9), "equal to the one that was dumped")


@case([(w, a) for w in ("nested", "array", "union", "deep") for a in ("instance", "mapping")])
def inside(rt, cfg):
    """discarded fields of nested structs"""
    where, how = cfg
    d = rt.int("d", 0, 255)
    In = make(("p", U8()), ("x", U8(discard=True, default=d)), ("q", U8()), name="In")
    p, q = rt.int("p", 0, 255), rt.int("q", 0, 255)
    vals = {"p": p, "q": q}
    x = d
    if rt.choice("assign", (True, False)):
        x = vals["x"] = rt.int("x", 0, 255)
    v = In(**vals) if how == "instance" else dict(vals)
    raw = bytes([p, x, q])
    small, full = {"p": p, "q": q}, {"p": p, "x": x, "q": q}
    if where == "nested":
        S = make(("n", fields.Nested(In)), ("t", U8()))
        s, wrap, unwrap = S(n=v, t=3), (lambda z: {"n": z, "t": 3}), (lambda g: g.n)
    elif where == "array":
        S = make(("n", fields.Array(fields.Nested(In), count=1)), ("t", U8()))
        s, wrap, unwrap = S(n=[v], t=3), (lambda z: {"n": [z], "t": 3}), (lambda g: g.n[0])
    elif where == "union":
        S = make(("n", fields.Union(In, load_decider=lambda st, ch, c, lf: ch[0], dump_decider=lambda dd, ch, c, af: ch[0])),
                 ("t", U8()))
        s, wrap, unwrap = S(n=v, t=3), (lambda z: {"n": z, "t": 3}), (lambda g: g.n)
    else:
        Mid = make(("m", fields.Nested(In)), name="Mid")
        S = make(("n", fields.Nested(Mid)), ("t", U8()))
        s = S(n=Mid(m=v) if how == "instance" else {"m": v}, t=3)
        wrap, unwrap = (lambda z: {"n": {"m": z}, "t": 3}), (lambda g: g.n.m)
    rt.eq(s.to_bytes(), raw + b"\x03", "dump")
    if how == "instance":
        rt.eq(s.to_dict(), wrap(small), "to_dict")
        rt.eq(s.to_dict(keep_discardable=True), wrap(full), "to_dict(True)")
    g = S.from_bytes(raw + b"\x03")
    gone(rt, unwrap(g), "x", "load")
    rt.eq(unwrap(g).p, p, "before it")
    rt.eq(unwrap(g).q, q, "behind it")
    rt.eq(g.to_dict(), wrap(small), "to_dict of the loaded one")
    rt.eq(g.to_dict(keep_discardable=True), wrap({"p": p, "x": d, "q": q}), "to_dict(True) of the loaded one")
    rt.eq(g.to_bytes(), bytes([p, d, q, 3]), "loaded and dumped: the default")


@case(["null", "cond", "const", "factory", "falsy"])
def special(rt, cfg):
    """nullable, optional, constant discarded fields"""
    x = rt.int("x", 0, 255)
    if cfg == "null":
        S = make(("a", U8()), ("x", U8(discard=True, null_value=0xFF, default=None)), ("t", U8()))
        rt.eq(S(a=1, t=2).to_bytes(), b"\x01\xff\x02", "default None")
        rt.assume(x != 255)
        rt.eq(S(a=1, x=x, t=2).to_bytes(), bytes([1, x, 2]), "assigned")
        gone(rt, S.from_bytes(b"\x01\xff\x02"), "x", "load")
    elif cfg == "cond":
        S = make(("f", U8()), ("x", U8(discard=True, default=7, present=lambda v, c, s: v["f"] & 1)), ("t", U8()))
        on = rt.holds(x & 1)
        raw = bytes([x, 7, 2]) if on else bytes([x, 2])
        rt.eq(S(f=x, t=2).to_bytes(), raw, "dump")
        g = S.from_bytes(raw)
        gone(rt, g, "x", "load")
        rt.eq(g.to_dict(), {"f": x, "t": 2}, "to_dict")
        rt.eq(g.to_bytes(), raw, "dumped again")
    elif cfg == "const":
        S = make(("a", U8()), ("x", U8(discard=True, const=x)), ("t", U8()))
        g = S.from_bytes(bytes([1, x, 2]))
        gone(rt, g, "x", "load")
        rt.eq(g.to_dict(), {"a": 1, "t": 2}, "to_dict")
        rt.eq(g.to_dict(keep_discardable=True), {"a": 1, "x": x, "t": 2}, "to_dict(True)")
        rt.eq(g.to_bytes(), bytes([1, x, 2]), "dumped again")
        rt.eq(g.x, x, "attribute")
    elif cfg == "factory":
        S = make(("a", U8()), ("x", U8(discard=True, factory=lambda: x)), ("t", U8()))
        rt.eq(S(a=1, t=2).to_bytes(), bytes([1, x, 2]), "dump")
        y = rt.int("y", 0, 255)
        rt.eq(S(a=1, x=y, t=2).to_bytes(), bytes([1, y, 2]), "assigned")
        gone(rt, S.from_bytes(bytes([1, y, 2])), "x", "load")
    else:
        S = make(("a", U8()), ("x", U8(discard=True, default=x)), ("b", fields.Bytes(size=1, discard=True, default=b"\0")))
        rt.eq(S(a=1, x=0).to_bytes(), b"\x01\0\0", "assigned zero")
        rt.eq(S(a=1).to_bytes(), bytes([1, x, 0]), "default")
        y = rt.bytes("y", 1)
        rt.eq(S(a=1, x=0, b=y).to_bytes(), b"\x01\0" + y, "assigned bytes")
        rt.eq(S.from_bytes(b"\x01\x02\x03").to_dict(), {"a": 1}, "to_dict")


@case(["kept", "assign"])
def init_kwargs(rt, cfg):
    """the discarded field is assigned after loading"""
    S = make(("a", U8()), ("x", U8(discard=True, default=1)), ("t", U8()))
    d = rt.bytes("d", 3)
    g = S.from_bytes(d)
    gone(rt, g, "x", "load")
    y = rt.int("y", 0, 255)
    g.x = y
    rt.eq(g.to_bytes(), bytes([d[0], y, d[2]]), "assigned after loading")
    rt.eq(S.from_bytes(d).to_bytes(), bytes([d[0], 1, d[2]]), "another load")
