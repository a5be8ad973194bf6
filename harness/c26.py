"""C26 unions dump and load with exactly the choice their deciders return."""
from scn import *

BOUNDS = {"quick": "every field kind as the first, middle and last of three choices and as a struct choice, alone, in a struct, in an array, in a "
                   "nested struct and in another union; choices that are constant, nullable, validated, sized by a sibling, structs of every "
                   "scenario; decisions by sibling (before or after), context, data, and by peeking at the stream; every value, every tag and all "
                   "input bytes within the bounds of the kinds, truncated anywhere"}
OUTSIDE = "deciders that raise, change the data or leave the stream somewhere else; unset values of choices with a default"
ASSUMPTIONS = ["deciders are functions of their arguments"]
COVERS = {"either": ["first", "second"], "same_as_choice": ["loaded", "refused"], "short": ["loaded", "refused"],
          "by_data": ["int", "text", "bytes"], "by_peek": ["small", "large"]}

U8 = fields.UInt8
ODD = ["strz", "u16b", "nest"]


def pick(i):
    return {"load_decider": lambda st, ch, ctx, f: ch[i], "dump_decider": lambda d, ch, ctx, f: ch[i]}


@case([(k, i, w) for k in ALL_KINDS for i in (0, 1, 2) for w in ("alone", "struct", "array", "nested", "union")
       if i == 1 or w in ("alone", "struct")])
def chosen(rt, cfg):
    """the bytes, the value and the position are those of the chosen field"""
    kind, i, where = cfg
    k = KINDS[kind]
    v = k.val(rt, "v")
    choices = [KINDS["strz16"].field(), KINDS["vlq"].field()]
    choices.insert(i, k.field())
    u = fields.Union(*choices, **pick(i))
    raw = k.ref(rt, v)
    after = rt.bytes("after", 1)
    if where == "alone":
        rt.eq(u.to_bytes(v), raw, "dump")
        rt.eq(k.field().to_bytes(v), raw, "dump of the field itself")
        st = io.BytesIO(b"zz" + raw + after)
        st.seek(2)
        k.same(rt, u.from_stream(st), v, "load")
        rt.check(st.tell() == 2 + len(raw), "position")
        k.same(rt, u.from_bytes(raw), v, "from_bytes")
        rt.raises((errors.ExtraneousDataError,), lambda: u.from_bytes(raw + after), "trailing data")
        rt.check(u.size is None and not u.has_fixed_size, "a union has no fixed size")
        return
    head, tail, get, arg = b"\x01", b"\x02", lambda s: s.u, lambda x: x
    if where == "struct":
        S = make(("a", U8()), ("u", u), ("t", U8()))
    elif where == "array":
        S = make(("a", U8()), ("u", fields.Array(u, count=2)), ("t", U8()))
        arg, get, raw = lambda x: [x, x], lambda s: s.u[1], raw + raw
    elif where == "nested":
        M = make(("h", U8(default=9)), ("u", u))
        S = make(("a", U8()), ("u", fields.Nested(M)), ("t", U8()))
        arg, get, head = lambda x: {"u": x}, lambda s: s.u.u, b"\x01\x09"
    else:
        S = make(("a", U8()), ("u", fields.Union(U8(), u, **pick(1))), ("t", U8()))
    s = S(a=1, u=arg(v), t=2)
    rt.eq(s.to_bytes(), head + raw + tail, "dump")
    rt.check(len(s) == len(head) + len(raw) + 1, "length")
    st = io.BytesIO(b"z" + head + raw + tail + after)
    st.seek(1)
    back = S.from_stream(st)
    k.same(rt, get(back), v, "load")
    rt.check(back.t == 2 and st.tell() == 2 + len(head) + len(raw), "position")
    rt.eq(back.to_bytes(), head + raw + tail, "dump of the loaded struct")
    rt.check(S.get_size() is None and S.t.offset is None, "no fixed size")
    st.seek(1)
    back = S.partial_load(st, "u")
    k.same(rt, get(back), v, "partial_load")
    rt.check(st.tell() == 1 + len(head) + len(raw), "position after partial_load")
    st.seek(1)
    rt.check(S.get_field(st, "t") == 2, "get_field after the union")
    out = io.BytesIO()
    s.partial_dump(out, "u")
    rt.eq(out.getvalue(), head + raw, "partial_dump")


@case([(a, b) for a in PAIR_KINDS for b in PAIR_KINDS if a != b])
def either(rt, cfg):
    """the other choice makes no difference"""
    ks = [KINDS[n] for n in cfg]
    t = rt.choice("t", (0, 1))
    rt.cover(("first", "second")[t])
    k = ks[t]
    v = k.val(rt, "v")
    S = make(("k", U8()), ("u", fields.Union(ks[0].field(), ks[1].field(), load_decider=lambda st, ch, c, f: ch[f["k"]],
                                             dump_decider=lambda d, ch, c, f: ch[f["k"]])), ("t", U8(default=3)))
    raw = bytes([t]) + k.ref(rt, v) + b"\x03"
    rt.eq(S(k=t, u=v).to_bytes(), raw, "dump")
    k.same(rt, S.from_bytes(raw).u, v, "load")


OPTS = {
    "const": lambda v: ("u8", {"const": 7}, []),
    "conststr": lambda v: ("strz", {"const": "ab"}, []),
    "nullint": lambda v: ("u8", {"null_value": 200}, []),
    "nullbytes": lambda v: ("u16b", {"null_value": b"\xff\xfe"}, []),
    "nulldef": lambda v: ("u16l", {"null_value": DEFAULT}, []),
    "nullstrz": lambda v: ("strz", {"null_value": "ab"}, []),
    "valid": lambda v: ("u8", {"validate": v}, []),
    "valids": lambda v: ("strz", {"validate": [v, v]}, []),
    "plain8": lambda v: ("u8", {}, []),
    "plain24": lambda v: ("i24b", {}, []),
    "bytes": lambda v: ("bytes3", {}, []),
    "strpad": lambda v: ("strpad", {}, []),
    "strz": lambda v: ("strz", {}, []),
    "vlq": lambda v: ("vlq", {}, []),
    "arr": lambda v: ("arr3", {}, []),
    "nestvar": lambda v: ("nestvar", {}, []),
}


def not_nine(field, value):
    if value == 9 or value == "ab":
        raise errors.ValidationError(field=None, value=value)


def attempt(rt, fn):
    """What the call does: ("value", v) or ("error", exception class)."""
    try:
        return "value", fn()
    except errors.Error as e:
        return "error", type(e)


@case([(o, n) for o in OPTS for n in (0, 1, 2, 4)])
def same_as_choice(rt, cfg):
    """loading arbitrary bytes does what the chosen field does, errors included"""
    opt, n = cfg
    kind, kw, _ = OPTS[opt](not_nine)
    k = KINDS[kind]
    data = rt.bytes("data", n)
    st1, st2 = io.BytesIO(data), io.BytesIO(data)
    U = make(("u", fields.Union(U8(), k.field(**kw), **pick(1))))
    F = make(("u", k.field(**kw)))
    a = attempt(rt, lambda: U.from_stream(st1).u)
    b = attempt(rt, lambda: F.from_stream(st2).u)
    rt.check(a[0] == b[0], "both load or both fail")
    if a[0] == "error":
        rt.cover("refused")
        rt.check(a[1] is b[1], "the same error")
        return
    rt.cover("loaded")
    rt.check(st1.tell() == st2.tell(), "the same position")
    if b[1] is None:
        rt.check(a[1] is None, "the same value")
        rt.eq(U(u=None).to_bytes(), F(u=None).to_bytes(), "dump of None")
        rt.eq(U.from_bytes(data[: st1.tell()]).to_bytes(), data[: st1.tell()], "dump of the loaded struct")
    else:
        k.same(rt, a[1], dict(b[1].to_dict()) if kind == "nestvar" else b[1], "the same value")
        rt.eq(U(u=a[1]).to_bytes(), F(u=b[1]).to_bytes() if "const" not in kw else F().to_bytes(), "dumps the same")


BADS = {"float": 1.5, "none": None, "list": [1], "map": {"p": 1}, "str": "xyz", "bytes": b"xyz", "big": 2 ** 70, "neg": -(2 ** 70)}


@case([(o, b) for o in OPTS for b in BADS if "const" not in o])
def same_refusal(rt, cfg):
    """dumping a value that does not fit fails as with the chosen field, and writes nothing of it"""
    opt, bad = cfg
    kind, kw, _ = OPTS[opt](not_nine)
    k = KINDS[kind]
    bad = BADS[bad]
    a = rt.int("a", 0, 255)

    def run(cls):
        st = io.BytesIO()
        try:
            cls(a=a, u=bad).to_stream(st)
        except Exception as e:
            return type(e), st.getvalue()
        return None, st.getvalue()
    U = make(("a", U8()), ("u", fields.Union(U8(), k.field(**kw), **pick(1))), ("t", U8(default=1)))
    F = make(("a", U8()), ("u", k.field(**kw)), ("t", U8(default=1)))
    x, y = run(U), run(F)
    rt.check(x[0] is y[0], "the same error")
    if "validate" not in kw:          # a struct runs the validators of its own fields before it writes anything
        rt.eq(x[1], y[1], "the same bytes")


@case([(k, n) for k in ALL_KINDS for n in (0, 1, 2)])
def short(rt, cfg):
    """truncated input is refused"""
    kind, less = cfg
    k = KINDS[kind]
    v = k.val(rt, "v")
    raw = k.ref(rt, v)
    cut = rt.choice("cut", range(len(raw) + 1))
    S = make(("a", U8()), ("u", fields.Union(U8(), k.field(), **pick(1))))
    st = io.BytesIO(b"\x01" + raw[:cut])
    if cut == len(raw):
        rt.cover("loaded")
        k.same(rt, S.from_stream(st).u, v, "load")
        return
    rt.cover("refused")
    rt.raises((errors.UnexpectedEOFError,), lambda: S.from_stream(st), "truncated")


@case(["before", "after", "computed", "const", "discard"])
def by_sibling(rt, cfg):
    """the deciders see the other fields"""
    t = rt.choice("t", (0, 1, 2))
    ks = [KINDS[n] for n in ODD]
    v = ks[t].val(rt, "v")
    raw = ks[t].ref(rt, v)

    def union(load, dump):
        return fields.Union(*[k.field() for k in ks], load_decider=load, dump_decider=dump)
    if cfg in ("before", "discard"):
        S = make(("h", U8()), ("k", U8(discard=cfg == "discard")), ("u", union(lambda st, ch, c, f: ch[f["k"]], lambda d, ch, c, f: ch[f["k"]])),
                 ("z", U8()))
        full, args = b"\x05" + bytes([t]) + raw + b"\x06", {"h": 5, "k": t, "z": 6}
    elif cfg == "after":
        S = make(("h", U8()), ("u", union(lambda st, ch, c, f: ch[f["h"]], lambda d, ch, c, f: ch[f["z"]])), ("z", U8()))
        full, args = bytes([t]) + raw + bytes([t]), {"h": t, "z": t}
    elif cfg == "computed":
        k = U8()
        S = make(("h", U8()), ("k", k), ("u", union(lambda st, ch, c, f: ch[f["k"]], lambda d, ch, c, f: ch[f["k"]])), ("z", U8()),
                 ("fn", k.computes(lambda self, f: f["h"] - 3)))
        full, args = bytes([t + 3, t]) + raw + b"\x06", {"h": t + 3, "z": 6}
    else:
        S = make(("h", U8(const=t)), ("k", U8(default=t)), ("u", union(lambda st, ch, c, f: ch[f["h"]], lambda d, ch, c, f: ch[f["k"]])), ("z", U8()))
        full, args = bytes([t, t]) + raw + b"\x06", {"z": 6}
    s = S(u=v, **args)
    rt.eq(s.to_bytes(), full, "dump")
    rt.check(len(s) == len(full), "length")
    back = S.from_bytes(full)
    ks[t].same(rt, back.u, v, "load")
    st = io.BytesIO(full)
    ks[t].same(rt, S.get_field(st, "u"), v, "get_field")


@case(["struct", "alone", "nested", "array"])
def by_context(rt, cfg):
    """the deciders see the context"""
    t = rt.choice("t", (0, 1, 2))
    ks = [KINDS[n] for n in ODD]
    v = ks[t].val(rt, "v")
    raw = ks[t].ref(rt, v)
    u = fields.Union(*[k.field() for k in ks], load_decider=lambda st, ch, c, f: ch[c["t"]], dump_decider=lambda d, ch, c, f: ch[c["t"]])
    ctx = {"t": t}
    if cfg == "alone":
        rt.eq(u.to_bytes(v, ctx), raw, "dump")
        ks[t].same(rt, u.from_bytes(raw, ctx), v, "load")
        return
    get, arg = lambda s: s.u, lambda x: x
    if cfg == "struct":
        S = make(("a", U8()), ("u", u))
    elif cfg == "nested":
        S = make(("a", U8()), ("u", make(("u", u))))
        S = make(("a", U8()), ("u", fields.Nested(make(("u", u)))))
        arg, get = lambda x: {"u": x}, lambda s: s.u.u
    else:
        S = make(("a", U8()), ("u", fields.Array(u, count=1)))
        arg, get = lambda x: [x], lambda s: s.u[0]
    rt.eq(S(a=4, u=arg(v)).to_bytes(ctx), b"\x04" + raw, "dump")
    ks[t].same(rt, get(S.from_bytes(b"\x04" + raw, ctx)), v, "load")


@case([0, 1])
def by_data(rt, cfg):
    """the dump decider sees the data, the load decider a tag"""
    which = rt.choice("which", (0, 1, 2))
    v = rt.int("v", 0, 65535) if which == 0 else rt.text("v", 2, 1, 127) if which == 1 else rt.bytes("v", 3)
    rt.cover(("int", "text", "bytes")[which])
    raw = [lambda: bytes([v >> 8, v & 255]), lambda: bytes([ord(c) for c in v]) + b"\0", lambda: v][which]()

    def dump(data, ch, c, f):
        return ch[0] if isinstance(data, int) else ch[1] if isinstance(data, str) else ch[2]
    k = U8()
    S = make(("k", k), ("u", fields.Union(KINDS["u16b"].field(), fields.StringZ(), fields.Bytes(size=3), dump_decider=dump,
                                          load_decider=lambda st, ch, c, f: ch[f["k"]])),
             ("fn", k.computes(lambda self, f: 0 if isinstance(f["u"], int) else 1 if isinstance(f["u"], str) else 2)))
    rt.eq(S(u=v).to_bytes(), bytes([which]) + raw, "dump")
    back = S.from_bytes(bytes([which]) + raw)
    rt.same(back.u, v, "load")
    rt.eq(back.to_bytes(), bytes([which]) + raw, "dump of the loaded struct")


@case([0, 1])
def by_peek(rt, cfg):
    """the load decider may look at the stream, which is at the union's first byte"""
    data = rt.bytes("data", 4)
    seen = []

    def load(st, ch, c, f):
        seen.append(st.tell())
        b = helpers.peek_bytes(st, 1)[0]
        return ch[0] if rt.holds(b < 128) else ch[1]
    S = make(("h", fields.Bytes(size=cfg)), ("u", fields.Union(U8(), fields.UInt16(endian="big"), load_decider=load, dump_decider=lambda d, ch, c, f: ch[1])),
             ("t", U8()))
    st = io.BytesIO(b"z" + data)
    st.seek(1)
    s = S.from_stream(st)
    rt.check(seen == [1 + cfg], "position of the stream")
    if rt.holds(data[cfg] < 128):
        rt.cover("small")
        rt.check(s.u == data[cfg] and s.t == data[cfg + 1], "value")
    else:
        rt.cover("large")
        rt.check(s.u == data[cfg] * 256 + data[cfg + 1] and s.t == data[cfg + 2], "value")


@case(["alone", "struct", "array"])
def arguments(rt, cfg):
    """what the deciders are given"""
    v, a, b = rt.int("v", 0, 255), rt.int("a", 0, 255), rt.int("b", 0, 255)
    ctx = object()
    chs = [U8(), KINDS["strz"].field()]
    calls = []

    def load(st, ch, c, f):
        calls.append(("load", st, list(ch), c, {n: f[n] for n in f}))
        return ch[0]

    def dump(d, ch, c, f):
        calls.append(("dump", d, list(ch), c, {n: f[n] for n in f}))
        return ch[0]
    u = fields.Union(*chs, load_decider=load, dump_decider=dump)
    if cfg == "alone":
        F, others_l, others_d = None, {}, {}
        rt.eq(u.to_bytes(v, ctx), bytes([v]), "dump")
        st = io.BytesIO(bytes([v]))
        rt.check(u.from_stream(st, ctx) == v, "load")
    else:
        x, n = (u, lambda q: q) if cfg == "struct" else (fields.Array(u, count=1), lambda q: [q])
        S = make(("a", U8()), ("c", U8(const=3)), ("u", x), ("b", U8()))
        raw = bytes([a, 3, v, b])
        rt.eq(S(a=a, u=n(v), b=b).to_bytes(ctx), raw, "dump")
        st = io.BytesIO(raw)
        s = S.from_stream(st, ctx)
        rt.eq(s.u, n(v), "load")
        others_l, others_d = {"a": a, "c": 3}, {"a": a, "c": 3, "u": n(v), "b": b}
    rt.check(len(calls) == 2, "each decider is called once")
    d, ld = calls
    rt.check(d[0] == "dump" and d[1] == v, "the data")
    rt.check(ld[0] == "load" and ld[1] is st, "the stream")
    for z, others in ((d, others_d), (ld, others_l)):
        rt.check(len(z[2]) == 2 and z[2][0] is chs[0] and z[2][1] is chs[1], "the choices in order")
        rt.check(z[3] is ctx, "the context")
        rt.eq(z[4], others, "the other fields")


WRONG = {"none": None, "int": 0, "name": "u", "type": int, "fieldclass": fields.UInt8, "instance": None, "tuple": (), "lambda": len, "dict": dict,
         "object": object}


@case([(w, c, d) for w in WRONG for c in ("field", "struct") for d in ("alone", "struct", "array")])
def wrong_result(rt, cfg):
    """a decider result that is neither a field nor a struct class is a type error"""
    w, ch, where = cfg
    v = rt.int("v", 0, 255)
    inner = inner_class()
    res = WRONG[w] if w != "instance" else inner(p=1, q=2)
    u = fields.Union(U8() if ch == "field" else inner, load_decider=lambda st, c, x, f: res, dump_decider=lambda d, c, x, f: res)
    data = v if ch == "field" else {"p": v, "q": v}
    raw = rt.bytes("raw", 3)
    if where == "alone":
        rt.raises((TypeError,), lambda: u.to_bytes(data), "dump")
        rt.raises((TypeError,), lambda: u.from_bytes(raw), "load")
        return
    x, n = (u, lambda q: q) if where == "struct" else (fields.Array(u, count=1), lambda q: [q])
    S = make(("a", U8()), ("u", x))
    rt.raises((TypeError,), lambda: S(a=1, u=n(data)).to_bytes(), "dump")
    st = io.BytesIO(b"zz")
    st.seek(2)
    rt.raises((TypeError,), lambda: S(a=1, u=n(data)).to_stream(st), "to_stream")
    rt.eq(st.getvalue(), b"zz\x01", "nothing of the union is written")
    rt.raises((TypeError,), lambda: S.from_bytes(b"\x01" + raw), "load")


@case([0, 1, 2])
def refused_choices(rt, cfg):
    """field classes are no choices"""
    chs = [U8(), KINDS["strz"].field()]
    chs.insert(cfg, (fields.UInt8, fields.StringZ, fields.Array)[cfg])
    rt.raises((errors.ConfigurationError,), lambda: fields.Union(*chs, **pick(0)), "field class")


@case([0, 1])
def free_result(rt, cfg):
    """whatever field or struct class the decider returns is used, a choice or not"""
    v = rt.int("v", 0, 65535)
    f, g = KINDS["u16l"].field(), inner_class()
    if cfg == 0:
        u = fields.Union(U8(), load_decider=lambda st, c, x, q: f, dump_decider=lambda d, c, x, q: f)
        rt.eq(u.to_bytes(v), bytes([v & 255, v >> 8]), "dump")
        rt.check(u.from_bytes(bytes([v & 255, v >> 8])) == v, "load")
    else:
        u = fields.Union(U8(), load_decider=lambda st, c, x, q: g, dump_decider=lambda d, c, x, q: f)
        rt.eq(u.to_bytes(v), bytes([v & 255, v >> 8]), "dump")
        s = u.from_bytes(bytes([7, v & 255, v >> 8]))
        rt.check(type(s) is g and s.p == 7, "load")


@case([n for n in NAMES if n not in ("empty",)])
def structs(rt, cfg):
    """struct choices: mappings and instances are dumped, instances are loaded"""
    sc = scenario(cfg)
    inner = sc.cls()
    vals = sc.vals(rt)
    S = make(("k", U8()), ("u", fields.Union(U8(), inner, load_decider=lambda st, ch, c, f: ch[f["k"]], dump_decider=lambda d, ch, c, f: ch[f["k"]])),
             *([] if sc.greedy else [("t", U8())]))
    tail, targ = (b"", {}) if sc.greedy else (b"\x06", {"t": 6})
    raw = b"\x01" + vals.bytes + tail
    how = rt.choice("how", ("mapping", "instance"))
    data = dict(vals.assign) if how == "mapping" else inner(**vals.assign)
    s = S(k=1, u=data, **targ)
    rt.eq(s.to_bytes(sc.ctx), raw, "dump")
    st = io.BytesIO(b"z" + raw)
    st.seek(1)
    back = S.from_stream(st, sc.ctx)
    rt.check(type(back.u) is inner, "type")
    sc.same(rt, back.u, vals, "load")
    rt.check(st.tell() == 1 + len(raw), "position")
    if sc.plain:
        rt.eq(back.to_bytes(sc.ctx), raw, "dump of the loaded struct")
    if sc.ctx is None:
        rt.check(len(s) == len(raw), "length")
    if not sc.greedy:
        rt.check(S(k=0, u=5, t=6).to_bytes(sc.ctx) == b"\0\x05\x06", "the other choice")


@case([(w, h) for w in ("field", "method", "struct", "missing", "unknown", "notmapping", "other") for h in ("mapping", "instance")
       if (w, h) not in (("unknown", "instance"), ("notmapping", "instance"))])
def struct_refusals(rt, cfg):
    """the chosen struct refuses what it refuses by itself"""
    what, how = cfg
    bad, v = rt.int("bad", 0, 255), rt.int("v", 0, 255)

    def no(value):
        if rt.holds(value == bad):
            raise errors.ValidationError(field=None, value=value)
    extra, kw = [], {}
    if what in ("field", "other"):
        kw = {"validate": lambda f, q: no(q)}
    elif what == "method":
        extra = [("chk", validates("x")(lambda self, f, value: no(value)))]
    elif what == "struct":
        extra = [("chk", validates_struct(lambda self, values: no(values["x"])))]
    A = make(("x", U8(**kw)), ("y", U8(default=3)), *extra)
    B = make(("x", U8()), ("y", U8()))
    i = 1 if what == "other" else 0
    S = make(("a", U8()), ("u", fields.Union(A, B, **pick(i))), ("t", U8()))
    d = {"missing": {"y": v}, "unknown": {"x": v, "q": 1}, "notmapping": v, "other": {"x": v, "y": 3}}.get(what, {"x": v})
    if how == "instance":
        d = (B if what == "other" else A)(**d)
    raw = b"\x05" + bytes([v, 3]) + b"\x06"
    ok = what == "other" or (what in ("field", "method", "struct") and rt.holds(v != bad))
    if ok:
        rt.eq(S(a=5, u=d, t=6).to_bytes(), raw, "dump")
        rt.check(S.from_bytes(raw).u.x == v, "load")
        return
    want = {"missing": errors.MissingRequiredValueError, "unknown": errors.UnexpectedValueError, "notmapping": TypeError}.get(what, errors.ValidationError)
    rt.raises((want,), lambda: S(a=5, u=d, t=6).to_bytes(), "dump")
    st = io.BytesIO()
    rt.raises((want,), lambda: S(a=5, u=d, t=6).to_stream(st), "to_stream")
    rt.check(len(st.getvalue()) <= 1, "nothing of the union is written")
    if what in ("field", "method", "struct"):
        rt.raises((errors.ValidationError,), lambda: S.from_bytes(raw), "load")


@case([(o, k) for o in ("validate", "default", "const", "null", "nullbytes", "nullfree", "present", "npv", "factory", "discard", "sized")
       for k in ("field", "struct")])
def own_options(rt, cfg):
    """options of the union itself work with the chosen field"""
    opt, how = cfg
    inner = make(("x", U8()))
    v, w = rt.int("v", 0, 255), rt.int("w", 0, 255)
    mk = (lambda z: z) if how == "field" else (lambda z: {"x": z})
    val = (lambda z: z) if how == "field" else (lambda z: z.x)
    kw, extra = {}, []

    def no(value):
        q = value if how == "field" else value["x"]
        if rt.holds(q == w):
            raise errors.ValidationError(field=None, value=value)
    if opt == "validate":
        kw = {"validate": lambda f, q: no(q)}
    elif opt == "default":
        kw = {"default": mk(9)}
    elif opt == "factory":
        kw = {"factory": lambda: mk(9)}
    elif opt == "const":
        kw = {"const": mk(9)}
    elif opt == "null":
        kw = {"null_value": mk(9)}
    elif opt == "nullbytes":
        kw = {"null_value": b"\x09"}
    elif opt in ("present", "npv"):
        kw = {"present": lambda f, c, st: f["a"] != 0}
        if opt == "npv":
            kw["not_present_value"] = mk(1)
    elif opt == "discard":
        kw = {"discard": True}
    fc = U8(null_value=9) if opt == "nullfree" else U8()
    S = make(("a", U8()), ("u", fields.Union(fc, inner, **pick(0 if how == "field" else 1), **kw)), ("t", U8(default=6)))
    a = rt.int("a", 0, 255)
    raw = bytes([a, v, 6])
    if opt == "validate":
        if rt.holds(v == w):
            rt.raises((errors.ValidationError,), lambda: S(a=a, u=mk(v)).to_bytes(), "dump")
            rt.raises((errors.ValidationError,), lambda: S.from_bytes(raw), "load")
        else:
            rt.eq(S(a=a, u=mk(v)).to_bytes(), raw, "dump")
            rt.check(val(S.from_bytes(raw).u) == v, "load")
        return
    if opt in ("default", "factory", "const"):
        rt.eq(S(a=a).to_bytes(), bytes([a, 9, 6]), "unset")
        rt.check(len(S(a=a)) == 3, "length")
        if opt == "const":
            if rt.holds(v == 9):
                rt.check(val(S.from_bytes(raw).u) == 9, "load")
            else:
                rt.raises((errors.ValidationError,), lambda: S.from_bytes(raw), "load")
            return
        rt.eq(S(a=a, u=mk(v)).to_bytes(), raw, "set")
        rt.check(val(S.from_bytes(raw).u) == v, "load")
        return
    if opt in ("null", "nullbytes", "nullfree"):
        if opt == "nullfree" and how == "struct":
            rt.raises((errors.UnserializableValueError,), lambda: S(a=a, u=None).to_bytes(), "None")
            return
        rt.eq(S(a=a, u=None).to_bytes(), bytes([a, 9, 6]), "None")
        rt.check(len(S(a=a, u=None)) == 3, "length")
        got = S.from_bytes(raw)
        if rt.holds(v == 9):
            rt.check(got.u is None, "load of null")
            rt.eq(got.to_bytes(), raw, "dump again")
        else:
            rt.check(val(got.u) == v, "load")
            rt.eq(S(a=a, u=mk(v)).to_bytes(), raw, "dump")
        return
    if opt in ("present", "npv"):
        if rt.holds(a == 0):
            rt.eq(S(a=a).to_bytes(), b"\0\x06", "absent")
            rt.eq(S(a=a, u=mk(v)).to_bytes(), b"\0\x06", "absent, assigned")
            got = S.from_bytes(b"\0\x06").u
            rt.check(got is NOT_PRESENT if opt == "present" else got == mk(1), "load of absent")
        else:
            rt.eq(S(a=a, u=mk(v)).to_bytes(), raw, "present")
            rt.check(val(S.from_bytes(raw).u) == v, "load")
        return
    rt.eq(S(a=a, u=mk(v)).to_bytes(), raw, "dump")
    got = S.from_bytes(raw)
    if opt == "discard":
        rt.check("u" not in [n for n in got], "discarded")
    else:
        rt.check(val(got.u) == v, "load")


@case([(k, how) for k in ("bytes", "text", "array", "array_name") for how in ("first", "second")])
def sized_by_sibling(rt, cfg):
    """choices whose size or count is a field of the struct"""
    kind, pos = cfg
    n = U8()
    ln = rt.choice("n", (0, 1, 3))
    if kind == "bytes":
        f, v = fields.Bytes(size=n), rt.bytes("v", ln)
        raw = v
    elif kind == "text":
        f, v = fields.String(size="n"), rt.text("v", ln, 0, 127)
        raw = bytes([ord(c) for c in v])
    else:
        f, v = fields.Array(KINDS["u16b"].field(), count=n if kind == "array" else "n"), [rt.int(f"v{i}", 0, 65535) for i in range(ln)]
        raw = cat([bytes([q >> 8, q & 255]) for q in v])
    chs = [f, KINDS["strz"].field()] if pos == "first" else [KINDS["strz"].field(), f]
    i = 0 if pos == "first" else 1
    S = make(("n", n), ("u", fields.Union(*chs, **pick(i))), ("t", U8(default=6)))
    full = bytes([ln]) + raw + b"\x06"
    s = S(n=ln, u=v)
    rt.eq(s.to_bytes(), full, "dump")
    rt.check(len(s) == len(full), "length")
    back = S.from_bytes(full)
    rt.same(back.u, v, "load")
    if ln:
        rt.raises((errors.Error,), lambda: S(n=ln - 1, u=v).to_bytes(), "too long")
        rt.raises((errors.UnexpectedEOFError,), lambda: S.from_bytes(full[:ln]), "too short")


@case([(w, e) for w in ("field", "context", "stream") for e in ("from_bytes", "from_stream", "partial_load", "nested", "array")])
def conditional_choice(rt, cfg):
    """the condition of a choice sees the loaded fields, the context and the stream"""
    what, entry = cfg
    a = rt.int("a", 0, 255)
    seen = []

    def present(f, ctx, st):
        seen.append(1)
        if what == "field":
            return f["a"] > 5
        if what == "context":
            return ctx is None or ctx.on
        return helpers.peek_bytes(st, 1) > b"\x05"
    S = make(("a", U8()), ("u", fields.Union(KINDS["strz"].field(), fields.UInt16(endian="big", present=present, not_present_value=7),
                                             **pick(1))))
    x = rt.int("x", 0, 65535)
    on = rt.bool("on")
    ctx = None
    if what == "context":
        ctx = CtxType()
        ctx.on = rt.holds(on)
        here = ctx.on
    elif what == "field":
        here = rt.holds(a > 5)
    else:
        here = rt.holds((x >> 8) > 5)
    raw = bytes([a, x >> 8, x & 255])
    if entry == "from_bytes":
        if not here:
            raw = raw[:1] if what != "stream" else raw
            if what == "stream":
                return
        got = S.from_bytes(raw, ctx)
    elif entry == "from_stream":
        st = io.BytesIO(raw)
        got = S.from_stream(st, ctx)
        rt.check(st.tell() == (3 if here else 1), "position")
    elif entry == "partial_load":
        got = S.partial_load(io.BytesIO(raw), "u", ctx)
    elif entry == "nested":
        got = make(("q", U8()), ("n", fields.Nested(S))).from_stream(io.BytesIO(b"\0" + raw), ctx).n
    else:
        got = make(("n", fields.Array(fields.Nested(S), count=1))).from_stream(io.BytesIO(raw), ctx).n[0]
    rt.check(len(seen) > 0, "the condition was not asked")
    rt.eq(got.u, x if here else 7, "value")


@case([(w, p) for w in ("u8", "u16b", "bytes3", "strz") for p in ("before", "after")])
def null_by_sibling(rt, cfg):
    """a null value given as a value is written by the choice that the deciders take for the other fields"""
    other, pos = cfg
    k = KINDS[other]
    v = k.val(rt, "v")

    def ddec(d, ch, c, af):
        return ch[0] if af["n"] < 100 else ch[1]

    def ldec(st, ch, c, lf):
        return ch[0] if lf["n"] < 100 else ch[1]
    u = fields.Union(k.field(), k.field(), load_decider=ldec, dump_decider=ddec, null_value=v)
    items = [("n", fields.UInt8()), ("u", u), ("t", fields.UInt8())]
    n, t = rt.int("n", 0, 255), rt.int("t", 0, 255)
    if pos == "after":
        S = make(("u", u), ("n", fields.UInt8()), ("t", fields.UInt8()))
        want = k.ref(rt, v) + bytes([n, t])
    else:
        S = make(*items)
        want = bytes([n]) + k.ref(rt, v) + bytes([t])
    s = S(n=n, u=None, t=t)
    rt.eq(s.to_bytes(), want, "dump of None")
    st = io.BytesIO()
    s.partial_dump(st, "t")
    rt.eq(st.getvalue(), want, "partial_dump of None")
    rt.eq(len(s), len(want), "len()")
    if pos == "before":
        got = S.from_bytes(want)
        rt.check(got.u is None, "load of the null value")
        rt.eq(got.t, t, "field behind")
        rt.check(S.get_field(io.BytesIO(want), "u") is None, "get_field")
