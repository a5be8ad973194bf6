"""C33 values given to a load override loaded ones and change nothing else."""
from scn import *

BOUNDS = {"quick": "every scenario of harness/scn.py in three declaration styles with each required independent field overridden, "
                   "small layouts with every pair of fields overridden, every value, 0 or 2 bytes around"}
OUTSIDE = "overriding constants; mappings that are not dicts"
COVERS = {"override": ["free"], "small": ["both", "one"]}
U8 = fields.UInt8


@case([(n, s) for n in NAMES for s in ("flat", "dc", "split") if any(i.free for i in scenario(n).items)])
def override(rt, cfg):
    """one field of every layout"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    vals = scn.vals(rt)
    i = [x for x in scn.items if x.free][rt.choice("which", range(len([x for x in scn.items if x.free])))]
    rt.cover("free")
    v = i.gen(rt, {}, "given")
    b = i.ref(rt, v, {})
    given = {i.name: v}
    post = b"" if scn.greedy else b"zz"
    st = io.BytesIO(b"##" + vals.bytes + post)
    st.seek(2)
    p = S.from_stream(st, scn.ctx, given)
    rt.eq(st.tell(), 2 + len(vals.bytes), "position")
    check(rt, scn, i, p, v, vals, "from_stream")
    p = S.from_bytes(vals.bytes, scn.ctx, True, given)
    check(rt, scn, i, p, v, vals, "from_bytes")
    p = S.from_bytes(vals.bytes + post, scn.ctx, exact=False, init_kwargs=given)
    check(rt, scn, i, p, v, vals, "from_bytes, not exact")
    rt.check([n for n in given] == [i.name], "the mapping given has changed")
    i.same(rt, given[i.name], v, "the mapping given")
    # without any, nothing is overridden
    for kw in (None, {}):
        p = S.from_bytes(vals.bytes, scn.ctx, init_kwargs=kw)
        scn.same(rt, p, vals, "nothing given")
    rt.check(kw == {}, "the empty mapping has changed")


def check(rt, scn, i, p, v, vals, msg):
    scn.same(rt, p, vals, msg, [n for n in scn.names if n != i.name])
    if i.discard:
        rt.check(i.name not in [q for q in p], f"{msg}: discarded field is there")
    else:
        i.same(rt, p[i.name], v, f"{msg}: the given value")


@case([(k, n, how) for k in ALL_KINDS for n in ("u16b", "strz", "nest") for how in ("first", "second", "both", "sub")])
def small(rt, cfg):
    """each field kind: one or both given, None given, a subclass"""
    kind, other, how = cfg
    k, o = KINDS[kind], KINDS[other]
    S = make(("x", k.field()), ("y", o.field(null_value=b"\xEE" * (o.size or 4))), ("t", U8()))
    if how == "sub":
        S = make(("u", U8()), base=S, name="Sub")
    x, y = k.val(rt, "x"), o.val(rt, "y")
    raw_y = o.ref(rt, y)
    if len(raw_y) >= (o.size or 4):
        rt.assume(raw_y[:o.size or 4] != b"\xEE" * (o.size or 4))
    t = rt.int("t", 0, 255)
    raw = k.ref(rt, x) + raw_y + bytes([t]) + (b"\x09" if how == "sub" else b"")
    x2, y2 = k.val(rt, "x2"), (None if rt.choice("none", (False, True)) else o.val(rt, "y2"))
    given = {"first": {"x": x2}, "second": {"y": y2}, "both": {"y": y2, "x": x2}, "sub": {"t": 300, "y": y2, "x": x2}}[how]
    rt.cover("both" if len(given) > 1 else "one")
    keys = [n for n in given]
    st = io.BytesIO(raw + b"more")
    p = S.from_stream(st, init_kwargs=given)
    rt.eq(st.tell(), len(raw), "position")
    rt.check(type(p) is S, "class")
    k.same(rt, p.x, x2 if "x" in given else x, "first field")
    if "y" in given and y2 is None:
        rt.check(p.y is None, "None given")
    else:
        o.same(rt, p.y, y2 if "y" in given else y, "second field")
    rt.same(p.t, 300 if how == "sub" else t, "third field")
    if how == "sub":
        rt.same(p.u, 9, "own field")
    rt.check([n for n in given] == keys, "the mapping given has changed")
    rt.raises((errors.ExtraneousDataError,), lambda: S.from_bytes(raw + b"m", init_kwargs=given), "leftover data")
    rt.raises((errors.UnexpectedEOFError,), lambda: S.from_bytes(raw[:-1], init_kwargs=given), "cut data")


@case([(d, s) for d in ("size", "count", "present", "union", "computed", "discard", "later") for s in ("flat", "split")])
def dependents(rt, cfg):
    """fields that depend on a given one see the given value; the field itself is still read"""
    dep, style = cfg
    n = rt.choice("n", range(4))
    d = rt.bytes("d", 4)
    stated = rt.int("stated", 0, 255)
    if dep == "size":
        items = [("n", U8()), ("x", fields.Bytes(size="n")), ("t", U8())]
    elif dep == "count":
        c = U8()
        items = [("n", c), ("x", fields.Array(U8(), count=c)), ("t", U8())]
    elif dep == "present":
        items = [("n", U8()), ("x", U8(present=lambda f, c, s: f["n"] > 1)), ("t", U8())]
    elif dep == "union":
        items = [("n", U8()), ("x", fields.Union(U8(), fields.UInt16(endian="big"), load_decider=lambda s, ch, c, f: ch[f["n"] & 1],
                                                 dump_decider=lambda v, ch, c, f: ch[f["n"] & 1])), ("t", U8())]
    elif dep == "computed":
        c = U8()
        c.computes(lambda self, f: len(f["x"]))
        items = [("n", c), ("x", fields.Bytes(size=c)), ("t", U8())]
    elif dep == "discard":
        items = [("n", U8(discard=True)), ("x", fields.Bytes(size="n")), ("t", U8())]
    else:
        items = [("q", U8()), ("x", U8(present=lambda f, c, s: "n" in f and f["n"] > 1)), ("n", U8())]
    S = make(*items) if style == "flat" else make(*items[1:], base=make(items[0], name="P"))
    st = io.BytesIO(bytes([stated]) + d + b"!")
    given = {"n": n}
    p = S.from_stream(st, init_kwargs=given)
    ln = {"size": n, "count": n, "present": 1 if n > 1 else 0, "union": 1 + (n & 1), "computed": n, "discard": n,
          "later": 1 if n > 1 else 0}[dep]
    rt.eq(st.tell(), 1 + ln + 1, "position")
    x = p.x
    if dep in ("size", "computed", "discard"):
        rt.eq(x, d[:n], "bytes")
    elif dep == "count":
        rt.eq(x, [b for b in d[:n]], "elements")
    elif dep == "union":
        rt.eq(x, d[0] if ln == 1 else d[0] * 256 + d[1], "chosen field")
    elif ln:
        rt.eq(x, d[0], "optional field")
    else:
        rt.check(x is NOT_PRESENT, "absent field")
    if dep == "discard":
        rt.check("n" not in [q for q in p], "discarded field is there")
    else:
        rt.eq(p.n, n, "the given value")
    if dep == "later":
        rt.eq(p.q, stated, "the field before")
    else:
        rt.eq(p.t, (bytes([stated]) + d + b"!")[1 + ln], "the field behind")
    rt.check(given == {"n": n}, "the mapping given has changed")


@case([(w, h) for w in ("field", "method", "struct") for h in ("given", "loaded", "both")])
def validators(rt, cfg):
    """method and struct validators see the given values; the field's own validators see the loaded value and the given one"""
    where, how = cfg
    lim = rt.int("lim", 0, 255)
    seen = []

    class Refused(Exception):
        pass

    def check_value(v):
        seen.append(v)
        if v > lim:
            raise Refused()
    kw = {"validate": lambda f, v: check_value(v)} if where == "field" else {}
    extra = []
    if where == "method":
        extra = [("chk", validates("x")(lambda self, f, v: check_value(v)))]
    elif where == "struct":
        extra = [("chk", validates_struct(lambda self, f: check_value(f["x"])))]
    S = make(("a", U8()), ("x", U8(**kw)), *extra)
    d = rt.bytes("d", 2)
    x = rt.int("x", 0, 255)
    if how == "given":
        rt.assume(d[1] <= lim)
    elif how == "loaded":
        rt.assume(x <= lim)
        if where == "field":
            rt.assume(d[1] <= lim)
    bad = rt.holds(x > lim) or where == "field" and rt.holds(d[1] > lim)
    given = {"x": x}
    if bad:
        rt.raises((Refused,), lambda: S.from_bytes(d, init_kwargs=given), "a refused value was given")
    else:
        p = S.from_bytes(d, init_kwargs=given)
        rt.same(p.x, x, "given value")
        rt.same(p.a, d[0], "other field")
        rt.eq(seen[-1], x, "the validator did not see the given value")


@case([(e, k) for e in ("from_stream", "from_bytes") for k in ("unknown", "extra", "extra_only", "extra_default", "instance")])
def constructor(rt, cfg):
    """names that are no fields go to the constructor"""
    entry, kind = cfg

    class Base(binobj.Struct):
        a = U8()
        b = fields.Array(U8(), count=1)

    class Sub(Base):
        c = U8()

        def __init__(self, extra=None, **kw):
            super().__init__(**kw)
            self.extra = extra
    d = rt.bytes("d", 3)
    e = [rt.int("e", 0, 255)]

    def load(cls, **kw):
        if entry == "from_bytes":
            return cls.from_bytes(d[:2] if cls is Base else d, init_kwargs=kw)
        st = io.BytesIO(d)
        p = cls.from_stream(st, init_kwargs=kw)
        rt.eq(st.tell(), 2 if cls is Base else 3, "position")
        return p
    if kind == "unknown":
        for n in ("z", "extra", "A", "", "to_bytes"):
            rt.raises((errors.UnexpectedValueError,), lambda: load(Base, **{n: 1}), "unknown name")
        rt.raises((errors.UnexpectedValueError,), lambda: load(Sub, extra=e, z=1), "unknown name")
        return
    if kind == "extra":
        p = load(Sub, extra=e, b=e)
        rt.eq(p.b, e, "given value")
        rt.check(p.b is not e, "the given list is shared")
        rt.check(p.extra is not e, "the given list is shared with the constructor argument")
        p.b = [4]
        p.extra = [e[0]]
        rt.eq(e, [e[0]], "the given list has changed")
        rt.check(len(e) == 1, "the given list has changed")
    elif kind == "extra_only":
        p = load(Sub, extra=e)
        rt.eq(p.b, [d[1]], "loaded value")
    elif kind == "extra_default":
        p = load(Sub)
        rt.check(p.extra is None, "default")
        rt.eq(p.c, d[2], "own field")
        return
    else:
        In = make(("p", U8()), name="In")
        S = make(("n", fields.Nested(In)), ("t", U8()))
        n = In(p=e[0])
        q = S.from_bytes(d[:2], init_kwargs={"n": n})
        rt.check(type(q.n) is In and q.n is not n, "the given instance is shared")
        rt.eq(q.n.p, e[0], "given instance")
        q.n.p = 7
        rt.eq(n.p, e[0], "the given instance has changed")
        rt.eq(q.t, d[1], "other field")
        return
    rt.eq(p.extra, e, "constructor argument")
    rt.eq(p.a, d[0], "loaded field")
    rt.eq(p.c, d[2], "own field")
    rt.eq([n for n in p], [n for n in p if n in ("a", "b", "c")], "assigned fields")
