"""C23 every validator runs on every load and dump, and a failure stops both."""
from scn import *

BOUNDS = {"quick": "field validators (one or several), validator methods (for one or several fields) and struct validators on every "
                   "field kind, rejecting arbitrary values (the rejected value itself is symbolic), in three declaration styles, "
                   "inherited over up to three levels, in nested structs, arrays and unions, for assigned, default, computed, "
                   "constant and None values; every load and dump call and assignment"}
OUTSIDE = "partial_load and partial_dump run only the field's own validators"
ASSUMPTIONS = ["'nothing is written' is claimed for the validators of the dumped struct and its own fields, not for those inside nested "
               "structs and array elements, which run when that part is dumped"]
COVERS = {"reject": ["accepted", "rejected"], "runs": ["load", "dump"], "among": ["accepted", "rejected"], "several": ["accepted", "rejected"]}

U8 = fields.UInt8


class Refused(Exception):
    """Not one of the library's own exceptions."""


VAL = (errors.ValidationError, Refused)


def differs(k, rt, value, bad):
    """The value is not the rejected one."""
    if isinstance(value, binobj.Struct):
        return [n for n in bad if not rt.holds(value[n] == bad[n])]
    return not rt.holds(value == bad)


def declare(items, extra, style):
    if style == "flat":
        return make(*items, *extra)
    if style == "dc":
        return binobj.dataclass(type("D", (binobj.Struct,), {"__annotations__": dict(items), **dict(extra)}))
    if style == "child":        # the child declares the validators of inherited fields
        return make(("c", U8(default=9)), *extra, base=make(*items, name="P"))
    if style == "inherited":    # the parent declares fields and validators
        return make(("c", U8(default=9)), base=make(*items, *extra, name="P"))
    if style == "grand":
        P = make(*items, *extra, name="P")
        Q = make(("b", U8(default=8)), base=P, name="Q")
        return make(("c", U8(default=9)), base=Q)
    P = binobj.dataclass(type("PD", (binobj.Struct,), {"__annotations__": dict(items), **dict(extra)}))
    if style == "dc_child":
        return binobj.dataclass(type("D", (P,), {"__annotations__": {"c": U8(default=9)}}))
    return make(("c", U8(default=9)), base=P)


TAIL = {"flat": b"", "dc": b"", "child": b"\x09", "inherited": b"\x09", "grand": b"\x08\x09", "dc_child": b"\x09", "dc_flat": b"\x09"}
STYLES = list(TAIL)


@case([(k, w, s) for k in ALL_KINDS for w in ("field", "method", "struct")
       for s in (STYLES if k in ("u16b", "strz", "nest") else ("flat", "inherited"))])
def reject(rt, cfg):
    """a rejected value is neither loaded nor dumped; any other is"""
    kind, where, style = cfg
    k = KINDS[kind]
    bad = k.val(rt, "bad")
    log = []

    def refuse(value):
        log.append(value)
        if not differs(k, rt, value, bad):
            raise errors.ValidationError(field=None, value=0) if kind < "n" else Refused()

    def fv(field, value):
        refuse(value)

    def mv(self, field, value):
        refuse(value)

    def sv(self, values):
        refuse(values["x"])
    kw = {"validate": fv} if where == "field" else {}
    extra = [] if where == "field" else [("chk", validates("x")(mv) if where == "method" else validates_struct(sv))]
    S = declare([("a", U8()), ("x", k.field(**kw)), ("t", U8())], extra, style)
    if rt.choice("bad", (True, False)):
        rt.cover("rejected")
        v, ok = bad, False
    else:
        v, ok = k.val(rt, "v"), True
        if isinstance(v, dict):
            rt.assume(v["w" if kind == "nestvar" else "p"] != bad["w" if kind == "nestvar" else "p"])
        elif kind == "uni":
            rt.assume(v != bad)
        elif isinstance(v, list):
            rt.assume(v[0] != bad[0])
        elif len(k.ref(rt, v)) == len(k.ref(rt, bad)):
            rt.assume(v != bad)
        rt.cover("accepted")
    raw = b"\x01" + k.ref(rt, v) + b"\x02" + TAIL[style]
    s = S(a=1, x=v, t=2)
    N = make(("n", fields.Nested(S)), ("e", U8()))
    AN = make(("n", fields.Array(fields.Nested(S), count=2)))
    UN = make(("n", fields.Union(S, load_decider=lambda st, ch, c, f: ch[0], dump_decider=lambda d, ch, c, f: ch[0])))
    if ok:
        log.clear()
        k.same(rt, S.from_bytes(raw).x, v, "load")
        rt.check(len(log) > 0, "no validator on load")
        for got in log:
            k.same(rt, got, v, "value given on load")
        log.clear()
        rt.eq(s.to_bytes(), raw, "dump")
        rt.check(len(log) > 0, "no validator on dump")
        for got in log:
            k.same(rt, got, v, "value given on dump")
        rt.eq(bytes(s), raw, "bytes()")
        s.x = v
        s["x"] = v
        rt.eq(s.to_bytes(), raw, "dump after assigning")
        rt.eq(N.from_bytes(raw + b"\x07").e, 7, "nested load")
        rt.eq(N(n=s, e=7).to_bytes(), raw + b"\x07", "nested dump")
        return
    pre = rt.bytes("pre", 2)
    for what, f in (("from_bytes", lambda: S.from_bytes(raw)), ("from_stream", lambda: S.from_stream(io.BytesIO(raw))),
                    ("nested load", lambda: N.from_bytes(raw + b"\x07")), ("array load", lambda: AN.from_bytes(raw + raw)),
                    ("union load", lambda: UN.from_bytes(raw)),
                    ("to_bytes", lambda: s.to_bytes()), ("bytes()", lambda: bytes(s)),
                    ("nested dump", lambda: N(n=s, e=7).to_bytes()),
                    ("nested mapping dump", lambda: N(n={"a": 1, "x": v, "t": 2}, e=7).to_bytes()),
                    ("array dump", lambda: AN(n=[s, s]).to_bytes()),
                    ("union dump", lambda: UN(n={"a": 1, "x": v, "t": 2}).to_bytes())):
        rt.raises(VAL, f, what)
    st = io.BytesIO()
    st.write(pre)
    rt.raises(VAL, lambda: s.to_stream(st), "to_stream")
    rt.eq(st.getvalue(), pre, "something was written")
    rt.check(st.tell() == 2, "position")
    if where == "field":
        rt.raises(VAL, lambda: S.partial_load(io.BytesIO(raw), "x"), "partial_load")
        rt.raises(VAL, lambda: S.get_field(io.BytesIO(raw), "x"), "get_field")
        rt.raises(VAL, lambda: s.partial_dump(io.BytesIO(), "x"), "partial_dump")
        rt.raises(VAL, lambda: S.x.from_bytes(k.ref(rt, v)), "field alone, load")
        rt.raises(VAL, lambda: S.x.to_bytes(v), "field alone, dump")
        st = io.BytesIO()
        rt.raises(VAL, lambda: S.x.to_stream(st, v), "field alone, to_stream")
        rt.eq(st.getvalue(), b"", "something was written by the field alone")
        u = S(a=1, t=2)

        def attr():
            u.x = v

        def item():
            u["x"] = v
        rt.raises(VAL, attr, "assignment")
        rt.raises(VAL, item, "item assignment")
        rt.check("x" not in [n for n in u], "a rejected value was stored")


class Log:
    def __init__(self):
        self.calls = []

    def fv(self, tag):
        def f(field, value):
            self.calls.append((tag, field.name, value))
        return f

    def mv(self, tag, *names):
        def f(this, field, value):
            self.calls.append((tag, field.name, value, type(this).__name__))
        return validates(*names)(f)

    def sv(self, tag):
        def f(this, values):
            self.calls.append((tag, values["a"], values["b"], type(this).__name__))
        return validates_struct(f)

    def take(self, tag):
        return [c[1:] for c in self.calls if c[0] == tag]


@case([(s, o) for s in ("flat", "dc", "levels", "dc_levels", "mixed_levels", "mixed_levels2")
       for o in ("load", "stream", "dump", "bytes", "to_stream", "nested_load", "nested_dump", "array_load")])
def runs(rt, cfg):
    """which validators run, for which fields, with which values"""
    style, op = cfg
    L = Log()
    la, lb, lc = L.fv("fa"), L.fv("fb"), L.fv("fc")
    own = [("a", U8(validate=[la, L.fv("fa2")])), ("b", U8(validate=lb))]
    low = [("c", U8(validate=lc)), ("d", U8())]
    ve = [("m1", L.mv("ma", "a")), ("m2", L.mv("mab", "a", "b")), ("s1", L.sv("s1"))]
    vl = [("m3", L.mv("mc", "c")), ("m4", L.mv("mad", "a", "d")), ("s2", L.sv("s2"))]
    B = (binobj.Struct,)
    if style == "flat":
        S = make(*own, *low, *ve, *vl)
    elif style == "dc":
        S = binobj.dataclass(type("S", B, {"__annotations__": dict(own + low), **dict(ve + vl)}))
    elif style == "levels":
        S = make(*low, *vl, base=make(*own, *ve, name="P"))
    elif style == "dc_levels":
        P = binobj.dataclass(type("P", B, {"__annotations__": dict(own), **dict(ve)}))
        S = binobj.dataclass(type("S", (P,), {"__annotations__": dict(low), **dict(vl)}))
    elif style == "mixed_levels":
        P = make(*own, *ve, name="P")
        S = binobj.dataclass(type("S", (P,), {"__annotations__": dict(low), **dict(vl)}))
    else:
        P = binobj.dataclass(type("P", B, {"__annotations__": dict(own), **dict(ve)}))
        S = make(*low, *vl, base=P)
    Other = make(("a", U8(validate=L.fv("other"))), ("m", L.mv("other", "a")), ("s", validates_struct(lambda this, v: L.calls.append(("other",)))),
                 name="Other")
    d = rt.bytes("d", 4)
    s = S(a=d[0], b=d[1], c=d[2], d=d[3])
    N = make(("n", fields.Nested(S)))
    A = make(("n", fields.Array(fields.Nested(S), count=1)))
    L.calls.clear()
    if op == "load":
        S.from_bytes(d)
    elif op == "stream":
        S.from_stream(io.BytesIO(d))
    elif op == "dump":
        s.to_bytes()
    elif op == "bytes":
        bytes(s)
    elif op == "to_stream":
        s.to_stream(io.BytesIO())
    elif op == "nested_load":
        N.from_bytes(d)
    elif op == "array_load":
        A.from_bytes(d)
    else:
        N(n=s).to_bytes()
    rt.cover("load" if "load" in op or op == "stream" else "dump")
    rt.check(L.take("other") == [], "a validator of another class ran")
    for tag, names in (("fa", "a"), ("fa2", "a"), ("fb", "b"), ("fc", "c"), ("ma", "a"), ("mab", "ab"), ("mc", "c"), ("mad", "ad")):
        got = L.take(tag)
        for n in names:
            rt.check(any([c[0] == n for c in got]), f"{tag} did not run for {n}")
        for c in got:
            rt.check(c[0] in names, f"{tag} ran for {c[0]}")
            rt.eq(c[1], d["abcd".index(c[0])], f"value given to {tag}")
            if tag[0] == "m":
                rt.check(c[2] == "S", f"{tag}: instance")
    for tag in ("s1", "s2"):
        got = L.take(tag)
        rt.check(len(got) > 0, f"struct validator {tag} did not run")
        for c in got:
            rt.eq(c[0], d[0], f"values given to {tag}")
            rt.eq(c[1], d[1], f"values given to {tag}")
            rt.check(c[2] == "S", f"{tag}: instance")
    L.calls.clear()
    s.a = d[1]
    rt.check(sorted([c[0] for c in L.calls]) == ["fa", "fa2"], "validators on assignment")
    for c in L.calls:
        rt.eq(c[2], d[1], "value given on assignment")


@case([(o, s) for o in ("load", "dump", "set") for s in ("flat", "dc")])
def hierarchy(rt, cfg):
    """validators of children and siblings do not run for the parent"""
    op, style = cfg
    L = Log()
    if style == "flat":
        P = make(("a", U8()), ("b", U8(validate=L.fv("p"))), ("m", L.mv("pm", "a")), name="P")
        C = make(("c", U8(validate=L.fv("c"))), ("m1", L.mv("cm", "a", "c")), ("s", L.sv("cs")), base=P, name="C")
        D = make(("d", U8(validate=L.fv("d"))), ("m2", L.mv("dm", "b")), ("s", L.sv("ds")), base=P, name="D")
        E = make(("e", U8()), ("m5", L.mv("em", "c", "a")), base=C, name="E")
    else:
        def dc(name, base, ann, ns):
            return binobj.dataclass(type(name, (base,), {"__annotations__": ann, **ns}))
        P = dc("P", binobj.Struct, {"a": U8(), "b": U8(validate=L.fv("p"))}, {"m": L.mv("pm", "a")})
        C = dc("C", P, {"c": U8(validate=L.fv("c"))}, {"m1": L.mv("cm", "a", "c"), "s": L.sv("cs")})
        D = dc("D", P, {"d": U8(validate=L.fv("d"))}, {"m2": L.mv("dm", "b"), "s": L.sv("ds")})
        E = dc("E", C, {"e": U8()}, {"m5": L.mv("em", "c", "a")})
    d = rt.bytes("d", 4)
    cls, n, want = rt.choice("cls", ((P, 2, {"p", "pm"}), (C, 3, {"p", "pm", "c", "cm", "cs"}),
                                     (D, 3, {"p", "pm", "d", "dm", "ds"}), (E, 4, {"p", "pm", "c", "cm", "cs", "em"})))
    names = list(cls.__binobj_struct__.components)
    if op == "load":
        cls.from_bytes(d[:n])
    elif op == "dump":
        s = cls(**{nm: d[i] for i, nm in enumerate(names)})
        L.calls.clear()
        rt.eq(s.to_bytes(), d[:n], "dump")
    else:
        s = cls()
        for i, nm in enumerate(names):
            s[nm] = d[i]
        want = want & {"p", "c", "d"}
    rt.check({c[0] for c in L.calls} == want, f"validators that ran: {sorted({c[0] for c in L.calls})}")
    for c in L.calls:
        if c[0] not in ("cs", "ds"):
            rt.eq(c[2], d[names.index(c[1])], "value")
            if len(c) > 3:
                rt.check(c[3] == cls.__name__, "instance")


@case([(src, w) for src in ("default", "factory", "const", "computed", "none", "none_default", "null_load")
       for w in ("field", "method", "struct")])
def effective(rt, cfg):
    """unset and None values are validated with the value that is used"""
    source, where = cfg
    x = rt.int("x", 0, 255)
    seen = []

    def refuse(v):
        seen.append(v)
        if v is None or v >= 100:
            raise errors.ValidationError(field=None, value=v)

    def fv(field, value):
        refuse(value)

    def mv(self, field, value):
        refuse(value)

    def sv(self, values):
        refuse(values["x"])
    kw = {"validate": fv} if where == "field" else {}
    if source == "default":
        kw["default"] = x
    elif source == "factory":
        kw["factory"] = lambda: x
    elif source == "const":
        kw["const"] = x
    elif source in ("none", "none_default", "null_load"):
        kw["null_value"] = b"\xff"
        if source == "none_default":
            kw["default"] = None
    f = U8(**kw)
    if source == "computed":
        f.computes(lambda self, v: x)
    extra = [] if where == "field" else [("m", validates("x")(mv) if where == "method" else validates_struct(sv))]
    S = make(("a", U8()), ("x", f), *extra)
    if source in ("none", "none_default", "null_load"):
        s = S(a=1, x=None) if source != "none_default" else S(a=1)
        bad, raw = True, b"\x01\xff"
    else:
        s, bad, raw = S(a=1), rt.holds(x >= 100), bytes([1, x])
    st = io.BytesIO()
    if bad:
        rt.raises(VAL, lambda: s.to_bytes(), "to_bytes")
        rt.raises(VAL, lambda: s.to_stream(st), "to_stream")
        rt.eq(st.getvalue(), b"", "something was written")
        rt.raises(VAL, lambda: S.from_bytes(raw), "from_bytes")
        rt.raises(VAL, lambda: S.from_stream(io.BytesIO(raw)), "from_stream")
    else:
        rt.eq(s.to_bytes(), raw, "to_bytes")
        rt.check(len(seen) > 0, "not validated")
        rt.eq(S.from_bytes(raw).x, x, "from_bytes")
    for v in seen:
        if source in ("none", "none_default", "null_load"):
            rt.check(v is None, "value given")
        else:
            rt.eq(v, x, "value given")


@case([(p, w) for p in range(4) for w in ("field", "method", "struct", "nested")])
def nothing_written(rt, cfg):
    """the position of the rejected field does not matter"""
    pos, where = cfg
    d = rt.bytes("d", 4)
    lim = rt.int("lim", 0, 255)
    name = "abcd"[pos]

    def no(v):
        if v > lim:
            raise Refused()
    kinds = {n: {} for n in "abcd"}
    if where == "field":
        kinds[name] = {"validate": lambda f, v: no(v)}
    extra = []
    if where == "method":
        extra = [("m", validates(name)(lambda self, f, v: no(v)))]
    elif where in ("struct", "nested"):
        extra = [("m", validates_struct(lambda self, v: no(v[name])))]
    S = make(*[(n, U8(**kinds[n])) for n in "abcd"], *extra)
    s = S(a=d[0], b=d[1], c=d[2], d=d[3])
    st = io.BytesIO(b"old data")
    st.seek(3)
    if where == "nested":
        T = make(("n", fields.Nested(S)), ("e", U8()))
        s = T(n=s, e=1)
    if rt.holds(d[pos] > lim):
        rt.raises((Refused,), lambda: s.to_stream(st), "to_stream")
        if where != "nested":
            rt.eq(st.getvalue(), b"old data", "something was written")
            rt.check(st.tell() == 3, "position")
        rt.raises((Refused,), lambda: type(s).from_bytes(d + (b"\x01" if where == "nested" else b"")), "load")
    else:
        s.to_stream(st)
        rt.eq(st.getvalue(), b"old" + d + (b"\x01" if where == "nested" else b"a"), "to_stream")


@case(["array", "union", "nested"])
def elements(rt, cfg):
    """validators of array elements, union choices and nested fields"""
    seen = []
    lim = rt.int("lim", 0, 255)

    def fv(field, value):
        seen.append(value)
        if value > lim:
            raise Refused()
    c = U8(validate=fv)
    d = rt.bytes("d", 2)
    if cfg == "array":
        S = make(("x", fields.Array(c, count=2)))
        v, n = [d[0], d[1]], 2
    elif cfg == "union":
        S = make(("x", fields.Union(c, load_decider=lambda st, ch, x, f: ch[0], dump_decider=lambda dd, ch, x, f: ch[0])), ("t", U8()))
        v, n = d[0], 1
    else:
        S = make(("x", fields.Nested(make(("p", c), ("q", U8())))))
        v, n = {"p": d[0], "q": d[1]}, 1
    vals = {"x": v}
    if cfg == "union":
        vals["t"] = d[1]
    bad = rt.holds(d[0] > lim) or (n == 2 and rt.holds(d[1] > lim))
    if bad:
        rt.raises((Refused,), lambda: S.from_bytes(d), "load")
        rt.raises((Refused,), lambda: S(**vals).to_bytes(), "dump")
    else:
        S.from_bytes(d)
        rt.check(len(seen) >= n, "not validated on load")
        rt.eq(seen[:n], [d[i] for i in range(n)], "values on load")
        seen.clear()
        rt.eq(S(**vals).to_bytes(), d, "dump")
        rt.check(len(seen) >= n, "not validated on dump")


@case(["none", "call", "field", "unknown"])
def declarations(rt, cfg):
    """wrong uses of the decorator are rejected"""
    if cfg == "none":
        rt.raises((TypeError,), lambda: validates(), "no names")
    elif cfg == "call":
        rt.raises((TypeError,), lambda: validates(lambda self, f, v: None), "without names")
    elif cfg == "field":
        rt.raises((TypeError,), lambda: validates(U8()), "a field object")
    else:
        rt.raises((Exception,), lambda: make(("a", U8()), ("m", validates("zz")(lambda self, f, v: None))), "unknown field")


@case([(k, w, o) for k in ("u8", "strz", "bytes3", "nest", "arr3", "vlq") for w in ("field", "fields", "method", "struct")
       for o in ("null", "nulldef", "absent")])
def none_values(rt, cfg):
    """None and absent values are validated like any other"""
    kind, where, opt = cfg
    k = KINDS[kind]
    log = []

    def note(value):
        log.append(value)
        if value is None:
            raise Refused()

    def fv(field, value):
        note(value)

    def mv(self, field, value):
        note(value)

    def sv(self, values):
        note(values["x"])
    kw = {"validate": fv} if where == "field" else {"validate": [lambda f, v: None, fv]} if where == "fields" else {}
    if opt == "absent":
        kw["present"] = lambda f, c, s: f["a"] > 0
        kw["not_present_value"] = None
    elif opt == "null" or k.size is None:
        kw["null_value"] = b"\xEE" * (k.size or 2)
    else:
        kw["null_value"] = DEFAULT
    extra = [] if where[:5] == "field" else [("chk", validates("x")(mv) if where == "method" else validates_struct(sv))]
    S = make(("a", U8()), ("x", k.field(**kw)), ("t", U8()), *extra)
    v = k.val(rt, "v")
    b = k.ref(rt, v)
    if opt != "absent":
        null = b"\0" * k.size if kw["null_value"] is DEFAULT else kw["null_value"]
        if len(b) >= len(null):
            rt.assume(b[:len(null)] != null)
        s = S(a=1, x=None, t=2)
        st = io.BytesIO()
        rt.raises((Refused,), lambda: s.to_stream(st), "None dumped")
        rt.eq(st.getvalue(), b"", "something was written")
        rt.raises((Refused,), lambda: S.from_bytes(b"\x01" + null + b"\x02"), "None loaded")
    ok = S(a=1, x=v, t=2)
    want = b"\x01" + b + b"\x02"
    rt.eq(ok.to_bytes(), want, "another value")
    if where[:5] == "field":
        def attr():
            ok.x = None

        def item():
            ok["x"] = None
        rt.raises((Refused,), attr, "assigning None")
        rt.raises((Refused,), item, "assigning None (item)")
        rt.eq(ok.to_bytes(), want, "None was stored although refused")
    k.same(rt, S.from_bytes(want).x, v, "loading another value")


BEFORE = {"absent": (lambda: U8(present=lambda f, c, s: f["g"] > 300), {}, b""),
          "absent_set": (lambda: U8(present=lambda f, c, s: f["g"] > 300), {"o": 5}, b""),
          "optional": (lambda: U8(present=lambda f, c, s: f["g"] > 9, default=4), {}, None),
          "absent_null": (lambda: U8(present=lambda f, c, s: False, not_present_value=None), {}, b""),
          "null": (lambda: U8(null_value=b"\xEE"), {"o": None}, b"\xEE"), "const": (lambda: U8(const=3), {}, b"\x03"),
          "default": (lambda: U8(default=3), {}, b"\x03"), "factory": (lambda: U8(factory=lambda: 3), {}, b"\x03"),
          "discard": (lambda: U8(discard=True), {"o": 3}, b"\x03"), "computed": (None, {}, b"\x03"),
          "empty": (lambda: fields.Array(U8(), count=0), {"o": []}, b""), "falsy": (lambda: U8(), {"o": 0}, b"\0")}


@case([(b, w, s) for b in BEFORE for w in ("field", "method", "method2", "struct") for s in STYLES
       if s in ("flat", "dc", "inherited") or b in ("absent", "null")])
def among(rt, cfg):
    """fields around the validated ones, whatever they hold, do not keep those from being validated"""
    before, where, style = cfg
    make_o, given, raw_o = BEFORE[before]
    lim = rt.int("lim", 0, 255)
    seen = []

    def fv(field, value):
        if value > lim:
            raise Refused()

    def any_o(field, value):
        seen.append(value)

    def mv(self, field, value):
        if value > lim:
            raise Refused()

    def sv(self, values):
        if values["x"] > lim or values["y"] > lim:
            raise Refused()

    def ov(self, field, value):
        seen.append(value)
    kw = {"validate": fv} if where == "field" else {}
    if where == "method":
        extra = [("chk", validates("x")(mv)), ("chk2", validates("y")(lambda self, field, v: mv(self, field, v)))]
    elif where == "method2":
        extra = [("chk", validates("o", "y", "x")(lambda self, field, v: mv(self, field, v) if field.name != "o" else ov(self, field, v)))]
    else:
        extra = [("chk", validates_struct(sv))] if where == "struct" else []
    o = fields.UInt8() if make_o is None else make_o()
    if make_o is None:
        o.computes(lambda self, f: 3)
    S = declare([("g", U8()), ("x", U8(**kw)), ("o", o), ("y", U8(**kw))], extra, style)
    g, x, y = rt.int("g", 0, 255), rt.int("x", 0, 255), rt.int("y", 0, 255)
    if raw_o is None:
        raw_o = b"\x04" if rt.holds(g > 9) else b""
    vals = dict(given, g=g, x=x, y=y)
    raw = bytes([g, x]) + raw_o + bytes([y]) + TAIL[style]
    st = io.BytesIO()
    if rt.holds(x > lim) or rt.holds(y > lim):
        rt.cover("rejected")
        rt.raises((Refused,), lambda: S.from_bytes(raw), "load")
        rt.raises((Refused,), lambda: S.from_stream(io.BytesIO(raw + b"q")), "from_stream")
        if where == "field":
            rt.raises((Refused,), lambda: S(**vals).to_stream(st) if rt.holds(y > lim) else S(**vals).to_bytes(), "dump")
        else:
            s = S(**vals)
            rt.raises((Refused,), lambda: s.validate_contents(), "validate_contents")
            rt.raises((Refused,), lambda: s.to_stream(st), "dump")
        rt.eq(st.getvalue(), b"", "something was written")
    else:
        rt.cover("accepted")
        rt.eq(S.from_bytes(raw).y, y, "load")
        rt.eq(S(**vals).to_bytes(), raw, "dump")
    for v in seen:
        rt.check(v is not NOT_PRESENT and v is not UNDEFINED, "a validator was given a marker")


@case([(p, c, o) for p in ("flat", "dc") for c in ("flat", "dc") for o in ("own_first", "inherited_first", "between", "two")])
def several(rt, cfg):
    """one validator method for own and inherited fields, named in any order"""
    parent, child, order = cfg
    lim = rt.int("lim", 0, 255)
    seen = []

    def mv(self, field, value):
        seen.append((field.name, value))
        if value > lim:
            raise Refused()
    own, inh = [("c", U8()), ("d", U8(default=0))], [("a", U8()), ("b", U8())]
    names = {"own_first": ("c", "a", "d", "b"), "inherited_first": ("a", "b", "c", "d"), "between": ("b", "d", "a", "c"),
             "two": ("c", "a")}[order]
    extra = {"chk": validates(*names)(mv)} if order != "two" else {"chk": validates("c", "a")(mv),
                                                                  "chk2": validates("d", "b")(lambda s, f, v: mv(s, f, v))}
    P = make(*inh, name="P") if parent == "flat" else binobj.dataclass(type("P", (binobj.Struct,), {"__annotations__": dict(inh)}))
    if child == "flat":
        S = make(*own, *extra.items(), base=P)
    else:
        S = binobj.dataclass(type("S", (P,), {"__annotations__": dict(own), **extra}))
    v = rt.bytes("v", 4)
    s = S(a=v[0], b=v[1], c=v[2], d=v[3])
    p = P(a=v[0], b=v[1])
    rt.eq(p.to_bytes(), v[:2], "the parent has no validator")
    rt.check(len(seen) == 0, "the parent's fields are validated by the child's method")
    if any([rt.holds(x > lim) for x in v]):
        rt.cover("rejected")
        rt.raises((Refused,), lambda: S.from_bytes(v), "load")
        rt.raises((Refused,), lambda: s.to_bytes(), "dump")
        return
    rt.cover("accepted")
    t = S.from_bytes(v)
    for what in ("load", "dump"):
        if what == "dump":
            seen.clear()
            rt.eq(s.to_bytes(), v, "dump")
        for i, n in enumerate("abcd"):
            got = [x for m, x in seen if m == n]
            rt.check(len(got) > 0, f"{what}: field {n} is not validated")
            for x in got:
                rt.eq(x, v[i], f"{what}: value of {n}")
