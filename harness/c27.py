"""C27 struct declarations keep order, and inheritance never affects the parent."""
from scn import *

BOUNDS = {"quick": "hierarchies of up to 4 classes and 6 fields, cut anywhere (classes without own fields included), all field kinds and scenario "
                   "layouts, with field, method and struct validators, options, computed, sized and counted fields added at every level, parents in "
                   "both declaration styles, used before and after children and siblings are defined; every value within the bounds of the kinds"}
OUTSIDE = ("deeper hierarchies; child classes that explicitly change a parent's field object (e.g. a compute function for an inherited field) or "
           "hide an inherited field with another attribute; the __objclass__ attribute of inherited fields")
ASSUMPTIONS = ["a field object is assigned in one class only"]
COVERS = {"inherited_validators": ["accepted", "rejected"], "unknown_names": ["known", "unknown"]}

U8 = fields.UInt8
ROWS = [["u8", "u16b", "strz", "nest"], ["i24b", "bytes3", "arr3", "f32l"], ["vlq", "u8", "strz16", "i32l"],
        ["uni", "nestvar", "u8", "uuidc"], ["arrz", "leb", "ts64ms", "u64b"], ["u8", "u8", "i8", "u8", "u16l", "u8"]]
CUTS = [(), (0,), (1,), (2,), (4,), (1, 2), (1, 3), (2, 2), (0, 4), (1, 2, 3), (2, 2, 2), (1, 1, 3)]


def offsets(kinds):
    out, at = [], 0
    for n in kinds:
        out.append(at)
        at = None if at is None or KINDS[n].size is None else at + KINDS[n].size
    return out, at


@case([(r, c, s) for r in range(len(ROWS)) for c in CUTS for s in ("assign", "dc", "mixed") if s == "assign" or all([0 < q < 4 for q in c]) and
       len(set(c)) == len(c)])
def order(rt, cfg):
    """the parent's fields first, then the own ones in order"""
    row, cuts, style = cfg
    kinds = ROWS[row]
    names = [f"f{5 - i}" for i in range(len(kinds))]        # not in alphabetical order
    flds = [KINDS[k].field() for k in kinds]
    base, last, classes = binobj.Struct, 0, []
    for lvl, c in enumerate(list(cuts) + [len(kinds)]):
        own = list(zip(names, flds))[last:c]
        if style == "dc" or (style == "mixed" and lvl % 2 == 1):
            base = binobj.dataclass(type(f"D{lvl}", (base,), {"__annotations__": dict(own)}))
        else:
            base = make(*own, base=base, name=f"L{lvl}")
        classes.append((base, c))
        last = c
    vals = [KINDS[k].val(rt, n) for k, n in zip(kinds, names)]
    parts = [KINDS[k].ref(rt, v) for k, v in zip(kinds, vals)]
    for cls, n in classes:
        raw = cat(parts[:n])
        s = cls(**dict(list(zip(names, vals))[:n][::-1]))
        rt.eq(s.to_bytes(), raw, "dump")
        rt.check(len(s) == len(raw), "length")
        rt.check(set(s.to_dict()) == set(names[:n]), "fields of to_dict")
        st = io.BytesIO(raw + b"rest")
        back = cls.from_stream(st)
        for i in range(n):
            KINDS[kinds[i]].same(rt, back[names[i]], vals[i], "load")
        rt.check(st.tell() == len(raw), "position")
        rt.check(list(back.to_dict()) == names[:n], "order of to_dict")
        offs, size = offsets(kinds[:n])
        rt.check(cls.get_size() == size, "class size")
        for i in range(n):
            f = getattr(cls, names[i])
            rt.check(f is flds[i], "the field object")
            rt.check(f.name == names[i] and f.index == i and f.offset == offs[i], "name, index and offset")
            if i:
                st = io.BytesIO(raw)
                KINDS[kinds[i]].same(rt, cls.get_field(st, names[i]), vals[i], "get_field")
        if n < len(kinds):
            rt.raises((errors.UnexpectedValueError,), lambda: cls(**{names[n]: vals[n]}), "field of a child class")
            rt.check(not hasattr(cls, names[n]), "attribute of a child class")


# what a child class may add: (items, extra constructor arguments, extra bytes) of the parent class P and the list of validator calls
def additions(what, P, calls):
    def note(*a):
        calls.append(what)
        raise errors.ValidationError(field=None, value=None)

    def fv(self, f, v):
        note()

    def sv(self, v):
        note()
    if what == "field":
        return {"items": [("z", U8())], "args": {"z": 1}, "raw": b"\x01"}
    if what == "var":
        return {"items": [("z", fields.StringZ())], "args": {"z": "q"}, "raw": b"q\0"}
    if what == "none":
        return {"items": []}
    if what == "method":
        return {"items": [("m", validates("x")(fv))], "refuse": True}
    if what == "methods":
        return {"items": [("z", U8()), ("m", validates("z", "x", "y")(fv)), ("m2", validates("y")(fv))], "args": {"z": 1}, "raw": b"\x01", "refuse": True}
    if what == "struct":
        return {"items": [("m", validates_struct(sv))], "refuse": True}
    if what == "own":
        return {"items": [("z", U8(validate=lambda f, v: note())), ("m", validates("z")(fv))], "args": {"z": 1}, "raw": b"\x01", "refuse": True}
    if what == "meta":
        return {"items": [("z", fields.UInt16())], "meta": {"endian": "little", "signed": True, "encoding": "utf-16-le"}, "args": {"z": 1}, "raw": b"\x01\0"}
    if what == "sized":
        return {"items": [("z", fields.Bytes(size=P.n)), ("w", fields.Array(U8(), count="n"))], "args": {"z": b"", "w": []}, "raw": b""}
    if what == "computed":
        z = U8()
        return {"items": [("z", z), ("fn", z.computes(lambda self, v: 7))], "raw": b"\x07"}
    if what == "const":
        return {"items": [("z", fields.Bytes(const=b"zz"))], "raw": b"zz"}
    if what == "cond":
        return {"items": [("z", U8(present=lambda f, c, s: f["n"] == 255))], "raw": b""}
    return {"items": [("hi", lambda self: 1)], "mixin": True}


ADD = ["field", "var", "none", "method", "methods", "struct", "own", "meta", "sized", "computed", "const", "cond", "mixin"]


class Mixin:
    def nothing(self):
        return 0


def parent(style, calls):
    """(class, its name) with the fields n, x, y and a validator of each sort that records calls."""
    own = lambda self, f, v: calls.append("P")  # noqa: E731
    if style == "dc":
        ns = {"__annotations__": {"n": U8(), "x": fields.UInt16(endian="big"), "y": fields.StringZ()}, "chk": validates("x")(own)}
        return binobj.dataclass(type("P", (binobj.Struct,), ns))
    if style == "meta":
        return make(("n", U8()), ("x", fields.UInt16()), ("y", fields.StringZ()), ("chk", validates("x")(own)), meta={"endian": "big"}, name="P")
    if style == "deep":
        G = make(("n", U8()), ("x", fields.UInt16(endian="big")), ("chk", validates("x")(own)), name="G")
        return make(("y", fields.StringZ()), base=G, name="P")
    if style == "plain":
        return make(("n", U8()), ("x", fields.UInt16(endian="big")), ("y", fields.StringZ()), name="P")
    return make(("n", U8(validate=lambda f, v: calls.append("P"))), ("x", fields.UInt16(endian="big")), ("y", fields.StringZ()), ("chk", validates("x")(own)),
                ("chk2", validates_struct(lambda self, v: calls.append("P"))), name="P")


def snapshot(cls, names):
    return [cls.get_size()] + [(n, getattr(cls, n), getattr(cls, n).index, getattr(cls, n).offset, getattr(cls, n).size, getattr(cls, n).name,
                                getattr(cls, n).default if getattr(cls, n).default is UNDEFINED else 1, len(getattr(cls, n).validators)) for n in names]


@case([(p, a, b) for p in ("plain", "valid", "dc", "meta", "deep") for a in ADD for b in ("before", "only", "sibling")
       if not (p == "dc" and a == "x")])
def parents(rt, cfg):
    """defining and using a subclass changes nothing for the parent or a sibling"""
    style, what, when = cfg
    calls, mine = [], []
    P = parent(style, mine)
    n, x, y = rt.int("n", 0, 254), rt.int("x", 0, 65535), rt.text("y", 2, 1, 127)
    args = {"n": n, "x": x, "y": y}
    raw = bytes([n, x >> 8, x & 255]) + bytes([ord(c) for c in y]) + b"\0"

    def use(cls, extra, more, msg):
        s = cls(**args, **extra)
        rt.eq(s.to_bytes(), raw + more, msg + ": dump")
        rt.check(len(s) == len(raw + more), msg + ": length")
        t = cls.from_bytes(raw + more)
        rt.check(t.n == n and t.x == x and t.y == y, msg + ": load")
        rt.check(cls.n.index == 0 and cls.x.index == 1 and cls.y.index == 2, msg + ": indexes")
        rt.check(cls.n.offset == 0 and cls.x.offset == 1 and cls.y.offset == 3, msg + ": offsets")
        rt.check(cls.get_field(io.BytesIO(raw), "x") == x, msg + ": get_field")
        rt.check(list(s.to_dict())[:3] == ["n", "x", "y"], msg + ": to_dict")
        return s
    first = use(P, {}, b"", "parent before") if when == "before" else None
    snap = snapshot(P, ["n", "x", "y"])
    a = additions(what, P, calls)
    bases = (Mixin, P) if "mixin" in a else (P,)
    ns = dict(a["items"])
    if "meta" in a:
        ns["Meta"] = type("Meta", (), {"argument_defaults": a["meta"]})
    C = type("C", bases, ns)
    if when == "sibling":
        B = make(("b", fields.UInt16(endian="big")), ("chkb", validates("b")(lambda self, f, v: None)), base=P, name="B")
    rt.check(snapshot(P, ["n", "x", "y"]) == snap, "metadata of the parent")
    use(P, {}, b"", "parent")
    rt.check(calls == [], "validators of the child are not the parent's")
    extra = a.get("args", {})
    more = a.get("raw", b"")
    if what == "sized":
        ln = 2
        rt.assume(n == ln)
        extra, more = {"z": b"ab", "w": [3, 4]}, b"ab\x03\x04"
    if "refuse" in a:
        rt.raises((errors.ValidationError,), lambda: C(**args, **extra).to_bytes(), "child dump")
        rt.check(len(calls) > 0, "validators of the child")
        rt.raises((errors.ValidationError,), lambda: C.from_bytes(raw + more), "child load")
        del calls[:]
    else:
        use(C, extra, more, "child")
    if when == "sibling":
        w = rt.int("w", 0, 65535)
        use(B, {"b": w}, bytes([w >> 8, w & 255]), "sibling")
        rt.check(B.b.index == 3 and B.b.offset is None, "sibling's own field")
        rt.check(calls == [], "validators of the child are not the sibling's")
        rt.raises((errors.UnexpectedValueError,), lambda: P(b=w), "the sibling's field in the parent")
        rt.raises((errors.UnexpectedValueError,), lambda: C(b=w), "the sibling's field in the child")
    del mine[:]
    use(P, {}, b"", "parent after use of the child")
    rt.check((len(mine) > 0) == (style != "plain"), "validators of the parent")
    rt.check(snapshot(P, ["n", "x", "y"]) == snap, "metadata of the parent at the end")
    if first is not None:
        rt.eq(first.to_bytes(), raw, "an instance made before")


@case([(n, c) for n in NAMES if len(scenario(n).items) > 1 for c in ("last", "first", "half", "empty")])
def layouts(rt, cfg):
    """a struct split over classes equals the struct in one piece, and the parent goes on working alone"""
    name, cut = cfg
    sc = scenario(name)
    at = {"last": len(sc.items) - 1, "first": 1, "half": len(sc.items) // 2, "empty": len(sc.items)}[cut]
    e = list(sc.env().items())
    vals = sc.vals(rt)
    P = make(*e[:at], meta=sc.meta, name="P")
    C = make(*e[at:], meta=sc.meta, base=P, name="C")
    rt.eq(C(**vals.assign).to_bytes(sc.ctx), vals.bytes, "dump of the child")
    sc.same(rt, C.from_bytes(vals.bytes, sc.ctx), vals, "load of the child")
    rt.check(C.get_size() == sc.fixed_size(), "size of the child")
    for i, n in enumerate(sc.names):
        rt.check(getattr(C, n).index == i and getattr(C, n).offset == sc.fixed_offset(n), "index and offset")
    head = sc.names[:at]
    # the parent alone, where its fields need nothing of the child
    alone = True
    for i in sc.items[:at]:
        if i.compute is not None or i.late:
            alone = False
    if alone:
        raw = cat([b for q, b in vals.parts if q in head and b is not None])
        try:
            got = P(**{q: v for q, v in vals.assign.items() if q in head}).to_bytes(sc.ctx)
        except KeyError:
            return
        rt.eq(got, raw, "dump of the parent")
        sc.same(rt, P.from_bytes(raw, sc.ctx), vals, "load of the parent", names=head)


@case([(s, lv, d) for s in ("field", "method", "struct", "all") for lv in (1, 2, 3) for d in ("assign", "dc", "mixed")])
def inherited_validators(rt, cfg):
    """validators of every level run in the classes below it, and only there"""
    sort, levels, style = cfg
    calls = []

    def level(i, base):
        names = [f"f{j}" for j in range(i + 1)]
        kw = {}
        if sort in ("field", "all"):
            kw["validate"] = [lambda f, v: calls.append(("field", i, f.name, v))]
        fld = U8(**kw)
        extra = {}
        if sort in ("method", "all"):
            extra["own%d" % i] = validates(names[-1])(lambda self, f, v: calls.append(("method", i, f.name, v)))
            extra["inh%d" % i] = validates(*names)(lambda self, f, v: calls.append(("multi", i, f.name, v)))
        if sort in ("struct", "all"):
            extra["st%d" % i] = validates_struct(lambda self, v: calls.append(("struct", i, None, [v[n] for n in names])))
        if style == "dc" or (style == "mixed" and i % 2 == 1):
            return binobj.dataclass(type("D", (base,), {"__annotations__": {names[-1]: fld}, **extra}))
        return make((names[-1], fld), *extra.items(), base=base)
    classes, base = [], binobj.Struct
    for i in range(levels):
        base = level(i, base)
        classes.append(base)
    v = [rt.int(f"v{i}", 0, 255) for i in range(levels)]

    def expected(n):
        out = []
        for i in range(n):
            if sort in ("field", "all"):
                out.append(("field", i, f"f{i}", v[i]))
            if sort in ("method", "all"):
                out.append(("method", i, f"f{i}", v[i]))
                out += [("multi", i, f"f{j}", v[j]) for j in range(i + 1)]
            if sort in ("struct", "all"):
                out.append(("struct", i, None, v[: i + 1]))
        return out

    def same_calls(n, msg):
        want = expected(n)
        keys = [(a, b, c) for a, b, c, _ in want]
        for c in calls:
            rt.check((c[0], c[1], c[2]) in keys, msg + ": a validator that must not run")
            rt.eq(c[3], want[keys.index((c[0], c[1], c[2]))][3], msg + ": the value given to the validator")
        for q in keys:
            rt.check(q in [(a, b, c) for a, b, c, _ in calls], msg + ": a validator that does not run")
        del calls[:]
    for n, cls in enumerate(classes, 1):
        raw = bytes(v[:n])
        s = cls(**{f"f{i}": v[i] for i in range(n)})
        del calls[:]
        rt.eq(s.to_bytes(), raw, "dump")
        same_calls(n, "dump")
        cls.from_bytes(raw)
        same_calls(n, "load")
        s.validate_contents()
        same_calls(n, "validate_contents")
    bad = rt.int("bad", 0, 255)
    top = classes[0]
    Last = make(("last", U8()), ("no", validates("f0")(lambda self, f, q: refuse(rt, q, bad))), base=classes[-1])
    if rt.holds(v[0] == bad):
        rt.cover("rejected")
        rt.raises((errors.ValidationError,), lambda: Last(last=1, **{f"f{i}": v[i] for i in range(levels)}).to_bytes(), "dump")
        rt.raises((errors.ValidationError,), lambda: Last.from_bytes(bytes(v) + b"\x01"), "load")
    else:
        rt.cover("accepted")
        rt.eq(Last(last=1, **{f"f{i}": v[i] for i in range(levels)}).to_bytes(), bytes(v) + b"\x01", "dump")
    rt.eq(top(f0=v[0]).to_bytes(), bytes(v[:1]), "the first class")


def refuse(rt, q, bad):
    if rt.holds(q == bad):
        raise errors.ValidationError(field=None, value=q)


@case([(w, p) for w in ("same", "type", "grand", "dc", "dctype", "two", "mixin_first", "name", "name_dc", "diamond", "method_unknown") for p in
       ("plain", "valid", "dc", "deep")])
def rejected_classes(rt, cfg):
    """redefinition, two struct parents and renaming are refused, and leave the parents as they were"""
    what, style = cfg
    mine = []
    P = parent(style, mine)
    Q = make(("q", U8()), name="Q")
    n, x, y = rt.int("n", 0, 255), rt.int("x", 0, 65535), rt.text("y", 1, 1, 127)
    raw = bytes([n, x >> 8, x & 255]) + bytes([ord(c) for c in y]) + b"\0"
    snap = snapshot(P, ["n", "x", "y"])
    conf, redef, multi = errors.ConfigurationError, errors.FieldRedefinedError, errors.MultipleInheritanceError
    M = make(("z", U8()), base=P, name="M")
    acts = {
        "same": (redef, lambda: make(("z", U8()), ("x", fields.UInt16(endian="big")), base=P)),
        "type": (redef, lambda: make(("n", fields.StringZ()), base=P)),
        "grand": (redef, lambda: make(("y", U8()), base=M)),
        "dc": (redef, lambda: binobj.dataclass(type("D", (P,), {"__annotations__": {"z": U8, "x": fields.UInt16}}))),
        "dctype": (redef, lambda: binobj.dataclass(type("D", (M,), {"__annotations__": {"z": fields.StringZ()}}))),
        "two": (multi, lambda: type("T", (P, Q), {})),
        "mixin_first": (multi, lambda: type("T", (Mixin, Q, P), {"a": U8()})),
        "name": (conf, lambda: make(("z", U8(name="other")))),
        "name_dc": (conf, lambda: binobj.dataclass(type("D", (P,), {"__annotations__": {"z": U8(name="other")}}))),
        "diamond": (multi, lambda: type("T", (M, make(("w", U8()), base=P)), {})),
        "method_unknown": (Exception, lambda: make(("z", U8()), ("m", validates("nope")(lambda self, f, v: None)), base=P)),
    }
    exc, act = acts[what]
    try:
        act()
    except exc:
        pass
    except RuntimeError as e:         # before Python 3.12, errors of __set_name__ are wrapped
        rt.check(isinstance(e.__cause__, exc), "another error")
    else:
        rt.fail("not refused")
    rt.check(snapshot(P, ["n", "x", "y"]) == snap, "metadata of the parent")
    rt.eq(P(n=n, x=x, y=y).to_bytes(), raw, "dump of the parent")
    s = P.from_bytes(raw)
    rt.check(s.n == n and s.x == x and s.y == y, "load of the parent")
    rt.eq(M(n=n, x=x, y=y, z=1).to_bytes(), raw + b"\x01", "dump of the other child")
    rt.check(list(s.to_dict()) == ["n", "x", "y"], "fields of the parent")


@case(["a", "b", "c", "d", "q", "A", "", "__values__", "to_bytes", "Meta"])
def unknown_names(rt, cfg):
    """names of no field are refused"""
    name = cfg
    v = rt.int("v", 0, 255)
    P = make(("a", U8()), name="P")
    C = make(("b", U8(default=2)), base=P, name="C")
    D = make(("c", U8(default=3)), base=C, name="D")
    E = make(("d", U8(default=4)), base=C, name="E")
    for cls, names in ((P, "a"), (C, "ab"), (D, "abc"), (E, "abd")):
        raw = bytes([{"a": 1, "b": 2, "c": 3, "d": 4}[q] for q in names])
        if name != "" and name in names:
            rt.cover("known")
            args = {"a": 1}
            args[name] = v
            rt.eq(cls(**args).to_bytes(), bytes([v if q == name else {"a": 1, "b": 2, "c": 3, "d": 4}[q] for q in names]), "dump")
            rt.check(cls.get_field(io.BytesIO(raw), name) == "?abcd".index(name), "get_field")
            continue
        rt.cover("unknown")
        args = {"a": 1}
        args[name] = v
        rt.raises((errors.UnexpectedValueError,), lambda: cls(**args), "constructor")
        s = cls(a=1)
        rt.raises((KeyError,), lambda: s[name], "item")

        def put():
            s[name] = v

        def drop():
            del s[name]
        rt.raises((KeyError,), put, "assignment")
        rt.raises((KeyError,), drop, "deletion")
        rt.raises((ValueError,), lambda: cls.get_field(io.BytesIO(raw), name), "get_field")
        rt.raises((ValueError,), lambda: cls.partial_load(io.BytesIO(raw), name), "partial_load")
        rt.eq(s.to_bytes(), raw, "the struct is as it was")


def options(v):
    """name: (error, constructor)"""
    conf = errors.ConfigurationError
    return {
        "default_factory": (conf, lambda: U8(default=v, factory=lambda: v)),
        "default_none_factory": (conf, lambda: U8(default=None, factory=lambda: v)),
        "default_factory_str": (conf, lambda: fields.StringZ(default="", factory=str)),
        "default_factory_array": (conf, lambda: fields.Array(U8(), default=[], factory=list)),
        "default_factory_nested": (conf, lambda: fields.Nested(inner_class(), default={}, factory=dict)),
        "default_factory_union": (conf, lambda: fields.Union(U8(), load_decider=len, dump_decider=len, default=v, factory=lambda: v)),
        "two_computes": (conf, lambda: twice(U8(), v)),
        "const_computes": (conf, lambda: U8(const=v).computes(lambda s, f: v)),
        "const_computes_str": (conf, lambda: fields.StringZ(const="x").computes(lambda s, f: v)),
        "pad_type": (conf, lambda: fields.String(size=3, pad_byte=" ")),
        "pad_int": (conf, lambda: fields.String(size=3, pad_byte=32)),
        "pad_long": (conf, lambda: fields.String(size=3, pad_byte=b"ab")),
        "pad_empty": (conf, lambda: fields.String(size=3, pad_byte=b"")),
        "padz_long": (conf, lambda: fields.StringZ(size=3, pad_byte=b"ab")),
        "vli": (conf, lambda: fields.VariableLengthInteger(vli_format="vlq")),
        "vli_none": (conf, lambda: fields.VariableLengthInteger(vli_format=None)),
        "resolution": (conf, lambda: fields.Timestamp64(resolution="min")),
        "resolution32": (conf, lambda: fields.Timestamp32(resolution="")),
        "endian_float": (conf, lambda: fields.Float32(endian="middle")),
        "endian_float64": (conf, lambda: fields.Float64(endian="BIG")),
        "count_float": (TypeError, lambda: fields.Array(U8(), count=1.0)),
        "count_bool": (TypeError, lambda: fields.Array(U8(), count=True)),
        "count_list": (TypeError, lambda: fields.Array(U8(), count=[1])),
        "validates_none": (TypeError, lambda: validates()),
        "validates_bare": (TypeError, lambda: validates(lambda s, f, q: None)),
        "validates_field": (TypeError, lambda: validates("x", U8())),
        "union_class": (conf, lambda: fields.Union(U8(), fields.UInt16, load_decider=len, dump_decider=len)),
    }


def twice(f, v):
    f.computes(lambda s, d: v)
    f.computes(lambda s, d: v)


@case(list(options(0)))
def contradictions(rt, cfg):
    """contradictory or unusable options are refused"""
    exc, make_it = options(rt.int("v", 0, 255))[cfg]
    rt.raises((exc,), make_it, "not refused")


@case(["default_factory", "const_only", "name_same", "computes_default", "const_default"])
def accepted_options(rt, cfg):
    """combinations that make sense are accepted"""
    v = rt.int("v", 0, 255)
    if cfg == "default_factory":
        S = make(("a", U8(factory=lambda: v)), ("b", U8(default=v)))
        rt.eq(S().to_bytes(), bytes([v, v]), "dump")
    elif cfg == "const_only":
        S = make(("a", U8(const=v)))
        rt.eq(S().to_bytes(), bytes([v]), "dump")
    elif cfg == "name_same":
        S = make(("a", U8(name="a")), ("b", U8(name="b")))
        D = binobj.dataclass(type("D", (binobj.Struct,), {"__annotations__": {"a": U8(name="a"), "b": U8()}}))
        rt.eq(S(a=v, b=1).to_bytes(), bytes([v, 1]), "dump")
        rt.eq(D(a=v, b=1).to_bytes(), bytes([v, 1]), "dump")
    elif cfg == "computes_default":
        f = U8()
        S = make(("a", U8()), ("f", f), ("fn", f.computes(lambda self, d: d["a"])))
        rt.eq(S(a=v).to_bytes(), bytes([v, v]), "dump")
    else:
        S = make(("a", fields.String(size=3, pad_byte=b"_", default="q")), ("b", U8()))
        rt.eq(S(b=v).to_bytes(), b"q__" + bytes([v]), "dump")
