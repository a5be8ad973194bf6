"""C35 exactly the consistent declarations are accepted."""
import typing

from scn import *

BOUNDS = {"quick": "option values: every ASCII text of 1 to 6 characters, every byte string of 0 to 3 bytes, every count 0..4, values of the wrong type; every pair "
                   "and triple of value sources on every field kind; every field of hierarchies of up to 3 classes redefined in four declaration styles; "
                   "the remaining classes used with every value of their kinds afterwards"}
OUTSIDE = "the byte order of integer and timestamp fields and encodings, which are looked at when they are used; options of the wrong type other than those listed"
COVERS = {"resolution": ["valid", "invalid"], "order": ["valid", "invalid"], "pad": ["valid", "invalid"], "sources": ["valid", "invalid"]}
U8 = fields.UInt8


@case([1, 2, 3, 4])
def resolution(rt, n):
    """a timestamp has one of the four resolutions"""
    t = rt.text("t", n, 32, 126)
    known = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}
    unit = [known[k] for k in known if len(k) == n and rt.holds(t == k)]
    size = rt.choice("size", (4, 8, 12))
    mk = {4: fields.Timestamp32, 8: fields.Timestamp64, 12: lambda **kw: fields.Timestamp(size=12, **kw)}[size]
    if not unit:
        rt.cover("invalid")
        rt.raises((errors.ConfigurationError,), lambda: mk(resolution=t), "an unknown resolution is accepted")
        return
    rt.cover("valid")
    f = mk(resolution=t, endian="big", tz_aware=True)
    sec = rt.int("sec", 0, 2**31 // unit[0] - 1 if size == 4 else 2**31)
    rt.assume(sec * unit[0] < 2 ** (8 * size - 1))
    want = rt.instant(sec * 10**6, datetime.timezone.utc)
    raw = (sec * unit[0]).to_bytes(size, "big")
    rt.eq(f.to_bytes(want), raw, "dump")
    rt.check(f.from_bytes(raw) == want, "load")


@case([(k, how, n) for k in ("f16", "f32", "f64") for how in ("own", "meta", "typed", "meta and own") for n in (3, 4, 6)])
def order(rt, cfg):
    """the byte order of a float is big or little"""
    kind, how, n = cfg
    cls = {"f16": fields.Float16, "f32": fields.Float32, "f64": fields.Float64}[kind]
    size = {"f16": 2, "f32": 4, "f64": 8}[kind]
    t = rt.text("t", n, 32, 126)
    valid = "big" if n == 3 and rt.holds(t == "big") else "little" if n == 6 and rt.holds(t == "little") else None
    opts = {"own": {}, "meta": {"endian": t}, "typed": {cls.__name__ + "__endian": t}, "meta and own": {"endian": t}}[how]

    def declare():
        f = cls(**({"endian": t} if how == "own" else {"endian": "big"} if how == "meta and own" else {}))
        return make(("a", fields.Bytes(size=1)), ("x", f), ("b", fields.Bytes(size=1)), meta=opts)
    if how == "meta and own":
        valid = "big"           # the field's own option counts
    if valid is None:
        rt.cover("invalid")
        rt.raises((errors.ConfigurationError,), declare, "an unknown byte order is accepted")
        return
    rt.cover("valid")
    S = declare()
    d = rt.bytes("d", size)
    s = S.from_bytes(b"\x01" + d + b"\x02")
    want = rt.ieee_widen(rt_int(d if valid == "big" else d[::-1]), 8 * size)
    rt.check(rt.isnan(want) or rt.same_float(s.x, want), "loaded value")
    if not rt.isnan(want):
        rt.eq(s.to_bytes(), b"\x01" + d + b"\x02", "dumped again")


def rt_int(b):
    return int.from_bytes(b, "big")


@case([(c, n) for c in ("String", "StringZ") for n in ("0", "1", "2", "3", "array 0", "array 1", "array 2", "text", "int", "list", "none")])
def pad(rt, cfg):
    """the pad byte is exactly one byte"""
    cname, what = cfg
    cls = getattr(fields, cname)
    if what in ("text", "int", "list", "none"):
        p = {"text": lambda: rt.text("p", 1), "int": lambda: rt.int("p", 0, 255), "list": lambda: [rt.int("p", 0, 255)], "none": lambda: None}[what]()
        if p is not None:
            rt.cover("invalid")
            rt.raises((errors.ConfigurationError,), lambda: cls(size=4, pad_byte=p), "something else as pad byte")
            return
        rt.raises((errors.ValueSizeError,), lambda: cls(size=4, pad_byte=p).to_bytes("ab"), "no padding")
        return
    n = int(what[-1])
    p = rt.bytes("p", n)
    if what[0] == "a":
        p = bytearray(p)
    if n != 1:
        rt.cover("invalid")
        rt.raises((errors.ConfigurationError,), lambda: cls(size=4, pad_byte=p), "a pad of another length")
        return
    rt.cover("valid")
    f = cls(size=4, pad_byte=p)
    rt.eq(f.to_bytes("ab"), b"ab" + bytes(p) * 2 if cname == "String" else b"ab\0" + bytes(p), "padded")


@case(["int", "zero", "name", "object", "none", "true", "false", "float", "text float", "list", "bytes", "struct", "class"])
def count(rt, what):
    """the count of an array is a number, a field or a name"""
    v = rt.bytes("v", 4)
    n = rt.choice("n", range(5))
    c = {"int": n, "zero": 0, "name": "c", "object": U8(), "none": None, "true": True, "false": False, "float": 2.0, "text float": rt.float("f"), "list": [n],
         "bytes": b"c", "struct": make(("q", U8())), "class": U8}[what]
    if what in ("true", "false", "float", "text float", "list", "bytes", "struct", "class"):
        rt.raises((TypeError,), lambda: fields.Array(U8(), count=c), "something else as count is accepted")
        return
    n = 0 if what == "zero" else n
    x = ("x", fields.Array(U8(), count=c))
    S = make(("c", c if what == "object" else U8()), x)
    raw = bytes([n]) + v[:n]
    s = S.from_bytes(raw)
    rt.check(len(s.x) == n, "number of elements")
    rt.eq(bytes(s.x), v[:n], "elements")
    rt.eq(S(c=n, x=s.x).to_bytes(), raw, "dump")


SRC = ["const", "default", "factory", "compute"]
SETS = [(a,) for a in SRC] + [("const", "compute"), ("default", "factory"), ("default", "compute"), ("factory", "compute"), ("compute", "compute"),
                              ("default", "factory", "compute"), ("const", "compute", "compute"), ("default", "compute", "compute")]


@case([(k, s) for k in ALL_KINDS for s in range(len(SETS))])
def sources(rt, cfg):
    """which sources of a value can be combined"""
    kind, sources_ = cfg[0], SETS[cfg[1]]
    k = KINDS[kind]
    v, w = k.val(rt, "v"), k.val(rt, "w")
    kw, computes = {}, 0
    for n in sources_:
        if n == "compute":
            computes += 1
        else:
            kw[n] = (lambda: v) if n == "factory" else v
    bad = ("default" in kw and "factory" in kw) or computes > 1 or (computes and "const" in kw)

    def declare():
        f = k.field(**kw)
        for _ in range(computes):
            f.computes(lambda self, values: w)
        return f
    if bad:
        rt.cover("invalid")
        if "default" in kw and "factory" in kw:
            rt.raises((errors.ConfigurationError,), lambda: k.field(**kw), "a default and a factory")
        else:
            rt.raises((errors.ConfigurationError,), declare, "refused combination")
            # what was declared before the refusal still counts
            f = k.field(**kw)
            if "const" not in kw:
                f.computes(lambda self, values: w)
            try:
                f.computes(lambda self, values: v)
            except errors.ConfigurationError:
                pass
            S = make(("a", U8()), ("x", f), ("t", U8()))
            want = v if kw else w
            rt.eq(S(a=1, t=2).to_bytes(), b"\x01" + k.ref(rt, want) + b"\x02", "the field after the refusal")
        return
    rt.cover("valid")
    S = make(("a", U8()), ("x", declare()), ("t", U8()))
    want = v if kw else w
    rt.eq(S(a=1, t=2).to_bytes(), b"\x01" + k.ref(rt, want) + b"\x02", "the first source counts")


@case([(p, n) for n in (1, 2, 3) for p in range(-1, n)])
def choices(rt, cfg):
    """the choices of a union are field objects and struct classes"""
    at, n = cfg
    v = rt.int("v", 0, 255)
    inner = make(("q", U8()), name="Inner")
    kinds = rt.choice("kinds", ("fields", "structs"))
    cs = [U8() if kinds == "fields" else inner for _ in range(n)]
    if at >= 0:
        cs[at] = rt.choice("class", (U8, fields.StringZ, fields.Nested, fields.Field))
    which = rt.choice("which", range(n))
    pick = lambda a, ch, c, f: ch[which]  # noqa: E731
    if at >= 0:
        rt.raises((errors.ConfigurationError,), lambda: fields.Union(*cs, load_decider=pick, dump_decider=pick), "a field class as a choice")
        return
    S = make(("x", fields.Union(*cs, load_decider=pick, dump_decider=pick)))
    s = S.from_bytes(bytes([v]))
    rt.check((s.x if kinds == "fields" else s.x.q) == v, "load")
    rt.eq(s.to_bytes(), bytes([v]), "dump")


def declare(style, name, base, own):
    if style == "dc":
        return binobj.dataclass(type(name, (base,), {"__annotations__": dict(own)}))
    return make(*own, base=base, name=name)


@case([(p, c, w) for p in ("assign", "dc") for c in ("assign", "dc") for w in ("first", "last", "only", "grand", "same kind")])
def redefined(rt, cfg):
    """a child cannot define a field of its parents again, and the attempt changes nothing"""
    ps, cs, where = cfg
    ka, kb = KINDS[rt.choice("ka", ("u8", "u16b", "strz"))], KINDS["u16l"]
    a, b, n = ka.val(rt, "a"), kb.val(rt, "b"), rt.int("n", 0, 255)
    P = declare(ps, "P", binobj.Struct, [("a", ka.field()), ("b", kb.field())])
    base = declare(ps, "M", P, [("m", U8())]) if where == "grand" else P
    raw = ka.ref(rt, a) + kb.ref(rt, b)
    rt.eq(P(a=a, b=b).to_bytes(), raw, "before")
    name = rt.choice("name", ("a", "b"))
    own = {"first": [(name, U8()), ("n", U8())], "last": [("n", U8()), (name, U8())], "only": [(name, U8())], "grand": [("n", U8()), (name, U8())],
           "same kind": [("n", U8()), (name, {"a": ka, "b": kb}[name].field())]}[where]
    err = refused(rt, (errors.FieldRedefinedError,), lambda: declare(cs, "C", base, own))
    rt.check("C" in str(err.struct), "the error does not name the struct")
    rt.check(err.field == name or getattr(err.field, "name", None) == name or err.field is dict(own)[name], "the error does not name the field")
    rt.check(base.get_size() == (None if ka.size is None else ka.size + 2 + (where == "grand")), "size of the parent")
    rt.eq(P(a=a, b=b).to_bytes(), raw, "the parent afterwards")
    D = declare(cs, "D", base, [("n", U8())])
    extra = {"m": 7} if where == "grand" else {}
    mid = b"\x07" if where == "grand" else b""
    rt.eq(D(a=a, b=b, n=n, **extra).to_bytes(), raw + mid + bytes([n]), "another child")
    s = D.from_bytes(raw + mid + bytes([n]))
    ka.same(rt, s.a, a, "loaded")
    rt.check(s.n == n, "loaded")


def refused(rt, types, fn):
    try:
        fn()
    except types as err:
        return err
    rt.fail("the declaration is accepted")


@case([(s, h) for s in ("assign", "dc") for h in ("two", "three", "related", "mixin", "mixin first", "plain base")])
def bases(rt, cfg):
    """a struct has at most one struct among its bases"""
    style, how = cfg
    v, w = rt.int("v", 0, 255), rt.int("w", 0, 255)
    A = declare(style, "A", binobj.Struct, [("a", U8())])
    B = declare(style, "B", binobj.Struct, [("b", U8())])
    C = declare(style, "C", A, [("c", U8())])
    X = type("X", (), {"hello": lambda self: self.a + 1})
    bs = {"two": (A, B), "three": (A, B, X), "related": (B, C), "mixin": (A, X), "mixin first": (X, A), "plain base": (X, binobj.Struct)}[how]
    own = {"n": U8()}
    if how in ("two", "three", "related"):
        err = refused(rt, (errors.MultipleInheritanceError,), lambda: type("Many", bs, own))
        rt.check(err.struct == "Many" or getattr(err.struct, "__name__", None) == "Many", "the error does not name the struct")
    else:
        S = type("Some", bs, own)
        raw = bytes([v, w]) if how != "plain base" else bytes([w])
        s = S(n=w, **({} if how == "plain base" else {"a": v}))
        rt.eq(s.to_bytes(), raw, "with a base that is no struct")
        if how != "plain base":
            rt.check(s.hello() == v + 1, "method of the other base")
        rt.eq(S.from_bytes(raw).to_bytes(), raw, "load")
    rt.eq(A(a=v).to_bytes(), bytes([v]), "the first base afterwards")
    rt.eq(B(b=v).to_bytes(), bytes([v]), "the second base afterwards")
    rt.eq(C(a=v, c=w).to_bytes(), bytes([v, w]), "the related class afterwards")


@case(["mixed", "assigned only", "no fields", "other annotations", "two types", "two fields", "annotated", "optional", "child mixed", "child without", "applied twice"])
def annotations(rt, how):
    """what the dataclass decorator takes"""
    v, w = rt.int("v", 0, 255), rt.int("w", 0, 255)
    P = declare("dc", "P", binobj.Struct, [("p", U8())])

    def deco(ann, ns=(), base=binobj.Struct):
        return binobj.dataclass(type("D", (base,), {"__annotations__": dict(ann), **dict(ns)}))
    bad = {"mixed": (errors.MixedDeclarationsError, lambda: deco({"a": U8}, {"b": U8()})),
           "assigned only": (errors.MixedDeclarationsError, lambda: deco({}, {"b": U8()})),
           "no fields": (errors.NoDefinedFieldsError, lambda: deco({})),
           "other annotations": (errors.NoDefinedFieldsError, lambda: deco({"a": int, "b": typing.List[int]})),
           "two types": (errors.InvalidTypeAnnotationError, lambda: deco({"a": typing.Union[U8, fields.StringZ]})),
           "two fields": (errors.ConfigurationError, lambda: deco({"a": typing.Annotated[int, U8, fields.UInt16]})),
           "child mixed": (errors.MixedDeclarationsError, lambda: deco({"a": U8}, {"b": U8()}, P)),
           "child without": (errors.NoDefinedFieldsError, lambda: deco({}, {}, P)),
           "applied twice": (errors.MixedDeclarationsError, lambda: binobj.dataclass(deco({"a": U8})))}
    if how in bad:
        exc, fn = bad[how]
        err = refused(rt, (exc,), fn)
        rt.check(err.struct is not None or err.field is not None, "the error names nothing")
        if err.struct is not None:
            rt.check(getattr(err.struct, "__name__", err.struct) == "D", "the error names another struct")
    else:
        T = deco({"a": typing.Annotated[int, U8] if how == "annotated" else typing.Optional[U8], "b": typing.ClassVar[int], "c": U8(), "d": int})
        rt.check(list(T.__binobj_struct__.components) == ["a", "c"], "fields")
        rt.eq(T(a=v, c=w).to_bytes(), bytes([v, w]), "dump")
    rt.eq(P(p=v).to_bytes(), bytes([v]), "the parent")
    C = declare("dc", "C", P, [("c", U8())])
    rt.eq(C(p=v, c=w).to_bytes(), bytes([v, w]), "a child")


@case(["none", "bare", "field", "mixed", "number", "ok", "several"])
def validators(rt, how):
    """validator methods are declared with the names of fields"""
    v, bad = rt.int("v", 0, 255), rt.int("bad", 0, 255)

    def chk(self, field, value):
        if rt.holds(value == bad):
            raise errors.ValidationError(field=field, value=value)
    if how not in ("ok", "several"):
        use = {"none": lambda: validates()(chk), "bare": lambda: validates(chk), "field": lambda: validates(U8())(chk), "mixed": lambda: validates("a", U8())(chk),
               "number": lambda: validates(v)(chk)}[how]
        rt.raises((TypeError,), use, "accepted")
        return
    S = make(("a", U8()), ("b", U8()), ("chk", validates(*(["a"] if how == "ok" else ["a", "b"]))(chk)))
    for n in ("a", "b"):
        s = S(**{**{"a": bad ^ 1, "b": bad ^ 1}, n: v})
        if n in ("ab" if how == "several" else "a") and rt.holds(v == bad):
            rt.raises((errors.ValidationError,), lambda: s.to_bytes(), "not validated")
        else:
            rt.eq(s.to_bytes(), bytes([v, bad ^ 1] if n == "a" else [bad ^ 1, v]), "dump")


@case([(k, h) for k in ("u8", "strz", "bytes3", "nest", "arr3", "vlq", "ts64ms", "uuid1", "uni") for h in ("same", "other", "twice", "none", "other class")])
def names(rt, cfg):
    """a field has one name"""
    kind, how = cfg
    k = KINDS[kind]
    v = k.val(rt, "v")
    if how == "other":
        rt.raises((errors.ConfigurationError,), lambda: make(("a", U8()), ("x", k.field(name="y"))), "another explicit name")
    elif how == "twice":
        f = k.field()
        rt.raises((errors.ConfigurationError,), lambda: make(("x", f), ("y", f)), "the same object under two names")
    elif how == "other class":
        f = k.field()
        make(("x", f))
        rt.raises((errors.ConfigurationError,), lambda: make(("y", f)), "the same object under another name in another class")
    S = make(("a", U8()), ("x", k.field(name="x") if how == "same" else k.field()))
    rt.check(S.x.name == "x" and S.a.name == "a", "names")
    rt.eq(S(a=1, x=v).to_bytes(), b"\x01" + k.ref(rt, v), "dump")


@case(["name", "value", "none", "number", "other", "VLQ", "LEB128", "ULEB128", "COMPACT_INDICES"])
def scheme(rt, how):
    """a variable-length integer has one of the four schemes"""
    v = rt.int("v", 0, 63)
    bad = {"name": "VLQ", "value": "vlq", "none": None, "number": v, "other": VarIntEncoding}
    if how in bad:
        rt.raises((errors.ConfigurationError,), lambda: fields.VariableLengthInteger(vli_format=bad[how]), "an unknown scheme is accepted")
        return
    f = fields.VariableLengthInteger(vli_format=getattr(VarIntEncoding, how))
    rt.eq(f.to_bytes(v), bytes([v]), "dump")
    rt.check(f.from_bytes(bytes([v])) == v, "load")
