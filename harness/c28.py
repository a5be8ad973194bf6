"""C28 struct-wide option defaults apply exactly where no explicit option was given."""
from scn import *

BOUNDS = {"quick": "every field type with a byte order or an encoding, every combination of explicit option (absent or either value), option default "
                   "qualified with the type's name, unqualified one and defaults for other types, in both declaration styles; parent, child and "
                   "sibling classes, nested structs, constants, null values and default values; every value within the bounds of the kinds"}
OUTSIDE = ("options other than byte order and encoding (no field supports them as defaults); element fields of arrays and choices of unions; "
           "None as an explicit option; codecs other than those listed")
ASSUMPTIONS = []
COVERS = {}

OTHER = {"big": "little", "little": "big"}


def ends(cls, size, signed):
    lo, hi = int_range(size, signed)
    return (cls, lambda rt, n: rt.int(n, lo, hi), lambda rt, v, e: ref_int_bytes(rt, v, size, e), lambda rt, a, b, m: rt.check(a == b, m))


def floats(cls, width):
    k = float_kind(cls, cls, width, "big")
    return (cls, k.val, lambda rt, v, e: ref_int_bytes(rt, rt.ieee_narrow(v, width)[0], width // 8, e), k._same)


def stamps(cls, size):
    k = ts_kind(cls, cls, size, "big", 1000000)
    return (cls, k.val, lambda rt, v, e: k.ref(rt, v) if e == "big" else k.ref(rt, v)[::-1], lambda rt, a, b, m: rt.same(a, b, m))


class MyInt(fields.UInt16):
    pass


ENDIAN = {
    "Int16": ends("Int16", 2, True), "UInt16": ends("UInt16", 2, False), "Int32": ends("Int32", 4, True), "UInt32": ends("UInt32", 4, False),
    "Int64": ends("Int64", 8, True), "UInt64": ends("UInt64", 8, False), "Int8": ends("Int8", 1, True), "UInt8": ends("UInt8", 1, False),
    "Integer": ends("Integer", 3, True), "UnsignedInteger": ends("UnsignedInteger", 5, False), "MyInt": ends("MyInt", 2, False),
    "Float16": floats("Float16", 16), "Float32": floats("Float32", 32), "Float64": floats("Float64", 64),
    "Timestamp32": stamps("Timestamp32", 4), "Timestamp64": stamps("Timestamp64", 8), "Timestamp": stamps("Timestamp", 6),
}
FIXED_ARGS = {"Integer": {"size": 3}, "UnsignedInteger": {"size": 5}, "Timestamp": {"size": 6, "tz_aware": True, "resolution": "s"},
              "Timestamp32": {"tz_aware": True, "resolution": "s"}, "Timestamp64": {"tz_aware": True, "resolution": "s"}}
PARENTS = {"UInt16": "Int16", "UInt32": "Int32", "UInt64": "Int64", "MyInt": "UInt16", "UInt8": "Int8", "UnsignedInteger": "Integer"}
SHORT = ["UInt16", "Int32", "Integer", "Float32", "Timestamp64"]


def new(name, **kw):
    cls = MyInt if name == "MyInt" else getattr(fields, name)
    return cls(**FIXED_ARGS.get(name, {}), **kw)


def meta_class(d):
    return type("Meta", (), {"argument_defaults": d})


def declare(style, items, meta, base=binobj.Struct, name="S"):
    ns = {} if meta is None else {"Meta": meta_class(meta)}
    if style == "dc":
        ns["__annotations__"] = dict(items)
        return binobj.dataclass(type(name, (base,), ns))
    ns.update(dict(items))
    return type(name, (base,), ns)


def effective(name, explicit, meta):
    if explicit is not None:
        return explicit
    return meta.get(name + "__endian", meta.get("endian", sys.byteorder))


@case([(n, ex, ty, ge, st) for n in ENDIAN for ex in (None, "big", "little") for ty in (None, "big", "little") for ge in (None, "big", "little")
       for st in ("assign", "dc") if (ty is None or ge is None or ty != ge or n in SHORT)])
def precedence(rt, cfg):
    """explicit, then qualified with the type's name, then unqualified, then the platform's"""
    name, ex, ty, ge, style = cfg
    _, gen, ref, same = ENDIAN[name]
    meta = {}
    if ge is not None:
        meta["endian"] = ge
    if ty is not None:
        meta[name + "__endian"] = ty
    before = dict(meta)
    kw = {} if ex is None else {"endian": ex}
    end = effective(name, ex, meta)
    S = declare(style, [("h", fields.Bytes(size=1)), ("x", new(name, **kw)), ("t", fields.StringZ())], meta)
    v = gen(rt, "v")
    raw = b"h" + ref(rt, v, end) + b"t\0"
    rt.eq(S(h=b"h", x=v, t="t").to_bytes(), raw, "dump")
    same(rt, S.from_bytes(raw).x, v, "load")
    same(rt, S.get_field(io.BytesIO(raw), "x"), v, "get_field")
    rt.eq(S.x.to_bytes(v), raw[1:-2], "dump of the field")
    rt.check(S.x.endian == end, "option of the field")
    rt.check(meta == before and S.Meta.argument_defaults is meta, "the options given")


@case([(n, m, st) for n in ENDIAN for m in ("parent_type", "child_type", "lower", "prefix", "suffix", "other", "field_name", "encoding", "one_underscore")
       for st in ("assign", "dc")])
def unrelated(rt, cfg):
    """defaults qualified with other names do not apply"""
    name, what, style = cfg
    _, gen, ref, same = ENDIAN[name]
    wrong = OTHER[sys.byteorder]
    key = {"parent_type": PARENTS.get(name, "Field") + "__endian", "child_type": "My" + name + "__endian", "lower": name.lower() + "__endian",
           "prefix": "fields." + name + "__endian", "suffix": name + "__endianness", "other": ("StringZ" if name != "StringZ" else "Bytes") + "__endian",
           "field_name": "x__endian", "encoding": "encoding", "one_underscore": name + "_endian"}[what]
    S = declare(style, [("x", new(name)), ("y", new(name, endian="big"))], {key: wrong})
    T = declare(style, [("x", new(name)), ("y", new(name, endian="big"))], {key: wrong, "endian": "little"})
    v, w = gen(rt, "v"), gen(rt, "w")
    for cls, e in ((S, sys.byteorder), (T, "little")):
        raw = ref(rt, v, e) + ref(rt, w, "big")
        rt.eq(cls(x=v, y=w).to_bytes(), raw, "dump")
        s = cls.from_bytes(raw)
        same(rt, s.x, v, "load")
        same(rt, s.y, w, "load")


@case([(a, b, st) for a in SHORT for b in SHORT if a != b for st in ("assign", "dc")])
def several_types(rt, cfg):
    """each type gets its own default"""
    a, b, style = cfg
    va, vb, vc, vd = (ENDIAN[n][1](rt, q) for n, q in ((a, "a"), (b, "b"), (a, "c"), (b, "d")))
    other = OTHER[sys.byteorder]
    metas = [({a + "__endian": "big", b + "__endian": "little"}, "big", "little"), ({a + "__endian": "little", "endian": "big"}, "little", "big"),
             ({b + "__endian": other}, sys.byteorder, other), ({}, sys.byteorder, sys.byteorder)]
    for meta, ea, eb in metas:
        S = declare(style, [("a", new(a)), ("b", new(b)), ("c", new(a, endian=other)), ("d", new(b, endian="big"))], meta)
        raw = ENDIAN[a][2](rt, va, ea) + ENDIAN[b][2](rt, vb, eb) + ENDIAN[a][2](rt, vc, other) + ENDIAN[b][2](rt, vd, "big")
        rt.eq(S(a=va, b=vb, c=vc, d=vd).to_bytes(), raw, "dump")
        s = S.from_bytes(raw)
        for q, n, v in (("a", a, va), ("b", b, vb), ("c", a, vc), ("d", b, vd)):
            ENDIAN[n][3](rt, s[q], v, "load")


ENCODINGS = ["iso-8859-1", "utf-8", "utf-16-le", "utf-16-be", "ascii"]


@case([(f, ex, ty, ge, st) for f in ("StringZ", "String") for ex in (None, "utf-16-be", "utf-8") for ty in (None, "utf-16-le", "utf-8", "ascii")
       for ge in (None, "utf-16-be", "utf-8") for st in ("assign", "dc")])
def encodings(rt, cfg):
    """the same for the encoding of strings"""
    name, ex, ty, ge, style = cfg
    meta = {}
    if ge is not None:
        meta["encoding"] = ge
    if ty is not None:
        meta[name + "__encoding"] = ty
    meta[("StringZ" if name == "String" else "String") + "__encoding"] = "utf-32-le"
    enc = ex if ex is not None else ty if ty is not None else ge if ge is not None else "iso-8859-1"
    kw = {} if ex is None else {"encoding": ex}
    s = rt.text("s", 2, 1, 0x7F if enc == "ascii" else 0xFF)
    body = ref_encode(rt, s, enc)
    if name == "String":
        kw["size"] = len(body)
        raw = body
    else:
        raw = body + (b"\0\0" if enc.startswith("utf-16") else b"\0")
    S = declare(style, [("x", getattr(fields, name)(**kw)), ("t", fields.UInt8())], meta)
    rt.eq(S(x=s, t=1).to_bytes(), raw + b"\x01", "dump")
    rt.check(len(S(x=s, t=1)) == len(raw) + 1, "length")
    got = S.from_bytes(raw + b"\x01")
    rt.same(got.x, s, "load")
    rt.check(got.t == 1, "the field after")
    rt.check(S.x.encoding == enc, "option of the field")


@case([(k, st, d) for k in ("bytes3", "uuid2", "vlq", "uleb", "leb", "compact", "arr3", "nest", "nestvar", "uuidc", "bytes0") for st in ("assign", "dc")
       for d in ("big", "little")])
def immune(rt, cfg):
    """fields without these options work as ever"""
    kind, style, end = cfg
    k = KINDS[kind]
    v = k.val(rt, "v")
    S = declare(style, [("x", k.field()), ("t", fields.UInt16())], {"endian": end, "encoding": "utf-16-le", "signed": True, "size": 1, "stored_as": None,
                                                                  "VariableLengthInteger__endian": end, "vli_format": None, "count": 9})
    raw = k.ref(rt, v) + (b"\x01\x02" if end == "big" else b"\x02\x01")
    rt.eq(S(x=v, t=258).to_bytes(), raw, "dump")
    s = S.from_bytes(raw)
    k.same(rt, s.x, v, "load")
    rt.check(s.t == 258, "the field after")


METAS = {"none": None, "big": {"endian": "big"}, "little": {"endian": "little"}, "typed": {"UInt32__endian": "big", "endian": "little"}, "empty": {}}


@case([(p, c, sp, sc) for p in METAS for c in METAS for sp in ("assign", "dc") for sc in ("assign", "dc")])
def classes(rt, cfg):
    """parents, children, siblings and nested structs keep their own options"""
    p, c, sp, sc = cfg
    pm, cm = METAS[p], METAS[c]
    a, b, x = rt.int("a", 0, 2 ** 32 - 1), rt.int("b", 0, 65535), rt.int("x", -2 ** 31, 2 ** 31 - 1)

    def end(n, meta):
        return effective(n, None, meta or {})
    P = declare(sp, [("a", fields.UInt32())], pm, name="P")
    one = ref_int_bytes(rt, a, 4, end("UInt32", pm))
    rt.eq(P(a=a).to_bytes(), one, "parent before")
    C = declare(sc, [("b", fields.UInt16()), ("c", fields.UInt32()), ("n", fields.Nested(make(("x", fields.Int32()), name="N")))], cm, base=P, name="C")
    D = declare(sc, [("d", fields.UInt16())], {"endian": "little"}, base=P, name="D")
    E = declare(sc, [("e", fields.UInt16())], None, name="E")
    own = pm if cm is None else cm
    raw = one + ref_int_bytes(rt, b, 2, end("UInt16", own)) + ref_int_bytes(rt, a, 4, end("UInt32", own)) + ref_int_bytes(rt, x, 4, sys.byteorder)
    rt.eq(C(a=a, b=b, c=a, n={"x": x}).to_bytes(), raw, "child")
    s = C.from_bytes(raw)
    rt.check(s.a == a and s.b == b and s.c == a and s.n.x == x, "child load")
    rt.eq(P(a=a).to_bytes(), one, "parent after")
    rt.check(P.from_bytes(one).a == a, "parent load")
    rt.eq(D(a=a, d=b).to_bytes(), one + ref_int_bytes(rt, b, 2, "little"), "sibling")
    rt.eq(E(e=b).to_bytes(), ref_int_bytes(rt, b, 2, sys.byteorder), "another struct")
    F = declare(sp, [("f", fields.Int16()), ("g", fields.UInt32())], None, base=C, name="F")
    rt.eq(F(a=a, b=b, c=a, n={"x": x}, f=5, g=a).to_bytes(), raw + ref_int_bytes(rt, 5, 2, end("Int16", own)) + ref_int_bytes(rt, a, 4, end("UInt32", own)),
          "grandchild")


@case([(w, n, st, e) for w in ("const", "default", "null", "nullbytes", "present", "discard", "validate", "array", "union", "computed", "size", "count")
       for n in ("UInt16", "Int32", "Float32", "StringZ") for st in ("assign", "dc") for e in ("big", "little")
       if n == "UInt16" or w in ("const", "default", "null", "present", "discard", "validate")])
def with_options(rt, cfg):
    """the other options of the field see the default, too"""
    what, name, style, end = cfg
    enc = {"big": "utf-16-be", "little": "utf-16-le"}[end]
    meta = {"endian": end, "encoding": enc}
    if name == "StringZ":
        kind = strz_kind("q", "utf-16-le", 2, (1,))
        gen, ref = kind.val, lambda rt, v, e: ref_encode(rt, v, enc) + b"\0\0"
        same, cv, nul = lambda rt, p, q, m: rt.same(p, q, m), "ab", "\u0141"
    else:
        _, gen, ref, same = ENDIAN[name]
        cv, nul = (0.5, 2.0) if name == "Float32" else (258, 772)
    v = gen(rt, "v")
    mk = lambda **kw: getattr(fields, name)(**kw)  # noqa: E731
    refc = ref(rt, cv, end)
    seen = []
    if what == "const":
        S = declare(style, [("x", mk(const=cv)), ("t", fields.UInt8())], meta)
        rt.eq(S(t=1).to_bytes(), refc + b"\x01", "dump")
        rt.check(S.get_size() == len(refc) + 1 and S.t.offset == len(refc), "size")
        rt.check(S.from_bytes(refc + b"\x01").x == cv, "load")
        return
    if what in ("array", "union"):
        u = mk(endian=end)
        f = fields.Array(u, count=1) if what == "array" else fields.Union(u, load_decider=lambda st, c, x, f: c[0], dump_decider=lambda d, c, x, f: c[0])
        S = declare(style, [("x", f), ("t", fields.UInt16())], {"endian": OTHER[end]})
        rt.eq(S(x=[v] if what == "array" else v, t=258).to_bytes(), ref(rt, v, end) + ref(rt, 258, OTHER[end]), "explicit option of an inner field")
        return
    if what in ("size", "count"):
        n = fields.UInt16()
        f = fields.Bytes(size=n) if what == "size" else fields.Array(fields.UInt8(), count=n)
        S = declare(style, [("n", n), ("x", f)], meta)
        raw = ref(rt, 2, end) + b"ab"
        rt.eq(S(n=2, x=b"ab" if what == "size" else [97, 98]).to_bytes(), raw, "dump")
        rt.eq(S.from_bytes(raw).x, b"ab" if what == "size" else [97, 98], "load")
        return
    if what == "computed":
        n = fields.UInt16()
        n.computes(lambda self, f: f["y"])
        S = declare(style, [("n", n), ("y", fields.UInt16())], meta)
        rt.eq(S(y=v).to_bytes(), ref(rt, v, end) + ref(rt, v, end), "dump")
        return
    kw = {"default": {"default": cv}, "null": {"null_value": nul}, "nullbytes": {"null_value": b"\x01\x02"}, "present": {"present": lambda f, c, s: f["h"] == 1},
          "discard": {"discard": True}, "validate": {"validate": lambda f, q: seen.append(q)}}[what]
    S = declare(style, [("h", fields.UInt8()), ("x", mk(**kw)), ("t", fields.UInt8())], meta)
    raw = b"\x01" + ref(rt, v, end) + b"\x02"
    if what in ("null", "nullbytes"):
        rn = ref(rt, nul, end) if what == "null" else b"\x01\x02"
        rt.eq(S(h=1, x=None, t=2).to_bytes(), b"\x01" + rn + b"\x02", "dump of None")
        rt.check(S.from_bytes(b"\x01" + rn + b"\x02").x is None, "load of None")
        rt.assume(raw[1:-1] != rn)
    if what == "default":
        rt.eq(S(h=1, t=2).to_bytes(), b"\x01" + refc + b"\x02", "default")
    rt.eq(S(h=1, x=v, t=2).to_bytes(), raw, "dump")
    got = S.from_bytes(raw)
    if what == "discard":
        rt.check("x" not in [n for n in got], "discarded")
    else:
        same(rt, got.x, v, "load")
    if what == "validate":
        rt.check(len(seen) > 0, "validated")
        for q in seen:
            same(rt, q, v, "value given to the validator")
    if what == "present":
        rt.eq(S(h=0, t=2).to_bytes(), b"\0\x02", "absent")


@case(["no_dict", "later_change", "meta_subclass", "other_attrs"])
def odd_meta(rt, cfg):
    """Meta classes with other contents"""
    v = rt.int("v", 0, 65535)
    big, little = bytes([v >> 8, v & 255]), bytes([v & 255, v >> 8])
    if cfg == "no_dict":
        S = type("S", (binobj.Struct,), {"Meta": type("Meta", (), {}), "x": fields.UInt16()})
        rt.eq(S(x=v).to_bytes(), little if sys.byteorder == "little" else big, "dump")
    elif cfg == "later_change":
        d = {"endian": "big"}
        S = type("S", (binobj.Struct,), {"Meta": meta_class(d), "x": fields.UInt16()})
        d["endian"] = "little"
        rt.eq(S(x=v).to_bytes(), big, "dump")
        T = type("T", (S,), {"y": fields.UInt16()})
        rt.eq(T(x=v, y=v).to_bytes()[:2], big, "dump of the inherited field")
    elif cfg == "meta_subclass":
        P = type("P", (binobj.Struct,), {"Meta": meta_class({"endian": "big"}), "x": fields.UInt16()})
        C = type("C", (P,), {"Meta": type("Meta", (P.Meta,), {}), "y": fields.UInt16()})
        rt.eq(C(x=v, y=v).to_bytes(), big + big, "dump")
    else:
        S = type("S", (binobj.Struct,), {"Meta": type("Meta", (), {"argument_defaults": {"endian": "big"}, "endian": "little", "UInt16__endian": "little"}),
                                         "x": fields.UInt16()})
        rt.eq(S(x=v).to_bytes(), big, "dump")


class Affine(fields.Field):
    """A user's field type with several options that have struct-wide defaults."""

    __overrideable_attributes__ = ("factor", "shift", "order")

    def __init__(self, *, factor=1, shift=4, order="big", **kw):
        super().__init__(size=2, **kw)
        self.factor, self.shift, self.order = factor, shift, order

    def _do_dump(self, stream, data, context, all_fields):
        stream.write(ref_int_bytes(None, (data * self.factor + self.shift) & 0xFFFF, 2, self.order))

    def _do_load(self, stream, context, loaded_fields):
        return self._read_exact_size(stream, loaded_fields)


@case([(e, s) for e in range(8) for s in ("flat", "dc", "split")])
def several_options(rt, cfg):
    """a field type with several such options: each is decided on its own"""
    mask, style = cfg
    explicit = {n: v for i, (n, v) in enumerate((("factor", 3), ("shift", 0), ("order", "big"))) if mask >> i & 1}
    meta = {}
    for n, plain, typed in (("factor", 7, 0), ("shift", 0, 17), ("order", "little", "big")):
        how = rt.choice(n, ("none", "plain", "typed", "both"))
        if how in ("plain", "both"):
            meta[n] = plain
        if how in ("typed", "both"):
            meta["Affine__" + n] = typed
    want = {"factor": 1, "shift": 4, "order": "big"}
    for n in want:
        want[n] = explicit.get(n, meta.get("Affine__" + n, meta.get(n, want[n])))
    items = [("a", fields.UInt8()), ("x", Affine(**explicit)), ("b", fields.UInt8())]
    M = meta_class(meta)
    if style == "flat":
        S = type("S", (binobj.Struct,), {"Meta": M, **dict(items)})
    elif style == "dc":
        S = binobj.dataclass(type("S", (binobj.Struct,), {"Meta": M, "__annotations__": dict(items)}))
    else:
        P = type("P", (binobj.Struct,), {"Meta": M, **dict(items[:1])})
        S = type("S", (P,), dict(items[1:]))
    v = rt.int("v", 0, 65535)
    rt.eq(S(a=1, x=v, b=2).to_bytes(),
          b"\x01" + ref_int_bytes(rt, (v * want["factor"] + want["shift"]) & 0xFFFF, 2, want["order"]) + b"\x02", "dump")
