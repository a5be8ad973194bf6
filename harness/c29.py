"""C29 annotation-declared structs behave exactly like assignment-declared ones."""
import typing

from scn import *

BOUNDS = {"quick": "every field kind as instance and every field class that needs no argument as class, plain, Annotated (with other metadata around), "
                   "Optional and `| None`, with and without default value; instances that have options of their own; struct classes of every scenario; pairs of forms; every scenario layout; "
                   "inheritance between both styles in all combinations; field, method and struct validators; every value within the bounds of the kinds "
                   "and arbitrary input bytes"}
OUTSIDE = ("string annotations; Optional around Annotated; None inside the first argument of Annotated; callables as default values; default values for "
           "constant fields")
ASSUMPTIONS = ["a default value is valid for its field"]
COVERS = {"arbitrary": ["loaded", "refused"], "validators": ["accepted", "rejected"]}

U8 = fields.UInt8
Opt, Ann = typing.Optional, typing.Annotated


def attempt(fn):
    try:
        return fn()
    except (errors.Error, KeyError, ValueError, TypeError, AttributeError) as e:
        return type(e)


def dc(ann, extra=None, base=binobj.Struct, name="S", meta=None):
    ns = dict(extra or {})
    ns["__annotations__"] = dict(ann)
    if meta is not None:
        ns["Meta"] = type("Meta", (), {"argument_defaults": meta})
    return binobj.dataclass(type(name, (base,), ns))


def same_class(rt, D, A, names):
    """Sizes, offsets and positions."""
    rt.check(D.get_size() == A.get_size(), "class size")
    for n in names:
        d, a = getattr(D, n), getattr(A, n)
        rt.check(type(d) is type(a), "field type")
        rt.check(d.name == a.name == n and d.index == a.index, "name and index")
        rt.check(d.offset == a.offset and d.has_fixed_size == a.has_fixed_size, "offset")
        rt.check((d.size == a.size) or not d.has_fixed_size, "field size")


def outcome(rt, a, b, msg):
    if isinstance(a, type) or isinstance(b, type):
        rt.check(a is b, msg + ": outcomes differ")
    else:
        rt.eq(a, b, msg)


def same_behaviour(rt, D, A, args, names, ctx=None, tag=""):
    """Every operation with the same arguments has the same outcome; returns the bytes or the error."""
    x, y = attempt(lambda: D(**args).to_bytes(ctx)), attempt(lambda: A(**args).to_bytes(ctx))
    outcome(rt, x, y, tag + "to_bytes")
    if ctx is None:
        outcome(rt, attempt(lambda: len(D(**args))), attempt(lambda: len(A(**args))), tag + "len")
        outcome(rt, attempt(lambda: D(**args).to_dict()), attempt(lambda: A(**args).to_dict()), tag + "to_dict")
    for n in names:
        outcome(rt, attempt(lambda: plain(D(**args)[n])), attempt(lambda: plain(A(**args)[n])), tag + "item " + n)
        p, q = io.BytesIO(), io.BytesIO()
        outcome(rt, attempt(lambda: D(**args).partial_dump(p, n, ctx)), attempt(lambda: A(**args).partial_dump(q, n, ctx)), tag + "partial_dump")
        rt.eq(p.getvalue(), q.getvalue(), tag + "partial_dump to " + n)
    return x


def plain(v):
    return v.to_dict(True) if isinstance(v, binobj.Struct) else v


def same_loading(rt, D, A, raw, names, ctx=None, tag=""):
    """Both load the same from these bytes; True if they load."""
    p, q = io.BytesIO(raw), io.BytesIO(raw)
    x, y = attempt(lambda: D.from_stream(p, ctx)), attempt(lambda: A.from_stream(q, ctx))
    if isinstance(x, type) or isinstance(y, type):
        rt.check(x is y, tag + "load: outcomes differ")
    else:
        rt.check(p.tell() == q.tell(), tag + "load: position")
        rt.check([n for n in x] == [n for n in y], tag + "load: fields")
        for n in x:
            outcome(rt, plain(x[n]), plain(y[n]), tag + "load: " + n)
    for n in names:
        p.seek(0)
        q.seek(0)
        outcome(rt, attempt(lambda: plain(D.get_field(p, n, ctx))), attempt(lambda: plain(A.get_field(q, n, ctx))), tag + "get_field " + n)
    p.seek(0)
    q.seek(0)
    u, w = attempt(lambda: D.partial_load(p, None, ctx)), attempt(lambda: A.partial_load(q, None, ctx))
    rt.check(isinstance(u, type) == isinstance(w, type) and (u is w or not isinstance(u, type)), tag + "partial_load: outcomes differ")
    if not isinstance(u, type):
        rt.check([n for n in u] == [n for n in w] and p.tell() == q.tell(), tag + "partial_load")
    return not isinstance(x, type)


# class -> (value generator, reference bytes)
CLASSES = {
    "UInt8": ("u8", None), "Int8": ("i8", None), "UInt16": (None, (2, False)), "Int16": (None, (2, True)), "UInt32": (None, (4, False)),
    "Int32": (None, (4, True)), "UInt64": (None, (8, False)), "Int64": (None, (8, True)), "StringZ": ("strz", None), "UUID4": ("uuid1", None),
    "Float32": ("f32l", None), "Float64": (None, None), "Timestamp32": (None, None),
}


def class_kind(name):
    kind, ints = CLASSES[name]
    if ints is not None:
        return int_kind(name, name, ints[0], ints[1], None)
    if name == "Float64":
        return float_kind(name, name, 64, "little")
    if name == "Timestamp32":
        def val(rt, n):
            # naive datetimes stand for local time, which is UTC here
            return rt.instant(rt.int(n, 0, 2 ** 31 - 1) * 1000000, UTC)
        return Kind(name, 4, None, val, lambda rt, v: ts_kind("t", "Timestamp32", 4, "little", 1000000).ref(rt, v))
    return KINDS[kind]


FORMS = ["plain", "annotated", "annotated_more", "optional", "bar", "default", "optional_default", "annotated_default", "none_default"]


def form(what, ann, d):
    """(annotation, default values in the class body, options of the equivalent field)"""
    if what == "plain":
        return ann, {}, {}
    if what == "annotated":
        return Ann[int, ann], {}, {}
    if what == "annotated_more":
        return Ann[str, "a note", ann, 12, list, None], {}, {}
    if what == "optional":
        return Opt[ann], {}, {"null_value": DEFAULT}
    if what == "bar":
        return ann | None, {}, {"null_value": DEFAULT}
    if what == "default":
        return ann, {"x": d}, {"default": d}
    if what == "optional_default":
        return Opt[ann], {"x": d}, {"default": d, "null_value": DEFAULT}
    if what == "annotated_default":
        return Ann[bytes, ann], {"x": d}, {"default": d}
    return Opt[ann], {"x": None}, {"default": None, "null_value": DEFAULT}


def exercise(rt, D, A, k, what, null_bytes, tail="t"):
    """Values, None and unset for the field x of both classes."""
    names = ["h", "x", "t"]
    same_class(rt, D, A, names)
    v = k.val(rt, "v")
    raw = same_behaviour(rt, D, A, {"h": 1, "x": v, "t": tail}, names)
    full = b"\x01" + k.ref(rt, v) + b"t\0"
    rt.eq(raw, full, "dump")
    same_behaviour(rt, D, A, {"h": 1, "t": tail}, names, tag="unset: ")
    got = same_behaviour(rt, D, A, {"h": 1, "x": None, "t": tail}, names, tag="None: ")
    if null_bytes is not None:
        if what in ("optional", "bar", "optional_default", "none_default"):
            rt.eq(got, b"\x01" + null_bytes + b"t\0", "None")
        else:
            rt.check(got is errors.UnserializableValueError, "None")
    if "default" in what:
        rt.check(not isinstance(attempt(lambda: D(h=1, t=tail)["x"]), type), "default")
    if what not in ("optional", "bar", "optional_default", "none_default"):
        rt.check(same_loading(rt, D, A, full, names), "load")
    elif null_bytes is not None:
        rt.check(same_loading(rt, D, A, b"\x01" + null_bytes + b"t\0", names), "load of None")
        rt.check(D.from_bytes(b"\x01" + null_bytes + b"t\0").x is None, "load of None")
        rt.check(same_loading(rt, D, A, full, names), "load")
    else:
        same_loading(rt, D, A, full, names)


@case([(n, f) for n in CLASSES for f in FORMS])
def by_class(rt, cfg):
    """field classes"""
    name, what = cfg
    k = class_kind(name)
    cls = getattr(fields, name)
    d = k.val(rt, "d") if "default" in what and what != "none_default" else None
    ann, body, kw = form(what, cls, d)
    D = dc({"h": fields.UInt8, "x": ann, "t": fields.StringZ}, body)
    A = make(("h", U8()), ("x", cls(**kw)), ("t", fields.StringZ()))
    rt.check(isinstance(D.x, cls), "the class attribute is the field")
    exercise(rt, D, A, k, what, None if k.size is None else b"\0" * k.size)


@case([(k, f) for k in ALL_KINDS for f in FORMS if f != "bar"])
def by_instance(rt, cfg):
    """field instances"""
    kind, what = cfg
    k = KINDS[kind]
    f = k.field()
    d = k.val(rt, "d") if "default" in what and what != "none_default" else None
    ann, body, kw = form(what, f, d)
    D = dc({"h": U8(), "x": ann, "t": fields.StringZ()}, body)
    A = make(("h", U8()), ("x", k.field(**kw)), ("t", fields.StringZ()))
    rt.check(D.x is f, "the class attribute is the field")
    exercise(rt, D, A, k, what, None if k.size in (None, 0) else b"\0" * k.size)


@case([(k, o, f) for k in ("u8", "bytes3", "strz", "u16b") for o in ("null_bytes", "null_value", "default", "factory", "discard", "const", "present")
       for f in FORMS if f not in ("bar", "annotated_default") and not (o == "const" and "default" in f)])
def with_options(rt, cfg):
    """a field instance keeps the options it has; the annotation only adds to them"""
    kind, opt, what = cfg
    k = KINDS[kind]
    c = {"u8": 7, "bytes3": b"abc", "strz": "abc", "u16b": 515}[kind]
    own = {"null_bytes": {"null_value": b"\xee\xdd"}, "null_value": {"null_value": c}, "default": {"default": c}, "factory": {"factory": lambda: c},
           "discard": {"discard": True}, "const": {"const": c}, "present": {"present": lambda f, *_: f["h"] % 2 == 0}}[opt]
    d = k.val(rt, "d") if "default" in what and what != "none_default" else None
    ann, body, kw = form(what, k.field(**own), d)
    both = {**own, **kw}
    if "null_value" in own:
        both["null_value"] = own["null_value"]
    if "default" in kw:
        both.pop("factory", None)
    D = dc({"h": U8(), "x": ann, "t": fields.StringZ()}, body)
    A = make(("h", U8()), ("x", k.field(**both)), ("t", fields.StringZ()))
    names = ["h", "x", "t"]
    same_class(rt, D, A, names)
    h, v = rt.choice("h", (1, 2)), k.val(rt, "v")
    if opt != "const":
        raw = same_behaviour(rt, D, A, {"h": h, "x": v, "t": "t"}, names)
        rt.check(not isinstance(raw, type), "dump")
    same_behaviour(rt, D, A, {"h": h, "t": "t"}, names, tag="unset: ")
    null = same_behaviour(rt, D, A, {"h": h, "x": None, "t": "t"}, names, tag="None: ")
    if opt == "null_bytes":
        rt.eq(null, bytes([h]) + b"\xee\xdd" + b"t\0", "None")
    for mid in (k.ref(rt, v), b"\xee\xdd", k.ref(rt, c), b"" if k.size is None else b"\0" * k.size):
        same_loading(rt, D, A, bytes([h]) + mid + b"t\0", names)


@case([(n, f) for n in ("in_fixed", "in_var", "in_default", "in_cond", "in_sized", "in_deep") for f in FORMS])
def by_struct(rt, cfg):
    """struct classes"""
    name, what = cfg
    mk = {"in_fixed": lambda: [("p", U8()), ("q", fields.UInt16(endian="big"))], "in_var": lambda: [("p", fields.StringZ()), ("q", U8())],
          "in_default": lambda: [("p", U8()), ("q", U8(default=3))], "in_cond": lambda: [("p", U8()), ("q", U8(present=lambda f, c, s: f["p"] > 99))],
          "in_sized": lambda: [("p", U8()), ("q", fields.Bytes(size="p"))],
          "in_deep": lambda: [("p", fields.Nested(make(("r", U8()), ("s", fields.Int8()), name="R")))]}[name]
    inner = make(*mk(), name="I")
    p, q = rt.int("p", 0, 99), rt.int("q", 0, 127)
    v = {"in_fixed": {"p": p, "q": q}, "in_var": {"p": "ab", "q": q}, "in_default": {"p": p}, "in_cond": {"p": p}, "in_sized": {"p": 2, "q": b"xy"},
         "in_deep": {"p": {"r": p, "s": q}}}[name]
    raw = {"in_fixed": bytes([p, 0, q]), "in_var": b"ab\0" + bytes([q]), "in_default": bytes([p, 3]), "in_cond": bytes([p]), "in_sized": b"\x02xy",
           "in_deep": bytes([p, q])}[name]
    ann, body, kw = form(what, inner, v)
    D = dc({"h": fields.UInt8, "x": ann, "t": fields.StringZ}, body)
    A = make(("h", U8()), ("x", fields.Nested(inner, **kw)), ("t", fields.StringZ()))
    names = ["h", "x", "t"]
    same_class(rt, D, A, names)
    rt.eq(same_behaviour(rt, D, A, {"h": 1, "x": v, "t": "t"}, names), b"\x01" + raw + b"t\0", "dump")
    rt.eq(same_behaviour(rt, D, A, {"h": 1, "x": inner(**v), "t": "t"}, names, tag="instance: "), b"\x01" + raw + b"t\0", "dump")
    same_behaviour(rt, D, A, {"h": 1, "t": "t"}, names, tag="unset: ")
    same_behaviour(rt, D, A, {"h": 1, "x": None, "t": "t"}, names, tag="None: ")
    same_behaviour(rt, D, A, {"h": 1, "x": 5, "t": "t"}, names, tag="no mapping: ")
    ok = same_loading(rt, D, A, b"\x01" + raw + b"t\0", names)
    rt.check(ok or "null_value" in kw and inner.get_size() is None, "load")
    if ok and "null_value" not in kw:
        rt.check(type(D.from_bytes(b"\x01" + raw + b"t\0").x) is inner, "type of the loaded struct")
    if inner.get_size() is not None and what in ("optional", "bar"):
        size = inner.get_size()
        rt.eq(D(h=1, x=None, t="t").to_bytes(), b"\x01" + b"\0" * size + b"t\0", "None")


@case([(a, b, fa, fb) for a in ("u8", "strz", "nest", "bytes3", "vlq") for b in ("u16b", "strz16", "arr3", "nestvar")
       for fa in ("plain", "default", "optional", "annotated_more") for fb in ("plain", "optional_default")])
def pairs(rt, cfg):
    """several fields: the form of one does not affect the other"""
    a, b, fa, fb = cfg
    ka, kb = KINDS[a], KINDS[b]
    da, db = ka.val(rt, "da"), kb.val(rt, "db")
    anna, ba, kwa = form(fa, ka.field(), da)
    annb, bb, kwb = form(fb, kb.field(), db)
    body = {}
    if "x" in ba:
        body["x"] = ba["x"]
    if "x" in bb:
        body["y"] = bb["x"]
    D = dc({"x": anna, "n": int, "y": annb, "z": fields.UInt8}, body)
    A = make(("x", ka.field(**kwa)), ("y", kb.field(**kwb)), ("z", U8()))
    names = ["x", "y", "z"]
    same_class(rt, D, A, names)
    va, vb = ka.val(rt, "va"), kb.val(rt, "vb")
    raw = ka.ref(rt, va) + kb.ref(rt, vb) + b"\x04"
    rt.eq(same_behaviour(rt, D, A, {"x": va, "y": vb, "z": 4}, names), raw, "dump")
    same_loading(rt, D, A, raw, names)
    for args in ({"z": 4}, {"x": va, "z": 4}, {"y": vb, "z": 4}, {"x": va, "y": None, "z": 4}, {"x": None, "y": vb, "z": 4}, {"x": va, "y": vb}):
        same_behaviour(rt, D, A, args, names, tag=f"{sorted(args)}: ")


@case([(n, s) for n in NAMES if n != "empty" for s in ("whole", "dc_on_assign", "assign_on_dc", "dc_on_dc", "chain")])
def layouts(rt, cfg):
    """every scenario, and inheritance between the styles"""
    name, how = cfg
    s1, s2 = scenario(name), scenario(name)
    A = s2.cls()
    e = list(s1.env().items())
    n = len(e)
    if how == "whole":
        D = dc(dict(e), meta=s1.meta)
    elif how == "chain":
        D = binobj.Struct
        for i, (q, f) in enumerate(e):
            D = dc({q: f}, base=D, meta=s1.meta) if i % 2 == 0 else make((q, f), base=D, meta=s1.meta)
    else:
        at = (n + 1) // 2
        first, second = e[:at], e[at:]
        P = make(*first, meta=s1.meta) if how == "dc_on_assign" else dc(dict(first), meta=s1.meta)
        if not second:
            D = make(base=P)
        else:
            D = make(*second, base=P, meta=s1.meta) if how == "assign_on_dc" else dc(dict(second), base=P, meta=s1.meta)
    vals = s1.vals(rt)
    same_class(rt, D, A, s1.names)
    for q in s1.names:
        rt.check(getattr(D, q).offset == s1.fixed_offset(q), "offset")
    rt.check(D.get_size() == s1.fixed_size(), "class size")
    assign = {q: (v.to_dict(True) if isinstance(v, binobj.Struct) else v) for q, v in vals.assign.items()}
    rt.eq(same_behaviour(rt, D, A, assign, s1.names, ctx=s1.ctx), vals.bytes, "dump")
    s1.same(rt, D.from_bytes(vals.bytes, s1.ctx), vals, "load")
    same_loading(rt, D, A, vals.bytes, s1.names, ctx=s1.ctx)


ARB = ["all_fixed", "fixed_var_fixed", "sized_obj", "counted_name", "const", "cond", "null_val", "null_bytes", "null_default", "nest_map",
       "arr_halt", "discard", "first_var", "cond_npv"]


@case([(n, k) for n in ARB for k in (0, 1, 3, 5)])
def arbitrary(rt, cfg):
    """arbitrary input bytes load the same way or are refused the same way"""
    name, size = cfg
    s1, s2 = scenario(name), scenario(name)
    D, A = s1.dc_cls(), s2.cls()
    raw = rt.bytes("raw", size)
    rt.cover("loaded" if same_loading(rt, D, A, raw, []) else "refused")


@case([(s, i) for s in ("field", "method", "multi", "struct", "two", "all") for i in ("alone", "on_assign", "on_dc", "below")])
def validators(rt, cfg):
    """validators run the same way"""
    sort, inherit = cfg
    bad, x, y = rt.int("bad", 0, 255), rt.int("x", 0, 255), rt.int("y", 0, 255)
    calls = []

    def build(tag, style):
        def note(what):
            def fn(*a):
                val = a[-1]
                calls.append((tag, what, [val["x"], val["y"]] if what == "struct" else val))
                if what != "struct" and rt.holds(val == bad):
                    raise errors.ValidationError(field=None, value=val)
            return fn
        kx = {"validate": note("x")} if sort in ("field", "all") else {"validate": [note("x"), note("x2")]} if sort == "two" else {}
        extra = {}
        if sort in ("method", "all"):
            m = note("mx")
            extra["mx"] = validates("x")(lambda self, f, v: m(v))
        if sort in ("multi", "all"):
            m2 = note("mxy")
            extra["mxy"] = validates("x", "y")(lambda self, f, v: m2(v))
        if sort in ("struct", "all"):
            m3 = note("struct")
            extra["st"] = validates_struct(lambda self, v: m3(v))
        items = [("x", U8(**kx)), ("y", U8(**kx))]
        if inherit == "alone":
            return dc(dict(items), extra) if style == "dc" else make(*items, *extra.items())
        if inherit == "below":
            P = dc(dict(items), extra) if style == "dc" else make(*items, *extra.items())
            return dc({"z": U8()}, {"z": 9}, base=P) if style == "dc" else make(("z", U8(default=9)), base=P)
        first = [items[0]]
        P = make(*first) if style != "dc" or inherit == "on_assign" else dc(dict(first))
        return dc({"y": items[1][1]}, extra, base=P) if style == "dc" else make(items[1], *extra.items(), base=P)
    D, A = build("dc", "dc"), build("assign", "assign")
    raw = bytes([x, y]) + (b"\x09" if inherit == "below" else b"")
    for op in ("dump", "load", "validate", "set"):
        outs = []
        for cls in (D, A):
            del calls[:]
            if op == "dump":
                r = attempt(lambda: cls(x=x, y=y).to_bytes())
            elif op == "load":
                r = attempt(lambda: cls.from_bytes(raw))
            elif op == "validate":
                r = attempt(lambda: cls(x=x, y=y).validate_contents())
            else:
                r = attempt(lambda: cls(y=y).__setitem__("x", x))
            outs.append((r if isinstance(r, type) else "ok", [(w, v) for _, w, v in calls]))
        rt.check(outs[0][0] == outs[1][0], op + ": outcome")
        rt.check(len(outs[0][1]) == len(outs[1][1]), op + ": number of validator calls")
        for p, q in zip(outs[0][1], outs[1][1]):
            rt.check(p[0] == q[0], op + ": order of validators")
            rt.eq(p[1], q[1], op + ": values given to validators")
        if op == "dump":
            rt.cover("accepted" if outs[0][0] == "ok" else "rejected")
    if sort != "struct" and not (sort == "method" and False):
        if rt.holds(x == bad):
            rt.raises((errors.ValidationError,), lambda: D(x=x, y=y).to_bytes(), "dump")


@case(["mixed", "mixed_after", "none", "no_fields", "not_fields", "union", "union_bar", "two_annotated", "two_annotated_struct", "empty_child", "twice"])
def refused(rt, cfg):
    """mixing styles, declaring nothing and ambiguous annotations are refused"""
    v = rt.int("v", 0, 255)
    inner = inner_class()
    P = dc({"a": U8()}, name="P")
    conf = errors.ConfigurationError
    acts = {
        "mixed": (errors.MixedDeclarationsError, lambda: dc({"a": fields.UInt8}, {"b": U8()})),
        "mixed_after": (errors.MixedDeclarationsError, lambda: dc({"b": fields.UInt8}, {"c": fields.StringZ()}, base=P)),
        "none": (errors.NoDefinedFieldsError, lambda: binobj.dataclass(type("S", (binobj.Struct,), {}))),
        "no_fields": (errors.NoDefinedFieldsError, lambda: dc({})),
        "not_fields": (errors.NoDefinedFieldsError, lambda: dc({"a": int, "b": Opt[str], "c": Ann[bytes, "note"]}, {"a": 1})),
        "union": (errors.InvalidTypeAnnotationError, lambda: dc({"a": typing.Union[fields.UInt8, fields.StringZ]})),
        "union_bar": (errors.InvalidTypeAnnotationError, lambda: dc({"a": fields.UInt8 | fields.StringZ | None})),
        "two_annotated": (conf, lambda: dc({"a": Ann[int, fields.UInt8, fields.UInt16]})),
        "two_annotated_struct": (conf, lambda: dc({"a": Ann[int, U8(), inner]})),
        "empty_child": (errors.NoDefinedFieldsError, lambda: dc({}, base=P)),
        "twice": (errors.MixedDeclarationsError, lambda: binobj.dataclass(P)),
    }
    exc, act = acts[cfg]
    rt.raises((exc,), act, "not refused")
    rt.eq(P(a=v).to_bytes(), bytes([v]), "the other struct")


@case(["between", "default", "classvar", "methods", "struct_between", "parent"])
def ignored(rt, cfg):
    """annotations that are no fields are left alone"""
    v, w = rt.int("v", 0, 255), rt.int("w", 0, 255)
    if cfg == "between":
        D = dc({"n": int, "a": fields.UInt8, "m": Opt[str], "b": U8(), "k": Ann[int, "doc"]})
    elif cfg == "default":
        D = dc({"n": int, "a": fields.UInt8, "b": U8()}, {"n": 12})
        rt.check(D.n == 12 and D(a=v, b=w).n == 12, "class attribute")
    elif cfg == "classvar":
        D = dc({"n": typing.ClassVar[int], "a": fields.UInt8, "b": U8()}, {"n": 12})
        rt.check(D.n == 12, "class attribute")
    elif cfg == "methods":
        D = dc({"a": fields.UInt8, "b": U8()}, {"total": lambda self: self.a + self.b, "both": property(lambda self: (self.a, self.b))})
        rt.check(D(a=v, b=w).total() == v + w and D(a=v, b=w).both == (v, w), "method")
    elif cfg == "parent":
        D = dc({"x": int, "b": U8()}, base=dc({"a": fields.UInt8, "y": str}))
    else:
        D = dc({"a": fields.UInt8, "q": list, "b": U8()})
    A = make(("a", U8()), ("b", U8()))
    same_class(rt, D, A, ["a", "b"])
    rt.eq(same_behaviour(rt, D, A, {"a": v, "b": w}, ["a", "b"]), bytes([v, w]), "dump")
    same_loading(rt, D, A, bytes([v, w]), ["a", "b"])
    for n in "nmkqxy":
        rt.raises((errors.UnexpectedValueError,), lambda: D(**{n: 1}), "no such field")


@case([(a, b) for a in ("D", "A") for b in ("D", "A")])
def equality(rt, cfg):
    """instances of both styles compare by their values"""
    x, y = rt.int("x", 0, 255), rt.int("y", 0, 255)
    D, A = dc({"a": U8(), "s": fields.StringZ()}), make(("a", U8()), ("s", fields.StringZ()))
    p, q = (D if cfg[0] == "D" else A)(a=x, s="q"), (D if cfg[1] == "D" else A)(a=y, s="q")
    rt.check((p == q) == rt.holds(x == y), "equality")
    rt.check((q == {"a": x, "s": "q"}) == rt.holds(x == y), "equality with a mapping")
