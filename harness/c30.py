"""C30 struct instances behave as a consistent mapping, with matching equality."""
from scn import *

from binobj.structures import MutableStructMappingProxy, StructMappingProxy

BOUNDS = {"quick": "every sequence of up to 3 (quick) or 4 (thorough) operations (set by attribute or item, delete) from an empty, a full or a loaded struct "
                   "with required, default, factory, constant, computed, nested, array, nullable and discarded fields, everything read after every "
                   "operation; equality of every field kind and scenario with symbolic values on both sides; every value within the bounds"}
OUTSIDE = ("NaN; equality of structs holding nested structs with missing values; fields explicitly set to UNDEFINED or NOT_PRESENT; conversion to "
           "containers that ask for the length first (list(struct))")
ASSUMPTIONS = ["equality compares the assigned values"]
COVERS = {"operations": ["complete", "incomplete"], "equal": ["equal", "different"], "validated_set": ["accepted", "rejected"]}

U8 = fields.UInt8
MISS = (errors.MissingRequiredValueError,)


def struct_class():
    k = U8()
    inner = make(("p", U8()), ("q", U8(default=2)), name="Inner")
    return make(("a", U8()), ("s", fields.StringZ()), ("d", fields.UInt16(default=77, endian="big")), ("f", U8(factory=lambda: 5)), ("c", U8(const=9)), ("k", k),
                ("n", fields.Nested(inner)), ("l", fields.Array(U8())), ("z", fields.Bytes(size=1, default=b"z", discard=True)), ("o", U8(null_value=255)),
                ("fn", k.computes(lambda self, v: v["a"] ^ 1))), inner


FIELDS = ["a", "s", "d", "f", "c", "k", "n", "l", "z", "o"]
OPS = [(o, f) for f in FIELDS for o in ("set", "del")]
SETTABLE = [f for f in FIELDS if f not in "ck"]


def new_value(rt, f, i):
    n = f"{f}{i}"
    if f in "af":
        return rt.int(n, 0, 255)
    if f == "s":
        return rt.text(n, 1, 1, 255)
    if f == "d":
        return rt.int(n, 0, 65535)
    if f == "n":
        return {"p": rt.int(n, 0, 255), "q": 3}
    if f == "l":
        return [rt.int(n, 0, 255), 8]
    if f == "z":
        return rt.bytes(n, 1)
    return rt.int(n, 0, 254) if i % 2 else None


def expected(model, f):
    """The value a field has, or UNSET."""
    if f in model:
        return model[f]
    fixed = {"d": 77, "f": 5, "c": 9, "z": b"z"}
    if f in fixed:
        return fixed[f]
    if f == "k" and "a" in model:
        return model["a"] ^ 1
    return UNSET


def consistent(rt, s, model, inner, msg):
    """Every way to read the struct agrees with the model."""
    complete = True
    for f in FIELDS:
        want = expected(model, f)
        if want is UNSET:
            complete = False
            rt.raises(MISS, lambda: s[f], f"{msg}: item {f} is missing")
            rt.raises(MISS, lambda: getattr(s, f), f"{msg}: attribute {f} is missing")
        else:
            got = s[f]
            rt.eq(plain(got), plain(want), f"{msg}: item {f}")
            rt.eq(plain(getattr(s, f)), plain(want), f"{msg}: attribute {f}")
            if f in model:
                rt.check(got is model[f] or f in "af" or got == model[f], f"{msg}: {f} is what was assigned")
    names = [n for n in s]
    rt.check(sorted(names) == sorted(model), msg + ": iteration")
    for f in FIELDS:
        rt.check((f in names) == (f in model), msg + ": membership")
    proxy = StructMappingProxy(s)
    rt.check([n for n in proxy] == names, msg + ": proxy iteration")
    if complete:
        want = {f: plain(expected(model, f)) for f in FIELDS}
        full = s.to_dict(keep_discardable=True)
        rt.check(type(full) is dict and sorted(full) == sorted(FIELDS), msg + ": fields of to_dict")
        rt.eq(full, want, msg + ": to_dict with discarded fields")
        rt.check(type(full["n"]) is dict and type(full["l"]) is list, msg + ": plain containers")
        del want["z"]
        rt.eq(s.to_dict(), want, msg + ": to_dict")
    else:
        rt.raises(MISS, lambda: s.to_dict(), msg + ": to_dict of an incomplete struct")
    rt.check(s == {f: v for f, v in model.items()}, msg + ": equal to a mapping of the assigned values")
    return complete


def plain(v):
    return v.to_dict(True) if isinstance(v, binobj.Struct) else v


def operate(rt, s, model, op, i):
    """One operation on the struct and the model."""
    what, f = op
    if what == "del":
        del s[f]
        model.pop(f, None)
        return
    if f in "ck":
        v = rt.int(f"{f}{i}", 0, 255)

        def by_item():
            s[f] = v

        def by_attr():
            setattr(s, f, v)
        rt.raises((errors.ImmutableFieldError,), by_item, "setting a constant or computed field")
        rt.raises((errors.ImmutableFieldError,), by_attr, "setting a constant or computed field")
        return
    v = new_value(rt, f, i)
    if i % 2:
        s[f] = v
    else:
        setattr(s, f, v)
    model[f] = v


def start(rt, S, inner, how):
    if how == "empty":
        return S(), {}
    if how == "full":
        v = {"a": 1, "s": "x", "d": 2, "f": 3, "n": {"p": 4, "q": 5}, "l": [6], "z": b"y", "o": 7}
        return S(**v), dict(v)
    raw = b"\x01x\0\0\x02\x03\x09\x00\x04\x05"
    L = S.from_bytes(raw + b"")
    return L, {n: L[n] for n in L}


def finish(rt, S, inner, s, model):
    """Rebuilding, and equality with instances having the same or other values."""
    t = S(**model)
    rt.check(s == t and t == s and not (s != t), "an instance with the same values is equal")
    if all([expected(model, f) is not UNSET for f in FIELDS]):
        rt.cover("complete")
        r = S(**s.to_dict(keep_discardable=True))
        rt.eq(r.to_dict(keep_discardable=True), s.to_dict(keep_discardable=True), "rebuilt from to_dict")
        rt.eq(r.to_bytes(), s.to_bytes(), "bytes of the rebuilt struct")
        if len(model) == len(FIELDS):
            rt.check(r == s, "the rebuilt struct is equal")
    else:
        rt.cover("incomplete")
    for f in ("a", "s"):
        if f in model:
            m = dict(model)
            del m[f]
            rt.check(not (s == S(**m)) and s != S(**m), "one value less is different")


@case([(x, y) for x in OPS for y in OPS], thorough=[(x, y, z) for x in OPS for y in OPS for z in OPS])
def operations(rt, cfg):
    """after any sequence of operations the struct holds what was assigned"""
    S, inner = struct_class()
    how = rt.choice("start", ("empty", "full"))
    s, model = start(rt, S, inner, how)
    consistent(rt, s, model, inner, "start")
    for i, op in enumerate(cfg):
        operate(rt, s, model, op, i)
    consistent(rt, s, model, inner, "before the last operation")
    operate(rt, s, model, rt.choice("last", OPS), 7)
    consistent(rt, s, model, inner, "end")
    finish(rt, S, inner, s, model)


@case([(n, s) for n in NAMES for s in ("flat", "dc", "chain", "val") if scenario(n).ctx is None and not (n == "empty" and s != "flat")])
def loaded(rt, cfg):
    """a loaded struct is a mapping of its fields, and rebuilds from its dictionary"""
    name, style = cfg
    sc = scenario(name)
    S = sc.style(style)
    vals = sc.vals(rt)
    s = S.from_bytes(vals.bytes)
    names = [n for n in s]
    rt.check(sorted(names) == sorted(vals.loaded), "iteration")
    for n in names:
        a, b = s[n], getattr(s, n)
        rt.check(a is b or a == b, "attribute and item")
        sc.item(n).same(rt, a, vals.loaded[n], "item " + n) if sc.item(n).inner is None else None
    sc.same(rt, s, vals, "load")
    d = s.to_dict()
    absent = [n for n, b in vals.parts if b is None]
    for n in names:
        if n not in absent:
            rt.eq(d[n], deep(s[n]), "to_dict: " + n)
        rt.check(not has_struct(d[n]), "plain containers")
    rt.check(all([not i.discard or i.name not in d for i in sc.items]), "discarded fields are left out")
    t = S.from_bytes(vals.bytes)
    rt.check(t == s and not (t != s), "loaded twice")
    if sc.plain and not absent:
        r = S(**d)
        rt.check(r == s and s == r, "rebuilt struct is equal")
        rt.check(s == d and d == s, "equal to its dictionary")
        rt.eq(r.to_bytes(), s.to_bytes(), "bytes of the rebuilt struct")
    for n in names:
        u = S.from_bytes(vals.bytes)
        del u[n]
        rt.check(n not in [q for q in u], "deleted")
        rt.check(u != s and not (u == s), "different after deletion")
        if sc.item(n).free and sc.item(n)._effective is None:
            rt.raises(MISS, lambda: u[n], "unset after deletion")
        if getattr(S, n).const is UNDEFINED and sc.item(n).compute is None:
            u[n] = s[n]
            rt.check(u == s, "equal after setting it again")


def deep(v):
    if isinstance(v, binobj.Struct):
        return v.to_dict()
    if isinstance(v, list):
        return [deep(x) for x in v]
    return v


def has_struct(v):
    if isinstance(v, dict):
        return any([has_struct(x) for x in v.values()])
    if isinstance(v, (list, tuple)):
        return any([has_struct(x) for x in v])
    return isinstance(v, binobj.Struct)


@case([(k, w) for k in ALL_KINDS for w in ("struct", "other_class", "mapping", "nested", "array")])
def equal(rt, cfg):
    """equal exactly when the values are"""
    kind, where = cfg
    k = KINDS[kind]
    v, w = k.val(rt, "v"), k.val(rt, "w")
    same = rt.holds(v == w)
    rt.cover("equal" if same else "different")
    mk = lambda: make(("h", U8()), ("x", k.field()))  # noqa: E731
    S = mk()
    if where == "nested":
        M = make(("n", fields.Nested(S)), ("t", U8()))
        a, b = M(n=S(h=1, x=v), t=2), M(n={"h": 1, "x": w}, t=2)
    elif where == "array":
        M = make(("n", fields.Array(fields.Nested(S), count=2)))
        a, b = M(n=[{"h": 1, "x": v}, S(h=3, x=v)]), M(n=[S(h=1, x=w), {"h": 3, "x": v}])
    elif where == "mapping":
        a, b = S(h=1, x=v), {"h": 1, "x": w}
    else:
        a, b = S(h=1, x=v), (S if where == "struct" else mk())(h=1, x=w)
    rt.check((a == b) == same, "equality")
    rt.check((b == a) == same, "equality the other way round")
    rt.check((a != b) == (not same), "inequality")
    rt.check(a == a and not (a != a), "equal to itself")
    for other in (1, None, "x", b"x", [1], object()):
        rt.check(not (a == other) and a != other, "other types are different")
    if where == "struct":
        rt.check(not (a == S(h=2, x=v)) and not (a == S(x=v)) and not (a == S()), "other values and missing values are different")
        rt.check(not (a == {"h": 1}) and not (a == {"h": 1, "x": v, "y": 1}), "other mappings are different")
        rt.check(not (S(h=1) == {"h": 1, "x": v}) and not ({"h": 1, "x": v} == S(h=1)) and S(h=1) != {"h": 1, "x": v}, "a mapping with more fields")
        rt.check(not (S(h=1) == S(h=1, x=v)) and S(h=1) == {"h": 1} and S() == {} and not (S() == {"x": v}), "unset fields")
        k.same(rt, a.x, v, "comparing changes nothing")


@case(["struct", "dc", "proxy", "nested"])
def unknown(rt, cfg):
    """unknown names raise KeyError, in the constructor the unexpected-value error"""
    v = rt.int("v", 0, 255)
    S, inner = struct_class()
    if cfg == "dc":
        S = binobj.dataclass(type("D", (binobj.Struct,), {"__annotations__": {"a": U8(), "d": fields.UInt16}, "d": 4}))
    s = S(a=v)
    m = MutableStructMappingProxy(s) if cfg == "proxy" else s
    if cfg == "nested":
        s.n = inner(p=v)
        m = s.n
    for name in ("x", "", "A", "__values__", "to_bytes", "fn", "a ", "index"):
        rt.raises((KeyError,), lambda: m[name], "reading")

        def put():
            m[name] = v

        def drop():
            del m[name]
        rt.raises((KeyError,), put, "setting")
        rt.raises((KeyError,), drop, "deleting")
        rt.check(name not in [n for n in m], "iteration")
        if cfg != "proxy":
            rt.raises((errors.UnexpectedValueError,), lambda: type(m)(**{name: v}), "constructor")
            rt.raises((errors.UnexpectedValueError,), lambda: S(**{"a": v, name: v}), "constructor")
    rt.check(s["a"] == v, "the struct is as it was")


@case(["get", "set", "del", "dict", "contains"])
def proxies(rt, cfg):
    """the mapping proxies read and write the struct"""
    S, inner = struct_class()
    v, w = rt.int("v", 0, 255), rt.int("w", 0, 255)
    s = S(a=v, o=None)
    p, m = StructMappingProxy(s), MutableStructMappingProxy(s)
    if cfg == "get":
        rt.check(p["a"] == v and p["d"] == 77 and p["k"] == v ^ 1 and m["c"] == 9 and p["o"] is None, "reading")
        rt.raises(MISS, lambda: p["s"], "missing")
        rt.check(m.get("nope", 4) == 4 and p.get("a") == v, "get")
    elif cfg == "set":
        m["a"] = w
        rt.check(s.a == w and p["a"] == w, "setting")

        def const():
            m["c"] = w
        rt.raises((errors.ImmutableFieldError,), const, "setting a constant")
        rt.check(not hasattr(p, "__setitem__"), "the other proxy is read-only")
    elif cfg == "del":
        del m["a"]
        rt.check([n for n in s] == ["o"], "deleting")
        rt.raises(MISS, lambda: s.a, "deleted")
    elif cfg == "dict":
        rt.eq({n: p[n] for n in p}, {"a": v, "o": None}, "contents")
        s.a = w
        rt.eq({n: m[n] for n in m}, {"a": w, "o": None}, "contents after a change")
    else:
        rt.check("a" in p and "o" in m and "x" not in p, "membership")


@case([(w, h) for w in ("one", "two", "none", "array", "nested") for h in ("attr", "item", "proxy")])
def validated_set(rt, cfg):
    """setting runs the field's validators, and a refused value is not stored"""
    what, how = cfg
    bad, v, w = rt.int("bad", 0, 255), rt.int("v", 0, 255), rt.int("w", 0, 255)

    def no(f, q):
        q = q[0] if what == "array" else q["p"] if what == "nested" else q
        if q is not None and rt.holds(q == bad):
            raise errors.ValidationError(field=f, value=q)
    mk = {"array": lambda q: [q, 1], "nested": lambda q: {"p": q, "q": 1}}.get(what, lambda q: q)
    val = no if what != "two" else [lambda f, q: None, no]
    fld = {"array": lambda: fields.Array(U8(), validate=val), "nested": lambda: fields.Nested(inner_class(), validate=val),
           "none": lambda: U8(null_value=0, validate=val)}.get(what, lambda: U8(validate=val))()
    S = make(("h", U8()), ("x", fld))
    rt.assume(v != bad)
    s = S(h=1, x=mk(v))

    def put():
        if how == "attr":
            s.x = mk(w)
        elif how == "item":
            s["x"] = mk(w)
        else:
            MutableStructMappingProxy(s)["x"] = mk(w)
    if rt.holds(w == bad):
        rt.cover("rejected")
        rt.raises((errors.ValidationError,), put, "not refused")
        rt.eq(s.x, mk(v), "the old value")
    else:
        rt.cover("accepted")
        put()
        rt.eq(s.x, mk(w), "the new value")
        rt.eq(s["x"], mk(w), "the new value")
    if what == "none":
        s.x = None
        rt.check(s.x is None, "None")
    rt.check(s.h == 1, "the other field")


@case([(k, n) for k in ("nestvar", "nest", "arr3", "arrz", "strz", "f64b", "ts64ms", "uuidc") for n in (0, 1, 2)])
def containers(rt, cfg):
    """to_dict converts structs at any depth"""
    kind, depth = cfg
    k = KINDS[kind]
    v = k.val(rt, "v")
    S = make(("x", k.field()), ("d", U8(discard=True, default=1)))
    val, want = {"x": v}, {"x": v}
    cls = S
    for i in range(depth):
        A = make(("y", fields.Array(fields.Nested(cls), count=2)), ("z", fields.Nested(cls)))
        val, want, cls = {"y": [cls(**val), val], "z": cls(**val)}, {"y": [want, want], "z": want}, A
    s = cls(**val)
    d = s.to_dict()
    rt.check(not has_struct(d), "plain containers")
    check_same(rt, k, d, want, depth)
    t = cls.from_bytes(s.to_bytes())
    d2 = t.to_dict()
    rt.check(not has_struct(d2), "plain containers after loading")
    check_same(rt, k, d2, want, depth)
    full = s.to_dict(keep_discardable=True)
    rt.check(depth > 0 or full["d"] == 1, "discarded field kept on request")


def check_same(rt, k, d, want, depth):
    if depth == 0:
        rt.check("x" in d and "d" not in d, "fields")
        k.same(rt, d["x"], want["x"], "value")
        return
    rt.check(type(d["y"]) is list and type(d["z"]) is dict and len(d["y"]) == 2, "containers")
    for q in (d["y"][0], d["z"]):
        check_same(rt, k, q, want["z"], depth - 1)


@case(["none", "one", "default", "deleted"])
def undefined(rt, cfg):
    """a struct equals UNDEFINED when nothing is set"""
    v = rt.int("v", 0, 255)
    S = make(("a", U8()), ("d", U8(default=1)))
    s = {"none": lambda: S(), "one": lambda: S(a=v), "default": lambda: S(), "deleted": lambda: S(a=v)}[cfg]()
    if cfg == "deleted":
        del s["a"]
    rt.check((s == UNDEFINED) == (cfg != "one"), "comparison")
