"""C31 operations are pure: dumping, sizing and comparing never change anything."""
from scn import *

BOUNDS = {"quick": "every scenario of harness/scn.py in three declaration styles: two instances with independent symbolic values, every operation (32, failing "
                   "ones included) on one of them, then everything about both observed twice; every sequence of 2 operations on 15 scenarios; "
                   "every ordered pair of field kinds in two classes of the same name; every pair of contexts; shared and mutated results",
          "thorough": "also every sequence of 2 operations on every scenario, of 3 operations on 15 scenarios"}
OUTSIDE = ("operations of user code on values the library returned, except that results of separate loads are independent; changing a mutable default; decision "
           "functions with side effects; concurrent use")
ASSUMPTIONS = ["decision functions, validators and factories are deterministic"]
COVERS = {"one": ["failed", "succeeded"]}
TABLE = SCNS()

U8 = fields.UInt8
CORE = ["all_fixed", "fixed_var_fixed", "sized_name", "computed_count_obj", "arr_nest", "arr_halt", "const", "defaults", "discard", "null_val", "cond_npv",
        "union_struct", "nest_inst", "nest_cond", "cond_ctx"]
OTHERS = [n for n in NAMES if n not in ("empty", "discard_required")]


class Refusing:
    """A stream that refuses to take any bytes from the n-th write on."""

    def __init__(self, n):
        self.n = n

    def write(self, data):
        self.n -= 1
        if self.n < 0:
            raise OSError("full")
        return len(data)


# ------------------------------------------------------------------------- snapshots
def snap(v):
    """Structure of a value given to the library."""
    if isinstance(v, binobj.Struct):
        return ("struct", v, {n: snap(v.__values__[n]) for n in v.__values__})
    if type(v) is dict:
        return ("dict", v, {n: snap(v[n]) for n in v})
    if type(v) is list:
        return ("list", v, [snap(x) for x in v])
    return ("leaf", v, None)


def unchanged(rt, now, s, msg):
    kind, v, inner = s
    if kind == "struct":
        rt.check(now is v, msg + ": another instance")
        rt.check(sorted(now.__values__) == sorted(inner), msg + ": other fields set")
        for n in inner:
            unchanged(rt, now.__values__[n], inner[n], msg + "." + n)
    elif kind == "dict":
        rt.check(now is v and [n for n in now] == [n for n in inner], msg + ": keys")
        for n in inner:
            unchanged(rt, now[n], inner[n], msg + "." + n)
    elif kind == "list":
        rt.check(now is v and len(now) == len(inner), msg + ": elements")
        for i in range(len(inner)):
            unchanged(rt, now[i], inner[i], f"{msg}[{i}]")
    else:
        leaf(rt, now, v, msg)


def leaf(rt, a, b, msg):
    if a is b:
        return
    if isinstance(b, float):
        rt.same_float(a, b)
    else:
        rt.same(a, b, msg)


FIELD_ATTRS = ("name", "index", "offset", "const", "discard", "null_value", "not_present_value", "required", "allow_null", "has_fixed_size",
               "is_computed_field", "endian", "signed", "encoding", "pad_byte", "resolution", "tz_aware", "stored_as", "max_bytes", "component", "count",
               "halt_check", "present", "struct_class", "choices", "load_decider", "dump_decider", "factory", "vli_format", "format_string", "__objclass__")


def definition(S):
    """What can be seen of the definition of a class."""
    meta = S.__binobj_struct__
    out = {"names": [n for n in meta.components], "size": S.get_size(), "meta": meta, "dict": sorted([n for n in S.__dict__ if n != "__weakref__"]),
           "validators": [f for f in meta.struct_validators]}
    for n in meta.components:
        f = meta.components[n]
        out[n] = {"field": f, "attr": getattr(S, n), "validators": [x for x in f.validators], "size": f.size}
        for a in FIELD_ATTRS:
            out[n][a] = getattr(f, a, None)
        out[n]["choices"] = [x for x in out[n]["choices"]] if out[n]["choices"] is not None else None
    return out


def same_definition(rt, S, d, msg):
    now, bad = definition(S), []
    for k in d:
        a, b = now[k], d[k]
        if type(b) is dict:
            bad.extend([f"{q} of {k}" for q in b if not (a[q] is b[q] or a[q] == b[q])])
        elif not (a is b or a == b):
            bad.append(k)
    rt.check(bad == [], f"{msg}: changed in the class: {bad}")


# ------------------------------------------------------------------------- one instance under observation
class Twin:
    """The run-time interface with the choices made before (lengths and the like), for values of the same shape."""

    def __init__(self, rt, memo):
        self.rt, self.memo, self.known, self.seen = rt, memo, memo.setdefault("", []), 0

    def __getattr__(self, name):
        return getattr(self.rt, name)

    def holds(self, c):
        """The same branch as the first instance."""
        if self.seen == len(self.known):
            self.known.append(self.rt.holds(c))
        elif self.known[self.seen]:
            self.rt.assume(c)
        else:
            self.rt.assume(True if c is False else False if c is True else c == False)  # noqa: E712
        self.seen += 1
        return self.known[self.seen - 1]

    def choice(self, name, options):
        key = name[2:]
        if key not in self.memo or self.memo[key] not in options:
            self.memo[key] = self.rt.choice(name, options)
        return self.memo[key]


class Watch:
    """A struct with everything that is known about it."""

    def __init__(self, rt, scn, S, prefix, memo):
        self.rt, self.scn, self.S, self.ctx = rt, scn, S, scn.ctx
        self.vals = scn.vals(Twin(rt, memo), prefix)
        for v in self.vals.assign.values():
            if isinstance(v, float):
                rt.assume(not rt.isnan(v))
        self.given = snap(dict(self.vals.assign))
        self.s = S(**self.vals.assign)
        self.data = self.vals.bytes

    def check(self, msg):
        rt, scn, s, vals, ctx = self.rt, self.scn, self.s, self.vals, self.ctx
        rt.eq(s.to_bytes(ctx), vals.bytes, msg + ": bytes")
        unchanged(rt, vals.assign, ("dict", vals.assign, self.given[2]), msg + ": values given")
        rt.check(sorted([n for n in s]) == sorted(vals.assign), msg + ": assigned fields")
        for n in vals.assign:
            leaf(rt, s[n], vals.assign[n], f"{msg}: field {n}")
        if ctx is None:
            rt.check(len(s) == len(vals.bytes), msg + ": length")
            rt.check(s == vals.assign, msg + ": equal to the values given")
            for i in scn.items:
                if i.inner is None and vals.full[i.name] is not NOT_PRESENT:
                    i.same(rt, s[i.name], s.to_dict(True)[i.name], f"{msg}: to_dict {i.name}") if i.name not in vals.assign else None
        got = self.S.from_bytes(vals.bytes, ctx)
        scn.same(rt, got, vals, msg + ": load")


def any_field(w):
    return [i for i in w.scn.items]


def first_free(w):
    return [i.name for i in w.scn.items if i.free][0]


# ------------------------------------------------------------------------- operations (w: the instance, o: the other one)
def op_to_bytes(rt, w, o):
    return w.s.to_bytes(w.ctx)


def op_to_stream(rt, w, o):
    st = io.BytesIO(b"##")
    st.seek(2)
    w.s.to_stream(st, w.ctx)
    rt.eq(st.getvalue(), b"##" + w.data, "to_stream")


def op_no_context(rt, w, o):
    return w.s.to_bytes() if w.ctx is None else w.s.to_bytes(CtxType())


def op_len(rt, w, o):
    return len(w.s)


def op_to_dict(rt, w, o):
    return w.s.to_dict()


def op_to_dict_all(rt, w, o):
    return w.s.to_dict(keep_discardable=True)


def op_read(rt, w, o):
    for i in w.scn.items:
        getattr(w.s, i.name)
        w.s[i.name]


def op_equal(rt, w, o):
    rt.check(not (w.s != w.s), "equal to itself")
    return w.s == o.s


def op_equal_mapping(rt, w, o):
    m = dict(o.vals.assign)
    g = snap(m)
    r = w.s == m
    unchanged(rt, m, g, "mapping compared with")
    return r


def op_validate(rt, w, o):
    return w.s.validate_contents(w.ctx) if hasattr(w.s, "validate_contents") else None


def op_iterate(rt, w, o):
    return [n for n in w.s]


def op_repr(rt, w, o):
    return repr(type(w.s))


def op_partial_dump(rt, w, o):
    st = io.BytesIO()
    w.s.partial_dump(st, context=w.ctx)


def op_partial_dump_first(rt, w, o):
    st = io.BytesIO()
    w.s.partial_dump(st, w.scn.names[0], w.ctx)


def op_load(rt, w, o):
    return w.S.from_bytes(o.data, w.ctx)


def op_load_stream(rt, w, o):
    return w.S.from_stream(io.BytesIO(w.data), w.ctx)


def op_load_dump(rt, w, o):
    return w.S.from_bytes(w.data, w.ctx).to_bytes(w.ctx)


def op_partial_load(rt, w, o):
    return w.S.partial_load(io.BytesIO(o.data[:len(o.data) // 2]), context=w.ctx)


def op_partial_load_first(rt, w, o):
    return w.S.partial_load(io.BytesIO(o.data), w.scn.names[0], w.ctx)


def op_get_field(rt, w, o):
    for i in w.scn.items:
        if not i.discard:
            w.S.get_field(io.BytesIO(o.data), i.name, w.ctx)


def op_get_size(rt, w, o):
    return w.S.get_size()


def op_rebuild(rt, w, o):
    m = dict(o.vals.assign)
    return w.S(**m).to_bytes(w.ctx)


def op_other_instance(rt, w, o):
    """Another instance is emptied and filled."""
    t = w.S(**w.vals.assign)
    for n in [n for n in t]:
        del t[n]
    for n in o.vals.assign:
        t[n] = o.vals.assign[n]


# operations that fail
def op_cut(rt, w, o):
    return w.S.from_bytes(o.data[:-1], w.ctx)


def op_extra(rt, w, o):
    return w.S.from_bytes(o.data + b"\x05", w.ctx)


def op_cut_field(rt, w, o):
    return w.S.partial_load(io.BytesIO(o.data[:-1]), w.scn.names[-1], w.ctx)


def op_missing(rt, w, o):
    m = dict(o.vals.assign)
    m.pop(first_free(w), None)
    return w.S(**m).to_bytes(w.ctx)


def op_wrong(rt, w, o):
    m = dict(o.vals.assign)
    m[first_free(w)] = ("wrong",)
    return w.S(**m).to_bytes(w.ctx)


def op_refused(rt, w, o):
    w.s.to_stream(Refusing(0), w.ctx)


def op_refused_late(rt, w, o):
    w.s.partial_dump(Refusing(1), context=w.ctx)


def op_unknown(rt, w, o):
    return w.s["nope"]


def op_unknown_field(rt, w, o):
    return w.S.get_field(io.BytesIO(w.data), "nope", w.ctx)


OPS = [op_to_bytes, op_to_stream, op_no_context, op_len, op_to_dict, op_to_dict_all, op_read, op_equal, op_equal_mapping, op_validate, op_iterate, op_repr,
       op_partial_dump, op_partial_dump_first, op_load, op_load_stream, op_load_dump, op_partial_load, op_partial_load_first, op_get_field, op_get_size,
       op_rebuild, op_other_instance]
FAIL = [op_cut, op_extra, op_cut_field, op_missing, op_wrong, op_refused, op_refused_late, op_unknown, op_unknown_field]
NO_CTX = [op_len, op_to_dict, op_to_dict_all, op_equal, op_equal_mapping, op_read, op_no_context]
ALL = {f.__name__[3:]: f for f in OPS + FAIL}


def perform(rt, op, w, o):
    f = ALL[op]
    if f in FAIL:
        try:
            f(rt, w, o)
        except Exception:  # noqa: BLE001
            rt.cover("failed")
    else:
        f(rt, w, o)
        rt.cover("succeeded")


def allowed(scn, op):
    f = ALL[op]
    if scn.ctx is not None and f in NO_CTX:
        return False
    if f in (op_missing, op_wrong) and not any(i.free for i in scn.items):
        return False
    return not (f is op_get_field and any(i.discard for i in scn.items))


def run(rt, scn, S, ops):
    keep = dict(CTX.__dict__)
    memo = {}
    w, o = Watch(rt, scn, S, "w.", memo), Watch(rt, scn, S, "o.", memo)
    d = definition(S)
    for op, on in ops:
        perform(rt, op, (w, o)[on], (w, o)[1 - on])
    what = "after " + ", ".join([op for op, _ in ops])
    same_definition(rt, S, d, what)
    w.check(what)
    o.check("the other " + what)
    w.check("again " + what)
    same_definition(rt, S, d, "again " + what)
    rt.check(CTX.__dict__ == keep, what + ": the context object has changed")


ONE = [(n, s, p) for n in OTHERS for s in ("flat", "dc", "chain", "val") for p in ("ok", "bad")
       if s == "flat" and not n.startswith("k_uuid") or not n.startswith("k_") or n == "k_uuid1"]
# the text forms of a UUID take many queries: only a few operations in the quick tier
UUIDS = [(n, "flat", "few") for n in ("k_uuidc", "k_uuidh", "k_uuid2")]


@case(ONE + UUIDS)
def one(rt, cfg):
    """one operation, then everything is as it was"""
    name, style, part = cfg
    scn = scenario(name)
    names = ["to_bytes", "load", "to_dict", "cut"] if part == "few" else [f.__name__[3:] for f in (OPS if part == "ok" else FAIL)]
    op = rt.choice("op", [n for n in names if allowed(scn, n)])
    run(rt, scn, scn.style(style), [(op, 0)])


QUICK = ("to_bytes", "len", "to_dict", "load", "partial_load", "get_field", "partial_dump", "cut", "missing", "wrong", "refused", "other_instance", "equal_mapping")


@case([(n, a) for n in CORE for a in QUICK if allowed(TABLE[n], a)],
      thorough=[(n, a) for n in OTHERS for a in ALL if allowed(TABLE[n], a)])
def two(rt, cfg):
    """any two operations on two instances"""
    name, op1 = cfg
    scn = scenario(name)
    ops = [n for n in ALL if allowed(scn, n)]
    if rt.tier == "quick":
        ops = [n for n in ops if n in QUICK]
    run(rt, scn, scn.cls(), [(op1, 0), (rt.choice("op2", ops), rt.choice("on", (0, 1)))])


THREE = ("to_bytes", "len", "to_dict", "load", "partial_load", "partial_dump", "cut", "missing", "wrong", "refused", "other_instance")


@case([], thorough=[(n, a, b) for n in CORE for a in THREE for b in THREE if allowed(TABLE[n], a) and allowed(TABLE[n], b)])
def three(rt, cfg):
    """three operations on two instances"""
    name, op1, op2 = cfg
    scn = scenario(name)
    run(rt, scn, scn.cls(), [(op1, 0), (op2, 1), (rt.choice("op3", [n for n in THREE if allowed(scn, n)]), 0)])


@case([(a, b) for a in ALL_KINDS for b in ALL_KINDS])
def classes(rt, cfg):
    """classes of the same name with the same or other fields do not influence each other"""
    ka, kb = KINDS[cfg[0]], KINDS[cfg[1]]
    va, vb = ka.val(rt, "a"), kb.val(rt, "b")
    ra, rb = ka.ref(rt, va), kb.ref(rt, vb)
    mk = lambda k: make(("h", U8()), ("x", k.field()), ("t", U8()), name="Same")  # noqa: E731
    A, B = mk(ka), mk(kb)
    a, b = A(h=1, x=va, t=2), B(h=3, x=vb, t=4)
    sizes = A.get_size(), B.get_size()
    wa, wb = b"\x01" + ra + b"\x02", b"\x03" + rb + b"\x04"
    rt.check(sizes == (None if ka.size is None else ka.size + 2, None if kb.size is None else kb.size + 2), "sizes")
    for _ in range(2):
        rt.eq(a.to_bytes(), wa, "dump of the first")
        rt.eq(b.to_bytes(), wb, "dump of the second")
        rt.check(len(a) == len(wa) and len(b) == len(wb), "lengths")
        x, y = A.from_bytes(wa), B.from_bytes(wb)
        ka.same(rt, x.x, va, "load of the first")
        kb.same(rt, y.x, vb, "load of the second")
        ka.same(rt, A.get_field(io.BytesIO(wa), "x"), va, "get_field of the first")
        kb.same(rt, B.get_field(io.BytesIO(wb), "x"), vb, "get_field of the second")
        rt.check((A.get_size(), B.get_size()) == sizes, "sizes")
        rt.check(x.h == 1 and x.t == 2 and y.h == 3 and y.t == 4, "the fields around")
    # the first class's loaded results are still what they were
    ka.same(rt, x.x, va, "result of the first load")


@case([(a, b) for a in range(4) for b in range(4)])
def contexts(rt, cfg):
    """a context is used for its own call only"""
    u, v, w = rt.int("u", 0, 255), rt.int("v", 0, 255), rt.int("w", 0, 1)
    on = lambda c, i: c is not None and c["bits"] >> i & 1  # noqa: E731
    inner = make(("p", U8()), ("q", U8(present=lambda f, c, s: on(c, 0))), name="Inner")
    un = fields.Union(U8(), fields.UInt16(endian="big"), load_decider=lambda s, ch, c, f: ch[1 if on(c, 1) else 0],
                      dump_decider=lambda d, ch, c, f: ch[1 if on(c, 1) else 0])
    S = make(("a", U8()), ("b", U8(present=lambda f, c, s: on(c, 0))), ("n", fields.Nested(inner)), ("u", un),
             ("l", fields.Array(U8(), halt_check=lambda f, s, val, c, lf: len(val) >= (2 if on(c, 1) else 1))), ("t", U8()))
    s = S(a=1, b=u, n={"p": 2, "q": v}, u=w, l=[3, 4], t=5)
    masks = {0: None, 1: {"bits": 1}, 2: {"bits": 2}, 3: {"bits": 3}}
    ctxs = [masks[cfg[0]], masks[cfg[1]]]
    last = rt.choice("last", range(4))
    for i in (cfg[0], cfg[1], last, cfg[0]):
        c = masks[i]
        has, wide = i & 1, i & 2
        body = b"\x01" + (bytes([u]) if has else b"") + b"\x02" + (bytes([v]) if has else b"") + (bytes([0, w]) if wide else bytes([w]))
        out = s.to_bytes(c)
        rt.eq(out, body + b"\x03\x04\x05", "bytes")
        raw = body + (b"\x03\x04" if wide else b"\x03") + b"\x05"
        g = S.from_bytes(raw, c)
        rt.check(g.b == u if has else g.__values__.get("b", NOT_PRESENT) is NOT_PRESENT, "optional field")
        rt.check(g.u == w and g.t == 5 and g.l == ([3, 4] if wide else [3]), "loaded values")
        rt.check(g.n.q == v if has else g.n.__values__.get("q", NOT_PRESENT) is NOT_PRESENT, "optional field of the nested struct")
        rt.check(c is None or c == {"bits": i}, "the context has changed")
    rt.check(ctxs[0] is masks[cfg[0]], "contexts")


@case(["array", "array_nested", "nested", "array_array", "union", "field", "stringz", "counted", "halt"])
def results(rt, cfg):
    """what one load returns is not shared with another load or instance"""
    b = rt.bytes("b", 4)
    inner = lambda: make(("p", U8()), ("q", U8()), name="Inner")  # noqa: E731
    fld = {"array": lambda: fields.Array(U8(), count=4), "array_nested": lambda: fields.Array(fields.Nested(inner()), count=2),
           "nested": lambda: fields.Nested(make(("l", fields.Array(U8(), count=2)), ("n", fields.Nested(inner())), name="M")),
           "array_array": lambda: fields.Array(fields.Array(U8(), count=2), count=2),
           "union": lambda: fields.Union(inner(), U8(), load_decider=lambda s, ch, c, f: ch[0], dump_decider=lambda d, ch, c, f: ch[0]),
           "field": lambda: fields.Bytes(size=4), "stringz": lambda: fields.Array(fields.Bytes(size=2), count=2),
           "counted": lambda: fields.Array(U8(), count="h"), "halt": lambda: fields.Array(U8(), halt_check=lambda f, s, v, c, lf: len(v) == 4)}[cfg]
    head = 4 if cfg == "counted" else 9
    S = make(("h", U8()), ("x", fld()), ("k", U8(default=1)))
    tail = 2 if cfg == "union" else 4
    raw = bytes([head]) + b[:tail] + b"\x01"
    x = S.from_bytes(raw)
    mid = S.from_bytes(raw) if rt.choice("before", (True, False)) else None
    want = plain(x.x)
    spoil(x.x)
    x.h = 77
    x.k = 78
    rt.eq(plain(want), want, "copy")
    for y in ([mid] if mid is not None else []) + [S.from_bytes(raw)]:
        rt.eq(plain(y.x), want, "value of another load")
        rt.check(y.h == head and y.k == 1, "fields of another load")
        rt.eq(y.to_bytes(), raw, "dump of another load")
    z = S(h=head, x=want)
    rt.eq(z.to_bytes(), raw, "another instance")
    rt.check(z.k == 1, "its default")


def plain(v):
    if isinstance(v, binobj.Struct):
        return {n: plain(v[n]) for n in v}
    if type(v) is list:
        return [plain(q) for q in v]
    return v


def spoil(v):
    """Change everything that can be changed about a loaded value."""
    if isinstance(v, binobj.Struct):
        for n in [n for n in v]:
            spoil(v[n])
            v[n] = 66
    elif type(v) is list:
        for q in v:
            spoil(q)
        v.append(55)
        v[0] = 44


@case([(k, w) for k in ("u8", "strz", "arr3", "arrz", "nest", "nestvar", "uni") for w in ("default", "null", "const", "factory")])
def shared(rt, cfg):
    """defaults, constants and null values are the same for every instance, whatever was done to others"""
    kind, what = cfg
    k = KINDS[kind]
    d = k.val(rt, "d")
    v = k.val(rt, "v")
    g = snap(d)
    kw = {"default": {"default": d}, "null": {"null_value": d}, "const": {"const": d}, "factory": {"factory": lambda: d}}[what]
    if what == "const" and kind in ("nest", "nestvar"):
        kw = {"default": d}
    S = make(("a", U8()), ("x", k.field(**kw)), ("t", U8()))
    want = b"\x01" + k.ref(rt, d) + b"\x02"
    first, second = S(a=1, t=2), S(a=1, t=2)
    if what == "null":
        first.x = second.x = None
    ops = ("dump", "len", "dict", "assign", "delete", "load", "fail")
    mine = want
    for i in range(2):
        op = rt.choice(f"op{i}", ops)
        if op == "dump":
            rt.eq(first.to_bytes(), mine, "dump")
        elif op == "len":
            len(first)
        elif op == "dict":
            first.to_dict()
        elif op == "assign":
            if what != "const":
                first.x = v
                mine = b"\x01" + k.ref(rt, v) + b"\x02"
                rt.eq(first.to_bytes(), mine, "dump of the assigned value")
        elif op == "delete":
            mine = want
            if "x" in first.__values__:
                del first["x"]
            if what == "null":
                first.x = None
        elif op == "load":
            S.from_bytes(want)
        else:
            try:
                S(t=2).to_bytes()
            except errors.Error:
                pass
    unchanged(rt, d, g, "the default")
    rt.eq(second.to_bytes(), want, "dump of the other instance")
    third = S(a=1, t=2)
    if what == "null":
        third.x = None
        rt.check(second.x is None and third.x is None, "None")
    else:
        k.same(rt, third.x, d, "value of a new instance")
        k.same(rt, second.x, d, "value of the other instance")
    rt.eq(third.to_bytes(), want, "dump of a new instance")
    rt.check(len(third) == len(want), "length of a new instance")
