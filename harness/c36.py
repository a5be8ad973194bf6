"""C36 user functions are given exactly the documented arguments, and what they raise reaches the caller."""
from kit import *

BOUNDS = {"quick": "one struct with conditions, a halt check, deciders and a compute function at eight places, alone, nested, in arrays and "
                   "as union choice at 2 levels; every value, every load and dump entry point, four declaration styles; nine kinds of "
                   "exception out of each of ten kinds of function"}
OUTSIDE = "errors of the library's own classes raised by user functions; discarded fields; what is asked how often; unseekable streams"
COVERS = {"load": ["loaded"], "dump": ["dumped"], "raising": ["raised"]}
U8 = fields.UInt8


class Ctx:
    pass


class Log:
    """Calls as (tag, the fields, context, stream, position, further arguments)."""

    def __init__(self):
        self.calls = []

    def add(self, tag, fields_, ctx, st, *more):
        self.calls.append((tag, snapshot(fields_), ctx, st, None if st is None else st.tell(), more))


NAMES = ("a", "n", "k", "p", "arr", "u", "c", "q", "z", "x", "y")


def snapshot(v):
    """What a user function can read of the mapping it is given."""
    out = {}
    for n in (v if isinstance(v, dict) else NAMES):
        if n in v:
            out[n] = v[n]
    for n in ("k", "n"):
        # constants can be read also when nothing has been assigned
        if n not in out:
            try:
                out[n] = v[n]
            except KeyError:
                pass
    return out


def plain(v):
    """Nested structs as dictionaries."""
    if isinstance(v, binobj.Struct):
        return {n: plain(v[n]) for n in v.__binobj_struct__.components}
    if isinstance(v, dict):
        return {n: plain(x) for n, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def body(log, tag, inner=None):
    """The items of a struct with all kinds of user functions; `inner` is a struct class for a nested field."""
    def cond(name, when):
        def f(v, ctx, st):
            log.add(tag + name, v, ctx, st)
            return when(v)
        return f

    def halt(seq, st, values, ctx, lf):
        log.add(tag + "arr", lf, ctx, st, seq, [x for x in values])
        return len(values) >= lf["n"]

    def ldec(st, ch, ctx, lf):
        log.add(tag + "u.l", lf, ctx, st, ch)
        return ch[lf["a"] & 1]

    def ddec(data, ch, ctx, af):
        log.add(tag + "u.d", af, ctx, None, ch, data)
        return ch[af["a"] & 1]

    def comp(field, v):
        log.add(tag + "c", v, None, None, field)
        return v["a"] ^ 0xFF
    c = U8()
    c.computes(comp)
    items = [("a", U8()), ("n", U8()), ("k", U8(const=7)), ("p", fields.UInt16(endian="big", present=cond("p", lambda v: v["a"] >= 128))),
             ("arr", fields.Array(U8(), halt_check=halt)),
             ("u", fields.Union(U8(), fields.UInt16(endian="big"), load_decider=ldec, dump_decider=ddec)),
             ("c", c)]
    if inner is not None:
        items.append(("q", inner))
    return items + [("z", U8(default=5, present=cond("z", lambda v: v["n"] != 1)))]


def leaf(log, tag):
    """A small struct, with a condition."""
    def f(v, ctx, st):
        log.add(tag, v, ctx, st)
        return (v["x"] & 1) == 1
    return make(("x", U8()), ("y", U8(present=f)), name="Leaf")


class Data:
    """Symbolic values of the struct of body(), its bytes and the expected calls."""

    def __init__(self, rt, pre, log, tag, inner, at):
        self.load, self.dump, parts = {}, {}, []
        a = rt.int(pre + "a", 0, 255)
        n = rt.choice(pre + "n", (0, 1, 2))
        v = {"a": a, "n": n, "k": 7}
        raw = [a, n, 7]
        self.load[tag + "p", at + len(raw)] = (dict(v), ())
        if rt.holds(a >= 128):
            v["p"] = rt.int(pre + "p", 0, 65535)
            raw += [v["p"] >> 8, v["p"] & 255]
        v["arr"] = []
        for i in range(n):
            self.load[tag + "arr", at + len(raw)] = ({k: x for k, x in v.items() if k != "arr"}, [x for x in v["arr"]])
            e = rt.int(f"{pre}e{i}", 0, 255)
            v["arr"].append(e)
            raw.append(e)
        self.load[tag + "arr", at + len(raw)] = ({k: x for k, x in v.items() if k != "arr"}, [x for x in v["arr"]])
        self.load[tag + "u.l", at + len(raw)] = (dict(v), ())
        if rt.holds((a & 1) == 1):
            v["u"] = rt.int(pre + "u", 0, 65535)
            raw += [v["u"] >> 8, v["u"] & 255]
        else:
            v["u"] = rt.int(pre + "u", 0, 255)
            raw.append(v["u"])
        v["c"] = a ^ 0xFF
        raw.append(v["c"])
        self.leaves = []
        if inner == "unions":
            els = []
            for i in range(2):
                self.load[tag + "q.l", at + len(raw)] = (dict(v), ())
                e = rt.int(f"{pre}w{i}", 128 * i, 128 * i + 127)
                raw += [e] if len(v["arr"]) != 2 else [0, e]
                els.append(e)
            v["q"] = els
        elif inner is not None:
            leaves = []
            for i in range({"one": 1, "two": 2, "union": 1}[inner]):
                x = rt.int(f"{pre}x{i}", 128 * i, 128 * i + 127)
                leaf_v = {"x": x}
                self.load[tag + "leaf", at + len(raw) + 1] = (dict(leaf_v), ())
                raw.append(x)
                if rt.holds((x & 1) == 1):
                    leaf_v["y"] = rt.int(f"{pre}y{i}", 0, 255)
                    raw.append(leaf_v["y"])
                leaves.append(leaf_v)
            self.leaves = leaves
            v["q"] = leaves if inner == "two" else leaves[0]
            if inner == "union":
                pos = at + len(raw) - len(leaves[0])
                self.load[tag + "q.l", pos] = ({k: x for k, x in v.items() if k != "q"}, ())
        self.load[tag + "z", at + len(raw)] = (dict(v), ())
        if n != 1:
            v["z"] = 5
            raw.append(5)
        self.v, self.raw, self.tag = v, bytes(raw), tag

    def given(self):
        """The values to assign: not the constant, the default or the computed one."""
        return {k: x for k, x in self.v.items() if k not in ("k", "c", "z")}


INNER = [None, "one", "two", "union", "unions"]


def shape(log, tag, inner):
    """The class (items of it) for `inner`."""
    q = None
    if inner == "unions":
        def ldecs(st, ch, ctx, lf):
            log.add(tag + "q.l", lf, ctx, st, ch)
            return ch[lf["n"] // 2]

        def ddecs(data, ch, ctx, af):
            log.add(tag + "q.d", af, ctx, None, ch, data)
            return ch[af["n"] // 2]
        q = fields.Array(fields.Union(U8(), fields.UInt16(endian="big"), load_decider=ldecs, dump_decider=ddecs), count=2)
    elif inner is not None:
        L = leaf(log, tag + "leaf")
        q = fields.Nested(L)
        if inner == "two":
            q = fields.Array(q, count=2)
        elif inner == "union":
            def ldec(st, ch, ctx, lf):
                log.add(tag + "q.l", lf, ctx, st, ch)
                return ch[0]

            def ddec(data, ch, ctx, af):
                log.add(tag + "q.d", af, ctx, None, ch, data)
                return ch[0]
            q = fields.Union(L, load_decider=ldec, dump_decider=ddec)
    return body(log, tag, q)


def declare(items, style):
    if style == "flat":
        return make(*items)
    if style == "split":
        return make(*items[4:], base=make(*items[:4], name="P"))
    if style == "grand":
        return make(*items[6:], base=make(*items[3:6], base=make(*items[:3], name="G"), name="P"))
    return binobj.dataclass(type("D", (binobj.Struct,), {"__annotations__": dict(items)}))


def no_more(got, want):
    """No fields other than the expected ones, except that absent ones may be marked."""
    return all(k in want or x is NOT_PRESENT for k, x in got.items())


def same_fields(rt, got, want, msg):
    rt.check(no_more(got, want), msg + ": further fields")
    for k, x in want.items():
        if k not in got:
            rt.fail(f"{msg}: {k} is missing")
            return
        same_value(rt, got[k], x, f"{msg}: {k}")


def same_value(rt, got, want, msg):
    got = plain(got)
    if isinstance(want, dict):
        rt.check(isinstance(got, dict), msg + ": type")
        same_fields(rt, got, want, msg)
    elif isinstance(want, list):
        rt.check(isinstance(got, list) and len(got) == len(want), msg + ": elements")
        for i, x in enumerate(want):
            same_value(rt, got[i], x, msg)
    else:
        rt.eq(got, want, msg)


def check_load(rt, log, S, data, ctx, stream, upto=None):
    """Every expected call has been made, and each with the expected arguments."""
    want = dict(data.load)
    seen = set()
    for tag, lf, c, st, at, more in log.calls:
        if tag == data.tag + "c":
            rt.fail("compute function called on load")
        if (tag, at) not in want:
            rt.fail(f"{tag} is asked at a wrong position")
            return
        rt.check(c is ctx, f"{tag}: context")
        rt.check(stream is None or st is stream, f"{tag}: stream")
        f, extra = want[tag, at]
        same_fields(rt, lf, f, f"{tag}: loaded fields")
        if tag.endswith("arr"):
            rt.check(more[0] is S.__binobj_struct__.components["arr"], "the array")
            if len(more[1]) != len(extra):
                rt.fail("number of elements so far")
                return
            rt.eq(more[1], extra, "elements so far")
        if tag.endswith(".l"):
            choices(rt, S, tag, more[0])
        seen.add((tag, at))
    for k in want:
        if upto is None or k[1] <= upto:
            rt.check(k in seen, f"{k[0]} has not been asked")


def choices(rt, S, tag, given):
    f = S.__binobj_struct__.components["u" if "u." in tag else "q"]
    want = (f.component if isinstance(f, fields.Array) else f).choices
    rt.check(len(given) == len(want) and all(g is w for g, w in zip(given, want)), f"{tag}: choices")


LOADS = ["from_stream", "from_bytes", "partial_load", "partial_load_z", "get_field", "init_kwargs"]


@case([(api, style, inner) for api in LOADS for style in ("flat", "split", "grand", "dc") for inner in INNER])
def load(rt, cfg):
    """the fields so far, the context and the stream at the field"""
    api, style, inner = cfg
    log = Log()
    S = declare(shape(log, "s.", inner), style)
    pre = 2 if api in ("from_stream", "partial_load", "get_field") else 0
    data = Data(rt, "", log, "s.", inner, pre)
    raw = data.raw
    ctx = Ctx()
    st = io.BytesIO(b"##" + raw + b"!!" if pre else raw)
    st.seek(pre)
    if api == "from_stream":
        S.from_stream(st, ctx)
    elif api == "from_bytes":
        S.from_bytes(raw, ctx)
        st = None
    elif api == "partial_load":
        S.partial_load(st, context=ctx)
    elif api == "partial_load_z":
        S.partial_load(st, "z", ctx)
    elif api == "get_field":
        S.get_field(st, "z", ctx)
    else:
        # a given value is what the functions see; it is not what is in the data
        other = rt.int("other", 0, 255)
        rt.assume(other != data.v["u"])
        S.from_stream(st, ctx, {"u": other})
        for k, (f, extra) in data.load.items():
            if k[0] != "s.leaf":
                f["u"] = other
        rt.cover("loaded")
        check_load(rt, log, S, data, ctx, st)
        return
    rt.cover("loaded")
    check_load(rt, log, S, data, ctx, st)


PLACES = ["nested", "array", "union", "optional", "deep"]


@case([(place, inner) for place in PLACES for inner in (None, "one", "union", "unions")])
def load_nested(rt, cfg):
    """a nested struct's functions see its own fields, those of the outer one the outer fields"""
    place, inner = cfg
    log = Log()
    S = declare(shape(log, "s.", inner), "flat")

    def outer(v, ctx, st):
        log.add("outer", v, ctx, st)
        return True
    if place == "nested":
        f = fields.Nested(S)
    elif place == "array":
        f = fields.Array(fields.Nested(S), count=1)
    elif place == "union":
        f = fields.Union(S, load_decider=lambda st, ch, ctx, lf: ch[0], dump_decider=lambda d, ch, ctx, af: ch[0])
    elif place == "optional":
        f = fields.Nested(S, present=lambda v, ctx, st: v["n"] == 9)
    else:
        f = fields.Nested(make(("x", U8()), ("q", fields.Nested(S)), name="Mid"))
    T = make(("n", U8(const=9)), ("q", f), ("z", U8(present=outer)), name="T")
    at = 2 if place == "deep" else 1
    data = Data(rt, "", log, "s.", inner, at)
    raw = b"\x09\x08"[:at] + data.raw + b"\x55"
    q = {"array": [data.v], "deep": {"x": 8, "q": data.v}}.get(place, data.v)
    data.load["outer", len(raw) - 1] = ({"n": 9, "q": q}, ())
    ctx = Ctx()
    st = io.BytesIO(raw)
    how = rt.choice("how", ("from_stream", "partial_load", "get_field"))
    if how == "from_stream":
        T.from_stream(st, ctx)
    elif how == "partial_load":
        T.partial_load(st, "z", context=ctx)
    else:
        T.get_field(st, "z", ctx)
    rt.cover("loaded")
    check_load(rt, log, S, data, ctx, st)


DUMPS = ["to_bytes", "to_stream", "partial_dump", "partial_dump_z", "bytes", "len", "to_dict"]


def check_dump(rt, log, S, data, ctx, written, partial=False):
    """Each call has the context, no stream and nothing but the values that are dumped."""
    full = dict(data.v)
    seen = set()
    last = {}
    for call in log.calls:
        tag, vals, c, st, _at, more = call
        rt.check(st is None, f"{tag}: stream on dump")
        rt.check(tag.endswith(".c") or c is ctx, f"{tag}: context")
        if tag == "s.leaf":
            one = vals["x"]
            match = [l for l in data.leaves if rt.holds(one == l["x"])]
            if not match:
                rt.fail("leaf: values")
                return
            rt.check(no_more(vals, match[0]), "leaf: further fields")
            if "y" in vals and "y" in match[0]:
                rt.eq(vals["y"], match[0]["y"], "leaf: y")
            continue
        # values that are there are right; at the last time all of them are there
        for k, x in vals.items():
            if k in full:
                if k not in ("q",):
                    same_value(rt, x, full[k], f"{tag}: {k}")
            else:
                rt.check(x is NOT_PRESENT, f"{tag}: {k} is absent")
        last[tag] = call
        if tag.endswith("u.d") or tag.endswith("q.d"):
            choices(rt, S, tag, more[0])
            els = full[tag[2]] if isinstance(full[tag[2]], list) else [full[tag[2]]]
            if len(els) == 2:
                rt.check(more[1] == els[0] or more[1] == els[1], f"{tag}: the data")
            else:
                same_value(rt, more[1], els[0], f"{tag}: the data")
        if tag == "s.c":
            rt.check(more[0] is S.__binobj_struct__.components["c"], "the computed field")
            rt.check(all(k in vals for k in ("a", "n", "arr", "u")), "values given to the compute function")
    for tag in ("s.p", "s.z", "s.c") + (("s.u.d",) if written else ()):
        rt.check(tag in last, f"{tag} has not been asked")
    if written:
        for tag in ("s.p", "s.z", "s.u.d"):
            if tag in last:
                # an absent field is settled before unset ones have got their values
                want = full if tag[2] in full and not partial else {"k": 7, **data.given()}
                same_fields(rt, {k: x for k, x in last[tag][1].items() if k in want and k != "q"},
                            {k: x for k, x in want.items() if k != "q"}, f"{tag}: values at the end")


@case([(api, style, inner) for api in DUMPS for style in ("flat", "split", "grand", "dc") for inner in INNER])
def dump(rt, cfg):
    """all values about to be dumped, the context and no stream"""
    api, style, inner = cfg
    log = Log()
    S = declare(shape(log, "s.", inner), style)
    data = Data(rt, "", log, "s.", inner, 0)
    s = S(**data.given())
    ctx = Ctx()
    written = True
    st = io.BytesIO()
    if api == "to_bytes":
        got = s.to_bytes(ctx)
    elif api == "to_stream":
        s.to_stream(st, ctx)
        got = st.getvalue()
    elif api == "partial_dump":
        s.partial_dump(st, context=ctx)
        got = st.getvalue()
    elif api == "partial_dump_z":
        s.partial_dump(st, "z", ctx)
        got = st.getvalue()
    elif api == "bytes":
        got = bytes(s)
        ctx = None
    else:
        written = False
        ctx = None
        if api == "len":
            rt.eq(len(s), len(data.raw), "length")
        else:
            s.to_dict()
        got = data.raw
    rt.eq(got, data.raw, "data")
    rt.cover("dumped")
    check_dump(rt, log, S, data, ctx, written, "partial" in api)


@case([(place, inner, form) for place in PLACES for inner in (None, "one", "union", "unions") for form in ("dict", "struct")])
def dump_nested(rt, cfg):
    """inside another struct"""
    place, inner, form = cfg
    log = Log()
    S = declare(shape(log, "s.", inner), "flat")
    outer = Log()

    def seen(v, ctx, st):
        outer.add("outer", v, ctx, st)
        return True
    if place == "nested":
        f = fields.Nested(S)
    elif place == "array":
        f = fields.Array(fields.Nested(S), count=1)
    elif place == "union":
        f = fields.Union(S, load_decider=lambda st, ch, ctx, lf: ch[0], dump_decider=lambda d, ch, ctx, af: ch[0])
    elif place == "optional":
        f = fields.Nested(S, present=lambda v, ctx, st: v["n"] == 9)
    else:
        M = make(("x", U8()), ("q", fields.Nested(S)), name="Mid")
        f = fields.Nested(M)
    T = make(("n", U8(const=9)), ("q", f), ("z", U8(present=seen)), name="T")
    data = Data(rt, "", log, "s.", inner, 0)
    q = data.given()
    if form == "struct":
        q = S(**q)
    if place == "array":
        q = [q]
    elif place == "deep":
        q = {"x": 8, "q": q} if form == "dict" else M(x=8, q=q)
    t = T(q=q, z=0x55)
    ctx = Ctx()
    raw = (b"\x09\x08" if place == "deep" else b"\x09") + data.raw + b"\x55"
    st = io.BytesIO()
    how = rt.choice("how", ("to_stream", "partial_dump", "field"))
    if how == "to_stream":
        t.to_stream(st, ctx)
        rt.eq(st.getvalue(), raw, "data")
    elif how == "partial_dump":
        t.partial_dump(st, "z", ctx)
        rt.eq(st.getvalue(), raw, "data")
    else:
        T.q.to_stream(st, q, ctx, {"n": 9, "q": q, "z": 0x55})
        rt.eq(st.getvalue(), raw[1:-1], "data of the field")
    rt.cover("dumped")
    check_dump(rt, log, S, data, ctx, True, how == "partial_dump")
    for _tag, vals, c, at, _pos, _more in outer.calls:
        rt.check(c is ctx and at is None, "outer condition: context and stream")
        rt.check(all(k in vals for k in ("n", "z")), "outer condition: values")
        rt.eq(vals["n"], 9, "outer condition: n")
        rt.eq(vals["z"], 0x55, "outer condition: z")


class Own(Exception):
    pass


EXC = {"own": Own, "key": KeyError, "value": ValueError, "type": TypeError, "attribute": AttributeError, "index": IndexError,
       "overflow": OverflowError, "os": OSError, "runtime": RuntimeError}
SOURCES = ["present", "halt", "ldec", "ddec", "compute", "factory", "validate", "method", "structv", "present_later"]
ON_LOAD = ["from_bytes", "from_stream", "partial_load", "partial_load_t", "get_field"]
ON_DUMP = ["to_bytes", "to_stream", "partial_dump", "partial_dump_t"]


@case([(src, e, place) for src in SOURCES for e in EXC for place in ("top", "nested", "array")])
def raising(rt, cfg):
    """what the function raises comes out as it is, through every entry point, and only when it is raised"""
    src, kind, place = cfg
    exc = EXC[kind]("mine")
    limit = rt.int("limit", 0, 255)

    def trip(value):
        if value >= limit:
            raise exc
        return value
    a, x, t = rt.int("a", 0, 255), rt.int("x", 0, 255), rt.int("t", 0, 255)
    kw, xf, loads, dumps, given = {}, None, True, True, {"a": a, "x": x, "t": t}
    extra = []
    if src in ("present", "present_later"):
        def cond(v, c, st):
            trip(v["a"])
            return True
        kw["present"] = cond
    elif src == "halt":
        def halt(seq, st, values, c, lf):
            trip(lf["a"])
            return len(values) == 1
        xf, dumps = fields.Array(U8(), halt_check=halt), False
        given["x"] = [x]
    elif src == "ldec":
        def ldec(st, ch, c, lf):
            trip(lf["a"])
            return ch[0]
        xf, dumps = fields.Union(U8(), load_decider=ldec, dump_decider=lambda d, ch, c, af: ch[0]), False
    elif src == "ddec":
        def ddec(d, ch, c, af):
            trip(af["a"])
            return ch[0]
        xf, loads = fields.Union(U8(), load_decider=lambda st, ch, c, lf: ch[0], dump_decider=ddec), False
    elif src == "compute":
        xf, loads = U8(), False
        xf.computes(lambda f, v: trip(v["a"]))
        del given["x"]
    elif src == "factory":
        xf, loads = U8(factory=lambda: trip(a)), False
        del given["x"]
    elif src == "validate":
        kw["validate"] = lambda f, v: trip(v)
    elif src == "method":
        @validates("x")
        def check(self, field, value):
            trip(value)
        extra = [("check", check)]
    elif src == "structv":
        @validates_struct
        def check(self, values):
            trip(values["a"])
        extra = [("check", check)]
    if xf is None:
        xf = U8(**kw)
    seq = [("a", U8()), ("x", xf), ("t", U8())]
    if src == "present_later":
        seq = [("a", U8()), ("t", U8()), ("x", xf)]
    S = make(*seq, *extra)
    out_x = a if src in ("compute", "factory") else x
    trigger = x if src in ("validate", "method") else a
    trips = rt.holds(trigger >= limit)
    raw = bytes([a, t, out_x] if src == "present_later" else [a, out_x, t])
    T = S
    last = seq[-1][0]
    if place == "nested":
        T = make(("g", U8(const=1)), ("s", fields.Nested(S)), ("t", U8(const=2)), name="T")
    elif place == "array":
        T = make(("g", U8(const=1)), ("s", fields.Array(fields.Nested(S), count=1)), ("t", U8(const=2)), name="T")
    if place != "top":
        raw, last = b"\1" + raw + b"\2", "t"
        given = {"s": [given] if place == "array" else given}
    ctx = Ctx()
    if trips:
        rt.cover("raised")

    def attempt(fn, msg, expected=True):
        got = None
        try:
            r = fn()
        except Exception as e:  # noqa: BLE001
            got = e
        if trips and expected:
            rt.check(got is exc, f"{msg}: the error does not reach the caller")
            return None
        rt.check(got is None, f"{msg}: raises something")
        return r
    if loads:
        for api in ON_LOAD:
            partial = "partial" in api or api == "get_field"
            # the validators of a struct are run on complete loads only
            run = not (partial and place == "top" and src in ("method", "structv"))
            if api == "from_bytes":
                r = attempt(lambda: T.from_bytes(raw, ctx), api)
            else:
                st = io.BytesIO(raw)
                r = attempt({"from_stream": lambda: T.from_stream(st, ctx), "partial_load": lambda: T.partial_load(st, context=ctx),
                             "partial_load_t": lambda: T.partial_load(st, last, ctx), "get_field": lambda: T.get_field(st, last, ctx)}[api],
                            api, run and not (api == "get_field" and last == "t" and skips(T)))
    if dumps:
        s = attempt(lambda: T(**given), "constructor", False)
        for api in ON_DUMP:
            run = not ("partial" in api and place == "top" and src in ("method", "structv"))
            st = io.BytesIO()
            attempt({"to_bytes": lambda: s.to_bytes(ctx), "to_stream": lambda: s.to_stream(st, ctx),
                     "partial_dump": lambda: s.partial_dump(st, context=ctx), "partial_dump_t": lambda: s.partial_dump(st, last, ctx)}[api],
                    api, run)


def skips(T):
    """A field at a fixed place may be read on its own."""
    f = T.__binobj_struct__.components["t"]
    return f.offset is not None
