"""C24 arrays hold exactly the elements their count, halt check or the end of data determine."""
from scn import *

BOUNDS = {"quick": "arrays of 0..3 elements of every field kind (and of arrays, optional, nullable and constant elements), counts given as a "
                   "number, a field, a name, of the same or a parent class, computed; count values 0..255 against 0..4 elements; "
                   "lists, tuples, iterators, generators and views; arbitrary input bytes after, before and cut anywhere"}
OUTSIDE = "a custom halt check together with a count; negative counts; components that can be absent in arrays that end with the data"
ASSUMPTIONS = ["the component of an array without count takes up at least one byte"]
COVERS = {"counted": ["load", "dump"], "wrong_length": ["right", "wrong"], "symbolic_count": ["loaded", "short"],
          "to_end": ["loaded", "cut"], "halting": ["loaded", "eof"]}

U8 = fields.UInt8
CTX = object()


def gen(items):
    for x in items:
        yield x


SEQS = {"list": list, "tuple": tuple, "iter": iter, "gen": gen, "view": lambda v: dict(enumerate(v)).values()}


def same_list(k, rt, got, vals, msg):
    rt.check(type(got) is list, msg + ": not a list")
    rt.check(len(got) == len(vals), msg + ": number of elements")
    for i, v in enumerate(vals):
        k.same(rt, got[i], v, f"{msg}: element {i}")


def declare(how, comp, n):
    """(struct class, the bytes before the array, constructor arguments of the fields before it)."""
    if how == "const":
        return make(("x", fields.Array(comp, count=n)), ("t", U8())), b"", {}
    if how == "none":
        return make(("x", fields.Array(comp))), b"", {}
    c = U8()
    if how in ("field", "name"):
        S = make(("c", c), ("b", U8(default=5)), ("x", fields.Array(comp, count=c if how == "field" else "c")), ("t", U8()))
        return S, bytes([n, 5]), {"c": n}
    if how == "computed":
        x = fields.Array(comp, count=c)
        S = make(("c", c), ("x", x), ("t", U8()), ("f", c.computes(lambda self, v: len(v["x"]))))
        return S, bytes([n]), {}
    if how == "dc":
        S = binobj.dataclass(type("D", (binobj.Struct,), {"__annotations__": {"c": c, "x": fields.Array(comp, count=c), "t": U8()}}))
        return S, bytes([n]), {"c": n}
    P = make(("c", c), name="P")
    return make(("x", fields.Array(comp, count=c if how == "parent" else "c")), ("t", U8()), base=P), bytes([n]), {"c": n}


@case([(k, n, h) for k in ALL_KINDS for n in (0, 1, 2, 3) for h in ("const", "field", "name", "parent", "parentname", "computed", "dc")
       if n in (0, 2) and (h in ("const", "field", "name") or k in ("u8", "u16b", "strz", "nest"))
       or k in ("u8", "vlq", "strz", "nestvar")])
def counted(rt, cfg):
    """the elements in order, and nothing else"""
    kind, n, how = cfg
    k = KINDS[kind]
    vals = [k.val(rt, f"v{i}") for i in range(n)]
    S, before, args = declare(how, k.field(), n)
    body = cat([k.ref(rt, v) for v in vals])
    raw = before + body + b"\x09"
    after = rt.bytes("after", 2)
    rt.cover("load")
    s = S.from_bytes(raw)
    same_list(k, rt, s.x, vals, "load")
    rt.check(s.t == 9, "what follows")
    st = io.BytesIO(b"zz" + raw + after)
    st.seek(2)
    s = S.from_stream(st)
    same_list(k, rt, s.x, vals, "from_stream")
    rt.check(st.tell() == 2 + len(raw), "position after loading")
    seqs = [q for q in SEQS if how != "computed" or q in ("list", "tuple", "view")]
    for q in seqs:
        rt.eq(S(**args, x=SEQS[q](vals), t=9).to_bytes(), raw, f"dump of a {q}")
    rt.cover("dump")
    rt.eq(s.to_bytes(), raw, "dump of the loaded struct")
    rt.check(len(s) == len(raw), "size")
    f = S.x
    lf = {} if how == "const" else {"c": n}
    st = io.BytesIO(b"z" + body + after)
    st.seek(1)
    same_list(k, rt, f.from_stream(st, None, lf), vals, "field alone")
    rt.check(st.tell() == 1 + len(body), "position of the field alone")
    same_list(k, rt, f.from_bytes(body, None, True, lf), vals, "field alone, bytes")
    for q in seqs:
        rt.eq(f.to_bytes(SEQS[q](vals), None, lf), body, f"field alone, dump of a {q}")
    rt.raises((errors.ExtraneousDataError,), lambda: f.from_bytes(body + after, None, True, lf), "leftover")
    want = k.size * n if how == "const" and k.size is not None else None
    rt.check(f.size == want, "size of the array field")
    if body:
        rt.raises((errors.DeserializationError,), lambda: f.from_bytes(body[:-1], None, True, lf), "cut")


@case([(k, n, how, q) for k in ("u8", "u16b", "strz", "nest") for n in range(0, 4) for how in ("const", "field", "name", "parent", "dc")
       for q in SEQS if k in ("u8", "strz") or q in ("list", "gen")])
def wrong_length(rt, cfg):
    """a sequence of another length than the count is refused"""
    kind, n, how, q = cfg
    k = KINDS[kind]
    count = rt.int("count", 0, 255) if how != "const" else rt.choice("const", (0, 1, 2, 3))
    vals = [k.val(rt, f"v{i}") for i in range(n)]
    S, _before, args = declare(how, k.field(), count)
    body = cat([k.ref(rt, v) for v in vals])
    s = S(**args, x=SEQS[q](vals), t=9)
    lf = dict(args)
    st = io.BytesIO()
    if rt.holds(count == n):
        rt.cover("right")
        mid = b"\x05" if how in ("field", "name") else b""
        want = (b"" if how == "const" else bytes([count])) + mid + body
        rt.eq(s.to_bytes(), want + b"\x09", "dump")
        rt.eq(S.x.to_bytes(SEQS[q](vals), None, lf), body, "field alone")
    else:
        rt.cover("wrong")
        e = rt.raises((errors.ArraySizeError,), lambda: s.to_bytes(), "another number of elements")
        rt.eq(e.n_expected, count, "expected count in the error")
        rt.raises((errors.ArraySizeError,), lambda: S.x.to_stream(st, SEQS[q](vals), None, lf), "field alone")
        rt.eq(st.getvalue(), b"", "something was written")
        rt.raises((errors.ArraySizeError,), lambda: S(**args, x=SEQS[q](vals), t=9).partial_dump(io.BytesIO(), "x"), "partial dump")


@case([(k, m, how, cut) for k in ("u8", "u16l", "i24b", "vlq", "strz", "strz16", "nest", "nestvar", "arr3", "uuid1", "f32l")
       for m in (0, 1, 3) for how in ("field", "name", "parent", "dc") for cut in (0, 1) if m or not cut])
def symbolic_count(rt, cfg):
    """any count value against any number of elements in the data"""
    kind, m, how, cut = cfg
    k = KINDS[kind]
    count = rt.int("count", 0, 255)
    vals = [k.val(rt, f"v{i}") for i in range(m)]
    S, _b, _a = declare(how, k.field(), 0)
    body = cat([k.ref(rt, v) for v in vals])
    if cut:
        body = body[:-1]
    head = (b"" if how == "parent" or how == "dc" else b"\x05")
    st = io.BytesIO(bytes([count]) + head + body)
    avail = m - cut
    if rt.holds(count > avail):
        rt.cover("short")
        rt.raises((errors.UnexpectedEOFError,), lambda: S.partial_load(st, "x"), "more elements than data")
        st.seek(0)
        rt.raises((errors.UnexpectedEOFError,), lambda: S.from_stream(st), "more elements than data, from_stream")
        st.seek(0)
        rt.raises((errors.UnexpectedEOFError,), lambda: S.get_field(st, "x"), "more elements than data, get_field")
        st.seek(0)
        p = S.partial_load(st)
        rt.check(p.c == count and "x" not in [f for f in p], "partial load up to the array")
        rt.check(st.tell() == 1 + len(head), "position of the partial load")
    else:
        rt.cover("loaded")
        p = S.partial_load(st, "x")
        used = cat([k.ref(rt, v) for v in vals[:len(p.x)]])
        rt.eq(len(p.x), count, "number of elements")
        same_list(k, rt, p.x, vals[:len(p.x)], "load")
        rt.check(st.tell() == 1 + len(head) + len(used), "position")
        st.seek(0)
        same_list(k, rt, S.get_field(st, "x"), vals[:len(p.x)], "get_field")


@case([(k, m, cut) for k in ALL_KINDS if k != "bytes0" for m in (0, 1, 2, 3) for cut in (0, 1) if (m or not cut)
       and (m in (0, 2) or k in ("u8", "u16b", "strz", "nest", "vlq"))])
def to_end(rt, cfg):
    """without count the elements go on to the end of the data"""
    kind, m, cut = cfg
    k = KINDS[kind]
    vals = [k.val(rt, f"v{i}") for i in range(m)]
    body = cat([k.ref(rt, v) for v in vals])
    f = fields.Array(k.field())
    S = make(("a", U8()), ("x", f))
    if cut:
        if len(k.ref(rt, vals[-1])) == 1:
            body, vals, cut = body[:-1], vals[:-1], 0
        else:
            body = body[:-1]
    st = io.BytesIO(b"z\x07" + body)
    st.seek(1)
    if cut:
        rt.cover("cut")
        rt.raises((errors.UnexpectedEOFError, errors.DeserializationError), lambda: S.from_stream(st), "the last element is cut off")
        rt.raises((errors.UnexpectedEOFError, errors.DeserializationError), lambda: f.from_bytes(body), "field alone, cut")
        return
    rt.cover("loaded")
    s = S.from_stream(st)
    same_list(k, rt, s.x, vals, "load")
    rt.check(st.tell() == 2 + len(body) and s.a == 7, "position")
    same_list(k, rt, f.from_bytes(body), vals, "field alone")
    for q in SEQS:
        rt.eq(S(a=7, x=SEQS[q](vals)).to_bytes(), b"\x07" + body, f"dump of a {q}")
        rt.eq(f.to_bytes(SEQS[q](vals)), body, f"field alone, dump of a {q}")
    rt.check(len(S(a=7, x=vals)) == 1 + len(body) and S.get_size() is None and f.size is None, "sizes")


@case([(k, m, how, style) for k in ("u8", "u16b", "vlq", "strz", "nest") for m in (1, 2, 3)
       for how in ("values", "peek", "fields", "context") for style in ("arg", "sub", "substatic")])
def halting(rt, cfg):
    """a halt check decides after each element, and is given the array, stream, elements, context and fields"""
    kind, m, how, style = cfg
    k = KINDS[kind]
    stop = rt.int("stop", 0, 4)
    vals = [k.val(rt, f"v{i}") for i in range(m)]
    refs = [k.ref(rt, v) for v in vals]
    calls = []

    def halt(seq, stream, values, context, loaded):
        calls.append((seq, list(values), context, loaded, stream.tell()))
        if how == "values":
            return len(values) >= stop
        if how == "peek":
            return stream.tell() >= stop + 2
        if how == "fields":
            return len(values) >= loaded["a"]
        return len(values) >= context[0]

    class Sub(fields.Array):
        pass
    if style == "arg":
        f = fields.Array(k.field(), halt_check=halt)
    elif style == "sub":
        class Sub(fields.Array):
            def should_halt(self, seq, stream, values, context, loaded):
                return halt(seq, stream, values, context, loaded)
        f = Sub(k.field())
    else:
        class Sub(fields.Array):
            should_halt = staticmethod(halt)
        f = Sub(k.field())
    S = make(("a", U8()), ("x", f))
    if how == "peek":           # positions: the array starts at 1, so it stops at the first element end >= stop + 2
        n, pos = 0, 1
        while n < m and rt.holds(pos < stop + 2):
            pos += len(refs[n])
            n += 1
        more = n == m and rt.holds(pos < stop + 2)
    else:
        n = 0
        while n < m and rt.holds(n < stop):
            n += 1
        more = n == m and rt.holds(stop > m)
    ctx = [stop]
    st = io.BytesIO(bytes([stop]) + cat(refs))
    if more:
        rt.cover("eof")
        rt.raises((errors.UnexpectedEOFError,), lambda: S.from_stream(st, ctx), "the check wants more elements than there are")
        return
    rt.cover("loaded")
    s = S.from_stream(st, ctx)
    same_list(k, rt, s.x, vals[:n], "load")
    rt.check(st.tell() == 1 + len(cat(refs[:n])), "position")
    rt.check(len(calls) == n + 1, "one check before each element and one at the end")
    pos = 1
    for i, (seq, values, context, loaded, at) in enumerate(calls):
        rt.check(seq is f and context is ctx and at == pos, "arguments of the check")
        rt.eq(loaded["a"], stop, "loaded fields given to the check")
        same_list(k, rt, values, vals[:i], "elements given to the check")
        if i < n:
            pos += len(refs[i])
    rt.eq(S(a=stop, x=vals).to_bytes(), bytes([stop]) + cat(refs), "dumping takes all elements")


@case([(a, b, how) for a in range(0, 3) for b in range(0, 3) for how in ("const", "field", "inner", "ragged")])
def nested_arrays(rt, cfg):
    """arrays of arrays and of structs with arrays"""
    a, b, how = cfg
    v = [[rt.int(f"v{i}.{j}", 0, 255) for j in range(b if how != "ragged" else (b + i) % 3)] for i in range(a)]
    flat = cat([bytes(r) for r in v])
    if how == "const":
        S = make(("x", fields.Array(fields.Array(U8(), count=b), count=a)), ("t", U8()))
        raw, s = flat + b"\x01", S(x=v, t=1)
        rt.check(S.get_size() == a * b + 1 and S.t.offset == a * b, "size")
    elif how == "field":
        n, m = U8(), U8()
        S = make(("n", n), ("m", m), ("x", fields.Array(fields.Array(U8(), count=m), count=n)), ("t", U8()))
        raw, s = bytes([a, b]) + flat + b"\x01", S(n=a, m=b, x=v, t=1)
    else:
        c = U8()
        E = make(("c", c), ("e", fields.Array(U8(), count=c)))
        S = make(("x", fields.Array(fields.Nested(E), count=a)), ("t", U8()))
        raw = cat([bytes([len(r)]) + bytes(r) for r in v]) + b"\x01"
        s = S(x=[{"c": len(r), "e": r} for r in v], t=1)
        back = S.from_bytes(raw)
        rt.check(len(back.x) == a, "number of structs")
        for i, r in enumerate(v):
            rt.check(isinstance(back.x[i], E), "type of the element")
            rt.same(back.x[i].e, r, "inner array")
        rt.eq(back.to_bytes(), raw, "dump again")
        rt.eq(S(x=[E(c=len(r), e=r) for r in v], t=1).to_bytes(), raw, "dump of instances")
        rt.eq(back.to_dict(), {"x": [{"c": len(r), "e": r} for r in v], "t": 1}, "to_dict")
    rt.eq(s.to_bytes(), raw, "dump")
    back = S.from_bytes(raw)
    rt.eq(back.to_bytes(), raw, "round trip")
    rt.check(back.t == 1 and len(back) == len(raw), "what follows")
    if how in ("const", "field"):
        rt.eq(back.x, v, "load")
        rt.eq(back.to_dict()["x"], v, "to_dict")
    if a and b:
        short = S.from_bytes(raw)
        del short.x[-1]
        rt.raises((errors.ArraySizeError,), lambda: short.to_bytes(), "an element was removed from the loaded array")


@case(["null", "const", "validated", "default"])
def element_options(rt, cfg):
    """options of the component apply to each element"""
    n = rt.choice("n", (0, 1, 2, 3))
    v = [rt.int(f"v{i}", 0, 255) for i in range(n)]
    bad = rt.int("bad", 0, 255)

    def refuse(field, value):
        if rt.holds(value == bad):
            raise errors.ValidationError(field=field, value=value)
    c = U8()
    comp = {"null": lambda: U8(null_value=b"\x07"), "const": lambda: U8(const=bad), "validated": lambda: U8(validate=refuse),
            "default": lambda: U8(default=bad)}[cfg]()
    S = make(("c", c), ("x", fields.Array(comp, count=c)))
    raw = bytes([n]) + bytes(v)
    if cfg == "null":
        want = [None if rt.holds(e == 7) else e for e in v]
        s = S.from_bytes(raw)
        for g, w in zip(s.x, want):
            rt.same(g, w, "element")
        rt.eq(s.to_bytes(), raw, "dump")
        rt.eq(S(c=n, x=want).to_bytes(), raw, "None as an element")
    elif cfg == "default":
        rt.eq(S(c=n, x=v).to_bytes(), raw, "dump")
        rt.raises((errors.ArraySizeError,), lambda: S(c=n + 1, x=v).to_bytes(), "defaults do not fill up an array")
        rt.eq(S(c=n, x=[DEFAULT] * n).to_bytes(), bytes([n]) + bytes([bad] * n), "DEFAULT as an element")
    else:
        ok = all([rt.holds((e == bad) == (cfg == "const")) for e in v])
        if ok:
            rt.same(S.from_bytes(raw).x, v, "load")
            rt.eq(S(c=n, x=v).to_bytes(), raw, "dump")
        else:
            rt.raises((errors.ValidationError,), lambda: S.from_bytes(raw), "load")
            if cfg == "validated":
                st = io.BytesIO()
                rt.raises((errors.ValidationError,), lambda: S.x.to_stream(st, v, None, {"c": n}), "dump")
                rt.eq(st.getvalue(), b"", "something was written")


@case([True, False, 1.5, b"x", (), [2]])
def bad_count(rt, cfg):
    """a count of another type is refused when the field is created"""
    v = rt.int("v", 0, 255)
    rt.raises((TypeError,), lambda: fields.Array(U8(), count=cfg), "count type")
    rt.eq(fields.Array(U8(), count=1).to_bytes([v]), bytes([v]), "a proper count")


@case(["unbound", "missing", "missing_standalone"])
def bad_reference(rt, cfg):
    """a count that refers to no field is reported"""
    v = rt.int("v", 0, 255)
    if cfg == "unbound":
        f = fields.Array(U8(), count=U8())
        rt.raises((errors.ConfigurationError,), lambda: f.to_bytes([v]), "dump")
        rt.raises((errors.ConfigurationError,), lambda: f.from_bytes(bytes([v])), "load")
        return
    f = fields.Array(U8(), count="c")
    if cfg == "missing":
        S = make(("a", U8()), ("x", f))
        rt.raises((errors.FieldReferenceError,), lambda: S(a=v, x=[v]).to_bytes(), "dump")
        rt.raises((errors.FieldReferenceError,), lambda: S.from_bytes(bytes([v, v])), "load")
    else:
        rt.raises((errors.FieldReferenceError,), lambda: f.to_bytes([v]), "dump")
        rt.raises((errors.FieldReferenceError,), lambda: f.from_bytes(bytes([v])), "load")
        rt.eq(f.to_bytes([v], None, {"c": 1}), bytes([v]), "with the field's value")
        rt.eq(f.from_bytes(bytes([v]), None, True, {"c": 1}), [v], "with the field's value, load")
