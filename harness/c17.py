"""C17 a partial load gives the complete leading fields and rewinds to their end."""
from scn import *

BOUNDS = {"quick": "every scenario of harness/scn.py in three declaration styles and all ordered pairs of 15 kinds, the data cut at "
                   "every byte or followed by 2 arbitrary bytes; 0 or 2 bytes before; every field as the last one"}
OUTSIDE = "unseekable streams"
COVERS = {"cut": ["all", "some", "none"], "until": ["loaded", "short"]}
STYLES = [(n, s) for n in NAMES if n != "empty" for s in ("flat", "split")] + [(n, "flat") for n in PAIRS]


def greedy_len(scn, vals, n):
    """Bytes of complete elements of the final array in the first n bytes, or None if one is incomplete."""
    p = vals.offset("d")
    if n < p:
        return None
    for x in vals.full["d"]:
        if p == n:
            return p
        p += 2 if scn.name == "arr_eof" else len(x) + 1
        if p > n:
            return None
    return p


def expected(scn, vals, n):
    """(names of the complete fields, end of the last one) for the first n bytes."""
    names, end = [], 0
    for nm, b in vals.parts:
        if scn.greedy and nm == "d":
            g = greedy_len(scn, vals, n)
            if g is not None:
                names.append(nm)
                end = g
            break
        if b is not None and end + len(b) > n:
            break
        names.append(nm)
        if b is not None:
            end += len(b)
    return names, end


@case(STYLES)
def cut(rt, cfg):
    """without a last field"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    vals = scn.vals(rt)
    total = len(vals.bytes)
    n = rt.choice("cut", range(total + (1 if scn.greedy else 2)))
    post = b""
    if n > total:
        post = rt.bytes("post", 2)
        n = total
    npre = 0 if n % 2 else 2
    st = io.BytesIO(rt.bytes("pre", npre) + vals.bytes[:n] + post)
    st.seek(npre)
    names, end = expected(scn, vals, n)
    rt.cover("all" if len(names) == len(scn.names) else "some" if names else "none")
    p = S.partial_load(st, context=scn.ctx)
    rt.check(type(p) is S, "an instance of another class")
    rt.eq(st.tell(), npre + end, "position")
    got = [q for q in p]
    for i in scn.items:
        if i.discard:
            rt.check(i.name not in got, f"discarded field {i.name} is there")
        elif i.name in names:
            if scn.greedy and i.name == "d" and n < total:
                m = len([x for x in p["d"]])
                for j in range(m):
                    KINDS["u16b" if name == "arr_eof" else "strz"].same(rt, p["d"][j], vals.full["d"][j], "element")
                continue
            i.same(rt, p[i.name], vals.loaded[i.name], f"field {i.name}")
            rt.check(i.name in got, f"field {i.name} is not there")
        else:
            rt.check(i.name not in got, f"incomplete field {i.name} is there")


@case(STYLES)
def until(rt, cfg):
    """with a last field"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    vals = scn.vals(rt)
    last = rt.choice("last", scn.names)
    total = len(vals.bytes)
    n = rt.choice("cut", (total, max(0, len(vals.prefix(last)) - 1), vals.offset(last), len(vals.prefix(last))))
    st = io.BytesIO(b"ab" + vals.bytes[:n])
    st.seek(2)
    names, end = expected(scn, vals, n)
    if last in names:
        rt.cover("loaded")
        p = S.partial_load(st, last, scn.ctx)
        upto = scn.names[:scn.names.index(last) + 1]
        if not (scn.greedy and last == "d"):
            rt.eq(st.tell(), 2 + len(vals.prefix(last)), "position")
            scn.same(rt, p, vals, "partial", upto)
        got = [q for q in p]
        for nm in scn.names:
            if nm not in upto:
                rt.check(nm not in got, f"field {nm} behind the last one is there")
            elif not scn.item(nm).discard:
                rt.check(nm in got, f"field {nm} is not there")
    else:
        rt.cover("short")
        rt.raises((errors.UnexpectedEOFError,), lambda: S.partial_load(st, last, scn.ctx), "incomplete data")
    st.seek(2)
    rt.raises((ValueError,), lambda: S.partial_load(st, "nope", scn.ctx), "unknown field")
    rt.raises((ValueError,), lambda: S.partial_load(st, "", scn.ctx), "unknown field")


@case([k for k in ALL_KINDS if k != "bytes0"])
def kinds(rt, cfg):
    """a field of each kind as the incomplete one, inside an array, a nested struct and a union"""
    k = KINDS[cfg]
    v = k.val(rt, "v")
    b = k.ref(rt, v)
    In = make(("x", k.field()), name="In")
    how = rt.choice("how", ("arr", "nest", "uni", "cond", "null"))
    f = {"arr": lambda: fields.Array(k.field(), count=1), "nest": lambda: fields.Nested(In),
         "uni": lambda: fields.Union(k.field(), load_decider=lambda s, c, x, l: c[0], dump_decider=lambda d, c, x, l: c[0]),
         "cond": lambda: k.field(present=lambda v, *_: v["a"] < 9),
         "null": lambda: k.field(null_value=b"\xEE" * 40)}[how]()
    S = make(("a", fields.UInt8()), ("f", f), ("t", fields.UInt8()))
    n = rt.choice("cut", range(len(b) + 2))
    st = io.BytesIO(b"@\x05" + (b + b"\x07")[:n])
    st.seek(1)
    p = S.partial_load(st)
    if n == len(b) + 1:
        rt.check([q for q in p] == ["a", "f", "t"], "complete")
        rt.eq(st.tell(), 3 + len(b), "position")
    elif n == len(b):
        rt.check([q for q in p] == ["a", "f"], "one field missing")
        rt.eq(st.tell(), 2 + len(b), "position")
    else:
        rt.check([q for q in p] == ["a"], "two fields missing")
        rt.eq(st.tell(), 2, "position")
        st.seek(1)
        rt.raises((errors.UnexpectedEOFError,), lambda: S.partial_load(st, "f"), "incomplete")
        st.seek(1)
        rt.raises((errors.UnexpectedEOFError,), lambda: S.partial_load(st, "t"), "incomplete")


@case(list(range(4)))
def other_errors(rt, cfg):
    """errors other than running out of data come out"""
    S = [make(("a", fields.UInt8(const=3)), ("b", fields.UInt8())),
         make(("a", fields.UInt8()), ("b", fields.Bytes(size="a"))),
         make(("a", fields.Int8()), ("b", fields.Bytes(size="a"))),
         make(("z", fields.UInt8()), ("a", fields.UInt8(validate=lambda f, v: 1 // (v - 3))))][cfg]
    d = rt.bytes("d", 3)
    st = io.BytesIO(d)
    if cfg == 0:
        if rt.holds(d[0] == 3):
            rt.eq(S.partial_load(st).b, d[1], "second field")
        else:
            rt.raises((errors.ValidationError,), lambda: S.partial_load(st), "a wrong constant is accepted")
    elif cfg == 1:
        p = S.partial_load(st)
        if rt.holds(d[0] > 2):
            rt.check([q for q in p] == ["a"], "complete fields")
            rt.eq(st.tell(), 1, "position")
        else:
            rt.eq(p.b, d[1:1 + p.a], "sized field")
    elif cfg == 2:
        if rt.holds(d[0] >= 128):
            rt.raises((errors.DeserializationError,), lambda: S.partial_load(st), "negative size")
    else:
        if rt.holds(d[1] == 3):
            rt.raises((ZeroDivisionError,), lambda: S.partial_load(st), "validator not run")
        else:
            rt.eq(S.partial_load(st).a, d[1], "second field")
