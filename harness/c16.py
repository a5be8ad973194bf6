"""C16 reading a single field equals loading everything and picking that field."""
from scn import *

BOUNDS = {"quick": "every scenario of harness/scn.py in three declaration styles and all ordered pairs of 15 kinds, every field; "
                   "0 or 3 arbitrary bytes before, 0 or 2 after; truncation at every byte"}
OUTSIDE = "discarded fields (get_field does not return them)"
COVERS = {"read": ["direct", "sequential"]}
STYLES = [(n, s) for n in NAMES if n != "empty" for s in ("flat", "dc", "split")] + [(n, "flat") for n in PAIRS]


@case(STYLES)
def read(rt, cfg):
    """every field, at any position of the stream"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    vals = scn.vals(rt)
    npre, npost = rt.choice("around", ((0, 0), (3, 0)) if scn.greedy else ((0, 2), (3, 0)))
    pre, post = rt.bytes("pre", npre), rt.bytes("post", npost)
    st = io.BytesIO(pre + vals.bytes + post)
    st.seek(npre)
    full = S.from_stream(st, scn.ctx)
    for i in scn.items:
        if i.discard:
            continue
        rt.cover("direct" if S.__binobj_struct__.components[i.name].offset is not None else "sequential")
        st.seek(npre)
        got = S.get_field(st, i.name, scn.ctx)
        i.same(rt, got, vals.loaded[i.name], f"get_field {i.name}")
        rt.eq(st.tell(), npre, f"position after get_field {i.name}")
        if got is not NOT_PRESENT:
            rt.eq(got, full[i.name], f"get_field {i.name} against the full load")
        if not i.discard and scn.ctx is None:
            rt.same(S.get_field(st, i.name) is not UNDEFINED, True, "again")
            rt.eq(st.tell(), npre, "position after the second get_field")
    rt.eq(st.getvalue(), pre + vals.bytes + post, "get_field changed the stream")


@case([n for n in NAMES if n != "empty"])
def cut(rt, cfg):
    """errors leave the position alone"""
    scn = scenario(cfg)
    S = scn.cls()
    vals = scn.vals(rt)
    n = rt.choice("cut", range(len(vals.bytes) + 1))
    st = io.BytesIO(b"###" + vals.bytes[:n])
    st.seek(3)
    for i in scn.items:
        if i.discard or (scn.greedy and i.name == "d"):
            continue
        try:
            got = S.get_field(st, i.name, scn.ctx)
        except errors.Error:
            rt.check(vals.offset(i.name) + len(dict(vals.parts)[i.name] or b"") > n, f"complete field {i.name} is not read")
        else:
            rt.check(len(dict(vals.parts)[i.name] or b"") == 0 or len(vals.prefix(i.name)) <= n,
                     f"incomplete field {i.name} is read")
            i.same(rt, got, vals.loaded[i.name], f"get_field {i.name}")
        rt.eq(st.tell(), 3, f"position after get_field {i.name}")
    for bad in ("nope", "", "__init__", "to_bytes"):
        rt.raises((ValueError,), lambda: S.get_field(st, bad, scn.ctx), "unknown field")
        rt.eq(st.tell(), 3, "position after an unknown field")


@case(list(range(8)))
def failing(rt, cfg):
    """fields that cannot be loaded: the error comes out, the position stays"""
    class Boom(Exception):
        pass

    def boom(*a):
        raise Boom()
    S = [make(("a", fields.UInt8(validate=boom))),
         make(("z", fields.StringZ()), ("a", fields.UInt8(validate=boom))),
         make(("z", fields.StringZ(validate=boom)), ("a", fields.UInt8())),
         make(("z", fields.UInt8()), ("a", fields.UInt8(const=77))),
         make(("z", fields.StringZ()), ("a", fields.UInt8(const=77))),
         make(("z", fields.UInt8(present=boom)), ("a", fields.UInt8())),
         make(("z", fields.UInt8()), ("a", fields.Union(fields.UInt8(), load_decider=boom, dump_decider=boom))),
         make(("z", fields.StringZ()), ("a", fields.Array(fields.UInt8(), halt_check=boom)))][cfg]
    d = rt.bytes("d", 2)
    rt.assume(d[0] > 0 and d[0] != 77 and d[1] != 77)
    p = rt.choice("pos", (0, 5))
    st = io.BytesIO(b"\x01" * p + d[:1] + b"\0" + d[1:] if cfg in (1, 2, 4, 7) else b"\x01" * p + d)
    st.seek(p)
    rt.raises((Boom, errors.ValidationError), lambda: S.get_field(st, "a"), "no error")
    rt.eq(st.tell(), p, "position after the error")


@case([(k, o) for k in ALL_KINDS for o in ("fixed", "var", "cond", "first")])
def kinds(rt, cfg):
    """arbitrary bytes: the same as the full load, or the same kind of failure"""
    kind, where = cfg
    k = KINDS[kind]
    lead = {"fixed": [("a", fields.UInt16())], "var": [("a", fields.StringZ())], "first": [],
            "cond": [("f", fields.UInt8()), ("a", fields.UInt8(present=lambda v, *_: v["f"] > 100))]}[where]
    S = make(*lead, ("x", k.field()))
    head = {"fixed": b"ab", "var": b"q\0", "first": b"", "cond": None}[where]
    if head is None:
        f = rt.int("f", 0, 255)
        head = bytes([f, 7]) if rt.holds(f > 100) else bytes([f])
    v = k.val(rt, "v")
    data = head + k.ref(rt, v)
    st = io.BytesIO(b"!" + data + b"?")
    st.seek(1)
    k.same(rt, S.get_field(st, "x"), v, "get_field")
    rt.eq(st.tell(), 1, "position")
