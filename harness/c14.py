"""C14 loading consumes exactly the struct's bytes; extra data is rejected when exact."""
from scn import *

BOUNDS = {"quick": "every scenario of harness/scn.py in three declaration styles and all ordered pairs of 15 kinds; 0..2 arbitrary "
                   "bytes before and 0, 1 or 4 arbitrary bytes after the struct"}
OUTSIDE = "unseekable streams"
COVERS = {"stream": ["followed"], "bytes_": ["extra", "none"]}
STYLES = [(n, s) for n in NAMES for s in (("flat", "dc", "split") if n != "empty" else ("flat",))] + \
    [(n, "flat") for n in PAIRS]


@case(STYLES)
def stream(rt, cfg):
    """position after from_stream, whatever is before and after"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    vals = scn.vals(rt)
    data = vals.bytes
    npre, npost = rt.choice("around", ((0, 0), (2, 0)) if scn.greedy else ((0, 0), (2, 0), (2, 4), (0, 1)))
    pre, post = rt.bytes("pre", npre), rt.bytes("post", npost)
    st = io.BytesIO(pre + data + post)
    st.seek(npre)
    s = S.from_stream(st, scn.ctx)
    scn.same(rt, s, vals, "loaded")
    rt.eq(st.tell(), npre + len(data), "position after the load")
    rt.eq(st.read(), post, "what follows")
    if npost:
        rt.cover("followed")
        # field by field
        st.seek(npre)
        got = {}
        for n, b in vals.parts:
            f = S.__binobj_struct__.components[n]
            got[n] = f.from_stream(st, scn.ctx, got)
            rt.eq(st.tell(), npre + len(vals.prefix(n)), f"position after field {n}")
    rt.eq(st.getvalue(), pre + data + post, "loading changed the stream")


@case([c for c in STYLES if c[1] != "split"])
def bytes_(rt, cfg):
    """from_bytes with and without extra bytes"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    vals = scn.vals(rt)
    data = vals.bytes
    n = rt.choice("extra", (0,) if scn.greedy else (0, 1, 4))
    post = rt.bytes("post", n)
    if n:
        rt.cover("extra")
        rt.raises((errors.ExtraneousDataError,), lambda: S.from_bytes(data + post, scn.ctx), "extra bytes are accepted")
        rt.raises((errors.ExtraneousDataError,), lambda: S.from_bytes(data + post, scn.ctx, exact=True),
                  "extra bytes are accepted")
    else:
        rt.cover("none")
        scn.same(rt, S.from_bytes(data, scn.ctx), vals, "exact")
        scn.same(rt, S.from_bytes(data, scn.ctx, exact=True), vals, "exact")
    scn.same(rt, S.from_bytes(data + post, scn.ctx, exact=False), vals, "not exact")


@case([n for n in NAMES if n != "empty"])
def field(rt, cfg):
    """the same for the fields on their own"""
    scn = scenario(cfg)
    S = scn.cls()
    vals = scn.vals(rt)
    nm = rt.choice("field", [n for n, b in vals.parts if not (scn.greedy and n == "d")])
    b = dict(vals.parts)[nm]
    if b is None:
        b = b""
    i = scn.item(nm)
    f = S.__binobj_struct__.components[nm]
    want = vals.loaded.get(nm, vals.full[nm])
    n = rt.choice("extra", (0, 1, 3))
    post = rt.bytes("post", n)
    lf = dict(vals.full)
    if n:
        rt.raises((errors.ExtraneousDataError,), lambda: f.from_bytes(b + post, scn.ctx, loaded_fields=lf),
                  "extra bytes are accepted")
    else:
        i.same(rt, f.from_bytes(b, scn.ctx, loaded_fields=lf), want, "exact")
    i.same(rt, f.from_bytes(b + post, scn.ctx, exact=False, loaded_fields=lf), want, "not exact")
    st = io.BytesIO(b"#" + b + post)
    st.seek(1)
    i.same(rt, f.from_stream(st, scn.ctx, lf), want, "from a stream")
    rt.eq(st.tell(), 1 + len(b), "position")


@case([(a, b) for a in ("fixed_var_fixed", "sized_obj", "cond", "union_field", "nest_map", "null_val", "arr_halt", "k_leb")
       for b in ("all_fixed", "counted_name", "cond_npv", "one_var", "empty")])
def in_a_row(rt, cfg):
    """two structs one after the other in one stream"""
    x, y = scenario(cfg[0]), scenario(cfg[1])
    X, Y = x.cls(), y.cls()
    vx, vy = x.vals(rt, "x."), y.vals(rt, "y.")
    st = io.BytesIO()
    X(**vx.assign).to_stream(st)
    Y(**vy.assign).to_stream(st)
    rt.eq(st.getvalue(), vx.bytes + vy.bytes, "dumped one after the other")
    st.seek(0)
    x.same(rt, X.from_stream(st), vx, "first")
    y.same(rt, Y.from_stream(st), vy, "second")
    rt.eq(st.tell(), len(vx.bytes) + len(vy.bytes), "position")
