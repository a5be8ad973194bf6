"""C18 a partial dump is a prefix of the full dump, ending at a field boundary."""
from scn import *

BOUNDS = {"quick": "every scenario of harness/scn.py in three declaration styles and all ordered pairs of 15 kinds, every field as "
                   "the last one, every independent required field missing"}
OUTSIDE = "fields missing on which others depend; unseekable streams"
COVERS = {"prefix": ["named", "whole"], "missing": ["before", "after", "unnamed"]}


@case([(n, s) for n in NAMES if n != "empty" for s in ("flat", "dc", "split")] + [(n, "flat") for n in PAIRS])
def prefix(rt, cfg):
    """up to every field, and without a name"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    vals = scn.vals(rt)
    s = S(**vals.assign)
    for nm in scn.names:
        rt.cover("named")
        st = io.BytesIO(b"zz")
        st.seek(2)
        s.partial_dump(st, nm, scn.ctx)
        rt.eq(st.getvalue(), b"zz" + vals.prefix(nm), f"up to {nm}")
        rt.eq(st.tell(), 2 + len(vals.prefix(nm)), f"position after {nm}")
    rt.cover("whole")
    st = io.BytesIO()
    s.partial_dump(st, context=scn.ctx)
    rt.eq(st.getvalue(), vals.bytes, "all of it")
    rt.eq(s.to_bytes(scn.ctx), vals.bytes, "full dump afterwards")


@case([(n, s) for n, x in SCNS().items() if any([i.free for i in x.items]) for s in ("flat", "split")])
def missing(rt, cfg):
    """one required field has no value"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    vals = scn.vals(rt)
    gone = rt.choice("gone", [i.name for i in scn.items if i.free])
    vals.assign.pop(gone)
    s = S(**vals.assign)
    k = scn.names.index(gone)
    before = vals.prefix(scn.names[k - 1]) if k else b""
    st = io.BytesIO()
    s.partial_dump(st, context=scn.ctx)
    rt.cover("unnamed")
    rt.eq(st.getvalue(), before, "longest prefix with values")
    for j, nm in enumerate(scn.names):
        st = io.BytesIO()
        if j < k:
            rt.cover("before")
            s.partial_dump(st, nm, scn.ctx)
            rt.eq(st.getvalue(), vals.prefix(nm), f"up to {nm}")
        else:
            rt.cover("after")
            rt.raises((errors.MissingRequiredValueError,), lambda: s.partial_dump(st, nm, scn.ctx), f"up to {nm}")
            rt.check(before == st.getvalue() or before[:len(st.getvalue())] == st.getvalue(), "wrote something else")


@case(list(range(6)))
def nested_missing(rt, cfg):
    """an incomplete nested struct counts as missing"""
    In = make(("p", fields.UInt8()), ("q", fields.UInt8()), name="In")
    a, p = rt.int("a", 0, 255), rt.int("p", 0, 255)
    bad = [In(p=p), {"p": p}, [In(p=p, q=1), In(p=p)], [{"p": p, "q": 1}, {"q": p}], In(), {}][cfg]
    f = fields.Array(fields.Nested(In)) if isinstance(bad, list) else fields.Nested(In)
    S = make(("a", fields.UInt8()), ("n", f), ("t", fields.UInt8()))
    s = S(a=a, n=bad, t=3)
    st = io.BytesIO()
    s.partial_dump(st, "a")
    rt.eq(st.getvalue(), bytes([a]), "up to a")
    for nm in ("n", "t"):
        rt.raises((errors.MissingRequiredValueError,), lambda: s.partial_dump(io.BytesIO(), nm), f"up to {nm}")
    s2 = S(a=a)
    st = io.BytesIO()
    s2.partial_dump(st)
    rt.eq(st.getvalue(), bytes([a]), "only a is set")


@case([(k, w) for k in ALL_KINDS for w in ("plain", "default", "cond", "null")])
def kinds(rt, cfg):
    """a field of each kind as the last one"""
    kind, opt = cfg
    k = KINDS[kind]
    v = k.val(rt, "v")
    b = k.ref(rt, v)
    kw = {"plain": {}, "default": {"default": v}, "cond": {"present": lambda f, *_: f["a"] > 5},
          "null": {"null_value": b"\xEE" * (k.size if k.size is not None else 2)}}[opt]
    S = make(("a", fields.UInt8()), ("x", k.field(**kw)), ("t", fields.UInt8()))
    a = rt.int("a", 0, 255)
    vals = {"a": a}
    if opt != "default":
        vals["x"] = v
    want = b
    if opt == "cond" and not rt.holds(a > 5):
        want = b""
    if opt == "null" and rt.choice("none", (False, True)):
        vals["x"] = None
        want = kw["null_value"]
    s = S(**vals)
    st = io.BytesIO()
    s.partial_dump(st, "x")
    rt.eq(st.getvalue(), bytes([a]) + want, "up to x")
    st = io.BytesIO()
    s.partial_dump(st)
    rt.eq(st.getvalue(), bytes([a]) + want, "without a name")
    rt.raises((errors.MissingRequiredValueError,), lambda: s.partial_dump(io.BytesIO(), "t"), "up to t")
