"""C13 truncated input is always reported."""
from scn import *

BOUNDS = {"quick": "every scenario of harness/scn.py and all ordered pairs of 15 kinds, cut at every byte, at an offset of 0 or "
                   "2 bytes in the stream, in two declaration styles"}
OUTSIDE = "streams that return fewer bytes than there are"
COVERS = {"struct": ["cut"], "field": ["cut"]}
ERR = (errors.UnexpectedEOFError, errors.DeserializationError)


def cut_points(scn, vals):
    """Lengths at which the prefix is a complete serialization itself (arrays that end with the data)."""
    ok = set()
    if scn.greedy:
        k = KINDS["u16b" if scn.name == "arr_eof" else "strz"]
        p = vals.offset("d")
        for x in vals.full["d"]:
            ok.add(p)
            p += 2 if scn.name == "arr_eof" else len(x) + 1
    return ok


@case([(n, s) for n in NAMES if n != "empty" for s in ("flat", "split")] + [(n, "flat") for n in PAIRS])
def struct(rt, cfg):
    """every proper prefix of a struct"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    vals = scn.vals(rt)
    data = vals.bytes
    n = rt.choice("cut", range(len(data))) if len(data) else None
    if n is None or n in cut_points(scn, vals):
        return
    rt.cover("cut")
    part = data[:n]
    rt.raises(ERR, lambda: S.from_bytes(part, scn.ctx), "a truncated struct is loaded by from_bytes")
    rt.raises(ERR, lambda: S.from_bytes(part, scn.ctx, exact=False), "a truncated struct is loaded by from_bytes")
    pre = rt.bytes("pre", 2)
    st = io.BytesIO(pre + part)
    st.seek(2)
    rt.raises(ERR, lambda: S.from_stream(st, scn.ctx), "a truncated struct is loaded by from_stream")
    last = scn.names[-1]
    # the last field that has bytes is incomplete or missing
    for i in range(len(vals.parts) - 1, -1, -1):
        nm, b = vals.parts[i]
        if b is not None and len(b) > 0:
            st.seek(2)
            rt.raises(ERR, lambda: S.partial_load(st, nm, scn.ctx), "a truncated struct is loaded by partial_load")
            if not scn.item(nm).discard:
                st.seek(2)
                rt.raises(ERR, lambda: S.get_field(st, nm, scn.ctx), "a truncated field is loaded by get_field")
            break


@case([n for n in NAMES if n != "empty"])
def field(rt, cfg):
    """every proper prefix of each field on its own"""
    scn = scenario(cfg)
    S = scn.cls()
    vals = scn.vals(rt)
    names = [n for n, b in vals.parts if b is not None and len(b) > 0]
    if scn.greedy:
        names.remove("d") if "d" in names else None
    if not names:
        return
    nm = rt.choice("field", names)
    b = dict(vals.parts)[nm]
    n = rt.choice("cut", range(len(b)))
    rt.cover("cut")
    f = S.__binobj_struct__.components[nm]
    rt.raises(ERR, lambda: f.from_bytes(b[:n], scn.ctx, loaded_fields=dict(vals.full)), "a truncated field is loaded")
    st = io.BytesIO(b"##" + b[:n])
    st.seek(2)
    rt.raises(ERR, lambda: f.from_stream(st, scn.ctx, dict(vals.full)), "a truncated field is loaded from a stream")


@case([k for k in ALL_KINDS if k != "bytes0"])
def nested_deep(rt, cfg):
    """a field of each kind as the only content of an array in a struct in an array"""
    k = KINDS[cfg]
    In = make(("x", k.field()), name="In")
    S = make(("n", fields.Array(fields.Nested(In), count=2)))
    v = k.val(rt, "v")
    b = k.ref(rt, v)
    n = rt.choice("cut", range(2 * len(b)))
    rt.raises(ERR, lambda: S.from_bytes((b + b)[:n]), "truncated input is loaded")
    A = make(("n", fields.Array(k.field(), count=2)))
    rt.raises(ERR, lambda: A.from_bytes((b + b)[:n]), "a truncated array is loaded")
    E = make(("n", fields.Array(k.field())))
    if n != len(b) and n != 0:
        rt.raises(ERR, lambda: E.from_bytes((b + b)[:n]), "a truncated element at the end of data is dropped")
    U = make(("u", fields.Union(k.field(), load_decider=lambda st, ch, c, f: ch[0], dump_decider=lambda d, ch, c, f: ch[0])))
    if n < len(b):
        rt.raises(ERR, lambda: U.from_bytes(b[:n]), "a truncated union is loaded")


@case([(k, o) for k in FIXED if k != "bytes0" for o in ("null", "present", "discard", "default")])
def options(rt, cfg):
    """the same with options that touch the loading code"""
    kind, opt = cfg
    k = KINDS[kind]
    kw = {"null": {"null_value": DEFAULT}, "present": {"present": lambda *a: True}, "discard": {"discard": True},
          "default": {}}[opt]
    S = make(("a", fields.UInt8()), ("x", k.field(**kw)))
    n = rt.choice("cut", range(k.size + 1))
    d = rt.bytes("d", n)
    rt.raises(ERR + ((UnicodeDecodeError, ValueError) if kind in ("str3u", "uuidc", "uuidh") else ()),
              lambda: S.from_bytes(d), "truncated input is loaded")
