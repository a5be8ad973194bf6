"""C11 a struct loaded from its serialization equals the original, and vice versa."""
from scn import *

BOUNDS = {"quick": "every scenario of harness/scn.py: one field of each of the 33 kinds, all ordered pairs of 15 kinds, "
                   "sized, counted, computed, optional, nullable, constant, defaulted, discarded, nested, union fields; "
                   "all values of each field's range, strings of 0 and 2 characters, arrays of 0..3 elements; declared "
                   "flat, by annotations, split over parent classes; arbitrary byte strings of the fixed-size layouts"}
OUTSIDE = "longer strings and arrays; layouts of more than five fields; NaN payloads"
ASSUMPTIONS = ["decision and computing functions read their arguments only through v[name]"]
COVERS = {"roundtrip": ["all assigned", "redumped"], "reload": ["loaded"]}


def roundtrip_(rt, name, style):
    scn = scenario(name)
    S = scn.style(style)
    vals = scn.vals(rt)
    s = S(**vals.assign)
    data = s.to_bytes(scn.ctx)
    rt.eq(data, vals.bytes, "serialization")
    t = S.from_bytes(data, scn.ctx)
    rt.check(type(t) is S, "an instance of another class was loaded")
    scn.same(rt, t, vals, "loaded")
    if vals.complete():
        rt.cover("all assigned")
        rt.eq(t, s, "loaded struct is not equal to the original")
        rt.eq(s, t, "original is not equal to the loaded struct")
        rt.check(not (t != s), "loaded struct is unequal to the original")
    # assigned one after the other instead of through the constructor
    u = S()
    for n, v in vals.assign.items():
        setattr(u, n, v)
    rt.eq(u.to_bytes(scn.ctx), data, "assigning the fields afterwards")
    w = S.from_stream(io.BytesIO(data), scn.ctx)
    rt.eq(w, t, "two loads of the same bytes differ")
    if scn.plain or name == "const_discard" or name == "size_hidden" or name == "count_hidden":
        rt.cover("redumped")
        rt.eq(t.to_bytes(scn.ctx), data, "dumping the loaded struct")
        rt.eq(bytes(t) if scn.ctx is None else t.to_bytes(scn.ctx), data, "bytes() of the loaded struct")


@case([(n, s) for n in NAMES for s in (("flat", "dc", "split") if n != "empty" else ("flat",))] +
      [(n, "flat") for n in PAIRS],
      thorough=[(n, s) for n in NAMES + PAIRS for s in (("flat", "dc", "split", "chain") if n != "empty" else ("flat",))])
def roundtrip(rt, cfg):
    """values -> bytes -> equal values -> same bytes"""
    roundtrip_(rt, *cfg)


RAW = ["u8", "i8", "u16b", "u16l", "i32l", "i24b", "u64b", "bytes3", "str3", "strpad", "uuid1", "uuid2", "arr3", "nest"]


@case([(a, b) for a in RAW for b in RAW])
def reload(rt, cfg):
    """any bytes of the right length -> struct -> the same bytes"""
    S = build(list(zip("xy", cfg)))
    n = sum([KINDS[k].size for k in cfg])
    d = rt.bytes("d", n)
    s = S.from_bytes(d)
    rt.cover("loaded")
    rt.eq(s.to_bytes(), d, "bytes loaded and dumped again")
    t = S.from_bytes(s.to_bytes())
    rt.eq(t, s, "loaded again")
