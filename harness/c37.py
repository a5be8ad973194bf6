"""C37 any data either loads or is refused by the library, and what it loads as is stable."""
from scn import *

BOUNDS = {"quick": "every scenario of harness/scn.py in three declaration styles and every field kind in six places, all byte strings of 0 to 4 bytes and of "
                   "the layout's own size; 3 and 5 bytes for the pairs of kinds"}
OUTSIDE = ("longer data; negative counts; arbitrary text of full length in UUIDs stored as text; equality of structs with float NaNs; redumping layouts with discarded required fields; errors raised by user functions")
COVERS = {"layouts": ["loaded", "refused"], "kinds": ["loaded", "refused"], "pairs": ["loaded"], "entries": ["loaded", "refused"]}
# text and UUIDs that cannot be read are reported with Python's own ValueError in some fields
REFUSED = (errors.Error, ValueError)


TEXT_IDS = {"k_uuidc", "k_uuidh"}


def same_again(rt, a, b, msg):
    """Equal as loaded values (a NaN is itself)."""
    if isinstance(b, binobj.Struct):
        rt.check(type(a) is type(b), msg + ": class")
        names = [n for n in b]
        rt.check([n for n in a] == names, msg + ": fields")
        for n in names:
            same_again(rt, a[n], b[n], f"{msg}: {n}")
    elif isinstance(b, list):
        rt.check(isinstance(a, list) and len(a) == len(b), msg + ": elements")
        for x, y in zip(a, b):
            same_again(rt, x, y, msg)
    elif isinstance(b, float):
        rt.check(rt.same_float(a, b) or (rt.isnan(a) and rt.isnan(b)), msg)
    elif b is None or b is NOT_PRESENT:
        rt.check(a is b, msg)
    else:
        rt.same(a, b, msg)


def attempt(rt, fn, msg):
    try:
        return fn()
    except REFUSED as e:
        rt.check(not isinstance(e, errors.SerializationError), f"{msg}: {type(e).__name__} is no load error")
        return None
    except Exception as e:  # noqa: BLE001
        rt.fail(f"{msg}: {type(e).__name__}")
        return None


def lengths(scn):
    out = [0, 1, 2, 3, 4]
    n = scn.fixed_size()
    if n is not None and n not in out and not TEXT_IDS & {scn.name}:
        out.append(n)
    return out


def total(rt, S, d, ctx, redump, greedy):
    """Load d in any way: same outcome, or the same kind of refusal."""
    st = io.BytesIO(d)
    s = attempt(rt, lambda: S.from_stream(st, ctx), "from_stream")
    if s is None:
        rt.cover("refused")
        t = attempt(rt, lambda: S.from_bytes(d, ctx, exact=False), "from_bytes")
        rt.check(t is None, "from_bytes accepts what from_stream refuses")
        t = attempt(rt, lambda: S.from_bytes(d, ctx), "from_bytes, exact")
        rt.check(t is None, "from_bytes (exact) accepts what from_stream refuses")
        return
    rt.cover("loaded")
    used = st.tell()
    rt.check(0 <= used <= len(d), "position after loading")
    t = attempt(rt, lambda: S.from_bytes(d, ctx, exact=False), "from_bytes")
    if t is None:
        rt.fail("from_bytes refuses what from_stream accepts")
        return
    same_again(rt, t, s, "from_bytes")
    t = attempt(rt, lambda: S.from_bytes(d, ctx), "from_bytes, exact")
    rt.check((t is None) == (used < len(d)), "exact is wrong about leftover data")
    # what follows the bytes that are used does not matter
    t = attempt(rt, lambda: S.from_bytes(d[:used], ctx), "the used bytes alone")
    if t is None:
        rt.fail("the used bytes do not load by themselves")
        return
    same_again(rt, t, s, "the used bytes alone")
    if not greedy:
        more = io.BytesIO(b"\xff" + d[:used] + b"\x7f\x00\x81")
        more.seek(1)
        t = attempt(rt, lambda: S.from_stream(more, ctx), "with other data behind")
        if t is None:
            rt.fail("other data behind the struct makes a difference")
            return
        same_again(rt, t, s, "with other data behind")
        rt.check(more.tell() == used + 1, "position with other data behind")
    if redump:
        try:
            out = s.to_bytes(ctx)
        except Exception as e:  # noqa: BLE001
            rt.fail(f"the loaded struct cannot be dumped: {type(e).__name__}")
            return
        t = attempt(rt, lambda: S.from_bytes(out, ctx), "the dump of what was loaded")
        if t is None:
            rt.fail("the dump of what was loaded does not load")
            return
        same_again(rt, t, s, "loaded, dumped and loaded")
        rt.eq(t.to_bytes(ctx), out, "dumped again")


@case([(n, s) for n in NAMES for s in ("flat", "split", "dc") if n != "empty"])
def layouts(rt, cfg):
    """every layout on arbitrary data"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    d = rt.bytes("d", rt.choice("len", lengths(scn)))
    total(rt, S, d, scn.ctx, scn.plain, scn.greedy)


PLACE = ["only", "array", "nested", "null", "optional", "sized"]


@case([(k, w) for k in ALL_KINDS for w in PLACE])
def kinds(rt, cfg):
    """every kind of field in every kind of place on arbitrary data"""
    kind, where = cfg
    k = KINDS[kind]
    items, redump = [("x", k.field())], True
    if where == "array":
        items = [("n", fields.UInt8()), ("x", fields.Array(k.field(), count="n"))]
    elif where == "nested":
        items = [("x", fields.Nested(make(("i", k.field()), name="I"))), ("t", fields.UInt8())]
    elif where == "null":
        items = [("x", k.field(null_value=b"\x01" * (k.size or 2))), ("t", fields.UInt8())]
        # what is stored in the canonical form may begin with the null value when the form read does not
        redump = k.size is not None
    elif where == "optional":
        items = [("n", fields.UInt8()), ("x", k.field(present=lambda v, c, s: v["n"] > 9)), ("t", fields.UInt8())]
    elif where == "sized":
        items = [("n", fields.UInt8()), ("d", fields.Bytes(size="n")), ("x", k.field())]
    S = make(*items)
    ls = [0, 1, 2, 3, 4] if where not in ("array", "sized") else [0, 1, 2, 3]
    if k.size is not None and kind not in ("uuidc", "uuidh"):
        ls += [x for x in (k.size, k.size + 1, k.size + 2) if x not in ls]
    d = rt.bytes("d", rt.choice("len", ls))
    total(rt, S, d, None, redump, False)


@case([(p, n) for p in PAIRS for n in (3, 5) if (p, n) != ("leb+leb", 5)])
def pairs(rt, cfg):
    """two fields of any kind"""
    name, n = cfg
    scn = scenario(name)
    S = scn.style("flat")
    d = rt.bytes("d", n)
    total(rt, S, d, None, True, False)


@case([n for n in NAMES if n != "empty"])
def entries(rt, cfg):
    """partial loads and single fields on arbitrary data"""
    scn = scenario(cfg)
    S = scn.style("flat")
    d = rt.bytes("d", rt.choice("len", [x for x in lengths(scn) if x < 4]))
    name = rt.choice("name", scn.names)
    st = io.BytesIO(d)
    p = attempt(rt, lambda: S.partial_load(st, name, scn.ctx), "partial_load")
    st2 = io.BytesIO(d)
    v = attempt(rt, lambda: [S.get_field(st2, name, scn.ctx)], "get_field") if not scn.item(name).discard else None
    rt.check(st2.tell() == 0, "get_field moves the stream")
    whole = attempt(rt, lambda: S.from_bytes(d, scn.ctx, exact=False), "from_bytes")
    part = attempt(rt, lambda: S.partial_load(io.BytesIO(d), context=scn.ctx), "partial_load without a name")
    if p is None:
        rt.cover("refused")
        rt.check(whole is None, "the whole loads but not a part")
        return
    rt.cover("loaded")
    rt.check(st.tell() <= len(d), "position")
    if not scn.item(name).discard:
        if v is None:
            rt.fail("get_field refuses what partial_load accepts")
            return
        same_again(rt, v[0], p[name], "get_field")
    if whole is not None:
        if part is None:
            rt.fail("the whole loads but not as a partial load")
            return
        same_again(rt, part, whole, "partial load of everything")
        for n in p:
            same_again(rt, p[n], whole[n], f"{n} in the partial load")
