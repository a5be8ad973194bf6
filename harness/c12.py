"""C12 a struct's bytes are its fields' bytes in declaration order, by every dump API; the context reaches everything."""
from scn import *

BOUNDS = {"quick": "every scenario of harness/scn.py in four declaration styles, streams with up to 3 arbitrary bytes before "
                   "and 4 after the write position; the context (an arbitrary object, also falsy ones) recorded by every "
                   "field, array element, nested struct, union choice, halt check, decider and condition, at 3 levels"}
OUTSIDE = "unseekable streams; decision functions that read an unset field which itself depends on the context"
COVERS = {"order": ["dumped"], "context": ["dump", "load"]}

STYLES = [(n, s) for n in NAMES for s in (("flat", "dc", "split", "chain", "val") if n != "empty" else ("flat",))]


@case(STYLES)
def order(rt, cfg):
    """concatenation in declaration order by to_bytes, to_stream and bytes()"""
    name, style = cfg
    scn = scenario(name)
    S = scn.style(style)
    rt.check(list(S.__binobj_struct__.components) == scn.names, "order of the fields")
    vals = scn.vals(rt)
    s = S(**vals.assign)
    want = vals.bytes
    rt.cover("dumped")
    rt.eq(s.to_bytes(scn.ctx), want, "to_bytes")
    rt.eq(s.to_bytes(context=scn.ctx), want, "to_bytes, again")
    if scn.ctx is None:
        rt.eq(bytes(s), want, "bytes()")
    npre, npost = rt.choice("stream", ((0, 0), (3, 0), (1, 4), (0, 2)))
    pre, post = rt.bytes("pre", npre), rt.bytes("post", npost)
    st = io.BytesIO(pre + post)
    st.seek(npre)
    rt.check(s.to_stream(st, scn.ctx) is None, "to_stream returns something")
    rt.eq(st.tell(), npre + len(want), "position after to_stream")
    rt.eq(st.getvalue(), pre + want + post[len(want):], "to_stream")
    # each field on its own, given the values of the others
    out = b""
    full = dict(vals.full)
    for n, b in vals.parts:
        if b is None:
            continue
        got = S.__binobj_struct__.components[n].to_bytes(full[n], context=scn.ctx, all_fields=full)
        rt.eq(got, b, f"field {n} on its own")
        buf = io.BytesIO()
        S.__binobj_struct__.components[n].to_stream(buf, full[n], scn.ctx, full)
        rt.eq(buf.getvalue(), b, f"field {n} on its own, to_stream")


class Probe(fields.Field):
    """One byte; records the context it is given."""

    def __init__(self, log, tag, **kw):
        super().__init__(size=1, **kw)
        self.log, self.tag = log, tag

    def _do_dump(self, stream, data, context, all_fields):
        self.log.append((self.tag + ".dump", context))
        stream.write(bytes([data]))

    def _do_load(self, stream, context, loaded_fields):
        self.log.append((self.tag + ".load", context))
        return helpers.read_int(stream, 1, False, "big")


def probe_items(log):
    """Every construct that gets a context, at three levels."""
    def rec(tag, result):
        def f(*args):
            log.append((tag, args[-1]))
            return result
        return f

    def present(tag):
        def f(v, ctx, st):
            log.append((tag + (".load" if st is not None else ".dump"), ctx))
            return True
        return f

    def ldec(tag, k):
        def f(st, ch, ctx, lf):
            log.append((tag + ".load", ctx))
            return ch[k]
        return f

    def ddec(tag, k):
        def f(d, ch, ctx, af):
            log.append((tag + ".dump", ctx))
            return ch[k]
        return f

    def halt(seq, st, values, ctx, lf):
        log.append(("halt.load", ctx))
        return len(values) == 2
    Deep = make(("d", Probe(log, "deep", present=present("deep.present"))), name="Deep")
    In = make(("i", Probe(log, "in", present=present("in.present"))), ("n", fields.Nested(Deep)), name="In")
    return [
        ("a", Probe(log, "a")),
        ("p", Probe(log, "p", present=present("p.present"))),
        ("arr", fields.Array(Probe(log, "elem"), count=2)),
        ("har", fields.Array(Probe(log, "helem"), halt_check=halt)),
        ("n", fields.Nested(In)),
        ("an", fields.Array(fields.Nested(Deep), count=1)),
        ("u", fields.Union(Probe(log, "choice"), load_decider=ldec("u", 0), dump_decider=ddec("u", 0))),
        ("us", fields.Union(Deep, load_decider=ldec("us", 0), dump_decider=ddec("us", 0))),
        ("ua", fields.Array(fields.Union(Probe(log, "uchoice"), load_decider=ldec("ua", 0),
                                         dump_decider=ddec("ua", 0)), count=1)),
        ("z", Probe(log, "z", present=present("z.present")))]


def probe_class(log, style):
    items = probe_items(log)
    if style == "flat":
        return make(*items)
    if style == "split":
        return make(*items[5:], base=make(*items[:5], name="P"))
    return binobj.dataclass(type("D", (binobj.Struct,), {"__annotations__": dict(items)}))


DUMP_TAGS = {t + ".dump" for t in ("a", "p", "p.present", "elem", "helem", "in", "in.present", "deep", "deep.present",
                                   "u", "us", "ua", "choice", "uchoice", "z", "z.present")}
LOAD_TAGS = {t + ".load" for t in ("a", "p", "p.present", "elem", "helem", "halt", "in", "in.present", "deep",
                                   "deep.present", "u", "us", "ua", "choice", "uchoice", "z", "z.present")}
API = ["to_bytes", "to_stream", "partial_dump", "partial_dump_z", "from_bytes", "from_stream", "partial_load",
       "partial_load_z", "get_field"]


@case([(a, s, c) for a in API for s in ("flat", "split", "dc") for c in ("object", "zero", "dict")] +
      [(a, st, "object") for a in API[:4] for st in ("unset", "iterator", "tuple")])
def context(rt, cfg):
    """the very object that was passed in arrives everywhere"""
    api, style, kind = cfg
    log = []
    ctx = {"object": CtxType(), "zero": 0, "dict": {}}[kind]
    S = probe_class(log, "flat" if style in ("unset", "iterator", "tuple") else style)
    d = rt.bytes("d", 12)
    vals = {"a": d[0], "p": d[1], "arr": [d[2], d[3]], "har": [d[4], d[5]], "n": {"i": d[6], "n": {"d": d[7]}},
            "an": [{"d": d[8]}], "u": d[9], "us": {"d": d[10]}, "ua": [d[11]], "z": 9}
    raw = d + b"\x09"
    rt.observe("raw", raw)
    want = DUMP_TAGS if "dump" in api or api.startswith("to_") else LOAD_TAGS
    if want is DUMP_TAGS:
        s = S(**vals)
        if style == "unset":     # nested values given as instances
            s.n = S.n.struct_class(**vals["n"])
            s.an = [S.an.component.struct_class(d=d[8])]
        elif style in ("iterator", "tuple"):     # arrays given as something else than lists
            for n in ("arr", "har", "an", "ua"):
                setattr(s, n, iter(vals[n]) if style == "iterator" else tuple(vals[n]))
        log.clear()
        st = io.BytesIO()
        if api == "to_bytes":
            st.write(s.to_bytes(ctx))
        elif api == "to_stream":
            s.to_stream(st, ctx)
        elif api == "partial_dump":
            s.partial_dump(st, context=ctx)
        else:
            s.partial_dump(st, "z", ctx)
        rt.eq(st.getvalue(), raw, "bytes")
        rt.cover("dump")
    else:
        log.clear()
        st = io.BytesIO(raw)
        if api == "from_bytes":
            z = S.from_bytes(raw, ctx).z
        elif api == "from_stream":
            z = S.from_stream(st, ctx).z
        elif api == "partial_load":
            z = S.partial_load(st, context=ctx).z
        elif api == "partial_load_z":
            z = S.partial_load(st, "z", ctx).z
        else:
            z = S.get_field(st, "z", ctx)
        rt.eq(z, 9, "last field")
        rt.cover("load")
    seen = set()
    for tag_, c in log:
        rt.check(c is ctx, f"{tag_} did not get the context")
        seen.add(tag_)
    rt.check(seen >= want, f"not reached: {sorted(want - seen)}")


@case(["to_bytes", "to_stream", "partial_dump"])
def context_unset(rt, cfg):
    """conditions of unset fields see the context, too"""
    log = []
    ctx = CtxType()

    def present(v, c, st):
        log.append(c)
        return c.off
    In = make(("q", fields.UInt8(present=present)), ("r", fields.UInt8(default=3, present=present)), name="In")
    S = make(("a", fields.UInt8()), ("x", fields.UInt8(present=present)), ("y", fields.UInt8(default=4, present=present)),
             ("n", fields.Nested(In)), ("z", fields.UInt8()))
    a = rt.int("a", 0, 255)
    s = S(a=a, n=In(), z=1)
    st = io.BytesIO()
    if cfg == "to_bytes":
        st.write(s.to_bytes(ctx))
    elif cfg == "to_stream":
        s.to_stream(st, ctx)
    else:
        s.partial_dump(st, "z", ctx)
    rt.eq(st.getvalue(), bytes([a, 1]), "fields that the context excludes")
    rt.check(len(log) > 0, "never asked")
    for c in log:
        rt.check(c is ctx, "a condition did not get the context")


ALONE = {"a": 1, "p": 1, "arr": 2, "har": 2, "n": 2, "an": 1, "u": 1, "us": 1, "ua": 1}
ALONE_TAGS = {"a": {"a"}, "p": {"p", "p.present"}, "arr": {"elem"}, "har": {"helem"}, "n": {"in", "in.present", "deep", "deep.present"},
              "an": {"deep", "deep.present"}, "u": {"u", "choice"}, "us": {"us", "deep", "deep.present"}, "ua": {"ua", "uchoice"}}


@case([(w, api) for w in ("first", "second", "field") for api in ("to_bytes", "to_stream", "partial_dump") if w != "field" or "to" in api])
def null_union(rt, cfg):
    """the decider of a union sees the context when the value is None, too"""
    where, api = cfg
    ctx = CtxType() if rt.choice("ctx", (0, 1)) else ()
    log = []
    null = rt.bytes("null", 2)
    d0 = rt.int("d", 0, 255)

    def ddec(d, ch, c, af):
        log.append(c)
        return ch[0] if d is None and c is ctx else ch[1]
    f = fields.Union(fields.UInt16(null_value=null), fields.UInt8(null_value=b"\x01"), dump_decider=ddec,
                     load_decider=lambda st, ch, c, af: ch[0])
    st = io.BytesIO()
    if where == "field":
        f.name = "f"
        rt.eq(f.to_bytes(None, ctx), null, "bytes")
        f.to_stream(st, None, ctx)
        rt.eq(st.getvalue(), null, "bytes")
    else:
        S = make(*([("l", fields.UInt8())] if where == "second" else []), ("f", f))
        s = S(f=None, l=d0) if where == "second" else S(f=None)
        if api == "to_bytes":
            st.write(s.to_bytes(ctx))
        elif api == "to_stream":
            s.to_stream(st, ctx)
        else:
            s.partial_dump(st, "f", ctx)
        rt.eq(st.getvalue(), (bytes([d0]) if where == "second" else b"") + null, "bytes")
    rt.check(len(log) > 0, "not asked")
    for c in log:
        rt.check(c is ctx, "the decider did not get the context")


@case([(n, w, api) for n in ALONE for w in ("first", "second", "third", "field")
       for api in ("get_field", "from_stream", "from_bytes", "partial_load", "to_bytes", "to_stream", "partial_dump")
       if w != "field" or "partial" not in api and api != "get_field"])
def alone(rt, cfg):
    """every construct on its own: as the first field, behind a field of fixed or of variable size, and without a struct"""
    name, where, api = cfg
    log = []
    ctx = rt.choice("ctx", (0, 1))
    ctx = CtxType() if ctx else ()
    f = dict(probe_items(log))[name]
    n = ALONE[name]
    d = rt.bytes("d", n)
    v = {"a": lambda: d[0], "p": lambda: d[0], "arr": lambda: [d[0], d[1]], "har": lambda: [d[0], d[1]],
         "n": lambda: {"i": d[0], "n": {"d": d[1]}}, "an": lambda: [{"d": d[0]}], "u": lambda: d[0], "us": lambda: {"d": d[0]},
         "ua": lambda: [d[0]]}[name]()
    lead = {"first": [], "second": [("l", fields.UInt8())], "third": [("l", fields.StringZ())], "field": []}[where]
    raw = {"first": b"", "second": b"\x07", "third": b"hi\0", "field": b""}[where] + d
    dump = api.startswith("to_") or api == "partial_dump"
    st = io.BytesIO(b"" if dump else raw)
    if where == "field":
        f.name = "f"
        log.clear()
        if api == "from_stream":
            f.from_stream(st, ctx)
            rt.eq(st.tell(), len(raw), "position")
        elif api == "from_bytes":
            f.from_bytes(raw, ctx)
        elif api == "to_bytes":
            rt.eq(f.to_bytes(v, ctx), d, "bytes")
        else:
            f.to_stream(st, v, ctx)
            rt.eq(st.getvalue(), d, "bytes")
    else:
        S = make(*lead, ("f", f))
        vals = {"f": v}
        if lead:
            vals["l"] = 7 if where == "second" else "hi"
        s = S(**vals)
        log.clear()
        if api == "get_field":
            S.get_field(st, "f", ctx)
            rt.eq(st.tell(), 0, "position")
        elif api == "from_stream":
            S.from_stream(st, ctx)
        elif api == "from_bytes":
            S.from_bytes(raw, ctx)
        elif api == "partial_load":
            S.partial_load(st, "f", ctx)
        elif api == "to_bytes":
            st.write(s.to_bytes(ctx))
        elif api == "to_stream":
            s.to_stream(st, ctx)
        else:
            s.partial_dump(st, "f", ctx)
        rt.eq(st.getvalue(), raw, "bytes")
    seen = set()
    for tag_, c in log:
        rt.check(c is ctx, f"{tag_} did not get the context")
        seen.add(tag_)
    want = {t + (".dump" if dump else ".load") for t in ALONE_TAGS[name]}
    if name == "har" and not dump:
        want.add("halt.load")
    if where == "field" and dump:
        want.discard("p.present.dump")
    rt.check(seen >= want, f"not reached: {sorted(want - seen)}")
