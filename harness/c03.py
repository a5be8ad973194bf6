"""C03 variable-length integers: canonical (shortest) encoding, decoding it gives the number back."""
from kit import *

BOUNDS = {"quick": "every integer below 2^140 in magnitude (20 and more encoded bytes)",
          "thorough": "every integer below 2^540 in magnitude"}
OUTSIDE = "integers of larger magnitude"
COVERS = {"encode": ["one byte", "two bytes", "long"], "negatives": ["rejected"]}

FMT = {"vlq": VarIntEncoding.VLQ, "uleb": VarIntEncoding.ULEB128, "leb": VarIntEncoding.LEB128,
       "compact": VarIntEncoding.COMPACT_INDICES}
FN = {"vlq": ("encode_integer_vlq", "decode_integer_vlq"), "uleb": ("encode_integer_uleb128", "decode_integer_uleb128"),
      "leb": ("encode_integer_leb128", "decode_integer_leb128"),
      "compact": ("encode_integer_compact", "decode_integer_compact")}
SIGNED = ("leb", "compact")


def ref(rt, fmt, v, bits):
    if fmt == "leb":
        return ref_leb(rt, v, bits + 1)
    if fmt == "compact":
        return ref_compact(rt, v, bits)
    return ref_vlq(rt, v, bits, fmt == "uleb")


def domain(fmt, bits):
    """(lo, hi) pieces that together make up the domain"""
    if fmt not in SIGNED:
        return [(0, (1 << bits) - 1)]
    return [(0, (1 << bits) - 1), (-(1 << bits) + 1, -1)]


CFGS = [(f, i, b) for f in FMT for b in (20, 70, 140) for i in range(2 if f in SIGNED else 1)]
THOROUGH = [(f, i, b) for f in FMT for b in (280, 540) for i in range(2 if f in SIGNED else 1)]


@case(CFGS, THOROUGH)
def encode(rt, cfg):
    """the bytes are the canonical encoding, and they decode to the number"""
    fmt, piece, bits = cfg
    lo, hi = domain(fmt, bits)[piece]
    v = rt.int("v", lo, hi)
    want = ref(rt, fmt, v, bits)
    rt.cover({1: "one byte", 2: "two bytes"}.get(len(want), "long"))
    got = getattr(varints, FN[fmt][0])(v)
    rt.observe("bytes", got)
    rt.check(isinstance(got, bytes), "the encoder does not return bytes")
    rt.eq(got, want, "not the canonical encoding")
    st = io.BytesIO(want)
    rt.eq(getattr(varints, FN[fmt][1])(st), v, "decode(encode(v)) != v")
    rt.eq(st.tell(), len(want), "bytes consumed")


@case([(f, i, b) for f in FMT for b in (40,) for i in range(2 if f in SIGNED else 1)])
def field(rt, cfg):
    """the same through VariableLengthInteger, alone and inside a struct"""
    fmt, piece, bits = cfg
    lo, hi = domain(fmt, bits)[piece]
    v = rt.int("v", lo, hi)
    want = ref(rt, fmt, v, bits)
    f = fields.VariableLengthInteger(vli_format=FMT[fmt])
    rt.eq(f.to_bytes(v), want, "to_bytes")
    rt.eq(f.from_bytes(want), v, "from_bytes")
    S = make(("a", fields.UInt8()), ("x", f), ("y", fields.VariableLengthInteger(vli_format=FMT[fmt])))
    w = rt.int("w", 0, 60)
    out = S(a=1, x=v, y=w).to_bytes()
    rt.observe("out", out)
    rt.eq(out, b"\x01" + want + bytes([w]), "struct bytes")
    t = S.from_bytes(out)
    rt.eq(t.x, v, "loaded x")
    rt.eq(t.y, w, "loaded y")


@case(["vlq", "uleb"])
def negatives(rt, fmt):
    """unsigned encodings reject every negative number"""
    v = rt.int("v", -(1 << 140), -1)
    rt.cover("rejected")
    rt.raises((ValueError,), lambda: getattr(varints, FN[fmt][0])(v), "the encoder accepts a negative number")
    f = fields.VariableLengthInteger(vli_format=FMT[fmt])
    st = io.BytesIO()
    rt.raises((errors.UnserializableValueError,), lambda: f.to_stream(st, v), "the field accepts a negative number")
    rt.eq(st.getvalue(), b"", "something was written")
