"""Not a property: the engine's models against CPython.  Every path's model is replayed and its
observations compared (run.py SELFTEST; used while developing and by tools/selfcheck)."""
import codecs
import datetime
import functools
import io
import itertools
import math
import operator
import struct
import uuid

from kit import *


def outcome(f, *a):
    try:
        return f(*a)
    except (ValueError, TypeError, OverflowError, IndexError, KeyError, ZeroDivisionError, EOFError, struct.error,
            UnicodeError) as e:
        return "!" + type(e).__name__


INT_OPS = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "fdiv": lambda a, b: a // b, "mod": lambda a, b: a % b, "and": lambda a, b: a & b, "or": lambda a, b: a | b,
    "xor": lambda a, b: a ^ b, "shl": lambda a, b: a << (b & 7), "shr": lambda a, b: a >> (b & 15),
    "neg": lambda a, b: -a, "inv": lambda a, b: ~a, "abs": lambda a, b: abs(a), "divmod": lambda a, b: divmod(a, b),
    "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
    "bitlen": lambda a, b: a.bit_length(), "rsub": lambda a, b: 7 - a, "rshl": lambda a, b: 3 << (b & 3),
    "bool": lambda a, b: 1 if a else 2, "max": lambda a, b: max(a, b), "min": lambda a, b: min(a, b, 5),
    "sum": lambda a, b: sum([a, b, 3]), "pow": lambda a, b: a ** 2, "const": lambda a, b: a // 7 + b % 5,
    "negdiv": lambda a, b: (a // -3, a % -3, -7 // (b or 1)), "tobytes_be": lambda a, b: a.to_bytes(2, "big"),
    "tobytes_s": lambda a, b: a.to_bytes(1, "little", signed=True), "in": lambda a, b: a in (1, b, 3),
    "range": lambda a, b: [i for i in range(a % 4)], "list_idx": lambda a, b: [10, 20, 30, 40][a % 4],
    "isinst": lambda a, b: (isinstance(a, int), isinstance(a, bool), isinstance(a, (str, bytes))),
    "float": lambda a, b: float(a) == 5.0, "truediv": lambda a, b: a / 4 < 1.25, "int": lambda a, b: int(a),
    "bytes1": lambda a, b: bytes([a & 255, b & 255]), "fstr": lambda a, b: f"{a & 255:02x}",
    "index": lambda a, b: operator.index(a), "dict": lambda a, b: {1: "x", 2: "y"}.get(a % 3, "z"),
}


@case(list(INT_OPS))
def ints(rt, cfg):
    a = rt.int("a", -40, 300)
    b = rt.int("b", -6, 20)
    rt.observe("r", outcome(INT_OPS[cfg], a, b))
    rt.check(True, "")


BYTES_OPS = {
    "slice": lambda x, y, n: (x[1:], x[:-1], x[::2], x[n:], x[:n], x[-2:n]), "idx": lambda x, y, n: x[n],
    "cat": lambda x, y, n: x + y + b"z", "eq": lambda x, y, n: (x == x[:], x == y, x != b"ab\0"),
    "lt": lambda x, y, n: (x < y, x >= y), "find": lambda x, y, n: (x.find(y), x.find(b"\0"), x.find(b"\0", 1)),
    "starts": lambda x, y, n: (x.startswith(y), x.endswith(b"\0")), "part": lambda x, y, n: x.partition(b"\0"),
    "split": lambda x, y, n: x.split(b"\0"), "rstrip": lambda x, y, n: x.rstrip(b"\0 "),
    "strip": lambda x, y, n: (x.lstrip(b"\0"), x.strip(b"\0")), "in": lambda x, y, n: (y in x, 0 in x, b"\0" in x),
    "ljust": lambda x, y, n: x.ljust(6, b"\0"), "mul": lambda x, y, n: (x * 2, x * (n % 3)),
    "hex": lambda x, y, n: x.hex(), "int": lambda x, y, n: int.from_bytes(x, "big"),
    "ints": lambda x, y, n: int.from_bytes(x, "little", signed=True), "list": lambda x, y, n: list(x),
    "rev": lambda x, y, n: bytes(reversed(x)), "join": lambda x, y, n: b"-".join([x, y]),
    "bytes": lambda x, y, n: (bytes(x), bytes(n % 3), bytes([1, n & 255])), "ba": lambda x, y, n: bytes(bytearray(x) + y),
    "baops": lambda x, y, n: _ba(x, y, n), "mv": lambda x, y, n: bytes(memoryview(x)[1:]), "len": lambda x, y, n: len(x),
    "replace": lambda x, y, n: x.replace(b"\0", b"\1"), "count": lambda x, y, n: x.count(b"\0"),
    "index": lambda x, y, n: x.index(b"\0"), "iter": lambda x, y, n: [b + 1 for b in x], "any": lambda x, y, n: (any(x), all(x)),
    "bool": lambda x, y, n: 1 if x else 0, "unpackB": lambda x, y, n: struct.unpack("3B", x), "max": lambda x, y, n: max(x),
    "unpackH": lambda x, y, n: struct.unpack(">BH", x), "unpackh": lambda x, y, n: struct.unpack("<hB", x),
    "pack": lambda x, y, n: struct.pack(">hB", n, 3), "zip": lambda x, y, n: [a ^ b for a, b in zip(x, x[1:])],
    "enum": lambda x, y, n: [i * b for i, b in enumerate(x)], "reduce": lambda x, y, n: functools.reduce(operator.xor, x),
    "rfind": lambda x, y, n: x.rfind(b"\0"), "isinst": lambda x, y, n: (isinstance(x, bytes), isinstance(x, (bytearray, str))),
    "fromhex": lambda x, y, n: bytes.fromhex(x.hex()), "rpart": lambda x, y, n: x.rpartition(b"\0"),
    "takewhile": lambda x, y, n: bytes(itertools.takewhile(lambda b: b, x)), "sorted": lambda x, y, n: sorted(x),
    "removeprefix": lambda x, y, n: x.removesuffix(b"\0"), "chain": lambda x, y, n: bytes(itertools.chain(x, y)),
    "type": lambda x, y, n: type(x) is bytes,
}


def _ba(x, y, n):
    b = bytearray()
    b.append(x[0])
    b.extend(y)
    b += x
    b[0] = 7
    del b[1]
    b.insert(0, n & 255)
    b.reverse()
    return bytes(b), len(b)


@case(list(BYTES_OPS))
def bytess(rt, cfg):
    x = rt.bytes("x", 3)
    y = rt.bytes("y", 2)
    n = rt.int("n", -4, 5)
    rt.observe("r", outcome(BYTES_OPS[cfg], x, y, n))
    rt.check(True, "")


STR_OPS = {
    "slice": lambda x, y, n: (x[1:], x[:-1], x[n:], x[::-1]), "cat": lambda x, y, n: x + y + "z",
    "eq": lambda x, y, n: (x == y, x == "ab", x < y), "find": lambda x, y, n: (x.find("a"), "a" in x),
    "part": lambda x, y, n: x.partition("\0"), "split": lambda x, y, n: x.split("a"), "rstrip": lambda x, y, n: x.rstrip("\0"),
    "starts": lambda x, y, n: (x.startswith("a"), x.endswith(y)), "ord": lambda x, y, n: [ord(c) for c in x],
    "join": lambda x, y, n: "-".join([x, y]), "len": lambda x, y, n: len(x), "fstr": lambda x, y, n: f"<{x}>",
    "isinst": lambda x, y, n: (isinstance(x, str), isinstance(x, bytes)), "str": lambda x, y, n: str(x),
    "replace": lambda x, y, n: x.replace("a", "bb"), "mul": lambda x, y, n: x * 2, "in": lambda x, y, n: x in ("aa", "bb"),
    "dict": lambda x, y, n: {"aa": 1}.get(x, 2), "rev": lambda x, y, n: "".join(reversed(x)),
}


@case(list(STR_OPS))
def strs(rt, cfg):
    x = rt.text("x", 2)
    y = rt.text("y", 1)
    n = rt.int("n", -3, 3)
    rt.observe("r", outcome(STR_OPS[cfg], x, y, n))
    rt.check(True, "")


ENCS = ["utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "utf-32-le", "utf-32-be", "ascii", "latin-1",
        "cp1252", "cp500", "koi8-r", "UTF8", "us-ascii", "iso-8859-15"]


@case([(e, n) for e in ENCS for n in (0, 1, 2)])
def encode(rt, cfg):
    enc, n = cfg
    x = rt.text("x", n)
    rt.observe("e", outcome(lambda: x.encode(enc)))
    rt.observe("e2", outcome(lambda: codecs.encode(x, enc)))
    for err in ("ignore", "replace"):
        if enc in ("ascii", "latin-1", "utf-8"):
            rt.observe(err, outcome(lambda: x.encode(enc, err)))
    rt.check(True, "")


@case([(e, n) for e in ENCS for n in (0, 1, 2, 3, 4, 5)])
def decode(rt, cfg):
    enc, n = cfg
    x = rt.bytes("x", n)
    rt.observe("d", outcome(lambda: x.decode(enc)))
    rt.check(True, "")


@case([(e, n) for e in ("utf-8", "utf-16", "utf-16-le", "utf-32-be", "ascii", "cp1252") for n in (2, 4)])
def incremental(rt, cfg):
    enc, n = cfg
    x = rt.bytes("x", n)

    def run():
        d = codecs.getincrementaldecoder(enc)()
        out = []
        for i in range(len(x)):
            out.append(d.decode(x[i:i + 1]))
        out.append(d.decode(b"", True))
        return out
    rt.observe("inc", outcome(run))
    rt.observe("iter", outcome(lambda: [c for c in codecs.iterdecode((x[i:i + 1] for i in range(len(x))), enc)]))
    rt.check(True, "")


def _io(b, n):
    out = [b.tell(), b.read(2), b.tell(), b.seek(n % 5), b.read(), b.seek(-1, 2), b.read(1), b.seek(1), b.seek(1, 1)]
    b.seek(1)
    out += [b.write(b"ZZ"), b.tell(), b.getvalue()]
    b.seek(6)
    b.write(b"!")
    out += [b.getvalue(), b.read(1)]
    b.seek(2)
    b.truncate()
    out += [b.getvalue(), b.tell(), len(b.getbuffer())]
    b.seek(0)
    ba = bytearray(3)
    out += [b.readinto(ba), bytes(ba), b.read(-1)]
    b.seek(100)
    out += [b.read(4), b.tell()]
    return out


@case(["a", "b"])
def bytesio(rt, cfg):
    x = rt.bytes("x", 4)
    n = rt.int("n", 0, 9)
    if cfg == "a":
        rt.observe("io", outcome(_io, io.BytesIO(x), n))
    else:
        b = io.BytesIO()
        b.write(x)
        b.seek(0)
        rt.observe("io", outcome(_io, b, n))
        rt.observe("neg", outcome(b.seek, -1))
    rt.check(True, "")


FL = ["<e", ">f", "<d", ">d", "=f", "!e", "@d", "f"]


@case(FL)
def pack_float(rt, cfg):
    x = rt.float("x")
    rt.assume(x == x)
    rt.observe("p", outcome(struct.pack, cfg, x))
    rt.check(True, "")


@case(FL)
def unpack_float(rt, cfg):
    x = rt.bytes("x", struct.calcsize(cfg))
    v = struct.unpack(cfg, x)[0]
    rt.observe("u", v)
    rt.observe("m", (v == v, v < 0.0, math.isinf(v), math.isnan(v)))
    rt.check(True, "")


@case([0])
def uuids(rt, cfg):
    u = rt.uuid("u")
    rt.observe("f", [u.bytes, u.bytes_le, u.hex, str(u), u.int])
    d = rt.bytes("d", 16)
    rt.observe("b", [uuid.UUID(bytes=d), uuid.UUID(bytes_le=d), uuid.UUID(bytes=d).hex])
    rt.observe("s", [uuid.UUID(str(u)) == u, uuid.UUID(hex=u.hex) == u, uuid.UUID(int=u.int)])
    rt.check(True, "")


@case([2, 4])
def uuid_text(rt, cfg):
    t = rt.text("t", cfg, 0x20, 0x7e)
    base = "12345678-1234-5678-1234-567812345678"
    rt.observe("s", outcome(lambda: uuid.UUID(base[:-cfg] + t)))
    rt.check(True, "")


UTC = datetime.timezone.utc
TZ5 = datetime.timezone(datetime.timedelta(hours=5, minutes=30))


@case([None, UTC, TZ5])
def datetimes(rt, tz):
    us, t = rt.datetime("t", -62135500000 * 10 ** 6, 253402200000 * 10 ** 6, tz)
    e = datetime.datetime(1970, 1, 1, tzinfo=tz)
    d = t - e
    rt.observe("delta", [d // datetime.timedelta(microseconds=1), d.days, d.seconds, d.microseconds])
    rt.observe("cmp", [t < e, t == e, d < datetime.timedelta(0)])
    rt.observe("add", outcome(lambda: e + datetime.timedelta(seconds=3, microseconds=us % 1000)))
    rt.observe("rep", t.replace(tzinfo=UTC))
    rt.observe("micro", t.microsecond)
    if tz is not None:
        rt.observe("utc", outcome(lambda: t.astimezone(UTC)))
    rt.check(True, "")


@case([0])
def fromts(rt, cfg):
    n = rt.int("n", -10 ** 13, 10 ** 13)
    rt.observe("a", outcome(lambda: datetime.datetime.fromtimestamp(n, UTC)))
    rt.observe("b", outcome(lambda: datetime.datetime.fromtimestamp(n)))
    rt.observe("c", outcome(lambda: datetime.timedelta(seconds=n) // datetime.timedelta(seconds=7)))
    rt.observe("d", outcome(lambda: datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=n)))
    rt.check(True, "")
SAMPLES = 400
