"""C32 stream helpers read, peek and write exactly the bytes they promise."""
import sys

from kit import *

from binobj import helpers

BOUNDS = {"quick": "streams of up to 20 (quick) or 36 (thorough) arbitrary bytes, every position (also after the end), every count from 0 (integers: -3) to beyond the end, "
                   "widths 1..17 (quick) or 1..33 (thorough) bytes, every integer of twice the width, both byte orders, both signednesses and the defaults; a read "
                   "failing at every call; iteration stopped after every element"}
OUTSIDE = "negative counts to peek_bytes; streams that return fewer bytes than they have; byte orders other than little and big"
ASSUMPTIONS = ["streams are seekable binary streams as documented"]
COVERS = {"read": ["enough", "short"], "write": ["fits", "too large"], "peek": ["enough", "short"], "iterate": ["end of data", "maximum"]}

SIGNS = (True, False, None)
ENDIANS = ("little", "big", None)
LENS = (0, 1, 2, 3, 5, 8, 9, 16, 20)


class Boom(Exception):
    pass


class Faulty:
    """A stream whose n-th read fails, after moving the position."""

    def __init__(self, data, pos, fail):
        self.inner = io.BytesIO(data)
        self.inner.seek(pos)
        self.fail = fail
        self.reads = 0

    def read(self, n=-1):
        self.reads += 1
        data = self.inner.read(n)
        if self.reads == self.fail:
            raise Boom()
        return data

    def seek(self, pos, whence=0):
        return self.inner.seek(pos, whence)

    def tell(self):
        return self.inner.tell()


def value_of(data, signed, endian):
    """Integer the bytes stand for."""
    n = 0
    for b in (data if (endian or sys.byteorder) == "big" else data[::-1]):
        n = n * 256 + b
    if signed is not False and len(data) > 0 and data[0 if (endian or sys.byteorder) == "big" else -1] >= 128:
        n -= 256 ** len(data)
    return n


def opts(signed, endian):
    return {**({} if signed is None else {"signed": signed}), **({} if endian is None else {"endian": endian})}


@case([(s, e, n) for s in SIGNS for e in ENDIANS for n in range(-3, 18)], thorough=[(s, e, n) for s in SIGNS for e in ENDIANS for n in range(18, 34)])
def read(rt, cfg):
    """read_int reads exactly n bytes, or reports the end of the input"""
    signed, endian, n = cfg
    size = rt.choice("size", LENS + ((33, 36) if n > 17 else ()))
    data = rt.bytes("data", size)
    pos = rt.choice("pos", sorted({0, 1, size // 2, max(size - n, 0), max(size - n + 1, 0), max(size - n - 1, 0), size, size + 2}))
    st = io.BytesIO(data)
    st.seek(pos)
    if n < 0:
        rt.raises((errors.DeserializationError,), lambda: helpers.read_int(st, n, **opts(signed, endian)), "negative size")
        rt.eq(st.tell(), pos, "position after a refused size")
    elif pos + n > size and n > 0:
        rt.cover("short")
        e = rt.raises((errors.UnexpectedEOFError,), lambda: helpers.read_int(st, n, **opts(signed, endian)), "short data")
        if e is not None:
            rt.eq((e.offset, e.size), (pos, n), "error attributes")
    else:
        rt.cover("enough")
        got = helpers.read_int(st, n, **opts(signed, endian))
        rt.eq(got, value_of(data[pos:pos + n], signed, endian), "value")
        rt.eq(st.tell(), pos + n, "position")
        rt.check(type(got) is int, "an integer")
    rt.eq(st.getvalue(), data, "the stream is not changed")


@case([(s, e, n) for s in SIGNS for e in ENDIANS for n in range(1, 18)], thorough=[(s, e, n) for s in SIGNS for e in ENDIANS for n in range(18, 34)])
def write(rt, cfg):
    """write_int writes exactly n bytes at the position, or fails and writes nothing"""
    signed, endian, n = cfg
    v = rt.int("v", -(256 ** n), 256 ** n)
    size = rt.choice("size", (0, 3, n + 4))
    data = rt.bytes("data", size)
    pos = rt.choice("pos", sorted({0, size, size // 2}))
    st = io.BytesIO(data)
    st.seek(pos)
    lo, hi = (0, 256 ** n) if signed is False else (-(256 ** n) // 2, 256 ** n // 2)
    if rt.holds(v >= lo) and rt.holds(v < hi):
        rt.cover("fits")
        rt.check(helpers.write_int(st, v, n, **opts(signed, endian)) is None, "nothing is returned")
        out = st.getvalue()
        rt.eq(st.tell(), pos + n, "position")
        rt.eq(len(out), max(size, pos + n), "size of the stream")
        rt.eq(out[:pos], data[:pos], "bytes before")
        rt.eq(out[pos + n:], data[pos + n:], "bytes after")
        rt.eq(value_of(out[pos:pos + n], signed, endian), v, "bytes written")
        st.seek(pos)
        rt.eq(helpers.read_int(st, n, **opts(signed, endian)), v, "reading it back")
    else:
        rt.cover("too large")
        rt.raises((OverflowError,), lambda: helpers.write_int(st, v, n, **opts(signed, endian)), "value out of range")
        rt.eq(st.getvalue(), data, "nothing is written")
        rt.eq(st.tell(), pos, "position")


@case([(n, s) for n in range(0, 22) for s in (True, False, None)], thorough=[(n, s) for n in range(22, 40) for s in (True, False, None)])
def peek(rt, cfg):
    """peek_bytes returns the next bytes and leaves the position alone"""
    n, short = cfg
    size = rt.choice("size", LENS + (36,))
    data = rt.bytes("data", size)
    pos = rt.choice("pos", sorted({0, 1, size // 2, max(size - n, 0), max(size - n + 1, 0), max(size - n - 1, 0), size, size + 2}))
    st = io.BytesIO(data)
    st.seek(pos)
    kw = {} if short is None else {"short_read_okay": short}
    want = data[pos:pos + n]
    if len(want) < n:
        rt.cover("short")
    else:
        rt.cover("enough")
    for _ in range(2):
        if len(want) < n and short is False:
            rt.raises((EOFError,), lambda: helpers.peek_bytes(st, n, **kw), "short read")
        else:
            got = helpers.peek_bytes(st, n, **kw)
            rt.check(type(got) is bytes, "bytes")
            rt.eq(got, want, "bytes")
        rt.eq(st.tell(), pos, "position")
    rt.eq(st.getvalue(), data, "the stream is not changed")
    rt.eq(st.read(n), want, "reading afterwards")


@case([(n, p, s) for n in (0, 1, 4, 9) for p in (0, 2, 6) for s in (True, False)])
def peek_fails(rt, cfg):
    """the position is restored when reading fails, which is reported"""
    n, pos, short = cfg
    data = rt.bytes("data", 6)
    fail = rt.choice("fail", (1, 2))
    st = Faulty(data, pos, fail)
    for i in (1, 2, 3):
        try:
            got = helpers.peek_bytes(st, n, short)
        except Boom:
            rt.check(i == fail, "failed on its own")
        except EOFError:
            rt.check(not short and i != fail and len(data[pos:pos + n]) < n, "short read")
        else:
            rt.check(i != fail, "the failure is hidden")
            rt.eq(got, data[pos:pos + n], "bytes")
        rt.eq(st.tell(), pos, "position")


@case([(m, z) for m in (None, "none", 0, 1, 2, 3, 5, 8, 9, -1) for z in (0, 1, 2, 3, 5, 8)],
      thorough=[(m, z) for m in (None, 0, 4, 16, 17, 30) for z in (4, 6, 7, 16, 17, 33)])
def iterate(rt, cfg):
    """iter_bytes yields single bytes, and the position follows"""
    limit, size = cfg
    data = rt.bytes("data", size)
    pos = rt.choice("pos", sorted({0, 1, size, size // 2, size + 1}))
    st = io.BytesIO(data)
    st.seek(pos)
    it = helpers.iter_bytes(st) if limit == "none" else helpers.iter_bytes(st, limit)
    limit = None if limit == "none" else limit
    left = max(size - pos, 0)
    n = left if limit is None else min(left, max(limit, 0))
    rt.cover("end of data" if limit is None or limit > left else "maximum")
    rt.eq(st.tell(), pos, "position before the first byte")
    stop = rt.choice("stop", range(n + 1))
    for i in range(stop):
        b = next(it, None)
        rt.check(type(b) is bytes and len(b) == 1, "one byte")
        rt.eq(b, data[pos + i:pos + i + 1], "byte")
        rt.eq(st.tell(), pos + i + 1, "position after the byte")
    if stop == n:
        rt.check(next(it, None) is None, "too many bytes")
        rt.check(next(it, None) is None, "too many bytes")
        rt.eq(st.tell(), pos + n, "position at the end")
    else:
        rest = [b for b in it]
        rt.eq(len(rest), n - stop, "number of bytes")
        rt.eq(cat(rest), data[pos + stop:pos + n], "the rest")
        rt.eq(st.tell(), pos + n, "position at the end")
    rt.eq(st.getvalue(), data, "the stream is not changed")


@case([(n, f) for n in (None, 0, 3, 6, 9) for f in range(1, 8)])
def iterate_fails(rt, cfg):
    """a failing read ends the iteration with that error"""
    limit, fail = cfg
    data = rt.bytes("data", 6)
    st = Faulty(data, 0, fail)
    got = []

    def run():
        for b in helpers.iter_bytes(st, limit):
            got.append(b)
    n = 6 if limit is None else min(limit, 6)
    if fail <= (n if limit is not None and limit <= 6 else 7):
        rt.raises((Boom,), run, "the failure is hidden")
        rt.eq(len(got), fail - 1, "bytes before the failure")
    else:
        run()
        rt.eq(len(got), n, "bytes")
    rt.eq(cat(got), data[:len(got)], "bytes")


@case([("read", "peek"), ("peek", "read"), ("iter", "read"), ("read", "iter"), ("write", "read"), ("iter", "iter"), ("write", "peek"), ("peek", "iter")])
def mixed(rt, cfg):
    """helpers used one after the other continue where the previous one ended"""
    data = rt.bytes("data", 9)
    v = rt.int("v", 0, 65535)
    st = io.BytesIO(data)
    pos = 0
    for what in cfg * 2:
        if what == "read":
            rt.eq(helpers.read_int(st, 2, False, "big"), value_of(data[pos:pos + 2], False, "big"), "read")
            pos += 2
        elif what == "peek":
            rt.eq(helpers.peek_bytes(st, 2), data[pos:pos + 2], "peek")
        elif what == "write":
            helpers.write_int(st, v, 2, False, "little")
            data = data[:pos] + bytes([v % 256, v // 256]) + data[pos + 2:]
            pos += 2
        else:
            rt.eq(cat([b for b in helpers.iter_bytes(st, 2)]), data[pos:pos + 2], "iterate")
            pos += 2
        rt.eq(st.tell(), pos, "position")
    rt.eq(st.getvalue(), data, "contents")
