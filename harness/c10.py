"""C10 timestamps."""
from kit import *

RES = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=UTC)
MIN_US, MAX_US = -62135596800 * 10**6, 253402300799999999
ZONES = [UTC, None, datetime.timezone(datetime.timedelta(hours=5, minutes=30)),
         datetime.timezone(datetime.timedelta(hours=-12)), datetime.timezone(datetime.timedelta(seconds=3599))]
BOUNDS = {"quick": "every instant of the years 1..9999 at microsecond resolution (UTC, naive local, +05:30, -12:00, "
                   "+00:59:59); every stored number of 1..16 bytes; all four resolutions, byte orders, signedness, aware "
                   "and naive; local time UTC, and five hours and a half ahead of it and twelve behind (without the first and last 15 hours of the years 1..9999)"}
OUTSIDE = "zones with daylight saving; fold"
COVERS = {"dump": ["fits", "rejected"], "load": ["loaded", "not a date"], "roundtrip": []}

# (class or size, resolution, signed, endian, tz_aware)
CFGS = [(c, r, g, e, z) for c in ("Timestamp32", "Timestamp64", 5, 6, 7, 12, 16) for r in RES for g in (True, False)
        for e in ("big", "little") for z in (True, False)
        if isinstance(c, str) or (e == "big") == z]


def ts(cfg):
    c, r, g, e, z = cfg[:5]
    kw = {"resolution": r, "signed": g, "endian": e, "tz_aware": z}
    if r == "s" and z:
        del kw["resolution"]
    if g and e == "big":
        del kw["signed"]
    if not z and r != "us":
        del kw["tz_aware"]
    return getattr(fields, c)(**kw) if isinstance(c, str) else fields.Timestamp(size=c, **kw)


def size_of(cfg):
    return {"Timestamp32": 4, "Timestamp64": 8}.get(cfg[0], cfg[0])


@case(CFGS)
def dump(rt, cfg):
    """an instant is stored as the whole number of units, or rejected"""
    res, signed, endian = cfg[1], cfg[2], cfg[3]
    f, size = ts(cfg), size_of(cfg)
    zone = rt.choice("zone", ZONES)
    back = rt.choice("before", (False, True))          # before the epoch or not
    lo_u, hi_u = int_range(size, signed)
    # |us| = q * step + r: a whole number of units and a remainder
    step = max(1, 10**6 // RES[res])
    room = 14 * 3600 * 10**6                           # every zone stays inside the years 1..9999
    per = max(1, RES[res] // 10**6)
    q_all = ((-MIN_US if back else MAX_US) - room) // step - 1
    q_fit = min((-lo_u if back else hi_u) // per, q_all)
    fits = rt.choice("fits", (True, False))
    rt.assume(fits or q_fit < q_all)
    if q_fit == q_all:
        rt.cover("rejected")
    q = rt.int("q", 0, q_fit) if fits else rt.int("q", q_fit + 1, q_all)
    us = q * step + (rt.int("r", 0, step - 1) if step > 1 else 0)
    if back:
        us = -us
    units = (-q if back else q) * per
    dt = rt.instant(us, zone)
    st = io.BytesIO()
    if fits:
        rt.cover("fits")
        want = ref_int_bytes(rt, units, size, endian)
        rt.denotes(want, units, endian, signed)
        f.to_stream(st, dt)
        rt.observe("out", st.getvalue())
        rt.eq(st.getvalue(), want, "bytes")
        got = f.from_bytes(want)
        back_us = units * 10**6 // RES[res]
        if cfg[4]:
            rt.check(got.tzinfo is UTC, "loaded datetime is not in UTC")
            rt.eq(got, rt.instant(back_us, UTC), "instant loaded")
        else:
            rt.check(got.tzinfo is None, "loaded datetime is not naive")
            rt.eq(got, rt.instant(back_us, None), "local time loaded")
    else:
        rt.cover("rejected")
        rt.raises((errors.SerializationError,), lambda: f.to_stream(st, dt), "instant that does not fit accepted")
        rt.eq(st.getvalue(), b"", "bytes of a rejected instant written")


@case(CFGS + [(c, r, g, "big", True) for c in (1, 2, 3) for r in RES for g in (True, False)
              if not (c == 1 and r == "ns")])
def load(rt, cfg):
    """every stored number is the instant it denotes, or is reported"""
    res, signed, endian = cfg[1], cfg[2], cfg[3]
    f, size = ts(cfg), size_of(cfg)
    lo, hi = int_range(size, signed)
    u = RES[res]
    # the representable range of datetimes, in units
    if u <= 10**6:
        lo_ok, hi_ok = -(-MIN_US // (10**6 // u)), MAX_US // (10**6 // u)
    else:
        lo_ok, hi_ok = MIN_US * (u // 10**6), MAX_US * (u // 10**6) + (u // 10**6) - 1
    part = rt.choice("part", ("low", "ok", "high"))
    room = 15 * 3600 * u if len(cfg) > 5 else 0        # local time stays inside the years 1..9999, too
    a, b = {"low": (lo, lo_ok - 1), "ok": (max(lo, lo_ok + room), min(hi, hi_ok - room)), "high": (hi_ok + 1, hi)}[part]
    if lo_ok <= lo and hi <= hi_ok:
        rt.cover("not a date")
    rt.assume(a <= b)
    if part == "ok" and u == 10**9:
        # n = us * 1000 + r
        us = rt.int("n", -(-a // 1000), b // 1000 - 1)
        n = us * 1000 + rt.int("r", 0, 999)
    else:
        n = rt.int("n", a, b)
        us = n * (10**6 // u) if u <= 10**6 else None
    d = ref_int_bytes(rt, n, size, endian)
    rt.denotes(d, n, endian, signed)
    if part != "ok":
        rt.cover("not a date")
        rt.raises((errors.DeserializationError,), lambda: f.from_bytes(d), "a number that is no datetime accepted")
        return
    rt.cover("loaded")
    got = f.from_bytes(d)
    rt.check(isinstance(got, datetime.datetime), "not a datetime")
    rt.check((got.tzinfo is UTC) if cfg[4] else (got.tzinfo is None), "time zone of the result")
    rt.eq(got, rt.instant(us, UTC if cfg[4] else None), "instant")
    rt.observe("dt", got)
    rt.eq(got.utcoffset(), datetime.timedelta(0) if cfg[4] else None, "offset")


LOCAL = [(c, r, True, e, z, m) for c in ("Timestamp32", "Timestamp64", 7) for r in RES for e, z in (("big", True), ("little", False))
         for m in (330, -720)]


@case(LOCAL)
def dump_local(rt, cfg):
    """the same where local time is not UTC"""
    rt.local_zone(cfg[5])
    dump(rt, cfg)


@case(LOCAL)
def load_local(rt, cfg):
    """the same where local time is not UTC"""
    rt.local_zone(cfg[5])
    load(rt, cfg)


@case([(c, r, z) for c in ("Timestamp32", "Timestamp64") for r in RES for z in (True, False)])
def in_struct(rt, cfg):
    """between other fields, default byte order"""
    c, r, z = cfg
    S = make(("a", fields.UInt8()), ("x", getattr(fields, c)(resolution=r, tz_aware=z)), ("b", fields.UInt8()))
    size = size_of((c,))
    unit = max(1, 10**6 // RES[r])
    lo, hi = int_range(size, True)
    k = max(1, RES[r] // 10**6)
    q = rt.int("q", max(-(-lo // k), -(-MIN_US // unit)), min(hi // k, MAX_US // unit))
    dt = rt.instant(q * unit, UTC if z else None)
    s = S(a=1, x=dt, b=2)
    d = ref_int_bytes(rt, q * k, size, sys.byteorder)
    rt.denotes(d, q * k, sys.byteorder, True)
    want = b"\x01" + d + b"\x02"
    rt.eq(s.to_bytes(), want, "bytes")
    t = S.from_bytes(want)
    rt.eq(t.x, dt, "instant")
    rt.eq(t.b, 2, "the field behind")
    rt.raises((errors.UnexpectedEOFError,), lambda: S.from_bytes(want[:rt.choice("cut", range(len(want)))]), "cut")
    rt.eq(S.get_size(), size + 2, "size")
