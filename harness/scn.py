"""Scenarios: struct layouts over every feature, with value generators and reference serializations.

A scenario is a list of Items.  The same scenario is built in several declaration styles (flat, split over
a chain of parent classes, annotations) and driven through every entry point by the properties C11-C31.
"""
from kit import *


class UnsetType:
    pass


UNSET = UnsetType()


class Item:
    """One field: how to declare it, what may be assigned, what it serializes to and what it loads as."""

    def __init__(self, name, field, gen, ref, same=None, loaded=None, late=False, compute=None, discard=False,
                 effective=None, fixed=None, own=None, inner=None):
        self.name, self.inner = name, inner
        self.field = field            # (env of sibling fields) -> Field
        self.gen = gen                # (rt, vals, name) -> value to assign, or UNSET
        self.ref = ref                # (rt, v, vals) -> bytes, or None if absent
        self._same = same
        self._loaded = loaded         # (v, vals) -> value after loading
        self.late, self.compute, self.discard = late, compute, discard
        self._effective = effective   # (vals) -> value used when unset
        self.fixed = fixed            # byte size when it is the same for every instance
        self.free = False             # required, and nothing depends on it
        self.own = own                # annotation class, when it can be declared by class

    def same(self, rt, got, v, msg):
        if v is None or v is NOT_PRESENT:
            rt.check(got is v, f"{msg}: is not {v}")
        elif self._same is not None:
            self._same(rt, got, v, msg)
        else:
            rt.same(got, v, msg)


class Vals:
    """One symbolic instance of a scenario."""

    def __init__(self, assign, full, parts, loaded, items):
        self.assign = assign      # constructor arguments
        self.full = full          # effective value of every field
        self.parts = parts        # [(name, bytes or None)] in declaration order
        self.loaded = loaded      # {name: value} expected after loading (discarded fields left out)
        self.items = items
        self.bytes = cat([b for _, b in parts if b is not None])
        self.nested = {i.name: i.inner["vals"] for i in items if i.inner is not None}

    def prefix(self, name):
        """Bytes of all fields up to and including name."""
        out = b""
        for n, b in self.parts:
            if b is not None:
                out = out + b
            if n == name:
                return out
        raise KeyError(name)

    def offset(self, name):
        out = 0
        for n, b in self.parts:
            if n == name:
                return out
            if b is not None:
                out += len(b)
        raise KeyError(name)

    def complete(self):
        """Every field has been assigned explicitly, what it loads as (equality compares only assigned fields)."""
        return (len(self.assign) == len(self.items)
                and all([i.name in self.loaded and self.loaded[i.name] is self.full[i.name] for i in self.items])
                and all([v.complete() for v in self.nested.values()]))


class Scn:
    def __init__(self, name, items, ctx=None, meta=None, validators=(), greedy=False, dc=True):
        self.name, self.items, self.ctx, self.meta = name, items, ctx, meta
        self.greedy = greedy      # ends at the end of data: nothing may follow it
        self.dc = dc
        self.names = [i.name for i in items]
        self.fixed = None
        self.plain = not any(i.discard for i in items)

    def fixed_size(self):
        """Size of every instance, None if it varies."""
        sizes = [i.fixed for i in self.items]
        return None if None in sizes else sum(sizes)

    def fixed_offset(self, name):
        out = 0
        for i in self.items:
            if i.name == name:
                return out
            if i.fixed is None:
                return None
            out += i.fixed

    def item(self, name):
        return [i for i in self.items if i.name == name][0]

    def env(self):
        e = {}
        for i in self.items:
            e[i.name] = i.field(e)
            if i.compute is not None:
                e[i.name].computes(i.compute)
        return e

    def cls(self, name="S", base=binobj.Struct):
        return make(*self.env().items(), meta=self.meta, name=name, base=base)

    def validated_cls(self):
        """The same layout with validator methods for every field and for the struct; they look and accept."""
        def look(self, f, value):
            return self.__values__.get(f.name)

        def look_all(self, values):
            return [values[n] for n in values]
        return make(*self.env().items(), ("vm", validates(*self.names)(look)), ("vs", validates_struct(look_all)), meta=self.meta)

    def split_cls(self, cuts):
        """The same layout as a chain of classes, a new class starting at each cut."""
        e = list(self.env().items())
        base, last = binobj.Struct, 0
        for n, c in enumerate(list(cuts) + [len(e)]):
            base = make(*e[last:c], meta=self.meta, base=base, name=f"L{n}")
            last = c
        return base

    def dc_cls(self, base=binobj.Struct, name="D"):
        e = self.env()
        ns = {"__annotations__": dict(e)}
        if self.meta is not None:
            ns["Meta"] = type("Meta", (), {"argument_defaults": self.meta})
        return binobj.dataclass(type(name, (base,), ns))

    def style(self, style):
        if style == "flat":
            return self.cls()
        if style == "dc":
            return self.dc_cls()
        if style == "val" and self.items:
            return self.validated_cls()
        if style == "split":
            return self.split_cls([len(self.items) // 2])
        return self.split_cls(list(range(1, len(self.items))))

    def vals(self, rt, prefix=""):
        assign, full = {}, {}
        for late in (False, True):
            for i in self.items:
                if i.late != late:
                    continue
                v = i.gen(rt, full, prefix + i.name)
                if v is UNSET:
                    v = i._effective(full)
                else:
                    assign[i.name] = v
                full[i.name] = v
        assign = {n: assign[n] for n in self.names if n in assign}
        parts, loaded = [], {}
        for i in self.items:
            v = full[i.name]
            b = i.ref(rt, v, full)
            parts.append((i.name, b))
            if not i.discard:
                loaded[i.name] = i._loaded(v, full) if i._loaded is not None else v
        return Vals(assign, full, parts, loaded, self.items)

    def same(self, rt, got, vals, msg, names=None):
        """The loaded struct has exactly the expected field values."""
        for i in self.items:
            if names is not None and i.name not in names:
                continue
            if i.inner is not None:
                i.inner["vals"] = vals.nested[i.name]
            if not i.discard:
                i.same(rt, got[i.name], vals.loaded[i.name], f"{msg}: field {i.name}")
            else:
                rt.check(i.name not in [q for q in got], f"{msg}: discarded field {i.name} is there")


# ----------------------------------------------------------------------------------- item makers
def K(name, kind, **opts):
    k = KINDS[kind]
    it = Item(name, lambda env: k.field(**opts), lambda rt, vals, n: k.val(rt, n), lambda rt, v, vals: k.ref(rt, v),
              same=k.same, fixed=k.size, discard=opts.get("discard", False))
    it.free = True
    return it


def nullable(name, kind, null_value, null_bytes, same_as=None):
    """None or a value different from the one that stands for None."""
    k = KINDS[kind]

    def gen(rt, vals, n):
        if rt.choice(n + ".none", (False, True)):
            return None
        v = k.val(rt, n)
        r = k.ref(rt, v)
        if len(r) == len(null_bytes):
            rt.assume(r != null_bytes)
        return v
    return Item(name, lambda env: k.field(null_value=null_value), gen,
                lambda rt, v, vals: null_bytes if v is None else k.ref(rt, v), same=k.same,
                fixed=k.size)


def const(name, kind, value, refb, **opts):
    k = KINDS[kind]
    return Item(name, lambda env: k.field(const=value, **opts), lambda rt, vals, n: UNSET, lambda rt, v, vals: refb,
                same=k.same, effective=lambda vals: value, fixed=len(refb), discard=opts.get("discard", False))


def defaulted(name, kind, value, refb, **opts):
    """Assigned or left to its default."""
    k = KINDS[kind]

    def gen(rt, vals, n):
        return UNSET if rt.choice(n + ".unset", (False, True)) else k.val(rt, n)
    return Item(name, lambda env: k.field(default=value, **opts), gen, lambda rt, v, vals: k.ref(rt, v), same=k.same,
                effective=lambda vals: value, fixed=k.size, discard=opts.get("discard", False))


def factory(name, kind, value):
    k = KINDS[kind]

    def gen(rt, vals, n):
        return UNSET if rt.choice(n + ".unset", (False, True)) else k.val(rt, n)
    return Item(name, lambda env: k.field(factory=lambda: value), gen, lambda rt, v, vals: k.ref(rt, v), same=k.same,
                effective=lambda vals: value, fixed=k.size)


def cond(name, kind, when, npv=NOT_PRESENT, in_ctx=False, **opts):
    """Present when `when(vals or ctx)` holds; assigned or not when absent."""
    k = KINDS[kind]

    def holds(vals):
        return when(CTX if in_ctx else vals)

    def present(v, ctx, st):
        return when(ctx if in_ctx else v)

    def gen(rt, vals, n):
        if rt.holds(holds(vals)):
            return k.val(rt, n)
        return k.val(rt, n) if rt.choice(n + ".extra", (False, True)) else UNSET

    def ref(rt, v, vals):
        return k.ref(rt, v) if rt.holds(holds(vals)) else None
    return Item(name, lambda env: k.field(present=present, not_present_value=npv, **opts), gen, ref, same=k.same,
                loaded=lambda v, vals: v if holds(vals) else npv, effective=lambda vals: NOT_PRESENT)


def sized(name, size_of, how, make_field, gen, ref, **kw):
    """A field whose size is another field."""
    return Item(name, lambda env: make_field(size=env[size_of] if how == "obj" else size_of), gen, ref, **kw)


def sizer(name, kind, computed, lo=0, hi=3, length=None, discard=False, **opts):
    """The field that states the size or count: assigned, or computed from the payload."""
    k = KINDS[kind]
    if computed is None:
        return Item(name, lambda env: k.field(discard=discard, **opts), lambda rt, vals, n: rt.choice(n, range(lo, hi + 1)),
                    lambda rt, v, vals: k.ref(rt, v), same=k.same, fixed=k.size, discard=discard)
    return Item(name, lambda env: k.field(discard=discard, **opts), lambda rt, vals, n: UNSET,
                lambda rt, v, vals: k.ref(rt, v), same=k.same, late=True,
                compute=lambda self, v: len(v[computed]), effective=lambda vals: len(vals[computed]), fixed=k.size,
                discard=discard)


def payload(name, size_of, how="obj", own_len=None):
    """Bytes of the size another field states (own_len: lengths chosen here, the sizer is computed)."""
    def gen(rt, vals, n):
        ln = vals[size_of] if own_len is None else rt.choice(n + ".len", own_len)
        return rt.bytes(n, ln)
    return sized(name, size_of, how, lambda **kw: fields.Bytes(**kw), gen, lambda rt, v, vals: v)


def text_payload(name, size_of, how="name"):
    return sized(name, size_of, how, lambda **kw: fields.String(**kw),
                 lambda rt, vals, n: rt.text(n, vals[size_of], 0, 255), lambda rt, v, vals: bytes([ord(c) for c in v]))


def array(name, kind, count=None, how="obj", own_len=None, halt=None, wrap=None, end=b""):
    """Array of a kind; count is an int, the name of a sibling, or None (halt check or end of data)."""
    k = KINDS[kind]

    def field(env):
        c = count
        if isinstance(count, str):
            c = env[count] if how == "obj" else count
        kw = {}
        if halt is not None:
            kw["halt_check"] = halt
        return fields.Array(k.field(), count=c, **kw)

    def gen(rt, vals, n):
        if own_len is not None:
            ln = rt.choice(n + ".len", own_len)
        else:
            ln = vals[count] if isinstance(count, str) else count
        out = [k.val(rt, f"{n}.{j}") for j in range(ln)]
        return out if wrap is None else wrap(out)

    def ref(rt, v, vals):
        return cat([k.ref(rt, x) for x in v])

    def same(rt, got, v, msg):
        rt.check(isinstance(got, list), f"{msg}: not a list")
        rt.check(len(got) == len(v), f"{msg}: wrong number of elements")
        for j in range(len(v)):
            k.same(rt, got[j], v[j], f"{msg}[{j}]")
    return Item(name, field, gen, ref, same=same,
                fixed=count * k.size if isinstance(count, int) and k.size is not None else None)


def nested(name, scn, as_instance=False, **opts):
    """A nested scenario, given as a mapping or as an instance."""
    holder = {}

    def field(env):
        holder["cls"] = scn.cls(name="N" + scn.name)
        return fields.Nested(holder["cls"], **opts)

    def gen(rt, vals, n):
        v = scn.vals(rt, n + ".")
        holder["vals"] = v
        return holder["cls"](**v.assign) if as_instance else dict(v.assign)

    def same(rt, got, v, msg):
        scn.same(rt, got, holder["vals"], msg)
        rt.check(type(got) is holder["cls"], f"{msg}: not an instance of the nested class")
    return Item(name, field, gen, lambda rt, v, vals: holder["vals"].bytes, same=same, inner=holder,
                fixed=scn.fixed_size())


class CtxType:
    """The context object that the scenarios pass in."""

    def __init__(self):
        self.on, self.off, self.k = True, False, 5


CTX = CtxType()


def sized_array(name, size_of, how, count, where="array"):
    """An array whose elements all have the size another field states; or one of them as a union choice."""
    def field(env):
        f = fields.Bytes(size=env[size_of] if how == "obj" else size_of)
        if where == "array":
            return fields.Array(f, count=count)
        return fields.Union(KINDS["vlq"].field(), f, load_decider=lambda st, ch, ctx, lf: ch[1],
                            dump_decider=lambda d, ch, ctx, af: ch[1])

    def gen(rt, vals, n):
        if where == "union":
            return rt.bytes(n, vals[size_of])
        return [rt.bytes(f"{n}.{j}", vals[size_of]) for j in range(count)]
    return Item(name, field, gen, lambda rt, v, vals: v if where == "union" else cat(v))


def matrix(name, rows, cols):
    """An array of arrays."""
    return Item(name, lambda env: fields.Array(fields.Array(fields.UInt16(endian="big"), count=cols), count=rows),
                lambda rt, vals, n: [[rt.int(f"{n}.{i}.{j}", 0, 65535) for j in range(cols)] for i in range(rows)],
                lambda rt, v, vals: cat([bytes([x >> 8, x & 255]) for row in v for x in row]), fixed=2 * rows * cols)


def halt_after_zero(seq, stream, values, context, loaded):
    """Stop after an element equal to zero."""
    return len(values) > 0 and values[-1] == 0


def zero_terminated(name):
    """Array of non-zero bytes up to and including a zero."""
    def gen(rt, vals, n):
        ln = rt.choice(n + ".len", (0, 2))
        return [rt.int(f"{n}.{j}", 1, 255) for j in range(ln)] + [0]
    return Item(name, lambda env: fields.Array(fields.UInt8(), halt_check=halt_after_zero), gen,
                lambda rt, v, vals: bytes(v))


def tagged_union(name, tag):
    """A union decided by a sibling: a struct or one of two fields."""
    holder = {}

    def field(env):
        holder["cls"] = inner_class()
        return fields.Union(KINDS["u16b"].field(), KINDS["strz"].field(),
                            load_decider=lambda st, ch, ctx, f: ch[f[tag] & 1],
                            dump_decider=lambda d, ch, ctx, f: ch[f[tag] & 1])

    def gen(rt, vals, n):
        return KINDS["u16b" if vals[tag] == 0 else "strz"].val(rt, n)
    return Item(name, field, gen, lambda rt, v, vals: KINDS["u16b" if vals[tag] == 0 else "strz"].ref(rt, v))


def struct_union(name, tag):
    """A union of two struct classes decided by a sibling."""
    def field(env):
        return fields.Union(inner_class(), inner_var_class(), load_decider=lambda st, ch, ctx, f: ch[f[tag] & 1],
                            dump_decider=lambda d, ch, ctx, f: ch[f[tag] & 1])

    def which(vals):
        return KINDS["nest" if vals[tag] == 0 else "nestvar"]
    return Item(name, field, lambda rt, vals, n: which(vals).val(rt, n), lambda rt, v, vals: which(vals).ref(rt, v),
                same=nested_same)


def tag(name):
    return Item(name, lambda env: fields.UInt8(), lambda rt, vals, n: rt.choice(n, (0, 1)),
                lambda rt, v, vals: bytes([v]), fixed=1)


def flag(name, bits=0x03):
    """A byte of which the low bits decide about presence."""
    return Item(name, lambda env: fields.UInt8(), lambda rt, vals, n: rt.int(n, 0, 255),
                lambda rt, v, vals: bytes([v]), fixed=1)


# ------------------------------------------------------------------------------------- catalogue
def _scns():
    out = []

    def add(name, *items, **kw):
        out.append(Scn(name, list(items), **kw))
    for k in ALL_KINDS:
        add("k_" + k, K("a", "u8"), K("x", k), K("b", "u16b"))
    add("first_var", K("x", "strz"), K("y", "vlq"), K("z", "strz16"))
    add("one_fixed", K("x", "i32l"))
    add("one_var", K("x", "strz8"))
    add("all_fixed", K("a", "i24b"), K("b", "bytes3"), K("c", "arr3"), K("d", "nest"), K("e", "u64b"))
    add("fixed_var_fixed", K("a", "u16b"), K("b", "strz"), K("c", "nest"), K("d", "arr3"))
    add("zero_size", K("a", "bytes0"), K("b", "u8"), K("c", "bytes0"))
    add("empty")
    for how in ("obj", "name"):
        add("sized_" + how, sizer("n", "u8", None), K("g", "u8"), payload("d", "n", how), K("t", "i8"))
        add("counted_" + how, sizer("n", "u8", None), array("d", "u16l", "n", how), K("t", "i8"))
        add("computed_size_" + how, sizer("n", "u16b", "d"), payload("d", "n", how, own_len=(0, 1, 3)), K("t", "u8"))
        add("computed_count_" + how, sizer("n", "vlq", "d"), array("d", "strz", "n", how, own_len=(0, 2)), K("t", "u8"))
    add("two_sized", sizer("n", "u8", None, 0, 2), sizer("m", "vlq", None, 0, 2), text_payload("s", "m"), payload("d", "n"),
        K("t", "u8"))
    add("size_hidden", sizer("n", "u8", "d", discard=True), payload("d", "n", own_len=(0, 2)), K("t", "u8"))
    add("count_hidden", sizer("n", "u8", "d", discard=True), array("d", "i8", "n", "name", own_len=(0, 2)), K("t", "u8"))
    add("arr_sized_obj", sizer("n", "u8", None, 0, 2), sized_array("d", "n", "obj", 2), K("t", "u8"))
    add("arr_sized_name", sizer("n", "u8", None, 0, 2), sized_array("d", "n", "name", 2), K("t", "u8"))
    add("union_sized", sizer("n", "u8", None, 0, 2), sized_array("d", "n", "name", 0, "union"), K("t", "u8"))
    add("arr_arr", matrix("d", 2, 2), K("t", "u8"))
    add("size_default", sizer("n", "u8", None, 0, 2, default=2), payload("d", "n"), K("t", "u8"))
    add("count_default", sizer("n", "u16b", None, 0, 2, default=1), array("d", "i8", "n"), K("t", "u8"))
    add("discard_required", K("a", "u8"), K("p", "u8", discard=True), K("b", "strz"), K("q", "strz", discard=True),
        K("t", "u8"))
    add("arr_const_var", array("d", "strz", 2), K("t", "u8"))
    add("arr_zero", array("d", "u8", 0), K("t", "u8"))
    add("arr_nest", sizer("n", "u8", None, 0, 2), array("d", "nestvar", "n"), K("t", "u8"))
    add("arr_uni", array("d", "uni", 2), K("t", "u8"))
    add("arr_eof", K("a", "u8"), array("d", "u16b", own_len=(0, 1, 3)), greedy=True)
    add("arr_eof_var", K("a", "u8"), array("d", "strz", own_len=(0, 2)), greedy=True)
    add("arr_halt", K("a", "u8"), zero_terminated("d"), K("t", "u8"))
    add("const", const("m", "u16b", 0x1234, b"\x12\x34"), K("x", "u8"), const("c", "strz", "ok", b"ok\0"), K("t", "u8"))
    add("const_discard", const("m", "bytes3", b"abc", b"abc", discard=True), K("x", "strz"),
        const("c", "u8", 7, b"\x07", discard=True), K("t", "u8"))
    add("defaults", defaulted("x", "u16b", 513, b"\2\1"), defaulted("y", "strz", "hi", b"hi\0"),
        factory("z", "i8", -3), K("t", "u8"))
    add("default_zero", defaulted("x", "u8", 0, b"\0"), defaulted("s", "strz", "", b"\0"), factory("b", "bytes3", b"\0\0\0"))
    add("discard", K("a", "u8"), defaulted("pad", "bytes3", b"PAD", b"PAD", discard=True), K("b", "strz"),
        defaulted("pz", "strz", "z", b"z\0", discard=True), K("t", "u8"))
    add("null_val", nullable("x", "u16b", 0xFFFF, b"\xff\xff"), nullable("s", "strz", "\\N", b"\\N\0"), K("t", "u8"))
    add("null_bytes", nullable("x", "i24b", b"\x80\0\0", b"\x80\0\0"), nullable("d", "bytes3", b"nul", b"nul"), K("t", "u8"))
    add("null_default", nullable("x", "u8", DEFAULT, b"\0"), nullable("d", "bytes3", DEFAULT, b"\0\0\0"),
        nullable("n", "nest", DEFAULT, b"\0\0\0"), K("t", "u8"))
    add("cond", flag("f"), cond("x", "u16b", lambda v: v["f"] & 1), cond("y", "strz", lambda v: v["f"] & 2), K("t", "u8"))
    add("cond_npv", flag("f"), cond("x", "u8", lambda v: v["f"] > 9, npv=None), cond("y", "u8", lambda v: v["f"] < 5, npv=77),
        K("t", "strz"))
    add("cond_ctx", K("a", "u8"), cond("x", "u16b", lambda c: c is None or c.on, in_ctx=True), cond("y", "u8", lambda c: c is not None and c.off, in_ctx=True),
        K("t", "u8"), ctx=CTX)
    add("cond_chain", flag("f"), cond("g", "u8", lambda v: v["f"] & 1, npv=0), cond("h", "nestvar", lambda v: v["f"] > 200),
        K("t", "u8"))
    add("cond_last", K("a", "strz"), flag("f"), cond("x", "arr3", lambda v: v["f"] == 1))
    add("union_field", tag("k"), tagged_union("u", "k"), K("t", "u8"))
    add("union_struct", tag("k"), struct_union("u", "k"), K("t", "u8"))
    add("nest_inst", K("a", "u8"), nested("n", Scn("in1", [K("p", "strz"), K("q", "u16b")]), as_instance=True), K("t", "u8"))
    add("nest_map", K("a", "strz"), nested("n", Scn("in2", [K("p", "i8"), nested("q", Scn("in3", [K("r", "u8"), K("s", "strz")]))])),
        K("t", "u8"))
    add("nest_sized", nested("n", Scn("in4", [sizer("n", "u8", "d"), payload("d", "n", own_len=(0, 2))])), K("n2", "u8"))
    add("nest_cond", K("a", "u8"), nested("n", Scn("in5", [flag("f"), cond("x", "u8", lambda v: v["f"] & 1)])), K("t", "u8"))
    add("need_ctx", K("a", "u8"), cond("x", "u16b", lambda c: c is not None and c.on, in_ctx=True), cond("y", "u8", lambda c: c is None or c.off, in_ctx=True),
        K("t", "u8"), ctx=CTX)
    add("nest_need", nested("n", Scn("in7", [K("p", "u8"), cond("x", "u8", lambda c: c is not None and c.on, in_ctx=True),
                                             cond("y", "u8", lambda c: c is None or c.off, in_ctx=True)])), K("t", "u8"), ctx=CTX)
    add("nest_ctx", nested("n", Scn("in6", [K("p", "u8"), cond("x", "u8", lambda c: c is None or c.on, in_ctx=True),
                                           cond("y", "u8", lambda c: c is not None and c.off, in_ctx=True)])), K("t", "u8"), ctx=CTX)
    add("nest_default", nested("n", Scn("in7", [defaulted("p", "u16b", 258, b"\1\2"), const("q", "u8", 9, b"\x09"),
                                               sizer("l", "u8", "d"), payload("d", "l", own_len=(0, 1))])), K("t", "u8"))
    add("meta", K("a", "u8"), Item("x", lambda env: fields.UInt32(), lambda rt, v, n: rt.int(n, 0, 2 ** 32 - 1),
                                   lambda rt, v, vals: ref_int_bytes(rt, v, 4, "big"), fixed=4),
        Item("y", lambda env: fields.Int16(endian="little"), lambda rt, v, n: rt.int(n, -32768, 32767),
             lambda rt, v, vals: ref_int_bytes(rt, v, 2, "little"), fixed=2), meta={"endian": "big"})
    return {s.name: s for s in out}


SCNS = _scns
NAMES = list(_scns())
CLOSED = [n for n, s in _scns().items() if s.items and not s.greedy and s.ctx is None]
PAIR_KINDS = ["u8", "i32l", "leb", "f32l", "bytes3", "strpad", "strz", "strz16", "uuidc", "ts64ms", "arr3", "arrz", "nest",
              "nestvar", "uni"]


def scenario(name):
    """A fresh scenario (nothing is shared between two explorations)."""
    if "+" in name:
        k1, k2 = name.split("+")
        return Scn("pair", [K("x", k1), K("y", k2)])
    return _scns()[name]


PAIRS = [a + "+" + b for a in PAIR_KINDS for b in PAIR_KINDS]
