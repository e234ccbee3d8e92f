"""C12: generated structure layouts through the real engine against a reference codec."""

import itertools

import zigpy.types as t

from ..explore import Violation, require

LEVEL = "exploration"
RULE = ("every layout of up to N fields over the field alphabet (integers of 1-24 bits, enums, bitmaps, strings, lists, nested "
        "structures, trailing optional fields, conditional fields) x value patterns x every subset of present fields x every truncation")
ASSUMPTIONS = ["a conditional field depends on an earlier field, and an optional field has only optional fields after it"]


class P2(t.Struct):
    x: t.uint8_t
    y: t.uint16_t


class PB(t.Struct):
    lo: t.uint3_t
    hi: t.uint5_t


class PI(t.Struct, t.uint16_t):
    lo: t.uint8_t
    hi: t.uint8_t


class Fld:
    """name, type, bits for integers (None = byte typed), sample values, encoder."""

    def __init__(self, name, ty, bits, vals, enc=None, cuts_ok=False):
        self.name, self.ty, self.bits, self.vals, self.enc = name, ty, bits, vals, enc
        self.cuts_ok = cuts_ok


def le(n, signed=False):
    return lambda v: int(v).to_bytes(n, "little", signed=signed)


FIELDS = {f.name: f for f in [
    Fld("u8", t.uint8_t, 8, (0, 0xA5, 255), le(1)),
    Fld("u16", t.uint16_t, 16, (0x1234, 0xFFFE), le(2)),
    Fld("u16be", t.uint16_t_be, 16, (0x1234, 0x0100), lambda v: int(v).to_bytes(2, "big")),
    Fld("s8", t.int8s, 8, (-128, -1, 5), le(1, True)),
    Fld("u24", t.uint24_t, 24, (0x010203,), le(3)),
    Fld("u1", t.uint1_t, 1, (0, 1)),
    Fld("u2", t.uint2_t, 2, (0, 1, 2, 3)),
    Fld("u3", t.uint3_t, 3, (1, 6)),
    Fld("e4", t.enum4, 4, (0, 9, 15)),
    Fld("u5", t.uint5_t, 5, (1, 0x1A)),
    Fld("b4", t.bitmap4, 4, (1, 12)),
    Fld("u7", t.uint7_t, 7, (1, 0x55)),
    Fld("str", t.CharacterString, None, ("", "é"), lambda v: bytes([len(v.encode())]) + v.encode()),
    Fld("lv", t.LVList[t.uint16_t], None, ((), (0x0102, 3)), lambda v: bytes([len(v)]) + b"".join(le(2)(x) for x in v)),
    Fld("p2", P2, None, (P2(x=1, y=0x0203),), lambda v: le(1)(v.x) + le(2)(v.y)),
    Fld("pb", PB, None, (PB(lo=5, hi=1), PB(lo=0, hi=31)), lambda v: bytes([v.lo | v.hi << 3])),
    Fld("pi", PI, None, (PI(lo=1, hi=2),), lambda v: bytes([v.lo, v.hi])),
]}
FULL = list(FIELDS)
SMALL = ["u8", "u16be", "u1", "u2", "e4", "u7", "str", "pb"]
MODES = ("plain", "opt", "req")


def scenarios(tier, seed):
    th = tier == "thorough"
    out = []
    for n in (1, 2):
        for first in FULL:
            out.append(dict(fn="layouts", kind="bulk", args=dict(first=first, n=n, alphabet=FULL)))
    for first in FULL:
        out.append(dict(fn="layouts", kind="bulk", args=dict(first=first, n=3, alphabet=FULL)))
    for first in FULL if th else SMALL:
        for second in FULL if th else SMALL:
            out.append(dict(fn="layouts", kind="bulk", args=dict(first=first, n=4, alphabet=FULL if th else SMALL, second=second)))
    if th:
        tiny = ["u8", "u16", "u1", "e4", "u3"]
        for first in tiny:
            out.append(dict(fn="layouts", kind="bulk", args=dict(first=first, n=6, alphabet=tiny)))
    out.append(dict(fn="bits", kind="bulk", args={}))
    out.append(dict(fn="integer_structs", kind="bulk", args={}))
    out.append(dict(fn="copies", kind="bulk", args={}))
    out.append(dict(fn="declared", kind="bulk", args={}))
    return out


# -- reference ---------------------------------------------------------------------------
def ref_encode(layout, values):
    """None when a bit segment of the present fields does not end on a byte boundary."""
    out = b""
    acc, bits = 0, 0
    for f, v in zip(layout, values):
        if v is None:
            continue
        if f.bits is not None and (bits or f.bits % 8):
            acc |= (int(v) & ((1 << f.bits) - 1)) << bits
            bits += f.bits
            if bits % 8 == 0:
                out += acc.to_bytes(bits // 8, "big")
                acc, bits = 0, 0
            continue
        if bits:
            return None
        out += f.enc(v)
    return None if bits else out


def make(layout, mode_map):
    """A structure class with fields f0, f1, ..."""
    ns = {"__annotations__": {}}
    for i, f in enumerate(layout):
        ns["__annotations__"][f"f{i}"] = f.ty
        m = mode_map[i]
        if m == "opt":
            ns[f"f{i}"] = t.StructField(optional=True)
        elif m == "req":
            ns[f"f{i}"] = t.StructField(requires=lambda s: s.f0 is not None and bool(s.f0))
    return type("Gen", (t.Struct,), ns)


def mode_sets(layout, modes):
    n = len(layout)
    yield ("plain",) * n
    # trailing optional byte-aligned fields
    for k in range(1, n + 1):
        yield ("plain",) * (n - k) + ("opt",) * k
    if modes and n >= 2:
        for pos in range(1, n):
            yield tuple("req" if i == pos else "plain" for i in range(n))
        if n >= 3:
            yield ("plain", "req") + ("opt",) * (n - 2)


def layouts(st, first, n, alphabet, second=None):
    head = (first,) if second is None else (first, second)
    for rest in itertools.product(alphabet, repeat=n - len(head)):
        names = head + rest
        layout = [FIELDS[x] for x in names]
        for mm in mode_sets(layout, True):
            check_layout(st, names, layout, mm)


def present_sets(layout, mm, values):
    """Which fields are present: optional ones are dropped from the end."""
    n = len(layout)
    nopt = sum(m == "opt" for m in mm)
    for drop in range(nopt + 1):
        vs = list(values)
        for i in range(n - drop, n):
            vs[i] = None
        for i in range(n):
            if mm[i] == "req" and not bool(values[0]):
                vs[i] = None
        yield vs


def check_layout(st, names, layout, mm):
    n = len(layout)
    # an optional field cannot be part of a shared bit segment on the wire
    seg = 0
    for f, m in zip(layout, mm):
        inseg = f.bits is not None and (seg % 8 or f.bits % 8)
        if inseg:
            if m != "plain":
                return
            seg += f.bits
        elif seg % 8:
            break
    seg = 0
    for f in layout:
        if f.name == "pi" and seg % 8:
            return  # nested structures start on byte boundaries
        seg += f.bits or 0
    cls = make(layout, mm)
    what = f"layout {names} {mm}"
    rounds = max(len(f.vals) for f in layout)
    wrong = None
    for r in range(rounds):
        values = [f.vals[r % len(f.vals)] for f in layout]
        for vs in present_sets(layout, mm, values):
            raw = ref_encode(layout, vs)
            s = cls(**{f"f{i}": v for i, v in enumerate(vs) if v is not None})
            if raw is None:
                wrong = True
                try:
                    s.serialize()
                except ValueError:
                    pass
                else:
                    raise Violation(f"{what}: bits that do not fill a byte are encoded", key="unaligned")
                require(not s.is_valid, f"{what}: unaligned structure is reported valid", key="is_valid")
                st.executions += 1
                continue
            enc = s.serialize()
            require(enc == raw, f"{what}: {vs} encodes to {enc.hex()}, expected {raw.hex()}", key="encode")
            require(s.is_valid, f"{what}: {vs} is reported invalid", key="is_valid")
            tails = (b"",) if None in vs and any(m == "opt" for m in mm) else (b"", b"\xa5\x01")
            for tail in tails:
                d, restb = cls.deserialize(raw + tail)
                require(restb == tail, f"{what}: {raw.hex()} leaves {restb.hex()}", key="rest")
                for i, v in enumerate(vs):
                    got = getattr(d, f"f{i}")
                    require(same(got, v), f"{what}: field {i} of {raw.hex()} decodes to {got!r}, expected {v!r}", key="decode")
                    if v is not None:
                        require(isinstance(got, layout[i].ty), f"{what}: field {i} has type {type(got)}", key="decode")
                require(d == s and not (d != s), f"{what}: decoded structure differs from the original", key="equal")
                require(d.serialize() == raw, f"{what}: re-encoding differs", key="encode")
            require(cls(s) == s, f"{what}: copy differs", key="copy")
            repr(s)
            # truncations
            ends = set()
            for k in range(n + 1):
                if all(m == "opt" for m in mm[k:]):
                    p = ref_encode(layout[:k], vs[:k])
                    if p is not None:
                        ends.add(len(p))
            for c in range(len(raw)):
                try:
                    d, _ = cls.deserialize(raw[:c])
                except ValueError:
                    require(c not in ends, f"{what}: {raw[:c].hex()} lacks only optional fields but is refused", key="optional")
                    continue
                require(c in ends, f"{what}: {raw.hex()} cut to {c} bytes decodes to {d!r}", key="truncated-accepted")
                require(d.serialize() == raw[:c], f"{what}: prefix re-encodes differently", key="encode")
            # a missing mandatory field is refused when encoding and harmless otherwise
            if r == 0:
                for i in range(n):
                    if mm[i] == "plain" and vs[i] is not None and not (i == 0 and "req" in mm):
                        p = s.replace(**{f"f{i}": None})
                        require(getattr(p, f"f{i}") is None and getattr(s, f"f{i}") is not None, f"{what}: replace", key="copy")
                        try:
                            p.serialize()
                        except ValueError:
                            pass
                        else:
                            raise Violation(f"{what}: encoded without mandatory field {i}", key="missing-accepted")
                        require(not p.is_valid and p != s and s != p, f"{what}: partial structure equals the full one", key="equal")
                        require(s.matches(p), f"{what}: a structure does not match its own subset", key="matches")
                        require(not p.matches(s), f"{what}: a partial structure matches a full one", key="matches")
                        repr(p), cls(p), p.as_dict(), p.as_tuple(skip_missing=True)
                        require(cls(p) == p, f"{what}: copy of a partial structure", key="copy")
                        require(cls.from_dict(p.as_dict(recursive=True)) == p, f"{what}: dictionary round trip of a partial structure", key="dict")
            dct = s.as_dict(recursive=True)
            require(cls.from_dict(dct) == s, f"{what}: dictionary round trip", key="dict")
            require(list(s.as_dict()) == [f"f{i}" for i in range(n)], f"{what}: field order", key="dict")
            require(list(s.as_dict(skip_missing=True)) == [f"f{i}" for i in range(n) if vs[i] is not None], f"{what}: skip_missing", key="dict")
            st.executions += 1
    st.outcomes.add(hash((names, mm, wrong)))
    if len(st.samples) < 2:
        st.samples.append({"layout": names, "modes": mm})


def same(got, v):
    if v is None:
        return got is None
    if got is None:
        return False
    if isinstance(v, tuple):
        return tuple(got) == v
    return got == v


def bits(st):
    """All bit widths that fill one or two bytes, all values of one byte."""
    tys = {1: t.uint1_t, 2: t.uint2_t, 3: t.uint3_t, 4: t.uint4_t, 5: t.uint5_t, 6: t.uint6_t, 7: t.uint7_t}

    def comps(total):
        if total == 0:
            yield ()
        for k in range(1, min(7, total) + 1):
            for r in comps(total - k):
                yield (k,) + r

    for comp in comps(8):
        cls = type("B", (t.Struct,), {"__annotations__": {f"f{i}": tys[k] for i, k in enumerate(comp)}})
        for n in range(0, 256, 1 if len(comp) <= 3 else 7):
            d, rest = cls.deserialize(bytes([n]) + b"z")
            off = 0
            for i, k in enumerate(comp):
                want = n >> off & ((1 << k) - 1)
                require(getattr(d, f"f{i}") == want, f"bits {comp} of {n:#04x}: field {i} is {getattr(d, f'f{i}')}, expected {want}", key="bits")
                off += k
            require(d.serialize() == bytes([n]) and rest == b"z", f"bits {comp} of {n:#04x} re-encode differently", key="bits")
            st.executions += 1
        st.outcomes.add(hash(comp))


def integer_structs(st):
    """Structures that are also integers behave as their integer."""

    class I8(t.Struct, t.uint8_t):
        a: t.uint3_t
        b: t.uint1_t
        c: t.enum4

    class I16(t.Struct, t.uint16_t):
        lo: t.uint8_t
        mid: t.uint4_t
        hi: t.uint4_t

    for cls, size in ((I8, 1), (I16, 2)):
        for n in range(0, 1 << (8 * size), 1 if size == 1 else 37):
            s = cls(n)
            require(int(s) == n and s == n and not (s != n), f"{cls.__name__}({n}) is {s!r}", key="int")
            require(s.serialize() == n.to_bytes(size, "little"), f"{cls.__name__}({n}) encoding", key="int")
            require(s == cls.deserialize(n.to_bytes(size, "little"))[0], "decode", key="int")
            for o in (0, n - 1, n, n + 1):
                require((s < o, s <= o, s > o, s >= o, s == o) == (n < o, n <= o, n > o, n >= o, n == o),
                        f"{cls.__name__}({n}) compared with {o}", key="int")
            repr(s)
            st.executions += 1
        st.outcomes.add(hash(cls.__name__))
    for n in range(256):
        s = I8(n)
        require((s.a, s.b, s.c) == (n & 7, n >> 3 & 1, n >> 4), f"I8({n}) fields {s!r}", key="int")
    s = I16(0xABCD)
    require((s.lo, s.mid, s.hi) == (0xCD, 0xB, 0xA), f"I16 fields {s!r}", key="int")


def copies(st):
    """Copying, replacing, freezing, comparing and matching over every pair of partial structures."""

    class In(t.Struct):
        p: t.uint8_t
        q: t.uint8_t

    class Out(t.Struct):
        a: t.uint8_t
        n: In
        z: t.uint8_t = t.StructField(optional=True)

    class Other(t.Struct):
        a: t.uint8_t
        n: In
        z: t.uint8_t = t.StructField(optional=True)

    class Sub(Out):
        pass

    ins = [None] + [In(p=p, q=q) for p in (None, 1, 2) for q in (None, 1)]
    alls = [dict(a=a, n=n, z=z) for a in (None, 1, 2) for n in ins for z in (None, 1)]

    def nmatch(x, y):
        if y is None:
            return True
        if x is None:
            return False
        return all(getattr(y, k) is None or getattr(x, k) == getattr(y, k) for k in ("p", "q"))

    def smatch(x, y):
        return all(y[k] is None or x[k] == y[k] for k in ("a", "z")) and nmatch(x["n"], y["n"])

    for x in alls:
        s = Out(**x)
        c = Out(s)
        require(c == s and c is not s, "copy differs", key="copy")
        c.a = 77
        require(s.a == x["a"], "changing a copy changes the original", key="copy")
        f = s.freeze()
        require(f == s and f.as_dict() == s.as_dict(), "frozen structure differs", key="freeze")
        require(hash(f) == hash(Out(**x).freeze()), "equal frozen structures hash differently", key="freeze")
        require(f.freeze() == f, "freezing twice", key="freeze")
        try:
            f.a = 3
        except AttributeError:
            pass
        else:
            raise Violation("a frozen structure can be changed", key="freeze")
        require(f.replace(a=9).a == 9 and f.a == x["a"], "replace on a frozen structure", key="freeze")
        try:
            hash(s)
        except TypeError:
            pass
        else:
            raise Violation("a mutable structure is hashable", key="freeze")
        for k in ("a", "z"):
            for v in (None, 5):
                r = s.replace(**{k: v})
                require(getattr(r, k) == v and all(getattr(r, o) == x[o] for o in x if o != k), "replace changes other fields", key="copy")
        if x["a"] is not None and x["n"] is not None and x["n"].p is not None and x["n"].q is not None:
            raw = bytes([x["a"], x["n"].p, x["n"].q]) + (b"" if x["z"] is None else bytes([x["z"]]))
            require(s.serialize() == raw and s.is_valid, f"{x} encoding", key="encode")
        else:
            require(not s.is_valid, f"{x} lacks a mandatory field but is reported valid", key="is_valid")
        require(s != Other(**x) or False, "structures of different types are equal", key="equal")
        require(not s.matches(Other(**x)), "structures of different types match", key="matches")
        require(Sub(**x) == s, "a subclass instance differs", key="equal")
        for y in alls:
            o = Out(**y)
            require((s == o) == (x == y), f"{x} == {y} is {s == o}", key="equal")
            require(s.matches(o) == smatch(x, y), f"{x} matches {y} is {s.matches(o)}", key="matches")
            st.executions += 1
        st.outcomes.add(hash(repr(x)))
    # values of another type are converted, unconvertible ones refused
    require(Out(a="5").a == 5 if True else None, "conversion", key="convert")
    for bad in (256, -1, "x"):
        try:
            r = Out(a=bad)
        except ValueError:
            continue
        raise Violation(f"{bad!r} accepted as an 8 bit integer: {r!r}", key="convert")
    for args in ((1,), (1, In(p=1, q=2)), (1, In(p=1, q=2), 3)):
        s = Out(*args)
        require([getattr(s, k) for k in ("a", "n", "z")][: len(args)] == list(args), "positional order", key="copy")
    for bad in (dict(nope=1), ):
        try:
            Out(**bad)
        except TypeError:
            continue
        raise Violation("an unknown field is accepted", key="convert")


def declared(st):
    """Declarations the engine must refuse, and sources of a field's type."""
    for ns in (
        {"__annotations__": {}, "f": t.StructField(type=t.uint8_t)},
        {"__annotations__": {"f": t.uint16_t}, "f": t.StructField(type=t.uint8_t)},
        {"__annotations__": {"f": None}, "f": t.StructField()},
    ):
        try:
            type("Bad", (t.Struct,), dict(ns))
        except TypeError:
            st.executions += 1
            st.outcomes.add(hash(repr(sorted(ns))))
            continue
        raise Violation(f"declaration {ns} accepted", key="declare")
    for ns in (
        {"__annotations__": {"f": t.uint16_t}, "f": t.StructField(type=t.uint16_t)},
        {"__annotations__": {"f": None}, "f": t.StructField(type=t.uint16_t)},
        {"__annotations__": {"f": t.uint16_t}},
        {"__annotations__": {"f": t.uint16_t}, "f": t.StructField()},
    ):
        cls = type("Good", (t.Struct,), dict(ns))
        require(cls(f=0x0102).serialize() == b"\x02\x01", "declaration", key="declare")
        st.executions += 1
    # several conditional fields that depend on one another
    class C(t.Struct):
        kind: t.uint8_t
        a: t.uint16_t = t.StructField(requires=lambda s: s.kind & 1)
        b: t.uint8_t = t.StructField(requires=lambda s: s.kind & 2)
        c: t.uint8_t = t.StructField(requires=lambda s: s.a == 0x0102)
        d: t.uint8_t = t.StructField(requires=lambda s: s.b is None)

    for kind in range(4):
        for a in (0x0102, 5):
            vals = dict(kind=kind)
            raw = bytes([kind])
            if kind & 1:
                vals["a"] = a
                raw += a.to_bytes(2, "little")
            if kind & 2:
                vals["b"] = 7
                raw += b"\x07"
            if kind & 1 and a == 0x0102:
                vals["c"] = 8
                raw += b"\x08"
            if not kind & 2:
                vals["d"] = 9
                raw += b"\x09"
            s = C(**vals)
            require(s.serialize() == raw, f"conditional {vals}: {s.serialize().hex()}", key="encode")
            d, rest = C.deserialize(raw + b"q")
            require(d == s and rest == b"q", f"conditional {raw.hex()} decodes to {d!r}", key="decode")
            # a value left in a field whose condition does not hold is not sent
            extra = C(**{**dict(a=3, b=None if not kind & 2 else 7, c=4), **vals})
            if not kind & 1:
                require(extra.serialize() == raw, f"unwanted conditional field is sent: {extra.serialize().hex()}", key="encode")
            for n in range(len(raw)):
                try:
                    d, _ = C.deserialize(raw[:n])
                except ValueError:
                    continue
                raise Violation(f"conditional {raw[:n].hex()} decodes to {d!r}", key="truncated-accepted")
            st.executions += 1
            st.outcomes.add(hash((kind, a)))
