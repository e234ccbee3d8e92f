"""C09: every basic wire type against an independent codec."""
from __future__ import annotations

import importlib
import inspect
import itertools
import math
import re
import struct

import zigpy.types as t

from ..explore import Violation, require

LEVEL = "exploration"
RULE = ("bounded exhaustive enumeration: every value of every type of up to 16 bits, the bit-pattern set of wider ones, "
        "every half-precision float, every exponent x fraction pattern of wider floats, every string/list to the length "
        "bound over the alphabet, each with every truncation and with trailing bytes")
ASSUMPTIONS = ["values wider than 16 bits behave like the enumerated bit patterns"]

TAIL = b"\xa5\x00\xff"


def scenarios(tier, seed):
    th = tier == "thorough"
    out = [dict(fn="ints", kind="bulk", args=dict(part=i, parts=8, th=th)) for i in range(8)]
    out += [dict(fn="named_enums", kind="bulk", args=dict(part=i, parts=4)) for i in range(4)]
    out += [dict(fn="halves", kind="bulk", args=dict(part=i)) for i in range(8)]
    out += [dict(fn="wide_floats", kind="bulk", args=dict(which=w)) for w in ("Single", "Double")]
    out += [dict(fn="float_range", kind="bulk", args={})]
    out += [dict(fn="strings", kind="bulk", args=dict(kind_=k, n=5 if th else 4)) for k in
            ("CharacterString", "LongCharacterString", "LimitedCharString")]
    out += [dict(fn="octets", kind="bulk", args=dict(n=6 if th else 5))]
    out += [dict(fn="lists", kind="bulk", args=dict(n=5 if th else 4))]
    out += [dict(fn="channels", kind="bulk", args=dict(part=i)) for i in range(4)]
    out += [dict(fn="addresses", kind="bulk", args={}), dict(fn="optional", kind="bulk", args={})]
    return out


# -- reference ---------------------------------------------------------------------------
def ref_int(v, bits, signed, big):
    n = bits // 8
    v %= 1 << bits
    b = bytes((v >> (8 * i)) & 255 for i in range(n))
    return b[::-1] if big else b


def ok(st, *key):
    st.executions += 1
    st.outcomes.add(hash(key))


def roundtrip(cls, value, raw, same=None, what=None):
    """value encodes to raw, raw decodes to value, with a tail; every cut is refused."""
    what = what or cls.__name__
    enc = value.serialize()
    require(bytes(enc) == raw, f"{what}({value!r}) encodes to {bytes(enc).hex()}, expected {raw.hex()}", key="encode")
    decode(cls, value, raw, same, what)


def decode(cls, value, raw, same=None, what=None, cuts=True):
    what = what or cls.__name__
    for tail in (b"", TAIL):
        dec, rest = cls.deserialize(raw + tail)
        require(bytes(rest) == tail, f"{what}: decoding {raw.hex()}+{tail.hex()} left {bytes(rest).hex()}", key="rest")
        good = same(dec) if same else (dec == value)
        require(good, f"{what}: {raw.hex()} decodes to {dec!r}, expected {value!r}", key="decode")
    if cuts:
        for n in range(len(raw)):
            refused(cls, raw[:n], what)


def refused(cls, data, what):
    try:
        r = cls.deserialize(data)
    except ValueError:
        return
    raise Violation(f"{what}: {data.hex()!r} is too short but decodes to {r!r}", key="truncated-accepted")


def not_made(fn, what):
    """Creating and encoding the value must be refused with a value error."""
    try:
        r = fn()
    except ValueError:
        return
    raise Violation(f"{what} is not representable but gives {r!r}", key="unrepresentable-accepted")


# -- integers ----------------------------------------------------------------------------
NAME = re.compile(r"^(int(\d+)s|uint(\d+)_t|enum(\d+)|bitmap(\d+))(_be)?$")

EXPECTED = (
    [f"int{b}s" for b in range(8, 65, 8)] + [f"uint{b}_t" for b in range(1, 8)]
    + [f"uint{b}_t" for b in range(8, 65, 8)] + [f"int{b}s_be" for b in range(16, 65, 8)]
    + [f"uint{b}_t_be" for b in range(16, 65, 8)] + [f"enum{b}" for b in (1, 2, 3, 4, 5, 6, 7, 8, 16, 32)]
    + ["enum16_be", "enum32_be"] + [f"bitmap{b}" for b in (2, 3, 4, 5, 6, 7, 8, 16, 24, 32, 40, 48, 56, 64)]
    + [f"bitmap{b}_be" for b in range(16, 65, 8)]
)
NAMED_INTS = {"NWK": 16, "PanId": 16, "Group": 16, "ClusterId": 16, "AttributeId": 16, "BACNetOid": 32, "UTCTime": 32,
              "StandardTime": 32, "LocalTime": 32, "Channels": 32, "Bool": 8, "BroadcastAddress": 16}


def specs():
    out = []
    for name in EXPECTED:
        m = NAME.match(name)
        bits = int(next(g for g in m.groups()[1:5] if g))
        out.append((name, bits, name.startswith("int"), name.endswith("_be"),
                    "bitmap" if name.startswith("bitmap") else "enum" if name.startswith("enum") else "int"))
    for name, bits in NAMED_INTS.items():
        out.append((name, bits, False, False, "bitmap" if name == "Channels" else
                    "enum" if name in ("Bool", "BroadcastAddress") else "int"))
    return out


def values(bits, signed, th):
    if bits <= 16:
        raw = range(1 << bits)
    else:
        s = {0, (1 << bits) - 1}
        top = range(bits)
        for i in top:
            for d in (-1, 0, 1):
                s.add((1 << i) + d)
                s.add(((1 << bits) - 1) ^ (1 << i))
        for i, j in itertools.combinations(top, 2):
            s.add(1 << i | 1 << j)
        for i in range(bits // 8):
            for b in range(256):
                s.add(b << (8 * i))
        asc = int.from_bytes(bytes(range(1, bits // 8 + 1)), "big")
        s |= {asc, asc ^ ((1 << bits) - 1)}
        if th:
            for i, j in itertools.combinations(range(bits // 8), 2):
                for x in range(0, 256, 17):
                    for y in range(0, 256, 17):
                        s.add(x << (8 * i) | y << (8 * j))
        raw = sorted(s)
    for r in raw:
        r %= 1 << bits
        yield r - (1 << bits) if signed and r >> (bits - 1) else r


def ints(st, part, parts, th):
    for k, (name, bits, signed, big, kind) in enumerate(specs()):
        if k % parts != part:
            continue
        cls = getattr(t, name)
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        require(int(cls.min_value) == lo and int(cls.max_value) == hi, f"{name} range {cls.min_value}..{cls.max_value}", key="range")
        first = True
        for v in values(bits, signed, th):
            x = cls(v)
            require(x == v, f"{name}({v}) is {x!r}", key="construct")
            bl = list(x.bits())
            want_bits = [(v >> i) & 1 for i in range(bits - 1, -1, -1)]
            require(bl == want_bits, f"{name}({v}).bits() = {bl}", key="bits")
            pre = t.Bits([1, 0])
            y, rest = cls.from_bits(t.Bits(list(pre) + bl))
            require(y == v and list(rest) == [1, 0], f"{name}.from_bits {bl} gives {y!r} rest {rest}", key="bits")
            if bits % 8 == 0:
                raw = ref_int(v, bits, signed, big)
                enc = x.serialize()
                require(enc == raw, f"{name}({v}) encodes to {enc.hex()}, expected {raw.hex()}", key="encode")
                dec, rest = cls.deserialize(raw + TAIL)
                require(dec == v and rest == TAIL, f"{name}: {raw.hex()} decodes to {dec!r}, left {rest.hex()}", key="decode")
                require(dec.serialize() == raw, f"{name}: {raw.hex()} re-encodes differently", key="encode")
                if first:
                    for n in range(len(raw)):
                        refused(cls, raw[:n], name)
            elif first:
                for n in range(bits):
                    try:
                        cls.from_bits(t.Bits(bl[:n]))
                    except ValueError:
                        continue
                    raise Violation(f"{name}.from_bits accepts {n} bits", key="truncated-accepted")
            first = False
            st.executions += 1
        bad = [hi + 1, hi + 2, hi * 2 + 5, 1 << 70]
        if kind != "bitmap":
            bad += [lo - 1, lo - 5, -(1 << 70)]
        for v in bad:
            not_made(lambda v=v: cls(v).serialize() if bits % 8 == 0 else cls(v), f"{name}({v})")
        st.outcomes.add(hash((name, bits)))
        st.samples.append({"type": name, "bits": bits, "signed": signed, "big_endian": big}) if len(st.samples) < 3 else None


MODULES = ("zigpy.types.named", "zigpy.zcl.foundation", "zigpy.zdo.types", "zigpy.zcl.clusters.general",
           "zigpy.zcl.clusters.closures", "zigpy.zcl.clusters.hvac", "zigpy.zcl.clusters.homeautomation",
           "zigpy.zcl.clusters.lighting", "zigpy.zcl.clusters.lightlink", "zigpy.zcl.clusters.measurement",
           "zigpy.zcl.clusters.protocol", "zigpy.zcl.clusters.security", "zigpy.zcl.clusters.smartenergy",
           "zigpy.profiles.zha", "zigpy.profiles.zll", "zigpy.ota.image")


def base_of(cls):
    for c in cls.__mro__:
        m = NAME.match(c.__name__)
        if m and getattr(t, c.__name__, None) is c:
            return c.__name__
    return None


def all_enums():
    seen = {}

    def visit(obj, depth):
        for _, c in sorted(vars(obj).items()):
            if not inspect.isclass(c) or c in seen or not str(getattr(c, "__module__", "")).startswith("zigpy."):
                continue
            b = base_of(c)
            # PowerSource deliberately keeps the battery-backup bit apart from the value
            if b and c.__name__ != "PowerSource" and (b.startswith("enum") or b.startswith("bitmap")):
                seen[c] = b
            if depth < 3:
                visit_once(c, depth + 1)

    done = set()

    def visit_once(c, depth):
        if c not in done:
            done.add(c)
            visit(c, depth)

    for m in MODULES:
        visit(importlib.import_module(m), 0)
    return sorted(seen.items(), key=lambda kv: (kv[0].__module__, kv[0].__qualname__))


def named_enums(st, part, parts):
    """Every enumeration and bitmap of the stack decodes every wire value and re-encodes it."""
    for k, (cls, base) in enumerate(all_enums()):
        if k % parts != part:
            continue
        m = NAME.match(base)
        bits = int(next(g for g in m.groups()[1:5] if g))
        big = base.endswith("_be")
        name = f"{cls.__module__}.{cls.__qualname__}"
        for member in cls:
            require(0 <= int(member.value) < 1 << bits, f"{name}.{member} does not fit", key="range")
        vals = range(1 << bits) if bits <= 8 else sorted(
            {int(x.value) + d for x in cls for d in (-1, 0, 1) if 0 <= int(x.value) + d < 1 << bits}
            | {v for v in values(bits, False, False) if bits > 16 or bin(v).count("1") < 3 or v % 257 == 0})
        for v in vals:
            if bits % 8:
                bl = [(v >> i) & 1 for i in range(bits - 1, -1, -1)]
                dec, rest = cls.from_bits(t.Bits(bl))
                require(int(dec) == v and isinstance(dec, cls) and list(dec.bits()) == bl and not rest,
                        f"{name}: {v} decodes to {dec!r}", key="decode")
            else:
                raw = ref_int(v, bits, False, big)
                dec, rest = cls.deserialize(raw + TAIL)
                require(int(dec) == v and isinstance(dec, cls) and dec.serialize() == raw and rest == TAIL,
                        f"{name}: {raw.hex()} decodes to {dec!r}", key="decode")
            repr(dec), str(dec), hash(dec)
            require(dec == cls(v) and dec == v, f"{name}({v}) is not equal to itself", key="decode")
            st.executions += 1
        st.outcomes.add(hash(name))


# -- floats ------------------------------------------------------------------------------
def feq(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def ieee(raw, eb, fb):
    """Value of an IEEE 754 bit pattern (exact)."""
    n = int.from_bytes(raw, "little")
    sign = -1.0 if n >> (eb + fb) else 1.0
    e = (n >> fb) & ((1 << eb) - 1)
    f = n & ((1 << fb) - 1)
    bias = (1 << (eb - 1)) - 1
    if e == (1 << eb) - 1:
        return math.nan if f else sign * math.inf
    if e == 0:
        return sign * math.ldexp(f, 1 - bias - fb)
    return sign * math.ldexp(f | 1 << fb, e - bias - fb)


def one_float(st, cls, raw, eb, fb, cuts=False):
    v = ieee(raw, eb, fb)
    dec, rest = cls.deserialize(raw + TAIL)
    require(feq(float(dec), v) and rest == TAIL, f"{cls.__name__}: {raw.hex()} decodes to {float(dec)!r}, expected {v!r}", key="decode-float")
    enc = cls(v).serialize()
    if math.isnan(v):
        require(len(enc) == len(raw) and math.isnan(ieee(enc, eb, fb)), f"{cls.__name__}: NaN encodes to {enc.hex()}", key="encode-float")
    else:
        require(enc == raw, f"{cls.__name__}({v!r}) encodes to {enc.hex()}, expected {raw.hex()}", key="encode-float")
    if cuts:
        for n in range(len(raw)):
            refused(cls, raw[:n], cls.__name__)
    st.executions += 1
    st.outcomes.add(hash(repr(v)))


def halves(st, part):
    for n in range(part * 8192, (part + 1) * 8192):
        one_float(st, t.Half, n.to_bytes(2, "little"), 5, 10, n % 512 == 0)


def wide_floats(st, which):
    eb, fb = (8, 23) if which == "Single" else (11, 52)
    cls = getattr(t, which)
    fr = {0, 1, 2, (1 << fb) - 1, 1 << (fb - 1), (1 << (fb - 1)) - 1, 0x123456789ABCD % (1 << fb)} | {1 << i for i in range(fb)}
    for sign in (0, 1):
        for e in range(1 << eb):
            for f in sorted(fr) if e in (0, 1, (1 << eb) - 2, (1 << eb) - 1) else sorted(fr)[:: max(1, len(fr) // 6)]:
                n = sign << (eb + fb) | e << fb | f
                one_float(st, cls, n.to_bytes((1 + eb + fb) // 8, "little"), eb, fb, f == 1)


def float_range(st):
    """Values between two representable ones go to a neighbour; values beyond the largest are refused."""
    for cls, eb, fb in ((t.Half, 5, 10), (t.Single, 8, 23)):
        bias = (1 << (eb - 1)) - 1
        big = math.ldexp(2 - 2.0 ** -fb, bias)
        for s in (1, -1):
            for v in (big * 2, big * 1.5, big * 1000, 1e300 if cls is t.Single else 1e10):
                not_made(lambda v=v: cls(s * v).serialize(), f"{cls.__name__}({s * v})")
                st.executions += 1
            for e in range(-bias - fb - 1, bias + 1):
                for m in (1.0, 1.0 + 2 ** -(fb + 1), 1.3, 1.75, 1.999):
                    v = math.ldexp(m, e)
                    if v > big:
                        continue
                    ulp = math.ldexp(1.0, max(e, 1 - bias) - fb)
                    raw = cls(s * v).serialize()
                    got = ieee(raw, eb, fb)
                    require(abs(got - s * v) < ulp, f"{cls.__name__}({s * v!r}) is encoded as {got!r}", key="encode-float")
                    st.executions += 1
        st.outcomes.add(hash(cls.__name__))


# -- strings -----------------------------------------------------------------------------
def strings(st, kind_, n):
    plen = 2 if kind_ == "LongCharacterString" else 1
    alphabet = ["a", "\x7f", "é", "€", "\U0001f600"]
    limit = (1 << (8 * plen)) - 2
    cls = t.LimitedCharString(n - 1) if kind_ == "LimitedCharString" else getattr(t, kind_)

    def one(s, cuts=True):
        b = s.encode("utf8")
        raw = len(b).to_bytes(plen, "little") + b
        v = cls(s)
        require(v == s, "the string changed when created", key="construct")
        enc = v.serialize()
        require(enc == raw, f"{kind_}({s[:20]!r}) encodes to {enc[:30].hex()}, expected {raw[:30].hex()}", key="encode-string")
        decode(cls, s, raw, what=kind_, cuts=cuts)
        st.executions += 1
        st.outcomes.add(hash((len(b), len(s))))

    for k in range(n + 1):
        for cs in itertools.product(alphabet, repeat=k):
            s = "".join(cs)
            if kind_ == "LimitedCharString" and len(s) > n - 1:
                not_made(lambda s=s: cls(s).serialize(), f"limited string {s!r}")
                continue
            one(s)
    if kind_ != "LimitedCharString":
        for c in ("a", "é", "€"):
            w = len(c.encode())
            for total in (limit - 3, limit - 2, limit - 1, limit):
                one(c * (total // w) + "b" * (total % w), cuts=plen == 1 and c == "é")
            for total in (limit + 1, limit + 2, limit + 30):
                s = c * (total // w) + "b" * (total % w)
                not_made(lambda s=s: cls(s).serialize(), f"{kind_} of {total} bytes")
        inv = b"\xff" * plen
        for tail in (b"", TAIL):
            d, rest = cls.deserialize(inv + tail)
            require(d == "" and d.invalid and rest == tail and d.serialize() == inv, f"{kind_}: the invalid string decodes to {d!r}", key="invalid-string")
        d, _ = cls.deserialize(bytes(plen))
        require(not d.invalid, "an empty string is reported invalid", key="invalid-string")
        if plen == 2:
            # 0x00FF bytes is an ordinary length for a long string
            for ln in (0xFD, 0xFE, 0xFF, 0x100):
                one("x" * ln, cuts=False)
    # text after a NUL and invalid UTF-8 still consume exactly the declared length
    for k in range(4):
        for bs in itertools.product((0x00, 0x41, 0xC3, 0xFF), repeat=k):
            b = bytes(bs)
            d, rest = cls.deserialize(len(b).to_bytes(plen, "little") + b + TAIL)
            require(rest == TAIL, f"{kind_}: {b.hex()} leaves {rest.hex()}", key="rest")
            require(d == b.split(b"\0")[0].decode("utf8", "replace"), f"{kind_}: {b.hex()} decodes to {d!r}", key="decode")
            st.executions += 1
    for k in range(plen):
        refused(cls, b"\x01" * k, kind_)


def octets(st, n):
    for name, plen in (("LVBytes", 1), ("LongOctetString", 2)):
        cls = getattr(t, name)
        for k in range(n + 1):
            for bs in itertools.product((0x00, 0x01, 0xFF), repeat=k):
                b = bytes(bs)
                roundtrip(cls, cls(b), len(b).to_bytes(plen, "little") + b)
                ok(st, name, b)
        top = (1 << (8 * plen)) - 2
        for ln in (0xFD, 0xFE, top - 1, top):
            b = bytes(i % 251 for i in range(ln))
            roundtrip_nocut(cls, cls(b), ln.to_bytes(plen, "little") + b)
        for ln in (top + 1, top + 2, top + 40):
            not_made(lambda ln=ln: cls(bytes(ln)).serialize(), f"{name} of {ln} bytes")
    for lim in (0, 1, 3):
        cls = t.LimitedLVBytes(lim)
        for k in range(6):
            b = bytes(range(k))
            if k > lim:
                not_made(lambda: cls(b).serialize(), f"LimitedLVBytes({lim}) of {k} bytes")
            else:
                roundtrip(cls, cls(b), bytes([k]) + b)
            ok(st, lim, k)
    for k in range(6):
        b = bytes(range(7, 7 + k))
        if k != 2:
            not_made(lambda: t.LVBytesSize2(b).serialize(), f"LVBytesSize2 of {k} bytes")
            refused(t.LVBytesSize2, bytes([k]) + b, "LVBytesSize2")
        else:
            roundtrip(t.LVBytesSize2, t.LVBytesSize2(b), bytes([k]) + b)
    for k in range(4):
        for bs in itertools.product((0, 1, 255), repeat=k):
            b = bytes(bs)
            require(t.SerializableBytes(b).serialize() == b, "SerializableBytes changes its bytes", key="encode")
            bits, rest = t.Bits.deserialize(b)
            want = [(x >> i) & 1 for x in b for i in range(7, -1, -1)]
            require(list(bits) == want and rest == b"" and t.Bits(want).serialize() == b, "Bits", key="bits")
            for cut in range(1, 8):
                if b:
                    not_made(lambda cut=cut: t.Bits(want[cut:]).serialize(), "unaligned bits")
            ok(st, "bits", b)
    d, rest = t.NoData.deserialize(b"abc")
    require(rest == b"abc" and d.serialize() == b"", "NoData", key="encode")


def roundtrip_nocut(cls, value, raw):
    require(value.serialize() == raw, f"{cls.__name__} of {len(raw)} bytes", key="encode")
    decode(cls, value, raw, cuts=False)
    for n in (0, 1, len(raw) // 2, len(raw) - 1):
        refused(cls, raw[:n], cls.__name__)


# -- lists -------------------------------------------------------------------------------
ITEMS = [
    ("uint8_t", lambda: t.uint8_t, [0, 1, 255], lambda v: bytes([v])),
    ("int8s", lambda: t.int8s, [-128, -1, 5], lambda v: bytes([v & 255])),
    ("uint16_t", lambda: t.uint16_t, [0, 0x1234, 0xFFFE], lambda v: v.to_bytes(2, "little")),
    ("uint24_t", lambda: t.uint24_t, [0x010203], lambda v: v.to_bytes(3, "little")),
    ("uint32_t_be", lambda: t.uint32_t_be, [0x01020304], lambda v: v.to_bytes(4, "big")),
    ("NWK", lambda: t.NWK, [0x0001, 0xABCD], lambda v: v.to_bytes(2, "little")),
    ("LVBytes", lambda: t.LVBytes, [b"", b"\x02", b"ab"], lambda v: bytes([len(v)]) + v),
    ("CharacterString", lambda: t.CharacterString, ["", "x", "é"], lambda v: bytes([len(v.encode())]) + v.encode()),
]


def lists(st, n):
    for (iname, ity, vals, enc) in ITEMS:
        ity = ity()
        for k in range(n + 1):
            for vs in itertools.product(vals, repeat=k):
                vs = list(vs)
                body = b"".join(enc(v) for v in vs)
                # plain list: takes everything
                cls = t.List[ity]
                require(cls(vs).serialize() == body, f"List[{iname}] {vs} encodes wrongly", key="encode")
                d, rest = cls.deserialize(body)
                require(list(d) == vs and rest == b"", f"List[{iname}] {body.hex()} decodes to {d!r}", key="decode")
                require(all(isinstance(x, ity) for x in d), "list item of another type", key="decode")
                cutpts = {0}
                acc = 0
                for v in vs:
                    acc += len(enc(v))
                    cutpts.add(acc)
                for c in range(len(body)):
                    if c not in cutpts:
                        refused(cls, body[:c], f"List[{iname}]")
                for lt, plen, big in ((t.uint8_t, 1, 0), (t.uint16_t, 2, 0), (t.uint16_t_be, 2, 1)):
                    cls = t.LVList[ity, lt]
                    raw = k.to_bytes(plen, "big" if big else "little") + body
                    roundtrip(cls, cls(vs), raw, what=f"LVList[{iname},{lt.__name__}]")
                cls = t.FixedList[ity, k]
                roundtrip(cls, cls(vs), body, what=f"FixedList[{iname},{k}]")
                for other in (k + 1, k - 1):
                    if other >= 0:
                        not_made(lambda o=other: t.FixedList[ity, o](vs).serialize(), f"FixedList of {other} with {k} items")
                ok(st, iname, repr(vs))
    for k in (254, 255):
        roundtrip_nocut(t.LVList[t.uint8_t], t.LVList[t.uint8_t]([7] * k), bytes([k]) + bytes([7] * k))
    for k in (256, 300):
        not_made(lambda k=k: t.LVList[t.uint8_t]([7] * k).serialize(), f"LVList of {k} items")
    for bad in (256, -1, 1000):
        not_made(lambda bad=bad: t.LVList[t.uint8_t]([bad]).serialize(), f"list with item {bad}")
        not_made(lambda bad=bad: t.List[t.uint8_t]([bad]).serialize(), f"list with item {bad}")
        not_made(lambda bad=bad: t.FixedList[t.uint8_t, 1]([bad]).serialize(), f"list with item {bad}")
    # nested
    inner = t.LVList[t.uint8_t]
    for a in itertools.product(((), (1,), (2, 3)), repeat=2):
        raw = bytes([2]) + b"".join(bytes([len(x)]) + bytes(x) for x in a)
        cls = t.LVList[inner]
        roundtrip(cls, cls([inner(x) for x in a]), raw, what="nested")
        ok(st, "nested", a)
    for k in range(5):
        rel = t.Relays([t.NWK(0x1100 + i) for i in range(k)])
        roundtrip(t.Relays, rel, bytes([k]) + b"".join((0x1100 + i).to_bytes(2, "little") for i in range(k)))
    for size in range(8, 65, 8):
        cls = getattr(t, f"data{size}")
        for pat in (bytes(range(1, size // 8 + 1)), b"\xff" * (size // 8), bytes(size // 8)):
            roundtrip(cls, cls(pat), pat)
            ok(st, size, pat)


# -- named -------------------------------------------------------------------------------
def channels(st, part):
    for m in range(part * 16384, (part + 1) * 16384):
        chans = [11 + i for i in range(16) if m >> i & 1]
        c = t.Channels.from_channel_list(chans)
        require(int(c) == m << 11, f"channels {chans} give {c!r}", key="channels")
        require(list(t.Channels(m << 11)) == chans, f"mask {m << 11:#x} lists {list(c)}", key="channels")
        require(c.serialize() == (m << 11).to_bytes(4, "little"), "channel mask encoding", key="encode")
        st.executions += 1
        st.outcomes.add(m)
    if part == 0:
        for bad in (-1, 0, 10, 27, 32, 100):
            not_made(lambda: t.Channels.from_channel_list([11, bad]), f"channel {bad}")
        for bit in list(range(11)) + list(range(27, 32)):
            not_made(lambda bit=bit: list(t.Channels(1 << bit | 1 << 11)), f"channel mask with bit {bit}")


def addresses(st):
    for pat in itertools.chain(([0x11 * i for i in range(8)], [0xFF] * 8, [0] * 8), ([0] * i + [0xAB] + [0] * (7 - i) for i in range(8))):
        raw = bytes(pat)
        for cls in (t.EUI64, t.ExtendedPanId):
            v = cls(pat)
            roundtrip(cls, v, raw)
            text = ":".join(f"{b:02x}" for b in reversed(pat))
            require(repr(v) == text and str(v) == text, f"{pat} prints as {v!r}", key="text")
            for s in (text, text.upper(), text.replace(":", ""), " " + text.replace(":", " ")):
                require(cls.convert(s) == v, f"{s} converts to {cls.convert(s)!r}", key="text")
            require(hash(cls.convert(text)) == hash(v), "equal addresses hash differently", key="text")
            ok(st, cls.__name__, raw)
    for pat in ([0x10 + i for i in range(16)], [0xFF] * 16, [0] * 15 + [1]):
        v = t.KeyData(pat)
        roundtrip(t.KeyData, v, bytes(pat))
        text = ":".join(f"{b:02x}" for b in pat)
        require(repr(v) == text, "key text", key="text")
        for s in (text, text.upper(), text.replace(":", "")):
            require(t.KeyData.convert(s) == v, f"key {s}", key="text")
        ok(st, raw)
    for n in range(0x10000):
        s = f"{n:04x}"
        if n % 7 == 0 or n in (0, 1, 0xFFFF, 0xFF00, 0x00FF):
            require(t.NWK.convert(s) == n and t.NWK.convert(s.upper()) == n, f"NWK {s}", key="text")
            require(repr(t.NWK(n)).lower() == "0x" + s, f"NWK {n} prints as {t.NWK(n)!r}", key="text")
            st.executions += 1
    require(t.EUI64.convert(None) is None, "convert(None)", key="text")
    for y in range(256):
        d = t.Date(years_since_1900=y, month=2, day=3, day_of_week=4)
        require(d.serialize() == bytes([y, 2, 3, 4]) and d.year == 1900 + y, "Date", key="encode")
        e = t.Date(month=2, day=3, day_of_week=4)
        e.year = 1900 + y
        require(e == d, "Date.year", key="encode")
        decode(t.Date, d, bytes([y, 2, 3, 4]))
        tod = t.TimeOfDay(hours=1, minutes=y, seconds=3, hundredths=4)
        roundtrip(t.TimeOfDay, tod, bytes([1, y, 3, 4]))
        st.executions += 1


def optional(st):
    for ty, size in ((t.uint8_t, 1), (t.uint16_t, 2), (t.NWK, 2), (t.EUI64, 8)):
        cls = t.Optional(ty)
        raw = bytes(range(1, size + 1))
        for tail in (b"", TAIL):
            d, rest = cls.deserialize(raw + tail)
            require(d == ty.deserialize(raw)[0] and rest == tail, f"Optional[{ty.__name__}]", key="decode")
        for k in range(size):
            d, rest = cls.deserialize(raw[:k])
            require(d is None, f"absent Optional[{ty.__name__}] decodes to {d!r}", key="decode")
        ok(st, ty.__name__)
