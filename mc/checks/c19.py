"""C19: firmware containers, their truncations and length changes, advertised sizes and checksums, embedded images."""
from __future__ import annotations

import hashlib
import itertools
import struct
import zlib

import zigpy.ota.image as zi
import zigpy.ota.providers as zp
import zigpy.ota.validators as zv

from ..explore import Violation, require
from ..loop import LoopCtx

LEVEL = "exploration"
RULE = ("bounded exhaustive enumeration: every header option combination x field value set x element layout x trailing bytes x "
        "container format against a reference encoder; every truncation; every change of a length field within +-70 and to the extremes; every "
        "advertised size and checksum; every one-byte change of embedded firmware images")
ASSUMPTIONS = ["hash functions and CRC-32 are trusted", "damage is a change of one byte of an embedded image that leaves it recognizable"]

TAILS = (b"", b"\x00", b"\xff\x01\x02\x03\x1e")
# manufacturer, type, version, stack, string, credential version, destination, min hw, max hw
VALUES = (
    (0x1234, 0x5678, 0x9ABCDEF0, 0x0002, b"zigpy test\x00".ljust(32, b"\x00"), 3, bytes(range(1, 9)), 0x0102, 0x0304),
    (0x0000, 0xFFFF, 0x00000000, 0xFFFF, bytes(range(200, 232)), 0, b"\xff" * 8, 0x0000, 0xFFFF),
    (0x100B, 0x0112, 0x01020304, 0x1000, b"\xff" * 32, 255, b"\x00" * 8, 0xFF00, 0x00FF),
)


def scenarios(tier, seed):
    th = tier == "thorough"
    out = []
    for fc in range(8):
        out.append(dict(fn="containers", kind="bulk", args=dict(fc=fc, n=3 if th else 2)))
        out.append(dict(fn="hue", kind="bulk", args=dict(fc=fc)))
        out.append(dict(fn="lengths", kind="bulk", args=dict(fc=fc, deep=th)))
        out.append(dict(fn="wrapped", kind="bulk", args=dict(fc=fc)))
    out.append(dict(fn="advertised", kind="bulk", args={}))
    out.append(dict(fn="signed", kind="bulk", args={}))
    for fmt in ("ebl", "gbl"):
        for shape in range(4):
            out.append(dict(fn="firmware", kind="bulk", args=dict(fmt=fmt, shape=shape)))
        out.append(dict(fn="firmware_in_image", kind="bulk", args=dict(fmt=fmt)))
    return out


def ok(st, *key):
    st.executions += 1
    st.outcomes.add(hash(key))


# -- the reference -----------------------------------------------------------------------
def header(fc, v, size, hlen=None, extra_fc=0, version=0x0100):
    manuf, typ, fver, stack, string, cred, dst, hmin, hmax = v
    opt = b""
    if fc & 1:
        opt += bytes([cred])
    if fc & 2:
        opt += dst
    if fc & 4:
        opt += struct.pack("<HH", hmin, hmax)
    n = 56 + len(opt)
    return struct.pack("<IHHHHHIH", 0x0BEEF11E, version, n if hlen is None else hlen, fc | extra_fc, manuf, typ, fver, stack) + string + struct.pack(
        "<I", n + size if size >= 0 else -size) + opt


def elements(els):
    return b"".join(struct.pack("<HI", tag, len(d)) + d for tag, d in els)


def check_header(h, fc, v, size):
    manuf, typ, fver, stack, string, cred, dst, hmin, hmax = v
    got = (h.manufacturer_id, h.image_type, h.file_version, h.stack_version, bytes(h.header_string), h.image_size,
           None if h.security_credential_version is None else int(h.security_credential_version),
           None if h.upgrade_file_destination is None else h.upgrade_file_destination.serialize(),
           h.minimum_hardware_version, h.maximum_hardware_version)
    want = (manuf, typ, fver, stack, string, size, cred if fc & 1 else None, dst if fc & 2 else None,
            hmin if fc & 4 else None, hmax if fc & 4 else None)
    require(got == want, f"parsed header {got}, the file has {want}", key="header")


def check_image(data, image, rest, fc, v, els, size, tail):
    check_header(image.header, fc, v, size)
    got = [(int(e.tag_id), bytes(e.data)) for e in image.subelements]
    require(got == list(els), f"parsed elements {[(t, len(d)) for t, d in got]}, the file has {[(t, len(d)) for t, d in els]}", key="elements")
    require(bytes(rest) == tail, f"the rest is {bytes(rest)!r} instead of {tail!r}", key="rest")


def refused(data, what, write_too=False):
    """Parsing (or at the latest writing, when write_too) raises."""
    try:
        image, _ = zi.parse_ota_image(data)
        if not write_too:
            raise Violation(f"{what}: accepted as {type(image).__name__}", key="accepted", data=data.hex())
        raw = image.serialize()
    except Violation:
        raise
    except Exception:
        return
    raise Violation(f"{what}: accepted and written as {len(raw)} bytes", key="accepted", data=data.hex())


DATA = (b"", b"\x01", b"ab", b"\x00" * 7, bytes(range(100)))


def layouts(n):
    kinds = [(tag, d) for tag in (0, 3, 6) for d in (b"", b"\x7f", b"ab")] + [(0, DATA[4]), (4, b"\x00" * 7), (0x9999, b"xyz"), (0xF000, b"")]
    for k in range(n + 1):
        yield from itertools.product(kinds, repeat=k)


def containers(st, fc, n):
    for els in layouts(n):
        body = elements(els)
        for i, v in enumerate(VALUES):
            if len(els) > 2 and i:
                continue
            raw = header(fc, v, len(body)) + body
            for tail in TAILS:
                image, rest = zi.parse_ota_image(raw + tail)
                check_image(raw, image, rest, fc, v, els, len(raw), tail)
                require(bytes(image.serialize()) == raw, f"writing {raw.hex()} again gives {bytes(image.serialize()).hex()}", key="rewrite")
                ok(st, fc, i, els, tail)
        if len(els) <= 2:
            for cut in range(len(raw)):
                refused(raw[:cut], f"image of {len(raw)} bytes cut to {cut}")
                ok(st, "cut", fc, els, cut)


def hue(st, fc):
    for i, v in enumerate(VALUES):
        v = (0x100B, *v[1:])
        for n in (3, 4, 20, 150):
            body = (b"\x2a\x00\x01" + bytes(range(1, 200)))[:n]
            raw = header(fc, v, len(body)) + body
            for tail in TAILS:
                image, rest = zi.parse_ota_image(raw + tail)
                check_header(image.header, fc, v, len(raw))
                require(bytes(rest) == tail, f"Hue image: the rest is {bytes(rest)!r}", key="rest")
                require(bytes(image.serialize()) == raw, "Hue image changed when written again", key="rewrite")
                ok(st, fc, i, n, tail)
            for cut in range(len(raw)):
                refused(raw[:cut], f"Hue image of {len(raw)} bytes cut to {cut}")
                ok(st, "cut", fc, n, cut)
            # inconsistent image size
            hlen = len(raw) - n
            for size in range(hlen):
                refused(header(fc, v, -size) + body if size else raw[:52] + b"\x00" * 4 + raw[56:], f"Hue image with a {hlen} byte header and an image size of {size}",
                        write_too=True)
                ok(st, "size", fc, n, size)
    # anybody else's image of that kind is not an image
    body = b"\x2a\x00\x01" + bytes(30)
    for manuf in (0, 0x100A, 0x100C, 0xFFFF):
        refused(header(fc, (manuf, *VALUES[0][1:]), len(body)) + body, f"Hue-like image of manufacturer {manuf:04x}")
        ok(st, "manuf", fc, manuf)


def lengths(st, fc, deep):
    """Length fields that contradict the rest of the file."""
    v = VALUES[0]
    sets = [((0, b"ab"),), ((0, b"ab"), (3, b"")), ((0, b""), (0, b""), (1, b"q"))]
    if deep:
        sets += [((0, bytes(range(100))), (3, b"\x00" * 7)), ((4, bytes(64)),)]
    for els in sets:
        body = elements(els)
        raw = header(fc, v, len(body)) + body
        hlen = len(raw) - len(body)
        for tail in (b"", bytes(80)):
            for d in [*range(-70, 71), 0xFFFF - hlen, -hlen]:
                if d == 0 or hlen + d < 0 or hlen + d > 0xFFFF:
                    continue
                bad = header(fc, v, len(body), hlen=hlen + d) + body + tail
                refused(bad, f"header length {hlen + d} of a {hlen} byte header", write_too=True)
                ok(st, "hlen", fc, els, d, len(tail))
            for size in [*range(0, len(raw) + 70), 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0x10000 + len(raw)]:
                if size == len(raw):
                    continue
                bad = raw[:52] + struct.pack("<I", size) + raw[56:] + tail
                if consistent(bad, hlen, size):
                    continue
                refused(bad, f"image size {size} of a {len(raw)} byte image", write_too=True)
                ok(st, "size", fc, els, size, len(tail))
            # element lengths
            pos = hlen
            for tag, d in els:
                for n in [*range(0, len(d) + 40), 0xFFFFFFFF, 0x80000000, 0x10000, len(d) + 256]:
                    if n == len(d):
                        continue
                    bad = raw[: pos + 2] + struct.pack("<I", n) + raw[pos + 6 :] + tail
                    if consistent(bad, hlen, len(raw)):
                        continue
                    refused(bad, f"element length {n} instead of {len(d)}", write_too=True)
                    ok(st, "elen", fc, els, pos, n, len(tail))
                pos += 6 + len(d)
        # magic, header options that need more bytes than there are
        for bit in range(32):
            bad = bytearray(raw)
            bad[bit // 8] ^= 1 << (bit % 8)
            refused(bytes(bad), f"magic with bit {bit} changed")
            ok(st, "magic", fc, bit)


def consistent(data, hlen, size):
    """Does the changed file happen to be a well-formed image of that size?"""
    if size > len(data) or size < hlen:
        return False
    pos = hlen
    while pos < size:
        if pos + 6 > size:
            return False
        pos += 6 + struct.unpack_from("<I", data, pos + 2)[0]
    return pos == size


def wrapped(st, fc):
    for i, v in enumerate(VALUES):
        for els in [((0, b"ab"),), ((0, bytes(range(100))),), ((0, b""), (3, b"\x01" * 9))]:
            body = elements(els)
            raw = header(fc, v, len(body)) + body
            # Legrand
            outer = struct.pack("<I", len(raw)) + raw + b"\x55" * 17
            image, rest = zi.parse_ota_image(outer)
            check_image(outer, image, rest, fc, v, els, len(raw), b"")
            require(bytes(image.serialize()) == raw, "Legrand image changed when written", key="rewrite")
            ok(st, "legrand", fc, i, els)
            for cut in range(len(outer)):
                refused(outer[:cut], f"Legrand container of {len(outer)} bytes cut to {cut}")
                ok(st, "legrand-cut", fc, els, cut)
            for size in range(len(raw) + 40):
                if size != len(raw):
                    refused(struct.pack("<I", size) + outer[4:], f"Legrand container with size {size}")
                    ok(st, "legrand-size", fc, els, size)
            # Third Reality: SHA-512 of what follows it, length without it, header of 152 bytes
            head = bytearray(range(88))
            struct.pack_into("<I", head, 4, 88 + len(raw))
            inner = bytes(head) + raw
            outer = hashlib.sha512(inner).digest() + inner
            image, rest = zi.parse_ota_image(outer)
            check_image(outer, image, rest, fc, v, els, len(raw), b"")
            require(bytes(image.serialize()) == raw, "Third Reality image changed when written", key="rewrite")
            ok(st, "3r", fc, i, els)
            for cut in range(len(outer)):
                refused(outer[:cut], f"Third Reality container of {len(outer)} bytes cut to {cut}")
                ok(st, "3r-cut", fc, els, cut)
            if not i:
                for pos in range(len(outer)):
                    bad = bytearray(outer)
                    bad[pos] ^= 1 + pos % 255
                    refused(bytes(bad), f"Third Reality container with byte {pos} changed")
                    ok(st, "3r-damage", fc, els, pos)
            # IKEA: NGIS, offset and size of the image, something behind it
            for off in (24, 40, 100):
                for rest_ in (b"\x01", b"\xaa" * 64):
                    outer = ngis(raw, off) + rest_
                    image, rest = zi.parse_ota_image(outer)
                    check_image(outer, image, rest, fc, v, els, len(raw), b"")
                    require(bytes(image.serialize()) == raw, "IKEA image changed when written", key="rewrite")
                    ok(st, "ikea", fc, i, els, off, rest_)
                for cut in range(off + len(raw)):
                    refused(outer[:cut], f"IKEA container of {len(outer)} bytes cut to {cut}")
                    ok(st, "ikea-cut", fc, els, off, cut)
                for size in range(len(raw)):
                    refused(ngis(raw, off, size=size) + rest_, f"IKEA container with image size {size} instead of {len(raw)}")
                    ok(st, "ikea-size", fc, els, off, size)
            if len(els) == 1:
                # surplus bytes inside belong to the only element
                outer = ngis(raw + b"\x77" * 5, 40) + b"\x01"
                image, rest = zi.parse_ota_image(outer)
                check_image(outer, image, rest, fc, v, ((0, els[0][1] + b"\x77" * 5),), len(raw) + 5, b"")
                ok(st, "ikea-surplus", fc, i, els)


def ngis(raw, off, size=None):
    head = bytearray(b"NGIS" + bytes(12) + struct.pack("<II", off, len(raw) if size is None else size))
    head += bytes((i * 7) & 0xFF for i in range(off - len(head)))
    return bytes(head) + raw


# -- advertised size and checksum ----------------------------------------------------------
def fetch(meta):
    with LoopCtx(0.0) as loop:
        def in_executor(executor, fn, *args):
            f = loop.create_future()
            try:
                f.set_result(fn(*args))
            except Exception as e:
                f.set_exception(e)
            return f

        loop.run_in_executor = in_executor
        return loop.run(meta.fetch())


def serving(base):
    class Meta(base):
        async def _fetch(self):
            return SERVED[0]

    return Meta


SERVED = [b""]
Plain = serving(zp.BaseOtaImageMetadata)


def expect(meta, good, raw, what):
    try:
        image = fetch(meta)
    except Violation:
        raise
    except Exception as e:
        require(not good, f"{what}: refused with {e!r}", key="advertised-refused")
        return
    require(good, f"{what}: accepted", key="advertised-accepted")
    require(bytes(image.serialize()) == raw, f"{what}: another image", key="rewrite")


def advertised(st):
    els = ((0, bytes(range(40))),)
    body = elements(els)
    raw = header(0, VALUES[0], len(body)) + body
    algos = ("md5", "sha1", "sha256", "sha512", "sha3-256")
    sums = {a: hashlib.new(a, raw).hexdigest() for a in algos}
    SERVED[0] = raw
    for size in [None, *range(0, len(raw) * 2), len(raw) + 65536, len(raw) + 2**32]:
        expect(Plain(file_version=1, file_size=size), size in (None, len(raw)), raw, f"advertised size {size} of {len(raw)}")
        ok(st, "size", size)
    for a in algos:
        for size in (None, len(raw), len(raw) + 1):
            expect(Plain(file_version=1, checksum=f"{a}:{sums[a]}", file_size=size), size != len(raw) + 1, raw, f"right {a}, size {size}")
            ok(st, "sum", a, size)
        s = sums[a]
        for i in range(len(s)):
            bad = s[:i] + format(int(s[i], 16) ^ 1, "x") + s[i + 1 :]
            expect(Plain(file_version=1, checksum=f"{a}:{bad}"), False, raw, f"{a} with digit {i} changed")
            expect(Plain(file_version=1, checksum=f"{a}:{bad}", file_size=len(raw)), False, raw, f"{a} with digit {i} changed, right size")
            expect(Plain(file_version=1, checksum=f"{a}:{s[:i]}"), False, raw, f"{a} cut to {i} digits")
            ok(st, "badsum", a, i)
        # same size, one byte of the file changed
        for i in range(len(raw)):
            b = bytearray(raw)
            b[i] ^= 0x80
            SERVED[0] = bytes(b)
            expect(Plain(file_version=1, checksum=f"{a}:{s}", file_size=len(raw)), False, raw, f"{a}: byte {i} changed")
            ok(st, "changed", a, i)
        SERVED[0] = raw


def signed(st):
    Signed = serving(zp.SignedIkeaRemoteOtaImageMetadata)
    for n in (64, 100, 128, 129):
        els = ((0, bytes(i & 255 for i in range(n))),)
        body = elements(els)
        raw = header(0, VALUES[0], len(body)) + body
        for block in (32, 64, len(raw), len(raw) + 9):
            count = -(-len(raw) // block)
            hashes = b"".join(hashlib.sha256(raw[i * block : (i + 1) * block]).digest() for i in range(count))
            off = 40 + len(hashes)
            outer = bytearray(ngis(raw, off) + b"\x99" * 8)
            struct.pack_into("<II", outer, 32, block, count)
            outer[40:off] = hashes
            outer = bytes(outer)
            SERVED[0] = outer
            url = "https://example.invalid/x"
            expect(Signed(file_version=1, file_size=len(raw), url=url), True, raw, f"signed image of {len(raw)} bytes in {count} blocks")
            for size in (None, 0, len(raw) - 1, len(raw) + 1, len(outer)):
                expect(Signed(file_version=1, file_size=size, url=url), False, raw, f"signed image with advertised size {size}")
            # every byte of the hashes and of the image
            for pos in range(40, off + len(raw)):
                b = bytearray(outer)
                b[pos] ^= 1 << (pos % 8)
                SERVED[0] = bytes(b)
                expect(Signed(file_version=1, file_size=len(raw), url=url), False, raw, f"signed image with byte {pos} changed")
                ok(st, "signed", n, block, pos)
            for k in range(count):  # fewer hashes than blocks
                b = bytearray(outer)
                struct.pack_into("<I", b, 36, k)
                SERVED[0] = bytes(b)
                expect(Signed(file_version=1, file_size=len(raw), url=url), False, raw, f"signed image with {k} of {count} hashes")
                ok(st, "count", n, block, k)
            for cut in range(off + len(raw)):
                SERVED[0] = outer[:cut]
                expect(Signed(file_version=1, file_size=len(raw), url=url), False, raw, f"signed image cut to {cut}")
                ok(st, "signed-cut", n, block, cut)


# -- embedded firmware -----------------------------------------------------------------------
def make(fmt, shape):
    """A valid firmware image -> (bytes, number of bytes that belong to it)"""
    inner = [[], [b"\x11" * 5], [b"", bytes(range(30))], [b"\xfc\x04\x00\x04" * 3, b"\x00" * 17, b"z"]][shape]
    if fmt == "ebl":
        data = b"\x00\x00\x00\x8c" + bytes((i * 3) & 255 for i in range(0x8C))
        for i, d in enumerate(inner):
            data += struct.pack(">HH", 0xFD03 + i, len(d)) + d
        data += b"\xfc\x04\x00\x04"
        data += struct.pack("<I", zlib.crc32(data))
        n = len(data)
        return data + b"\xff" * (-n % 64), n
    data = b"\xeb\x17\xa6\x03" + struct.pack("<I", 8) + b"\x00\x00\x00\x03\x00\x00\x00\x00"
    for i, d in enumerate(inner):
        data += struct.pack(">I", 0xF40A0AF4 + i) + struct.pack("<I", len(d)) + d
    data += b"\xfc\x04\x04\xfc" + struct.pack("<I", 4)
    data += struct.pack("<I", zlib.crc32(data))
    return data, len(data)


def verdict(data):
    try:
        return zv.validate_firmware(data)
    except zv.ValidationError:
        return zv.ValidationResult.INVALID


def firmware(st, fmt, shape):
    data, n = make(fmt, shape)
    require(verdict(data) == zv.ValidationResult.VALID, f"a valid {fmt} image is not reported valid", key="firmware-refused")
    if fmt == "gbl":
        for pad in (b"\xff", b"\x00" * 7, b"\xff" * 64):
            require(verdict(data + pad) == zv.ValidationResult.VALID, "a padded gbl image is not reported valid", key="firmware-refused")
    for pos in range(4, len(data)):
        for x in range(1, 256):
            b = bytearray(data)
            b[pos] ^= x
            r = verdict(bytes(b))
            require(r == zv.ValidationResult.INVALID, f"{fmt} image with byte {pos} of {n} changed by {x:#04x} is reported {r}", key="damage-missed")
            st.executions += 1
        st.outcomes.add(hash((fmt, shape, pos)))
    for cut in range(4, n):
        r = verdict(data[:cut])
        require(r == zv.ValidationResult.INVALID, f"{fmt} image of {n} bytes cut to {cut} is reported {r}", key="cut-missed")
        ok(st, fmt, shape, "cut", cut)
    for other in (b"", b"\x00", b"\x01\x02\x03\x04" * 8):
        require(verdict(other) == zv.ValidationResult.UNKNOWN, "an unknown firmware has a verdict", key="unknown")


def firmware_in_image(st, fmt):
    good, n = make(fmt, 1)
    other, _ = make("gbl" if fmt == "ebl" else "ebl", 2)
    unknown = b"\x01\x02\x03\x04\x05"
    bads = []
    for pos in range(4, n, 3):
        b = bytearray(good)
        b[pos] ^= 0x10
        bads.append(bytes(b))
    before = [(), ((0, good),), ((0, other),), ((0, unknown),), ((3, b"\x00" * 16),)]
    after = [(), ((0, good),), ((0, unknown),), ((1, b"sig"),)]
    for a in before:
        for c in after:
            for bad in [None, *bads]:
                els = (*a, (0, good if bad is None else bad), *c)
                body = elements(els)
                raw = header(0, VALUES[0], len(body)) + body
                image, _ = zi.parse_ota_image(raw)
                r = bool(zv.check_invalid(image))
                require(r == (bad is not None), f"an image with {'valid' if bad is None else 'damaged'} {fmt} firmware (elements {[t for t, _ in els]}) "
                        f"is reported {'invalid' if r else 'not invalid'}", key="image-verdict")
                ok(st, fmt, a, c, bad)
