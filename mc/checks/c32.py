"""C32: where firmware comes from: index entries, sources' freshness, restrictions and configuration."""
from __future__ import annotations

import asyncio
import contextlib
import hashlib
import io
import itertools
import json
import os
import pathlib
import shutil
import struct
import tarfile
import tempfile
import urllib.parse

import aiohttp
import zigpy.config as conf
import zigpy.ota
import zigpy.ota.providers as zp
import zigpy.types as t
from zigpy.ota.image import parse_ota_image
from zigpy.zcl.clusters.general import Ota

from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import add_device, make_app

LEVEL = "model_checking"
VALIDATED = ("every index, image and history goes through the real providers and the real image selection with only the network session replaced; the reference is an "
             "independent translation per index format and an independent account of what each source last said, compared after every step")
ASSUMPTIONS = ["a server answers every query of an index with the content type its real counterpart uses", "the network session stands for aiohttp's: it raises for an error status exactly when asked to"]

H = 3600.0
DAY = 24 * H


# -- the network ------------------------------------------------------------------------------
class Net:
    """url -> (status, content type, bytes), an exception to raise, or None to never answer"""

    def __init__(self):
        self.pages = {}
        self.asked = []


NET = Net()


class Response:
    def __init__(self, status, ctype, body):
        self.status, self.ctype, self.body = status, ctype, body

    async def json(self, *, encoding=None, loads=json.loads, content_type="application/json"):
        if content_type and not self.ctype.startswith(content_type):
            raise aiohttp.ContentTypeError(None, (), message="unexpected mimetype")
        return loads(self.body.decode("utf-8"))

    async def read(self):
        return self.body

    async def text(self, *a, **k):
        return self.body.decode("utf-8")

    def raise_for_status(self):
        if self.status >= 400:
            raise aiohttp.ClientResponseError(None, (), status=self.status)


class Get:
    def __init__(self, session, url, kw):
        self.session, self.url, self.kw = session, url, kw

    async def __aenter__(self):
        await asyncio.sleep(0)
        NET.asked.append((str(self.url), self.kw.get("ssl")))
        page = NET.pages.get(str(self.url), (404, "text/plain", b"not here"))
        if page is None:
            await asyncio.get_running_loop().create_future()
        if isinstance(page, Exception):
            raise page
        rsp = Response(*page)
        if self.session.strict:
            rsp.raise_for_status()
        return rsp

    def __await__(self):
        return self.__aenter__().__await__()

    async def __aexit__(self, *a):
        return None


class Session:
    def __init__(self, *a, raise_for_status=False, **k):
        self.strict = raise_for_status

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        return None

    async def close(self):
        return None

    def get(self, url, **kw):
        return Get(self, url, kw)


@contextlib.contextmanager
def network():
    real = aiohttp.ClientSession
    aiohttp.ClientSession = Session
    NET.__init__()
    try:
        yield NET
    finally:
        aiohttp.ClientSession = real


@contextlib.contextmanager
def scratch():
    d = pathlib.Path(tempfile.mkdtemp(prefix="mc-c32-"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- images -------------------------------------------------------------------------------------
def image(manuf=0x1234, typ=0x5678, version=0x01020304, hw=None, data=b"firmware"):
    sub = struct.pack("<HI", 0, len(data)) + data
    opt = struct.pack("<HH", *hw) if hw else b""
    n = 56 + len(opt)
    return struct.pack("<IHHHHHIH", 0x0BEEF11E, 0x0100, n, 4 if hw else 0, manuf, typ, version, 2) + bytes(32) + struct.pack("<I", n + len(sub)) + opt + sub


def digest(algo, data):
    return hashlib.new(algo, data).hexdigest()


def signed(raw):
    block = 64
    count = -(-len(raw) // block)
    hashes = b"".join(hashlib.sha256(raw[i * block : (i + 1) * block]).digest() for i in range(count))
    head = bytearray(b"NGIS" + bytes(36))
    struct.pack_into("<II", head, 16, 40 + len(hashes), len(raw))
    struct.pack_into("<II", head, 32, block, count)
    return bytes(head) + hashes + raw + b"signature"


# -- index formats: each gives entries with what must come of them ----------------------------------
FIELDS = ("file_version", "manufacturer_id", "image_type", "checksum", "file_size", "manufacturer_names", "model_names", "changelog", "release_notes",
          "min_hardware_version", "max_hardware_version", "min_current_file_version", "max_current_file_version", "specificity")
EMPTY = {f: None for f in FIELDS} | {"manufacturer_names": (), "model_names": ()}
S256 = "".join("0123456789abcdef"[i * 7 % 16] for i in range(64))
S512 = "".join("0123456789abcdef"[i * 5 % 16] for i in range(128))
NUMS = (0, 1, 0x0B, 0x7FFF, 0xFFFF)


def want(where, **kw):
    return EMPTY | kw, where


def tradfri():
    base = "https://fw.ota.homesmart.ikea.com/x/"
    for typ in (*NUMS, 8703, 8704, 8705, 8709, 8710, 8711):
        for v, name in ((1, "a_v1_b.ota"), (16777217, "mod_v16777217_prod.ota.signed"), (10, "mod_v10_v10_x.ota"), (0, "m_v0_.ota")):
            e = dict(fw_image_type=typ, fw_type=2, fw_sha3_256=S256, fw_binary_url=base + name)
            yield e, (None if typ in (8704, 8710) else want(base + name, file_version=v, manufacturer_id=4476, image_type=typ, checksum="sha3-256:" + S256))
    yield dict(fw_image_type=5, fw_type=2, fw_sha3_256=S256, fw_binary_url=base + "no-version.ota"), None
    # the gateways
    yield dict(fw_update_prio=5, fw_filesize=1, fw_type=3, fw_hotfix_version=1, fw_major_version=2, fw_binary_checksum=S512, fw_minor_version=3, fw_sha3_256=S256,
               fw_binary_url=base + "gw_v1_.raucb"), None
    yield dict(fw_binary_url=base + "gw", fw_filesize=1, fw_hotfix_version=1, fw_major_version=1, fw_minor_version=1, fw_req_hotfix_version=1, fw_req_major_version=1,
               fw_req_minor_version=1, fw_type=0, fw_update_prio=5, fw_weblink_relnote="http://x/y"), None
    yield dict(fw_binary_url=base + "gw", fw_build_version=1, fw_file_version_LSB=1, fw_file_version_MSB=1, fw_filesize=3, fw_hotfix_version=1, fw_image_type=4,
               fw_major_version=1, fw_manufacturer_id=4476, fw_minor_version=1, fw_type=1), None
    for scheme in ("http://", "https://"):
        for lsb, msb, typ, manuf, size in itertools.product(NUMS, NUMS, (0x1102, 8704, 8710), (4476, 0x1234), (0, 12345)):
            e = dict(fw_binary_url=scheme + "fw.test/x.ota.signed", fw_file_version_LSB=lsb, fw_file_version_MSB=msb, fw_filesize=size, fw_image_type=typ, fw_manufacturer_id=manuf, fw_type=2)
            yield e, (None if typ != 0x1102 else
                      want("https://fw.test/x.ota.signed", file_version=msb * 65536 + lsb, manufacturer_id=manuf, image_type=typ, file_size=size))


def ledvance():
    for company, product, size, model, ver in itertools.product((4489, 4364, 0), (0, 25, 0xFFFF), (0, 99999), ("A19 RGBW", "PL"), ((1, 2, 3, 4), (0, 0, 10, 255))):
        for full, v in (("A/00102428/x", 0x00102428), ("b/FFFFFFFF", 0xFFFFFFFF), ("c/10/y/20", 0x10)):
            e = dict(blob=None, identity=dict(company=company, product=product, version=dict(major=ver[0], minor=ver[1], build=ver[2], revision=ver[3])), releaseNotes=f"notes {size}",
                     shA256=S256, name="n", productName=model, fullName=full, extension=".ota", released="2020-02-02T02:02:02", salesRegion=None, length=size)
            url = f"https://api.update.ledvance.com/v1/zigbee/firmwares/download?Company={company}&Product={product}&Version={'.'.join(map(str, ver))}"
            yield e, want(url, file_version=v, manufacturer_id=company, image_type=product, checksum="sha256:" + S256, file_size=size, model_names=(model,), release_notes=f"notes {size}")


def salus():
    for model, v, scheme in itertools.product(("SP600", "ERT37"), ("", "00000010", "001300FA", "10203040", "000100000025"), ("http://", "https://")):
        e = dict(model=model, version=v, url=scheme + "eu.test/" + model + ".tar.gz")
        yield e, (None if v == "" else want("https://eu.test/" + model + ".tar.gz", file_version=int(v, 16), model_names=(model,)))


def sonoff():
    for v, manuf, typ, size, model in itertools.product((0, 4102, 2**32 - 1), (4742, 1), NUMS, (0, 258138), ("S26R2ZB", "x")):
        yield (dict(fw_binary_url=f"https://s.test/{v}", fw_file_version=v, fw_filesize=size, fw_image_type=typ, fw_manufacturer_id=manuf, model_id=model),
               want(f"https://s.test/{v}", file_version=v, manufacturer_id=manuf, image_type=typ, file_size=size, model_names=(model,)))


def inovelli():
    for model, text, manuf, typ in itertools.product(("VZM31-SN", "LZW_1"), ("0000000A", "0000000B", "00000001", "11", "12", "0", "1", "00000012", "00000011", "16842752"), (4655, 9), NUMS):
        hexed = int(text, 16)
        v = hexed if hexed <= 11 else int(text)
        yield (model, dict(version=text, channel="beta", firmware=f"https://i.test/{model}/{text}", manufacturer_id=manuf, image_type=typ)), want(
            f"https://i.test/{model}/{text}", file_version=v, manufacturer_id=manuf, image_type=typ, model_names=(model,))


def thirdreality():
    for v, manuf, typ, model in itertools.product((0, 33, 2**32 - 1), (4659, 4877, 5127), NUMS, ("3RSS009Z", "m")):
        yield (dict(modelId=model, url=f"https://t.test/{v}", version="1.00.33", imageType=typ, manufacturerId=manuf, fileVersion=v),
               want(f"https://t.test/{v}", file_version=v, manufacturer_id=manuf, image_type=typ, model_names=(model,)))


OPTIONS = dict(manufacturer_names=([], ["A"], ["A", "B"]), model_names=([], ["m"], ["m", "n"]), changelog=("", "text"), release_notes=("u",), min_hardware_version=(0, 3),
               max_hardware_version=(0, 4), min_current_file_version=(0, 5), max_current_file_version=(0, 6), specificity=(0, 7, -3))


def zigpy_entries(local):
    base = dict(file_version=0x01020304, file_size=123, image_type=0x5678, manufacturer_id=0x1234, checksum="sha3-256:" + S256)

    def both(extra, **where):
        e = base | extra | where
        fields = {f: (tuple(e[f]) if isinstance(e[f], list) else e[f]) for f in FIELDS if f in e}
        return e, want(pathlib.PurePath(where["path"]) if local and "path" in where else where["binary_url"], **fields)

    wheres = [dict(binary_url="https://z.test/a.ota")]
    wheres += [dict(path="a.ota"), dict(path="sub/b.ota", binary_url="https://z.test/b.ota")] if local else [dict(path="sub/b.ota", binary_url="https://z.test/b.ota")]
    for where in wheres:
        for k in range(0, 3):
            for names in itertools.combinations(OPTIONS, k):
                for vals in itertools.product(*(OPTIONS[n] for n in names)):
                    yield both(dict(zip(names, vals)), **where)
        yield both({n: v[-1] for n, v in OPTIONS.items()}, **where)
        for field in ("file_version", "file_size", "image_type", "manufacturer_id"):
            for v in NUMS:
                yield both({field: v}, **where)


ZOPT = dict(minFileVersion=(0, 5), maxFileVersion=(0, 6), manufacturerName=([], ["A"], ["A", "B"]), modelId=("", "m"))


def z2m_entries(local):
    base = dict(fileVersion=0x01020304, fileSize=123, manufacturerCode=0x1234, imageType=0x5678, sha512=S512, url="https://z.test/a.ota")

    def both(extra):
        e = base | extra
        kw = dict(file_version=e["fileVersion"], file_size=e["fileSize"], manufacturer_id=e["manufacturerCode"], image_type=e["imageType"], checksum="sha512:" + S512)
        if "minFileVersion" in e:
            kw["min_current_file_version"] = e["minFileVersion"]
        if "maxFileVersion" in e:
            kw["max_current_file_version"] = e["maxFileVersion"]
        if "manufacturerName" in e:
            kw["manufacturer_names"] = tuple(e["manufacturerName"])
        if "modelId" in e:
            kw["model_names"] = (e["modelId"],)
        return e, want(pathlib.PurePath(e["path"]) if local and "path" in e else e["url"], **kw)

    for path in ({}, dict(path="sub/b.ota")):
        for k in range(len(ZOPT) + 1):
            for names in itertools.combinations(ZOPT, k):
                for vals in itertools.product(*(ZOPT[n] for n in names)):
                    yield both(dict(zip(names, vals)) | path)
        for field in ("fileVersion", "fileSize", "manufacturerCode", "imageType"):
            for v in NUMS:
                yield both({field: v} | path)


class Format:
    """One kind of source: its entries, how they make up an index, where it is served."""

    def __init__(self, name, make, entries, wrap, url=None, ctype="application/json", keys=None):
        self.name, self.make, self.entries, self.wrap, self.url, self.ctype = name, make, entries, wrap, url, ctype
        self.local = url is None

    def serve(self, index, root):
        body = index if isinstance(index, bytes) else json.dumps(index).encode()
        if self.local:
            (root / "index.json").write_bytes(body)
        else:
            NET.pages[self.url] = (200, self.ctype, body)


def by_model(entries):
    out = {}
    for model, e in entries:
        out.setdefault(model, []).append(e)
    return out


FORMATS = {f.name: f for f in (
    Format("ikea", lambda d: zp.Tradfri(), tradfri, list, "https://fw.ota.homesmart.ikea.com/DIRIGERA/version_info.json", "application/octet-stream"),
    Format("ikea-old", lambda d: zp.Tradfri(url="http://fw.ota.homesmart.ikea.net/feed/version_info.json"), tradfri, list, "http://fw.ota.homesmart.ikea.net/feed/version_info.json", "text/plain"),
    Format("ledvance", lambda d: zp.Ledvance(), ledvance, lambda es: dict(firmwares=list(es)), "https://api.update.ledvance.com/v1/zigbee/firmwares"),
    Format("salus", lambda d: zp.Salus(), salus, lambda es: dict(versions=list(es)), "https://eu.salusconnect.io/demo/default/status/firmware"),
    Format("sonoff", lambda d: zp.Sonoff(), sonoff, list, "https://zigbee-ota.sonoff.tech/releases/upgrade.json"),
    Format("inovelli", lambda d: zp.Inovelli(), inovelli, by_model, "https://files.inovelli.com/firmware/firmware-zha-v2.json"),
    Format("thirdreality", lambda d: zp.ThirdReality(), thirdreality, lambda es: dict(versions=list(es)), "https://tr-zha.s3.amazonaws.com/firmware.json"),
    Format("zigpy-remote", lambda d: zp.RemoteZigpyProvider(url="https://zr.test/index.json"), lambda: zigpy_entries(False), lambda es: dict(firmwares=list(es)),
           "https://zr.test/index.json", "text/plain"),
    Format("zigpy-local", lambda d: zp.LocalZigpyProvider(index_file=d / "index.json"), lambda: zigpy_entries(True), lambda es: dict(firmwares=list(es))),
    Format("z2m", lambda d: zp.RemoteZ2MProvider(), lambda: z2m_entries(False), list, "https://raw.githubusercontent.com/Koenkk/zigbee-OTA/master/index.json", "text/plain"),
    Format("z2m-other", lambda d: zp.RemoteZ2MProvider(url="https://z.test/i"), lambda: z2m_entries(False), list, "https://z.test/i", "text/plain"),
    Format("z2m-local", lambda d: zp.LocalZ2MProvider(index_file=d / "index.json"), lambda: z2m_entries(True), list),
)}


def load(loop, provider):
    """The published images, or the exception."""
    try:
        return loop.run(provider.load_index())
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        return e


def place(meta):
    if hasattr(meta, "path"):
        return meta.path
    url = meta.url
    if "?" in url:  # the order of query arguments is free
        head, q = url.split("?", 1)
        return head + "?" + "&".join(f"{k}={v}" for k, v in sorted(urllib.parse.parse_qsl(q)))
    return url


def shown(meta):
    d = {}
    for f in FIELDS:
        v = getattr(meta, f)
        d[f] = tuple(v) if f in ("manufacturer_names", "model_names") else v
    return d, place(meta)


def same(got, expected, root, what):
    require(not isinstance(got, Exception), f"{what}: the index is refused with {got!r}", key="refused")
    require(got is not None, f"{what}: the index is not loaded", key="refused")
    exp = [(d, root / w if isinstance(w, pathlib.PurePath) else w) for d, w in expected]
    have = [shown(m) for m in got]
    for h, e in zip(have, exp):
        if h != e:
            diff = [f"{f}: {h[0][f]!r} instead of {e[0][f]!r}" for f in FIELDS if h[0][f] != e[0][f]] + ([f"location {h[1]!r} instead of {e[1]!r}"] if h[1] != e[1] else [])
            raise Violation(f"{what}: published with {'; '.join(diff)}"[:600], key="metadata")
    require(len(have) == len(exp), f"{what}: {len(have)} images published instead of {len(exp)}", key="count")


def ordered(fmt, entries):
    """In published order: a format keyed by model groups its entries."""
    if fmt.wrap is by_model:
        models = list(dict.fromkeys(e[0] for e, _ in entries))
        return [x for m in models for x in entries if x[0][0] == m]
    return list(entries)


def distinct(entries, n):
    """A spread of n entries including some that are skipped."""
    skipped = [e for e in entries if e[1] is None]
    kept = [e for e in entries if e[1] is not None]
    pick = skipped[:: max(1, len(skipped) // 2)][: n // 2] if skipped else []
    k = n - len(pick)
    return kept[:: max(1, len(kept) // k)][:k] + pick


def entries(st, fmt, width):
    """Every entry alone, every ordered group of a spread of entries."""
    f = FORMATS[fmt]
    with scratch() as root, network(), LoopCtx(0.0) as loop:
        everything = list(f.entries())
        spread = distinct(everything, 7)
        groups = [(e,) for e in everything] + [p for k in range(0, width + 1) if k != 1 for p in itertools.permutations(spread, k)] + [tuple(everything)]
        for g in groups:
            f.serve(f.wrap([e for e, _ in g]), root)
            got = load(loop, f.make(root))
            same(got, [w for _, w in ordered(f, g) if w is not None], root, f"{fmt}: {json.dumps([e for e, _ in g])[:300]}")
            st.executions += 1
            st.transitions += len(g)
            st.states.add(hash(repr(g)[:3000]))
            st.outcomes.add(len(got))


def broken(value, path=()):
    """Every single damage of a JSON value: each key left out, each leaf of another type."""
    if isinstance(value, dict):
        for k in value:
            yield path + (k,), "absent", {x: y for x, y in value.items() if x != k}
            for p, how, new in broken(value[k], path + (k,)):
                yield p, how, value | {k: new}
    elif isinstance(value, list):
        for i, x in enumerate(value):
            for p, how, new in broken(x, path + (i,)):
                yield p, how, value[:i] + [new] + value[i + 1 :]
    wrong = {int: ("1", None), str: (1, None), list: ({}, "x"), dict: ([], "x"), type(None): (5,)}[type(value)]
    for w in wrong:
        yield path, f"is {w!r}", w


# what a source can do without, or does not look at
FREE = {"manufacturer_names", "model_names", "changelog", "release_notes", "min_hardware_version", "max_hardware_version", "min_current_file_version", "max_current_file_version",
        "specificity", "minFileVersion", "maxFileVersion", "manufacturerName", "modelId", "path"}


def damaged(st, fmt):
    """A damaged entry between good ones refuses the whole index or is one the format allows: never a half-loaded index or an invented value."""
    f = FORMATS[fmt]
    with scratch() as root, network(), LoopCtx(0.0) as loop:
        everything = [e for e in f.entries()]
        kept = [e for e in everything if e[1] is not None]
        good, victim = kept[0], kept[-1]
        wrapped = victim[0] if f.wrap is not by_model else victim[0][1]
        for path, how, new in broken(wrapped):
            e = new if f.wrap is not by_model else (victim[0][0], new)
            f.serve(f.wrap([good[0], e, good[0]]), root)
            got = load(loop, f.make(root))
            st.executions += 1
            st.transitions += 1
            st.states.add(hash((fmt, path, how)))
            if isinstance(got, Exception):
                st.outcomes.add(type(got).__name__)
                continue
            st.outcomes.add("allowed")
            leaf = path[-1] if path else None
            top = path[0] if path else None
            if how != "absent":
                # an unknown value may only be ignored where nothing is made of it
                raw = repr(new)
                for m in got[1:-1]:
                    for field in FIELDS:
                        v = getattr(m, field)
                        ok = v is None or isinstance(v, (int, str)) or (isinstance(v, tuple) and all(isinstance(x, str) for x in v))
                        require(ok, f"{fmt}: entry with {path} {how} published with {field} {v!r}", key="invented")
                        if field in ("file_version", "manufacturer_id", "image_type", "file_size", "min_hardware_version", "max_hardware_version", "min_current_file_version",
                                     "max_current_file_version", "specificity"):
                            require(v is None or isinstance(v, int), f"{fmt}: entry with {path} {how} published with {field} {v!r}: {raw[:100]}", key="invented")
            same([got[0], got[-1]], [good[1], good[1]], root, f"{fmt}: the neighbours of an entry with {path} {how}")
            require(top in FREE or leaf in FREE or len(got) >= 2, f"{fmt}: entries were dropped", key="count")
        # what is not an index at all
        for body in (b"", b"{", b"null", b"5", b'"x"', b"<html></html>", b"\xff\xfe", b"[[]]", b"[5]", b'{"firmwares": 5}', b'{"versions": {}}', b'{"X": 5}', b"[null]"):
            if f.wrap is by_model and body.startswith(b'{"'):
                continue  # an object without a model name lists nothing
            f.serve(body, root)
            got = load(loop, f.make(root))
            require(isinstance(got, Exception), f"{fmt}: {body!r} was taken as an index: {got!r}"[:300], key="nonsense")
            st.executions += 1
        # an error page never counts, even one that reads like an index
        if not f.local:
            for status in (400, 403, 404, 500, 503):
                NET.pages[f.url] = (status, f.ctype, json.dumps(f.wrap([good[0]])).encode())
                got = load(loop, f.make(root))
                require(isinstance(got, Exception), f"{fmt}: an error page with status {status} was taken as an index", key="nonsense")
                st.executions += 1
        else:
            os.unlink(root / "index.json")
            got = load(loop, f.make(root))
            require(isinstance(got, Exception), f"{fmt}: a missing index gave {got!r}", key="nonsense")
            st.executions += 1


# -- the listed file is the one that is fetched ---------------------------------------------------------
def tarball(files):
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode="w:gz") as tar:
        for name, body in files:
            info = tarfile.TarInfo(name)
            if body is None:
                info.type = tarfile.DIRTYPE
                tar.addfile(info)
            else:
                info.size = len(body)
                tar.addfile(info, io.BytesIO(body))
    return out.getvalue()


def one_entry(fmt, raw, url):
    """An index entry for this image at this address."""
    v = 0x01020304
    if fmt == "ikea":
        return dict(fw_image_type=0x5678, fw_type=2, fw_sha3_256=digest("sha3-256", raw), fw_binary_url=url)
    if fmt == "ikea-old":
        return dict(fw_binary_url=url, fw_file_version_LSB=v & 0xFFFF, fw_file_version_MSB=v >> 16, fw_filesize=len(raw), fw_image_type=0x5678, fw_manufacturer_id=0x1234, fw_type=2)
    if fmt == "ledvance":
        return dict(blob=None, identity=dict(company=0x1234, product=0x5678, version=dict(major=1, minor=2, build=3, revision=4)), releaseNotes="", shA256=digest("sha256", raw), name="n",
                    productName="m", fullName="m/01020304", extension="", released="2020-02-02T02:02:02", salesRegion=None, length=len(raw))
    if fmt == "salus":
        return dict(model="m", version="01020304", url=url)
    if fmt == "sonoff":
        return dict(fw_binary_url=url, fw_file_version=v, fw_filesize=len(raw), fw_image_type=0x5678, fw_manufacturer_id=0x1234, model_id="m")
    if fmt == "inovelli":
        return ("M", dict(version=str(v), channel="x", firmware=url, manufacturer_id=0x1234, image_type=0x5678))
    if fmt == "thirdreality":
        return dict(modelId="m", url=url, version="1.2.3", imageType=0x5678, manufacturerId=0x1234, fileVersion=v)
    if fmt == "zigpy-remote":
        return dict(file_version=v, file_size=len(raw), image_type=0x5678, manufacturer_id=0x1234, checksum="sha3-256:" + digest("sha3-256", raw), binary_url=url)
    if fmt == "zigpy-local":
        return dict(file_version=v, file_size=len(raw), image_type=0x5678, manufacturer_id=0x1234, checksum="sha3-256:" + digest("sha3-256", raw), path="sub/img.ota")
    if fmt in ("z2m", "z2m-other"):
        return dict(fileVersion=v, fileSize=len(raw), manufacturerCode=0x1234, imageType=0x5678, sha512=digest("sha512", raw), url=url)
    if fmt == "z2m-local":
        return dict(fileVersion=v, fileSize=len(raw), manufacturerCode=0x1234, imageType=0x5678, sha512=digest("sha512", raw), url=url, path="sub/img.ota")
    raise AssertionError(fmt)


# which damage the index lets the stack notice: "bytes" any changed byte, "size" another length
NOTICES = {"ikea": "bytes", "ikea-old": "bytes", "ledvance": "bytes", "salus": "bytes", "sonoff": "size", "inovelli": None, "thirdreality": None, "zigpy-remote": "bytes", "zigpy-local": "bytes",
           "z2m": "bytes", "z2m-other": "bytes", "z2m-local": "bytes"}


def fetched(st, fmt):
    f = FORMATS[fmt]
    raw = image(data=bytes(range(100)))
    url = "https://files.test/mod_v16909060_x.ota"
    if fmt == "ledvance":
        url = "https://api.update.ledvance.com/v1/zigbee/firmwares/download?Company=4660&Product=22136&Version=1.2.3.4"
    wraps = {"ikea-old": signed, "salus": lambda r: tarball([("networkinfo.json", json.dumps(dict(upgrade=[dict(filename="x.ota", checksum=digest("md5", raw).upper())])).encode()), ("x.ota", r)])}
    pack = wraps.get(fmt, lambda r: r)

    def put(body, root):
        if f.local:
            (root / "sub").mkdir(exist_ok=True)
            (root / "sub" / "img.ota").write_bytes(body)
        NET.pages[url] = body if isinstance(body, Exception) else (200, "application/octet-stream", body)

    def attempt(loop, meta):
        try:
            return bytes(loop.run(meta.fetch()).serialize())
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            return e

    with scratch() as root, network(), LoopCtx(0.0) as loop:
        f.serve(f.wrap([one_entry(fmt, raw, url)]), root)
        metas = load(loop, f.make(root))
        require(isinstance(metas, list) and len(metas) == 1, f"{fmt}: index refused: {metas!r}"[:300], key="refused")
        meta = metas[0]
        NET.asked.clear()
        put(pack(raw), root)
        got = attempt(loop, meta)
        require(got == raw, f"{fmt}: fetching the listed image gave {got!r}"[:300], key="fetch")
        require(meta.file_version == 0x01020304, f"{fmt}: version {meta.file_version:#x}", key="metadata")
        require([u for u, _ in NET.asked] == ([] if f.local else [url]), f"{fmt}: fetched from {NET.asked}", key="fetch")
        if fmt.startswith("ikea"):
            require(all(s is zp.Tradfri.SSL_CTX for _, s in NET.asked), f"{fmt}: the server's own certificate is not used", key="fetch")
        st.executions += 1
        notices = NOTICES[fmt]
        bodies = []
        for i in range(len(raw)):
            b = bytearray(raw)
            b[i] ^= 1 << (i % 8)
            bodies.append((f"byte {i} changed", bytes(b), notices == "bytes"))
        for cut in range(len(raw)):
            bodies.append((f"cut to {cut}", raw[:cut], True))
        bodies.append(("a byte appended", raw + b"\0", notices is not None))
        bodies.append(("another image of the same size", image(data=bytes(reversed(range(100)))), notices == "bytes"))
        bodies.append(("another image of another size", image(data=b"other"), notices is not None))
        for what, body, must in bodies:
            packed = pack(body)
            if fmt == "ikea-old":  # the container's hashes stay those of the listed image
                packed = signed(raw)[: 40 + 32 * -(-len(raw) // 64)] + body + b"signature"
                if what.startswith("a byte appended"):
                    continue
            put(packed, root)
            got = attempt(loop, meta)
            st.executions += 1
            st.transitions += 1
            st.states.add(hash((fmt, what)))
            st.outcomes.add(type(got).__name__)
            if must:
                require(isinstance(got, Exception), f"{fmt}: image with {what} was accepted", key="fetch-damaged")
        if not f.local:
            for page in ((404, "text/plain", pack(raw)), (500, "text/plain", pack(raw)), OSError("network down")):
                NET.pages[url] = page
                got = attempt(loop, meta)
                require(isinstance(got, Exception), f"{fmt}: an error answer counted as the image", key="fetch-damaged")
        if fmt == "salus":
            md5 = digest("md5", raw).upper()
            info = lambda **k: json.dumps(dict(upgrade=[dict(filename="x.ota", checksum=md5) | k])).encode()  # noqa: E731
            for what, files, good in (
                ("index last", [("x.ota", raw), ("networkinfo.json", info())], True),
                ("directories and other files", [("d", None), ("networkinfo.json", info()), ("x.txt", b"hi"), ("x.ota", raw)], True),
                ("no index", [("x.ota", raw)], False),
                ("no image", [("networkinfo.json", info())], False),
                ("another image name", [("networkinfo.json", info(filename="y.ota")), ("x.ota", raw)], False),
                ("the right one of two", [("networkinfo.json", info()), ("y.ota", image(data=b"y")), ("x.ota", raw)], True),
                ("a wrong digest", [("networkinfo.json", info(checksum=md5[::-1])), ("x.ota", raw)], False),
                ("no digest", [("networkinfo.json", info(checksum="")), ("x.ota", raw)], False),
                ("an empty index", [("networkinfo.json", b'{"upgrade": []}'), ("x.ota", raw)], False),
            ):
                NET.pages[url] = (200, "x", tarball(files))
                got = attempt(loop, meta)
                require((got == raw) if good else isinstance(got, Exception), f"salus: archive with {what} gave {got!r}"[:200], key="archive")
                st.executions += 1
        # the file listed on disk is swapped, then restored
        put(pack(raw), root)
        require(attempt(loop, meta) == raw, f"{fmt}: the image cannot be fetched after failures", key="fetch")


# -- folders ----------------------------------------------------------------------------------------------
FILES = {
    "plain": ("a.ota", image()),
    "nested": ("d/e/b.bin", image(typ=7, version=8)),
    "hw": ("c.ota", image(hw=(2, 9), version=77)),
    "hidden": (".h/x.zigbee", image(manuf=0xFFFF, typ=0xFFFF, version=2**32 - 1)),
    "trailing": ("t.ota", image(version=5) + b"tail"),
    "ikea": ("i.signed", signed(image(version=9))),
    "text": ("readme.txt", b"not firmware"),
    "empty": ("empty.ota", b""),
    "short": ("short.ota", image()[:-1]),
    "dir": ("dir.ota", None),
    "copy": ("d/a.ota", image()),
}
LISTED = {"plain": (0x1234, 0x5678, 0x01020304, None), "nested": (0x1234, 7, 8, None), "hw": (0x1234, 0x5678, 77, (2, 9)), "hidden": (0xFFFF, 0xFFFF, 2**32 - 1, None),
          "trailing": (0x1234, 0x5678, 5, None), "ikea": (0x1234, 0x5678, 9, None), "copy": (0x1234, 0x5678, 0x01020304, None)}


def folder(st, part, parts):
    combos = [c for k in range(len(FILES) + 1) for c in itertools.combinations(FILES, k)]
    with LoopCtx(0.0) as loop, network():
        for i, names in enumerate(combos):
            if i % parts != part:
                continue
            with scratch() as root:
                for n in names:
                    path, body = FILES[n]
                    p = root / path
                    p.parent.mkdir(parents=True, exist_ok=True)
                    if body is None:
                        p.mkdir()
                    else:
                        p.write_bytes(body)
                got = load(loop, zp.AdvancedFileProvider(path=root))
                expected = []
                for n in names:
                    if n in LISTED:
                        m, ty, v, hw = LISTED[n]
                        expected.append((str(root / FILES[n][0]), (m, ty, v, *(hw or (None, None)), len(FILES[n][1]))))
                require(isinstance(got, list), f"folder with {names}: {got!r}", key="refused")
                have = [(str(g.path), (g.manufacturer_id, g.image_type, g.file_version, g.min_hardware_version, g.max_hardware_version, g.file_size)) for g in got]
                require(sorted(have, key=repr) == sorted(expected, key=repr), f"a folder with {names} is published as {have}, expected {expected}"[:700], key="folder")
                for g in got:
                    body = pathlib.Path(g.path).read_bytes()
                    img, _ = parse_ota_image(body)
                    try:
                        back = loop.run(g.fetch())
                    except Exception as e:  # noqa: BLE001
                        raise Violation(f"{g.path} cannot be fetched: {e!r}", key="fetch")
                    require(back == img, f"{g.path} is fetched as another image", key="fetch")
                    if len(names) <= 2:  # swapped afterwards: same size, other contents
                        b = bytearray(body)
                        b[-1] ^= 1
                        pathlib.Path(g.path).write_bytes(bytes(b))
                        try:
                            loop.run(g.fetch())
                        except Exception:  # noqa: BLE001
                            pass
                        else:
                            raise Violation(f"{g.path} was swapped and still fetched", key="fetch-damaged")
                        pathlib.Path(g.path).write_bytes(body)
                st.executions += 1
                st.transitions += len(names)
                st.states.add(hash(names))
                st.outcomes.add(len(have))


# -- histories: who is asked, when, and what is offered ----------------------------------------------------
MA, MB = 0x1111, 0x2222
URLS = {"a": "https://a.test/i", "b": "https://b.test/i"}
SETUPS = {
    # name -> ((source, manufacturers), ...)
    "open": (("a", None),),
    "limited": (("a", (MA,)), ("b", None)),
    "both": (("a", (MA,)), ("b", (MB,))),
    "wide": (("a", (MA, MB)), ("b", (MB,))),
}
PAGES = {
    "one": ("x",),
    "two": ("x", "y"),
    "new": ("y",),
    "none": (),
    "error": None,
    "hang": None,
    "bad": None,
}
def setting(page, src):
    if page in ("one", "two", "new", "none"):
        return (200, "text/plain", json.dumps(dict(firmwares=[entry(src, n) for n in PAGES[page]])).encode())
    return {"error": (500, "text/plain", b"{}"), "hang": None, "bad": (200, "text/plain", b'{"firmwares": [{}]}')}[page]


def entry(src, n):
    return dict(file_version=100 + "xy".index(n) * 2 + "ab".index(src), file_size=len(BODIES[src, n]), image_type=0x5678, manufacturer_id=0x1234,
                checksum="sha3-256:" + digest("sha3-256", BODIES[src, n]), binary_url=f"https://{src}.test/{n}")


BODIES = {(s, n): image(version=100 + "xy".index(n) * 2 + "ab".index(s), data=f"{s}{n}".encode()) for s in "ab" for n in "xy"}


def moves(setup):
    out = ["ask1", "ask2", "+1", "+day-", "+day"]
    for s, _ in SETUPS[setup]:
        out += [s + p for p in (":two", ":new", ":none", ":error", ":hang", ":bad")]
    return out


def histories(st, setup, first, depth):
    """Every sequence of queries, server changes and waits; both devices use the same image type and manufacturer code of the image."""
    ms = moves(setup)
    with LoopCtx(0.0) as loop, network():
        app = make_app(coordinator=False)
        devs = [add_device(app, i + 1, endpoints={1: (260, 0x0100, (0,), (0x19,))}, model="mod", manufacturer="Acme", manufacturer_code=m) for i, m in enumerate((MA, MB))]
        loop.drain()
        cmd = Ota.ServerCommandDefs.query_next_image.schema(field_control=0, manufacturer_code=0x1234, image_type=0x5678, current_file_version=1)
        begin = CLOCK.t
        for rest in itertools.product(ms, repeat=depth - 1):
            seq = (first, *rest)
            if not seq[-1].startswith("ask"):
                continue  # nothing is observed after the last query
            if any(a == b and ":" in a for a, b in zip(seq, seq[1:])):
                continue
            CLOCK.t = begin
            NET.__init__()
            for s, _ in SETUPS[setup]:
                NET.pages[URLS[s]] = setting("one", s)
            for (s, n), body in BODIES.items():
                NET.pages[f"https://{s}.test/{n}"] = (200, "x", body)
            o = zigpy.ota.OTA({conf.CONF_OTA_ENABLED: False}, app)
            for s, manufs in SETUPS[setup]:
                o.register_provider(zp.RemoteZigpyProvider(url=URLS[s], manufacturer_ids=manufs))
            page = {s: "one" for s, _ in SETUPS[setup]}
            said = {s: () for s, _ in SETUPS[setup]}  # what each source last listed
            last = {s: None for s, _ in SETUPS[setup]}
            for k, m in enumerate(seq):
                if m[0] == "+":
                    CLOCK.t += {"+1": 1.0, "+day-": DAY - 100.0, "+day": DAY}[m]
                elif ":" in m:
                    s, p = m.split(":")
                    page[s] = p
                    NET.pages[URLS[s]] = setting(p, s)
                else:
                    d = devs[int(m[-1]) - 1]
                    NET.asked.clear()
                    now = CLOCK.t
                    fits = [s for s, manufs in SETUPS[setup] if not manufs or d.manufacturer_id in manufs]
                    contacted = [s for s in fits if last[s] is None or now - last[s] >= DAY]
                    result = loop.run(o.get_ota_images(d, cmd))
                    for s in contacted:
                        # the moment of contact: earlier hanging sources delay later ones
                        last[s] = now
                        if page[s] == "hang":
                            now = now + zigpy.ota.OTA_FETCH_TIMEOUT
                        if PAGES[page[s]] is not None:
                            said[s] = PAGES[page[s]]
                    asked = [u for u, _ in NET.asked if u in URLS.values()]
                    require(asked == [URLS[s] for s in contacted], f"{setup}: {seq[: k + 1]}: contacted {asked} instead of {contacted}", key="contact")
                    offered = sorted((i.version, bytes(i.firmware.serialize())) for i in result.upgrades)
                    expected = sorted((100 + "xy".index(n) * 2 + "ab".index(s), BODIES[s, n]) for s in fits for n in said[s])
                    require(offered == expected, f"{setup}: {seq[: k + 1]}: offers versions {[v for v, _ in offered]}, expected {[v for v, _ in expected]}", key="offer")
                    st.transitions += 1
                    st.states.add(hash((setup, repr(said), repr({s: None if v is None else min(now - v, DAY) for s, v in last.items()}), repr(page))))
                    st.outcomes.add(hash(tuple(v for v, _ in offered)))
            st.executions += 1


# -- configuration --------------------------------------------------------------------------------------------
DEFAULTS = ["ledvance", "sonoff", "inovelli", "thirdreality"]
KINDS = {"ikea": zp.Tradfri, "inovelli": zp.Inovelli, "ledvance": zp.Ledvance, "salus": zp.Salus, "sonoff": zp.Sonoff, "thirdreality": zp.ThirdReality, "z2m": zp.RemoteZ2MProvider,
         "zigpy_remote": zp.RemoteZigpyProvider}
OLD = {"ikea": conf.CONF_OTA_IKEA, "inovelli": conf.CONF_OTA_INOVELLI, "ledvance": conf.CONF_OTA_LEDVANCE, "salus": conf.CONF_OTA_SALUS, "sonoff": conf.CONF_OTA_SONOFF,
       "thirdreality": conf.CONF_OTA_THIRDREALITY, "z2m": conf.CONF_OTA_Z2M_REMOTE_INDEX}


def configured(st, which):
    extras = [("ikea", None, None, False), ("sonoff", "https://s.test/", None, False), ("sonoff", None, [1, 2], True), ("zigpy_remote", "https://z.test/1", [5], False),
              ("zigpy_remote", "https://z.test/2", None, True), ("z2m", None, None, False)]
    lists = [None, [], ["ikea"], ["sonoff", "z2m"]]
    disables = [c for k in range(3) for c in itertools.combinations(("sonoff", "inovelli", "ikea", "z2m"), k)]
    olds = [{}] + [{n: v} for n in OLD for v in (True, False, "https://old.test/")] + [{"ikea": True, "sonoff": False}, {"z2m": "https://old.test/", "inovelli": False}]
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for provs, dis, k in itertools.product(lists, disables, range(0, 3)):
            for ex in itertools.permutations(extras, k):
                for old in (olds if which == "old" and k < 2 else olds[:1]):
                    cfg = {conf.CONF_OTA_ENABLED: True, conf.CONF_OTA_EXTRA_PROVIDERS: [], conf.CONF_OTA_DISABLE_DEFAULT_PROVIDERS: list(dis)}
                    if provs is not None:
                        cfg[conf.CONF_OTA_PROVIDERS] = [{"type": p} for p in provs]
                    for kind, url, manufs, over in ex:
                        e = {"type": kind, "override_previous": over}
                        if url:
                            e["url"] = url
                        if manufs:
                            e["manufacturer_ids"] = manufs
                        cfg[conf.CONF_OTA_EXTRA_PROVIDERS].append(e)
                    for n, v in old.items():
                        cfg[OLD[n]] = v
                    what = f"providers {provs}, extra {ex}, disabled {dis}, deprecated {old}"
                    o = zigpy.ota.OTA(config=conf.SCHEMA_OTA(cfg), application=None)
                    got = [(type(p), p.url, tuple(p.manufacturer_ids)) for p in o._providers]

                    # the defaults that are not disabled, the extra ones, the deprecated ones; an overriding one replaces the earlier ones of its kind
                    plan = [(p, None, None, False) for p in (DEFAULTS if provs is None else provs) if p not in dis]
                    plan += list(ex)
                    off = {n for n, v in old.items() if v is False}
                    plan += [(n, v if isinstance(v, str) else None, None, False) for n in OLD for v in (old.get(n),) if v]
                    final = []
                    # a deprecated entry that is switched on keeps its kind, one that is switched off drops it
                    gone = off | {d for d in dis if not any(x[0] == d for x in ex) and not old.get(d)}
                    for p in plan:
                        if p[0] in gone:
                            continue
                        if p[3]:
                            final = [x for x in final if x[0] != p[0]]
                        final.append(p)
                    expected = [(KINDS[n], u if u else KINDS[n].DEFAULT_URL, tuple(m if m is not None else KINDS[n].MANUFACTURER_IDS)) for n, u, m, _ in final]
                    require(got == expected, f"{what}: sources {[(g[0].NAME, *g[1:]) for g in got]}, expected {[(g[0].NAME, *g[1:]) for g in expected]}"[:900], key="configured")
                    st.executions += 1
                    st.transitions += len(got)
                    st.states.add(hash(what))
                    st.outcomes.add(hash(str(expected)))
        # switched off altogether
        o = zigpy.ota.OTA(config=conf.SCHEMA_OTA({conf.CONF_OTA_ENABLED: False}), application=None)
        require(not o._providers, "firmware updates are off and sources are registered", key="configured")


def scenarios(tier, seed):
    th = tier == "thorough"
    out = []
    for f in FORMATS:
        out.append(dict(fn="entries", kind="bulk", args=dict(fmt=f, width=4 if th else 3)))
        out.append(dict(fn="damaged", kind="bulk", args=dict(fmt=f)))
        out.append(dict(fn="fetched", kind="bulk", args=dict(fmt=f)))
    out += [dict(fn="folder", kind="bulk", args=dict(part=i, parts=8)) for i in range(8)]
    for s in SETUPS:
        for m in moves(s):
            n = len(moves(s))
            out.append(dict(fn="histories", kind="bulk", args=dict(setup=s, first=m, depth=(6 if n < 12 else 5) if th else (5 if n < 12 else 4))))
    out += [dict(fn="configured", kind="bulk", args=dict(which=w)) for w in ("new", "old")]
    return out
