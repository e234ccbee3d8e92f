"""C10: ZCL headers, every cluster command and every general command against specified layouts."""
from __future__ import annotations

import itertools
import json
import pathlib
import struct

import zigpy.types as t
from zigpy.zcl import Cluster, foundation

from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import add_device, make_app

LEVEL = "exploration"
RULE = ("every frame-control byte x manufacturer x sequence x command; every command of every registered cluster (table "
        "mc/data/zcl.json, written by an independent encoder) x field value variants x absent optional fields x every "
        "truncation; every general command x record shapes x every attribute data type x every truncation")
ASSUMPTIONS = ["the command and attribute table was reviewed once against the pinned tree and the ZCL layouts"]

DATA = pathlib.Path(__file__).resolve().parent.parent / "data" / "zcl.json"
_T = None


def table():
    global _T
    if _T is None:
        _T = json.loads(DATA.read_text())
    return _T


def scenarios(tier, seed):
    out = [dict(fn="headers", kind="bulk", args=dict(part=i)) for i in range(4)]
    ids = sorted(table()["clusters"], key=int)
    n = 16
    for i in range(n):
        out.append(dict(fn="commands", kind="bulk", args=dict(ids=ids[i::n])))
    out.append(dict(fn="attributes", kind="bulk", args={}))
    out.append(dict(fn="conditional", kind="bulk", args={}))
    for i in range(8):
        out.append(dict(fn="records", kind="bulk", args=dict(part=i)))
    out.append(dict(fn="plain_general", kind="bulk", args={}))
    out.append(dict(fn="data_types", kind="bulk", args={}))
    out.append(dict(fn="warnings", kind="bulk", args={}))
    return out


# -- plain values ------------------------------------------------------------------------
def plain(v):
    if v is None:
        return None
    if isinstance(v, t.Struct):
        return {k: plain(x) for k, x in v.as_dict().items()}
    if isinstance(v, foundation.TypeValue):
        return [int(v.type), plain(v.value)]
    if isinstance(v, float):
        return float(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, bytes):
        return bytes(v).hex()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return repr(v)


def u16(n):
    return n.to_bytes(2, "little")


# -- headers -----------------------------------------------------------------------------
def headers(st, part):
    H = foundation.ZCLHeader
    for fc in range(part, 256, 4):
        man = bool(fc & 4)
        for m in (0x0000, 0x115F, 0xFFFF) if man else (None,):
            for tsn in (0, 1, 0x7F, 0xFF):
                for cmd in (0, 0x0B, 0xFF):
                    raw = bytes([fc]) + (u16(m) if man else b"") + bytes([tsn, cmd])
                    for tail in (b"", b"\x01\x02"):
                        h, rest = H.deserialize(raw + tail)
                        got = (int(h.frame_control), h.manufacturer, h.tsn, h.command_id, rest)
                        require(got == (fc, m, tsn, cmd, tail), f"header {raw.hex()} decodes to {got}", key="header-decode")
                        c = h.frame_control
                        bits = (int(c.frame_type), int(c.is_manufacturer_specific), int(c.direction), int(c.disable_default_response), int(c.reserved))
                        require(bits == (fc & 3, fc >> 2 & 1, fc >> 3 & 1, fc >> 4 & 1, fc >> 5), f"frame control {fc:#04x} is {bits}", key="header-decode")
                        require(bool(c.is_cluster) == (fc & 3 == 1) and bool(c.is_general) == (fc & 3 == 0), "frame type flags", key="header-decode")
                        require(int(h.direction) == fc >> 3 & 1, "direction", key="header-decode")
                        require(h.serialize() == raw, f"header {raw.hex()} re-encodes to {h.serialize().hex()}", key="header-encode")
                    for n in range(len(raw)):
                        refuse(lambda: H.deserialize(raw[:n]), f"header {raw[:n].hex()}")
                    st.executions += 1
        st.outcomes.add(fc)
    if part:
        return
    D = foundation.Direction
    for kind, d, m, tsn, cmd in itertools.product(("general", "cluster"), (D.Client_to_Server, D.Server_to_Client), (None, 0x115F, H.NO_MANUFACTURER_ID), (0, 200), (1, 10)):
        if m == H.NO_MANUFACTURER_ID:
            h = H(frame_control=getattr(foundation.FrameControl, kind)(direction=d), manufacturer=m, tsn=tsn, command_id=cmd)
            m = None
        else:
            h = getattr(H, kind)(tsn, cmd, manufacturer=m, direction=d)
        rep = d == D.Server_to_Client
        fc = (kind == "cluster") | (m is not None) << 2 | rep << 3 | rep << 4
        raw = bytes([fc]) + (u16(m) if m is not None else b"") + bytes([tsn, cmd])
        require(h.serialize() == raw, f"{kind} header encodes to {h.serialize().hex()}, expected {raw.hex()}", key="header-encode")
        # setting and clearing the manufacturer keeps the flag in step
        for m2 in (0x1234, None, H.NO_MANUFACTURER_ID, 0x4321):
            h.manufacturer = m2
            want = None if m2 in (None, H.NO_MANUFACTURER_ID) else m2
            fc2 = (kind == "cluster") | (want is not None) << 2 | rep << 3 | rep << 4
            raw2 = bytes([fc2]) + (u16(want) if want is not None else b"") + bytes([tsn, cmd])
            require(h.serialize() == raw2, f"header with manufacturer {m2} encodes to {h.serialize().hex()}, expected {raw2.hex()}", key="header-encode")
            require(H.deserialize(raw2)[0] == h, "header round trip", key="header-decode")
        st.executions += 1


def refuse(fn, what):
    try:
        r = fn()
    except ValueError:
        return
    raise Violation(f"{what} is too short but gives {r!r}", key="truncated-accepted")


# -- cluster commands --------------------------------------------------------------------
class Ctx:
    def __init__(self):
        self.loop_ctx = LoopCtx()

    def __enter__(self):
        self.loop_ctx.__enter__()
        app = make_app()
        dev = add_device(app, 1)
        self.ep = dev.endpoints[1]
        return self

    def __exit__(self, *a):
        return self.loop_ctx.__exit__(*a)

    def clusters(self, cid):
        return [Cluster.from_id(self.ep, cid, is_server=s) for s in (True, False)]


def commands(st, ids):
    with Ctx() as ctx:
        for cid in ids:
            spec = table()["clusters"][cid]
            cls = ctx.clusters(int(cid))
            for side in ("client", "server"):
                have = {int(k) for k in getattr(cls[0], side + "_commands")}
                missing = {int(c) for c in spec[side]} - have
                require(not missing, f"cluster {cid}: {side} commands {missing} are gone", key="command-missing")
                for c, item in spec[side].items():
                    for i, fr in enumerate(item["frames"] or ()):
                        command(st, cls, side, int(c), item, bytes.fromhex(fr[0]), fr[1], cuts=i < 3 or i >= len(item["frames"]) - 2)
            st.outcomes.add(hash(cid))


def command(st, clusters, side, c, item, payload, values, cuts):
    name = item["name"]
    what = f"cluster {clusters[0].cluster_id:#06x} {side} command {name}"
    fc = 0x01 | (0x08 if side == "client" else 0)
    defs = getattr(clusters[0], side + "_commands")
    require(defs[c].name == name, f"{what} is now called {defs[c].name}", key="command-name")
    decoded = None
    for cl in clusters:
        for fc_ in (fc, fc | 0x10, fc | 0x04):
            head = bytes([fc_]) + (b"\x5f\x11" if fc_ & 4 else b"") + bytes([0x42, c])
            hdr, args = cl.deserialize(head + payload)
            require(plain(args) == values, f"{what}: {payload.hex()} decodes to {plain(args)}, expected {values}", key="command-decode")
            require(hdr.tsn == 0x42 and hdr.command_id == c and hdr.manufacturer == (0x115F if fc_ & 4 else None), f"{what}: header {hdr}", key="header-decode")
            require(args.serialize() == payload, f"{what}: {payload.hex()} re-encodes to {args.serialize().hex()}", key="command-encode")
            decoded = args
    # building the command from its values, by keyword and by position
    schema = defs[c].schema
    names = [n for n, _ in item["fields"]]
    kw, pos = {}, []
    for n in names:
        v = values[n]
        if v is None:
            continue
        d = getattr(decoded, n)
        scalar = isinstance(d, (int, float, str)) and not isinstance(d, t.Struct)
        x = v if scalar else (bytes.fromhex(v) if isinstance(d, bytes) else d)
        kw[n] = x
        pos.append(x)
    for built in (schema(**kw), schema(*pos)):
        require(built.serialize() == payload, f"{what}: {values} encodes to {built.serialize().hex()}, expected {payload.hex()}", key="command-encode")
        require(built == decoded, f"{what}: built and decoded commands differ", key="command-decode")
    require(len(decoded) == len(names) and plain(tuple(decoded)) == [values[n] for n in names], f"{what}: as a tuple", key="command-decode")
    for i, n in enumerate(names):
        require(plain(decoded[i]) == values[n], f"{what}: item {i}", key="command-decode")
    if cuts:
        # fields that lie before the cut may not be lost, and nothing may be invented
        for n in range(len(payload)):
            cut_check(lambda d: clusters[0].deserialize(d), bytes([fc, 0x42, c]), payload[:n], what)
        # trailing bytes do not change the decoded command
        opt = any(o for _, o in item["fields"])
        if not opt and payload and not isinstance(decoded[-1], t.List):
            hdr, args = clusters[0].deserialize(bytes([fc, 0x42, c]) + payload + b"\xee")
            require(plain(args) == values, f"{what}: a trailing byte changes the arguments", key="command-decode")
    st.executions += 1
    st.outcomes.add(hash((what, payload)))


def cut_check(decode, head, cut, what):
    try:
        _, args = decode(head + cut)
    except ValueError:
        return
    require(isinstance(args, t.Struct), f"{what}: cut frame {cut.hex()} decodes to {args!r}", key="truncated-accepted")
    enc = args.serialize() if args.is_valid else None
    require(enc is not None, f"{what}: cut to {cut.hex()} decodes to {args!r} although mandatory fields are missing", key="truncated-accepted")
    require(cut.startswith(enc), f"{what}: cut to {cut.hex()} decodes to {args!r}, which stands for {enc.hex()}", key="truncated-accepted")
    require(enc == cut or "allow-rest" in what, f"{what}: cut to {cut.hex()} decodes to {args!r}, dropping part of the frame", key="truncated-accepted")


def attributes(st):
    with Ctx() as ctx:
        for cid, spec in table()["clusters"].items():
            cl = ctx.clusters(int(cid))[0]
            require(cl.ep_attribute == spec["ep_attribute"], f"cluster {cid} is now {cl.ep_attribute}", key="attribute-table")
            for aid, (name, ty, man) in spec["attributes"].items():
                for key in (int(aid), name):
                    try:
                        d = cl.find_attribute(key)
                    except KeyError:
                        raise Violation(f"cluster {cid}: attribute {key} is gone", key="attribute-table") from None
                    require((int(d.id), d.name, int(d.zcl_type)) == (int(aid), name, ty),
                            f"cluster {cid} attribute {key} is {(int(d.id), d.name, int(d.zcl_type))}, expected {(int(aid), name, ty)}", key="attribute-table")
                    require(bool(d.is_manufacturer_specific) == man, f"cluster {cid} attribute {key} manufacturer flag", key="attribute-table")
                st.executions += 1
            for bad in (0xEEEE, "no_such_attribute"):
                try:
                    cl.find_attribute(bad)
                except KeyError:
                    continue
                raise Violation(f"cluster {cid}: {bad} found", key="attribute-table")
            st.outcomes.add(hash((cid, repr(sorted(spec["attributes"])))))


def conditional(st):
    """Commands with conditional fields, from the OTA cluster specification."""
    M, I, V, O, A = 0x1234, 0x5678, 0x01020304, 0x0A0B0C0D, list(range(1, 9))
    u32 = lambda n: n.to_bytes(4, "little")  # noqa: E731
    base = u16(M) + u16(I) + u32(V)
    cases = []
    for fc in (0, 1, 0xFE, 0xFF):
        v = dict(field_control=fc, manufacturer_code=M, image_type=I, current_file_version=V, hardware_version=0x0203 if fc & 1 else None)
        cases.append(("server", 1, v, bytes([fc]) + base + (u16(0x0203) if fc & 1 else b"")))
    for fc in (0, 1, 2, 3, 0xFC, 0xFF):
        v = dict(field_control=fc, manufacturer_code=M, image_type=I, file_version=V, file_offset=O, maximum_data_size=60,
                 request_node_addr=A if fc & 1 else None, minimum_block_period=0x0908 if fc & 2 else None)
        cases.append(("server", 3, v, bytes([fc]) + base + u32(O) + b"\x3c" + (bytes(A) if fc & 1 else b"") + (u16(0x0908) if fc & 2 else b"")))
    for fc in (0, 1, 0xFE, 0xFF):
        v = dict(field_control=fc, manufacturer_code=M, image_type=I, file_version=V, file_offset=O, maximum_data_size=60,
                 page_size=0x0807, response_spacing=0x0605, request_node_addr=A if fc & 1 else None)
        cases.append(("server", 4, v, bytes([fc]) + base + u32(O) + b"\x3c" + u16(0x0807) + u16(0x0605) + (bytes(A) if fc & 1 else b"")))
    for pt in range(4):
        v = dict(payload_type=pt, query_jitter=100, manufacturer_code=M if pt >= 1 else None, image_type=I if pt >= 2 else None, new_file_version=V if pt >= 3 else None)
        cases.append(("client", 0, v, bytes([pt, 100]) + (u16(M) if pt >= 1 else b"") + (u16(I) if pt >= 2 else b"") + (u32(V) if pt >= 3 else b"")))
    for status in (0x00, 0x97, 0x95, 0x98):
        for data in (b"", b"\x01\x02\x03", b"\x5a" * 64):
            v = dict.fromkeys(["status", "manufacturer_code", "image_type", "file_version", "file_offset", "image_data", "current_time", "request_time", "minimum_block_period"])
            v["status"] = status
            raw = bytes([status])
            if status == 0:
                v.update(manufacturer_code=M, image_type=I, file_version=V, file_offset=O, image_data=data.hex())
                raw += base + u32(O) + bytes([len(data)]) + data
            elif status == 0x97:
                v.update(current_time=V, request_time=O, minimum_block_period=0x0908)
                raw += u32(V) + u32(O) + u16(0x0908)
            cases.append(("client", 5, v, raw))
    with Ctx() as ctx:
        cls = ctx.clusters(0x0019)
        for side, c, v, raw in cases:
            item = dict(name=table()["clusters"]["25"][side][str(c)]["name"], fields=[[k, False] for k in v])
            fc = 0x01 | (0x08 if side == "client" else 0)
            hdr, args = cls[0].deserialize(bytes([fc, 7, c]) + raw)
            what = f"OTA {item['name']}"
            require(plain(args) == v, f"{what}: {raw.hex()} decodes to {plain(args)}, expected {v}", key="command-decode")
            require(args.serialize() == raw, f"{what}: {raw.hex()} re-encodes to {args.serialize().hex()}", key="command-encode")
            schema = getattr(cls[0], side + "_commands")[c].schema
            built = schema(**{k: (bytes.fromhex(x) if isinstance(x, str) else x) for k, x in v.items() if x is not None})
            require(built.serialize() == raw, f"{what}: {v} encodes to {built.serialize().hex()}, expected {raw.hex()}", key="command-encode")
            for n in range(len(raw)):
                refuse(lambda: cls[0].deserialize(bytes([fc, 7, c]) + raw[:n]), f"{what} {raw[:n].hex()}")
            st.executions += 1
            st.outcomes.add(hash(raw))
        # warning device commands
        wd = ctx.clusters(0x0502)
        for b in range(256):
            for c, raw in ((0, bytes([b]) + u16(300) + bytes([50, 2])), (1, bytes([b]))):
                hdr, args = wd[0].deserialize(bytes([1, 9, c]) + raw)
                require(args.serialize() == raw, f"warning command {raw.hex()} re-encodes to {args.serialize().hex()}", key="command-encode")
                for n in range(len(raw)):
                    refuse(lambda: wd[0].deserialize(bytes([1, 9, c]) + raw[:n]), f"warning {raw[:n].hex()}")
            st.executions += 1
            st.outcomes.add(b)


def warnings(st):
    """The packed fields of the warning and squawk arguments, every value of every field after every other value."""
    with Ctx() as ctx:
        wd = ctx.clusters(0x0502)[0]
        for cls, strobe_bit in ((wd.Warning, 2), (wd.Squawk, 3)):
            for b in range(256):
                w = cls(b)
                require((int(w.mode), int(w.strobe), int(w.level)) == (b >> 4, b >> strobe_bit & 1, b & 3), f"{cls.__name__}({b})", key="warning")
                for mode, strobe, level in itertools.product((0, 1, 6), (0, 1), range(4)):
                    w = cls(b)
                    w.mode, w.strobe, w.level = mode, strobe, level
                    require((int(w.mode), int(w.strobe), int(w.level)) == (mode, strobe, level),
                            f"{cls.__name__}({b}) with mode {mode}, strobe {strobe}, level {level} reads back {(int(w.mode), int(w.strobe), int(w.level))}", key="warning")
                    want = mode << 4 | strobe << strobe_bit | level
                    mask = 0xF3 | 1 << strobe_bit
                    require(w.serialize()[0] & mask == want, f"{cls.__name__}({b}) encodes to {w.serialize().hex()}", key="warning")
                    st.executions += 1
                st.outcomes.add((strobe_bit, b))


# -- general commands --------------------------------------------------------------------
def le(n, signed=False):
    return lambda v: (v % (1 << (8 * n))).to_bytes(n, "little")


def lstr(n):
    return lambda v: len(v.encode()).to_bytes(n, "little") + v.encode()


def loct(n):
    return lambda v: (len(v) // 2).to_bytes(n, "little") + bytes.fromhex(v)


def arr(n):
    return lambda v: bytes(v)


# id -> (name, analog?, sample values, encoder, non-value)
TYPES = {0x00: ("nodata", None, [], None, None)}
for _i in range(8):
    TYPES[0x08 + _i] = (f"data{8 * (_i + 1)}", False, [list(range(1, _i + 2)), [255] * (_i + 1)], arr(_i + 1), None)
    TYPES[0x18 + _i] = (f"map{8 * (_i + 1)}", False, [0x1, 1 << (8 * _i + 7)], le(_i + 1), None)
    TYPES[0x20 + _i] = (f"uint{8 * (_i + 1)}", True, [1, int.from_bytes(bytes(range(1, _i + 2)), "big"), (1 << 8 * (_i + 1)) - 1], le(_i + 1), (1 << 8 * (_i + 1)) - 1)
    TYPES[0x28 + _i] = (f"int{8 * (_i + 1)}", True, [-1, -(1 << (8 * _i + 7)), (1 << (8 * _i + 7)) - 1], le(_i + 1), -(1 << (8 * _i + 7)))
TYPES.update({
    0x10: ("bool_", False, [0, 1], le(1), None),
    0x30: ("enum8", False, [0, 3, 255], le(1), 0xFF),
    0x31: ("enum16", False, [0, 0x0102, 0xFFFF], le(2), 0xFFFF),
    0x38: ("semi", True, [1.5, -0.25, 6.103515625e-05], lambda v: struct.pack("<e", v), None),
    0x39: ("single", True, [1.5, -0.25, 5 * 2.0 ** -149], lambda v: struct.pack("<f", v), None),
    0x3A: ("double", True, [1.5, -1e300], lambda v: struct.pack("<d", v), None),
    0x41: ("octstr", False, ["", "00ff10"], loct(1), None),
    0x42: ("string", False, ["", "aé€"], lstr(1), None),
    0x43: ("octstr16", False, ["", "00ff10", "ab" * 300], loct(2), None),
    0x44: ("string16", False, ["", "aé€", "x" * 255], lstr(2), None),
    0xE0: ("ToD", True, [dict(hours=1, minutes=2, seconds=3, hundredths=4)], lambda v: bytes(v.values()), dict(hours=255, minutes=255, seconds=255, hundredths=255)),
    0xE1: ("date", True, [dict(years_since_1900=121, month=2, day=3, day_of_week=4)], lambda v: bytes(v.values()), dict(years_since_1900=255, month=255, day=255, day_of_week=255)),
    0xE2: ("UTC", True, [0x01020304], le(4), 0xFFFFFFFF),
    0xE8: ("clusterId", False, [0x0102], le(2), 0xFFFF),
    0xE9: ("attribId", False, [0x0102], le(2), 0xFFFF),
    0xEA: ("bacOID", False, [0x01020304], le(4), 0xFFFFFFFF),
    0xF0: ("EUI64", False, [list(range(1, 9))], arr(8), [255] * 8),
    0xF1: ("key128", False, [list(range(1, 17))], arr(16), [255] * 16),
})


def values():
    """(type id, plain typed value, bytes incl. type) for every data type, collections included."""
    out = []
    for tid, (name, analog, vals, enc, _) in TYPES.items():
        for v in vals:
            out.append((tid, [tid, v], bytes([tid]) + enc(v)))
    for tid in (0x48, 0x50, 0x51):
        for item, vs in ((0x20, []), (0x20, [1, 2]), (0x21, [0x0102]), (0x42, ["ab", ""]), (0x29, [-2])):
            body = bytes([item]) + u16(len(vs)) + b"".join(TYPES[item][3](v) for v in vs)
            out.append((tid, ("coll", tid, item, vs), bytes([tid]) + body))
    for items in ([], [(0x20, 5)], [(0x21, 0x0102), (0x42, "x"), (0x10, 1)]):
        body = u16(len(items)) + b"".join(bytes([i]) + TYPES[i][3](v) for i, v in items)
        out.append((0x4C, [0x4C, [[i, v] for i, v in items]], bytes([0x4C]) + body))
    return out


def match(got, want):
    """A decoded typed value (TypeValue or collection) against the expected one."""
    if isinstance(want, tuple):
        _, tid, item, vs = want
        inner = got.value if int(got.type) == tid and isinstance(got.value, foundation.TypeValue) else got
        cls = {0x48: "Array", 0x50: "Set", 0x51: "Bag"}[tid]
        return type(inner).__name__ == cls and int(inner.type) == item and plain(list(inner.value)) == vs
    return plain(got) == want


def data_types(st):
    DT = foundation.DataType
    for tid, (name, analog, vals, enc, non) in TYPES.items():
        d = DT.from_type_id(foundation.DataTypeId(tid))
        require(d.name == name, f"type {tid:#04x} is {d.name}, expected {name}", key="type-table")
        if analog is not None:
            require((d.type_class is foundation.DataClass.Analog) == analog, f"type {name} analog class", key="type-table")
        if non is not None:
            require(plain(d.non_value) == non, f"type {name}: non-value {d.non_value!r}, expected {non!r}", key="type-table")
        for v in vals:
            raw = enc(v)
            x, rest = d.python_type.deserialize(raw + b"zz" if tid != 0 else raw)
            require(plain(x) == v and rest == b"zz", f"type {name}: {raw.hex()} decodes to {x!r}", key="type-decode")
            require(x.serialize() == raw, f"type {name}: {raw.hex()} re-encodes to {x.serialize().hex()}", key="type-encode")
            require(DT.from_python_type(type(x)) is d, f"type of {x!r} is {DT.from_python_type(type(x)).name}, expected {name}", key="type-table")
            for n in range(len(raw)):
                refuse(lambda: d.python_type.deserialize(raw[:n]), f"type {name} {raw[:n].hex()}")
            st.executions += 1
        st.outcomes.add(tid)
    for tid, want, raw in values():
        tv, rest = foundation.TypeValue.deserialize(raw + b"zz")
        require(rest == b"zz" and match(tv, want), f"typed value {raw.hex()} decodes to {tv!r}", key="type-decode")
        require(tv.serialize() == raw, f"typed value {raw.hex()} re-encodes to {tv.serialize().hex()}", key="type-encode")
        c = foundation.TypeValue(tv)
        require(c == tv and c.serialize() == raw, "copy of a typed value", key="type-encode")
        repr(tv)
        for n in range(len(raw)):
            refuse(lambda: foundation.TypeValue.deserialize(raw[:n]), f"typed value {raw[:n].hex()}")
        st.executions += 1
        st.outcomes.add(raw)


def general(cl, cmd, payload, fc):
    return cl.deserialize(bytes([fc, 0x33, cmd]) + payload)


def records(st, part):
    """Read responses, reports, writes and reporting configuration with every attribute type, one and two records."""
    allv = values()
    # (command, header byte, name of the list, record encoder variants)
    with Ctx() as ctx:
        cls = ctx.clusters(6)
        extra = (0x29, [0x29, -2], b"\x29\xfe\xff")

        def one(cmd, fc, recs, check, what):
            payload = b"".join(r[0] for r in recs)
            for cl in cls:
                hdr, args = general(cl, cmd, payload, fc)
                lst = args[0]
                require(len(lst) == len(recs), f"{what}: {payload.hex()} decodes to {len(lst)} records", key="record-decode")
                for got, r in zip(lst, recs):
                    require(check(got, r[1]), f"{what}: record {r[0].hex()} decodes to {got!r}", key="record-decode")
                    repr(got)
                enc = args.serialize()
                require(enc == payload, f"{what}: {payload.hex()} re-encodes to {enc.hex()}", key="record-encode")
                again = foundation.GENERAL_COMMANDS[foundation.GeneralCommand(cmd)].schema(lst)
                require(again.serialize() == payload, f"{what}: copy re-encodes differently", key="record-encode")
            ends = {0}
            for r in recs:
                ends.add(max(ends) + len(r[0]))
            if len(payload) < 60:
                for n in range(len(payload)):
                    try:
                        _, args = general(cls[0], cmd, payload[:n], fc)
                    except ValueError:
                        require(n not in ends, f"{what}: complete records {payload[:n].hex()} are refused", key="record-decode")
                        continue
                    require(n in ends, f"{what}: {payload[:n].hex()} is cut but decodes to {args!r}", key="truncated-accepted")
                    require(args.serialize() == payload[:n], f"{what}: cut frame decodes to something else", key="truncated-accepted")
            st.executions += 1
            st.outcomes.add(hash((cmd, payload)))

        def read_ok(got, w):
            return (int(got.attrid), int(got.status)) == (w[0], w[1]) and (got.value is None if w[2] is None else match(got.value, w[2]))

        def attr_ok(got, w):
            return int(got.attrid) == w[0] and match(got.value, w[1])

        for k, (tid, want, raw) in enumerate(allv):
            if k % 8 != part:
                continue
            fail = (u16(0x0105) + b"\x86", (0x0105, 0x86, None))
            good = (u16(0x4003) + b"\x00" + raw, (0x4003, 0, want))
            other = (u16(0xFFFD) + b"\x00" + extra[2], (0xFFFD, 0, extra[1]))
            for recs in ([good], [good, fail], [fail, good], [other, good], [good, other, fail]):
                one(0x01, 0x18, recs, read_ok, "read response")
            a = (u16(0x4003) + raw, (0x4003, want))
            b = (u16(0xFFFD) + extra[2], (0xFFFD, extra[1]))
            for cmd, fc, what in ((0x0A, 0x18, "report"), (0x02, 0x00, "write"), (0x03, 0x00, "undivided write"), (0x05, 0x00, "write without response")):
                for recs in ([a], [a, b], [b, a]):
                    one(cmd, fc, recs, attr_ok, what)

        # reporting configuration: analog types carry a reportable change
        def cfg_ok(got, w):
            if int(got.direction) != w["direction"] or int(got.attrid) != w["attrid"]:
                return False
            if w["direction"] == 1:
                return int(got.timeout) == w["timeout"]
            return (int(got.datatype), int(got.min_interval), int(got.max_interval)) == (w["datatype"], 0x0102, 0x0304) and (
                plain(got.reportable_change) == w["change"])

        def st_ok(got, w):
            if int(got.status) != w[0]:
                return False
            if w[0]:
                return int(got.config.direction) == w[1]["direction"] and int(got.config.attrid) == w[1]["attrid"]
            return cfg_ok(got.config, w[1])

        recv = (b"\x01" + u16(0x4005) + u16(0x0506), dict(direction=1, attrid=0x4005, timeout=0x0506))
        for k, (tid, want, raw) in enumerate(allv):
            if k % 8 != part:
                continue
            analog = TYPES[tid][1] if tid in TYPES else False
            rec = b"\x00" + u16(0x4003) + bytes([tid]) + u16(0x0102) + u16(0x0304) + (raw[1:] if analog else b"")
            w = dict(direction=0, attrid=0x4003, datatype=tid, change=want[1] if analog else None)
            for recs in ([(rec, w)], [(rec, w), recv], [recv, (rec, w)]):
                one(0x06, 0x00, recs, cfg_ok, "reporting configuration")
            for status in (0x00, 0x86, 0x8B):
                for body, ww in ((rec, w), recv):
                    r = (bytes([status]) + (body if status == 0 else body[:3]), (status, ww))
                    r2 = (b"\x00" + recv[0], (0, recv[1]))
                    for recs in ([r], [r, r2], [r2, r]):
                        one(0x09, 0x18, recs, st_ok, "reporting configuration response")


def plain_general(st):
    """General commands with fixed layouts."""
    ids = [0x0000, 0x0102, 0xFFFD]
    cases = []
    for n in range(4):
        for c in itertools.permutations(ids, n):
            cases.append((0x00, 0x00, b"".join(map(u16, c)), dict(attribute_ids=list(c))))
    for n in range(3):
        for c in itertools.product((0, 1), (0x0102, 0xFFFD), repeat=n):
            recs = [dict(direction=c[2 * i], attrid=c[2 * i + 1]) for i in range(n)]
            cases.append((0x08, 0x00, b"".join(bytes([r["direction"]]) + u16(r["attrid"]) for r in recs), dict(attribute_records=recs)))
    for cmd, s in itertools.product((0, 0x0A, 255), (0, 0x81, 0x86, 0xC3, 0xFE)):
        cases.append((0x0B, 0x18, bytes([cmd, s]), dict(command_id=cmd, status=s)))
    cases.append((0x0C, 0x00, u16(0x0102) + b"\x10", dict(start_attribute_id=0x0102, max_attribute_ids=16)))
    cases.append((0x15, 0x00, u16(0x0102) + b"\x10", dict(start_attribute_id=0x0102, max_attribute_ids=16)))
    for comp in (0, 1):
        for n in range(3):
            recs = [dict(attrid=0x0102 + i, datatype=0x21) for i in range(n)]
            cases.append((0x0D, 0x18, bytes([comp]) + b"".join(u16(r["attrid"]) + b"\x21" for r in recs), dict(discovery_complete=comp, attribute_info=recs)))
            recs = [dict(attrid=0x0102 + i, datatype=0x21, acl=1 + i) for i in range(n)]
            cases.append((0x16, 0x18, bytes([comp]) + b"".join(u16(r["attrid"]) + b"\x21" + bytes([r["acl"]]) for r in recs), dict(discovery_complete=comp, extended_attr_info=recs)))
            for cmd in (0x12, 0x14):
                cases.append((cmd, 0x18, bytes([comp]) + bytes(range(5, 5 + n)), dict(discovery_complete=comp, command_ids=list(range(5, 5 + n)))))
    for cmd in (0x11, 0x13):
        cases.append((cmd, 0x00, b"\x05\x20", dict(start_command_id=5, max_command_ids=32)))
    with Ctx() as ctx:
        cl = ctx.clusters(6)[0]
        for cmd, fc, raw, want in cases:
            hdr, args = general(cl, cmd, raw, fc)
            require(plain(args) == want, f"general command {cmd:#04x} {raw.hex()} decodes to {plain(args)}, expected {want}", key="general-decode")
            require(args.serialize() == raw, f"general command {cmd:#04x} {raw.hex()} re-encodes to {args.serialize().hex()}", key="general-encode")
            for n in range(len(raw)):
                cut_check(lambda d: cl.deserialize(d), bytes([fc, 0x33, cmd]), raw[:n], f"general command {cmd:#04x}")
            st.executions += 1
            st.outcomes.add(hash((cmd, raw)))
        # write and configure responses: one success byte, or one record per failure
        for cmd, rec, name in ((0x04, lambda s, a: bytes([s]) + u16(a), "write"), (0x07, lambda s, a: bytes([s, a & 1]) + u16(a), "configure")):
            for n in range(4):
                for ss in itertools.product((0x86, 0x88), repeat=n):
                    recs = [(s, 0x0100 + i) for i, s in enumerate(ss)]
                    raw = b"".join(rec(*r) for r in recs) or b"\x00"
                    hdr, args = general(cl, cmd, raw, 0x18)
                    got = [(int(r.status), None if r.attrid is None else int(r.attrid)) for r in args[0]]
                    require(got == (recs or [(0, None)]), f"{name} response {raw.hex()} decodes to {got}", key="general-decode")
                    if cmd == 0x07 and recs:
                        require([int(r.direction) for r in args[0]] == [a & 1 for _, a in recs], "configure response directions", key="general-decode")
                    require(args.serialize() == raw, f"{name} response {raw.hex()} re-encodes to {args.serialize().hex()}", key="general-encode")
                    for r in args[0]:
                        repr(r)
                    # successful records are left out next to failures
                    if recs:
                        R = type(args[0][0])
                        ok = R(status=foundation.Status.SUCCESS, **({"direction": 0} if cmd == 0x07 else {}), attrid=0x0777)
                        L = type(args[0])
                        for pos in range(len(recs) + 1):
                            mixed = L([*args[0][:pos], ok, *args[0][pos:]])
                            require(mixed.serialize() == raw, f"{name} response with a success at {pos} encodes to {mixed.serialize().hex()}", key="general-encode")
                    ends = {k * (len(raw) // max(1, len(recs))) for k in range(len(recs) + 1)} if recs else set()
                    for k in range(len(raw)):
                        try:
                            _, a = general(cl, cmd, raw[:k], 0x18)
                        except ValueError:
                            require(k not in ends or k == 0, "complete records refused", key="general-decode")
                            continue
                        m = len(a[0])
                        if k == 0 and cmd == 0x07 and not m:
                            continue
                        require(a.serialize() == raw[: m * (len(raw) // max(1, len(recs)))] or k == 0, f"{name} response cut to {raw[:k].hex()} decodes to {a!r}", key="truncated-accepted")
                        require(k > 0 or cmd == 0x07, "an empty response is accepted", key="truncated-accepted")
                    st.executions += 1
                    st.outcomes.add(hash((cmd, raw)))
            # a success record with nothing else, or alone
            for raw in (b"\x00",):
                hdr, args = general(cl, cmd, raw, 0x18)
                require(len(args[0]) == 1 and int(args[0][0].status) == 0 and args.serialize() == raw, f"{name} success", key="general-decode")
        # unknown commands give the raw payload
        for fc, cmd in ((0x00, 0x0E), (0x00, 0xFF), (0x01, 0xEE), (0x09, 0xEE)):
            hdr, rest = cl.deserialize(bytes([fc, 1, cmd]) + b"\x01\x02")
            require(bytes(rest) == b"\x01\x02" and hdr.command_id == cmd, f"unknown command {cmd:#04x} gives {rest!r}", key="general-decode")
            st.executions += 1
