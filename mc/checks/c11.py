"""C11: every ZDO command against an independently written layout table."""
from __future__ import annotations

import itertools
import json
import pathlib

import zigpy.types as t
import zigpy.zdo.types as zdo_t
from zigpy.zdo import broadcast
from zigpy.zdo.types import ZDOCmd

from ..explore import require
from ..loop import LoopCtx
from ..world import add_device, make_app

LEVEL = "exploration"
RULE = ("every ZDO command x the product of the field domains (boundary values, empty, one- and two-entry lists, every "
        "address mode and conditional layout) x every truncation; every 16-bit cluster id; every status byte; a case is "
        "distinct by command and bytes")
ASSUMPTIONS = ["layout table written from the Zigbee specification (R22), not from the code"]


NAMES = json.loads((pathlib.Path(__file__).parent.parent / "data" / "zdo_names.json").read_text())


def le(n, size):
    return n.to_bytes(size, "little")


EUIS = [bytes([1, 2, 3, 4, 5, 6, 7, 8]), bytes(8), bytes([255] * 7 + [0xA5])]


# A kind is a list of cases (argument, encoded bytes, plain decoded value).
def ints(size, values, conv=None):
    return [((conv or int)(v), le(v, size), v) for v in values]


def eui(values=EUIS):
    return [(t.EUI64([t.uint8_t(x) for x in v]), v, list(v)) for v in values]


def lv(items, counts=(0, 1, 2, 3)):
    out = []
    for n in counts:
        pick = [items[i % len(items)] for i in range(n)]
        out.append(([p[0] for p in pick], bytes([n]) + b"".join(p[1] for p in pick), [p[2] for p in pick]))
    return out


def rest_list(items, counts=(0, 1, 2)):
    return [(a, b[1:], p) for a, b, p in lv(items, counts)]


U8 = ints(1, [0, 1, 0x80, 0xFF])
U16 = ints(2, [0x0000, 0x1234, 0xFF00, 0x00FE])
NWK = ints(2, [0x0000, 0xA1B2, 0xFFFD])
STATUS = ints(1, [0x00, 0x80, 0x84, 0x8D, 0xA7, 0xC3])
BOOL = ints(1, [0, 1])
CHANNELS = ints(4, [0x07FFF800, 0x00000800, 0x00108000])
REQTYPE = ints(1, [0, 1])


def node_desc():
    out = []
    for lt, cx, us, rs, aps, fb, mac, man, buf, mi, sm, mo, cap in [
        (0, 0, 0, 0, 0, 8, 0x8E, 0x115F, 82, 0x0100, 0x2C40, 0x0201, 0),
        (1, 1, 0, 5, 3, 1, 0x80, 0x0000, 255, 0xFFFF, 0x0001, 0x8000, 1),
        (2, 0, 1, 2, 4, 16, 0x00, 0xFFFF, 0, 1, 0xFF00, 0x00FF, 3),
    ]:
        b1 = lt | cx << 3 | us << 4 | rs << 5
        b2 = aps | fb << 3
        raw = bytes([b1, b2, mac]) + le(man, 2) + bytes([buf]) + le(mi, 2) + le(sm, 2) + le(mo, 2) + bytes([cap])
        d = dict(logical_type=lt, complex_descriptor_available=cx, user_descriptor_available=us, reserved=rs, aps_flags=aps,
                 frequency_band=fb, mac_capability_flags=mac, manufacturer_code=man, maximum_buffer_size=buf,
                 maximum_incoming_transfer_size=mi, server_mask=sm, maximum_outgoing_transfer_size=mo,
                 descriptor_capability_field=cap)
        out.append((zdo_t.NodeDescriptor(**d), raw, d))
    return out


def power_desc():
    out = []
    for m, a, c, lvl in [(0, 1, 1, 12), (2, 6, 4, 0), (1, 15, 2, 8)]:
        d = dict(current_power_mode=m, available_power_sources=a, current_power_source=c, current_power_source_level=lvl)
        out.append((zdo_t.PowerDescriptor(**d), bytes([m | a << 4, c | lvl << 4]), d))
    return out


def simple_desc():
    out = []
    for ep, prof, dt, ver, ins, outs in [(1, 260, 0x0100, 1, [], []), (0xF2, 0xA1E0, 0x61, 0, [0x0021], []),
                                         (11, 0xC05E, 0xFFFF, 15, [0, 3, 0xFC01], [0x0019, 6])]:
        body = bytes([ep]) + le(prof, 2) + le(dt, 2) + bytes([ver, len(ins)]) + b"".join(le(c, 2) for c in ins) + bytes([len(outs)]) + b"".join(le(c, 2) for c in outs)
        d = dict(endpoint=ep, profile=prof, device_type=dt, device_version=ver, input_clusters=ins, output_clusters=outs)
        out.append((zdo_t.SizePrefixedSimpleDescriptor(**d), bytes([len(body)]) + body, d))
    return out


def multi_addr():
    out = []
    for g in (0x0000, 0x1234):
        d = dict(addrmode=1, nwk=g)
        out.append((zdo_t.MultiAddress(**d), b"\x01" + le(g, 2), d))
    for e, ep in ((EUIS[0], 1), (EUIS[2], 242)):
        a = zdo_t.MultiAddress(addrmode=3, ieee=t.EUI64(e), endpoint=ep)
        out.append((a, b"\x03" + e + bytes([ep]), dict(addrmode=3, ieee=list(e), endpoint=ep)))
    return out


def neighbor_items():
    out = []
    for ep, e, nwk, dt, rx, rel, r1, pj, r2, depth, lqi in [
        (EUIS[0], EUIS[2], 0x1234, 1, 1, 2, 0, 1, 0, 15, 255), (EUIS[2], EUIS[0], 0xFFFE, 2, 0, 1, 1, 2, 33, 0, 0),
        (EUIS[1], EUIS[1], 0, 0, 2, 4, 0, 0, 0, 1, 128),
    ]:
        raw = ep + e + le(nwk, 2) + bytes([dt | rx << 2 | rel << 4 | r1 << 7, pj | r2 << 2, depth, lqi])
        d = dict(extended_pan_id=list(ep), ieee=list(e), nwk=nwk, device_type=dt, rx_on_when_idle=rx, relationship=rel,
                 reserved1=r1, permit_joining=pj, reserved2=r2, depth=depth, lqi=lqi)
        kw = dict(d, extended_pan_id=t.EUI64(ep), ieee=t.EUI64(e))
        out.append((zdo_t.Neighbor(**kw), raw, d))
    return out


def route_items():
    out = []
    for dst, st, mc, mto, rr, res, nh in [(0x1234, 0, 0, 0, 0, 0, 0x4321), (0xFFFD, 3, 1, 0, 1, 2, 0), (0, 4, 0, 1, 0, 1, 0xA1B2)]:
        raw = le(dst, 2) + bytes([st | mc << 3 | mto << 4 | rr << 5 | res << 6]) + le(nh, 2)
        d = dict(DstNWK=dst, RouteStatus=st, MemoryConstrained=mc, ManyToOne=mto, RouteRecordRequired=rr, Reserved=res, NextHop=nh)
        out.append((zdo_t.Route(**d), raw, d))
    return out


def binding_items():
    out = []
    for (e, ep, c), (ma, mraw, mp) in zip([(EUIS[0], 1, 6), (EUIS[2], 242, 0xFC01), (EUIS[1], 2, 0x0300), (EUIS[0], 3, 8)], multi_addr()):
        b = zdo_t.Binding(SrcAddress=t.EUI64(e), SrcEndpoint=ep, ClusterId=c, DstAddress=ma)
        out.append((b, e + bytes([ep]) + le(c, 2) + mraw, dict(SrcAddress=list(e), SrcEndpoint=ep, ClusterId=c, DstAddress=mp)))
    return out


def table_rsp(cls, name, items):
    out = []
    for entries, start in ((0, 0), (3, 0), (5, 2)):
        for arg, raw, plain in lv(items):
            v = cls(**{"Entries": entries, "StartIndex": start, name: arg})
            out.append((v, bytes([entries, start]) + raw, {"Entries": entries, "StartIndex": start, name: plain}))
    return out


def nwk_update():
    out = []
    for ch in (0x07FFF800, 0x00008000):
        for dur in (0, 1, 5):
            for cnt in (0, 3):
                d = dict(ScanChannels=ch, ScanDuration=dur, ScanCount=cnt)
                out.append((zdo_t.NwkUpdate(**d), le(ch, 4) + bytes([dur, cnt]), d))
        d = dict(ScanChannels=ch, ScanDuration=6)
        out.append((zdo_t.NwkUpdate(**d), le(ch, 4) + b"\x06", d))
        for uid in (0, 255):
            d = dict(ScanChannels=ch, ScanDuration=0xFE, nwkUpdateId=uid)
            out.append((zdo_t.NwkUpdate(**d), le(ch, 4) + bytes([0xFE, uid]), d))
            d = dict(ScanChannels=ch, ScanDuration=0xFF, nwkUpdateId=uid, nwkManagerAddr=0x1234)
            out.append((zdo_t.NwkUpdate(**d), le(ch, 4) + bytes([0xFF, uid, 0x34, 0x12]), d))
    return out


FIXED16 = [(list(range(65, 81)), bytes(range(65, 81)), list(range(65, 81)))]


def opt(kind):
    """An optional trailing field: absent, or one of the kind's cases."""
    return ("opt", kind)


def layouts():
    E, S, N = eui(), STATUS, NWK
    lv8, lv16 = lv(ints(1, [1, 242, 3])), lv(ints(2, [0x0006, 0xFC01, 0x0300]))
    return {
        0x0000: ("NWK_addr_req", [E, REQTYPE, U8]),
        0x0001: ("IEEE_addr_req", [N, REQTYPE, U8]),
        0x0002: ("Node_Desc_req", [N]),
        0x0003: ("Power_Desc_req", [N]),
        0x0004: ("Simple_Desc_req", [N, U8]),
        0x0005: ("Active_EP_req", [N]),
        0x0006: ("Match_Desc_req", [N, U16, lv16, lv16]),
        0x0011: ("User_Desc_req", [N]),
        0x0012: ("Discovery_Cache_req", [N, E]),
        0x0013: ("Device_annce", [N, E, U8]),
        0x0014: ("User_Desc_set", [N, FIXED16]),
        0x0015: ("System_Server_Discovery_req", [U16]),
        0x0016: ("Discovery_store_req", [N, E, U8, U8, U8, lv8]),
        0x0017: ("Node_Desc_store_req", [N, E, node_desc()]),
        0x0019: ("Active_EP_store_req", [N, E, lv8]),
        0x001A: ("Simple_Desc_store_req", [N, E, simple_desc()]),
        0x001B: ("Remove_node_cache_req", [N, E]),
        0x001C: ("Find_node_cache_req", [N, E]),
        0x001D: ("Extended_Simple_Desc_req", [N, U8, U8]),
        0x001E: ("Extended_Active_EP_req", [N, U8]),
        0x001F: ("Parent_annce", [lv(E)]),
        0x0020: ("End_Device_Bind_req", [N, E, U8, U16, lv16, lv16]),
        0x0021: ("Bind_req", [E, U8, U16, multi_addr()]),
        0x0022: ("Unbind_req", [E, U8, U16, multi_addr()]),
        0x0031: ("Mgmt_Lqi_req", [U8]),
        0x0032: ("Mgmt_Rtg_req", [U8]),
        0x0033: ("Mgmt_Bind_req", [U8]),
        0x0034: ("Mgmt_Leave_req", [E, ints(1, [0, 0x40, 0x80, 0xC0])]),
        0x0036: ("Mgmt_Permit_Joining_req", [U8, BOOL]),
        0x0038: ("Mgmt_NWK_Update_req", [nwk_update()]),
        0x8000: ("NWK_addr_rsp", [S, E, N, opt(U8), opt(U8), opt(rest_list(N))]),
        0x8001: ("IEEE_addr_rsp", [S, E, N, opt(U8), opt(U8), opt(rest_list(N))]),
        0x8002: ("Node_Desc_rsp", [S, N, opt(node_desc())]),
        0x8003: ("Power_Desc_rsp", [S, N, opt(power_desc())]),
        0x8004: ("Simple_Desc_rsp", [S, N, opt(simple_desc())]),
        0x8005: ("Active_EP_rsp", [S, N, lv8]),
        0x8006: ("Match_Desc_rsp", [S, N, lv8]),
        0x8011: ("User_Desc_rsp", [S, N, U8, opt(FIXED16)]),
        0x8012: ("Discovery_Cache_rsp", [S]),
        0x8014: ("User_Desc_conf", [S, N]),
        0x8015: ("System_Server_Discovery_rsp", [S, U16]),
        0x8016: ("Discovery_Store_rsp", [S]),
        0x8017: ("Node_Desc_store_rsp", [S]),
        0x8019: ("Active_EP_store_rsp", [S]),
        0x801A: ("Simple_Desc_store_rsp", [S]),
        0x801B: ("Remove_node_cache_rsp", [S]),
        0x801C: ("Find_node_cache_rsp", [N, N, E]),
        0x801D: ("Extended_Simple_Desc_rsp", [S, N, U8, U8, U8, U8, opt(rest_list(U16))]),
        0x801E: ("Extended_Active_EP_rsp", [S, N, U8, U8, rest_list(U8)]),
        0x801F: ("Parent_annce_rsp", [S, lv(E)]),
        0x8020: ("End_Device_Bind_rsp", [S]),
        0x8021: ("Bind_rsp", [S]),
        0x8022: ("Unbind_rsp", [S]),
        0x8031: ("Mgmt_Lqi_rsp", [S, opt(table_rsp(zdo_t.Neighbors, "NeighborTableList", neighbor_items()))]),
        0x8032: ("Mgmt_Rtg_rsp", [S, opt(table_rsp(zdo_t.Routes, "RoutingTableList", route_items()))]),
        0x8033: ("Mgmt_Bind_rsp", [S, U8, U8, lv(binding_items(), (0, 1, 2, 4))]),
        0x8034: ("Mgmt_Leave_rsp", [S]),
        0x8036: ("Mgmt_Permit_Joining_rsp", [S]),
        0x8038: ("Mgmt_NWK_Update_rsp", [S, CHANNELS, U16, U16, lv8]),
    }


UNCLAIMED = {0x8018}  # Power_Desc_store_rsp: layout not attested


def scenarios(tier, seed):
    ids = sorted(layouts())
    return [dict(fn="commands", kind="bulk", args=dict(ids=ids[i::16], full=tier == "thorough")) for i in range(16)] + [
        dict(fn="ids", kind="bulk", args={}), dict(fn="values", kind="bulk", args={}),
    ]


def plain(v):
    if v is None:
        return None
    if isinstance(v, t.Struct):
        return {k: plain(x) for k, x in v.as_dict().items() if x is not None}
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, (list, tuple, bytes)):
        return [plain(x) for x in v]
    return repr(v)


def product(fields, full):
    """Field value combinations: complete for the product up to the cap, otherwise all pairs."""
    doms = []
    for f in fields:
        doms.append(f[1] if isinstance(f, tuple) else f)
    size = 1
    for d in doms:
        size *= len(d)
    if size <= (200_000 if full else 3000):
        yield from itertools.product(*doms)
        return
    seen = set()
    for i, j in itertools.combinations(range(len(doms)), 2):
        for a in range(len(doms[i])):
            for b in range(len(doms[j])):
                for base in range(2):
                    c = [min(base, len(d) - 1) for d in doms]
                    c[i], c[j] = a, b
                    if tuple(c) not in seen:
                        seen.add(tuple(c))
                        yield tuple(d[k] for d, k in zip(doms, c))


def commands(st, ids, full):
    L = layouts()
    with LoopCtx() as loop:
        app = make_app()
        dev = add_device(app, 1)
        zdo = dev.zdo
        for cid in ids:
            name, fields = L[cid]
            require(ZDOCmd[name] == cid and ZDOCmd(cid).name == name, f"{name} is not command {cid:#06x}", key="command-id")
            optional = [isinstance(f, tuple) for f in fields]
            first_opt = optional.index(True) if True in optional else len(fields)
            seen = set()
            for vals in product(fields, full):
                for n in range(first_opt, len(fields) + 1):
                    part = vals[:n]
                    raw = b"".join(v[1] for v in part)
                    if (n, raw) in seen:
                        continue
                    seen.add((n, raw))
                    one(st, loop, app, dev, cid, name, part, len(fields), raw, request=len(seen) <= 40)
                    # truncations of the complete frame
                    if n == len(fields) and len(seen) <= 400:
                        truncations(st, zdo, cid, name, vals, optional, first_opt)
            if cid == 0x8004:
                _, args = zdo.deserialize(cid, b"\x01\x82\x34\x12\x00")
                require([plain(a) for a in args] == [0x82, 0x1234, None], f"empty simple descriptor: {args}", key=f"decode:{name}")
            st.outcomes.add((cid, len(seen)))


def one(st, loop, app, dev, cid, name, part, total, raw, request):
    zdo = dev.zdo
    st.executions += 1
    for tsn in (0x00, 0xA5):
        hdr, args = zdo.deserialize(cid, bytes([tsn]) + raw)
        require(hdr.tsn == tsn and hdr.command_id == cid and hdr.is_reply == (cid >= 0x8000),
                f"{name}: header of {raw.hex()} is {hdr.tsn}, {hdr.command_id}, {hdr.is_reply}", key="header")
        require(hdr.serialize() == bytes([tsn]), "ZDO header encoding", key="header")
    got = [plain(a) for a in args]
    want = [v[2] for v in part] + [None] * (total - len(part))
    # an absent optional list may decode as absent or empty
    norm = [None if w is None and g == [] else g for g, w in zip(got, want)] + got[len(want):]
    require(norm == want, f"{name}: {raw.hex()} decodes to {got}, expected {want}", key=f"decode:{name}")
    if request:
        app.sent.clear()
        kw = {"expect_reply": False} if cid < 0x8000 else {}
        before = dev.nwk
        loop.run(getattr(zdo, name)(*[v[0] for v in part], **kw))
        require(len(app.sent) == 1, f"{name}: {len(app.sent)} packets sent", key="send")
        p = app.sent[0]
        data = p.data.serialize()
        require((p.cluster_id, p.profile_id, p.src_ep, p.dst_ep, p.dst.address) == (cid, 0, 0, 0, before), f"{name}: sent as {p}", key="send")
        require(data == bytes([p.tsn]) + raw, f"{name}: {[v[2] for v in part]} encodes to {data[1:].hex()}, expected {raw.hex()}", key=f"encode:{name}")
        # the fields given by name, in any order, encode to the same bytes
        names = NAMES[hex(cid)]
        for order in ([*range(len(part))], [*range(len(part))][::-1]):
            app.sent.clear()
            if part:
                loop.run(broadcast(app, ZDOCmd(cid), 0x0000, 0, **{names[i]: part[i][0] for i in order}))
            else:
                continue
            data = app.sent[0].data.serialize()
            require(data[1:] == raw, f"{name}: {[(names[i], part[i][2]) for i in order]} encodes to {data[1:].hex()}, expected {raw.hex()}", key=f"names:{name}")
        # what was decoded encodes to the same bytes again
        app.sent.clear()
        loop.run(getattr(zdo, name)(*[a for a in args[: len(part)]], **kw))
        data = app.sent[0].data.serialize()
        require(data[1:] == raw, f"{name}: decoding and encoding {raw.hex()} gives {data[1:].hex()}", key=f"reencode:{name}")


def truncations(st, zdo, cid, name, vals, optional, first_opt):
    raw = b"".join(v[1] for v in vals)
    ends = []
    p = 0
    for v in vals:
        p += len(v[1])
        ends.append(p)
    mandatory = ends[first_opt - 1] if first_opt else 0
    listrest = name == "Extended_Active_EP_rsp"
    for n in range(len(raw)):
        st.executions += 1
        try:
            _, args = zdo.deserialize(cid, b"\x07" + raw[:n])
        except ValueError:
            if n >= mandatory and not listrest:
                require(False, f"{name}: {raw[:n].hex()} (only optional fields cut) is refused", key=f"optional:{name}")
            continue
        if name == "Simple_Desc_store_req" and n == ends[1]:
            # a size-prefixed descriptor may be absent altogether
            require(args[2] is None, f"{name}: {raw[:n].hex()} decodes to {args}", key=f"truncated:{name}")
            continue
        if n < mandatory and not (listrest and n >= ends[-2]):
            require(False, f"{name}: truncated {raw[:n].hex()} of {raw.hex()} is accepted as {args}", key=f"truncated:{name}")
        if listrest:
            continue
        got = [plain(a) for a in args]
        want = []
        for i, v in enumerate(vals):
            if ends[i] <= n:
                want.append(v[2])
            else:
                want.append(None)
        for i, (g, w) in enumerate(zip(got, want)):
            if w is None and isinstance(vals[i][2], list):
                # the tail list: entries that fit, or absent
                require(g is None or g == vals[i][2][: len(g)], f"{name}: {raw[:n].hex()} field {i} is {g}", key=f"optional:{name}")
            else:
                require(g == w or (w == [] and g is None), f"{name}: {raw[:n].hex()} field {i} is {g}, expected {w}", key=f"optional:{name}")
    for n in range(1):
        try:
            zdo.deserialize(cid, b"")
        except ValueError:
            pass
        else:
            require(False, f"{name}: an empty frame is accepted", key="header")


def ids(st):
    known = set(layouts()) | UNCLAIMED
    with LoopCtx():
        app = make_app()
        dev = add_device(app, 1)
        for cid in range(0x10000):
            if cid in known:
                continue
            st.executions += 1
            try:
                r = dev.zdo.deserialize(cid, b"\x01" + bytes(30))
            except ValueError:
                continue
            # unknown but defined commands may be added; they must at least be named
            require(cid in list(ZDOCmd), f"unknown ZDO command {cid:#06x} decodes to {r}", key="unknown")
        for name in ("Nope_req", "nwk_addr_req", "Mgmt_Foo_rsp"):
            try:
                getattr(dev.zdo, name)
            except AttributeError:
                pass
            else:
                require(False, f"ZDO.{name} exists", key="unknown")
    st.outcomes.update(known)


def values(st):
    """Every status byte; every byte of the bit-packed descriptors; every invalid address mode."""
    with LoopCtx():
        app = make_app()
        zdo = add_device(app, 1).zdo
        for s in range(256):
            _, args = zdo.deserialize(0x8034, bytes([1, s]))
            require(args[0] == s and zdo_t.Status(s).serialize() == bytes([s]), f"status {s:#04x} decodes to {args}", key="status")
            st.executions += 1
            st.outcomes.add(("status", int(args[0])))
        names = {0x00: "SUCCESS", 0x80: "INV_REQUESTTYPE", 0x81: "DEVICE_NOT_FOUND", 0x82: "INVALID_EP", 0x83: "NOT_ACTIVE",
                 0x84: "NOT_SUPPORTED", 0x85: "TIMEOUT", 0x86: "NO_MATCH", 0x88: "NO_ENTRY", 0x89: "NO_DESCRIPTOR",
                 0x8A: "INSUFFICIENT_SPACE", 0x8B: "NOT_PERMITTED", 0x8C: "TABLE_FULL", 0x8D: "NOT_AUTHORIZED"}
        for v, n in names.items():
            require(zdo_t.Status(v).name == n, f"status {v:#x} is {zdo_t.Status(v).name}", key="status")
        base = node_desc()[0][1]
        for b1 in range(256):
            for b2 in range(256):
                if b1 % 16 and b2 % 16 and (b1 + b2) % 7:
                    continue
                raw = bytes([b1, b2]) + base[2:]
                d, rest = zdo_t.NodeDescriptor.deserialize(raw + b"z")
                require(rest == b"z" and (int(d.logical_type), int(d.complex_descriptor_available), int(d.user_descriptor_available),
                        int(d.aps_flags), int(d.frequency_band)) == (b1 & 7, b1 >> 3 & 1, b1 >> 4 & 1, b2 & 7, b2 >> 3),
                        f"node descriptor {raw.hex()} decodes to {d}", key="node-desc")
                require(d.serialize() == raw, f"node descriptor {raw.hex()} re-encodes to {d.serialize().hex()}", key="node-desc")
                require((d.is_coordinator, d.is_router, d.is_end_device) == (b1 & 7 == 0, b1 & 7 == 1, b1 & 7 == 2), "logical type", key="node-desc")
                st.executions += 1
        for mac in range(256):
            raw = base[:2] + bytes([mac]) + base[3:]
            d, _ = zdo_t.NodeDescriptor.deserialize(raw)
            got = (d.is_alternate_pan_coordinator, d.is_full_function_device, d.is_mains_powered, d.is_receiver_on_when_idle,
                   d.is_security_capable, d.allocate_address)
            want = tuple(bool(mac & m) for m in (1, 2, 4, 8, 0x40, 0x80))
            require(got == want and d.serialize() == raw, f"MAC capabilities {mac:#04x} are {got}", key="node-desc")
            st.executions += 1
        for m in range(256):
            raw = bytes([m]) + bytes(range(1, 10))
            try:
                a, rest = zdo_t.MultiAddress.deserialize(raw)
            except ValueError:
                require(m not in (1, 3), f"address mode {m} refused", key="multi-addr")
                continue
            finally:
                st.executions += 1
            require(m in (1, 3) and len(rest) == (7 if m == 1 else 0), f"address mode {m} decodes to {a}", key="multi-addr")
        for dur in range(256):
            raw = le(0x07FFF800, 4) + bytes([dur, 7, 0x34, 0x12])
            u, rest = zdo_t.NwkUpdate.deserialize(raw)
            want = (7 if dur <= 5 else None, 7 if dur in (0xFE, 0xFF) else None, 0x1234 if dur == 0xFF else None)
            got = tuple(None if x is None else int(x) for x in (u.ScanCount, u.nwkUpdateId, u.nwkManagerAddr))
            n = 5 + (want[0] is not None or want[1] is not None) + 2 * (want[2] is not None)
            require(got == want and rest == raw[n:] and u.serialize() == raw[:n], f"network update {dur:#x}: {got}", key="nwk-update")
            st.executions += 1
