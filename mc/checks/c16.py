"""C16: network backups through both document formats."""
from __future__ import annotations

import copy
import itertools
import json
from datetime import datetime, timedelta, timezone

import zigpy.backups
import zigpy.state as zs
import zigpy.types as t
import zigpy.zdo.types as zdo_t

from ..explore import Violation, require

LEVEL = "exploration"
RULE = ("bounded exhaustive enumeration: every combination of the values of every three fields, around three base backups, through both document formats and JSON text; every required part "
        "removed or malformed")
ASSUMPTIONS = ["the order of keys, children and addresses is not significant", "every partner has one link key"]


def eui(*b):
    return t.EUI64.deserialize(bytes(b))[0]


A, B, C = eui(1, 2, 3, 4, 5, 6, 7, 8), eui(0xF8, 7, 0, 0, 0xAB, 0xCD, 0xEF, 0x10), eui(9, 2, 3, 4, 5, 6, 7, 8)
K1 = t.KeyData(bytes(range(16)))
K2 = t.KeyData(bytes(range(0xF0, 0x100)))
K3 = t.KeyData(bytes([0x5A] * 15 + [1]))


def key(k, tx, rx, seq, who):
    return zs.Key(key=k, tx_counter=t.uint32_t(tx), rx_counter=t.uint32_t(rx), seq=t.uint8_t(seq), partner_ieee=who)


UTC = timezone.utc
DOMAIN = {
    "time": (datetime(2024, 5, 6, 7, 8, 9, tzinfo=UTC), datetime(1999, 12, 31, 23, 59, 59, 123456, tzinfo=UTC), datetime(2030, 1, 1, tzinfo=timezone(timedelta(hours=-5, minutes=-30)))),
    "node.nwk": (t.NWK(0), t.NWK(0x12AB), t.NWK(0x000F)),
    "node.ieee": (A, B, C),
    "node.logical_type": (zdo_t.LogicalType.Coordinator, zdo_t.LogicalType.Router, zdo_t.LogicalType.EndDevice),
    "node.model": (None, "Stick é", ""),
    "node.manufacturer": ("Acme", None, "x y"),
    "node.version": ("1.2.3 build 4", None, "0"),
    "net.extended_pan_id": (t.ExtendedPanId(B), t.ExtendedPanId(A), t.ExtendedPanId.deserialize(bytes(7) + b"\x01")[0]),
    "net.pan_id": (t.PanId(0x1A2B), t.PanId(0x0001), t.PanId(0xFF00)),
    "net.nwk_update_id": (t.uint8_t(0), t.uint8_t(1), t.uint8_t(255)),
    "net.nwk_manager_id": (t.NWK(0), t.NWK(0x1234), t.NWK(0xFF00)),
    "net.channel": (t.uint8_t(11), t.uint8_t(26), t.uint8_t(15)),
    "net.channel_mask": (t.Channels.ALL_CHANNELS, t.Channels.from_channel_list([15]), t.Channels.from_channel_list([11, 20, 26])),
    "net.security_level": (t.uint8_t(5), t.uint8_t(0), t.uint8_t(7)),
    "net.network_key": (key(K1, 12345, 0, 0, t.EUI64.UNKNOWN), key(K2, 0xFFFFFFFF, 0, 255, t.EUI64.UNKNOWN), key(K3, 0, 0, 1, t.EUI64.UNKNOWN)),
    "net.tc_link_key": (key(t.KeyData(b"ZigBeeAlliance09"), 0, 0, 0, A), key(K2, 7, 0, 0, B), key(K1, 0xFFFFFFFF, 0, 0, C)),
    "net.key_table": ((), ((K1, 1, 2, 3, B),), ((K2, 0xFFFFFFFF, 0, 255, C), (K1, 0, 0xFFFFFFFE, 0, A), (K3, 5, 6, 7, B))),
    "net.children": ((), (B,), (C, A, B)),
    "net.nwk_addresses": ((), ((A, 0x1234),), ((B, 0x00FF), (A, 0xFF00), (C, 0x0001))),
    "net.stack_specific": ({}, {"zstack": {"tclk_seed": "00112233"}}, {"ezsp": {"hashed_tclk": "ff" * 16, "n": [1, None, 2.5]}}),
    "net.metadata": ({}, {"zstack": {"version": 3}}, {"ezsp": {"stack": "7.4"}, "flag": True}),
    "net.source": ("zigpy-znp@1.0", "other", ""),
}
NAMES = tuple(DOMAIN)
# what the open format has no place for
OWN_ONLY = {"net.network_key.rx": (9, 0xFFFFFFFF), "net.network_key.partner": (A, B), "net.tc_link_key.rx": (1, 2), "net.tc_link_key.seq": (3, 4)}


def scenarios(tier, seed):
    n = 24
    t_ = 4 if tier == "thorough" else 3
    out = [dict(fn="combos", kind="bulk", args=dict(part=i, parts=n, t=t_)) for i in range(n)]
    out += [dict(fn="refusals", kind="bulk", args={}), dict(fn="own_only", kind="bulk", args={}), dict(fn="devices", kind="bulk", args={}), dict(fn="foreign", kind="bulk", args={})]
    return out


def build(choice):
    v = {n: DOMAIN[n][c] for n, c in zip(NAMES, choice)}
    node = zs.NodeInfo(**{n[5:]: x for n, x in v.items() if n.startswith("node.")})
    kw = {n[4:]: copy.deepcopy(x) for n, x in v.items() if n.startswith("net.")}
    kw["key_table"] = [key(*k) for k in kw["key_table"]]
    kw["children"] = list(kw["children"])
    kw["nwk_addresses"] = {a: t.NWK(n) for a, n in kw["nwk_addresses"]}
    return zigpy.backups.NetworkBackup(backup_time=v["time"], node_info=node, network_info=zs.NetworkInfo(**kw))


def facts(b, own):
    """Everything a format carries, independent of object identity and order."""
    n, w = b.node_info, b.network_info

    def k(x, full=True):
        r = (x.key.serialize(), int(x.tx_counter), int(x.seq), x.partner_ieee.serialize())
        return r + ((int(x.rx_counter),) if full else ())

    nk, tk = w.network_key, w.tc_link_key
    f = dict(
        time=b.backup_time, nwk=int(n.nwk), ieee=n.ieee.serialize(), type=n.logical_type, model=n.model, manufacturer=n.manufacturer, version=n.version,
        epid=w.extended_pan_id.serialize(), pan=int(w.pan_id), update=int(w.nwk_update_id), manager=int(w.nwk_manager_id), channel=int(w.channel),
        mask=int(w.channel_mask), level=int(w.security_level),
        network_key=k(nk) if own else (nk.key.serialize(), int(nk.tx_counter), int(nk.seq)),
        tc_link_key=k(tk) if own else (tk.key.serialize(), int(tk.tx_counter), tk.partner_ieee.serialize()),
        keys=sorted(k(x) for x in w.key_table), children=sorted(x.serialize() for x in w.children),
        addresses=sorted((a.serialize(), int(x)) for a, x in w.nwk_addresses.items()),
        stack=w.stack_specific, metadata=w.metadata, source=w.source,
    )
    return f


def normal(doc):
    doc = json.loads(json.dumps(doc))
    if "network_info" in doc:
        doc["network_info"]["key_table"].sort(key=lambda x: x["partner_ieee"])
    return doc


def compare(a, b, own, what):
    x, y = facts(a, own), facts(b, own)
    for n in x:
        require(x[n] == y[n], f"{what}: {n} was {x[n]!r} and is {y[n]!r}", key=f"changed-{n}", data=dict(what=what))


def through(b, own, what):
    before = facts(b, True)
    doc = b.as_dict() if own else b.as_open_coordinator_json()
    text = json.dumps(doc)
    loaded = json.loads(text)
    kept = copy.deepcopy(loaded)
    back = zigpy.backups.NetworkBackup.from_dict(loaded)
    require(loaded == kept, f"{what}: importing changed the document", key="document-changed")
    compare(b, back, own, what)
    again = normal(back.as_dict() if own else back.as_open_coordinator_json())
    require(again == normal(doc), f"{what}: exporting again gives another document: {[(k, again.get(k), normal(doc).get(k)) for k in set(again) | set(doc) if again.get(k) != normal(doc).get(k)]}",
            key="document")
    require(facts(b, True) == before, f"{what}: exporting changed the backup", key="backup-changed")
    if not own:
        layout(b, kept)
        require(facts(zigpy.backups.NetworkBackup.from_open_coordinator_json(kept), False) == facts(back, False), "two imports differ", key="import")
    return back


def layout(b, d):
    """The open coordinator backup format: identifiers in big endian hexadecimal, keys as they are."""
    be = lambda x: x.serialize()[::-1].hex()
    n, w = b.node_info, b.network_info
    want = {"coordinator_ieee": be(n.ieee), "pan_id": f"{int(w.pan_id):04x}", "extended_pan_id": be(w.extended_pan_id), "nwk_update_id": int(w.nwk_update_id),
            "security_level": int(w.security_level), "channel": int(w.channel), "channel_mask": [c for c in range(11, 27) if int(w.channel_mask) >> c & 1],
            "network_key": {"key": w.network_key.key.serialize().hex(), "sequence_number": int(w.network_key.seq), "frame_counter": int(w.network_key.tx_counter)}}
    for k, v in want.items():
        require(d[k] == v, f"exported {k} is {d[k]!r}, expected {v!r}", key=f"layout-{k}")
    m = d["metadata"]
    require(m["format"] == "zigpy/open-coordinator-backup" and m["version"] == 1 and m["source"] == w.source, "metadata", key="layout-metadata")
    i = m["internal"]
    require(i["node"]["ieee"] == be(n.ieee) and i["node"]["nwk"] == f"{int(n.nwk):04x}" and i["network"]["nwk_manager"] == f"{int(w.nwk_manager_id):04x}", "internal metadata", key="layout-internal")
    devs = {x["ieee_address"]: x for x in d["devices"]}
    require(len(devs) == len(d["devices"]), "a device is listed twice", key="layout-devices")
    for a, nwk in w.nwk_addresses.items():
        require(devs[be(a)]["nwk_address"] == f"{int(nwk):04x}", "device address", key="layout-devices")
    for k in w.key_table:
        x = devs[be(k.partner_ieee)]["link_key"]
        require(x == {"key": k.key.serialize().hex(), "rx_counter": int(k.rx_counter), "tx_counter": int(k.tx_counter)}, f"link key {x}", key="layout-keys")
    require({a for a, x in devs.items() if x["is_child"]} == {be(c) for c in w.children}, "children", key="layout-children")


BASES = [(0,) * len(NAMES), (1,) * len(NAMES), (2,) * len(NAMES)]


def combos(st, part, parts, t):
    seen = set()
    for i, fields in enumerate(itertools.combinations(range(len(NAMES)), t)):
        if i % parts != part:
            continue
        for base in BASES if t == 3 else BASES[1:2]:
            for values in itertools.product(range(3), repeat=t):
                choice = list(base)
                for f, v in zip(fields, values):
                    choice[f] = v
                choice = tuple(choice)
                if choice in seen:
                    continue
                seen.add(choice)
                b = build(choice)
                through(b, True, f"own format, {choice}")
                through(b, False, f"open format, {choice}")
                st.executions += 2
                st.outcomes.add(hash(choice))


def own_only(st):
    for base in BASES:
        for combo in itertools.product(*OWN_ONLY.values()):
            b = build(base)
            w = b.network_info
            w.network_key.rx_counter, w.network_key.partner_ieee, w.tc_link_key.rx_counter, w.tc_link_key.seq = combo
            through(b, True, f"own format, {combo}")
            st.executions += 1
            st.outcomes.add(hash((base, combo)))
            # one format into the other
            doc = zigpy.backups.NetworkBackup.from_dict(json.loads(json.dumps(b.as_dict()))).as_open_coordinator_json()
            require(normal(doc) == normal(b.as_open_coordinator_json()), "a backup from its own format exports differently", key="cross")


def devices(st):
    """Every way in which up to three devices are children, have an address or a key."""
    for kinds in itertools.product(range(8), repeat=3):
        b = build(BASES[0])
        w = b.network_info
        for a, k in zip((A, B, C), kinds):
            if k & 1:
                w.children.append(a)
            if k & 2:
                w.nwk_addresses[a] = t.NWK(0x1000 + a[0])
            if k & 4:
                w.key_table.append(key(K1, a[0], 1000 + a[0], a[1], a))
        for own in (True, False):
            through(b, own, f"devices {kinds}")
            st.executions += 1
        st.outcomes.add(hash(kinds))


def foreign(st):
    """Documents of other programs: optional parts are absent."""
    b = build(BASES[1])
    full = json.loads(json.dumps(b.as_open_coordinator_json()))
    for drop in itertools.product((False, True), repeat=7):
        d = copy.deepcopy(full)
        want = facts(b, False)
        m = d["metadata"]
        if drop[0]:
            del m["internal"]["node"]
            want.update(nwk=0, type=zdo_t.LogicalType.Coordinator, model=None, manufacturer=None, version=None)
        if drop[1]:
            del m["internal"]["network"]
            want.update(manager=0, tc_link_key=(b"ZigBeeAlliance09", 0, want["ieee"]))
        if drop[2]:
            m["internal"].pop("link_key_seqs")
            want["keys"] = sorted((k, tx, 0, p, rx) for k, tx, s, p, rx in want["keys"])
        if drop[3]:
            del m["internal"]["creation_time"]
            want["time"] = datetime(1970, 1, 1, tzinfo=UTC)
        if drop[4]:
            d.pop("stack_specific")
            want["stack"] = {}
        if drop[5]:
            for x in d["devices"]:
                del x["is_child"]
            want["children"] = sorted(bytes.fromhex(x["ieee_address"])[::-1] for x in d["devices"])
        if drop[6]:
            m["internal"]["date"] = "2021-02-03T04:05:06.789Z"
            want["time"] = datetime(2021, 2, 3, 4, 5, 6, 789000, tzinfo=UTC)
            want["metadata"] = dict(want["metadata"], date="2021-02-03T04:05:06.789Z")
        got = facts(zigpy.backups.NetworkBackup.from_dict(d), False)
        for n in want:
            require(got[n] == want[n], f"importing a document without {drop}: {n} is {got[n]!r}, expected {want[n]!r}", key=f"foreign-{n}")
        back = zigpy.backups.NetworkBackup.from_dict(d)
        compare(back, zigpy.backups.NetworkBackup.from_dict(json.loads(json.dumps(back.as_open_coordinator_json()))), False, f"foreign {drop}")
        st.executions += 1
        st.outcomes.add(hash(drop))
    # version 0 of the own format has no model, manufacturer and version
    for base in BASES:
        b = build(base)
        d = json.loads(json.dumps(b.as_dict()))
        del d["version"]
        for k in ("model", "manufacturer", "version"):
            del d["node_info"][k]
        b.node_info.model = b.node_info.manufacturer = b.node_info.version = None
        compare(b, zigpy.backups.NetworkBackup.from_dict(d), True, "version 0")
        st.executions += 1


BAD_HEX = ("", "0", "00", "zz", [], 5)
REQ_OWN = [("backup_time",), ("node_info",), ("network_info",)]
REQ_OWN += [("node_info", k) for k in ("nwk", "ieee", "logical_type", "model", "manufacturer", "version")]
REQ_OWN += [("network_info", k) for k in ("extended_pan_id", "pan_id", "nwk_update_id", "nwk_manager_id", "channel", "channel_mask", "security_level", "network_key", "tc_link_key", "key_table",
                                           "children", "nwk_addresses", "stack_specific", "metadata", "source")]
REQ_OWN += [("network_info", a, k) for a in ("network_key", "tc_link_key") for k in ("key", "tx_counter", "rx_counter", "seq", "partner_ieee")]
REQ_OWN += [("network_info", "key_table", 0, k) for k in ("key", "tx_counter", "rx_counter", "seq", "partner_ieee")]
REQ_OPEN = [("metadata",), ("metadata", "source"), ("coordinator_ieee",), ("pan_id",), ("extended_pan_id",), ("nwk_update_id",), ("security_level",), ("channel",), ("channel_mask",),
            ("network_key",), ("network_key", "key"), ("network_key", "sequence_number"), ("network_key", "frame_counter"), ("devices",), ("devices", 0, "ieee_address"),
            ("devices", 0, "nwk_address"), ("devices", 0, "link_key", "key"), ("devices", 0, "link_key", "tx_counter"), ("devices", 0, "link_key", "rx_counter")]
HEX_OWN = [("node_info", "ieee"), ("network_info", "extended_pan_id"), ("network_info", "network_key", "key"), ("network_info", "tc_link_key", "key"),
           ("network_info", "tc_link_key", "partner_ieee"), ("network_info", "key_table", 0, "key"), ("network_info", "key_table", 0, "partner_ieee"), ("network_info", "children", 0)]
HEX_OPEN = [("coordinator_ieee",), ("pan_id",), ("extended_pan_id",), ("network_key", "key"), ("devices", 0, "ieee_address"), ("devices", 0, "link_key", "key")]


def at(d, path):
    for p in path:
        d = d[p]
    return d


def refusals(st):
    choice = list(BASES[1])
    b = build(choice)
    docs = [(b.as_dict(), REQ_OWN, HEX_OWN, "own"), (b.as_open_coordinator_json(), REQ_OPEN, HEX_OPEN, "open")]
    for doc, req, hexes, name in docs:
        doc = json.loads(json.dumps(doc))
        if name == "open":
            doc["devices"].sort(key=lambda x: "link_key" not in x)
        zigpy.backups.NetworkBackup.from_dict(doc)
        for path in req:
            d = copy.deepcopy(doc)
            del at(d, path[:-1])[path[-1]]
            refuse(st, d, f"{name} format without {'.'.join(map(str, path))}")
        for path in hexes:
            good = at(doc, path)
            bads = [x for x in BAD_HEX] + [good[:-2], "g" + good[1:]]
            if name == "open":
                bads += [good[:n] for n in range(len(good))]
            for bad in bads:
                d = copy.deepcopy(doc)
                at(d, path[:-1])[path[-1]] = bad
                refuse(st, d, f"{name} format with {'.'.join(map(str, path))} = {bad!r}")
        for mask in ([10], [27], [11, 99], ["x"], 5, None):
            d = copy.deepcopy(doc)
            (d["network_info"] if name == "own" else d)["channel_mask"] = mask
            refuse(st, d, f"{name} format with channel mask {mask!r}")
    own = json.loads(json.dumps(b.as_dict()))
    for v in (2, -1, "1", None):
        refuse(st, dict(own, version=v), f"own format version {v!r}")
    for bad in ("no time", "", 5, None, "2024-13-01T00:00:00+00:00"):
        refuse(st, dict(own, backup_time=bad), f"backup time {bad!r}")
    for bad in ("leader", "", None, 0):
        d = copy.deepcopy(own)
        d["node_info"]["logical_type"] = bad
        refuse(st, d, f"logical type {bad!r}")
    for d in ({}, {"network": 1}, {"version": 1}, []):
        refuse(st, d, f"{d!r}")


def refuse(st, d, what):
    st.executions += 1
    st.outcomes.add(hash(what))
    try:
        r = zigpy.backups.NetworkBackup.from_dict(d)
    except Exception:
        return
    raise Violation(f"{what}: accepted as {r}", key="accepted")
