"""C04: every history of changes, closed and reopened, against the running application."""
from __future__ import annotations

import struct

import zigpy.backups
import zigpy.quirks
import zigpy.state
import zigpy.types as t
import zigpy.zdo.types as zdo_t
from zigpy.endpoint import Status
from zigpy.quirks import CustomCluster, CustomDevice
from zigpy.zcl.clusters.general import Basic, Groups, OnOff

from .. import db
from ..clock import CLOCK
from ..explore import require
from ..loop import LoopCtx
from ..world import COORD_IEEE, FakeApp, add_device, base_config, fill_device, ieee, packet, zcl

LEVEL = "model_checking"
VALIDATED = "the real application and the real SQLite database are explored; the oracle is the running application itself, compared after every history"
ASSUMPTIONS = ["the database calls of one connection run in order, one at a time (what aiosqlite's thread does)",
               "time stamps may lag behind by the 30 s for which zigpy does not rewrite them",
               "a device replaced by a definition starts with empty caches in memory while the database keeps what it said before: it reports those again",
               "attribute values that SQLite cannot hold (arrays and structures) are not compared"]

SIG = {1: (260, 0x0100, (0, 4, 6), (0x19, 6)), 3: (0xC05E, 0x0210, (0, 6, 0x300), ()), 242: (0xA1E0, 0x61, (), (0x21,))}
QSIG = {1: (260, 0x0402, (0, 6), ())}


class MyOnOff(CustomCluster, OnOff):
    pass


def quirk():
    class Quirk(CustomDevice):
        signature = {
            "models_info": [("Acme", "quirky")],
            "endpoints": {1: {"profile_id": 260, "device_type": 0x0402, "input_clusters": [0, 6], "output_clusters": []}},
        }
        replacement = {"endpoints": {1: {"profile_id": 260, "device_type": 0x0000, "input_clusters": [0, MyOnOff, 0x500], "output_clusters": [5]},
                                     2: {"profile_id": 260, "device_type": 0x0001, "input_clusters": [6], "output_clusters": []}}}

    return Quirk


quirk()  # definitions register themselves


# attribute reports: (endpoint, cluster, attribute, type, bytes)
REPORTS = {
    "rep-on": (1, 6, 0x0000, 0x10, b"\x01"),
    "rep-off": (1, 6, 0x0000, 0x10, b"\x00"),
    "rep-neg": (1, 6, 0x4567, 0x29, b"\xfe\xff"),
    "rep-str": (1, 0, 0x4000, 0x42, b"\x03a\xc3\xa9"),
    "rep-bytes": (1, 6, 0x4568, 0x41, b"\x02\x00\xff"),
    "rep-enum": (1, 0, 0x0007, 0x30, b"\x83"),
    "rep-float": (1, 6, 0x4569, 0x39, struct.pack("<f", 1.5)),
    "rep-ieee": (1, 6, 0x456A, 0xF0, ieee(77).serialize()),
    "rep-bitmap": (3, 0x300, 0x400A, 0x19, b"\x09\x00"),
    "rep-u64": (1, 6, 0x456B, 0x27, b"\xff" * 7 + b"\x7f"),
}
ATTRS = sorted({(e, c, a) for e, c, a, _, _ in REPORTS.values()} | {(1, 0, 4), (1, 0, 5), (2, 6, 0), (1, 6, 0x4001), (3, 0x300, 7), (1, 0x500, 2)}
               | {(e, c, 7) for e in (1, 3) for c in (0, 6)})

LIFE = ["init", "init-quirk", "move", "remove", "rejoin", "wait", "report", "init2"]
ATTR = [*REPORTS, "clear", "unsup", "unsup-name", "sup", "wait"]
GROUP = ["group", "group-name", "group-pop", "member", "member3", "unmember", "remove", "init2", "member-b"]
NET = ["relays", "relays2", "relays-empty", "relays-none", "neighbors", "neighbors-few", "neighbors-none", "routes", "routes-none", "backup", "backup-newer", "backup-other", "remove"]
CROSS = ["init-quirk", "rep-on", "rep-quirk", "unsup", "unsup-gone", "sup", "group", "member", "relays", "neighbors", "routes", "move", "remove", "rejoin", "reinit",
         "wait", "backup", "two-backups", "clear", "group-pop"]
# what a second interview finds may have changed
AGAIN = ["reinit", "reinit-desc", "reinit-ep", "reinit-clusters", "rep-on", "unsup", "member", "wait"]
# the same cluster, attribute and group in every place that has it
WHERE = [(n, e, kind, c) for n in (1, 2) for e, kind, c in ((1, "in", 6), (1, "out", 6), (3, "in", 6), (1, "in", 0), (3, "in", 0))]
SAME = ["all-cached", "all-unsup", *[f"{what}-{i}" for what in ("clear", "sup") for i in (0, 1, 2, 3, 5)], "set-1", "unsup-1", "all-members", "unmember", "remove"]


def scenarios(tier, seed):
    full = tier == "thorough"
    out = []

    def add(ops, depth, start):
        for first in ops:
            out.append(dict(fn="run", bound=0, split=True, args=dict(ops=list(ops), first=first, depth=depth, start=start)))

    add(LIFE, 5 if full else 4, "none")
    add(ATTR, 4 if full else 3, "one")
    add(GROUP, 5 if full else 4, "one")
    add(NET, 4 if full else 3, "one")
    add(CROSS, 4 if full else 3, "one")
    add(AGAIN, 4 if full else 3, "one")
    add(SAME, 4 if full else 3, "two")
    return out


class App(FakeApp):
    pages = ()

    async def send_packet(self, packet):
        self.sent.append(packet)
        data = packet.data.serialize()
        if packet.profile_id != 0 or packet.cluster_id not in (0x31, 0x32, 0x34):
            return
        tsn = data[0]
        dev = self.get_device(nwk=packet.dst.address)
        if packet.cluster_id == 0x34:
            body = b"\0"
        elif packet.cluster_id == 0x31:
            body = b"\0" + bytes([len(self.neighbors), 0, len(self.neighbors)]) + b"".join(n.serialize() for n in self.neighbors)
        else:
            body = b"\0" + bytes([len(self.routes), 0, len(self.routes)]) + b"".join(n.serialize() for n in self.routes)
        from asyncio import get_running_loop

        get_running_loop().call_soon(self.packet_received, _pkt(dev, bytes([tsn]) + body, packet.cluster_id | 0x8000))

    neighbors = ()
    routes = ()


def _pkt(dev, payload, cluster):
    return packet(dev, payload, profile=0, cluster=cluster, src_ep=0, dst_ep=0)


def neighbor(n, **kw):
    d = dict(extended_pan_id=t.ExtendedPanId.convert("dd:dd:dd:dd:dd:dd:dd:dd"), ieee=ieee(n), nwk=t.NWK(0x1000 + n),
             device_type=zdo_t.Neighbor.DeviceType.EndDevice, rx_on_when_idle=zdo_t.Neighbor.RxOnWhenIdle.Off,
             relationship=zdo_t.Neighbor.RelationShip.Child, reserved1=0, permit_joining=zdo_t.Neighbor.PermitJoins.Unknown, reserved2=0, depth=15, lqi=250)
    d.update(kw)
    return zdo_t.Neighbor(**d)


def route(n, status=zdo_t.RouteStatus.Active):
    return zdo_t.Route(DstNWK=t.NWK(n), RouteStatus=status, MemoryConstrained=1, ManyToOne=0, RouteRecordRequired=1, Reserved=0, NextHop=t.NWK(0x1002))


def backup(counter, n, key=1):
    return zigpy.backups.NetworkBackup(
        network_info=zigpy.state.NetworkInfo(
            extended_pan_id=t.ExtendedPanId.convert("bd:27:0b:38:37:95:dc:87"), pan_id=t.PanId(0x9BB0), nwk_update_id=2, nwk_manager_id=t.NWK(0),
            channel=t.uint8_t(15 + key), channel_mask=t.Channels.from_channel_list([15, 20]), security_level=t.uint8_t(5),
            network_key=zigpy.state.Key(key=t.KeyData(bytes(range(key, key + 16))), tx_counter=counter, rx_counter=0, seq=0, partner_ieee=t.EUI64.UNKNOWN),
            tc_link_key=zigpy.state.Key(key=t.KeyData(b"ZigBeeAlliance09"), tx_counter=0, rx_counter=0, seq=0, partner_ieee=COORD_IEEE),
            key_table=[zigpy.state.Key(key=t.KeyData(bytes(16)), tx_counter=1, rx_counter=2, seq=0, partner_ieee=ieee(5))],
            children=[ieee(7)], nwk_addresses={ieee(7): t.NWK(0x7777)}, stack_specific={"x": {"y": [1, None]}}, metadata={"m": 1}, source="mc@1"),
        node_info=zigpy.state.NodeInfo(nwk=t.NWK(0), ieee=COORD_IEEE, logical_type=zdo_t.LogicalType.Coordinator, model="m", manufacturer=None,
                                       version="v"),
    )


_template = {}


class Sys:
    def __init__(self, loop, start):
        self.loop = loop
        self.path = db.fresh()
        if start in _template:
            db.restore(_template[start], "db.sqlite")
        self.app = self.open()
        if start not in _template:
            coord = self.app.add_device(COORD_IEEE, t.NWK(0))
            fill_device(coord, logical_type=zdo_t.LogicalType.Coordinator)
            self.app.device_initialized(coord)
            if start != "none":
                self.join(1, SIG, "mod.1")
            if start == "two":
                self.join(2, {k: SIG[k] for k in (1, 3)}, "mod.2")
            self.close()
            _template[start] = db.image(self.path)
            self.app = self.open()
        self.tsn = 0
        self.counter = 5

    def open(self):
        app = self.loop.run(App.new(base_config(database_path=str(self.path)), start_radio=False))
        app.state.node_info = zigpy.state.NodeInfo(nwk=t.NWK(0), ieee=COORD_IEEE, logical_type=zdo_t.LogicalType.Coordinator)
        return app

    def close(self):
        self.loop.run_idle(CLOCK.t + 40)
        self.loop.run(self.app.shutdown())
        self.loop.drain()

    # -- changes ------------------------------------------------------------------------------
    def join(self, n, sig, model, nwk=None):
        """A device joins and answers its interview."""
        dev = self.app.devices.get(ieee(n))
        if dev is None:
            self.app.handle_join(t.NWK(nwk or 0x1000 + n), ieee(n), t.NWK(0))
            dev = self.app.devices[ieee(n)]
            dev.cancel_initialization()
        if not dev.is_initialized:
            fill_device(dev, sig)
            dev.model, dev.manufacturer = model, "Acme"
            basic = dev.endpoints[1].in_clusters[0]
            basic.update_attribute(4, t.CharacterString("Acme"))
            basic.update_attribute(5, t.CharacterString(model))
            if n == 2:  # already known when the device is first stored
                for a in (0, 1):
                    basic.add_unsupported_attribute(a)
                basic.update_attribute(3, t.uint8_t(0))
                for cl in dev.endpoints[1].out_clusters.values():
                    cl.update_attribute(7, t.uint8_t(9))
                    cl.add_unsupported_attribute(8)
            self.app.device_initialized(dev)
            if self.app.devices[ieee(n)] is not dev:
                basic = self.app.devices[ieee(n)].endpoints[1].in_clusters[0]
                basic.update_attribute(4, t.CharacterString("Acme"))
                basic.update_attribute(5, t.CharacterString(model))
        self.loop.drain()

    def a(self, n=1):
        dev = self.app.devices.get(ieee(n))
        return dev if dev is not None and dev.is_initialized else None

    def cluster(self, e, c, n=1):
        dev = self.a(n)
        ep = dev.endpoints.get(e) if dev else None
        return ep.in_clusters.get(c) if ep else None

    def where(self, i):
        n, e, kind, c = WHERE[i]
        ep = self.ep(e, n)
        return getattr(ep, f"{kind}_clusters").get(c) if ep else None

    def ep(self, e, n=1):
        dev = self.a(n)
        return dev.endpoints.get(e) if dev else None

    def enabled(self, op):
        dev, app = self.a(), self.app
        if op in ("init", "init-quirk"):
            return ieee(1) not in app.devices
        if op in ("init2",):
            return ieee(2) not in app.devices
        if op in ("wait", "group", "group-name", "backup", "two-backups", "backup-newer", "backup-other"):
            return True
        if op == "group-pop":
            return 1 in app.groups
        if op in SAME and "-" in op and op.split("-")[1].isdigit():
            return self.where(int(op.split("-")[1])) is not None
        if op == "member-b":
            return 1 in app.groups and self.a(2) is not None
        if dev is None:
            return False
        if op in ("member", "member3"):
            ep = self.ep(1 if op == "member" else 3)
            return 1 in app.groups and ep is not None and ep.unique_id not in app.groups[1]
        if op == "unmember":
            return 1 in app.groups and self.ep(1).unique_id in app.groups[1]
        if op in REPORTS:
            return self.cluster(*REPORTS[op][:2]) is not None
        if op == "rep-quirk":
            return self.cluster(2, 6) is not None
        if op == "sup":
            return self.cluster(1, 6) is not None
        return True

    def report(self, e, c, attr, typ, raw, n=1):
        self.tsn = (self.tsn + 1) % 256
        self.app.packet_received(packet(self.a(n), zcl(0x18, self.tsn, 0x0A, struct.pack("<HB", attr, typ) + raw), cluster=c, src_ep=e, dst_ep=1))

    def do(self, op):
        app, dev = self.app, self.a()
        CLOCK.t += 2
        if op in REPORTS:
            self.report(*REPORTS[op])
        elif op == "report":
            self.counter += 1
            self.report(1, 6, 0x4001, 0x21, struct.pack("<H", self.counter))
        elif op == "rep-quirk":
            self.report(2, 6, 0, 0x10, b"\x01")
        elif op == "init":
            self.join(1, SIG, "mod.1")
        elif op == "init-quirk":
            if ieee(1) in app.devices:
                return
            self.join(1, QSIG, "quirky")
        elif op == "init2":
            self.join(2, {1: (260, 0x0100, (0, 4), (6,))}, "mod.2")
        elif op == "reinit":
            app.device_initialized(dev)
        elif op == "reinit-desc":
            d = dev.node_desc
            dev.node_desc = d.replace(manufacturer_code=d.manufacturer_code ^ 0x1234, mac_capability_flags=d.mac_capability_flags ^ 4,
                                      maximum_buffer_size=d.maximum_buffer_size ^ 1, maximum_incoming_transfer_size=77, server_mask=0x2C00,
                                      maximum_outgoing_transfer_size=78, descriptor_capability_field=1)
            app.device_initialized(dev)
        elif op == "reinit-ep":
            ep = dev.endpoints[1]
            ep.profile_id, ep.device_type = 0xC05E if ep.profile_id == 260 else 260, (ep.device_type ^ 1)
            ep.status = Status.ENDPOINT_INACTIVE if ep.status == Status.ZDO_INIT else Status.ZDO_INIT
            app.device_initialized(dev)
        elif op == "reinit-clusters":
            dev.endpoints[1].add_input_cluster(0x0402)
            dev.endpoints[1].add_output_cluster(0x000A)
            dev.model, dev.manufacturer = "mod.1b", "Acme Inc"
            dev.endpoints[1].in_clusters[0].update_attribute(4, t.CharacterString("Acme Inc"))
            dev.endpoints[1].in_clusters[0].update_attribute(5, t.CharacterString("mod.1b"))
            app.device_initialized(dev)
        elif op == "move":
            app.handle_join(t.NWK((dev.nwk + 0x100) & 0xFFFF), dev.ieee, t.NWK(0))
        elif op == "rejoin":
            app.handle_join(dev.nwk, dev.ieee, t.NWK(0))
        elif op == "remove":
            self.loop.run(app.remove(dev.ieee))
            self.loop.run_idle(CLOCK.t + 40)
        elif op == "wait":
            CLOCK.t += 45
        elif op in ("all-cached", "all-unsup"):
            for i in range(len(WHERE)):
                cl = self.where(i)
                if cl is not None and op == "all-cached":
                    cl.update_attribute(7, t.uint8_t(i + 1))
                elif cl is not None:
                    cl.add_unsupported_attribute(7)
        elif op == "all-members":
            for g in (1, 2):
                app.groups.add_group(g, f"g{g}")
                for n, e in ((1, 1), (1, 3), (2, 1), (2, 3)):
                    if self.ep(e, n) is not None:
                        app.groups[g].add_member(self.ep(e, n))
        elif op == "set-1":
            self.where(1).update_attribute(7, t.uint8_t(99))
        elif op == "unsup-1":
            self.where(1).add_unsupported_attribute(7)
        elif op.startswith("clear-"):
            self.where(int(op[6:])).update_attribute(7, None)
        elif op.startswith("sup-"):
            self.where(int(op[4:])).remove_unsupported_attribute(7)
        elif op == "clear":
            self.cluster(1, 6).update_attribute(0, None)
        elif op == "unsup":
            self.cluster(1, 6).add_unsupported_attribute(0x4001)
            self.cluster(1, 0).add_unsupported_attribute(5)
            self.cluster(1, 0).add_unsupported_attribute(0)
        elif op == "unsup-name":
            self.cluster(1, 6).add_unsupported_attribute("on_time")
        elif op == "unsup-gone":
            self.cluster(1, 6).add_unsupported_attribute(0x4001)
            self.cluster(1, 6).remove_unsupported_attribute(0x4001)
        elif op == "sup":
            self.cluster(1, 6).remove_unsupported_attribute(0x4001)
        elif op == "group":
            app.groups.add_group(1, "one")
        elif op == "group-name":
            app.groups.add_group(2)
            app.groups.add_group(1, "uno")
        elif op == "group-pop":
            app.groups.pop(1)
        elif op in ("member", "member3"):
            app.groups[1].add_member(self.ep(1 if op == "member" else 3))
        elif op == "member-b":
            app.groups[1].add_member(self.ep(1, 2))
        elif op == "unmember":
            app.groups[1].remove_member(self.ep(1))
        elif op == "relays":
            app.handle_relays(dev.nwk, [t.NWK(0x1002), t.NWK(0x1003)])
        elif op == "relays2":
            app.handle_relays(dev.nwk, [t.NWK(0x1003), t.NWK(0x1002)])
        elif op == "relays-empty":
            app.handle_relays(dev.nwk, [])
        elif op == "relays-none":
            dev.relays = None
        elif op in ("neighbors", "neighbors-few", "neighbors-none", "routes", "routes-none"):
            app.neighbors, app.routes = {
                "neighbors": ((neighbor(1), neighbor(2, device_type=zdo_t.Neighbor.DeviceType.Router, lqi=3, depth=1,
                                                     relationship=zdo_t.Neighbor.RelationShip.Sibling)), ()),
                "neighbors-few": ((neighbor(2, permit_joining=zdo_t.Neighbor.PermitJoins.Accepting,
                                            rx_on_when_idle=zdo_t.Neighbor.RxOnWhenIdle.On),), ()),
                "neighbors-none": ((), (route(0x1234),)),
                "routes-none": ((neighbor(3),), ()),
                "routes": ((neighbor(3),), (route(0x1234), route(0x2345, zdo_t.RouteStatus.Discovery_Underway))),
            }[op]
            task = self.loop.create_task(app.topology.scan([dev]))
            self.loop.run_idle(CLOCK.t + 60)
            if not task.done():
                task.cancel()
                self.loop.drain()
        elif op == "backup":
            app.backups.add_backup(backup(100, 1))
        elif op == "two-backups":
            app.backups.add_backup(backup(self.counter, 1, key=2))
            CLOCK.t += 1
            app.backups.add_backup(backup(self.counter - 1, 1, key=2))
        elif op == "backup-newer":
            self.counter += 200
            app.backups.add_backup(backup(self.counter, 1))
        elif op == "backup-other":
            app.backups.add_backup(backup(1, 1, key=3))
        else:
            raise AssertionError(op)
        self.loop.drain()


def plain(v):
    """A value without its wrapper type."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, t.EUI64):
        return str(v)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    return v


def snapshot(app):
    """(state, time stamps) of everything the database has to keep."""
    out, times = {}, {}
    for addr, dev in app.devices.items():
        if not dev.is_initialized:
            continue
        times[str(addr), "seen"] = dev.last_seen
        eps = {}
        for e in dev.non_zdo_endpoints:
            clusters = {}
            for kind, cs in (("in", e.in_clusters), ("out", e.out_clusters)):
                for cid, c in cs.items():
                    ids = {a for ee, cc, a in ATTRS if ee == e.endpoint_id and cc == cid}
                    store = getattr(c, "_attr_cache", {})
                    cached = {a: plain(store[a]) for a in ids if store.get(a) is not None}
                    unsup = sorted(a for a in c.unsupported_attributes if isinstance(a, int))
                    names = sorted(a for a in c.unsupported_attributes if isinstance(a, str))
                    clusters[kind, cid] = (cached, unsup, names)
                    for a in cached:
                        when = getattr(c, "_attr_last_updated", {}).get(a)
                        if when is not None:
                            times[str(addr), e.endpoint_id, kind, cid, a] = when.timestamp()
            eps[e.endpoint_id] = (e.profile_id, e.device_type, int(e.status), clusters, sorted(e.member_of))
        out[str(addr)] = dict(nwk=int(dev.nwk), desc=dev.node_desc.serialize(), model=dev.model, manufacturer=dev.manufacturer, eps=eps,
                              relays=None if dev.relays is None else [int(r) for r in dev.relays], kind=type(dev).__name__, status=int(dev.status))
    groups = {int(g): (grp.name, sorted((str(a), b) for a, b in grp.keys())) for g, grp in app.groups.items()}
    topo = {k: {str(i): sorted(x.serialize() for x in v) for i, v in getattr(app.topology, k).items() if v} for k in ("neighbors", "routes")}
    backups = [b.as_dict() for b in app.backups.backups]
    return dict(devices=out, groups=groups, backups=backups, **topo), times


def differences(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                out.append(f"{path}/{k}: only after reopening: {b[k]!r}")
            elif k not in b:
                out.append(f"{path}/{k}: lost: {a[k]!r}")
            else:
                out += differences(a[k], b[k], f"{path}/{k}")
        return out
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return [d for i, (x, y) in enumerate(zip(a, b)) for d in differences(x, y, f"{path}.{i}")]
    return [] if a == b else [f"{path}: {a!r} became {b!r}"]


def run(ch, ops, first, depth, start):
    with LoopCtx() as loop:
        s = Sys(loop, start)
        log = []
        for i in range(depth):
            if i == 0:
                if not s.enabled(first):
                    return None
                op = first
            else:
                live = [o for o in ops if s.enabled(o)]
                c = ch.choose(["end", *live], [0] * (len(live) + 1), "op")
                if not c:
                    break
                op = live[c - 1]
            log.append(op)
            s.do(op)
            ch.note((tuple(log),))
        s.loop.run_idle(CLOCK.t + 40)
        want, times = snapshot(s.app)
        s.close()
        dump = db.rows(s.path)
        for again in ("reopening", "reopening and saving again"):
            s.app = s.open()
            loop.drain()
            got, seen = snapshot(s.app)
            d = differences(want, got)
            require(not d, f"after {log}, {again}: {d}" if d else "", key="reload")
            for k, when in times.items():
                back = seen.get(k)
                if when is None or (back is None and when - 1e9 < 0):
                    continue
                require(back is not None and when - 30.5 <= back <= when + 0.01, f"after {log}: time stamp of {k} was {when}, is {back}", key="timestamp")
            if again == "reopening":
                s.close()
                after = db.rows(s.path)
                require(after == dump, "reopening and closing changed the database" if after != dump else "", key="reload-writes")
                s.app = s.open()
                for dev in list(s.app.devices.values()):
                    s.app.device_initialized(dev)
                loop.drain()
                s.close()
        s.close()
        require(not loop.errors, "", key="error", data=loop.errors[:1])
        return (len(log), len(want["devices"]), len(want["groups"]), len(want["backups"]))
