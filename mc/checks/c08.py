"""C08: removing a device, with every outcome of the leave exchange and packets in between."""
from __future__ import annotations

import struct

import zigpy.exceptions
import zigpy.state
import zigpy.types as t
import zigpy.zdo.types as zdo_t

from .. import db
from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import COORD_IEEE, Driver, Ev, FakeApp, base_config, fill_device, ieee, node_desc, packet, zcl
from .c04 import differences, neighbor, quirk, route, snapshot

LEVEL = "model_checking"
VALIDATED = ("no separate model: every explored trace runs the real removal on the real application and its real database; the oracle is the removal itself "
             "(gone from devices, groups, topology, database) and the unchanged remainder, compared through a reload")
ASSUMPTIONS = ["asyncio runs ready callbacks in FIFO order", "the database calls of one connection run in order, one at a time (what aiosqlite's thread does)",
               "packets and answers land while zigpy is idle, or between any two callbacks in the scenarios that say so",
               "removing a device that is already being removed is not explored"]

SIG = {1: (260, 0x0100, (0, 4, 6), (0x19,)), 2: (260, 0x0100, (4, 6), ())}
QUIRK = {1: (260, 0x0402, (0, 6), ())}
LEAVE = ("refused", "undelivered", "lost", "malformed", "broken", "other-reply")
KINDS = ("router", "sleepy", "bare", "descriptor", "quirk")


def scenarios(tier, seed):
    full = tier == "thorough"
    out = []
    for kind in KINDS:
        for busy in (False, True):
            for opts in ((True, False), (False, True)):
                if (busy or not opts[0]) and not full and kind not in ("router", "sleepy"):
                    continue
                out.append(dict(fn="run", bound=4 if full and not busy else 3 if full or (opts[0] and kind not in ("sleepy", "descriptor")) else 2, split=True,
                                args=dict(kind=kind, busy=busy, opts=opts, boundary=False)))
        out.append(dict(fn="run", bound=3 if full else 2, split=True, args=dict(kind=kind, busy=False, opts=(True, False), boundary=True)))
    for kind in ("bare", "descriptor"):
        for boundary in (False, True):
            out.append(dict(fn="run", bound=(3 if full else 2) - boundary, split=True, args=dict(kind=kind, busy="interview", opts=(True, False), boundary=boundary)))
    for step in ("all", "neighbors", "routes"):
        out.append(dict(fn="run", bound=(3 if full else 2) - (step == "all"), split=True, args=dict(kind="router", busy="scan-" + step, opts=(True, False), boundary=False)))
    return out


_template = {}


def config(path):
    return base_config(database_path=str(path))


def opened(loop, path):
    app = loop.run(FakeApp.new(config(path), start_radio=False))
    app.state.node_info = zigpy.state.NodeInfo(nwk=t.NWK(0), ieee=COORD_IEEE, logical_type=zdo_t.LogicalType.Coordinator)
    return app


def closed(loop, app):
    loop.run(app.shutdown())
    loop.drain()


def populate(loop, kind):
    """A stored network: coordinator, the device, two parents and a bystander."""
    path = db.fresh("c08.sqlite")
    app = opened(loop, path)

    def add(n, sig, logical=zdo_t.LogicalType.Router, model="mod", **kw):
        dev = app.add_device(COORD_IEEE if n == 0 else ieee(n), t.NWK(0x1000 + n if n else 0))
        fill_device(dev, sig, logical, **kw)
        dev.model, dev.manufacturer = model, "Acme"
        app.device_initialized(dev)
        loop.drain()
        return app.devices[dev.ieee]

    add(0, {1: (260, 5, (), ())}, zdo_t.LogicalType.Coordinator)
    if kind not in ("bare", "descriptor"):
        dev = add(1, QUIRK if kind == "quirk" else SIG, zdo_t.LogicalType.EndDevice if kind == "sleepy" else zdo_t.LogicalType.Router,
                  model="quirky" if kind == "quirk" else "mod", rx_on=kind != "sleepy")
        dev.endpoints[1].in_clusters[6].update_attribute(0, 1)
        dev.endpoints[1].in_clusters[6].add_unsupported_attribute(0x4003)
        app.handle_relays(dev.nwk, [t.NWK(0x1002)])
    others = [add(n, SIG) for n in (2, 3, 4)]
    for g in (1, 2):
        app.groups.add_group(g, f"g{g}")
        for d in others[:g]:
            app.groups[g].add_member(d.endpoints[1])
    if kind not in ("bare", "descriptor"):
        app.groups[1].add_member(dev.endpoints[1])
        if kind != "quirk":
            app.groups[2].add_member(dev.endpoints[1])
            app.groups[2].add_member(dev.endpoints[2])
    tables = {COORD_IEEE: (neighbor(1), neighbor(2)), ieee(1): (neighbor(2),), ieee(2): (neighbor(3), neighbor(1)), ieee(3): (neighbor(77), neighbor(1)),
              ieee(4): (neighbor(2), neighbor(3))}
    for addr, rows in tables.items():
        if addr not in app.devices:
            continue
        pages(loop, app, addr, rows, (route(0x1001),) if addr != COORD_IEEE else ())
    closed(loop, app)
    return db.image(path)


def pages(loop, app, addr, rows, routes):
    """The device answers a topology scan with these tables."""

    async def send(pkt):
        tsn = pkt.data.serialize()[:1]
        if pkt.profile_id != 0 or pkt.cluster_id not in (0x31, 0x32):
            return
        items = rows if pkt.cluster_id == 0x31 else routes
        body = b"\0" + bytes([len(items), 0, len(items)]) + b"".join(x.serialize() for x in items)
        loop.call_soon(app.packet_received, packet(app.devices[addr], tsn + body, profile=0, cluster=pkt.cluster_id | 0x8000, src_ep=0, dst_ep=0))

    app.on_send = send
    task = loop.create_task(app.topology.scan([app.devices[addr]]))
    loop.run_idle(CLOCK.t + 60)
    task.cancel()
    app.on_send = None
    loop.drain()


class Sys:
    def __init__(self, loop, kind, opts):
        self.loop = loop
        if kind not in _template:
            _template[kind] = populate(loop, kind)
        self.path = db.restore(_template[kind], "c08-run.sqlite")
        self.app = opened(loop, self.path)
        if kind in ("bare", "descriptor"):
            dev = self.app.add_device(ieee(1), t.NWK(0x1001))
            if kind == "descriptor":
                dev.node_desc = node_desc(zdo_t.LogicalType.EndDevice)
        loop.drain()
        self.opts = opts
        self.removed = []
        self.app.add_listener(self)
        self.app.on_send = self.send
        self.pend = []
        self.leaves = []
        self.budget = dict(report=1, announce=1, moved=1, stack=1)
        self.tsn = 100
        self.viol = None
        self.removing = False

    def device_removed(self, dev):
        self.removed.append(dev.ieee)

    @property
    def dev(self):
        return self.app.devices.get(ieee(1))

    async def send(self, pkt):
        data = pkt.data.serialize()
        if pkt.dst.addr_mode == t.AddrMode.Broadcast:
            return
        if pkt.profile_id == 0 and pkt.cluster_id == 0x34:
            self.leaves.append((int(pkt.dst.address), t.EUI64.deserialize(data[1:])[0], data[9]))
        fut = self.loop.create_future()
        entry = (pkt, data, fut)
        self.pend.append(entry)
        try:
            await fut
        finally:
            if entry in self.pend:
                self.pend.remove(entry)

    def answer(self, entry, how):
        def go():
            self.pend.remove(entry)
            pkt, data, fut = entry
            if how == "undelivered":
                return fut.set_exception(zigpy.exceptions.DeliveryError("no"))
            if how == "broken":
                return fut.set_exception(ConnectionResetError("serial port"))
            fut.set_result(None)
            if how != "lost":
                self.loop.call_soon(self.reply, pkt, data, how)
        return go

    def reply(self, pkt, data, how):
        src = t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=pkt.dst.address)
        le = struct.pack("<H", pkt.dst.address)
        kw = dict(profile=0, src_ep=0, dst_ep=0, cluster=pkt.cluster_id | 0x8000)
        if pkt.profile_id == 0:
            tsn = data[:1]
            if pkt.cluster_id == 0x34:
                body = b"" if how == "malformed" else b"\x84" if how == "refused" else b"\0"
                if how == "other-reply":
                    tsn = bytes([tsn[0] ^ 1])
            elif pkt.cluster_id in (0x31, 0x32):
                row = neighbor(2) if pkt.cluster_id == 0x31 else route(0x1002)
                body = b"\0\x01\0\x01" + row.serialize()
            elif pkt.cluster_id == 2:
                body = b"\0" + le + node_desc(zdo_t.LogicalType.EndDevice).serialize()
            elif pkt.cluster_id == 5:
                body = b"\0" + le + b"\x01\x01"
            elif pkt.cluster_id == 4:
                sd = b"\x01" + struct.pack("<HHB", 260, 0x100, 0) + b"\x01\x06\x00\x00"
                body = b"\0" + le + bytes([len(sd)]) + sd
            else:
                return
            self.app.packet_received(packet(src, tsn + body, **kw))
        elif pkt.cluster_id == 4 and data[2] == 2:
            self.app.packet_received(packet(src, zcl(0x09, data[1], 2, b"\x05\x02\x01\x00\x07\x00"), cluster=4, src_ep=pkt.dst_ep))

    # -- packets of the device while it is being removed ----------------------------------------
    def use(self, what):
        def go():
            self.budget[what] -= 1
            self.tsn += 1
            dev = self.dev
            if dev is None:
                return
            if what == "report":
                self.app.packet_received(packet(dev, zcl(0x18, self.tsn, 0x0A, b"\0\0\x10\x00"), cluster=6))
            elif what == "stack":
                self.app.handle_join(dev.nwk, dev.ieee, t.NWK(0))
            else:
                nwk = dev.nwk if what == "announce" else dev.nwk + 0x500
                src = t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(nwk))
                self.app.packet_received(packet(src, bytes([self.tsn]) + struct.pack("<H", nwk) + ieee(1).serialize() + b"\x80", profile=0, cluster=0x13,
                                                src_ep=0, dst_ep=0))
        return go

    def events(self):
        evs = []
        for entry in self.pend[:2]:
            pkt = entry[0]
            leave = pkt.profile_id == 0 and pkt.cluster_id == 0x34
            if self.dev is None and not leave and pkt.cluster_id not in (0x31, 0x32):
                continue
            who = f"{pkt.cluster_id:#x}>{int(pkt.dst.address):#x}"
            first = entry is self.pend[0]
            evs.append(Ev(f"ok {who}", self.answer(entry, "ok"), 0 if first else 1, None))
            if first:
                evs += [Ev(f"{how} {who}", self.answer(entry, how), 1, None) for how in (LEAVE if leave else ("lost", "undelivered"))]
        if self.dev is not None and self.removing:
            evs += [Ev(what, self.use(what), 1, 1) for what, n in self.budget.items() if n]
        return evs


def rest(state):
    """Everything about the other devices."""
    out = {k: dict(v) for k, v in state.items() if k != "backups"}
    out["devices"].pop(str(ieee(1)), None)
    out["groups"] = {g: (name, [m for m in members if m[0] != str(ieee(1))]) for g, (name, members) in state["groups"].items() if g in (1, 2)}
    for k in ("neighbors", "routes"):
        out[k].pop(str(ieee(1)), None)
    return out


def run(ch, kind, busy, opts, boundary):
    with LoopCtx() as loop:
        s = Sys(loop, kind, opts)
        app = s.app
        want = rest(snapshot(app)[0])
        if busy == "interview":
            s.dev.schedule_initialize()
            loop.drain()
            if kind == "descriptor":
                while s.pend and s.pend[0][0].cluster_id != 4:
                    s.answer(s.pend[0], "ok")()
                    loop.drain()
        elif isinstance(busy, str):
            # a topology scan of the device is under way: about to ask, between two questions, or on its last one
            app.topology.start_periodic_scans(10**9)
            scan = loop.create_task(app.topology.scan(list(app.devices.values()) if busy == "scan-all" else [s.dev]))
            scan.add_done_callback(lambda f: f.cancelled() or f.exception())
            loop.drain()
            if busy == "scan-routes":
                s.answer(s.pend[0], "ok")()
                loop.run_idle(CLOCK.t + 5)
                require(s.pend and s.pend[0][0].cluster_id == 0x32, f"the scan did not go on to the routes: {s.pend}", key="scan")
        elif busy:
            loop.create_task(s.dev.zdo.Node_Desc_req(s.dev.nwk)).add_done_callback(lambda f: f.cancelled() or f.exception())
            loop.drain()
        sleepy = s.dev.node_desc is not None and s.dev.node_desc.is_end_device
        end = CLOCK.t + (30 if sleepy else 7)
        CLOCK.t += 0

        async def go():
            await app.remove(ieee(1), remove_children=opts[0], rejoin=opts[1])

        task = loop.create_task(go())
        s.removing = True
        d = Driver(loop, ch, s.events, horizon=end, boundary=boundary, time_cost=1, stop="timers",
                   state=lambda: (s.dev is None, len(s.pend), tuple(s.budget.values()), len(s.removed)))
        d.run(lambda: s.dev is None)
        loop.run_idle(end)
        require(task.done() and task.exception() is None, f"remove() ended with {task}", key="remove-call")
        CLOCK.t = max(CLOCK.t, end + 0.01)
        loop.run_idle(CLOCK.t)
        gone(s, "after the leave timeout")
        # whatever was still under way (answers included) brings nothing back
        s.removing = False
        Driver(loop, ch, s.events, horizon=CLOCK.t + 120, boundary=False, time_cost=9, stop="timers").run()
        loop.run_idle(CLOCK.t + 120)
        gone(s, "two minutes later")
        require(s.removed == [ieee(1)], f"removed events: {s.removed}", key="removed-event")
        for to, _, flags in s.leaves:
            own = to in (0x1001, 0x1501)
            want_flags = (0x40 if opts[0] and own else 0) | (0x80 if opts[1] else 0)
            require(flags & (0xC0 if own else 0x80) == want_flags, f"{to:#x} was asked with options {flags:#x}, expected {want_flags:#x}", key="options")
        if sleepy:
            for n in (0, 0x1002, 0x1003):
                asked = [x for x in s.leaves if x[0] == n]
                require(len(asked) == 1 and asked[0][1] == ieee(1), f"parent {n:#x} was asked {asked}", key="parents")
            require(not [x for x in s.leaves if x[0] == 0x1004], "a device that is no parent was asked to drop it", key="parents")
        now = snapshot(app)[0]
        if busy == "scan-all":
            # the others' tables are being read anew
            rescanned = rest(now)
            want.update((k, rescanned[k]) for k in ("neighbors", "routes"))
        d = differences(want, rest(now))
        require(not d, f"something else changed: {d}", key="others")
        closed(loop, app)
        app = opened(loop, s.path)
        loop.drain()
        got = snapshot(app)[0]
        d = differences({k: v for k, v in now.items()}, got)
        require(not d, f"the database disagrees with the running state: {d}", key="database")
        gone(s, "after a restart", app)
        closed(loop, app)
        require(not loop.errors, f"background error {loop.errors[:1]}", key="error")
        return len(s.leaves), tuple(sorted(b for b in s.budget.values()))


def gone(s, when, app=None):
    app = app or s.app
    for kind in ("neighbors", "routes"):
        left = getattr(app.topology, kind).get(ieee(1))
        require(not left, f"{when}: the topology still has its {kind}: {left}", key="topology")
    require(ieee(1) not in app.devices, f"{when}: the device is still there", key="still-there")
    for g, grp in app.groups.items():
        require(not [k for k in grp.keys() if k[0] == ieee(1)], f"{when}: group {g} still has it: {list(grp.keys())}", key="group")
