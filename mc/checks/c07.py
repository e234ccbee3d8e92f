"""C07: the interview of a joining device, every placement of faults, announcements and packets."""
from __future__ import annotations

import functools
import struct

import zigpy.exceptions
import zigpy.types as t
from zigpy.profiles import zha

from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import Driver, Ev, add_device, ieee, make_app, node_desc, packet, zcl

LEVEL = "model_checking"
VALIDATED = ("no separate model of the interview: every explored trace runs the real join handling, requests and parsing against a scripted device; "
             "the reference only says when an interview is due and what the device's descriptors are")
ASSUMPTIONS = ["asyncio runs ready callbacks in FIFO order", "a device's descriptors do not change between two answers"]

# endpoint -> (profile, device type, input clusters, output clusters) or None (the endpoint is inactive)
DEVICES = {
    "plain": {1: (260, 0x0100, (0, 6), (0x19,))},
    "two": {1: (260, 0x0100, (0, 4, 6), ()), 242: (0xA1E0, 0x0061, (), (0x21,))},
    "late-basic": {2: (0xC05E, 0x0100, (6,), ()), 3: (260, 0x0402, (0, 0x500), (6, 0x19))},
    "inactive": {1: None, 5: (260, 0x5555, (0,), ())},
    "no-basic": {1: (0x1234, 0x9999, (6, 0xFC00), ())},
    "empty": {},
    "split": {1: (260, 0x0100, (0,), ()), 2: (260, 0x0100, (0,), ())},
}
KNOWS = {"split": {1: (5,), 2: (4,)}}  # which endpoint can tell the manufacturer (4), the model (5)
MODEL, MANUF = b"mod.1", b"Acme"
FAULTS = ("lose", "undelivered", "status", "cut")


def scenarios(tier, seed):
    full = tier == "thorough"
    out = []
    for name in DEVICES:
        for start in ("annce", "stack", "discover"):
            out.append(dict(fn="run", bound=2 if full or name in ("plain", "late-basic") else 1, split=True,
                            args=dict(name=name, start=start, boundary=full or name == "plain", ext=True)))
    # many failing answers in a row: the retries of the interview run out
    for name in ("plain", "late-basic"):
        for at in range(7):
            for how in FAULTS:
                out.append(dict(fn="run", bound=1, args=dict(name=name, start="annce", boundary=False, ext=True, dead=(at, how))))
    out.append(dict(fn="run", bound=3 if full else 2, split=True, limit=60000, args=dict(name="plain", start="annce", boundary=False, ext=True, few=True)))
    return out


def kept(method):
    """zigpy swallows what listeners and sends raise: keep the first violation for later."""

    @functools.wraps(method)
    def call(self, *args):
        try:
            return method(self, *args)
        except Violation as e:
            self.viol = self.viol or e

    return call


class Listener:
    def __init__(self, sys):
        self.sys = sys

    def device_joined(self, dev):
        self.sys.on_joined(dev)

    def raw_device_initialized(self, dev):
        self.sys.raw += 1

    def device_initialized(self, dev):
        self.sys.on_outcome(dev, True)

    def device_init_failure(self, dev):
        self.sys.on_outcome(dev, False)


class Sys:
    def __init__(self, loop, name, dead=None, few=False):
        self.loop = loop
        self.truth = DEVICES[name]
        self.knows = KNOWS.get(name, {})
        self.nwk = 0x1111
        self.app = make_app()
        self.other = add_device(self.app, 9)
        loop.drain()
        self.app.add_listener(Listener(self))
        self.app.on_send = self.on_send
        self.out = []  # unanswered requests: [kind, tsn, dst nwk, endpoint, body, gate]
        self.gates = []
        self.joins = self.joined = 0
        self.due = False  # an interview is running according to the reference
        self.ready = False  # reported initialized, with endpoints
        self.outcomes = 0
        self.raw = 0
        self.faults = set()
        self.read_failed = False
        self.dead = dead
        self.requests = 0
        self.budget = dict(annce=2, moved=2, packet=2, rejoin=1) if not few else dict(annce=2, moved=2, packet=0, rejoin=0)
        self.last_answer = None
        self.tsn = 0
        self.healed = False
        self.log = []
        self.viol = None
        self.stuck = False

    @property
    def dev(self):
        return self.app.devices.get(ieee(1))

    # -- what zigpy reports --------------------------------------------------------------
    @kept
    def on_joined(self, dev):
        require(dev.ieee == ieee(1) and dev.nwk == self.nwk, f"joined event for {dev}", key="joined-device")
        self.joined += 1
        require(self.joined <= self.joins, f"{self.joined} joined events for {self.joins} joins", key="joined-twice", data=self.log)

    @kept
    def on_outcome(self, dev, ok):
        self.log.append("initialized" if ok else "failure")
        require(dev.ieee == ieee(1), f"outcome for {dev}", key="outcome-device")
        require(self.due, f"reported {'initialized' if ok else 'failed'} although no initialization was due ({self.log})", key="outcome-twice")
        self.due = False
        self.outcomes += 1
        if not ok:
            # reading the model information failed too often: zigpy takes the device for initialized
            self.stuck = dev.is_initialized
            return
        require(self.app.devices.get(ieee(1)) is dev and dev.nwk == self.nwk, "reported device is not the one in the table", key="reported-device")
        nd = dev.node_desc
        require(nd is not None and nd.serialize() == node_desc().serialize(), f"node descriptor is {nd}", key="descriptor")
        eps = {e.endpoint_id: e for e in dev.non_zdo_endpoints}
        require(set(eps) == set(self.truth), f"reported initialized with endpoints {sorted(eps)}, the device has {sorted(self.truth)}", key="endpoints",
                data=self.log)
        for eid, want in self.truth.items():
            e = eps[eid]
            got = (e.profile_id, e.device_type, tuple(e.in_clusters), tuple(e.out_clusters))
            require(got == (want or (None, None, (), ())), f"endpoint {eid} is {got}, the device said {want}", key="endpoint-data", data=self.log)
        basics = [e for e, w in self.truth.items() if w and 0 in w[2]]
        for what, got, real in (("model", dev.model, MODEL.decode()), ("manufacturer", dev.manufacturer, MANUF.decode())):
            if basics and not self.read_failed:
                require(got == real, f"reported initialized with {what} {got!r} ({self.log})", key="model-info", data=self.log)
            else:
                require(got in (real, None), f"{what} is {got!r}", key="model-info")
        self.ready = bool(self.truth)

    # -- the reference: when is an interview due? --------------------------------------------
    def joined_now(self, nwk, rejoin=True):
        """A join or announcement of the device."""
        new = self.dev is None
        moved = not new and nwk != self.nwk_known
        self.nwk = nwk
        self.nwk_known = nwk
        if new or moved:
            self.joins += 1
            self.due = True
        elif not self.ready and not self.due:
            self.due = True

    def packet_now(self):
        if self.dev is not None and not self.ready and not self.due:
            self.due = True

    # -- the device --------------------------------------------------------------------------
    async def on_send(self, pkt):
        try:
            await self.send(pkt)
        except Violation as e:
            self.viol = self.viol or e
            raise

    def fault(self, kind):
        self.faults.add(kind)
        self.read_failed |= kind == "read"

    def raise_kept(self):
        if self.viol is not None:
            if self.stuck:
                raise Violation(str(self.viol), key="not-retried-after-model-read-failure")
            raise self.viol

    def check_due(self, what):
        if not self.due:
            return
        raise Violation(f"{what}: {self.log}", key="not-retried-after-model-read-failure" if self.stuck else "no-outcome")

    async def send(self, pkt):
        data = pkt.data.serialize()
        if pkt.dst.addr_mode == t.AddrMode.Broadcast:
            require(pkt.profile_id == 0 and pkt.cluster_id == 0x0001 and struct.unpack("<H", data[1:3])[0] == self.nwk, f"broadcast {pkt}", key="wire")
            self.out.append(("discover", data[0], self.nwk, 0, data[1:]))
            return
        require(pkt.dst.address == self.dev.nwk, f"sent to {pkt.dst} but the device is at {self.dev.nwk}", key="wire-address")
        if pkt.profile_id == 0:
            kind = {2: "node", 5: "eps", 4: "simple"}.get(pkt.cluster_id)
            require(kind is not None, f"unexpected ZDO request {pkt}", key="wire")
            require(struct.unpack("<H", data[1:3])[0] == self.dev.nwk, f"{kind} request about another address: {data.hex()}", key="wire")
            tsn, ep, body = data[0], data[3] if kind == "simple" else 0, data[1:]
        else:
            if pkt.cluster_id == 4:
                tsn, ep, body, kind = data[1], pkt.dst_ep, data[3:], "groups"
            elif data[0] & 3 == 0 and data[2] == 0x0B:
                return
            else:
                require(pkt.cluster_id == 0 and data[0] & 3 == 0 and data[2] == 0, f"unexpected request {pkt}", key="wire")
                tsn, ep, body, kind = data[1], pkt.dst_ep, data[3:], "read"
        self.log.append(kind)
        n = self.requests
        self.requests += 1
        req = (kind, tsn, int(pkt.dst.address), ep, body)
        how = None
        if self.dead and n >= self.dead[0] and not self.healed:
            how = self.dead[1]
            self.fault(kind)
        if how == "undelivered":
            raise zigpy.exceptions.DeliveryError("no")
        if how == "lose":
            return
        if how in ("status", "cut"):
            self.loop.call_soon(lambda: self.answer(req, how))
            return
        gate = self.loop.create_future()
        entry = [req, gate]
        self.gates.append(entry)
        try:
            await gate
        finally:
            if entry in self.gates:
                self.gates.remove(entry)

    def answer(self, req, how="ok"):
        kind, tsn, dst, ep, body = req
        if how != "ok":
            self.fault(kind)
        self.log.append(f"{how} {kind}")
        if how == "lose":
            return
        src = t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(self.nwk))
        le = struct.pack("<H", self.nwk)
        kw = dict(profile=0, src_ep=0, dst_ep=0)
        if kind == "discover":
            out, kw["cluster"] = bytes([tsn, 0]) + ieee(1).serialize() + le, 0x8001
            if how != "ok":
                out = bytes([tsn, 0x81]) + b"\xff" * 8 + le
        elif kind == "node":
            out, kw["cluster"] = bytes([tsn, 0]) + le + node_desc().serialize(), 0x8002
            if how == "status":
                out = bytes([tsn, 0x80]) + le + node_desc().serialize()
        elif kind == "eps":
            out, kw["cluster"] = bytes([tsn, 0]) + le + bytes([len(self.truth), *self.truth]), 0x8005
            if how == "status":
                out = bytes([tsn, 0x80]) + le + b"\0"
        elif kind == "simple":
            kw["cluster"] = 0x8004
            want = self.truth.get(ep)
            if want:
                prof, dt, ins, outs = want
                sd = (bytes([ep]) + struct.pack("<HHB", prof, dt, 0) + bytes([len(ins)]) + b"".join(struct.pack("<H", c) for c in ins)
                      + bytes([len(outs)]) + b"".join(struct.pack("<H", c) for c in outs))
                out = bytes([tsn, 0]) + le + bytes([len(sd)]) + sd
            else:
                out = bytes([tsn, 0x83]) + le + b"\0"
            if how == "status":
                out = bytes([tsn, 0x82]) + le + b"\0"
        elif kind == "groups":
            out, kw = zcl(0x09, tsn, 2, b"\x05\x00"), dict(cluster=4, src_ep=ep)
            if how == "status":
                out = zcl(0x08, tsn, 0x0B, b"\x02\x81")
        else:
            recs = b""
            for (a,) in struct.iter_unpack("<H", body):
                v = {4: MANUF, 5: MODEL}[a]
                recs += struct.pack("<HBBB", a, 0, 0x42, len(v)) + v if how != "status" and a in self.knows.get(ep, (4, 5)) else struct.pack("<HB", a, 0x86)
            out, kw = zcl(0x18, tsn, 1, recs), dict(cluster=0, src_ep=ep)
        if how == "cut":
            out = out[:-1] if kind not in ("groups",) else out[:-2]
        self.last_answer = lambda: self.receive(packet(src, out, **kw), kind == "discover" and how == "ok")
        self.last_answer()

    def receive(self, pkt, discovered=False):
        if discovered:
            self.joined_now(self.nwk)
        elif int(pkt.src.address) == getattr(self, "nwk_known", None):
            self.packet_now()
        self.app.packet_received(pkt)

    def announce(self, nwk):
        self.log.append(f"announce {nwk:#x}")
        self.joined_now(nwk)
        self.tsn += 1
        src = t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(nwk))
        self.app.packet_received(packet(src, bytes([self.tsn]) + struct.pack("<H", nwk) + ieee(1).serialize() + b"\x8e", profile=0, cluster=0x13,
                                        src_ep=0, dst_ep=0))

    def stack_join(self, nwk):
        self.log.append(f"join {nwk:#x}")
        self.joined_now(nwk)
        self.app.handle_join(t.NWK(nwk), ieee(1), t.NWK(0))

    def traffic(self):
        self.log.append("packet")
        self.tsn += 1
        src = t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(self.nwk))
        self.receive(packet(src, zcl(0x18, self.tsn, 0x0A, b"\0\0\x10\x01"), cluster=6))

    def use(self, what, fn):
        def go():
            self.budget[what] -= 1
            fn()
        return go

    def finish(self, entry, how):
        def go():
            req, gate = entry
            self.gates.remove(entry)
            if how == "undelivered":
                self.fault(req[0])
                self.log.append(f"undelivered {req[0]}")
                gate.set_exception(zigpy.exceptions.DeliveryError("no"))
                return
            gate.set_result(None)
            if how != "lose":
                self.out.append(req)
            else:
                self.fault(req[0])
                self.log.append(f"lost {req[0]}")
        return go

    def reply(self, how):
        def go():
            self.answer(self.out.pop(0), how)
        return go

    def events(self):
        evs = []
        if self.gates:
            entry = self.gates[0]
            alive = entry[0][2] == self.nwk
            evs.append(Ev("sent" if alive else "undelivered", self.finish(entry, "ok" if alive else "undelivered"), 0, None))
            if alive and not self.healed:
                evs += [Ev(f, self.finish(entry, f), 1, None) for f in ("lose", "undelivered")]
        elif self.out:
            evs.append(Ev("reply", self.reply("ok"), 0, None))
            if not self.healed:
                evs += [Ev(f, self.reply(f), 1, None) for f in ("status", "cut")]
        if self.ext:
            for what, fn in (("annce", lambda: self.announce(self.nwk)), ("moved", lambda: self.announce(self.nwk + 0x1000)),
                             ("packet", self.traffic), ("rejoin", lambda: self.stack_join(self.nwk))):
                if self.budget[what] and self.dev is not None:
                    evs.append(Ev(what, self.use(what, fn), 1, 1))
        return evs


def run(ch, name, start, boundary, ext, dead=None, few=False):
    with LoopCtx() as loop:
        s = Sys(loop, name, dead, few)
        s.ext = ext
        s.nwk_known = None

        def begin():
            if start == "annce":
                s.announce(s.nwk)
            elif start == "stack":
                s.stack_join(s.nwk)
            else:
                s.traffic()

        loop.call_soon(begin)
        d = Driver(loop, ch, s.events, on_step=s.raise_kept, horizon=CLOCK.t + 900, boundary=boundary, time_cost=1, stop="timers",
                   state=lambda: (s.nwk, s.due, s.ready, s.outcomes, len(s.out), len(s.gates), s.requests, tuple(sorted(s.budget.items()))))
        d.run()
        if s.dev is not None:
            s.check_due("an initialization was due but had no outcome")
            require(s.joined == s.joins, f"{s.joined} joined events for {s.joins} joins: {s.log}", key="joined-missing")
        first = (s.outcomes, s.ready, s.joins, tuple(sorted(s.faults)))
        # a later announcement with a healthy device must complete
        s.healed, s.ext, s.faults = True, False, set()
        CLOCK.t += 60
        loop.call_soon(lambda: s.announce(s.nwk))
        d = Driver(loop, ch, s.events, on_step=s.raise_kept, horizon=CLOCK.t + 900, boundary=False, time_cost=9, stop="timers")
        d.run()
        s.check_due("a later join did not start an initialization")
        require(s.dev is not None and (s.ready or not s.truth), f"a later join did not initialize the device: {s.log}", key="retry", data=s.log)
        require(s.joined == s.joins, f"{s.joined} joined events for {s.joins} joins: {s.log}", key="joined-missing")
        require(s.raw >= 1, "raw_device_initialized missing", key="raw-event")
        # from now on the device is known: a join is not news, an address change is
        if s.truth:
            n, j = s.outcomes, s.joined
            for fn in (lambda: s.announce(s.nwk), lambda: s.traffic(), lambda: s.announce(s.nwk + 1)):
                CLOCK.t += 20
                loop.call_soon(fn)
                Driver(loop, ch, s.events, on_step=s.raise_kept, horizon=CLOCK.t + 300, boundary=False, time_cost=9, stop="timers").run()
            require((s.outcomes, s.joined) == (n + 1, j + 1), f"known device: {s.outcomes - n} outcomes and {s.joined - j} joins for one address change",
                    key="known-device", data=s.log)
        require(not loop.errors, f"background error {loop.errors[:1]}", key="error")
        return first
