"""C02: requests and replies over the whole stack, every interleaving with the radio."""
from __future__ import annotations

import asyncio

import zigpy.exceptions
import zigpy.types as t
import zigpy.zdo.types as zdo_t
from zigpy.zcl import foundation

from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import Driver, Ev, add_device, make_app, node_desc, packet, zcl, zdo_packet

LEVEL = "model_checking"
VALIDATED = ("no separate model: every explored trace is an execution of the real request path "
             "(cluster/ZDO -> endpoint -> device -> application -> fake radio and back)")
ASSUMPTIONS = ["asyncio runs ready callbacks in FIFO order",
               "a reply is matched to its request by sender and transaction number, as the protocol does"]

PRI = t.PacketPriority


def scenarios(tier, seed):
    th = tier == "thorough"
    out = []

    def add(reqs, bound, **kw):
        out.append(dict(fn="run", bound=bound, split=True, args=dict(reqs=reqs, **kw)))

    b1 = 3 if th else 2
    for kind in ("zcl", "zdo", "end", "noreply"):
        add([(1, kind, 0)], b1)
    b2 = 3 if th else 2
    b3 = 2 if th else 1
    for k1, k2 in (("zcl", "zcl"), ("zcl", "zdo"), ("zdo", "zcl"), ("noreply", "zcl"), ("zcl", "noreply")):
        add([(1, k1, 0), (1, k2, 0)], b2 if k1 == "zcl" and k2 != "noreply" else b2 - 1)
    add([(1, "zcl", 0), (2, "zcl", 0)], b2, offset=True)
    add([(1, "zcl", 0), (2, "zdo", 0)], b2 - 1, offset=False)
    for prios in ((0, 0, 1), (0, -1, 2), (0, 1, 0)):
        add([(1, "zcl", p) for p in prios], b3, few=not th)
    add([(1, "zcl", 0), (2, "zcl", 0), (1, "zdo", 0)], b2, offset=True, few=not th)
    add([(1, "noreply", 0), (1, "zcl", 0), (1, "zcl", 1)], b3, few=not th)
    return out


class Req:
    def __init__(self, i, dev, kind, prio):
        self.i, self.dev, self.kind, self.prio = i, dev, kind, prio
        self.task = None
        self.gate = None
        self.entered = False  # the packet reached the radio
        self.sent = False
        self.failed = False
        self.cancelled = False
        self.replies = []  # serials of replies delivered while entered
        self.garbage = 0
        self.sure = None  # serial of a reply that must win
        self.nreplies = 0
        self.ended = False
        self.tsn = None
        self.send_chosen = False


class Sys:
    def __init__(self, loop, ch, reqs, offset=True, few=False):
        self.loop, self.ch, self.offset = loop, ch, offset
        self.app = make_app()
        self.devs = {}
        from zigpy.zdo.types import LogicalType
        for n in (1, 2):
            self.devs[n] = add_device(
                self.app, n, endpoints={1: (260, 0x0100, (0, 6, 0x0500), ())},
                logical_type=LogicalType.EndDevice if any(k == "end" for _, k, _ in reqs) else LogicalType.Router)
        if offset:
            for _ in range(100):
                self.devs[2].get_sequence()
        self.reqs = [Req(i, d, k, p) for i, (d, k, p) in enumerate(reqs)]
        self.started = 0
        self.serial = 1
        self.budget = dict(cancel=2, garbage=1, foreign=1, reqdir=1, wrong=1, notify=1, again=2, fail=1)
        if few:
            self.budget.update(garbage=0, foreign=1, reqdir=0, wrong=0, notify=0)
        self.app.on_send = self.on_send
        self.timer_pending = False
        self.waiting_settled = []
        self.log = []
        self.finished = False

    # -- the radio -----------------------------------------------------------------
    async def on_send(self, pkt):
        if self.finished:
            return await self.finish_send(pkt)
        r = next((r for r in self.reqs if not r.entered and r.task is asyncio.current_task()), None)
        require(r is not None, f"unexpected packet sent: {pkt}", key="unexpected-send")
        dev = self.devs[r.dev]
        require(pkt.dst.address == dev.nwk, "sent to the wrong device", key="wrong-device")
        active = [o.i for o in self.reqs if o.dev == r.dev and o.entered and not o.ended]
        require(not active, f"request {r.i} sent while {active} to the same device are outstanding", key="concurrency")
        for j in self.waiting_settled:
            o = self.reqs[j]
            if r.i in self.waiting_settled and o.dev == r.dev and j != r.i and not o.entered and not o.cancelled:
                require(o.prio < r.prio or (o.prio == r.prio and j > r.i),
                        f"request {r.i} sent before request {j}", key="order")
        r.entered = True
        data = pkt.data.serialize()
        r.tsn = data[0] if r.kind == "zdo" else data[1]
        require(pkt.tsn == r.tsn, "transaction number of packet and frame differ", key="tsn")
        self.log.append(f"send{r.i}")
        r.gate = self.loop.create_future()
        try:
            await r.gate
        finally:
            r.sent = True

    async def client(self, r):
        dev = self.devs[r.dev]
        try:
            if r.kind == "zdo":
                return await dev.zdo.Node_Desc_req(dev.nwk, priority=r.prio)
            if r.kind == "noreply":
                return await dev.endpoints[1].on_off.toggle(expect_reply=False, priority=r.prio)
            return await dev.endpoints[1].on_off.read_attributes_raw([0x4003], priority=r.prio)
        finally:
            r.ended = True
            self.log.append(f"end{r.i}")

    # -- events --------------------------------------------------------------------
    def events(self):
        ev = []
        if self.started < len(self.reqs):
            ev.append(Ev(f"start{self.started}", self.start, idle=1, direct=True))
        b = self.budget
        for r in self.reqs[: self.started]:
            if r.gate is not None and not r.sent and not r.send_chosen:
                ev.append(Ev(f"sent{r.i}", self.send_result(r, None), idle=1, direct=True))
                if b["fail"]:
                    ev.append(Ev(f"fail{r.i}", self.send_result(r, "fail"), idle=1, direct=True))
            if r.entered and r.kind != "noreply":
                if not r.nreplies:
                    ev.append(Ev(f"reply{r.i}", self.reply(r), idle=1, direct=True))
                elif b["again"] and r.nreplies < 3:
                    ev.append(Ev(f"again{r.i}", self.reply(r, "again"), idle=1, direct=True))
                if b["garbage"] and not r.ended:
                    ev.append(Ev(f"garbage{r.i}", self.bad(r, "garbage"), idle=1, direct=True))
                for k in ("foreign", "reqdir", "wrong", "notify"):
                    if b[k] and (k != "foreign" or self.offset):
                        ev.append(Ev(f"{k}{r.i}", self.bad(r, k), idle=1, direct=True))
            if b["cancel"] and not r.task.done() and not r.cancelled:
                ev.append(Ev(f"cancel{r.i}", self.cancel(r), idle=1, direct=True))
        if not any(e.label.startswith(("start", "sent", "reply")) for e in ev) and all(
                r.task.done() for r in self.reqs[: self.started]):
            # everything is over: late packets are deviations from stopping here
            ev.insert(0, Ev("end", False, step=None))
        return ev

    def start(self):
        r = self.reqs[self.started]
        self.started += 1
        r.task = self.loop.create_task(self.client(r))

    def send_result(self, r, what):
        def f():
            r.send_chosen = True
            if what:
                self.budget["fail"] -= 1

            def go():
                if r.gate.done():
                    return
                if what is None:
                    r.gate.set_result(None)
                else:
                    r.failed = True
                    r.gate.set_exception(zigpy.exceptions.DeliveryError("no ack"))
            self.loop.call_soon(go)
        return f

    def payload(self, r, serial, tsn=None, direction=True, damage=False):
        """The reply packet of the device to request r, carrying `serial`."""
        tsn = r.tsn if tsn is None else tsn
        if r.kind == "zdo":
            body = bytes([tsn, 0]) + self.devs[r.dev].nwk.serialize() + node_desc(manufacturer_code=serial).serialize()
            cl = 0x8002
            if damage:
                body = body[:3]
            if not direction:
                body, cl = bytes([tsn]) + t.NWK(0x7777).serialize(), 0x0002
            return dict(data=body, profile=0, cluster=cl, src_ep=0, dst_ep=0)
        fc = 0x18
        if direction:
            body = zcl(fc, tsn, 0x01, bytes([0x03, 0x40, 0x00, 0x30, serial]))
            if damage:
                body = body[:-1]
        else:
            # a report of the device that happens to use our transaction number
            body = zcl(fc, tsn, 0x0A, bytes([0x03, 0x40, 0x30, serial]))
        return dict(data=body, profile=260, cluster=6, src_ep=1, dst_ep=1)

    def deliver(self, dev, kw):
        kw = dict(kw)
        self.app.packet_received(packet(dev, kw.pop("data"), **kw))

    def reply(self, r, budget=None):
        def f():
            if budget:
                self.budget[budget] -= 1
            r.nreplies += 1
            serial = self.serial
            self.serial += 1
            quiet = not self.loop.ready_count()

            def go():
                if not r.ended:
                    r.replies.append(serial)
                    if quiet and r.sure is None and not r.garbage and not r.cancelled:
                        r.sure = serial
                self.deliver(self.devs[r.dev], self.payload(r, serial))
            self.loop.call_soon(go)
        return f

    def bad(self, r, kind):
        def f():
            self.budget[kind] -= 1
            serial = self.serial
            self.serial += 1

            def go():
                dev = self.devs[r.dev]
                if kind == "garbage":
                    if not r.ended:
                        r.garbage += 1
                    self.deliver(dev, self.payload(r, serial, damage=True))
                elif kind == "foreign":
                    self.deliver(self.devs[3 - r.dev], self.payload(r, serial))
                elif kind == "reqdir":
                    self.deliver(dev, self.payload(r, serial, direction=False))
                elif kind == "notify":
                    # an alarm notification that happens to use our transaction number
                    self.deliver(dev, dict(data=zcl(0x19, r.tsn, 0x00, bytes([serial, 0, 0, 0, 0, 0])), profile=260,
                                           cluster=0x0500, src_ep=1, dst_ep=1))
                else:
                    self.deliver(dev, self.payload(r, serial, tsn=(r.tsn + 50) % 256))
            self.loop.call_soon(go)
        return f

    def cancel(self, r):
        def f():
            self.budget["cancel"] -= 1

            def go():
                if not r.task.done():
                    r.cancelled = True
                    r.task.cancel()
            self.loop.call_soon(go)
        return f

    # -- oracle --------------------------------------------------------------------
    def on_idle(self):
        for d in self.devs:
            waiting = [r.i for r in self.reqs[: self.started] if r.dev == d and not r.entered and not r.ended]
            busy = [r.i for r in self.reqs if r.dev == d and r.entered and not r.ended]
            require(not waiting or busy, f"requests {waiting} to an idle device {d} are not sent", key="stuck")
        self.waiting_settled = [r.i for r in self.reqs[: self.started] if not r.entered and not r.ended]
        for r in self.reqs:
            if r.sure is not None and r.sent:
                require(r.task.done(), f"request {r.i} got its reply but does not finish", key="reply-lost")

    def state(self):
        return tuple((r.entered, r.sent, r.ended, r.failed, r.cancelled, len(r.replies), r.garbage) for r in self.reqs)

    def outcome(self, r):
        if r.task.cancelled():
            return "cancelled", None
        e = r.task.exception()
        if isinstance(e, Violation):
            raise e
        if e is not None:
            return type(e).__name__, e
        res = r.task.result()
        if r.kind == "zdo":
            return "reply", res[2].manufacturer_code
        if r.kind == "noreply":
            return "reply", None
        require(isinstance(res, foundation.GENERAL_COMMANDS[foundation.GeneralCommand.Read_Attributes_rsp].schema),
                f"request {r.i} returned {res}", key="wrong-result")
        return "reply", res.status_records[0].value.value

    def check(self):
        res = []
        for r in self.reqs:
            require(r.task is not None and r.task.done(), f"request {r.i} never finished", key="hang")
            kind, val = self.outcome(r)
            res.append((kind, val if kind == "reply" else None))
            if kind == "reply" and r.kind == "noreply":
                require(r.sent and not r.failed, "finished without being sent", key="wrong-result")
            elif kind == "reply":
                require(val in r.replies, f"request {r.i} finished with packet {val}, its replies were {r.replies}",
                        key="wrong-reply")
                require(val == r.replies[0], f"request {r.i} finished with a later reply {val} of {r.replies}",
                        key="wrong-reply")
            elif kind == "cancelled":
                require(r.cancelled, f"request {r.i} was cancelled by nobody", key="spurious-cancel")
            elif kind == "TimeoutError":
                require(r.kind != "noreply", "timeout of a request without reply", key="spurious-timeout")
                require(r.sure is None, f"request {r.i} timed out although its reply {r.sure} had arrived",
                        key="reply-lost")
            elif kind == "DeliveryError":
                require(r.failed, f"request {r.i} reports a send failure that did not happen", key="spurious-failure")
            elif kind == "ParsingError":
                require(r.garbage, f"request {r.i} reports a bad reply that was not received", key="spurious-parse")
            else:
                raise Violation(f"request {r.i} ended with {kind}: {val!r}", key=f"ended:{kind}")
            if r.failed:
                require(kind in ("DeliveryError", "cancelled"), f"failed send reported as {kind}", key="failure-lost")
        for c in self.loop.errors:
            if str(c.get("message", "")).startswith("Exception in callback"):
                raise Violation(f"handling a packet failed: {c.get('exception')!r}", key="packet-error", data=c)
        return tuple(res)

    # -- afterwards ------------------------------------------------------------------
    async def finish_send(self, pkt):
        data = pkt.data.serialize()
        tsn = data[1]
        n = next(n for n, d in self.devs.items() if d.nwk == pkt.dst.address)
        serial = self.serial
        self.serial += 1
        self.last_serial = serial
        fake = Req(99, n, "zcl", 0)
        fake.tsn = tsn
        self.loop.call_soon(lambda: self.deliver(self.devs[n], self.payload(fake, serial)))

    def afterwards(self):
        """Late replies are harmless, every transaction number is free, the devices still answer."""
        self.finished = True
        n = len(self.app.sent)
        for r in self.reqs:
            if r.tsn is None or r.kind == "noreply":
                continue
            serial = self.serial
            self.serial += 1
            self.deliver(self.devs[r.dev], self.payload(r, serial))
        self.loop.drain()
        require(len(self.app.sent) == n, "a late reply triggered a packet", key="late-reply")
        for r in self.reqs:
            dev = self.devs[r.dev]
            for tsn in [r.tsn]:
                try:
                    res = self.loop.run(dev.endpoints[1].on_off.read_attributes_raw([0x4003], tsn=tsn))
                except Exception as e:  # noqa: BLE001
                    raise Violation(f"a new request (transaction {tsn}) fails with {e!r}", key="left-behind") from e
                require(res.status_records[0].value.value == self.last_serial, "new request got an old reply",
                        key="wrong-reply")


def run(ch, reqs, offset=True, few=False):
    with LoopCtx() as loop:
        s = Sys(loop, ch, [tuple(r) for r in reqs], offset, few)
        Driver(loop, ch, s.events, on_idle=s.on_idle, state=s.state, time_cost=1).run()
        res = s.check()
        s.afterwards()
        return res
