"""C18: a firmware update against every device behaviour up to the stated number of steps and deviations."""
from __future__ import annotations

import asyncio
import struct

import zigpy.exceptions
import zigpy.ota
import zigpy.ota.image as zi
import zigpy.ota.manager
import zigpy.ota.providers as zp
import zigpy.types as t
from zigpy.zcl import foundation

from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import Driver, Ev, add_device, make_app, packet, zcl

LEVEL = "model_checking"
VALIDATED = ("no separate model: every explored trace runs the real update against a scripted device; the reference is the image itself and the times of the last block")
ASSUMPTIONS = ["asyncio runs ready callbacks in FIFO order", "the radio either sends a packet, immediately or after a while, or reports a failure; it does not hang"]

MANUF, TYPE, VERSION = 0x1234, 0x5678, 0x00000020
PROGRESS = getattr(zigpy.ota.manager, "MAX_TIME_WITHOUT_PROGRESS", 30)
MAX_BLOCK = getattr(zigpy.ota.manager, "MAXIMUM_IMAGE_BLOCK_SIZE", 40)
SEQ = ("query", "block", "badblock", "end")


def scenarios(tier, seed):
    th = tier == "thorough"
    out = []
    # whole transfers with deviations
    for size in (9, 75, 130):
        for ask in (20, 40, 64):
            out.append(dict(fn="run", bound=3 if (size, ask) == (9, 40) or th and (size, ask) in ((75, 40), (130, 64)) else 2, split=True, args=dict(size=size, ask=ask, boundary=size == 75, sends=True)))
    for size in (75,):
        out.append(dict(fn="run", bound=3 if th else 2, split=True, args=dict(size=size, ask=40, boundary=False, sends=True, force=True)))
        out.append(dict(fn="run", bound=3 if th else 2, split=True, args=dict(size=size, ask=40, boundary=False, sends=True, again=True)))
        out.append(dict(fn="run", bound=2, split=True, args=dict(size=size, ask=40, boundary=False, sends=True, again="force")))
    # every sequence of device steps
    out.append(dict(fn="run", bound=5 if th else 4, split=True, args=dict(size=75, ask=40, boundary=False, sends=False, free=True), limit=200000))
    return out


def make_image(n):
    data = bytes((7 * i + 3) & 255 for i in range(n))
    sub = struct.pack("<HI", 0, n) + data
    raw = struct.pack("<IHHHHHIH", 0x0BEEF11E, 0x0100, 56, 0, MANUF, TYPE, VERSION, 2) + b"img".ljust(32, b"\0") + struct.pack("<I", 56 + len(sub)) + sub
    return zi.parse_ota_image(raw)[0], raw


class Sys:
    def __init__(self, loop, ch, size, ask, sends, force=False, again=False):
        self.loop, self.ch = loop, ch
        self.app = make_app()
        eps = {1: (260, 0x0100, (0, 6), (0x19,)), 2: (260, 0x0100, (0,), (0x19,))}
        self.dev = add_device(self.app, 1, endpoints=eps, model="mod", manufacturer="man")
        self.other = add_device(self.app, 2, endpoints=eps, model="mod", manufacturer="man")
        loop.drain()
        self.app.on_send = self.on_send
        self.image, self.raw = make_image(size - 6 - 56 if size > 62 else size)
        self.meta = zp.BaseOtaImageMetadata(file_version=VERSION, manufacturer_id=MANUF, image_type=TYPE)
        self.img = zigpy.ota.OtaImageWithMetadata(metadata=self.meta, firmware=self.image)
        self.ask, self.sends, self.force, self.again = ask, sends, force, again
        self.tsn = 0
        self.asked = {}  # tsn -> (kind, offset, maximum)
        self.unanswered = {}  # block requests inside the image that wait for their data
        self.running = False
        self.result = None
        self.progress = None  # time of the last notify or block that was sent
        self.busy = 0
        self.confirmed = False  # upgrade end with success arrived while the update was running
        self.failed = False  # a send failed
        self.ended = set()
        self.live = set()
        self.offset = 0
        self.next = "query"
        self.steps = 0
        self.last = None
        self.viol = None
        self.log = []
        self.notified = 0
        self.cancelled = False
        self.task = None
        self.reads = 0
        self.calls = []
        self.seconds = []

    # -- the radio -------------------------------------------------------------------------
    async def on_send(self, p):
        try:
            fate = self.sent(p)
        except Violation as e:
            self.viol = self.viol or e
            return
        if fate == "slow":
            self.busy += 1
            try:
                await asyncio.sleep(3)
            finally:
                self.busy -= 1
        elif fate == "refused":
            self.failed = True
            raise zigpy.exceptions.DeliveryError("no")
        elif fate == "silent":
            self.failed = True
            await asyncio.sleep(2)
            raise asyncio.TimeoutError
        self.delivered(p)

    def sent(self, p):
        if p.dst.address != self.dev.nwk or p.cluster_id != 0x19:
            require(p.dst.address == self.other.nwk, f"packet to {p.dst}", key="destination")
            return "ok"
        raw = bytes(p.data.serialize())
        fc, tsn, cmd, body = raw[0], raw[1], raw[2], raw[3:]
        self.log.append((round(CLOCK.t), "sent", fc, cmd, tsn))
        if fc & 3 == 0:
            return "ok"  # general commands: reading the version, default responses
        require(fc & 0x08, "an OTA command was sent in client to server direction", key="direction")
        if cmd == 0:
            self.notified += 1
        elif cmd == 2:
            kind, *_ = self.asked.get(tsn, (None,))
            require(kind in ("query", "oldquery"), f"query answered although the request {tsn} was {kind}", key="unasked")
            if body[0] == 0:
                require(self.force or kind == "query", "an update was announced to a device that it does not fit", key="announced")
                got = struct.unpack("<HHII", body[1:])
                want = (MANUF, TYPE, 0xFFFFFFFE if self.force else VERSION, len(self.raw))
                require(got == want, f"announced {got}, the image is {want}", key="announced")
            else:
                require(not self.active() or kind == "oldquery", "a fitting device was told that there is no image", key="announced", data=self.log)
        elif cmd == 5:
            kind, off, most = self.asked.get(tsn, (None, 0, 0))
            require(kind in ("block", "badblock"), f"block sent although request {tsn} was {kind}", key="unasked")
            if body[0] == 0:
                manuf, typ, ver, o, n = struct.unpack("<HHIIB", body[1:14])
                data = body[14:]
                require((manuf, typ, ver) == (MANUF, TYPE, 0xFFFFFFFE if self.force else VERSION), "block of another image", key="block-image")
                require(o == off, f"block at {o} sent for a request at {off}", key="block-offset")
                require(n == len(data) and 0 < n <= min(most, MAX_BLOCK), f"block of {len(data)} bytes ({n}) for a request of at most {most}", key="block-size")
                require(data == self.image_bytes()[o : o + n], f"block at {o} differs from the image", key="block-data")
                require(tsn in self.live, "a block was handed out for a request made after the update had ended", key="block-after-end", data=self.log)
            else:
                require(len(body) == 1, "a refusal with data", key="block-refused")
                require(kind == "badblock" or self.over() or self.closing(), f"block at {off} of {len(self.raw)} was refused ({body[0]:#x})", key="block-refused", data=self.log)
            self.unanswered.pop(tsn, None)
        elif cmd == 7:
            kind, *_ = self.asked.get(tsn, (None,))
            require(kind == "end", f"upgrade end answered although request {tsn} was {kind}", key="unasked")
        else:
            raise Violation(f"unexpected OTA command {cmd}", key="command")
        if self.sends and self.running:
            fates = ("ok", "slow", "refused", "silent")
            return fates[self.ch.choose(fates, [0, 1, 1, 1], "send")]
        return "ok"

    def image_bytes(self):
        return self.img_sent

    def delivered(self, p):
        raw = bytes(p.data.serialize())
        if p.dst.address != self.dev.nwk or p.cluster_id != 0x19:
            return
        if raw[0] & 3 and (raw[2] == 0 or (raw[2] == 5 and raw[3] == 0)):
            if self.running:
                self.progress = CLOCK.t
        elif raw[0] & 3 == 0 and raw[2] == 0:
            self.reads += 1
            self.loop.call_soon(lambda: self.app.packet_received(packet(self.dev, zcl(0x18, raw[1], 1, b"\x02\x00\x00\x23" + struct.pack("<I", VERSION)), cluster=0x19)))

    def active(self):
        return self.running and self.task is not None and not self.task.done() and not self.closing()

    def closing(self):
        """Something that ends the update has happened, its handlers may still be at work."""
        return self.failed or self.ended or self.cancelled

    def over(self):
        return not self.running

    # -- the device ---------------------------------------------------------------------------
    def recv(self, payload, dev=None, ep=1):
        self.app.packet_received(packet(dev or self.dev, payload, cluster=0x19, src_ep=ep))

    def new(self, kind, off=0, most=0):
        self.tsn += 1
        self.asked[self.tsn] = (kind, off, most)
        if self.running:
            self.live.add(self.tsn)
        return self.tsn

    def query(self, version=VERSION - 1, typ=TYPE, manuf=MANUF, kind="query"):
        def go():
            if self.active() and kind == "oldquery" and not self.force:
                self.ended.add("no-image")
            self.recv(zcl(1, self.new(kind), 1, struct.pack("<BHHI", 0, manuf, typ, version)))
        return go

    def block(self, off=None, most=None, advance=True):
        def go():
            o = self.offset if off is None else off
            m = self.ask if most is None else most
            inside = o < len(self.raw) and m > 0
            tsn = self.new("block" if inside else "badblock", o, m)
            if self.active():
                if inside:
                    self.unanswered[tsn] = o
                else:
                    self.ended.add("malformed")
            self.last = zcl(1, tsn, 3, struct.pack("<BHHIIB", 0, MANUF, TYPE, VERSION, o, m))
            self.recv(self.last)
            if inside and advance:
                self.offset = min(len(self.raw), o + min(m, MAX_BLOCK))
        return go

    def repeat(self):
        self.recv(self.last)

    def end(self, status):
        def go():
            tsn = self.new("end")
            if self.task is not None and not self.task.done():
                if status == 0 and self.running:
                    self.confirmed = True
                self.ended.add(("end", status))
            self.recv(zcl(1, tsn, 6, struct.pack("<BHHI", status, MANUF, TYPE, VERSION)))
        return go

    def page(self):
        self.recv(zcl(1, self.new("page"), 4, struct.pack("<BHHIIBHH", 0, MANUF, TYPE, VERSION, 0, 40, 80, 10)))

    def foreign(self):
        """Another device asks."""
        self.recv(zcl(1, 0xF0, 3, struct.pack("<BHHIIB", 0, MANUF, TYPE, VERSION, 0, 40)), dev=self.other)

    def second(self):
        """Another update of the same device is asked for while this one runs."""
        self.seconds.append((self.notified, self.loop.create_task(self.dev.update_firmware(self.img, force=self.again == "force"))))


def run(ch, size, ask, boundary, sends, force=False, again=False, free=False):
    with LoopCtx(0.0) as loop:
        s = Sys(loop, ch, size, ask, sends, force, again)
        s.img_sent = s.raw
        if force:
            s.img_sent = s.raw[:14] + struct.pack("<I", 0xFFFFFFFE) + s.raw[18:]

        def progress(current, total, percent):
            s.calls.append((current, total, percent))
            require(not s.over() and 0 < current <= total == len(s.raw) and abs(percent - 100 * current / total) < 1e-6, f"progress {current} of {total}", key="progress")

        async def update():
            s.running = True
            s.start = CLOCK.t
            try:
                # the update proper ends when it stops being "in progress"
                return await s.dev.update_firmware(s.img, progress_callback=progress, force=force)
            finally:
                s.over_at = CLOCK.t
                s.running = False

        def state():
            return (s.offset, s.next, s.task.done(), s.busy, tuple(sorted(map(str, s.ended))), s.failed, round(CLOCK.t - (s.progress or 0)))

        def check():
            if s.viol:
                raise s.viol
            if loop.errors:
                raise Violation(f"exception left over: {loop.errors[0].get('exception')!r}", key="exception")
            if s.running and not s.dev.ota_in_progress and s.notified:
                s.running = False
                s.over_at = CLOCK.t
            for before, task in s.seconds:
                if task.done():
                    require(not task.cancelled() and task.exception() is None and task.result() is None, "a second update of the device ran", key="second-update")
            if s.seconds:
                require(s.notified == s.seconds[0][0], "a second update of the device started", key="second-update")
            if s.running and s.progress is not None and not s.busy:
                require(CLOCK.t <= s.progress + PROGRESS + 6, f"no progress since {CLOCK.t - s.progress} s and the update is still running", key="never-ends", data=s.log)

        def events():
            if not s.notified or s.task.done() and not again:
                return []
            out = []
            if s.over():
                return out
            cost = 1
            default = None
            if s.steps >= 12:
                return out
            if s.next == "query":
                default = ("query", s.query())
            elif s.offset < len(s.raw):
                default = ("block", s.block())
            elif s.next != "done":
                default = ("end", s.end(0))

            def ev(label, fn, cost=1, step=None):
                def go():
                    s.steps += 1
                    s.log.append((round(CLOCK.t), label))
                    fn()
                    if label == "query":
                        s.next = "block"
                    elif label == "end":
                        s.next = "done"
                out.append(Ev(label, go, cost, step, direct=free))

            st = 1 if boundary else None
            if default and not s.busy:
                ev(default[0], default[1], 1 if free else 0, st)
            if default is None or default[0] != "query":
                ev("query", s.query(), 1)
            ev("query-same", s.query(VERSION, kind="oldquery"), 1)
            if not free:
                ev("query-newer", s.query(VERSION + 1, kind="oldquery"), 1)
                ev("query-type", s.query(typ=TYPE + 1, kind="oldquery"), 1)
                ev("query-manuf", s.query(manuf=MANUF + 1, kind="oldquery"), 1)
                ev("foreign", s.foreign, 1)
                ev("block-2", s.block(2, 7, False), 1)
                ev("block-last", s.block(len(s.raw) - 1, 64, False), 1)
                ev("block-over", s.block(len(s.raw) + 1, 40, False), 1)
                ev("block-far", s.block(0xFFFFFFFF, 255, False), 1)
                ev("end-invalid", s.end(0x96), 1, st)
                ev("end-more", s.end(0x99), 1)
            else:
                ev("block-0", s.block(0, 255, False), 1)
            ev("block-end", s.block(len(s.raw), 40, False), 1)
            ev("block-none", s.block(5, 0, False), 1)
            if s.last:
                ev("repeat", s.repeat, 1)
            if default is None or default[0] != "end":
                ev("early-end", s.end(0), 1, st)
            ev("abort", s.end(0x95), 1, st)
            ev("page", s.page, 1)
            ev("second", s.second, 1)
            if not s.cancelled:
                def cancel():
                    s.cancelled = True
                    s.task.cancel()
                ev("cancel", cancel, 1, st)
            if s.progress is not None and not s.busy and not (free and s.steps > 3):
                def wait(d):
                    def go():
                        loop.advance_to(s.progress + d)
                    return go
                if CLOCK.t < s.progress + PROGRESS - 1:
                    out.append(Ev("wait", wait(PROGRESS - 1), 1, None, direct=True))
            return out

        s.task = loop.create_task(update())
        Driver(loop, ch, events, boundary=boundary, horizon=400, on_step=check, on_idle=check, state=state, time_cost=1, stop="timers").run()
        loop.run_idle(CLOCK.t + 400)
        check()
        outcome = finish(loop, s)
        check()
        if again or s.ch.cost <= 1:
            afterwards(loop, s, check)
        return (outcome, s.offset, s.failed, len(s.calls))


def finish(loop, s):
    require(s.task.done(), "the update never ended", key="never-ends", data=s.log)
    if s.task.cancelled():
        require(s.cancelled, "the update was cancelled by nobody", key="cancelled")
        return "cancelled"
    if s.task.exception() is not None:
        require(not isinstance(s.task.exception(), Violation), f"{s.task.exception()}", key="progress")
        require(s.failed or s.confirmed, f"the update raised {s.task.exception()!r}", key="raised", data=s.log)
        return "raised"
    r = s.task.result()
    require(isinstance(r, foundation.Status), f"the update's result is {r!r}", key="result", data=s.log)
    if r == foundation.Status.SUCCESS:
        require(s.confirmed, "success although the device did not confirm it", key="success", data=s.log)
    elif r == foundation.Status.TIMEOUT:
        require(s.over_at >= s.progress + PROGRESS - 1e-6, f"timed out {s.over_at - s.progress} s after the last progress", key="early-timeout", data=s.log)
    else:
        want = s.failed or any(e in ("no-image", "malformed") or e[1] == r for e in s.ended)
        require(want, f"the update ended with {r} for no reason", key="result", data=(s.log, s.ended))
    if s.confirmed and not s.failed and len(s.ended) == 1:
        require(r == foundation.Status.SUCCESS or r == foundation.Status.TIMEOUT, f"the device confirmed and the result is {r}", key="not-success", data=s.log)
    if not s.failed and not s.closing():
        require(r == foundation.Status.TIMEOUT, f"ended with {r} although nothing happened", key="result", data=s.log)
        require(not s.unanswered, f"block requests at {sorted(s.unanswered.values())} were never answered", key="unanswered", data=s.log)
    return r.name


def afterwards(loop, s, check):
    """Nothing remains subscribed, and another update works."""
    s.sends = False
    require(not s.dev.ota_in_progress, "the device still counts as being updated", key="in-progress")
    CLOCK.t += 100
    n = len(s.app.sent)
    kinds = []

    def note(what):
        for p in s.app.sent[n:]:
            raw = bytes(p.data.serialize())
            if raw[0] & 3:
                kinds.append((what, raw[2], raw[3]))
        require(all(c in (2, 5, 7) and (c == 7 or st) for _, c, st in kinds) , f"after the update a device still gets {kinds}", key="still-subscribed")

    for what, fn in (("block", s.block(0, 40, False)), ("query", s.query()), ("end", s.end(0))):
        n = len(s.app.sent)
        fn()
        loop.drain()
        if s.viol:
            raise s.viol
        note(what)
    require(not any(c == 7 for _, c, _ in kinds), "the end of an upgrade is answered after the update is over", key="still-subscribed")
    # a complete second update
    require(all(task.done() for _, task in s.seconds), "a second update of the device ran", key="second-update")
    s.seconds.clear()
    s.asked.clear()
    s.failed = s.confirmed = s.cancelled = False
    s.ended.clear()
    s.unanswered.clear()
    before = s.notified

    async def again():
        s.running = True
        s.progress = None
        return await s.dev.update_firmware(s.img, force=s.force)

    s.task = loop.create_task(again())
    loop.drain()
    require(s.notified == before + 1, "the next update does not start", key="next-update")
    got = b""
    s.query()()
    loop.drain()
    while len(got) < len(s.raw):
        n = len(s.app.sent)
        s.block(len(got), 33, False)()
        loop.drain()
        if s.viol:
            raise s.viol
        new = [bytes(p.data.serialize()) for p in s.app.sent[n:]]
        require(len(new) == 1 and new[0][2] == 5 and new[0][3] == 0, f"the next update answers a block with {len(new)} packets", key="next-update")
        got += new[0][17:]
    require(got == s.img_sent, "the next update hands out another image", key="next-update")
    s.end(0)()
    loop.drain()
    s.running = False
    loop.run_idle(CLOCK.t + 400)
    require(s.task.done() and not s.task.cancelled() and s.task.exception() is None and s.task.result() == foundation.Status.SUCCESS, "the next update failed", key="next-update")
    if s.viol:
        raise s.viol
