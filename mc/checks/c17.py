"""C17: topology scans against scripted devices: every paging, every fault, every interruption."""
from __future__ import annotations

import struct

import zigpy.config as conf
import zigpy.exceptions
import zigpy.types as t
import zigpy.zdo.types as zdo_t

from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import COORD_IEEE, Driver, Ev, FakeApp, add_device, ieee, make_app, packet
from .c04 import neighbor, route

LEVEL = "model_checking"
VALIDATED = ("no separate model of the scan: every explored trace runs the real scanner, retries and parsing against scripted devices; "
             "the oracle is what those devices answered")
ASSUMPTIONS = ["asyncio runs ready callbacks in FIFO order", "a device's table does not change between two pages of one scan",
               "a device answers every page that is within its table with at least one entry"]

LQI, RTG = 0x31, 0x32
STATUS = [zdo_t.RouteStatus.Active, zdo_t.RouteStatus.Inactive, zdo_t.RouteStatus.Discovery_Underway, zdo_t.RouteStatus.Discovery_Failed,
          zdo_t.RouteStatus.Validation_Underway]
NOBODY = ("00:00:00:00:00:00:00:00", "ff:ff:ff:ff:ff:ff:ff:ff")


def scenarios(tier, seed):
    full = tier == "thorough"
    out = []
    for page in (1, 2, 3, 4):
        out.append(dict(fn="paging", kind="bulk", args=dict(page=page, most=6 if full else 5)))
    for skip in (False, True):
        out.append(dict(fn="run", bound=3 if full else 2, split=True, args=dict(size=1 + skip, page=1, skip=skip, mode="faults")))
    out.append(dict(fn="run", bound=3 if full else 2, split=True, args=dict(size=3, page=2, skip=True, mode="faults")))
    out.append(dict(fn="moving", bound=3, split=True, args=dict(size=2, page=1)))
    for mode in ("stop", "shutdown", "preempt", "restart"):
        for size, page in ((1, 1), (2, 1)):
            out.append(dict(fn="run", bound=3 if full else 2, split=True, args=dict(size=size, page=page, skip=True, mode=mode)))
    return out


def tables(n, size, version):
    """What device n answers in a scan."""
    nei = [neighbor(n + 1 + i, lqi=10 * version + i, depth=i) for i in range(size)]
    if size > 1:
        nei[1] = neighbor(0x40 + n, lqi=10 * version)  # nobody knows this one
    if size > 2:
        nei[2] = neighbor(9, ieee=t.EUI64.convert(NOBODY[n % 2]))
    rts = [route(0x1001 + (i + version) % 2, STATUS[(i + n) % len(STATUS)]) for i in range(size)]
    return {LQI: nei, RTG: rts}


def stored(table, kind):
    if kind == LQI:
        return [x.serialize() for x in table if str(x.ieee) not in NOBODY]
    return [x.serialize() for x in table if x.RouteStatus != zdo_t.RouteStatus.Inactive]


class Sys:
    def __init__(self, loop, size, page, skip, budget=()):
        self.loop = loop
        self.app = make_app(FakeApp, **{conf.CONF_TOPO_SCAN_PERIOD: 60, conf.CONF_TOPO_SKIP_COORDINATOR: skip})
        self.skip = skip
        self.devs = {0: self.app.devices[COORD_IEEE]}
        for n in (1, 2):
            self.devs[n] = add_device(self.app, n)
        self.sleepy = add_device(self.app, 3, logical_type=zdo_t.LogicalType.EndDevice, rx_on=False)
        self.bare = self.app.add_device(ieee(4), t.NWK(0x1004))
        loop.drain()
        self.app.on_send = self.send
        self.app.topology.add_listener(self)
        self.size, self.page = size, page
        self.version = dict.fromkeys([(n, k) for n in self.devs for k in (LQI, RTG)], 0)
        self.store = dict.fromkeys(self.version)  # what has to be stored (None: nothing yet)
        self.maybe = dict.fromkeys(self.version)  # ... or, after an interruption, this
        self.refused = set()
        self.pend = []
        self.sends = 0
        self.discovered = []
        self.viol = None
        self.interrupted = False
        self.asked = set()
        self.faulty = self.faulted = False

    def neighbors_updated(self, addr, rows):
        self.updated(addr, rows, LQI)

    def routes_updated(self, addr, rows):
        self.updated(addr, rows, RTG)

    def updated(self, addr, rows, kind):
        n = next((k for k, d in self.devs.items() if d.ieee == addr), None)
        if n is None:
            self.viol = self.viol or Violation(f"table of {addr}, which is no router, was updated", key="end-device")
        elif [x.serialize() for x in rows] != [x.serialize() for x in self.rows(n, kind)]:
            self.viol = self.viol or Violation("the reported table is not the stored one", key="event")

    def rows(self, n, kind):
        return (self.app.topology.neighbors if kind == LQI else self.app.topology.routes).get(self.devs[n].ieee) or []

    async def send(self, pkt):
        data = pkt.data.serialize()
        self.sends += 1
        if pkt.dst.addr_mode == t.AddrMode.Broadcast:
            self.discovered.append(struct.unpack("<H", data[1:3])[0])
            return
        n = next((k for k, d in self.devs.items() if d.nwk == pkt.dst.address), None)
        if n is None or pkt.cluster_id not in (LQI, RTG) or (n == 0 and self.skip):
            self.viol = self.viol or Violation(f"unexpected request to {pkt.dst}: {pkt.cluster_id:#x}", key="end-device")
            return
        kind = int(pkt.cluster_id)
        self.asked.add((n, kind))
        if (n, kind) in self.refused and not self.interruptible:
            self.viol = self.viol or Violation(f"device {n} refused table {kind:#x} before and is asked again", key="asked-again")
        fut = self.loop.create_future()
        entry = (n, kind, data, fut)
        self.pend.append(entry)
        try:
            await fut
        finally:
            if entry in self.pend:
                self.pend.remove(entry)

    def answer(self, entry, how):
        def go():
            n, kind, data, fut = entry
            if fut.done():
                return
            self.pend.remove(entry)
            self.faulted |= how != "ok"
            if how == "undelivered":
                return fut.set_exception(zigpy.exceptions.DeliveryError("no"))
            fut.set_result(None)
            if how != "lost":
                self.loop.call_soon(self.reply, n, kind, data, how)
        return go

    def reply(self, n, kind, data, how):
        tsn, index = data[0], data[1]
        if index == 0:
            self.version[n, kind] += 1
        table = tables(n, self.size, self.version[n, kind])[kind]
        part = table[index:index + self.page]
        body = bytes([0, len(table), index, len(part)]) + b"".join(x.serialize() for x in part)
        if how == "refused":
            body = b"\x84"
            self.refused.add((n, kind))
            self.store[n, kind] = []
        elif how == "cut":
            body = body[:-1] if part else body[:-2]
        elif how == "short":
            body = body[:1]
        elif index + len(part) >= len(table):
            if self.interruptible:
                self.maybe[n, kind] = stored(table, kind)
            else:
                self.store[n, kind] = stored(table, kind)
        if how == "refused" and self.interruptible:
            self.maybe[n, kind], self.store[n, kind] = [], self.was[n, kind]
        self.app.packet_received(packet(self.devs[n], bytes([tsn]) + body, profile=0, cluster=kind | 0x8000, src_ep=0, dst_ep=0))

    interruptible = False
    was = None

    def settle(self):
        """The scan ended by itself: what was answered is stored."""
        for k, v in self.maybe.items():
            if v is not None:
                self.store[k], self.maybe[k] = v, None

    def check(self, what):
        if self.viol:
            raise self.viol
        for (n, kind), want in self.store.items():
            got = [x.serialize() for x in self.rows(n, kind)]
            ok = [want or []] + ([self.maybe[n, kind]] if self.maybe[n, kind] is not None else [])
            require(got in ok, f"{what}: table {kind:#x} of device {n} has {len(got)} entries {[g.hex() for g in got][:3]}, "
                    f"expected {[[g.hex() for g in o][:3] for o in ok]}", key="table")
            if got == self.maybe[n, kind]:
                self.store[n, kind] = got
            self.maybe[n, kind] = None

    def events(self):
        evs = []
        if self.pend:
            entry = self.pend[0]
            evs.append(Ev("ok", self.answer(entry, "ok"), 0, None))
            if self.faulty:
                evs += [Ev(how, self.answer(entry, how), 1, None) for how in ("lost", "undelivered", "refused", "cut", "short", "dead")]
        return evs


def paging(st, page, most):
    """All table sizes, fault free."""
    with LoopCtx() as loop:
        for size in range(most + 1):
            for skip in (False, True):
                s = Sys(loop, size, page, skip)
                for again in range(2):
                    task = loop.create_task(s.app.topology.scan())
                    while not task.done():
                        loop.drain()
                        if s.pend:
                            s.answer(s.pend[0], "ok")()
                        elif not task.done():
                            loop.fire_timers()
                    loop.drain()
                    what = f"{size} entries, {page} per page"
                    require(task.exception() is None, f"{what}: {task}", key="scan-error")
                    for n in s.devs:
                        for kind in (LQI, RTG):
                            require((s.store[n, kind] is None) == (n == 0 and skip), f"{what}: table {kind:#x} of device {n} was not read to its end", key="table")
                    s.check(what)
                    unknown(s, what)
                    st.executions += 1
                    st.transitions += s.sends
                    st.states.add((size, page, skip, again))
                    st.outcomes.add((size, s.sends))
                loop.run(s.app.shutdown())
                loop.drain()
        st.samples.append(f"page {page}: {st.executions} scans")


def unknown(s, what):
    """Neighbors nobody knows are looked for, once; known ones are not."""
    want = {int(x.nwk) for (n, kind) in s.store if kind == LQI for x in s.rows(n, kind)}
    want = {x for x in want if not any(d.nwk == x for d in s.app.devices.values())}
    may = want | {int(a) for (n, kind) in s.store if kind == RTG for x in s.rows(n, kind) for a in (x.DstNWK, x.NextHop)}
    known = {int(d.nwk) for d in s.app.devices.values()}
    got = s.discovered
    require(want <= set(got) and len(set(got)) == len(got), f"{what}: looked for {got}, unknown neighbors {want}", key="discover")
    require(set(got) <= may - known, f"{what}: looked for {got}, but only {may - known} were reported", key="discover")
    s.discovered = []


def all_asked(s, refused, what):
    """Whatever went wrong with one table, every other one was asked for."""
    missing = [k for k in s.store if k not in s.asked and k not in refused and not (s.skip and k[0] == 0)]
    require(not missing, f"{what}: nobody asked for {missing}", key="not-asked")
    s.asked.clear()


def moving(ch, size, page):
    """Devices join and leave while the network is being scanned."""
    with LoopCtx() as loop:
        s = Sys(loop, size, page, True)
        app = s.app
        left = dict(join=2, leave=1)
        gone = []

        def join():
            left["join"] -= 1
            add_device(app, 20 + left["join"], logical_type=zdo_t.LogicalType.EndDevice, rx_on=False)

        def leave():
            left["leave"] -= 1
            gone.append(4)
            app.devices.pop(s.bare.ieee)

        def events():
            evs = s.events()
            if not task.done():
                evs += [Ev(w, f, 1, 1) for w, f in (("join", join), ("leave", leave)) if left[w]]
            return evs

        task = loop.create_task(app.topology.scan())
        Driver(loop, ch, events, boundary=False, time_cost=9).run(task.done)
        loop.drain()
        require(task.exception() is None, f"scan ended with {task}", key="scan-error")
        for n in (1, 2):
            for kind in (LQI, RTG):
                require(s.store[n, kind] is not None, f"table {kind:#x} of device {n} was not read to its end", key="table")
        s.check("a scan of a changing network")
        return len(gone), left["join"]


def run(ch, size, page, skip, mode):
    with LoopCtx() as loop:
        s = Sys(loop, size, page, skip)
        topo = s.app.topology
        # a first scan fills the tables
        first = loop.create_task(topo.scan())
        Driver(loop, ch, s.events, boundary=False, time_cost=9).run(first.done)
        loop.drain()
        s.check("first scan")
        unknown(s, "first scan")
        s.was = dict(s.store)
        CLOCK.t += 5
        dead = [False]

        def ev_dead(entry):
            def go():
                dead[0] = True
                s.answer(entry, "lost")()
            return go

        def events():
            evs = s.events()
            if dead[0] and s.pend:
                return [Ev("dead", s.answer(s.pend[0], "lost"), 0, None), Ev("alive", lambda: dead.__setitem__(0, False), 1, None)]
            return [Ev(e.label, ev_dead(s.pend[0]), 1, None) if e.label == "dead" else e for e in evs]

        log = []
        if mode == "faults":
            s.faulty = True
            s.asked.clear()
            task = loop.create_task(topo.scan())
            Driver(loop, ch, events, boundary=False, time_cost=9).run(task.done)
            loop.drain()
            require(task.exception() is None, f"scan ended with {task}", key="scan-error")
            s.check("scan with faults")
            unknown(s, "scan with faults")
            all_asked(s, set(), "scan with faults")
            # the next scan is complete again, except for what was refused
            s.faulty = dead[0] = False
            refused = set(s.refused)
            task = loop.create_task(topo.scan())
            Driver(loop, ch, events, boundary=False, time_cost=9).run(task.done)
            loop.drain()
            s.check("the scan after that")
            all_asked(s, refused, "the scan after that")
            return len(s.refused), s.sends
        s.interruptible = True
        s.faulty = size == 1
        topo.start_periodic_scans(100)
        begin = s.sends
        done = [0]
        quiet = [None]
        extra = []

        def stop():
            log.append(("stop", s.sends))
            if mode == "stop":
                topo.stop_periodic_scans()
            elif mode == "shutdown":
                extra.append(loop.create_task(s.app.shutdown()))
            elif mode == "restart":
                topo.start_periodic_scans(100)
            else:
                extra.append(loop.create_task(topo.scan([s.devs[1]])))
            done[0] += 1
            quiet[0] = s.sends, CLOCK.t

        def evs():
            out = events()
            if not done[0] and s.sends > begin and CLOCK.t < start + 150:
                out.append(Ev(mode, stop, 1, 1, direct=True))
            return out

        def calm():
            """Until nothing was sent for a while: the scan under way is over."""
            while True:
                n = s.sends
                Driver(loop, ch, events, boundary=False, horizon=CLOCK.t + 30, time_cost=9, stop="timers").run()
                CLOCK.t = max(CLOCK.t, loop.time())
                if s.sends == n:
                    return
                loop.run_idle(CLOCK.t + 1)

        start = CLOCK.t
        d = Driver(loop, ch, evs, boundary=True, horizon=start + 195, time_cost=9, stop="timers",
                   state=lambda: (len(s.pend), s.sends, done[0]))
        d.run()
        require(s.sends > begin, "the scheduled scan did not run", key="schedule")
        if not done[0]:
            # the scheduled scan ran by itself to its end
            calm()
            s.settle()
            s.check("scheduled scan")
            unknown(s, "scheduled scan")
            return "undisturbed", s.sends
        for e in extra:
            require(e.done() and not e.cancelled() and e.exception() is None, f"{mode}: {e}", key="interrupting")
        if mode in ("stop", "shutdown", "restart"):
            if mode != "shutdown":
                require(s.sends == quiet[0][0], f"{mode}: {s.sends - quiet[0][0]} requests sent afterwards", key="sent-after-stop")
            # shutting down may take until the radio is disconnected, nothing is sent after that
            s.check(mode)
            n, found = s.sends, len(s.discovered)
            until = quiet[0][1] + 99 if mode == "restart" else CLOCK.t + 400
            Driver(loop, ch, events, boundary=False, horizon=until, time_cost=9).run()
            require(s.sends == n, f"{mode}: {s.sends - n} requests sent later", key="sent-after-stop")
            s.check(mode)
            if mode == "restart":
                Driver(loop, ch, events, boundary=False, horizon=quiet[0][1] + 199, time_cost=9).run()
                per = 2 * 2 * max(1, -(-size // page))
                asked = s.sends - n - (len(s.discovered) - found)
                s.settle()
                s.check("restarted schedule")
                require(asked == per or s.faulted, f"after a restart {asked} requests were sent in the next period instead of {per}", key="restart")
        else:
            # the new scan ran to its end; the device it covered has the newest tables
            for k, v in s.maybe.items():
                if k[0] == 1 and v is not None and not s.faulted:
                    s.store[k], s.maybe[k] = v, None
            s.check(mode)
            n = s.sends
            Driver(loop, ch, events, boundary=False, horizon=start + 395, time_cost=9).run()
            require(s.sends > n, "the schedule ended when another scan replaced a scheduled one", key="schedule")
            calm()
            s.settle()
            s.check("the scheduled scan after that")
        require(not loop.errors, f"background error {loop.errors[:1]}", key="error")
        return mode, s.sends
