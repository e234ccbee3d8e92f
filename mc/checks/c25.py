"""C25: the periodic work: every outcome of the runs, a stop, restart or shutdown at every step."""
from __future__ import annotations

import asyncio
import itertools

import zigpy.config as conf
import zigpy.exceptions as ze
import zigpy.types as t
import zigpy.zdo.types as zdo_t

from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import COORD_IEEE, FakeApp, add_device, base_config, fill_device, packet

LEVEL = "model_checking"
VALIDATED = ("no separate model of the loops: every execution runs the real application, and the starts and ends of its periodic work are compared with the schedule computed from the configured periods, "
             "the outcomes of the runs and the time of the stop, restart or shutdown")
ASSUMPTIONS = ["asyncio runs ready callbacks in FIFO order", "the operations of the radio library end when they are cancelled and do not themselves raise a cancellation"]

SERVICES = ("backup", "topology", "ota", "watchdog")
PERIOD = {"backup": 600, "topology": 1200, "ota": 700, "watchdog": 30}
FIRST = {"backup": 0, "topology": 1200, "ota": 450, "watchdog": 30}
SLACK = {"backup": 0, "topology": 60, "ota": 0, "watchdog": 0}
OUTCOMES = ("ok", "slow", "long", "fails", "fails late", "times out")
ACTIONS = {
    "backup": ("stop", "restart", "faster", "shutdown", "broken shutdown", "again", "initialize", "stop twice"),
    "topology": ("stop", "restart", "faster", "shutdown", "again", "initialize", "scan", "stop twice"),
    "ota": ("stop", "restart", "faster", "shutdown", "broken shutdown", "again", "initialize", "stop twice"),
    "watchdog": ("shutdown", "broken shutdown", "again", "initialize", "shutdown twice"),
}


def scenarios(tier, seed):
    th = tier == "thorough"
    out = []
    for s in SERVICES:
        parts = 24 if s == "topology" else 8
        for i in range(parts):
            out.append(dict(fn="one", kind="bulk", args=dict(service=s, part=i, parts=parts, runs=3 if th else 2, second=th)))
    out += [dict(fn="together", kind="bulk", args=dict(part=i, parts=8)) for i in range(8)]
    return out


class Lost:
    def __init__(self, app):
        self.app = app

    def connection_lost(self, exc):
        self.app.lost.append(exc)


class Radio(FakeApp):
    def _setup(self, loop, script):
        self.loop = loop
        self.script = {k: list(v) for k, v in script.items()}
        self.begun = {k: [] for k in SERVICES}   # start times of the runs
        self.ended = {k: [] for k in SERVICES}   # [time, how]
        self.active = dict.fromkeys(SERVICES, 0)
        self.lost = []
        self.inside = None
        self.starter = None
        self.last_send = -1e9
        self.outcome = "ok"
        self.broken = False
        self.connected = False
        self.disconnects = 0
        self.add_listener(Lost(self))

    async def run(self, service):
        require(self.connected, f"{service} runs without a connection", key="after-shutdown")
        self.begun[service].append(CLOCK.t)
        self.active[service] += 1
        how = "cancelled"
        entry = [None, None]
        self.ended[service].append(entry)
        outcome = self.script[service].pop(0) if self.script[service] else "ok"
        try:
            require(self.active[service] == 1, f"two runs of {service} at once", key="twice-at-once")
            if self.inside is not None:
                self.inside()
            await self.go(outcome, PERIOD[service])
            how = "ok"
        except (ze.DeliveryError, asyncio.TimeoutError):
            how = "failed"
            raise
        finally:
            self.active[service] -= 1
            entry[:] = [CLOCK.t, how]

    async def go(self, outcome, period):
        if outcome in ("slow", "fails late"):
            await asyncio.sleep(5)
        if outcome == "long":
            await asyncio.sleep(period * 1.5)
        if outcome.startswith("fails"):
            raise ze.DeliveryError("no")
        if outcome == "times out":
            await asyncio.sleep(3)
            raise asyncio.TimeoutError

    async def connect(self):
        self.connected = True

    async def disconnect(self):
        self.disconnects += 1
        await asyncio.sleep(0)
        self.connected = False
        await asyncio.sleep(2)
        if self.broken:
            raise RuntimeError("cannot disconnect")

    async def load_network_info(self, *, load_devices=False):
        if asyncio.current_task() is not self.starter:
            await self.run("backup")
        self.state.node_info.ieee = COORD_IEEE
        self.state.network_info.extended_pan_id = t.ExtendedPanId(COORD_IEEE)
        self.state.network_info.pan_id = t.PanId(0x1234)
        self.state.network_info.channel = t.uint8_t(15)
        self.state.network_info.network_key.key = t.KeyData(bytes(range(16)))
        self.state.network_info.network_key.tx_counter = t.uint32_t(self.state.network_info.network_key.tx_counter + 1)

    async def _watchdog_feed(self):
        if asyncio.current_task() is not self.starter:
            await self.run("watchdog")

    async def start_network(self):
        pass

    async def send_packet(self, pkt):
        if pkt.dst.addr_mode == t.AddrMode.Broadcast:
            if pkt.cluster_id == 0x0019:
                await self.run("ota")
            return
        require(pkt.cluster_id in (0x31, 0x32), f"unexpected request {pkt}", key="request")
        require(self.connected, "a scan without a connection", key="after-shutdown")
        new = CLOCK.t > self.last_send + 120 or pkt.cluster_id == 0x31 and self.was == 0x32
        self.was = int(pkt.cluster_id)
        if new:
            self.outcome = self.script["topology"].pop(0) if self.script["topology"] else "ok"
            self.begun["topology"].append(CLOCK.t)
            self.ended["topology"].append([None, None])
        self.last_send = CLOCK.t
        self.active["topology"] += 1
        entry = self.ended["topology"][-1]
        try:
            require(self.active["topology"] == 1, "two scans at once", key="twice-at-once")
            if new and self.inside is not None:
                self.inside()
            await self.go(self.outcome, 10 if self.outcome == "long" else 1)
        finally:
            self.active["topology"] -= 1
            entry[:] = [CLOCK.t, "ok"]
        dev = self.get_device(nwk=pkt.dst.address)
        body = bytes([pkt.data.serialize()[0], 0, 0, 0, 0])
        self.loop.call_soon(lambda: self.packet_received(packet(dev, body, profile=0, cluster=pkt.cluster_id | 0x8000, src_ep=0, dst_ep=0)))

    was = 0


def make(loop, services, script):
    app = Radio(base_config(**{
        conf.CONF_WATCHDOG_ENABLED: "watchdog" in services,
        conf.CONF_NWK_BACKUP_ENABLED: "backup" in services, conf.CONF_NWK_BACKUP_PERIOD: PERIOD["backup"] // 60,
        conf.CONF_TOPO_SCAN_ENABLED: "topology" in services, conf.CONF_TOPO_SCAN_PERIOD: PERIOD["topology"] // 60,
        conf.CONF_TOPO_SKIP_COORDINATOR: True,
        conf.CONF_OTA: {conf.CONF_OTA_ENABLED: "ota" in services, conf.CONF_OTA_BROADCAST_ENABLED: "ota" in services,
                        conf.CONF_OTA_BROADCAST_INITIAL_DELAY: FIRST["ota"], conf.CONF_OTA_BROADCAST_INTERVAL: PERIOD["ota"]},
    }))
    dev = app.add_device(COORD_IEEE, t.NWK(0))
    fill_device(dev, logical_type=zdo_t.LogicalType.Coordinator)
    add_device(app, 1)
    app._setup(loop, script)
    return app


async def starting(app, how, then):
    """`then` is called in the very step in which the application is started."""
    app.starter = asyncio.current_task()
    await how()
    then()


def begin(loop, app):
    loop.run(starting(app, app.startup, lambda: None), horizon=CLOCK.t)
    return CLOCK.t


def expected(service, app, since, first, period, index):
    """The n-th run since `since` (index of the first one) starts when?"""
    ended = app.ended[service][index - 1][0] if index > since[1] else None
    return since[0] + first if ended is None else ended + period


class Exec:
    """One service, one script of outcomes, some actions at given places."""

    def __init__(self, st, service, outcomes, actions):
        self.service, self.actions = service, list(actions)
        self.st = st
        self.what = f"{service} with runs {outcomes} and {actions}"
        with LoopCtx() as loop:
            self.loop = loop
            self.app = app = make(loop, (service,), {**{k: () for k in SERVICES}, service: outcomes})
            self.end = CLOCK.t + PERIOD[service] * (len(outcomes) + 3.5) + 400
            self.fresh(begin(loop, app))
            self.tasks = []
            self.dead = False      # nothing may run any more
            self.grace = False     # started anew, which is under way
            self.checked = 0
            app.inside = self.in_run
            self.steps = 0
            self.inner = 0
            while True:
                self.act("step", self.steps)
                self.steps += 1
                if loop.ready_count():
                    loop.run_one()
                elif not loop.fire_timers(upto=self.end):
                    break
                self.judge()
            self.finish()

    def fresh(self, now, period=None, first=None):
        """A schedule starts now."""
        s = self.service
        self.since = (now, len(self.app.begun[s]))
        self.period = period or PERIOD[s]
        self.first = FIRST[s] if first is None else first
        self.loose = False
        self.over = False

    def in_run(self):
        self.judge()
        self.inner += 1
        self.act("run", self.inner)

    def act(self, place, n):
        while self.actions and self.actions[0][:2] == (place, n):
            _, _, a = self.actions.pop(0)
            self.perform(a)

    def perform(self, a):
        app, s, loop = self.app, self.service, self.loop
        if self.dead or self.grace:
            return
        if a in ("stop", "stop twice"):
            for _ in range(1 + (a == "stop twice")):
                {"backup": app.backups.stop_periodic_backups, "topology": app.topology.stop_periodic_scans, "ota": app.ota.stop_periodic_broadcasts}[s]()
            self.dead = True
            self.begun = len(app.begun[s])
        elif a in ("restart", "faster"):
            p = PERIOD[s] // (1 + (a == "faster"))
            if s == "backup":
                app.backups.start_periodic_backups(p)
            elif s == "topology":
                app.topology.start_periodic_scans(p)
            else:
                app.ota.start_periodic_broadcasts(initial_delay=p / 10, interval=p)
            self.fresh(CLOCK.t, p, {"backup": 0, "topology": p, "ota": p / 10}[s])
        elif a in ("shutdown", "broken shutdown", "shutdown twice", "again"):
            app.broken = a.startswith("broken")
            for _ in range(1 + a.endswith("twice")):
                self.tasks.append(loop.create_task(app.shutdown()))
            self.tasks[-1].add_done_callback(lambda _: self.closed(a))
            self.dead = "closing"
        elif a == "initialize":
            self.grace = True
            self.tasks.append(loop.create_task(starting(app, app.initialize, self.up)))
        elif a == "scan":
            self.tasks.append(loop.create_task(app.topology.scan()))
            self.tasks[-1].add_done_callback(lambda f: f.cancelled() or f.exception())
            self.loose = True

    def closed(self, a):
        self.dead = True
        self.begun = len(self.app.begun[self.service])
        if a == "again":
            self.tasks.append(self.loop.create_task(starting(self.app, self.app.startup, self.up)))

    def up(self):
        self.dead = self.grace = False
        self.fresh(CLOCK.t)

    def judge(self):
        """After every step: new runs are due."""
        app, s = self.app, self.service
        n = len(app.begun[s])
        while self.checked < n:
            k = self.checked
            self.checked += 1
            if self.dead == "closing":
                # a run may still begin before the shutdown got to stop it
                require(not app.disconnects, f"{self.what}: a run after the disconnection", key="after-shutdown")
                continue
            require(not self.dead, f"{self.what}: run {k} at {app.begun[s][k]} after the stop", key="after-stop")
            if self.over:
                raise Violation(f"{self.what}: the watchdog goes on after its failure", key="watchdog")
            if self.loose or self.grace or k < self.since[1]:
                continue
            want = expected(s, app, self.since, self.first, self.period, k)
            got = app.begun[s][k]
            require(want - 1e-6 <= got <= want + 1e-6 + (SLACK[s] if k > self.since[1] else 0), f"{self.what}: run {k} starts at {got}, expected {want}", key="schedule")
        if s == "watchdog":
            failed = [e for e in app.ended[s] if e[1] == "failed"]
            self.over = len(app.ended[s]) > self.since[1] and app.ended[s][-1][1] == "failed"

    def finish(self):
        app, s, loop = self.app, self.service, self.loop
        st = self.st
        if self.dead:
            left = [x for x in asyncio.all_tasks(loop) if not x.done()]
            require(not left, f"{self.what}: still running {left}", key="left-running")
        elif self.loose:
            require(app.begun[s] and app.begun[s][-1] > self.end - 3 * self.period, f"{self.what}: no runs after {app.begun[s][-1:]}", key="schedule")
        elif not self.over and app.active[s] == 0:
            k = len(app.begun[s])
            want = expected(s, app, self.since, self.first, self.period, k)
            require(want + SLACK[s] > self.end - 1e-6, f"{self.what}: the run at {want} is missing", key="missing")
        for x in self.tasks:
            require(x.done() and (x.cancelled() or x.exception() is None), f"{self.what}: {x}", key="action")
        failed = sum(e[1] == "failed" for e in app.ended["watchdog"])
        require(len(app.lost) == failed, f"{self.what}: {failed} failures of the watchdog, {len(app.lost)} lost connections", key="connection-lost")
        if loop.errors:
            raise Violation(f"{self.what}: {loop.errors[0]}", key="exception")
        # the end
        if not self.dead:
            loop.run(app.shutdown())
            loop.drain()
            left = [x for x in asyncio.all_tasks(loop) if not x.done()]
            require(not left, f"{self.what}, shut down: still running {left}", key="left-running")
            n = len(app.begun[s])
            loop.run_idle(horizon=CLOCK.t + 4 * PERIOD[s])
            require(len(app.begun[s]) == n, f"{self.what}: a run after the shutdown", key="after-shutdown")
        st.executions += 1
        st.transitions += self.steps
        st.outcomes.add(hash(str((s, app.begun[s], app.ended[s]))))


def one(st, service, part, parts, runs, second):
    for i, outcomes in enumerate(itertools.product(OUTCOMES, repeat=runs)):
        if i % parts != part:
            continue
        base = Exec(st, service, outcomes, ())
        places = [("step", n) for n in range(base.steps)] + [("run", n) for n in range(1, base.inner + 1)]
        for place, n in places:
            for a in ACTIONS[service]:
                e = Exec(st, service, outcomes, ((place, n, a),))
                if second and i % 3 == 0 and place == "step" and a in ("restart", "scan", "again", "initialize"):
                    for m in range(n, min(e.steps, n + 12)):
                        for b in ACTIONS[service]:
                            if b != "initialize":
                                Exec(st, service, outcomes, ((place, n, a), (place, m, b)))
        st.states.add(hash((service, outcomes)))


def together(st, part, parts):
    """All of them at once, ended by a shutdown at every step."""
    n = 0
    while True:
        if n % parts == part:
            with LoopCtx() as loop:
                app = make(loop, SERVICES, {"backup": ("slow", "fails"), "topology": ("slow",), "ota": ("fails late", "slow"), "watchdog": ("ok",) * 30 + ("slow",) * 30})
                t0 = begin(loop, app)
                steps = 0
                while steps < n and CLOCK.t < t0 + 1400:
                    steps += 1
                    if loop.ready_count():
                        loop.run_one()
                    elif not loop.fire_timers():
                        break
                if steps < n:
                    require(app.begun["backup"][0] == t0 and app.begun["ota"][0] == t0 + 450 and app.begun["watchdog"][0] == t0 + 30 and app.begun["topology"][0] == t0 + 1200,
                            f"all together: first runs at {({k: v[:1] for k, v in app.begun.items()})} after {t0}", key="schedule")
                    return
                loop.run(app.shutdown())
                loop.drain()
                left = [x for x in asyncio.all_tasks(loop) if not x.done()]
                require(not left, f"all together, shut down after step {n}: still running {left}", key="left-running")
                begun = {k: len(v) for k, v in app.begun.items()}
                loop.run_idle(horizon=CLOCK.t + 5000)
                require(begun == {k: len(v) for k, v in app.begun.items()}, f"all together, shut down after step {n}: runs afterwards", key="after-shutdown")
                if loop.errors:
                    raise Violation(f"all together, shut down after step {n}: {loop.errors[0]}", key="exception")
                st.executions += 1
                st.transitions += steps
                st.outcomes.add(hash(str(begun)))
        n += 1
        require(n < 20000, "does not end", key="livelock")
