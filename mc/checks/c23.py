"""C23: starting the application: every configuration, every failure of a radio operation."""
from __future__ import annotations

import asyncio
import copy
import errno
import itertools
import os
import random
import secrets

import zigpy.backups
import zigpy.config as conf
import zigpy.exceptions as ze
import zigpy.state
import zigpy.types as t
import zigpy.util
import zigpy.zdo.types as zdo_t

from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import COORD_IEEE, FakeApp, base_config, fill_device, packet
from .c15 import backup, identity

LEVEL = "fault_enumeration"
RULE = ("executions = configurations x (no failure, or each failure at each radio operation of that configuration's startup, or (thorough) each pair of failures); "
        "every execution starts the real application on a fake radio, restarts it after a failure and shuts it down after a success")
ASSUMPTIONS = ["a radio library reports failures by raising, before or after the operation took effect", "os.urandom does not return 8 or 16 bytes of 0xFF",
               "failed startup leaves the database open (`startup` may be called again)"]

FAULTS = ("delivery", "busy", "timeout", "reset", "unreachable", "oserror", "runtime", "notformed", "formation")


def fault(kind):
    return {
        "delivery": lambda: ze.DeliveryError("no", status=0xE9),
        "busy": lambda: ze.DeliveryError("busy", status=t.MACStatus.MAC_CHANNEL_ACCESS_FAILURE),
        "timeout": lambda: asyncio.TimeoutError("late"),
        "reset": lambda: ConnectionResetError("gone"),
        "unreachable": lambda: OSError(errno.ENETUNREACH, "network"),
        "oserror": lambda: OSError(errno.EIO, "io"),
        "runtime": lambda: RuntimeError("bug"),
        "notformed": lambda: ze.NetworkNotFormed("not formed"),
        "formation": lambda: ze.FormationFailure("not written"),
    }[kind]()


def configs():
    for present, kept, form, validate, wd, scan, periodic, channel in itertools.product(
            (False, True), ("none", "same", "other", "two"), (False, True), (False, True), (False, True), (False, True), (False, True), (None, 20)):
        if channel is not None and (present or kept != "none"):
            continue
        yield dict(present=present, kept=kept, form=form, validate=validate, wd=wd, scan=scan, periodic=periodic, channel=channel)


def scenarios(tier, seed):
    out = []
    for i in range(48):
        out.append(dict(fn="faults", kind="bulk", args=dict(part=i, parts=48, pairs=tier == "thorough")))
    for i in range(8):
        out.append(dict(fn="forming", kind="bulk", args=dict(part=i, parts=8)))
    out += [dict(fn="channels", kind="bulk", args=dict(part=i, parts=8)) for i in range(8)]
    return out


class Radio(FakeApp):
    """A radio whose operations are numbered and fail as told."""

    def _setup(self, hw, faults):
        self.hw, self.faults = hw, faults
        self.ops = []
        self.raised = []
        self.written = []
        self.energies = [10] * 16

    async def op(self, name, effect=None):
        n = len(self.ops)
        self.ops.append(name)
        await asyncio.sleep(0)
        kind = self.faults.get(n)
        late = kind is not None and kind.endswith("-late")
        if kind is not None and not late:
            self.fail(n, name, kind)
        if effect is not None:
            effect()
        if late:
            self.fail(n, name, kind[:-5])

    def fail(self, n, name, kind):
        e = fault(kind)
        self.raised.append((n, name, kind, e))
        raise e

    async def connect(self):
        await self.op("connect", lambda: self.hw.update(connected=True))

    async def disconnect(self):
        def go():
            self.hw.update(connected=False, started=None)
        n = len(self.ops)
        self.ops.append("disconnect")
        await asyncio.sleep(0)
        go()
        if "disconnect" in self.faults:
            raise fault(self.faults["disconnect"])

    async def _watchdog_feed(self):
        await self.op("watchdog")

    async def load_network_info(self, *, load_devices=False):
        def go():
            if self.hw["net"] is None:
                raise ze.NetworkNotFormed("no network")
            src = copy.deepcopy(self.hw["net"])
            self.state.network_info, self.state.node_info = src.network_info, src.node_info
        await self.op("load", go)

    async def start_network(self):
        def go():
            if self.hw["net"] is None:
                raise ze.NetworkNotFormed("no network")
            src = copy.deepcopy(self.hw["net"])
            self.state.network_info, self.state.node_info = src.network_info, src.node_info
            self.hw["started"] = doc(src)
            if src.node_info.ieee not in self.devices:
                dev = self.add_device(src.node_info.ieee, t.NWK(0))
                fill_device(dev, logical_type=zdo_t.LogicalType.Coordinator)
        await self.op("start", go)

    async def write_network_info(self, *, network_info, node_info):
        def go():
            self.written.append((copy.deepcopy(network_info), copy.deepcopy(node_info)))
            node = copy.deepcopy(node_info)
            if node.ieee == t.EUI64.UNKNOWN:
                node.ieee = COORD_IEEE
            self.hw["net"] = zigpy.backups.NetworkBackup(network_info=typed(network_info), node_info=node)
        await self.op("write", go)

    async def permit_ncp(self, time_s=60):
        await self.op("permit", lambda: self.hw.update(joining=time_s))

    async def send_packet(self, pkt):
        if pkt.dst.addr_mode == t.AddrMode.Broadcast:
            await self.op("ota" if pkt.cluster_id == 0x0019 else "broadcast")
            return
        if pkt.cluster_id == 0x0038:
            await self.op("energy")
            body = bytes([pkt.data.serialize()[0], 0]) + t.Channels.ALL_CHANNELS.serialize() + bytes(4) + bytes([16, *self.energies])
        else:
            await self.op("topology")
            body = bytes([pkt.data.serialize()[0], 0x84])
        asyncio.get_running_loop().call_soon(
            lambda: self.packet_received(packet(self._device, body, profile=0, cluster=pkt.cluster_id | 0x8000, src_ep=0, dst_ep=0)))


def typed(net):
    net = copy.deepcopy(net)
    net.pan_id = t.PanId(net.pan_id)
    net.extended_pan_id = t.ExtendedPanId(net.extended_pan_id)
    net.channel = t.uint8_t(net.channel)
    net.nwk_update_id = t.uint8_t(net.nwk_update_id)
    net.nwk_manager_id = t.NWK(net.nwk_manager_id)
    net.security_level = t.uint8_t(net.security_level)
    return net


def doc(b):
    d = b.as_dict()
    return copy.deepcopy((d["network_info"], d["node_info"]))


def make(cfg, hw, faults, net=None):
    app = Radio(base_config(**{
        conf.CONF_NWK: {conf.CONF_NWK_CHANNEL: cfg["channel"], **(net or {})},
        conf.CONF_NWK_VALIDATE_SETTINGS: cfg["validate"], conf.CONF_WATCHDOG_ENABLED: cfg["wd"], conf.CONF_STARTUP_ENERGY_SCAN: cfg["scan"],
        conf.CONF_NWK_BACKUP_ENABLED: cfg["periodic"], conf.CONF_NWK_BACKUP_PERIOD: 10, conf.CONF_TOPO_SCAN_ENABLED: cfg["periodic"], conf.CONF_TOPO_SCAN_PERIOD: 20,
        conf.CONF_TOPO_SKIP_COORDINATOR: False,
        conf.CONF_OTA: {conf.CONF_OTA_ENABLED: cfg["periodic"], conf.CONF_OTA_BROADCAST_ENABLED: cfg["periodic"], conf.CONF_OTA_BROADCAST_INITIAL_DELAY: 600,
                        conf.CONF_OTA_BROADCAST_INTERVAL: 600, conf.CONF_OTA_DISABLE_DEFAULT_PROVIDERS: [], conf.CONF_OTA_PROVIDERS: []},
    }))
    app._setup(hw, faults)
    return app


def hardware(cfg):
    return dict(net=backup("same", 1) if cfg["present"] else None, connected=False, started=None, joining=60)


def kept(app, cfg):
    if cfg["kept"] == "two":
        app.backups.add_backup(backup("pan", 1))
        app.backups.add_backup(backup("counter-", 3))
    elif cfg["kept"] == "other":
        app.backups.add_backup(backup("counter-", 1))
        app.backups.add_backup(backup("pan", 2))
    elif cfg["kept"] == "same":
        app.backups.add_backup(backup("counter-", 2))


def tolerated(app, cfg, formed, n, name, kind):
    """Whether startup goes on after this failure (`formed`: what the radio said first)."""
    before = app.ops[:n]
    if name == "load" and "load" not in before:
        return kind == "notformed"  # as if there was none, decided by the caller
    if name == "start" and not formed and "write" not in before:
        return kind == "notformed"
    if name in ("broadcast", "permit"):
        return kind == "busy"
    if name == "energy":
        return kind in ("delivery", "busy", "timeout")
    return False


def start(loop, app, cfg):
    """One startup, judged.  Returns whether it succeeded."""
    hw = app.hw
    last = max(app.backups.backups, key=lambda b: b.backup_time, default=None)
    last = last.as_dict() if last else None
    had = copy.deepcopy(hw["net"])
    app.ops, app.raised, app.written, hw["joining"] = [], [], [], 60
    try:
        loop.run(app.startup(auto_form=cfg["form"]), horizon=CLOCK.t + 1000)
        ended = None
    except Exception as e:  # noqa: BLE001
        ended = e
    ops = list(app.ops)
    first = [k for n, name, k, _ in app.raised if name == "load" and "load" not in ops[:n]]
    formed = had is not None and first != ["notformed"]
    fatal = [e for n, name, k, e in app.raised if not tolerated(app, cfg, formed, n, name, k)]
    loaded = "load" in ops
    what = f"{cfg} with {app.faults}: {ops} ended with {ended!r}"

    require(len(fatal) <= 1, f"{what}, it went on after {fatal[:1]}", key="went-on")
    want = fatal[0] if fatal else None
    if want is None and not formed and not cfg["form"]:
        require(isinstance(ended, ze.NetworkNotFormed), f"{what}, expected that no network is formed", key="not-formed")
    elif want is None and formed and cfg["validate"] and last is not None and identity(had.as_dict()) != identity(last):
        require(isinstance(ended, ze.NetworkSettingsInconsistent), f"{what}, expected inconsistent settings", key="inconsistent")
        require(doc(ended.new_state) == doc(had) and ended.old_state.as_dict() == last, f"{what}: wrong settings reported", key="inconsistent")
    elif want is not None:
        transient = isinstance(want, ConnectionError) or isinstance(want, OSError) and want.errno == errno.ENETUNREACH
        if transient:
            require(isinstance(ended, ze.TransientConnectionError) and ended.__cause__ is want, f"{what}, expected a transient error for {want!r}", key="error")
        else:
            require(ended is want, f"{what}, expected {want!r}", key="error")
    else:
        require(ended is None, f"{what}, expected success", key="failed")

    # what was written
    if formed or not cfg["form"] or not loaded:
        require(not app.written, f"{what}: wrote a network", key="wrote")
    elif last is not None:
        for net, node in app.written:
            w = copy.deepcopy(last["network_info"])
            w["network_key"]["tx_counter"] += 10000
            require((net.as_dict(), node.as_dict()) == (w, last["node_info"]), f"{what}: the newest backup was not restored", key="restored")
        require(len(app.written) <= 1 and (ended or app.written), f"{what}: the backup was not restored once", key="restored")
    else:
        for net, node in app.written:
            valid(app, cfg, net, node, what)
        if ended is None:
            require(app.written and not app.written[-1][0].stack_specific, f"{what}: no network was formed", key="formed")

    if ended is not None:
        stopped(loop, app, what)
        return False
    require(hw["connected"] and "disconnect" not in ops, f"{what}: disconnected", key="disconnected")
    require(hw["started"] is not None and hw["started"] == doc(hw["net"]), f"{what}: the network does not run", key="started")
    require(doc(app.backups.from_network_state()) == doc(hw["net"]), f"{what}: the state is not the network's", key="state")
    if not app.raised:
        require(hw["joining"] == 0, f"{what}: joining is left open", key="joining")
    if cfg["wd"]:
        require("watchdog" in ops and ops.index("watchdog") == 1, f"{what}: the watchdog was not fed first", key="watchdog")
    return True


def stopped(loop, app, what):
    require(app.ops[-1] == "disconnect" and app.ops.count("disconnect") == 1, f"{what}: not disconnected", key="left-connected")
    loop.drain()
    left = [x for x in asyncio.all_tasks(loop) if not x.done()]
    require(not left, f"{what}: still running {left}", key="left-running")
    n = len(app.ops)
    loop.run_idle(horizon=CLOCK.t + 7200)
    require(len(app.ops) == n, f"{what}: {app.ops[n:]} after it ended", key="left-running")


def valid(app, cfg, net, node, what, given=None):
    given = given or {}
    what = f"{what}: formed {net}"
    c = app.config[conf.CONF_NWK]
    require(0x0001 <= net.pan_id <= 0xFFFE, f"{what}: PAN id {net.pan_id:#06x}", key="pan-id")
    require(net.extended_pan_id != t.EUI64.UNKNOWN, f"{what}: extended PAN id", key="extended-pan-id")
    require(net.network_key.key != t.KeyData.UNKNOWN, f"{what}: key", key="network-key")
    allowed = [cfg["channel"]] if cfg["channel"] is not None else [ch for ch in range(11, 27) if given.get("channels", c[conf.CONF_NWK_CHANNELS]) >> ch & 1]
    require(net.channel in allowed, f"{what}: channel {net.channel}, allowed {allowed}", key="channel")
    require(list(net.channel_mask) == [net.channel], f"{what}: channel mask {net.channel_mask}", key="channel")
    require(node.logical_type == zdo_t.LogicalType.Coordinator and node.nwk == 0, f"{what}: {node}", key="node")
    for name, got in (("pan_id", net.pan_id), ("extended_pan_id", net.extended_pan_id), ("key", net.network_key.key), ("tc_address", net.tc_link_key.partner_ieee),
                      ("tc_link_key", net.tc_link_key.key), ("update_id", net.nwk_update_id), ("key_sequence_number", net.network_key.seq)):
        if given.get(name) is not None:
            require(got == given[name], f"{what}: {name} is {got}, configured {given[name]}", key=f"configured-{name}")
    require(net.network_key.tx_counter == 0 and net.security_level == 5, f"{what}: counters", key="counters")
    require(not net.children and not net.key_table and not net.nwk_addresses, f"{what}: devices", key="devices")


def periodic(loop, app, cfg, what):
    """The periodic work runs (exactly when it was enabled) and ends with a shutdown."""
    n = len(app.ops)
    loop.run_idle(horizon=CLOCK.t + 1270)
    seen = app.ops[n:]
    for name, on, least in (("watchdog", cfg["wd"], 2), ("load", cfg["periodic"], 2), ("topology", cfg["periodic"], 1), ("ota", cfg["periodic"], 1)):
        require((seen.count(name) >= least) if on else name not in seen, f"{what}: in the first 21 minutes {seen}, {name} is {'on' if on else 'off'}", key=f"periodic-{name}")
    loop.run(app.shutdown())
    stopped(loop, app, f"{what} and shut down")


def execution(st, cfg, faults, more):
    with LoopCtx() as loop:
        app = make(cfg, hardware(cfg), faults)
        kept(app, cfg)
        ok = start(loop, app, cfg)
        ops, raised = list(app.ops), list(app.raised)
        st.executions += 1
        st.transitions += len(ops)
        st.outcomes.add(hash((str(ops), ok)))
        app.faults = {}
        if not ok and more:
            app.ops = []
            ok = start(loop, app, cfg)
            st.transitions += len(app.ops)
        if ok and more:
            periodic(loop, app, cfg, f"{cfg} with {faults}")
        if loop.errors:
            raise Violation(f"{cfg} with {faults}: {loop.errors[0]}", key="exception")
        return ops, raised


def faults(st, part, parts, pairs):
    for i, cfg in enumerate(configs()):
        if i % parts != part:
            continue
        ops, _ = execution(st, cfg, {}, True)
        for kind in ("runtime", "timeout"):
            execution(st, cfg, {"disconnect": kind}, True)
        for n, name in enumerate(ops):
            if name == "disconnect":
                continue
            for kind in FAULTS:
                for late in ("", "-late"):
                    if late and name in ("energy", "load"):
                        continue
                    if kind == "notformed" and (late or name not in ("load", "start", "connect")):
                        continue
                    if kind == "formation" and name not in ("write", "connect"):
                        continue
                    if pairs or kind in ("runtime", "reset"):
                        execution(st, cfg, {n: kind + late, "disconnect": "runtime"}, False)
                    more, raised = execution(st, cfg, {n: kind + late}, True)
                    if pairs and not late and len(more) > n + 1:
                        for m in range(n + 1, len(more)):
                            if more[m] != "disconnect":
                                for second in FAULTS:
                                    if second in ("notformed", "formation") and more[m] not in ("load", "start"):
                                        continue
                                    execution(st, cfg, {n: kind, m: second}, False)


# -- forming -----------------------------------------------------------------------------
class Scripted(random.SystemRandom):
    """Random numbers at the ends of whatever range is asked for."""
    pick = 0

    def _randbelow(self, n):
        return {0: 0, 1: min(1, n - 1), 2: n // 2, 3: max(0, n - 2), 4: n - 1}[Scripted.pick]

    def random(self):
        return {0: 0.0, 1: 1e-9, 2: 0.5, 3: 1 - 1e-9, 4: 1 - 2.0 ** -53}[Scripted.pick]

    def getrandbits(self, k):
        return self._randbelow(1 << k)


class scripted:
    def __enter__(self):
        self.was = random.SystemRandom, os.urandom, secrets._sysrand
        random.SystemRandom, secrets._sysrand = Scripted, Scripted()
        self.fns = {k: getattr(random, k) for k in ("randint", "randrange", "choice", "getrandbits", "random", "uniform")}
        s = Scripted()
        for k in self.fns:
            setattr(random, k, getattr(s, k))
        self.sec = {k: getattr(secrets, k) for k in ("randbelow", "choice", "randbits")}
        secrets.randbelow, secrets.choice, secrets.randbits = s._randbelow, s.choice, s.getrandbits
        os.urandom = lambda n: bytes(range(1, n + 1))

    def __exit__(self, *exc):
        random.SystemRandom, os.urandom, secrets._sysrand = self.was
        for k, v in self.fns.items():
            setattr(random, k, v)
        for k, v in self.sec.items():
            setattr(secrets, k, v)


VALUES = {
    "pan_id": (None, 0x0001, 0xFFFE, 0x1234),
    "extended_pan_id": (None, t.EUI64.convert("11:22:33:44:55:66:77:88"), t.EUI64.convert("00:00:00:00:00:00:00:01")),
    "key": (None, t.KeyData(bytes(range(16)))),
    "tc_address": (None, t.EUI64.convert("aa:bb:cc:dd:ee:ff:00:11")),
    "tc_link_key": (None, t.KeyData(bytes(range(3, 19)))),
    "update_id": (None, 0, 255),
    "key_sequence_number": (None, 0, 254),
    "channel": (None, 11, 26),
    "channels": (None, [11], [26], [15, 20], [12, 13, 26]),
}


def forming(st, part, parts):
    """Every combination of configured settings (each alone and all pairs), random extremes and energy patterns."""
    cfg0 = dict(present=False, kept="none", form=True, validate=True, wd=False, scan=False, periodic=False, channel=None)
    base = {k: None for k in VALUES}
    cases = [base]
    for (a, va), (b, vb) in itertools.combinations(VALUES.items(), 2):
        cases += [{**base, a: x, b: y} for x in va for y in vb]
    cases.append({k: v[-1] for k, v in VALUES.items()})
    cases.append({**{k: v[-1] for k, v in VALUES.items()}, "channel": None})
    energies = [[10] * 16, [0] * 16, [255] * 16] + [[255 if j == c else 0 for j in range(16)] for c in range(0, 16, 3)] + [[0 if j == c else 255 for j in range(16)] for c in range(0, 16, 3)]
    for i, case in enumerate(cases):
        if i % parts != part:
            continue
        for pick in range(5):
            for present in ("absent", "forced"):
                for e in (energies if case["channel"] is None and pick in (0, 4) else energies[:1]):
                    form(st, cfg0, case, pick, present, e)
    st.states.update(hash(str(c)) for c in cases)


def form(st, cfg0, case, pick, present, energies):
    cfg = {**cfg0, "channel": case["channel"]}
    net = {k: v for k, v in case.items() if v is not None and k != "channel"}
    given = dict(net)
    if "channels" in net:
        given["channels"] = t.Channels.from_channel_list(net["channels"])
    for k in ("pan_id", "extended_pan_id", "key", "tc_address", "tc_link_key"):
        if k in net:
            net[k] = str(t.PanId(net[k])) if k == "pan_id" else str(net[k])
    if "key" in net:
        net["key"] = list(given["key"])
    if "tc_link_key" in net:
        net["tc_link_key"] = list(given["tc_link_key"])
    Scripted.pick = pick
    with LoopCtx() as loop, scripted():
        hw = hardware(dict(present=present == "forced"))
        app = make(cfg, hw, {}, net=net)
        app.energies = energies
        what = f"forming with {net}, random choice {pick}, {present}"
        if present == "forced":
            loop.run(app.connect())
            loop.run(app.form_network(), horizon=CLOCK.t + 1000)
        else:
            loop.run(app.startup(auto_form=True), horizon=CLOCK.t + 1000)
        require(app.written, f"{what}: nothing written", key="formed")
        for n, node in app.written:
            valid(app, cfg, n, node, what, given)
        last = app.written[-1][0]
        require(not last.stack_specific, f"{what}: the network is temporary", key="formed")
        require(zigpy.backups.NetworkBackup(network_info=last, node_info=hw["net"].node_info).is_complete(), f"{what}: cannot be backed up", key="complete")
        newest = app.backups.most_recent_backup()
        require(newest is not None and doc(newest) == doc(hw["net"]), f"{what}: not backed up", key="backup")
        st.executions += 1
        st.transitions += len(app.ops)
        st.outcomes.add(hash(str(last)))
        loop.drain()
        if loop.errors:
            raise Violation(f"{what}: {loop.errors[0]}", key="exception")


def channels(st, part, parts):
    """The channel picked is an allowed one: every mask of channels x energy patterns."""
    pats = [{c: 0 for c in range(11, 27)}, {c: 255 for c in range(11, 27)}, {c: (c * 37) % 256 for c in range(11, 27)}, {c: 255 - 15 * (c - 11) for c in range(11, 27)}]
    for m in range(1 + part, 1 << 16, parts):
        mask = t.Channels(m << 11)
        for p in pats if m < 1 << 12 or bin(m).count("1") < 4 else pats[:1]:
            got = zigpy.util.pick_optimal_channel(p, channels=mask)
            require(m << 11 >> got & 1, f"picked channel {got} of {mask}", key="channel")
            st.transitions += 1
        st.executions += 1
    st.outcomes.add(part)
