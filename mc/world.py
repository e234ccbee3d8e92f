"""The closed system around zigpy: a fake radio application and helpers to build devices."""
from __future__ import annotations

import asyncio
import functools
import random as _random

import zigpy.application
import zigpy.config as conf
import zigpy.state
import zigpy.types as t
import zigpy.zdo.types as zdo_t
from zigpy.profiles import zha
from zigpy.zcl import foundation

from .explore import Violation

COORD_IEEE = t.EUI64.convert("aa:11:22:bb:33:44:be:ef")


def ieee(n: int) -> t.EUI64:
    return t.EUI64.convert(f"00:0d:6f:00:0a:90:69:{n:02x}")


def base_config(**over):
    cfg = {
        conf.CONF_DATABASE: None,
        conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"},
        conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False},
        conf.CONF_WATCHDOG_ENABLED: False,
        conf.CONF_STARTUP_ENERGY_SCAN: False,
        conf.CONF_TOPO_SCAN_ENABLED: False,
        conf.CONF_NWK_BACKUP_ENABLED: False,
    }
    cfg.update(over)
    return cfg


class FakeApp(zigpy.application.ControllerApplication):
    """Minimal radio library.  `on_send` is an async callable taking the packet."""

    on_send = None

    def __init__(self, config):
        super().__init__(config)
        self.sent = []
        self.radio_calls = []

    async def send_packet(self, packet):
        self.sent.append(packet)
        if self.on_send is not None:
            await self.on_send(packet)

    async def connect(self):
        self.radio_calls.append("connect")

    async def disconnect(self):
        self.radio_calls.append("disconnect")

    async def start_network(self):
        self.radio_calls.append("start_network")

    async def force_remove(self, dev):
        self.radio_calls.append("force_remove")

    async def add_endpoint(self, descriptor):
        self.radio_calls.append("add_endpoint")

    async def permit_ncp(self, time_s=60):
        self.radio_calls.append(("permit_ncp", time_s))

    async def permit_with_link_key(self, node, link_key, time_s=60):
        self.radio_calls.append(("permit_with_link_key", node, link_key, time_s))

    async def reset_network_info(self):
        self.radio_calls.append("reset_network_info")

    async def write_network_info(self, *, network_info, node_info):
        self.radio_calls.append("write_network_info")

    async def load_network_info(self, *, load_devices=False):
        self.radio_calls.append("load_network_info")


def make_app(cls=FakeApp, coordinator=True, **over):
    app = cls(base_config(**over))
    app.state.node_info = zigpy.state.NodeInfo(
        nwk=t.NWK(0x0000), ieee=COORD_IEEE, logical_type=zdo_t.LogicalType.Coordinator
    )
    if coordinator:
        dev = app.add_device(COORD_IEEE, t.NWK(0))
        fill_device(dev, logical_type=zdo_t.LogicalType.Coordinator)
        dev.model = "Coordinator"
        dev.manufacturer = "zigpy"
    return app


@functools.lru_cache(maxsize=None)
def node_desc(logical_type=zdo_t.LogicalType.Router, manufacturer_code=4174,
              rx_on=True, mains=True):
    flags = zdo_t.NodeDescriptor.MACCapabilityFlags.AllocateAddress
    if rx_on:
        flags |= zdo_t.NodeDescriptor.MACCapabilityFlags.RxOnWhenIdle
    if mains:
        flags |= zdo_t.NodeDescriptor.MACCapabilityFlags.MainsPowered
    return zdo_t.NodeDescriptor(
        logical_type=logical_type,
        complex_descriptor_available=0,
        user_descriptor_available=0,
        reserved=0,
        aps_flags=0,
        frequency_band=zdo_t.NodeDescriptor.FrequencyBand.Freq2400MHz,
        mac_capability_flags=flags,
        manufacturer_code=manufacturer_code,
        maximum_buffer_size=82,
        maximum_incoming_transfer_size=82,
        server_mask=0,
        maximum_outgoing_transfer_size=82,
        descriptor_capability_field=zdo_t.NodeDescriptor.DescriptorCapability.NONE,
    )


def fill_device(dev, endpoints=None, logical_type=zdo_t.LogicalType.Router, **nd):
    """Turn a bare device into an initialized one."""
    import zigpy.endpoint

    dev.node_desc = node_desc(logical_type, **nd)
    for eid, (profile, dtype, ins, outs) in (
        endpoints or {1: (zha.PROFILE_ID, zha.DeviceType.PUMP, (), ())}
    ).items():
        ep = dev.add_endpoint(eid)
        ep.status = zigpy.endpoint.Status.ZDO_INIT
        ep.profile_id = profile
        ep.device_type = dtype
        for c in ins:
            ep.add_input_cluster(c)
        for c in outs:
            ep.add_output_cluster(c)
    return dev


def add_device(app, n, nwk=None, endpoints=None, logical_type=zdo_t.LogicalType.Router,
               model=None, manufacturer=None, **nd):
    dev = app.add_device(ieee(n), t.NWK(nwk if nwk is not None else 0x1000 + n))
    fill_device(dev, endpoints, logical_type, **nd)
    if model is not None:
        dev.model = model
    if manufacturer is not None:
        dev.manufacturer = manufacturer
    return dev


def packet(src, data, *, profile=260, cluster=6, src_ep=1, dst_ep=1, tsn=None,
           dst=None, src_mode=None, **kw):
    """A packet as a radio library would deliver it.  src: Device or AddrModeAddress."""
    if not isinstance(src, t.AddrModeAddress):
        if src_mode == "ieee":
            src = t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=src.ieee)
        else:
            src = t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=src.nwk)
    if dst is None:
        dst = t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0))
    if tsn is None:
        tsn = 0
    return t.ZigbeePacket(
        src=src, src_ep=src_ep, dst=dst, dst_ep=dst_ep, profile_id=profile,
        cluster_id=cluster, tsn=tsn, data=t.SerializableBytes(bytes(data)), **kw
    )


def zcl(frame_control, tsn, command, payload=b"", manuf=None):
    b = bytes([frame_control])
    if manuf is not None:
        b += manuf.to_bytes(2, "little")
    return b + bytes([tsn, command]) + payload


def zdo_packet(dev, cluster, payload, **kw):
    return packet(dev, payload, profile=0, cluster=cluster, src_ep=0, dst_ep=0, **kw)


class Ev:
    """An external event the environment may deliver.

    fn is appended to the loop's ready queue when chosen; idle/step are the deviation
    costs when chosen on an idle loop / between two pending callbacks.  step=None: the
    event is only offered when the loop is idle.
    """

    __slots__ = ("label", "fn", "idle", "step", "direct")

    def __init__(self, label, fn, idle=0, step=1, direct=False):
        self.label = label
        self.fn = fn
        self.idle = idle
        self.step = step
        self.direct = direct


class Driver:
    """Runs a loop, asking the chooser before every callback which external event lands.

    `events()` returns the currently enabled `Ev`s.  Between two pending callbacks the
    default (choice 0) is to run the next one; on an idle loop the default is the first
    enabled event (or the next timer, see idle_first).
    """

    def __init__(self, loop, ch, events, *, horizon=None, boundary=True, on_step=None,
                 on_idle=None, state=None, max_steps=20000, idle_first="event", time_cost=0,
                 stop=False):
        self.loop = loop
        self.ch = ch
        self.events = events
        self.horizon = horizon
        self.boundary = boundary
        self.on_step = on_step
        self.on_idle = on_idle
        self.state = state
        self.max_steps = max_steps
        self.idle_first = idle_first
        self.time_cost = time_cost
        self.stop = stop

    def run(self, until=None):
        loop, ch = self.loop, self.ch
        steps = 0
        while until is None or not until():
            steps += 1
            if steps > self.max_steps:
                raise Violation("execution does not terminate", key="livelock")
            if self.state:
                ch.note(self.state())
            if loop.ready_count():
                if self.boundary:
                    evs = [e for e in self.events() if e.step is not None]
                    if evs:
                        c = ch.choose(["run"] + [e.label for e in evs],
                                      [0] + [e.step for e in evs], "step")
                        if c:
                            self._take(evs[c - 1])
                            continue
                loop.run_one()
                if self.on_step:
                    self.on_step()
                continue
            if self.on_idle:
                self.on_idle()
            evs = list(self.events())
            when = loop.next_timer()
            if when is not None and (self.horizon is None or when <= self.horizon):
                tev = Ev("time", None, self.time_cost)
                if self.idle_first == "time":
                    evs.insert(0, tev)
                else:
                    evs.append(tev)
            if not evs:
                return False
            if self.stop == "timers" and all(e.idle for e in evs):
                # only deviations are left: the default is to let time pass, then to stop
                rest = [e for e in evs if e.label != "time"]
                evs = [Ev("time", None) if len(rest) < len(evs) else Ev("end", False)] + rest
            elif self.stop and all(e.idle for e in evs):
                # only deviations are left: the default is to stop here
                evs.insert(0, Ev("end", False))
            # the default continuation never costs a deviation
            costs = [e.idle for e in evs]
            costs[0] = 0
            c = ch.choose([e.label for e in evs], costs, "idle") if len(evs) > 1 else 0
            ev = evs[c]
            if ev.fn is False:
                return False
            if ev.fn is None:
                loop.fire_timers()
            else:
                self._take(ev)
        return True

    def _take(self, ev):
        if ev.direct:
            ev.fn()
        else:
            self.loop.call_soon(ev.fn)


class FixedRandom:
    """Deterministic replacement for random.* used by zigpy."""

    @staticmethod
    def uniform(a, b):
        return a

    @staticmethod
    def random():
        return 0.0


_random.uniform = FixedRandom.uniform
