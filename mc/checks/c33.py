"""C33: custom clusters of definitions: manufacturer codes, constants, their own configuration."""
from __future__ import annotations

import itertools
import struct

import zigpy.types as t
from zigpy.quirks import BaseCustomDevice, CustomCluster
from zigpy.zcl import foundation
from zigpy.zcl.foundation import BaseAttributeDefs, BaseCommandDefs, ZCLAttributeDef, ZCLCommandDef

from ..clock import CLOCK
from ..explore import require
from ..loop import LoopCtx
from ..world import add_device, make_app, node_desc, packet

LEVEL = "exploration"
RULE = ("every ordered selection of up to 3 (thorough: 4) of 8 kinds of attribute (standard, manufacturer-specific, constant, both, undefined) x cluster number at "
        "the borders of the manufacturer-specific range x source of the device's code x code given by the caller x server or client side x outcome, for reads, "
        "writes, undivided writes and reporting configuration; every kind of command; all sets of clusters with a configuration of their own; distinct by frame and result")
ASSUMPTIONS = ["the radio accepts every packet", "the device's answer arrives before the request times out (C02 explores the rest)"]

CLUSTERS = (0x0B05, 0xFBFF, 0xFC00, 0xFFFE, 0xFFFF)
DEVICES = {"descriptor": 0x1234, "override": 0x2222, "nothing": None}
GIVEN = (None, 0x1111, 0)
# name -> (id, manufacturer-specific, constant value)
ATTRS = {"std": (0x0000, False, None), "man": (0x0001, True, None), "const": (0x0002, False, 7), "manconst": (0x0003, True, 8), "std2": (0x0105, False, None),
         "man2": (0xF000, True, None), "zero": (0x0006, False, 0), "undefined": (0x7777, None, None)}
OUTCOMES = ("ok", "refused", "mixed", "silent-on-one")


def scenarios(tier, seed):
    full = tier == "thorough"
    out = []
    for cid in CLUSTERS:
        for dev in DEVICES:
            out.append(dict(fn="reads", kind="bulk", args=dict(cid=cid, dev=dev, most=4 if full else 3)))
            out.append(dict(fn="writes", kind="bulk", args=dict(cid=cid, dev=dev, most=4 if full else 3)))
            out.append(dict(fn="commands", kind="bulk", args=dict(cid=cid, dev=dev)))
    out.append(dict(fn="configuration", kind="bulk", args=dict(slots=6 if full else 5)))
    return out


def custom(cid, constants=True):
    class Custom(CustomCluster):
        cluster_id = cid
        ep_attribute = "custom"

        class AttributeDefs(BaseAttributeDefs):
            std = ZCLAttributeDef(id=0x0000, type=t.uint8_t)
            man = ZCLAttributeDef(id=0x0001, type=t.uint8_t, is_manufacturer_specific=True)
            const = ZCLAttributeDef(id=0x0002, type=t.uint8_t)
            manconst = ZCLAttributeDef(id=0x0003, type=t.uint8_t, is_manufacturer_specific=True)
            std2 = ZCLAttributeDef(id=0x0105, type=t.uint8_t)
            man2 = ZCLAttributeDef(id=0xF000, type=t.uint8_t, is_manufacturer_specific=True)
            zero = ZCLAttributeDef(id=0x0006, type=t.uint8_t)

        class ServerCommandDefs(BaseCommandDefs):
            plain = ZCLCommandDef(id=0x00, schema={"value": t.uint8_t})
            special = ZCLCommandDef(id=0x01, schema={"value": t.uint8_t}, is_manufacturer_specific=True)

        class ClientCommandDefs(BaseCommandDefs):
            plain_rsp = ZCLCommandDef(id=0x00, schema={"value": t.uint8_t})
            special_rsp = ZCLCommandDef(id=0x02, schema={"value": t.uint8_t}, is_manufacturer_specific=True)

        if constants:
            _CONSTANT_ATTRIBUTES = {i: v for i, _, v in ATTRS.values() if v is not None}

    return Custom


class World:
    def __init__(self, loop, cid, dev, server=True, constants=True):
        self.loop = loop
        self.app = make_app()
        self.dev = add_device(self.app, 1, endpoints={1: (260, 0x0100, (0,), ())})
        self.dev.node_desc = node_desc(manufacturer_code=0x1234) if dev != "nothing" else None
        if dev == "override":
            self.dev.manufacturer_id_override = 0x2222
        self.code = DEVICES[dev]
        self.cid = cid
        ep = self.dev.endpoints[1]
        cl = custom(cid, constants)(ep, is_server=server)
        self.cluster = ep.add_input_cluster(cid, cl) if server else ep.add_output_cluster(cid, cl)
        self.server = server
        loop.drain()
        self.app.on_send = self.send
        self.frames = []
        self.reply = None

    async def send(self, pkt):
        data = pkt.data.serialize()
        require(pkt.cluster_id == self.cid and pkt.dst_ep == 1, f"sent to cluster {pkt.cluster_id:#x}, endpoint {pkt.dst_ep}", key="address")
        self.frames.append(data)
        if self.reply is None:
            return
        head = data[:3] if data[0] & 4 else b""
        tsn = data[3:4] if head else data[1:2]
        cmd, body = self.reply(data[4 if head else 2], data[5 if head else 3:])
        fc = 0x10 | (8 if self.server else 0) | (4 if head else 0)
        self.loop.call_soon(self.app.packet_received, packet(self.dev, bytes([fc]) + head[1:] + tsn + bytes([cmd]) + body, cluster=self.cid, src_ep=1))

    def call(self, coro):
        """(kind of end, value) and the frames sent."""
        self.frames.clear()
        CLOCK.t += 1  # answers are no repetitions of one another
        task = self.loop.create_task(coro)
        self.loop.drain()
        require(task.done(), f"the call {coro} ({[f.hex() for f in self.frames]}) did not end although the device answered", key="hang")
        exc = task.exception()
        if exc is not None:
            raise exc
        return task.result(), list(self.frames)

    def want_code(self, special, given):
        if given is not None:
            return given
        return self.code if special or 0xFC00 <= self.cid <= 0xFFFF else None

    def same(self, frame, code, general, cmd, body, what, ddr=None):
        fc = (0 if general else 1) | (4 if code is not None else 0) | (0 if self.server else 8)
        tsn = frame[3 if frame[0] & 4 else 1]
        want = bytes([fc]) + (struct.pack("<H", code) if code is not None else b"") + bytes([tsn, cmd]) + body
        got = bytes([frame[0] & ~0x10]) + frame[1:]
        require(got == want, f"{what}: sent {got.hex()}, expected {want.hex()}", key="frame")
        if ddr is not None:
            require(bool(frame[0] & 0x10) == ddr, f"{what}: disable-default-response is {not ddr}", key="frame")


def picks(kinds, most):
    return [p for n in range(1, most + 1) for p in itertools.permutations(kinds, n)]


def key(kind, i):
    """Attributes are named in one place and numbered in the next."""
    return kind if i % 2 == 0 and kind != "undefined" else ATTRS[kind][0]


def reads(st, cid, dev, most):
    with LoopCtx() as loop:
        for server, constants in ((True, True), (False, True), (True, False)):
            w = World(loop, cid, dev, server, constants)
            for pick in picks(ATTRS, most):
                constant = [k for k in pick if constants and ATTRS[k][2] is not None]
                asked = [k for k in pick if k not in constant]
                for given in GIVEN:
                    for outcome in OUTCOMES if asked else OUTCOMES[:1]:
                        w.cluster._attr_cache.clear()
                        w.cluster._attr_last_updated.clear()
                        for k in asked:
                            w.cluster.update_attribute(ATTRS[k][0], t.uint8_t(200))
                        w.cluster.unsupported_attributes.clear()
                        values = {}

                        def reply(cmd, body):
                            if outcome == "refused":
                                return 0x0B, bytes([cmd, 0x82])
                            out = b""
                            for i, k in enumerate(asked):
                                a = struct.pack("<H", ATTRS[k][0])
                                if outcome == "silent-on-one" and i == 0:
                                    continue
                                if outcome == "mixed" and i % 2 == 0:
                                    out += a + b"\x86"
                                    values[k] = foundation.Status.UNSUPPORTED_ATTRIBUTE
                                else:
                                    out += a + b"\0\x20" + bytes([i + 50])
                                    values[k] = i + 50
                            return 1, out

                        w.reply = reply
                        keys = {k: key(k, i) for i, k in enumerate(pick)}
                        what = f"reading {pick} of {cid:#x} ({dev}, given {given}, server {server}, constants {constants}), {outcome}"
                        (good, bad), frames = w.call(w.cluster.read_attributes(list(keys.values()), manufacturer=given))
                        require(len(frames) == bool(asked), f"{what}: {len(frames)} requests", key="constant-asked")
                        if asked:
                            code = w.want_code(any(ATTRS[k][1] for k in asked), given)
                            w.same(frames[0], code, True, 0, b"".join(struct.pack("<H", ATTRS[k][0]) for k in asked), what)
                        want_good = {keys[k]: ATTRS[k][2] for k in constant}
                        want_bad = {}
                        for k in asked:
                            if outcome == "refused":
                                want_bad[keys[k]] = foundation.Status(0x82)
                            elif isinstance(values.get(k), foundation.Status):
                                want_bad[keys[k]] = values[k]
                            elif k in values:
                                want_good[keys[k]] = values[k]
                        require(good == want_good and bad == want_bad, f"{what}: result {good}, {bad}, expected {want_good}, {want_bad}", key="result")
                        for k in pick:
                            have = w.cluster.get(ATTRS[k][0]) if k != "undefined" else w.cluster._attr_cache.get(0x7777)
                            want = ATTRS[k][2] if k in constant else values[k] if isinstance(values.get(k), int) and not isinstance(
                                values.get(k), foundation.Status) else 200
                            require(have == want, f"{what}: {k} is now {have}, expected {want}", key="cache")
                            if k in constant:
                                require(w.cluster.get(k) == want, f"{what}: {k} by name is {w.cluster.get(k)}", key="cache")
                        unsup = {a for a in w.cluster.unsupported_attributes if isinstance(a, int)}
                        want = {ATTRS[k][0] for k in asked if isinstance(values.get(k), foundation.Status)}
                        require(unsup == want, f"{what}: unsupported are {unsup}, expected {want}", key="unsupported")
                        st.executions += 1
                        st.transitions += len(frames)
                        st.outcomes.add((pick, given, outcome, server, constants))
        require(not loop.errors, f"background error {loop.errors[:1]}", key="error")


def writes(st, cid, dev, most):
    kinds = [k for k in ATTRS if k != "zero"]
    with LoopCtx() as loop:
        for server in (True, False):
            w = World(loop, cid, dev, server)
            c = w.cluster
            for pick in picks(kinds, most):
                known = [k for k in pick if k != "undefined"]
                if not known:
                    continue
                special = any(ATTRS[k][1] for k in known)
                values = {key(k, i): 10 + i for i, k in enumerate(pick)}
                rec = b"".join(struct.pack("<HBB", ATTRS[k][0], 0x20, 10 + i) for i, k in enumerate(pick) if k != "undefined")
                conf = b"".join(struct.pack("<BHBHHB", 0, ATTRS[k][0], 0x20, 5 + i, 600 + i, 2) for i, k in enumerate(pick))
                for given in GIVEN:
                    code = w.want_code(special, given)
                    what = f"of {pick} of {cid:#x} ({dev}, given {given}, server {server})"
                    w.reply = lambda cmd, body: ({2: 4, 3: 4, 6: 7}[cmd], b"\0")
                    _, frames = w.call(c.write_attributes(values, manufacturer=given))
                    require(len(frames) == 1, f"write {what}: {len(frames)} requests", key="frame")
                    w.same(frames[0], code, True, 2, rec, f"write {what}")
                    _, frames = w.call(c.write_attributes_undivided(values, manufacturer=given))
                    require(len(frames) == 1, f"undivided write {what}: {len(frames)} requests", key="frame")
                    w.same(frames[0], code, True, 3, rec, f"undivided write {what}")
                    if len(known) == len(pick):
                        cfg = {key(k, i): (5 + i, 600 + i, 2) for i, k in enumerate(pick)}
                        _, frames = w.call(c.configure_reporting_multiple(cfg, manufacturer=given))
                        require(len(frames) == 1, f"reporting {what}: {len(frames)} requests", key="frame")
                        w.same(frames[0], code, True, 6, conf, f"reporting {what}")
                        if len(pick) == 1:
                            _, frames = w.call(c.configure_reporting(key(pick[0], 1), 5, 600, 2, manufacturer=given))
                            w.same(frames[0], code, True, 6, conf, f"single reporting {what}")
                    st.executions += 3
                    st.transitions += 3
                    st.outcomes.add((pick, given, server))
        require(not loop.errors, f"background error {loop.errors[:1]}", key="error")


def commands(st, cid, dev):
    with LoopCtx() as loop:
        for server in (True, False):
            w = World(loop, cid, dev, server)
            c = w.cluster
            for (name, num, special, side), given, byname, tsn in itertools.product(
                    (("plain", 0, False, "command"), ("special", 1, True, "command"), ("plain_rsp", 0, False, "client_command"), ("special_rsp", 2, True, "client_command")),
                    GIVEN, (False, True), (None, 77)):
                kw = dict(manufacturer=given, tsn=tsn)
                if side == "command":
                    kw["expect_reply"] = False
                call = getattr(c, name)(5, **kw) if byname else getattr(c, side)(num, 5, **kw)
                what = f"{name} of {cid:#x} ({dev}, given {given}, server {server}, by name {byname}, tsn {tsn})"
                _, frames = w.call(call)
                require(len(frames) == 1, f"{what}: {len(frames)} frames", key="frame")
                w.same(frames[0], w.want_code(special, given), False, num, b"\x05", what, ddr=side == "client_command" or not server)
                if tsn is not None:
                    require(frames[0][3 if frames[0][0] & 4 else 1] == tsn, f"{what}: another transaction number", key="frame")
                st.executions += 1
                st.transitions += 1
                st.outcomes.add((name, given, byname, tsn, server))
        require(not loop.errors, f"background error {loop.errors[:1]}", key="error")


def configuration(st, slots):
    """Every cluster that has a configuration of its own applies it once, the others are left alone."""
    where = [(e, side) for e in (1, 2, 3) for side in ("in", "out")][:slots]
    for has in itertools.product((None, False, True), repeat=slots):
        with LoopCtx() as loop:
            app = make_app()
            base = add_device(app, 1, endpoints={e: (260, 0x0100, (), ()) for e in (1, 2, 3)})
            done = []

            def make(i, own):
                class Plain(CustomCluster):
                    cluster_id = 0x0B10 + i
                    ep_attribute = f"c{i}"

                if not own:
                    return Plain

                class Own(Plain):
                    async def apply_custom_configuration(self, *args, **kwargs):
                        done.append((self.endpoint.endpoint_id, self.is_server, args, kwargs))

                return Own

            eps = {e: {"profile_id": 260, "device_type": 0x0100, "input_clusters": [0], "output_clusters": [0x19]} for e in (1, 2, 3)}
            for i, ((e, side), own) in enumerate(zip(where, has)):
                if own is not None:
                    eps[e]["input_clusters" if side == "in" else "output_clusters"].append(make(i, own))
            kind = type("Quirk", (BaseCustomDevice,), {"replacement": {"endpoints": eps}})
            dev = kind(app, base.ieee, base.nwk, base)
            loop.run(dev.apply_custom_configuration(1, x=2))
            want = [(e, side == "in", (1,), {"x": 2}) for (e, side), own in zip(where, has) if own]
            require(sorted(done, key=repr) == sorted(want, key=repr), f"configured {done}, expected {want}", key="configuration")
        st.executions += 1
        st.transitions += len(done)
        st.outcomes.add(has)
