"""C26: every received byte string is handled without an error and without foreign side effects."""
from __future__ import annotations

import itertools
import json
import pathlib

import zigpy.types as t
from zigpy.profiles import zha
from zigpy.zcl import Cluster, foundation

from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import FakeApp, add_device, ieee, make_app, packet, zcl

LEVEL = "exploration"
RULE = ("(a) frame-control bytes x command bytes x short payloads on 22 clusters, (b) every golden cluster command frame, every "
        "truncation and single-byte change of it, (c) attribute reports of every attribute of every registered cluster with every "
        "data type, (d) every ZDO command frame with truncations and byte changes, each in several device states and "
        "addressings; distinct by cluster, bytes and state")
ASSUMPTIONS = ["the radio library supplies a source and destination address as the packet API requires",
               "whether a frame is malformed is judged by the codec (decided by C10 and C11)"]

DATA = pathlib.Path(__file__).resolve().parent.parent / "data" / "zcl.json"
IN = (0, 1, 3, 4, 5, 6, 8, 9, 10, 0x15, 0x20, 0x101, 0x102, 0x201, 0x204, 0x300, 0x402, 0x500, 0x501, 0x502, 0x702, 0x1000, 0xB04, 0xFC55)
OUT = (3, 6, 8, 10, 0x19, 0x300, 0x500, 0x501)
STATES = ("ready", "fresh", "half", "basic", "unknown", "nocoord")


def scenarios(tier, seed):
    full = tier == "thorough"
    out = []
    for c in sorted(set(IN + OUT)):
        out.append(dict(fn="raw", kind="bulk", args=dict(cluster=c, full=full)))
    ids = sorted(json.loads(DATA.read_text())["clusters"], key=int)
    n = 16
    for i in range(n):
        out.append(dict(fn="corpus", kind="bulk", args=dict(ids=ids[i::n], full=full)))
        out.append(dict(fn="reports", kind="bulk", args=dict(ids=ids[i::n], full=full)))
    for s in STATES:
        for part in range(4):
            out.append(dict(fn="zdo", kind="bulk", args=dict(state=s, part=part, full=full)))
        out.append(dict(fn="states", kind="bulk", args=dict(state=s, full=full)))
    return out


class World:
    """Two devices; A is the sender in the given state, B a bystander with a pending request."""

    def __init__(self, loop, state="ready", ins=IN, outs=OUT):
        self.loop = loop
        self.state = state

        async def never(pkt):
            await loop.create_future()

        self.app = make_app(coordinator=state != "nocoord")
        self.app.on_send = self.send
        self.hang = False
        eps = {1: (zha.PROFILE_ID, zha.DeviceType.PUMP, ins, outs), 2: (zha.PROFILE_ID, zha.DeviceType.PUMP, (6,), (0x19,))}
        self.B = add_device(self.app, 2, endpoints=eps)
        if state in ("ready", "nocoord"):
            self.A = add_device(self.app, 1, endpoints=eps, model="m", manufacturer="v")
        elif state == "fresh":
            self.A = self.app.add_device(ieee(1), t.NWK(0x1001))
        elif state == "half":
            self.A = self.app.add_device(ieee(1), t.NWK(0x1001))
            self.A.node_desc = self.B.node_desc
            self.A.add_endpoint(1)
        elif state == "basic":
            self.A = add_device(self.app, 1, endpoints=eps)
            self.A.endpoints[1].status = 0
        else:
            self.A = None
        self.events = []
        self.watch(self.app, "app", ("device_joined", "device_left", "device_removed", "device_initialized", "group_added",
                                     "group_removed", "group_member_added", "group_member_removed"))
        for d in [self.B] + ([self.A] if self.A else []):
            tag = "A" if d is self.A else "B"
            self.watch(d, tag, ("node_descriptor_updated",))
            for eid, ep in d.endpoints.items():
                if eid == 0:
                    continue
                for k, cl in [("in", c) for c in ep.in_clusters.values()] + [("out", c) for c in ep.out_clusters.values()]:
                    cl.update_attribute(0x0005, 5)
                    self.watch(cl, (tag, eid, k, int(cl.cluster_id)), ("attribute_updated", "attribute_cleared", "unsupported_attribute_added", "unsupported_attribute_removed"))
        self.group = self.app.groups.add_group(0x0007, "g")
        self.group.add_member(self.B.endpoints[1])
        if state in ("ready",):
            self.group.add_member(self.A.endpoints[1])
        loop.drain()
        self.pending = loop.create_task(self.B.request(260, 6, 1, 1, 0x07, b"p", timeout=10_000_000))
        loop.drain()
        self.app.sent.clear()
        self.events.clear()
        self.base = self.snapshot()

    async def send(self, pkt):
        if self.hang:
            await self.loop.create_future()

    def watch(self, obj, tag, names):
        w = self

        class L:
            pass

        for n in names:
            def ev(self, *a, n=n):
                w.events.append((tag, n, a))
            setattr(L, n, ev)
        obj.add_listener(L())

    def snapshot(self):
        """Everything but the sender's caches and radio details."""
        out = []
        for ie, d in sorted(self.app.devices.items()):
            eps = tuple((eid, ep.profile_id, ep.device_type, ep.status, tuple(ep.in_clusters), tuple(ep.out_clusters)) for eid, ep in d.endpoints.items() if eid)
            out.append((str(ie), int(d.nwk), d.model, d.manufacturer, repr(d.node_desc), eps))
            if d is self.B:
                out.append((d.last_seen, d.lqi, d.rssi, tuple(cl.get(5) if 5 in cl.attributes else None for cl in d.endpoints[1].clusters)))
        out.append(tuple((g, gr.name, tuple(gr)) for g, gr in self.app.groups.items()))
        return out

    def deliver(self, pkt, what):
        """Deliver one packet; returns the events it caused."""
        self.events.clear()
        self.app.sent.clear()
        CLOCK.t += 0.5
        try:
            self.app.packet_received(pkt)
        except Exception as exc:  # noqa: BLE001
            import traceback

            where = [f for f in traceback.extract_tb(exc.__traceback__) if "/zigpy/" in f.filename][-1]
            raise Violation(f"{what}: packet_received raised {type(exc).__name__}: {exc}",
                            key=f"raise:{type(exc).__name__}:{where.filename.split('/zigpy/')[-1]}:{where.name}",
                            data=traceback.format_exc()[-1500:])
        self.loop.drain()
        return list(self.events)


def safe(x):
    try:
        return repr(x)
    except Exception as e:  # noqa: BLE001
        return f"<unprintable: {e}>"


def malformed(dev, pkt):
    """Whether the frame cannot be decoded by the endpoint it is addressed to."""
    data = pkt.data.serialize()
    try:
        if pkt.dst_ep == 0 or pkt.src_ep == 0:
            dev.zdo.deserialize(pkt.cluster_id, data)
        else:
            dev.endpoints[pkt.src_ep].deserialize(pkt.cluster_id, data)
    except Exception:  # noqa: BLE001
        return True
    return False


def check(w, pkt, what, allowed=(), reads=None):
    """Deliver and judge: allowed = events that a well-formed frame may cause."""
    dev = w.A
    seen = dev.last_seen
    bad = malformed(dev, pkt)
    ev = w.deliver(pkt, what)
    if bad:
        require(not ev, f"{what}: malformed frame caused {safe(ev)}", key="malformed-changes")
        require(not w.app.sent, f"{what}: malformed frame was answered with {w.app.sent}", key="malformed-answered")
    for tag, name, a in ev:
        ok = name in ("attribute_updated",) and tag[0] == "A" and tag[1] == pkt.src_ep and tag[3] == pkt.cluster_id and "report" in allowed
        if not ok:
            raise Violation(f"{what}: caused {tag} {name} {safe(a)}", key="foreign-change")
    for p in w.app.sent:
        require(p.dst.address == dev.nwk, f"{what}: sent {p}", key="foreign-packet")
    require(len(w.app.sent) <= 1, f"{what}: {len(w.app.sent)} packets sent", key="foreign-packet")
    require(dev.last_seen is not None and (seen is None or dev.last_seen >= seen), f"{what}: last seen not updated", key="last-seen")
    require(not w.pending.done(), f"{what}: completed a pending request of another device", key="pending")
    return bad, ev


def finish(w, what):
    got = w.snapshot()
    require(got == w.base, f"{what}: state changed from {w.base} to {got}", key="state-change")
    # the stack still works
    w.loop.drain()
    w.app.packet_received(packet(w.B, zcl(0x18, 0x07, 0x0B, b"\x00\x00"), cluster=6))
    w.loop.drain()
    require(w.pending.done() and w.pending.exception() is None, f"{what}: the stack stopped working", key="broken-after")
    require(not w.loop.errors, f"{what}: background error {w.loop.errors[:1]}", key="background-error")


# -- (a) raw frames ----------------------------------------------------------------------
PAYLOADS = [b"", b"\x00", b"\xff", b"\x00\x00", b"\x01\x00\x20", b"\x05\x00\x00\x20\x01", b"\x05\x00\x20", b"\x05\x00\x20\x01",
            b"\xff\xff\xff\xff", bytes(8), bytes(range(1, 21)), b"\xff" * 30, b"\x05\x00\x42\x02ab", b"\x05\x00\x48\x20\x02\x00\x01\x02",
            b"\x05\x00\x00\x42\x03a", b"\x05\x00\xf0\x01", b"\x04\x00\x42\xff", b"\x00\x05\x00\x4c\x02\x00\x20\x01\x42\x01a"]


def raw(st, cluster, full):
    fcs = list(range(32)) + [0x20, 0xE0, 0xFF]
    cmds = list(range(0x19)) + [0x40, 0x42, 0x7F, 0xF0, 0xFF]
    if full:
        fcs = list(range(64)) + [0x80, 0xBF, 0xC5, 0xE0, 0xFE, 0xFF]
        cmds = range(256)
    with LoopCtx() as loop:
        w = World(loop)
        first = True
        for fc in fcs:
            for cmd in cmds:
                for pi, pl in enumerate(PAYLOADS if not full else PAYLOADS[:8]):
                    data = bytes([fc]) + (b"\x5f\x11" if fc & 4 else b"") + bytes([0x07, cmd]) + pl
                    one_raw(st, w, cluster, data, fc, cmd)
        for n in range(0, 5):
            for fc in (0x00, 0x01, 0x04, 0x05, 0x18, 0xFF):
                one_raw(st, w, cluster, bytes([fc, 0x5F, 0x11, 0x07, 0x0A])[:n], fc, None)
        finish(w, f"cluster {cluster:#x}")


def one_raw(st, w, cluster, data, fc, cmd):
    st.executions += 1
    what = f"cluster {cluster:#06x} frame {data.hex()}"
    report = fc & 3 != 1 and cmd == 0x0A
    bad, ev = check(w, packet(w.A, data, cluster=cluster), what, allowed=("report",) if report else ())
    st.outcomes.add((cluster, fc & 3, cmd, bad, len(ev)))
    if len(w.app.devices) > 3:
        raise Violation(f"{what}: a device appeared", key="foreign-change")


# -- (b) golden frames, truncations, single-byte changes ----------------------------------
def corpus(st, ids, full):
    T = json.loads(DATA.read_text())["clusters"]
    for cid in ids:
        with LoopCtx() as loop:
            w = World(loop, ins=(int(cid), 6), outs=(int(cid), 0x19))
            for side in ("client", "server"):
                for cmd, info in T[cid][side].items():
                    for hexs, _ in (info["frames"] or [])[: None if full else 3]:
                        pl = bytes.fromhex(hexs)
                        fc = 0x09 if side == "client" else 0x01
                        frame = bytes([fc, 0x07, int(cmd)]) + pl
                        variants = [frame, frame + b"\x00", frame + b"\xff\xff"] + [frame[:n] for n in range(len(frame))]
                        for i in range(len(frame)):
                            for x in (0x00, 0xFF, frame[i] ^ 1, frame[i] ^ 0x80) if full else (0xFF, frame[i] ^ 1):
                                if i == 2 and x == 0x0A:
                                    continue
                                variants.append(frame[:i] + bytes([x]) + frame[i + 1:])
                        for v in variants:
                            rep = len(v) > 2 and v[0] & 3 != 1 and (v[4] if v[0] & 4 and len(v) > 4 else v[2]) == 0x0A
                            st.executions += 1
                            bad, ev = check(w, packet(w.A, v, cluster=int(cid)), f"cluster {int(cid):#06x} {info['name']} frame {v.hex()}",
                                            allowed=("report",) if rep else ())
                            st.outcomes.add((cid, side, cmd, bad, len(v)))
            finish(w, f"cluster {cid}")


# -- (c) attribute reports ---------------------------------------------------------------
def typed_values():
    """One or more encodings for each data type, by an independent table: type id -> payloads."""
    out = {0x00: [b""], 0x10: [b"\x01", b"\xff"]}
    for base, name in ((0x08, "data"), (0x18, "map"), (0x20, "uint"), (0x28, "int")):
        for n in range(1, 9):
            out[base + n - 1] = [bytes([0x81] * n), b"\xff" * n, bytes(n)]
    out[0x30] = [b"\x00", b"\xfe"]
    out[0x31] = [b"\x00\x00", b"\xff\xfe"]
    out[0x38] = [b"\x00\x3c", b"\x00\x7e", b"\x00\x7c"]
    out[0x39] = [b"\x00\x00\x80\x3f", b"\x00\x00\xc0\x7f", b"\x00\x00\x80\x7f"]
    out[0x3A] = [bytes(6) + b"\xf0\x3f", bytes(6) + b"\xf8\x7f", bytes(6) + b"\xf0\xff"]
    out[0x41] = [b"\x00", b"\x02\x00\xff", b"\xff"]
    out[0x42] = [b"\x00", b"\x02ab", b"\x02\xff\xfe", b"\xff"]
    out[0x43] = [b"\x00\x00", b"\x02\x00\x00\xff"]
    out[0x44] = [b"\x00\x00", b"\x02\x00ab"]
    out[0x48] = [b"\x20\x02\x00\x01\x02", b"\x42\x01\x00\x01a", b"\x20\x00\x00"]
    out[0x4C] = [b"\x02\x00\x20\x01\x42\x01a", b"\x00\x00"]
    out[0x50] = [b"\x20\x01\x00\x01"]
    out[0x51] = [b"\x20\x02\x00\x01\x02"]
    out[0xE0] = [b"\x01\x02\x03\x04", b"\xff" * 4]
    out[0xE1] = [b"\x78\x01\x02\x03", b"\xff" * 4]
    out[0xE2] = [b"\x01\x02\x03\x04", b"\xff" * 4]
    out[0xE8] = [b"\x06\x00"]
    out[0xE9] = [b"\x05\x00"]
    out[0xEA] = [b"\x01\x02\x03\x04"]
    out[0xF0] = [bytes(range(8))]
    out[0xF1] = [bytes(range(16))]
    out[0xFF] = [b"", b"\x00"]
    return out


def reports(st, ids, full):
    T = json.loads(DATA.read_text())["clusters"]
    types = typed_values()
    for cid in ids:
        with LoopCtx() as loop:
            w = World(loop, ins=(int(cid), 6), outs=(0x19,))
            attrs = sorted(int(a) for a in T[cid]["attributes"])
            if not full:
                # one attribute per declared type (the conversion depends on the type only)
                by = {}
                for a in attrs:
                    by.setdefault(T[cid]["attributes"][str(a)][1], []).append(a)
                cl = w.A.endpoints[1].in_clusters[int(cid)]
                pick = {}
                for a in attrs:
                    if a in cl.attributes:
                        pick.setdefault(cl.attributes[a].type, a)
                attrs = sorted(pick.values())
            for a in attrs + [0xEEEE]:
                for ty, vals in types.items():
                    for v in vals:
                        rec = a.to_bytes(2, "little") + bytes([ty]) + v
                        second = b"\x05\x00\x20\x09"
                        for fc, body in ((0x18, rec), (0x10, rec + second), (0x08, rec)) if full else ((0x18, rec + second),):
                            st.executions += 1
                            data = zcl(fc, 0x07, 0x0A, body)
                            what = f"cluster {int(cid):#06x} report of {a:#06x} type {ty:#04x} value {v.hex()}"
                            bad, ev = check(w, packet(w.A, data, cluster=int(cid)), what, allowed=("report",))
                            if bad:
                                st.outcomes.add((cid, a, ty, "bad"))
                                continue
                            for e in ev:
                                if isinstance(e[2][1], (bytes, str)) and len(e[2][1]) > 1000:
                                    raise Violation(f"{what}: became a value of {len(e[2][1])} bytes", key="report-inflated")
                            got = [e[2][0] for e in ev if e[1] == "attribute_updated"]
                            want = [a, 5] if body is not rec else [a]
                            # every record that carries a value updates its attribute, whatever the others are
                            must = [x for x in want if x == 5 or ty not in (0x00, 0xFF)]
                            require([g for g in got if g in must] == must if a != 5 else len(got) >= 1,
                                    f"{what}: updated {got}, expected {must}", key="report-lost")
                            st.outcomes.add((cid, a, ty, len(got)))
            finish(w, f"cluster {cid} reports")


# -- (d) ZDO -----------------------------------------------------------------------------
ZDO_JOIN = (0x0013, 0x8000, 0x8001)


def zdo(st, state, part, full):
    from .c11 import layouts

    L = layouts()
    cids = sorted(L)[part::4]
    for cid in cids:
        name, fields = L[cid]
        frames = []
        doms = [f[1] if isinstance(f, tuple) else f for f in fields]
        for pick in range(2):
            frames.append(b"".join(d[min(pick, len(d) - 1)][1] for d in doms))
        variants = set()
        for f in frames:
            f = b"\x09" + f
            variants |= {f, f + b"\x00", f + b"\xff" * 5} | {f[:n] for n in range(len(f))}
            for i in range(len(f)):
                for x in (0x00, 0xFF, f[i] ^ 1):
                    variants.add(f[:i] + bytes([x]) + f[i + 1:])
        for src_ep, dst_ep, prof in ((0, 0, 0), (0, 1, 260), (1, 0, 0), (0, 255, 260), (242, 0, 0)):
            with LoopCtx() as loop:
                w = World(loop, state, ins=(0, 6), outs=(0x19,))
                w.hang = True
                use = sorted(variants) if (src_ep, dst_ep) == (0, 0) or full else sorted(variants)[::5]
                for v in use:
                    st.executions += 1
                    src = w.A if w.A is not None else t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0x1001))
                    pkt = packet(src, v, cluster=cid, profile=prof, src_ep=src_ep, dst_ep=dst_ep)
                    what = f"{state}: ZDO {name} {v.hex()} from {src_ep} to {dst_ep}"
                    n = len(w.app.devices)
                    ev = w.deliver(pkt, what)
                    require(not w.pending.done(), f"{what}: completed another device's request", key="pending")
                    changed = len(w.app.devices) != n or any(e[1].startswith("device_") for e in ev)
                    if cid not in ZDO_JOIN:
                        require(not changed, f"{what}: devices changed: {ev}", key="foreign-change")
                    elif changed:
                        st.outcomes.add((cid, "join"))
                        # start over, the join changed the network
                        w.pending.cancel()
                        loop.shutdown_tasks()
                        w = World(loop, state, ins=(0, 6), outs=(0x19,))
                        w.hang = True
                    st.outcomes.add((cid, state, src_ep, dst_ep, len(v), len(w.app.sent)))
                require(not loop.errors, f"{state} {name}: background error {loop.errors[:1]}", key="background-error")


# -- (e) addressing and device states ------------------------------------------------------
def states(st, state, full):
    """A smaller set of frames over every combination of endpoints, profiles, addresses and states."""
    frames = {6: [b"", b"\x01", b"\x01\x07", b"\x01\x07\x01", b"\x18\x07\x0a\x00\x00\x10\x01", b"\x08\x07\x0b\x00\x00", b"\xff" * 6],
              0: [b"", b"\x18\x07\x01\x04\x00\x00\x42\x01a", b"\x18\x07\x0a\x05\x00\x42\x01a", b"\x00\x07\x00\x07\x00", b"\x08\x07\x01\x04\x00"],
              0x19: [b"", b"\x01\x07\x01\x00\x5f\x11\x01\x00\x02\x00\x00\x00", b"\x01\x07\x03\x00\x5f\x11\x01\x00\x02\x00\x00\x00\x00\x00\x00\x00\x40"],
              0x4242: [b"", b"\x01\x07\x00"]}
    zdof = {0x0013: [b"", b"\x01", b"\x01\x01\x10"], 0x8005: [b"", b"\x01\x00\x01\x10\x01\x01"], 0x0006: [b"\x01\x00"], 0x7777: [b"", b"\x01\x02"],
            6: [b"\x01\x07\x01"]}
    dsts = [t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)), t.AddrModeAddress(addr_mode=t.AddrMode.Group, address=t.Group(7)),
            t.AddrModeAddress(addr_mode=t.AddrMode.Broadcast, address=t.BroadcastAddress.RX_ON_WHEN_IDLE),
            t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=t.EUI64.convert("aa:11:22:bb:33:44:be:ef"))]
    srcs = ["nwk", "ieee", "other-nwk", "other-ieee"]
    radio = [dict(), dict(lqi=200, rssi=-50), dict(lqi=None, rssi=-1)]
    with LoopCtx() as loop:
        w = World(loop, state)
        w.hang = True
        for (src_ep, dst_ep), prof, dst, src in itertools.product(
                ((0, 0), (0, 1), (1, 0), (1, 1), (1, 255), (2, 2), (9, 1), (255, 255), (1, 7), (242, 242)), (0, 260, 0xC05E, 0xA1E0), dsts, srcs):
            for cid, fl in (list(frames.items()) + (list(zdof.items()) if 0 in (src_ep, dst_ep) else [])):
                for i, f in enumerate(fl):
                    st.executions += 1
                    unknown = src.startswith("other") or w.A is None
                    if src.endswith("ieee"):
                        s = t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=ieee(0x77) if unknown else w.A.ieee)
                    else:
                        s = t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0x7777) if unknown else w.A.nwk)
                    rd = radio[i % 3]
                    pkt = packet(s, f, cluster=cid, profile=prof, src_ep=src_ep, dst_ep=dst_ep, dst=dst, **rd)
                    what = f"{state}: from {s.address} {src_ep} to {dst.address} {dst_ep} profile {prof:#x} cluster {cid:#x} frame {f.hex()}"
                    n = len(w.app.devices)
                    before = None if unknown else (w.A.lqi, w.A.rssi)
                    ev = w.deliver(pkt, what)
                    require(len(w.app.devices) == n, f"{what}: devices changed", key="foreign-change")
                    require(not w.pending.done(), f"{what}: completed another device's request", key="pending")
                    if unknown:
                        require(not ev, f"{what}: caused {ev}", key="foreign-change")
                        disc = [p for p in w.app.sent if p.cluster_id == 0x0001]
                        if src.endswith("nwk"):
                            require(len(disc) == 1 and len(w.app.sent) == 1 and disc[0].data.serialize()[1:3] == s.address.to_bytes(2, "little")
                                    and disc[0].dst.addr_mode == t.AddrMode.Broadcast, f"{what}: discovery sent {w.app.sent}", key="discovery")
                        else:
                            require(not w.app.sent, f"{what}: sent {w.app.sent}", key="foreign-packet")
                    else:
                        want = (rd.get("lqi") if rd.get("lqi") is not None else before[0], rd.get("rssi") if rd.get("rssi") is not None else before[1])
                        handled = state in ("ready", "nocoord") or dst_ep == 0 or cid == 0 and state in ("half", "basic")
                        if handled:
                            require((w.A.lqi, w.A.rssi) == want, f"{what}: signal quality is {(w.A.lqi, w.A.rssi)}, expected {want}", key="signal")
                        for tag, name, a in ev:
                            require(tag[0] == "A" and name == "attribute_updated" and f[2:3] == b"\x0a", f"{what}: caused {tag} {name} {a}", key="foreign-change")
                        if state in ("ready", "nocoord"):
                            require(not [p for p in w.app.sent if p.dst.address != w.A.nwk], f"{what}: sent {w.app.sent}", key="foreign-packet")
                        else:
                            require(w.A.initializing, f"{what}: no interview was started", key="no-interview")
                    st.outcomes.add((state, src, src_ep, dst_ep, cid, len(w.app.sent)))
        require(not loop.errors, f"{state}: background error {loop.errors[:1]}", key="background-error")
