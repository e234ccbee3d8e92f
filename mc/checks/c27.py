"""C27: requests from devices are answered correctly, once, and only when due."""
from __future__ import annotations

import os
import struct
import time

import zigpy.types as t
from zigpy.profiles import zha

from ..clock import CLOCK, vtime
from ..explore import require
from ..loop import LoopCtx
from ..world import COORD_IEEE, add_device, ieee, make_app, packet, zcl

LEVEL = "exploration"
RULE = ("every ZDO command frame of the layout table x sender state x addressing; every 16-bit address asked about, every single-byte "
        "change of the coordinator's IEEE address, every transaction number; every announcement of a known, moved or unknown device by itself "
        "or another; every general and cluster command x header flags x cluster side; every attribute id list up to two ids on the clusters "
        "that provide values; distinct by request bytes, sender and addressing")
ASSUMPTIONS = ["the coordinator's own endpoint descriptors are answered by the radio firmware, as zigpy leaves them to it",
               "frames are unicast to the coordinator except where the addressing is enumerated"]

INS = (0, 3, 4, 5, 6, 8, 10, 0x101, 0x300, 0x402, 0x500, 0x502, 0x702)
OUTS = (0, 3, 6, 8, 10, 0x19, 0x500)
EPOCH = 946684800  # 2000-01-01


def scenarios(tier, seed):
    full = tier == "thorough"
    out = []
    for part in range(4):
        out.append(dict(fn="zdo_all", kind="bulk", args=dict(part=part, full=full)))
    for part in range(4):
        out.append(dict(fn="nwk_asked", kind="bulk", args=dict(part=part)))
    out += [dict(fn="ieee_asked", kind="bulk", args=dict(full=full)), dict(fn="match", kind="bulk", args=dict(full=full)),
            dict(fn="announce", kind="bulk", args={})]
    for cid in INS:
        out.append(dict(fn="general", kind="bulk", args=dict(cid=cid, side="in", full=full)))
    for cid in OUTS:
        out.append(dict(fn="general", kind="bulk", args=dict(cid=cid, side="out", full=full)))
    for tz in ("UTC0", "XXX-5:30", "YYY+9:30", "ZZZ-13") + (("VVV-0:45", "WWW+12") if full else ()):
        out.append(dict(fn="reads", kind="bulk", args=dict(tz=tz, full=full)))
    out.append(dict(fn="ota", kind="bulk", args={}))
    return out


class World:
    def __init__(self, loop, fresh=False, own_nwk=0x0000):
        self.loop = loop
        self.fresh = fresh
        self.app = make_app()
        self.app.state.node_info.nwk = t.NWK(own_nwk)
        eps = {1: (zha.PROFILE_ID, zha.DeviceType.PUMP, INS, OUTS), 3: (zha.PROFILE_ID, zha.DeviceType.PUMP, INS, OUTS)}
        self.B = add_device(self.app, 2, endpoints=eps)
        if fresh:
            self.A = self.app.add_device(ieee(1), t.NWK(0x1001))
        else:
            self.A = add_device(self.app, 1, endpoints=eps)
        loop.drain()

    def ask(self, pkt):
        """Deliver one packet; returns what was sent because of it."""
        self.app.sent.clear()
        CLOCK.t += 0.6
        self.app.packet_received(pkt)
        self.loop.drain()
        if self.fresh:
            # replies wait for the interview request that is being made
            self.loop.run_idle(horizon=CLOCK.t + 300)
        return list(self.app.sent)


def parts(pkt):
    return pkt.dst.address, pkt.dst_ep, pkt.src_ep, pkt.profile_id, pkt.cluster_id, pkt.data.serialize()


def addr_body(own):
    return b"\x00" + COORD_IEEE.serialize() + struct.pack("<H", own)


def judge_addr(sent, w, tsn, rsp, own, what):
    require(len(sent) == 1, f"{what}: {len(sent)} answers", key="answer-count")
    dst, dep, sep, prof, cid, data = parts(sent[0])
    require((int(dst), dep, sep, prof, cid) == (int(w.A.nwk), 0, 0, 0, rsp), f"{what}: answered with {sent[0]}", key="answer-address")
    body = bytes([tsn]) + addr_body(own)
    require(data[: len(body)] == body and not any(data[len(body):]), f"{what}: answered {data.hex()}, expected {body.hex()}", key="answer-data")


def judge_match(sent, w, tsn, profile, own, what):
    require(len(sent) == 1, f"{what}: {len(sent)} answers", key="answer-count")
    want = bytes([tsn, 0]) + struct.pack("<H", own) + (b"\x01\x01" if profile == 0x0104 else b"\x00")
    require(parts(sent[0]) == (w.A.nwk, 0, 0, 0, 0x8006, want), f"{what}: answered {parts(sent[0])}, expected {want.hex()}", key="answer-data")


def answers(sent):
    return [p for p in sent if not (p.profile_id == 0 and not p.cluster_id & 0x8000)]


# -- ZDO -----------------------------------------------------------------------------------
def zdo_all(st, part, full):
    from .c11 import layouts

    L = layouts()
    for cid in sorted(L)[part::4]:
        name, fields = L[cid]
        doms = [f[1] if isinstance(f, tuple) else f for f in fields]
        bodies = []
        for i in range(4 if full else 2):
            bodies.append(b"".join(d[i % len(d)][1] for d in doms))
        for fresh in (False, True):
            for src_mode in ("nwk", "ieee"):
                for dst in (t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)),
                            t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=COORD_IEEE),
                            t.AddrModeAddress(addr_mode=t.AddrMode.Broadcast, address=t.BroadcastAddress.RX_ON_WHEN_IDLE)):
                    for tsn in (0x01, 0x80, 0xFF):
                        for body in bodies:
                            with LoopCtx() as loop:
                                w = World(loop, fresh)
                                st.executions += 1
                                what = f"ZDO {name} {body.hex()} tsn {tsn} from {'a new' if fresh else 'a known'} device ({src_mode}) to {dst.address}"
                                sent = answers(w.ask(packet(w.A, bytes([tsn]) + body, profile=0, cluster=cid, src_ep=0, dst_ep=0, src_mode=src_mode, dst=dst)))
                                due = cid == 6 or (cid == 0 and body[:8] == COORD_IEEE.serialize()) or (
                                    cid == 1 and struct.unpack("<H", body[:2])[0] in (0x0000, 0xFFFF, 0xFFFD, 0xFFFC))
                                if not due:
                                    require(not sent, f"{what}: answered with {sent[:1]}", key="undue-answer")
                                elif cid == 6:
                                    judge_match(sent, w, tsn, struct.unpack("<H", body[2:4])[0], 0, what)
                                else:
                                    judge_addr(sent, w, tsn, cid | 0x8000, 0, what)
                                st.outcomes.add((cid, fresh, src_mode, len(sent), body))


def nwk_asked(st, part):
    """IEEE address requests about every 16-bit address."""
    for own in (0x0000, 0x3456):
        with LoopCtx() as loop:
            w = World(loop, own_nwk=own)
            for nwk in range(part, 0x10000, 4):
                st.executions += 1
                tsn = (nwk * 7 + own) & 0xFF
                sent = w.ask(packet(w.A, struct.pack("<BHBB", tsn, nwk, nwk >> 4 & 1, nwk & 1), profile=0, cluster=1, src_ep=0, dst_ep=0))
                what = f"IEEE address request for {nwk:#06x}, own address {own:#06x}"
                if nwk in (own, 0xFFFF, 0xFFFD, 0xFFFC):
                    judge_addr(sent, w, tsn, 0x8001, own, what)
                else:
                    require(not sent, f"{what}: answered {sent[:1]}", key="undue-answer")
            st.outcomes.add((own, part))


def ieee_asked(st, full):
    own = COORD_IEEE.serialize()
    asked = [own, bytes(8), b"\xff" * 8, own[::-1], ieee(1).serialize(), ieee(2).serialize()]
    for i in range(8):
        asked += [own[:i] + bytes([x]) + own[i + 1:] for x in range(256) if x != own[i]]
    with LoopCtx() as loop:
        w = World(loop)
        for n, e in enumerate(asked):
            for kind in (b"\x00\x00", b"\x01\x00", b"\x01\x07"):
                for tsn in (range(256) if e == own else (n & 0xFF,)):
                    st.executions += 1
                    sent = w.ask(packet(w.A, bytes([tsn]) + e + kind, profile=0, cluster=0, src_ep=0, dst_ep=0))
                    what = f"network address request for {e[::-1].hex(':')} kind {kind.hex()} tsn {tsn}"
                    if e == own:
                        judge_addr(sent, w, tsn, 0x8000, 0, what)
                    else:
                        require(not sent, f"{what}: answered {sent[:1]}", key="undue-answer")
            st.outcomes.add(e)


def match(st, full):
    lists = [[], [6], [6, 8], [0x19], [0x500, 0x501, 0xFC00]]
    profs = sorted({0, 1, 0x0103, 0x0104, 0x0105, 0x0401, 0xC05E, 0xA1E0, 0xFFFF} | ({1 << i for i in range(16)} if full else set()))
    with LoopCtx() as loop:
        w = World(loop)
        tsn = 0
        for prof in profs:
            for addr in (0x0000, 0xFFFD, 0xFFFF, 0x1001, 0x1002):
                for a in lists:
                    for b in lists:
                        st.executions += 1
                        tsn = tsn + 1 & 0xFF
                        body = struct.pack("<HH", addr, prof) + bytes([len(a)]) + struct.pack(f"<{len(a)}H", *a) + bytes([len(b)]) + struct.pack(f"<{len(b)}H", *b)
                        sent = w.ask(packet(w.A, bytes([tsn]) + body, profile=0, cluster=6, src_ep=0, dst_ep=0))
                        judge_match(sent, w, tsn, prof, 0, f"match request for profile {prof:#06x} at {addr:#06x} {a} {b}")
                        st.outcomes.add((prof, addr, len(a), len(b)))


def announce(st):
    """Announcements of a known, moved or unknown device, by itself or relayed by another."""
    for who in ("A", "B", "new"):
        for addr in ("same", "moved", "taken"):
            for sender in ("itself", "old", "other", "unknown"):
                for mode in ("annce", "nwk_rsp", "ieee_rsp", "nwk_rsp_fail", "ieee_rsp_fail"):
                    for ep in ((0, 0),):
                        with LoopCtx() as loop:
                            w = World(loop)
                            st.executions += 1
                            joined = []

                            class L:
                                def device_joined(self, dev):
                                    joined.append(dev)

                            async def hang(pkt, loop=loop):
                                await loop.create_future()

                            w.app.on_send = hang
                            w.app.add_listener(L())
                            dev = {"A": w.A, "B": w.B, "new": None}[who]
                            other = w.A if who != "A" else w.B
                            ie = dev.ieee if dev else ieee(9)
                            old = int(dev.nwk) if dev else None
                            if addr == "taken":
                                continue
                            nwk = old if addr == "same" and dev else 0x2222
                            src = {"itself": nwk, "old": old if old is not None else 0x3333, "other": int(other.nwk), "unknown": 0x4444}[sender]
                            b = struct.pack("<H", nwk)
                            if mode == "annce":
                                cid, data = 0x0013, b"\x11" + b + ie.serialize() + b"\x8e"
                            else:
                                cid = 0x8000 if mode.startswith("nwk") else 0x8001
                                data = b"\x11" + (b"\x81" if mode.endswith("fail") else b"\x00") + ie.serialize() + b
                            nother = int(other.nwk)
                            w.ask(packet(t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(src)), data, profile=0, cluster=cid, src_ep=0, dst_ep=0))
                            what = f"{mode} of {who} at {addr} address from {sender}"
                            fail = mode.endswith("fail")
                            got = w.app.devices.get(ie)
                            if fail:
                                require((got is None) == (dev is None) and (dev is None or int(dev.nwk) == old) and not joined, f"{what}: took effect", key="announce-failed")
                            else:
                                require(got is not None and int(got.nwk) == nwk, f"{what}: the device is not at {nwk:#06x}: {got}", key="announce-address")
                                require(dev is None or got is dev, f"{what}: the device object was replaced", key="announce-address")
                                fresh = dev is None or nwk != old
                                require([d.ieee for d in joined] == ([ie] if fresh else []), f"{what}: joined events {joined}", key="announce-joined")
                                require(w.app.get_device(nwk=t.NWK(nwk)) is got, f"{what}: not found by its address", key="announce-address")
                            require(int(other.nwk) == nother and len(w.app.devices) == (4 if dev is None and not fail else 3), f"{what}: another device changed", key="announce-other")
                            rsp = [p for p in w.app.sent if p.cluster_id & 0x8000]
                            require(not rsp, f"{what}: answered with {rsp}", key="undue-answer")
                            st.outcomes.add((who, addr, sender, mode, len(joined)))


# -- ZCL -----------------------------------------------------------------------------------
# a valid payload for each general command
GENERAL = {
    0x00: b"\x00\x00\x04\x00", 0x01: b"\x00\x00\x00\x20\x03", 0x02: b"\x00\x00\x20\x01", 0x03: b"\x00\x00\x20\x01", 0x04: b"\x00",
    0x05: b"\x00\x00\x20\x01", 0x06: b"\x00\x00\x00\x20\x01\x00\x02\x00\x01", 0x07: b"\x00", 0x08: b"\x00\x00\x00",
    0x09: b"\x00\x00\x00\x00\x20\x01\x00\x02\x00\x01", 0x0A: b"\x00\x00\x20\x03", 0x0B: b"\x00\x00", 0x0C: b"\x00\x00\x05",
    0x0D: b"\x01\x00\x00\x20", 0x0E: b"\x00\x00\x00\x00", 0x0F: b"\x00\x00\x00\x00\x20\x01", 0x10: b"\x00", 0x11: b"\x00\x05",
    0x12: b"\x01\x00", 0x13: b"\x00\x05", 0x14: b"\x01\x00", 0x15: b"\x00\x00\x05", 0x16: b"\x01\x00\x00\x20\x01",
}


def judge_default(sent, w, cid, ep, tsn, cmd, what):
    require(len(sent) == 1, f"{what}: {len(sent)} answers", key="default-count")
    dst, dep, sep, prof, c, data = parts(sent[0])
    require((dst, dep, sep, prof, c) == (w.A.nwk, ep, ep, 0x0104, cid), f"{what}: answered {sent[0]}", key="default-address")
    require(len(data) == 5 and data[1] == tsn and data[2] == 0x0B and data[3] == cmd and data[4] == 0, f"{what}: answered {data.hex()}", key="default-data")
    require(data[0] & 0x13 == 0x10, f"{what}: the default response {data.hex()} asks for a default response", key="default-flags")


def general(st, cid, side, full):
    """Every general command and every cluster command number with every header flag, twice each in different order."""
    with LoopCtx() as loop:
        w = World(loop)
        # only one side per endpoint so that the side under test handles the frame
        for e in (1, 3):
            ep = w.A.endpoints[e]
            (ep.out_clusters if side == "in" else ep.in_clusters).pop(cid, None)
        cl = (w.A.endpoints[1].in_clusters if side == "in" else w.A.endpoints[1].out_clusters)[cid]
        cmds = cl.client_commands
        tsn = 0
        for ep in (1, 3):
            for fl in range(8):
                manuf = 0x115F if fl & 1 else None
                for d in (0, 8):
                    base = (4 if fl & 1 else 0) | d | (0x10 if fl & 2 else 0) | (0x20 if fl & 4 else 0)
                    for kind in ("general", "cluster"):
                        for cmd in range(0x19) if kind == "general" else list(range(0x20)) + [0x40, 0xF0, 0xFE]:
                            for tsn in (range(256) if full and cmd in (0, 0x0A) and fl < 4 else (cmd * 9 + fl & 0xFF, 0xFF - cmd)):
                                if kind == "general":
                                    payload = GENERAL.get(cmd, b"")
                                elif cmd in cmds and d == 8:
                                    payload = bytes(24)
                                elif cmd in cl.server_commands and d == 0:
                                    payload = bytes(24)
                                else:
                                    payload = b""
                                if cid == 0x19 and kind == "cluster" and d == 0 and cmd in (0x01, 0x03):
                                    continue  # firmware requests, see ota()
                                st.executions += 1
                                fr = zcl(base | (1 if kind == "cluster" else 0), tsn, cmd, payload, manuf)
                                sent = w.ask(packet(w.A, fr, cluster=cid, src_ep=ep, dst_ep=1))
                                what = f"{kind} command {cmd:#04x} {fr.hex()} to {side} cluster {cid:#06x} of endpoint {ep}"
                                disabled = bool(fl & 2)
                                if kind == "general" and cmd == 0x0A:
                                    if disabled:
                                        require(not sent, f"{what}: answered although disabled: {sent}", key="default-disabled")
                                    else:
                                        judge_default(sent, w, cid, ep, tsn, 0x0A, what)
                                elif kind == "general" and cmd == 0x00:
                                    require(len(sent) == 1, f"{what}: {len(sent)} answers", key="read-count")
                                    judge_read(sent[0], w, cid, ep, tsn, [0, 4], what)
                                elif kind == "cluster" and cid == 0x500 and side == "in" and cmd == 0 and d == 8:
                                    # zone status change notification
                                    if disabled:
                                        require(not sent, f"{what}: answered although disabled: {sent}", key="default-disabled")
                                    else:
                                        judge_default(sent, w, cid, ep, tsn, 0, what)
                                elif kind == "cluster" and cid == 0x500 and side == "in" and cmd == 0:
                                    pass  # a frame that only zigpy itself may send
                                else:
                                    require(not sent, f"{what}: answered with {[parts(p)[-1].hex() for p in sent]}", key="undue-answer")
                                st.outcomes.add((base, kind, cmd, len(sent)))


# -- attribute reads by devices -----------------------------------------------------------
def provided(cid):
    """attribute -> (type id, function of now giving the value bytes) that the coordinator provides."""
    now = vtime() - EPOCH
    off = -time.timezone
    if cid == 0:
        return {0: (0x20, 1, 8), 7: (0x30, 1, 4)}
    if cid == 10:
        return {0: (0xE2, 4, int(now)), 1: (0x18, 1, None), 2: (0x2B, 4, off), 7: (0x23, 4, int(now) + off)}
    return {}


def judge_read(pkt, w, cid, ep, tsn, asked, what):
    dst, dep, sep, prof, c, data = parts(pkt)
    require((dst, dep, sep, prof, c) == (w.A.nwk, ep, ep, 0x0104, cid), f"{what}: answered {pkt}", key="read-address")
    require(data[0] & 0x03 == 0 and data[0] & 0x04 == 0 and data[1] == tsn and data[2] == 0x01, f"{what}: answered {data.hex()}", key="read-header")
    p = data[3:]
    have = provided(cid)
    for a in asked:
        require(p[:2] == struct.pack("<H", a), f"{what}: answered {data.hex()}, expected a record for {a:#06x}", key="read-records")
        if a in have:
            ty, size, val = have[a]
            require(p[2] == 0 and p[3] == ty, f"{what}: answered {data.hex()}, attribute {a:#06x} should be available with type {ty:#04x}", key="read-value")
            got = int.from_bytes(p[4: 4 + size], "little", signed=ty == 0x2B)
            if val is not None:
                require(got == val or cid == 10 and a in (0, 7) and abs(got - val) <= 1, f"{what}: attribute {a:#06x} is {got}, expected {val}", key="read-value")
            else:
                require(got & 0b11 == 0b11, f"{what}: time status {got:#x}", key="read-value")
            p = p[4 + size:]
        else:
            require(p[2] == 0x86, f"{what}: answered {data.hex()}, attribute {a:#06x} is not available", key="read-unsupported")
            p = p[3:]
    require(not p, f"{what}: answered {data.hex()}, too much data", key="read-records")


def reads(st, tz, full):
    os.environ["TZ"] = tz
    time.tzset()
    try:
        ids = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x4000, 0xFFFD, 0xEEEE]
        with LoopCtx() as loop:
            w = World(loop)
            tsn = 0
            for cid in (0, 10, 6, 0x300):
                for side in ("in", "out"):
                    if side == "out" and cid == 0x300:
                        continue
                    lists = [[]] + [[a] for a in ids] + [[a, b] for a in ids for b in ids] + [ids, ids[::-1]]
                    if full:
                        lists += [[a, b, c] for a in ids for b in ids for c in ids]
                    for e in (1, 3):
                        ep = w.A.endpoints[e]
                        keep, drop = (ep.in_clusters, ep.out_clusters) if side == "in" else (ep.out_clusters, ep.in_clusters)
                        removed = drop.pop(cid, None)
                        for ask in lists:
                            for fc in (0x00, 0x10):
                                st.executions += 1
                                tsn = tsn + 1 & 0xFF
                                if ask:
                                    CLOCK.t += 7211.25
                                sent = w.ask(packet(w.A, zcl(fc, tsn, 0x00, b"".join(struct.pack("<H", a) for a in ask)), cluster=cid, src_ep=e, dst_ep=1))
                                what = f"read of {ask} of {side} cluster {cid:#x} endpoint {e} in {tz}"
                                require(len(sent) == 1, f"{what}: {len(sent)} answers", key="read-count")
                                judge_read(sent[0], w, cid, e, tsn, ask, what)
                                st.outcomes.add((cid, side, tuple(ask)))
                        if removed is not None:
                            drop[cid] = removed
    finally:
        os.environ.pop("TZ", None)
        time.tzset()


def ota(st):
    """Firmware requests outside an update: queries get 'no image', block requests are aborted."""
    for cmd, payloads in ((0x01, [b"\x00\x5f\x11\x01\x00\x02\x00\x00\x00", b"\x01\x5f\x11\x01\x00\x02\x00\x00\x00\x07\x00"]),
                          (0x03, [b"\x00\x5f\x11\x01\x00\x02\x00\x00\x00\x00\x00\x00\x00\x40"])):
        for pl in payloads:
            for tsn in range(256):
                for fc in (0x01, 0x11):
                    for ep in (1, 3):
                        with LoopCtx() as loop:
                            w = World(loop)
                            st.executions += 1
                            sent = w.ask(packet(w.A, zcl(fc, tsn, cmd, pl), cluster=0x19, src_ep=ep, dst_ep=1))
                            what = f"firmware request {cmd} tsn {tsn}"
                            require(len(sent) == 1, f"{what}: {len(sent)} answers", key="ota-count")
                            dst, dep, sep, prof, c, data = parts(sent[0])
                            rsp, status = (0x02, 0x98) if cmd == 1 else (0x05, 0x95)
                            require((dst, dep, sep, prof, c) == (w.A.nwk, ep, ep, 0x0104, 0x19) and data[0] & 3 == 1 and data[1:] == bytes([tsn, rsp, status]),
                                    f"{what}: answered {sent[0]}", key="ota-answer")
                            st.outcomes.add((cmd, tsn, fc, ep))
