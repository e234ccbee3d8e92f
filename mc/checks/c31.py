"""C31: outgoing packets carry the right addressing, options and bytes."""
from __future__ import annotations

import asyncio
import itertools
import json
import pathlib
import struct

import zigpy.config as conf
import zigpy.types as t
import zigpy.zdo
from zigpy.profiles import zha, zll
from zigpy.zcl import foundation
from zigpy.zdo.types import LogicalType, ZDOCmd

from ..clock import CLOCK
from ..explore import require
from ..loop import LoopCtx
from ..world import COORD_IEEE, add_device, ieee, make_app, packet, zcl

LEVEL = "exploration"
RULE = ("the product of sending level (application, device, endpoint, cluster, command name, ZDO name, group, broadcast) x reply expectation x "
        "acknowledgement x addressing mode x device type x source route x profile and cluster x priority x timeout; every command of every "
        "cluster and every ZDO command by name against golden bytes; 1100 consecutive requests for transaction numbers; distinct by packet")
ASSUMPTIONS = ["the radio accepts every packet", "golden command frames were cross-checked with the cluster layouts (C10, C11)"]

DATA = pathlib.Path(__file__).resolve().parent.parent / "data" / "zcl.json"
LL = 0x1000


def scenarios(tier, seed):
    full = tier == "thorough"
    out = []
    for level in ("app", "device", "endpoint", "cluster", "general"):
        for dtype in ("router", "end", "coordinator", "nodesc"):
            out.append(dict(fn="unicast", kind="bulk", args=dict(level=level, dtype=dtype, full=full)))
    ids = sorted(json.loads(DATA.read_text())["clusters"], key=int)
    for i in range(8):
        out.append(dict(fn="commands", kind="bulk", args=dict(ids=ids[i::8], full=full)))
        out.append(dict(fn="zdo", kind="bulk", args=dict(part=i, full=full)))
    out += [dict(fn="multicast", kind="bulk", args=dict(full=full)), dict(fn="sequence", kind="bulk", args={}),
            dict(fn="groups", kind="bulk", args=dict(full=full)), dict(fn="moving", kind="bulk", args={}),
            *[dict(fn="relays", kind="bulk", args=dict(first=i, full=full)) for i in range(5)],
            dict(fn="timeouts", kind="bulk", args=dict(full=full))]
    return out


TYPES = {"router": LogicalType.Router, "end": LogicalType.EndDevice, "coordinator": LogicalType.Coordinator}


def world(dtype="router", own=0x0000, profile=zha.PROFILE_ID, clusters=(0, 6, 0x300, LL, 0x500), routing=False):
    app = make_app(**{conf.CONF_SOURCE_ROUTING: routing})
    app.state.node_info.nwk = t.NWK(own)
    eps = {e: (profile, zha.DeviceType.PUMP, clusters, clusters) for e in (1, 2, 242)}
    dev = add_device(app, 1, endpoints=eps, logical_type=TYPES.get(dtype, LogicalType.Router))
    if dtype == "nodesc":
        dev.node_desc = None
    add_device(app, 2, endpoints=eps)
    app.sent.clear()
    return app, dev


def expect(app, dev, *, profile, cluster, src_ep, dst_ep, tsn, data, expect_reply, ack, use_ieee, dtype, priority, what, extended=None):
    require(len(app.sent) == 1, f"{what}: {len(app.sent)} packets", key="count")
    p = app.sent[0]
    if use_ieee:
        src, dst = (t.AddrMode.IEEE, COORD_IEEE), (t.AddrMode.IEEE, dev.ieee)
    else:
        src, dst = (t.AddrMode.NWK, app.state.node_info.nwk), (t.AddrMode.NWK, dev.nwk)
    require((p.src.addr_mode, p.src.address) == src, f"{what}: source {p.src}", key="source")
    require((p.dst.addr_mode, p.dst.address) == dst, f"{what}: destination {p.dst}", key="destination")
    require((p.src_ep, p.dst_ep) == (src_ep, dst_ep), f"{what}: endpoints {p.src_ep} -> {p.dst_ep}", key="endpoints")
    require((p.profile_id, p.cluster_id) == (profile, cluster), f"{what}: profile {p.profile_id:#x} cluster {p.cluster_id:#x}", key="profile")
    if tsn is not None:
        require(p.tsn == tsn, f"{what}: transaction number {p.tsn}", key="tsn")
    require(p.data.serialize() == data, f"{what}: sent {p.data.serialize().hex()}, expected {data.hex()}", key="data")
    require(p.priority == priority, f"{what}: priority {p.priority}", key="priority")
    want = ack if ack is not None else not expect_reply
    require(p.tx_options == (t.TransmitOptions.ACK if want else t.TransmitOptions.NONE), f"{what}: options {p.tx_options}", key="ack")
    if extended is None:
        extended = expect_reply and dtype in ("end", "nodesc")
    require(bool(p.extended_timeout) == extended, f"{what}: extended timeout {p.extended_timeout}", key="extended")
    route = dev.relays[::-1] if dev.relays is not None and app.config[conf.CONF_SOURCE_ROUTING] else None
    require((p.source_route is None) == (route is None) and (route is None or list(p.source_route) == list(route)),
            f"{what}: source route {p.source_route}, expected {route}", key="route")


def send(loop, app, coro):
    app.sent.clear()
    task = loop.create_task(coro)
    loop.drain()
    return task


def relays(st, first, full):
    """A source route is the way that the device last reported: every hop once, without the coordinator."""
    with LoopCtx() as loop:
        app, dev = world("router", routing=True)
        hops = (0x0000, 0x1111, 0x2222, 0x3333, 0x4444)
        for n in range(6 if full else 5):
            for rest in itertools.product(hops, repeat=n) if n or not first else [()]:
                said = (hops[first], *rest) if n or first else ()
                if first == 0 and n == 0:
                    said = ()
                app.handle_relays(dev.nwk, [t.NWK(h) for h in said])
                want = [h for i, h in enumerate(said) if h and h not in said[:i]]
                task = send(loop, app, app.request(dev, 260, 6, 1, 1, 5, b"x", expect_reply=False))
                got = app.sent[0].source_route
                require(len(app.sent) == 1 and got is not None and [int(x) for x in got] == want[::-1], f"reported {said}: source route {got}, expected {want[::-1]}", key="route")
                stop(loop, task)
                st.executions += 1
                st.outcomes.add(said)


def stop(loop, task):
    task.cancel()
    loop.drain()


def unicast(st, level, dtype, full):
    for routing, relays in itertools.product((False, True), (None, [], [0x1111], [0x2222, 0x3333, 0x4444])):
        for own in (0x0000, 0x7AB0):
            for profile in (zha.PROFILE_ID, zll.PROFILE_ID, 0xA1E0) if level not in ("app", "device") else (zha.PROFILE_ID,):
                with LoopCtx() as loop:
                    app, dev = world(dtype, own, profile, routing=routing)
                    dev.relays = relays
                    n = 0
                    for er, ack, ui, prio, ep in itertools.product((True, False), (None, True, False), (False, True), (-1, 0, 1, 2) if full else (-1, 0, 1), (1, 242)):
                        for v in range(VARIANTS[level]):
                            n += 1
                            st.executions += 1
                            tsn = n & 0xFF
                            what = f"{level} variant {v} to {dtype} routing={routing} relays={relays} profile={profile:#x} expect_reply={er} ack={ack} ieee={ui} priority={prio} ep={ep}"
                            task, exp = SEND[level](loop, app, dev, v, er, ack, ui, prio, ep, tsn, profile)
                            exp.setdefault("expect_reply", er)
                            if level == "app":
                                exp["extended"] = v == 1
                            expect(app, dev, ack=ack, use_ieee=ui, dtype=dtype, priority=prio, what=what, **exp)
                            if task.done():
                                require(task.exception() is None and not (exp["expect_reply"] and level != "app"), f"{what}: finished early {task}", key="early")
                            else:
                                require(exp["expect_reply"], f"{what}: still waiting although no reply is expected", key="waits")
                            stop(loop, task)
                            st.outcomes.add((v, er, ack, ui, prio, ep, profile, routing, repr(relays), dtype))


def s_app(loop, app, dev, v, er, ack, ui, prio, ep, tsn, profile):
    data = bytes([1, tsn, v]) * (v + 1)
    co = app.request(dev, [260, 0xC05E][v], [6, LL][v], ep, ep + 1, tsn, data, expect_reply=er, use_ieee=ui, extended_timeout=v == 1, ask_for_ack=ack, priority=prio)
    return send(loop, app, co), dict(profile=[260, 0xC05E][v], cluster=[6, LL][v], src_ep=ep, dst_ep=ep + 1, tsn=tsn, data=data)


def s_device(loop, app, dev, v, er, ack, ui, prio, ep, tsn, profile):
    data = bytes([1, tsn, v]) * (v + 1)
    f = dev.request if v < 2 else dev.reply
    pr, cl = [(260, 6), (0xC05E, LL), (260, 0x500)][v]
    co = f(profile=pr, cluster=cl, src_ep=ep, dst_ep=ep - 1, sequence=tsn, data=data, expect_reply=er, use_ieee=ui, ask_for_ack=ack, priority=prio)
    return send(loop, app, co), dict(profile=pr, cluster=cl, src_ep=ep, dst_ep=ep - 1, tsn=tsn, data=data)


def prof(profile, cluster, command):
    """Light link endpoints speak the automation profile except for light link commissioning commands."""
    return 0x0104 if profile == 0xC05E and not (cluster == LL and command < 0x40) else profile


def s_endpoint(loop, app, dev, v, er, ack, ui, prio, ep, tsn, profile):
    cl, cmd = [(6, 0), (LL, 0), (LL, 0x3F), (LL, 0x40), (LL, 0x41), (0x300, 0x3F)][v % 6]
    data = bytes([1, tsn, cmd])
    f = dev.endpoints[ep].request if v < 6 else dev.endpoints[ep].reply
    co = f(cl, tsn, data, command_id=cmd, expect_reply=er, use_ieee=ui, ask_for_ack=ack, priority=prio)
    return send(loop, app, co), dict(profile=prof(profile, cl, cmd), cluster=cl, src_ep=ep, dst_ep=ep, tsn=tsn, data=data)


def s_cluster(loop, app, dev, v, er, ack, ui, prio, ep, tsn, profile):
    """command() on server and client clusters, with and without a manufacturer code, with given and chosen numbers."""
    out, manuf, own, rep = bool(v & 1), bool(v & 2), bool(v & 4), bool(v & 8)
    e = dev.endpoints[ep]
    cluster = (e.out_clusters if out else e.in_clusters)[0x500 if rep else 6]
    kw = dict(expect_reply=er, use_ieee=ui, ask_for_ack=ack, priority=prio)
    if manuf:
        kw["manufacturer"] = 0x115F
    if own:
        kw["tsn"] = tsn
    if rep:
        cmd, co, pl = 1, cluster.client_command(1, 0x0015, 0x1234, **kw), b"\x15\x00\x34\x12"
    else:
        cmd, co, pl = 0x42, cluster.command(0x42, 1, 0x0102, 0x0304, **kw), b"\x01\x02\x01\x04\x03"
    task = send(loop, app, co)
    tsn = tsn if own else app.sent[0].tsn if app.sent else 0
    fc = 1 | (4 if manuf else 0) | (8 if out else 0) | (0x10 if rep or out else 0)
    data = bytes([fc]) + (b"\x5f\x11" if manuf else b"") + bytes([tsn, cmd]) + pl
    return task, dict(profile=prof(profile, int(cluster.cluster_id), cmd), cluster=int(cluster.cluster_id), src_ep=ep, dst_ep=ep, tsn=tsn, data=data)


def s_general(loop, app, dev, v, er, ack, ui, prio, ep, tsn, profile):
    out, manuf, rep, ll = bool(v & 1), bool(v & 2), bool(v & 4), bool(v & 8)
    e = dev.endpoints[ep]
    cid = LL if ll else 6
    cluster = (e.out_clusters if out else e.in_clusters)[cid]
    kw = dict(expect_reply=er, use_ieee=ui, ask_for_ack=ack, priority=prio)
    if manuf:
        kw["manufacturer"] = 0x115F
    if rep:
        cmd, pl = 0x0B, b"\x06\x81"
        co = cluster.general_command(foundation.GeneralCommand.Default_Response, 6, foundation.Status(0x81), tsn=tsn, **kw)
    else:
        cmd, pl = 0x00, b"\x04\x00\x55\xAA"
        co = cluster.general_command(foundation.GeneralCommand.Read_Attributes, [4, 0xAA55], tsn=tsn, **kw)
    task = send(loop, app, co)
    fc = (4 if manuf else 0) | (8 if out else 0) | (0x10 if rep or out else 0)
    data = bytes([fc]) + (b"\x5f\x11" if manuf else b"") + bytes([tsn, cmd]) + pl
    exp = dict(profile=prof(profile, cid, cmd), cluster=cid, src_ep=ep, dst_ep=ep, tsn=tsn, data=data)
    if rep:
        exp["expect_reply"] = False
    return task, exp


SEND = {"app": s_app, "device": s_device, "endpoint": s_endpoint, "cluster": s_cluster, "general": s_general}
VARIANTS = {"app": 2, "device": 3, "endpoint": 12, "cluster": 16, "general": 16}


def commands(st, ids, full):
    """Every command of every cluster, sent by number and by name, positionally and by keyword."""
    T = json.loads(DATA.read_text())["clusters"]
    for cid, profile in [(c, p) for c in ids for p in (260, 0xC05E)]:
        if profile != 260 and int(cid) not in (LL, 6) and not full:
            continue
        with LoopCtx() as loop:
            app, dev = world(clusters=(int(cid),), profile=profile)
            for out in (False, True):
                cluster = (dev.endpoints[1].out_clusters if out else dev.endpoints[1].in_clusters)[int(cid)]
                for side in ("client", "server"):
                    defs = cluster.client_commands if side == "client" else cluster.server_commands
                    for cmd, info in T[cid][side].items():
                        c = int(cmd)
                        if c not in defs or not info["frames"]:
                            continue
                        schema = defs[c].schema
                        # a name defined on both sides means the client's
                        named = side == "client" or info["name"] not in {x["name"] for x in T[cid]["client"].values()}
                        for hexs, _ in info["frames"][: None if full else 6]:
                            pl = bytes.fromhex(hexs)
                            val, rest = schema.deserialize(pl)
                            fields = [(f.name, getattr(val, f.name)) for f in schema.fields if getattr(val, f.name) is not None]
                            args, kwargs = [x for _, x in fields], dict(fields)
                            # some fields are called like an option of the request itself: those are given by position
                            if kwargs.keys() & {"timeout", "manufacturer", "tsn", "priority", "expect_reply", "use_ieee", "ask_for_ack"}:
                                kwargs = {}
                            ways = [("number", lambda: (cluster.client_command if side == "client" else cluster.command)(c, **kwargs))]
                            if [f.name for f in schema.fields][: len(args)] == [f for f, _ in fields]:
                                ways.append(("number", lambda: (cluster.client_command if side == "client" else cluster.command)(c, *args)))
                            if len(kwargs) != len(args):
                                ways.pop(0)
                            if named and len(kwargs) == len(args) and isinstance(getattr(type(cluster), info["name"], None), type(None)):
                                ways.append(("name", lambda: getattr(cluster, info["name"])(**kwargs)))
                            for how, f in ways:
                                st.executions += 1
                                task = send(loop, app, f())
                                what = f"cluster {int(cid):#06x} {info['name']} by {how} {hexs}"
                                require(len(app.sent) == 1, f"{what}: {len(app.sent)} packets, {task}", key="command-count")
                                p = app.sent[0]
                                rep = side == "client"
                                fc = 1 | (8 if out else 0) | (0x10 if rep or out else 0)
                                expect(app, dev, profile=prof(profile, int(cid), c), cluster=int(cid), src_ep=1, dst_ep=1, tsn=None, data=bytes([fc, p.tsn, c]) + pl,
                                       expect_reply=not rep, ack=None, use_ieee=False, dtype="router", priority=0, what=what)
                                stop(loop, task)
                                st.outcomes.add((cid, side, cmd, out, hexs, profile))


def zdo(st, part, full):
    from .c11 import layouts

    L = layouts()
    for cid in sorted(L)[part::8]:
        name, fields = L[cid]
        doms = [f[1] if isinstance(f, tuple) else f for f in fields]
        combos = [tuple(d[i % len(d)] for d in doms) for i in range(max(map(len, doms), default=1))]
        if full:
            combos += [tuple(d[(i * (k + 1)) % len(d)] for k, d in enumerate(doms)) for i in range(24)]
        for dtype in ("router", "end"):
            with LoopCtx() as loop:
                app, dev = world(dtype)
                for combo in combos:
                    if any(x[0] is None for x in combo):
                        continue
                    args = [x[0] for x in combo]
                    body = b"".join(x[1] for x in combo)
                    rep = bool(cid & 0x8000)
                    for kw in ({}, {"tsn": 0x77}, {"priority": 1}, {"use_ieee": True}, {"ask_for_ack": True}):
                        if "tsn" in kw and not rep:
                            continue
                        st.executions += 1
                        task = send(loop, app, getattr(dev.zdo, name)(*args, **kw))
                        what = f"ZDO {name} {body.hex()} {kw} to {dtype}"
                        require(len(app.sent) == 1, f"{what}: {len(app.sent)} packets {task}", key="zdo-count")
                        p = app.sent[0]
                        expect(app, dev, profile=0, cluster=cid, src_ep=0, dst_ep=0, tsn=kw.get("tsn"), data=bytes([p.tsn]) + body, expect_reply=not rep,
                               ack=kw.get("ask_for_ack"), use_ieee=kw.get("use_ieee", False), dtype=dtype, priority=kw.get("priority", 0), what=what)
                        stop(loop, task)
                    if rep or dtype != "router":
                        continue
                    # the same command to everyone, with arguments in any order
                    from zigpy.zdo.types import CLUSTERS

                    names = list(CLUSTERS[cid][0])
                    perms = list(itertools.permutations(range(len(args)))) if len(args) <= 4 else [tuple(range(len(args))), tuple(range(len(args)))[::-1]]
                    for k in range(len(args) + 1):
                        for perm in {tuple(i for i in pm if i >= k) for pm in perms}:
                            if not args:
                                continue
                            for addr in (t.BroadcastAddress.RX_ON_WHEN_IDLE, t.BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR):
                                st.executions += 1
                                task = send(loop, app, zigpy.zdo.broadcast(app, ZDOCmd(cid), 0, 30, *args[:k], broadcast_address=addr, **{names[i]: args[i] for i in perm}))
                                what = f"ZDO {name} broadcast with {k} positional and keywords {[names[i] for i in perm]}"
                                require(len(app.sent) == 1, f"{what}: {len(app.sent)} packets {task}", key="zdo-count")
                                p = app.sent[0]
                                require(p.dst.addr_mode == t.AddrMode.Broadcast and p.dst.address == addr and p.profile_id == 0 and p.cluster_id == cid
                                        and p.src_ep == 0 and p.dst_ep == 0 and p.radius == 30 and p.src.address == app.state.node_info.nwk,
                                        f"{what}: sent {p}", key="zdo-broadcast")
                                require(p.data.serialize() == bytes([p.tsn]) + body, f"{what}: sent {p.data.serialize().hex()}, expected {body.hex()}", key="zdo-broadcast-data")
                                stop(loop, task)
                    st.outcomes.add((cid, body))


def multicast(st, full):
    with LoopCtx() as loop:
        for own in (0x0000, 0x7AB0):
            app, dev = world(own=own)
            for grp, profile, cl, ep, tsn, hops, nmr, prio in itertools.product((1, 0xFFF7), (260, 0xC05E), (6, 0x300), (1, 2), (0, 255), (0, 1, 30), (0, 3, 7), (-1, 0, 1)):
                st.executions += 1
                data = bytes([1, tsn, 2])
                send(loop, app, app.mrequest(grp, profile, cl, ep, tsn, data, hops=hops, non_member_radius=nmr, priority=prio))
                p = app.sent[0]
                got = (len(app.sent), p.src.addr_mode, p.src.address, p.src_ep, p.dst.addr_mode, p.dst.address, p.tsn, p.profile_id, p.cluster_id, p.data.serialize(),
                       p.tx_options, p.radius, p.non_member_radius, p.priority, p.source_route, p.extended_timeout)
                want = (1, t.AddrMode.NWK, own, ep, t.AddrMode.Group, grp, tsn, profile, cl, data, t.TransmitOptions.NONE, hops, nmr, prio, None, False)
                require(got == want, f"multicast {got}, expected {want}", key="multicast")
                st.outcomes.add(want)
            for addr, profile, cl, ep, dep, tsn, radius, prio in itertools.product((0xFFFC, 0xFFFD, 0xFFFF), (0, 260), (0x36, 6), (0, 1), (0, 255), (0, 255), (0, 30), (-1, 0, 1)):
                st.executions += 1
                data = bytes([1, tsn, 2])
                send(loop, app, app.broadcast(profile, cl, ep, dep, 0, radius, tsn, data, broadcast_address=t.BroadcastAddress(addr), priority=prio))
                p = app.sent[0]
                got = (len(app.sent), p.src.addr_mode, p.src.address, p.src_ep, p.dst.addr_mode, p.dst.address, p.dst_ep, p.tsn, p.profile_id, p.cluster_id, p.data.serialize(),
                       p.tx_options, p.radius, p.priority, p.source_route, p.extended_timeout)
                want = (1, t.AddrMode.NWK, own, ep, t.AddrMode.Broadcast, addr, dep, tsn, profile, cl, data, t.TransmitOptions.NONE, radius, prio, None, False)
                require(got == want, f"broadcast {got}, expected {want}", key="broadcast")
                st.outcomes.add(want)


def groups(st, full):
    """Commands to a group through its virtual endpoint."""
    T = json.loads(DATA.read_text())["clusters"]
    with LoopCtx() as loop:
        app, dev = world()
        for gid in (1, 0x1234, 0xFFF7):
            g = app.groups.add_group(gid)
            for cid in (3, 4, 5, 6, 8, 0x102, 0x300):
                for cmd, info in T[str(cid)]["server"].items():
                    cluster = g.endpoint[cid]
                    if int(cmd) not in cluster.server_commands or not info["frames"]:
                        continue
                    schema = cluster.server_commands[int(cmd)].schema
                    for hexs, _ in info["frames"][: None if full else 4]:
                        pl = bytes.fromhex(hexs)
                        val, _ = schema.deserialize(pl)
                        kwargs = {f.name: getattr(val, f.name) for f in schema.fields if getattr(val, f.name) is not None}
                        for manuf in (None, 0x115F):
                            st.executions += 1
                            task = send(loop, app, cluster.command(int(cmd), manufacturer=manuf, **kwargs))
                            what = f"{info['name']} {hexs} to group {gid:#06x} manufacturer {manuf}"
                            require(len(app.sent) == 1, f"{what}: {len(app.sent)} packets {task}", key="group-count")
                            p = app.sent[0]
                            data = bytes([1 | (4 if manuf else 0)]) + (b"\x5f\x11" if manuf else b"") + bytes([p.tsn, int(cmd)]) + pl
                            require(p.dst.addr_mode == t.AddrMode.Group and p.dst.address == gid and p.src_ep == 1 and (p.profile_id, p.cluster_id) == (260, cid),
                                    f"{what}: sent {p}", key="group-address")
                            require(p.data.serialize() == data, f"{what}: sent {p.data.serialize().hex()}, expected {data.hex()}", key="group-data")
                            require(task.done() and not task.exception(), f"{what}: {task}", key="group-result")
                            r = task.result()
                            require(r.status == 0 and r.command_id == int(cmd), f"{what}: result {r}", key="group-result")
                            st.outcomes.add((gid, cid, cmd, hexs, manuf))


def sequence(st):
    """Transaction numbers of 1100 consecutive requests of mixed kinds differ within any 255."""
    kinds = ["zcl", "general", "zdo", "reply", "zdoreply", "client"]
    for pattern in itertools.product(kinds, repeat=3):
        with LoopCtx() as loop:
            app, dev = world()
            seen = []
            for i in range(1100 if pattern == ("zcl", "zdo", "reply") else 300):
                k = pattern[i % 3]
                st.executions += 1
                c = dev.endpoints[1].in_clusters[6]
                co = {"zcl": lambda: c.on(), "general": lambda: c.general_command(0, [1]), "zdo": lambda: dev.zdo.Active_EP_req(dev.nwk),
                      "reply": lambda: c.general_command(0x0B, 1, 0), "zdoreply": lambda: dev.zdo.Match_Desc_rsp(0, 0, []),
                      "client": lambda: dev.endpoints[1].in_clusters[0x500].client_command(1, 1, 2)}[k]()
                task = send(loop, app, co)
                p = app.sent[0]
                d = p.data.serialize()
                require(p.tsn == (d[0] if p.profile_id == 0 else d[1]), f"{k}: packet number {p.tsn} but frame {d.hex()}", key="tsn")
                require(p.tsn not in seen[-254:], f"{pattern}: transaction number {p.tsn} repeats within 255 requests", key="tsn-repeat")
                seen.append(p.tsn)
                stop(loop, task)
            st.outcomes.add((pattern, len(set(seen))))
    with LoopCtx() as loop:
        app, dev = world()
        g = app.groups.add_group(1)
        seen, gseen = [], []
        for i in range(600):
            st.executions += 2
            send(loop, app, zigpy.zdo.broadcast(app, ZDOCmd.Mgmt_Permit_Joining_req, 0, 0, 60, 0))
            p = app.sent[0]
            require(p.tsn not in seen[-254:] and p.data.serialize()[0] == p.tsn, f"broadcast number {p.tsn} repeats", key="tsn-repeat")
            seen.append(p.tsn)
            send(loop, app, g.endpoint.on_off.toggle())
            p = app.sent[0]
            require(p.tsn not in gseen[-254:] and p.data.serialize()[1] == p.tsn, f"group number {p.tsn} repeats", key="tsn-repeat")
            gseen.append(p.tsn)
        st.outcomes.add(len(set(seen)))


def moving(st):
    """A request goes to the address the device has when it is sent, also when it had to wait."""
    for when in range(4):
        for ui in (False, True):
            for order in ("request", "reply"):
                with LoopCtx() as loop:
                    app, dev = world()
                    st.executions += 1
                    hold = loop.create_future()

                    async def on_send(pkt):
                        if len(app.sent) == 1:
                            await hold

                    app.on_send = on_send
                    c = dev.endpoints[1].in_clusters[6]
                    if when == 0:
                        app.handle_join(nwk=t.NWK(0x5678), ieee=dev.ieee, parent_nwk=None, handle_rejoin=False)
                        app.sent.clear()
                        dev.cancel_initialization() if hasattr(dev, "cancel_initialization") else None
                    a = loop.create_task(c.on(tsn=1, use_ieee=ui, expect_reply=False))
                    b = loop.create_task(c.off(tsn=2, use_ieee=ui, expect_reply=False) if order == "request" else c.general_command(0x0B, 1, 0, tsn=2, use_ieee=ui))
                    for _ in range(1 if when == 1 else 5):
                        if loop.ready_count():
                            loop.run_one()
                    if when in (1, 2):
                        dev.nwk = t.NWK(0x5678)
                    loop.drain()
                    if when == 3:
                        dev.nwk = t.NWK(0x5678)
                    hold.set_result(None)
                    loop.drain()
                    mine = {p.tsn: p for p in app.sent if p.cluster_id == 6}
                    what = f"device moves at {when}, {order}"
                    require(set(mine) == {1, 2} and a.done() and b.done(), f"{what}: sent {sorted(mine)}", key="moving-count")
                    for n, p in mine.items():
                        if ui:
                            require(p.dst.address == dev.ieee, f"{what}: {p.dst}", key="moving")
                        elif n == 2 and when in (0, 1, 2):
                            require(p.dst.address == 0x5678, f"{what}: request {n} went to {p.dst}", key="moving")
                    st.outcomes.add((when, ui, order, mine[1].dst.address, mine[2].dst.address))


def timeouts(st, full):
    """An unanswered request fails with a timeout, later for devices that sleep."""
    for dtype in ("router", "end", "coordinator", "nodesc"):
        for level in ("zcl", "general", "zdo"):
            for timeout in (None, 1, 7.5):
                with LoopCtx() as loop:
                    app, dev = world(dtype)
                    st.executions += 1
                    kw = {} if timeout is None else {"timeout": timeout}
                    c = dev.endpoints[1].in_clusters[6]
                    co = {"zcl": lambda: c.on(**kw), "general": lambda: c.general_command(0, [1], **kw), "zdo": lambda: dev.zdo.Active_EP_req(dev.nwk, **kw)}[level]()
                    start = CLOCK.t
                    task = send(loop, app, co)
                    what = f"unanswered {level} request to {dtype} with timeout {timeout}"
                    require(not task.done(), f"{what}: done at once", key="early")
                    loop.run_idle(horizon=start + 200)
                    require(task.done() and isinstance(task.exception(), asyncio.TimeoutError), f"{what}: {task}", key="timeout")
                    took = CLOCK.t - start
                    base = 5 if timeout is None else timeout
                    if dtype in ("end", "nodesc"):
                        require(took > 7.5 and took > base, f"{what}: gave up after {took}", key="timeout-extended")
                    else:
                        require(abs(took - base) < 1e-6, f"{what}: gave up after {took}", key="timeout")
                    # the number can be used again
                    require(len(app.sent) == 1, f"{what}: {len(app.sent)} packets", key="count")
                    st.outcomes.add((dtype, level, timeout, took))
