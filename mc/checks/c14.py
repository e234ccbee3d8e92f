"""C14: group membership, explicit-state exploration of the real objects beside a reference relation."""
from __future__ import annotations

import asyncio
import itertools
import struct

import zigpy.exceptions
import zigpy.types as t
from zigpy.profiles import zha

from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import Driver, Ev, add_device, ieee, make_app, packet, zcl

LEVEL = "model_checking"
VALIDATED = ("every transition of the reference model is executed on the real objects, over the wire, from every reachable reference state; "
             "membership seen from groups, endpoints and devices, events and results must agree after each step")
ASSUMPTIONS = ["devices answer with well-formed frames of the answering command",
               "no re-interview replaces the endpoints of a device that stays joined"]

G1, G2 = 0x0001, 0xFEDC
NAMES = {G1: "One", G2: None}
# (device, endpoint) -> has a groups cluster
EPS = {(1, 1): True, (1, 3): True, (2, 1): True, (2, 2): False}
OK, DUP, NOSPACE, NOTFOUND, FAIL, UNSUP = 0x00, 0x8A, 0x89, 0x8B, 0x01, 0x81


def ops():
    out = []
    for e in sorted(EPS):
        for g in (G1, G2):
            for ans in (("rsp", OK), ("rsp", DUP), ("rsp", NOSPACE), ("default", UNSUP), ("default", FAIL), ("timeout",), ("undelivered",)):
                if EPS[e] or ans == ("rsp", OK):
                    out.append(("add", e, g, ans))
            for ans in (("rsp", OK), ("rsp", NOTFOUND), ("rsp", FAIL), ("default", UNSUP), ("timeout",), ("undelivered",)):
                if EPS[e] or ans == ("rsp", OK):
                    out.append(("remove", e, g, ans))
    for e in ((1, 1), (2, 1), (2, 2)):
        for ans in (("list", ()), ("list", (), 0), ("list", (), 255), ("list", (G1,)), ("list", (G1,), 254), ("list", (G1, G2), 0), ("list", (G2, G2), 255), ("default", UNSUP), ("timeout",), ("undelivered",)):
            if EPS[e] or ans == ("list", (G1,)):
                out.append(("scan", e, ans))
    for a, b in ((("list", (G1,)), ("list", (G2,))), (("list", ()), ("timeout",)), (("timeout",), ("list", (G1,))), (("default", UNSUP), ("list", ()))):
        out.append(("devscan", 1, ((1, 1), a), ((1, 3), b)))
    for g in (G1, G2):
        for a, b in ((("rsp", OK), ("rsp", OK)), (("rsp", NOSPACE), ("rsp", OK)), (("rsp", OK), ("timeout",)), (("timeout",), ("rsp", OK))):
            out.append(("devadd", 1, g, ((1, 1), a), ((1, 3), b)))
            out.append(("devremove", 1, g, ((1, 1), a), ((1, 3), b)))
        out.append(("newgroup", g))
        out.append(("popgroup", g, "id"))
        out.append(("popgroup", g, "object"))
        for e in ((1, 1), (2, 2)):
            out.append(("direct-add", e, g))
            out.append(("direct-remove", e, g))
    for d in (1, 2):
        for how in ("ok", "timeout", "undelivered"):
            out.append(("leave", d, how))
        out.append(("join", d))
    return out


class Ref:
    def __init__(self, members=(), groups=(), devs=(1, 2)):
        self.members = set(members)
        self.groups = set(groups)
        self.devs = set(devs)

    def key(self):
        return tuple(sorted(self.members)), tuple(sorted(self.groups)), tuple(sorted(self.devs))

    def enabled(self, op):
        k = op[0]
        if k in ("add", "remove", "scan", "direct-add", "direct-remove"):
            if op[1][0] not in self.devs:
                return False
            return not k.startswith("direct") or op[2] in self.groups
        if k in ("devscan", "devadd", "devremove", "leave"):
            return op[1] in self.devs
        if k == "join":
            return op[1] not in self.devs
        if k == "popgroup":
            return op[2] == "id" or op[1] in self.groups
        return True

    def put(self, ev, e, g):
        self.group(ev, g)
        if (e, g) not in self.members:
            self.members.add((e, g))
            ev.append(("in", e, g))

    def drop(self, ev, e, g):
        if (e, g) in self.members:
            self.members.discard((e, g))
            ev.append(("out", e, g))

    def group(self, ev, g):
        if g not in self.groups:
            self.groups.add(g)
            ev.append(("group+", g))

    def one_add(self, ev, e, g, ans):
        if not EPS[e]:
            return "refused"
        if ans[0] in ("timeout", "undelivered"):
            return ans[0]
        if ans[0] == "rsp" and ans[1] in (OK, DUP):
            self.put(ev, e, g)
        return ans[1]

    def one_remove(self, ev, e, g, ans):
        if not EPS[e]:
            return "refused"
        if ans[0] in ("timeout", "undelivered"):
            return ans[0]
        if ans[0] == "rsp" and ans[1] in (OK, NOTFOUND):
            self.drop(ev, e, g)
        return ans[1]

    def one_scan(self, ev, e, ans):
        if EPS[e] and ans[0] == "list":
            for g in (G1, G2):
                (self.put if g in ans[1] else self.drop)(ev, e, g)

    def step(self, op):
        ev, k, res = [], op[0], None
        if k == "add":
            res = self.one_add(ev, *op[1:])
        elif k == "remove":
            res = self.one_remove(ev, *op[1:])
        elif k == "scan":
            self.one_scan(ev, *op[1:])
        elif k == "devscan":
            for e, ans in op[2:]:
                self.one_scan(ev, e, ans)
        elif k in ("devadd", "devremove"):
            for e, ans in op[3:]:
                r = (self.one_add if k == "devadd" else self.one_remove)(ev, e, op[2], ans)
                if r in ("timeout", "undelivered"):
                    res = r
                    break
        elif k == "newgroup":
            self.group(ev, op[1])
        elif k == "popgroup":
            if op[1] in self.groups:
                for e, g in sorted(self.members):
                    if g == op[1]:
                        self.drop(ev, e, g)
                self.groups.discard(op[1])
                ev.append(("group-", op[1]))
        elif k == "direct-add":
            self.put(ev, op[1], op[2])
        elif k == "direct-remove":
            self.drop(ev, op[1], op[2])
        elif k == "leave":
            for e, g in sorted(self.members):
                if e[0] == op[1]:
                    self.drop(ev, e, g)
            self.devs.discard(op[1])
        elif k == "join":
            self.devs.add(op[1])
        return sorted(map(repr, ev)), res


class Listener:
    def __init__(self):
        self.got = []

    @staticmethod
    def eid(ep):
        return next(n for n in (1, 2) if ieee(n) == ep.unique_id[0]), ep.endpoint_id

    def group_added(self, group):
        self.got.append(("group+", int(group.group_id)))

    def group_removed(self, group):
        self.got.append(("group-", int(group.group_id)))

    def group_member_added(self, group, ep):
        self.got.append(("in", self.eid(ep), int(group.group_id)))

    def group_member_removed(self, group, ep):
        self.got.append(("out", self.eid(ep), int(group.group_id)))


def new_device(app, n):
    eps = {e: (zha.PROFILE_ID, zha.DeviceType.ON_OFF_LIGHT, (0, 6) + ((4,) if has else ()), ())
           for (d, e), has in EPS.items() if d == n}
    return add_device(app, n, endpoints=eps)


class Rig:
    def __init__(self, loop):
        self.loop = loop
        self.app = make_app()
        self.devs = {n: new_device(self.app, n) for n in (1, 2)}
        loop.drain()
        self.listener = Listener()
        self.app.groups.add_listener(self.listener)
        self.app.on_send = self.on_send
        self.answers = {}
        self.sent = []
        self.errors = []

    def dev_at(self, nwk):
        return next(n for n, d in self.devs.items() if d.nwk == nwk)

    async def on_send(self, pkt):
        n = self.dev_at(pkt.dst.address)
        data = pkt.data.serialize()
        if pkt.profile_id == 0:
            if pkt.cluster_id == 0x0034:
                how = self.answers.get("leave")
                if how == "undelivered":
                    raise zigpy.exceptions.DeliveryError("no")
                if how == "ok":
                    dev = self.devs[n]
                    self.loop.call_soon(lambda: self.app.packet_received(
                        packet(dev, bytes([data[0], 0]), profile=0, cluster=0x8034, src_ep=0, dst_ep=0)))
            return
        if data[0] & 3 == 0:
            return
        require(pkt.cluster_id == 4 and (data[0] & 3) == 1, f"unexpected request {pkt}", key="wire")
        e = (n, pkt.dst_ep)
        tsn, cmd, body = data[1], data[2], data[3:]
        gid = struct.unpack("<H", body[:2])[0] if cmd != 2 else None
        name = body[3:].decode() if cmd == 0 else None
        self.sent.append((e, {0: "add", 2: "scan", 3: "remove"}[cmd], gid, name))
        ans = self.answers.get(e)
        if ans is None:
            raise Violation(f"unexpected group command to {e}", key="wire")
        if ans[0] == "undelivered":
            raise zigpy.exceptions.DeliveryError("no")
        if ans[0] == "timeout":
            return
        if ans[0] == "default":
            out = zcl(0x08, tsn, 0x0B, bytes([cmd, ans[1]]))
        elif ans[0] == "list":
            out = zcl(0x09, tsn, 2, bytes([ans[2] if len(ans) > 2 else 5, len(ans[1])]) + b"".join(struct.pack("<H", g) for g in ans[1]))
        else:
            out = zcl(0x09, tsn, cmd, bytes([ans[1]]) + body[:2])
        dev = self.devs[n]
        self.loop.call_soon(lambda: self.app.packet_received(packet(dev, out, cluster=4, src_ep=e[1])))

    def call(self, coro):
        try:
            return self.loop.run(coro)
        except asyncio.TimeoutError:
            return "timeout"
        except zigpy.exceptions.DeliveryError:
            return "undelivered"

    def ep(self, e):
        return self.devs[e[0]].endpoints[e[1]]

    def do(self, op):
        CLOCK.t += 1
        self.listener.got, self.sent, self.answers = [], [], {}
        k, res, app = op[0], None, self.app
        if k in ("add", "remove"):
            self.answers[op[1]] = op[3]
            ep = self.ep(op[1])
            res = self.call(ep.add_to_group(op[2], NAMES[op[2]]) if k == "add" else ep.remove_from_group(op[2]))
            if not EPS[op[1]]:
                require(res not in (OK, DUP, NOTFOUND), f"{op}: {res!r} without a groups cluster", key="result")
                res = "refused"
        elif k == "scan":
            self.answers[op[1]] = op[2]
            res = self.call(self.ep(op[1]).group_membership_scan())
        elif k == "devscan":
            self.answers = dict(op[2:])
            res = self.call(self.devs[op[1]].group_membership_scan())
        elif k in ("devadd", "devremove"):
            self.answers = dict(op[3:])
            d = self.devs[op[1]]
            res = self.call(d.add_to_group(op[2], NAMES[op[2]]) if k == "devadd" else d.remove_from_group(op[2]))
        elif k == "newgroup":
            g = app.groups.add_group(op[1], NAMES[op[1]])
            require(g is app.groups[op[1]], "add_group returned another group", key="add-group")
        elif k == "popgroup":
            app.groups.pop(app.groups[op[1]] if op[2] == "object" else op[1], None)
        elif k == "direct-add":
            app.groups[op[2]].add_member(self.ep(op[1]))
        elif k == "direct-remove":
            app.groups[op[2]].remove_member(self.ep(op[1]))
        elif k == "leave":
            self.answers["leave"] = op[2]
            self.call(app.remove(ieee(op[1])))
            self.loop.run_idle(horizon=CLOCK.t + 60)
        elif k == "join":
            self.devs[op[1]] = new_device(app, op[1])
        self.loop.drain()
        return sorted(map(repr, self.listener.got)), res

    def observe(self, ref, what):
        app = self.app
        groups = {int(g) for g in app.groups}
        require(groups == ref.groups, f"groups are {groups}, expected {ref.groups} {what}", key="groups")
        for gid, g in app.groups.items():
            require(int(g.group_id) == gid, f"group {gid} has id {g.group_id}", key="group-id")
            require(g.name in (NAMES[gid], f"No name group {t.Group(gid)}"), f"group {gid} is named {g.name}", key="group-name")
        by_group = {(Listener.eid(ep), int(gid)) for gid, g in app.groups.items() for ep in g.members.values()}
        if by_group != ref.members:
            raise Violation(f"the groups list {sorted(by_group)}, expected {sorted(ref.members)} {what}", key="members")
        by_ep = set()
        for n in ref.devs:
            require(ieee(n) in app.devices, f"device {n} is gone {what}", key="devices")
            for eid, ep in app.devices[ieee(n)].endpoints.items():
                if eid == 0:
                    continue
                for gid, g in ep.member_of.items():
                    require(g is app.groups.get(gid), f"endpoint {(n, eid)} refers to a group that is not in the table {what}", key="stale-group")
                    require(g.members.get(ep.unique_id) is ep, f"group {gid} holds another endpoint object for {(n, eid)} {what}", key="stale-endpoint")
                    by_ep.add(((n, eid), int(gid)))
        if by_ep != ref.members:
            raise Violation(f"the endpoints list {sorted(by_ep)}, expected {sorted(ref.members)} {what}", key="member-of")
        require({n for n in (1, 2) if ieee(n) in app.devices} == ref.devs, f"devices {what}", key="devices")


def step(rig, ref, op, hist):
    old = set(ref.members)
    got, res = rig.do(op)
    want, wres = ref.step(op)
    what = f"after {hist}"
    if got != want:
        raise Violation(f"events {got}, expected {want} {what}", key="events")
    if res != wres:
        raise Violation(f"result {res!r}, expected {wres!r} {what}", key="result")
    for e, cmd, gid, name in rig.sent:
        if cmd == "add":
            require(name == (NAMES[gid] or ""), f"{op} sent the name {name!r}", key="wire-name")
        if op[0] in ("add", "remove"):
            require((e, cmd, gid) == op[:3][1:2] + (op[0], op[2]), f"{op} sent {rig.sent}", key="wire")
    if op[0] in ("add", "remove", "scan"):
        require(len(rig.sent) == int(EPS[op[1]]), f"{op}: {len(rig.sent)} commands sent", key="wire-count")
    rig.observe(ref, what)


def replay(hist):
    with LoopCtx() as loop:
        rig, ref = Rig(loop), Ref()
        for i, op in enumerate(hist):
            step(rig, ref, op, hist[: i + 1])
        require(not loop.errors, f"background error {loop.errors[:1]} after {hist}", key="error")
        return ref.key()


def reach(O):
    paths, queue = {Ref().key(): ()}, [()]
    for hist in queue:
        ref = Ref()
        for op in hist:
            ref.step(op)
        base = ref.key()
        for op in O:
            r = Ref(*base)
            if not r.enabled(op):
                continue
            r.step(op)
            if r.key() not in paths:
                paths[r.key()] = hist + (op,)
                queue.append(hist + (op,))
    return paths


def graph(st, part, parts, full):
    O = ops()
    paths = reach(O)
    todo = sorted(paths.items(), key=lambda p: (len(p[1]), repr(p)))
    for i, (k, hist) in enumerate(todo):
        if i % parts != part:
            continue
        ref = Ref(*k)
        for op in O:
            if not ref.enabled(op):
                continue
            h = hist + (op,)
            st.executions += 1
            st.transitions += len(h)
            st.maxlen = max(st.maxlen, len(h))
            end = replay(h)
            st.states.add(end)
            st.outcomes.add((op[0], end))
    st.samples.append({"scenario": {"reachable states": len(paths)}})


def histories(st, part, parts, depth):
    O = ops()
    for i, head in enumerate(O):
        if i % parts != part:
            continue
        for tail in itertools.product(O, repeat=depth - 1):
            h, ref = (head,) + tail, Ref()
            good = True
            for op in h:
                if not ref.enabled(op):
                    good = False
                    break
                ref.step(op)
            if not good:
                continue
            st.executions += 1
            st.transitions += depth
            end = replay(h)
            st.states.add(end)
            st.outcomes.add(end)


# -- answers, local changes and removals interleaved -------------------------------------------
def race(ch, pair):
    """Two operations at once; their answers arrive in every order and at every point."""
    with LoopCtx() as loop:
        rig = Rig(loop)
        app, dev = rig.app, rig.devs[1]
        ep = dev.endpoints[1]
        if "pre" in pair:
            app.groups.add_group(G1, "One").add_member(ep)
            app.groups.add_group(G2).add_member(rig.devs[2].endpoints[1])
        inbox = []

        async def on_send(pkt):
            data = pkt.data.serialize()
            if pkt.profile_id == 0:
                if pkt.cluster_id == 0x34:
                    inbox.append(("left", packet(dev, bytes([data[0], 0]), profile=0, cluster=0x8034, src_ep=0, dst_ep=0)))
                return
            cmd, tsn = data[2], data[1]
            body = {0: b"\x00" + data[3:5], 3: b"\x00" + data[3:5], 2: b"\x05\x01" + struct.pack("<H", G2)}[cmd]
            inbox.append((cmd, packet(dev, zcl(0x09, tsn, cmd, body), cluster=4, src_ep=pkt.dst_ep)))

        app.on_send = on_send
        tasks = []

        def start(k):
            if k == "add":
                tasks.append(loop.create_task(ep.add_to_group(G1, "One")))
            elif k == "remove":
                tasks.append(loop.create_task(ep.remove_from_group(G1)))
            elif k == "scan":
                tasks.append(loop.create_task(ep.group_membership_scan()))
            elif k == "pop":
                app.groups.pop(G1, None)
            elif k == "leave":
                tasks.append(loop.create_task(app.remove(dev.ieee)))

        pending = [k for k in pair if k != "pre"]

        def events():
            evs = [Ev(f"answer-{inbox[0][0]}", lambda: app.packet_received(inbox.pop(0)[1]), 0, 0, direct=True)] if inbox else []
            if pending:
                evs.append(Ev(f"start-{pending[0]}", lambda: start(pending.pop(0)), 0, 0, direct=True))
            return evs

        Driver(loop, ch, events, horizon=CLOCK.t + 100).run()
        loop.run_idle(horizon=CLOCK.t + 100)
        for task in tasks:
            if not task.done() or task.cancelled() or (task.exception() is not None and not isinstance(task.exception(), (asyncio.TimeoutError, zigpy.exceptions.DeliveryError))):
                raise Violation(f"an operation ended with {task}", key="race-end")
        # both sides agree, and nothing of a removed device is left
        by_group = sorted((ep_.unique_id[1], int(g.group_id), ep_.device.ieee in app.devices) for g in app.groups.values() for ep_ in g.members.values())
        require(all(x[2] for x in by_group), f"a removed device is still a member: {by_group}", key="race-removed-member", data=ch.trace())
        for d in app.devices.values():
            for eid, e in d.endpoints.items():
                if eid == 0:
                    continue
                for gid, g in e.member_of.items():
                    require(app.groups.get(gid) is g and g.members.get(e.unique_id) is e, f"endpoint lists group {gid}, which does not list it",
                            key="race-disagree", data=ch.trace())
        for g in app.groups.values():
            for e in g.members.values():
                require(e.member_of.get(g.group_id) is g, f"group {g.group_id} lists an endpoint that does not list it", key="race-disagree")
        return by_group, sorted(map(int, app.groups))


def scenarios(tier, seed):
    full = tier == "thorough"
    out = [dict(fn="graph", kind="bulk", args=dict(part=p, parts=32, full=full)) for p in range(32)]
    out += [dict(fn="histories", kind="bulk", args=dict(part=p, parts=16, depth=3 if full else 2), max_s=3000 if full else None) for p in range(16)]
    kinds = ("add", "remove", "scan", "pop", "leave")
    for pre in ((), ("pre",)):
        for pair in itertools.product(kinds, repeat=2):
            out.append(dict(fn="race", args=dict(pair=pre + pair), bound=0, kind="dfs", limit=50000))
        if full:
            for tri in itertools.product(kinds, repeat=3):
                out.append(dict(fn="race", args=dict(pair=pre + tri), bound=0, kind="dfs", limit=50000))
    return out
