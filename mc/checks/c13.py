"""C13: the attribute cache, explicit-state exploration of a real cluster beside a reference cache."""
from __future__ import annotations

import asyncio
import itertools
import struct
from datetime import datetime, timezone

import zigpy.exceptions
from zigpy.profiles import zha
from zigpy.zcl import foundation

from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import Driver, Ev, add_device, make_app, packet, zcl

LEVEL = "model_checking"
VALIDATED = ("every transition of the reference model is executed on the real cluster, over the wire, from every reachable reference state; "
             "all observations (cache, unsupported marks, events, results) must agree after each step")
ASSUMPTIONS = ["the device's answers are well-formed frames of the answering command",
               "an attribute is named once per operation"]

CID = 0x0201  # thermostat
A, M, U = 0x0012, 0x001C, 0x4242  # occupied_heating_setpoint (int16s), system_mode (enum8), undefined
NAMES = {A: "occupied_heating_setpoint", M: "system_mode"}
S, UNSUP, FAIL, RO = 0x00, 0x86, 0x01, 0x88

# answers: (wire type, bytes, value the cache must hold)
VAL = {
    A: {"v1": (0x29, b"\x10\x00", 16), "v2": (0x29, b"\xf0\xff", -16), "w": (0x20, b"\x07", 7), "z": (0x29, b"\0\0", 0),
        "bad": (0x42, b"\x03abc", "abc"), "odd": (0x48, b"\x20\x02\x00\x05\x06", [5, 6])},
    M: {"v1": (0x30, b"\x03", 3), "v2": (0x30, b"\x04", 4), "w": (0x20, b"\x00", 0), "z": (0x30, b"\x00", 0), "bad": (0x42, b"\x01x", "x"),
        "odd": (0x48, b"\x20\x01\x00\x05", [5])},
    U: {"v1": (0x21, b"\x01\x02", 0x0201), "v2": (0x42, b"\x02hi", "hi"), "z": (0x10, b"\x00", False)},
}
CACHE, MARKS, WIRE = 0, 1, 2


def rec(a, v):
    ty, raw, _ = VAL[a][v]
    return struct.pack("<HB", a, ty) + raw


def key(a, by):
    return NAMES[a] if by == "name" else a


# -- the operations --------------------------------------------------------------------------
def ops(full):
    out = []
    for a in (A, M, U):
        for v in VAL[a]:
            out.append(("report", ((a, v),)))
    out += [("report", ((A, "v1"), (M, "v2"))), ("report", ((A, "bad"), (M, "v1"), (U, "v2"))), ("report", ((A, "v1"), (A, "v2"))),
            ("report", ((M, "odd"), (A, "v2")))]
    one = ["v1", "v2", "bad", "odd", UNSUP, FAIL, "absent"]
    for a in (A, M):
        for by in ("id", "name"):
            for mode in ("wire", "allow", "only"):
                for ans in (one if mode == "wire" and by == "id" else ["v2", UNSUP]):
                    out.append(("read", ((a, by),), mode, ((a, ans),)))
    for mode in ("wire", "allow", "only"):
        for ans in ("v1", UNSUP, FAIL):
            out.append(("read", ((U, "id"),), mode, ((U, ans),)))
    for how in (("default", UNSUP), ("default", FAIL), ("timeout",), ("undelivered",)):
        for mode in ("wire", "allow"):
            out.append(("read", ((A, "id"), (M, "name")), mode, how))
    for mode in ("wire", "allow", "only"):
        for x, y in (("v1", UNSUP), (UNSUP, "v2"), (FAIL, "z"), ("w", "w"), ("bad", "absent"), ("odd", "v1")):
            out.append(("read", ((A, "id"), (M, "name")), mode, ((A, x), (M, y))))
        out.append(("read", ((M, "id"), (U, "id"), (A, "name")), mode, ((A, "v1"), (U, "z"), (M, FAIL))))
    # the device also answers something that was not asked
    out += [("read", ((A, "id"),), "wire", ((A, "v2"), (U, "v1"))), ("read", ((M, "name"),), "allow", ((A, UNSUP), (M, "v1")))]
    for sub in (((A, 16),), ((M, 4),), ((A, -16), (M, 3))):
        hows = [("ok",), ("default", UNSUP), ("timeout",), ("undelivered",), ("fail", ((sub[0][0], RO),)), ("fail", ((sub[0][0], UNSUP),))]
        if len(sub) == 2:
            hows += [("fail", ((M, FAIL),)), ("fail", ((A, RO), (M, RO)))]
        for how in hows:
            for by in ("id", "name") if how[0] in ("ok", "fail") else ("id",):
                out.append(("write", tuple((a, by, v) for a, v in sub), how))
    out.append(("write", ((U, "id", 5), (A, "id", 16)), ("ok",)))
    out.append(("badwrite", ((A, "id", 16), (M, "id", "nonsense"))))
    out.append(("badwrite", ((A, "id", "nonsense"),)))
    for attrs in (((A, "id"),), ((A, "name"), (M, "id"))):
        for how in [("ok",), ("default", FAIL), ("timeout",), ("undelivered",), ("recs", ((UNSUP, A),)), ("recs", ((FAIL, A),))] + (
                [("recs", ((UNSUP, A), (S, M))), ("recs", ((S, A), (UNSUP, M))), ("recs", ((UNSUP, A), (UNSUP, M)))] if len(attrs) == 2 else []):
            out.append(("conf", attrs, how))
    for a in (A, M, U):
        out.append(("set", a, "v1"))
        out.append(("clear", a))
        for by in ("id", "name") if a != U else ("id",):
            out.append(("mark", a, by))
            out.append(("unmark", a, by))
    return out


def plain(v):
    v = getattr(v, "value", v) if not isinstance(v, (int, str)) else v  # arrays
    return list(v) if isinstance(v, (list, tuple)) else v


class Ref:
    """The reference cache: what the device last said."""

    def __init__(self, cache=(), marks=()):
        self.cache = dict(cache)
        self.marks = set(marks)

    def key(self):
        return tuple(sorted((a, repr(v)) for a, v in self.cache.items())), tuple(sorted(self.marks))

    def put(self, ev, a, v):
        self.cache[a] = v
        ev.append(("updated", a, v))

    def mark(self, ev, a):
        if a not in self.marks:
            self.marks.add(a)
            ev.append(("marked", a))

    def unmark(self, ev, a):
        if a in self.marks:
            self.marks.discard(a)
            ev.append(("unmarked", a))

    def step(self, op):
        """-> (events, result, ids asked of the device or None)"""
        ev, kind = [], op[0]
        if kind == "report":
            for a, v in op[1]:
                self.put(ev, a, VAL[a][v][2])
            return ev, None, None
        if kind == "read":
            _, attrs, mode, how = op
            ok, bad, ask = {}, {}, []
            for a, by in attrs:
                if mode != "wire" and a in self.cache:
                    ok[key(a, by)] = self.cache[a]
                elif mode != "wire" and a in self.marks:
                    bad[key(a, by)] = UNSUP
                else:
                    ask.append((a, by))
            if mode == "only" or not ask:
                return ev, ("ok", ok, bad), None
            wire = sorted(a for a, _ in ask)
            if how[0] in ("timeout", "undelivered"):
                return ev, ("raised", how[0]), wire
            if how[0] == "default":
                for a, by in ask:
                    bad[key(a, by)] = how[1]
                return ev, ("ok", ok, bad), wire
            asked = dict(ask)
            for a, ans in how:
                if a not in asked or ans == "absent":
                    continue
                k = key(a, asked[a])
                if isinstance(ans, int):
                    bad[k] = ans
                    if ans == UNSUP:
                        self.mark(ev, a)
                else:
                    ok[k] = VAL[a][ans][2]
                    self.put(ev, a, ok[k])
                    self.unmark(ev, a)
            return ev, ("ok", ok, bad), wire
        if kind == "write":
            _, items, how = op
            wire = [(a, v) for a, _, v in items if a != U]
            if how[0] in ("timeout", "undelivered"):
                return ev, ("raised", how[0]), wire
            failed = {a for a, _ in how[1]} if how[0] == "fail" else set()
            if how[0] != "default":
                for a, v in wire:
                    if a not in failed:
                        self.put(ev, a, v)
            return ev, ("done",), wire
        if kind == "badwrite":
            return ev, ("raised", "value"), None
        if kind == "conf":
            _, attrs, how = op
            wire = [a for a, _ in attrs]
            if how[0] in ("timeout", "undelivered"):
                return ev, ("raised", how[0]), wire
            if how[0] == "ok":
                for a in wire:
                    self.unmark(ev, a)
            elif how[0] == "recs":
                for s, a in how[1]:
                    if s == UNSUP:
                        self.mark(ev, a)
                    elif s == S:
                        self.unmark(ev, a)
            return ev, ("done",), wire
        if kind == "set":
            self.put(ev, op[1], VAL[op[1]][op[2]][2])
        elif kind == "clear":
            if op[1] in self.cache:
                del self.cache[op[1]]
                ev.append(("cleared", op[1]))
        elif kind == "mark":
            self.mark(ev, op[1])
        elif kind == "unmark":
            self.unmark(ev, op[1])
        return ev, None, None


class Listener:
    def __init__(self):
        self.got = []

    def attribute_updated(self, attrid, value, timestamp):
        self.got.append(("updated", int(attrid), plain(value), timestamp))

    def attribute_cleared(self, attrid):
        self.got.append(("cleared", int(attrid)))

    def unsupported_attribute_added(self, attrid):
        self.got.append(("marked", int(attrid)))

    def unsupported_attribute_removed(self, attrid):
        self.got.append(("unmarked", int(attrid)))


class Rig:
    def __init__(self, loop):
        self.loop = loop
        self.app = make_app(coordinator=False)
        self.dev = add_device(self.app, 1, endpoints={1: (zha.PROFILE_ID, zha.DeviceType.THERMOSTAT, (CID, 6), ())})
        self.cluster = self.dev.endpoints[1].in_clusters[CID]
        self.other = self.dev.endpoints[1].in_clusters[6]
        self.listener = Listener()
        self.cluster.add_listener(self.listener)
        self.stray = Listener()
        self.other.add_listener(self.stray)
        self.app.on_send = self.on_send
        self.how = None
        self.asked = []
        self.tsn = 0
        self.stamps = {}

    def say(self, data):
        self.app.packet_received(packet(self.dev, data, cluster=CID))

    async def on_send(self, pkt):
        data = pkt.data.serialize()
        require(data[0] & 3 == 0 and pkt.cluster_id == CID and pkt.dst.address == self.dev.nwk, f"sent {data.hex()}", key="wire")
        tsn, cmd, body = data[1], data[2], data[3:]
        if cmd == 0x0B:
            return
        how, answer = self.how, None
        if cmd == 0x00:
            ids = [i[0] for i in struct.iter_unpack("<H", body)]
            self.asked.append(sorted(ids))
            if not isinstance(how[0], str):
                out = b""
                for a, ans in how:
                    # what was not asked is answered anyway when it is the undefined attribute or never asked
                    if ans == "absent" or (a not in ids and self.op_asks(a)):
                        continue
                    out += struct.pack("<HB", a, ans) if isinstance(ans, int) else struct.pack("<HB", a, 0) + rec(a, ans)[2:]
                answer = (0x01, out)
        elif cmd == 0x02:
            recs, i = [], 0
            while i < len(body):
                a, ty = struct.unpack_from("<HB", body, i)
                n = {0x29: 2, 0x30: 1}[ty]
                recs.append((a, int.from_bytes(body[i + 3:i + 3 + n], "little", signed=ty == 0x29)))
                i += 3 + n
            self.asked.append(recs)
            if how[0] == "ok":
                answer = (0x04, b"\x00")
            elif how[0] == "fail":
                answer = (0x04, b"".join(struct.pack("<BH", s, a) for a, s in how[1]))
        elif cmd == 0x06:
            recs, i = [], 0
            while i < len(body):
                d, a, ty, mn, mx = struct.unpack_from("<BHBHH", body, i)
                i += 8 + {0x29: 2, 0x30: 0}[ty]
                recs.append(a)
            self.asked.append(recs)
            if how[0] == "ok":
                answer = (0x07, b"\x00")
            elif how[0] == "recs":
                answer = (0x07, b"".join(struct.pack("<BBH", s, 0, a) for s, a in how[1]))
        else:
            raise Violation(f"sent general command {cmd:#x}", key="wire")
        if how[0] == "default":
            answer = (0x0B, bytes([cmd, how[1]]))
        if how[0] == "undelivered":
            raise zigpy.exceptions.DeliveryError("not delivered")
        if answer is not None:
            self.loop.call_soon(self.say, zcl(0x18, tsn, answer[0], answer[1]))

    def op_asks(self, a):
        return a in self.names

    def call(self, coro):
        try:
            return self.loop.run(coro)
        except asyncio.TimeoutError:
            return ("raised", "timeout")
        except zigpy.exceptions.DeliveryError:
            return ("raised", "undelivered")
        except (ValueError, KeyError):
            return ("raised", "value")

    def do(self, op):
        """Execute on the real cluster -> (events, result, asked)"""
        CLOCK.t += 1.0
        self.listener.got, self.asked, res = [], [], None
        c, kind = self.cluster, op[0]
        if kind == "report":
            self.tsn = (self.tsn + 1) % 256
            self.say(zcl(0x18, self.tsn, 0x0A, b"".join(rec(a, v) for a, v in op[1])))
        elif kind == "read":
            self.how = op[3]
            self.names = {a for a, _ in op[1]}
            kw = {"wire": {}, "allow": {"allow_cache": True}, "only": {"only_cache": True}}[op[2]]
            got = self.call(c.read_attributes([key(a, by) for a, by in op[1]], **kw))
            res = got if got[0] == "raised" else ("ok", {k: plain(v) for k, v in got[0].items()}, dict(got[1]))
        elif kind in ("write", "badwrite"):
            self.how = op[2] if kind == "write" else ("ok",)
            got = self.call(c.write_attributes({key(a, by): v for a, by, v in op[1]}))
            res = got if isinstance(got, tuple) and got[0] == "raised" else ("done",)
        elif kind == "conf":
            self.how = op[2]
            got = self.call(c.configure_reporting_multiple({key(a, by): (1, 60, 1) for a, by in op[1]}))
            res = got if isinstance(got, tuple) and got[0] == "raised" else ("done",)
        elif kind == "set":
            v = VAL[op[1]][op[2]][2]
            c.update_attribute(op[1], foundation.t.int16s(v) if op[1] == A else v)
        elif kind == "clear":
            c.update_attribute(op[1], None)
        elif kind == "mark":
            c.add_unsupported_attribute(key(op[1], op[2]))
        elif kind == "unmark":
            c.remove_unsupported_attribute(key(op[1], op[2]))
        self.loop.drain()
        require(len(self.asked) <= 1, f"{op}: {len(self.asked)} requests sent", key="requests")
        return self.listener.got, res, self.asked[0] if self.asked else None

    def observe(self):
        """Everything the public interface says about the cache."""
        cache, marks = {}, set()
        self.asked = []
        for a in (A, M, U):
            for by in ("id", "name") if a != U else ("id",):
                k = key(a, by)
                ok, bad = self.call(self.cluster.read_attributes([k], only_cache=True))
                require(not (ok and bad), f"{k} is both cached and failed", key="observe")
                if by == "name":
                    require((a in cache) == (k in ok) and (k not in ok or plain(ok[k]) == cache[a]), f"{k} and its id disagree: {ok} {cache}",
                            key="name-id")
                    require((k in bad) == (a in bad0), f"unsupported mark of {k} and of its id disagree", key="name-id-mark")
                else:
                    bad0 = bad
                    if a in ok:
                        cache[a] = plain(ok[a])
                if a != U:
                    got = self.cluster.get(k)
                    require((got is not None) == (a in cache) and (a not in cache or plain(got) == cache[a]), f"get({k}) is {got}, cached {cache.get(a)}",
                            key="get")
            if a in self.cluster.unsupported_attributes:
                marks.add(a)
            if a != U:
                require((a in self.cluster.unsupported_attributes) == (NAMES[a] in self.cluster.unsupported_attributes),
                        f"unsupported mark of {NAMES[a]} and of its id disagree", key="name-id-mark")
        require(not self.asked, "a cache-only read used the radio", key="cache-only")
        ok, bad = self.call(self.other.read_attributes([A, M, U, 0], only_cache=True))
        require(not ok and not bad and not self.stray.got, "another cluster changed", key="stray")
        return cache, marks


def step(rig, ref, op, hist):
    ev, res, asked = rig.do(op)
    rev, rres, rasked = ref.step(op)
    what = f"after {hist}" if len(repr(hist)) < 900 else f"after ...{hist[-3:]}"
    now = datetime.now(timezone.utc)
    for kind in ("updated", "cleared", "marked", "unmarked"):
        got = [e[:3] for e in ev if e[0] == kind]
        want = [e for e in rev if e[0] == kind]
        require(got == want, f"{kind} events {got}, expected {want} {what}", key=f"event-{kind}", data=hist)
    for e in ev:
        if e[0] == "updated":
            dt = (now - e[3]).total_seconds()
            require(-1e-3 <= dt <= 10, f"update time {e[3]} at {now} {what}", key="update-time")
            rig.stamps[e[1]] = e[3]
    require(asked == rasked, f"asked the device for {asked}, expected {rasked} {what}", key="asked", data=hist)
    if res != rres:
        raise Violation(f"result {res!r}, expected {rres!r} {what}", key=f"result-{op[0]}", data=hist)
    if isinstance(res, tuple) and res[0] == "ok":
        for k, v in res[2].items():
            require(type(v) is foundation.Status or isinstance(v, int), f"failure {v!r}", key="failure-type")
    cache, marks = rig.observe()
    require(cache == ref.cache, f"cache is {cache}, the device last said {ref.cache} {what}", key="cache", data=hist)
    require(marks == ref.marks, f"unsupported marks are {marks}, expected {ref.marks} {what}", key="marks", data=hist)
    typed = {A: foundation.t.int16s}
    if A in cache and isinstance(cache[A], int):
        require(isinstance(rig.cluster.get(A), typed[A]), "cached value does not have the attribute's type", key="type")
    return res


def replay(hist):
    with LoopCtx() as loop:
        rig, ref = Rig(loop), Ref()
        for i, op in enumerate(hist):
            step(rig, ref, op, hist[: i + 1])
        require(not loop.errors, f"background error {loop.errors[:1]} after {hist}", key="error")
        return ref.key()


def graph(st, part, parts, full):
    """Every operation from every reachable reference state; part of the operations per worker."""
    O = ops(full)
    # reachable states with a shortest history, from the reference alone
    start = Ref().key()
    paths, queue = {start: ()}, [()]
    for hist in queue:
        ref = Ref()
        for op in hist:
            ref.step(op)
        base = (dict(ref.cache), set(ref.marks))
        for op in O:
            r = Ref(*base)
            r.step(op)
            k = r.key()
            if k not in paths:
                paths[k] = hist + (op,)
                queue.append(hist + (op,))
    for i, (k, hist) in enumerate(sorted(paths.items(), key=lambda p: (len(p[1]), repr(p)))):
        if i % parts != part or (not full and len(hist) > 2 and i % 5):
            continue
        for op in O:
            h = hist + (op,)
            st.executions += 1
            st.transitions += len(h)
            st.maxlen = max(st.maxlen, len(h))
            end = replay(h)
            st.states.add(end)
            st.outcomes.add((op[0], end))
    st.samples.append({"scenario": {"states": len(paths)}})


def histories(st, first, depth, full):
    O = ops(full)
    mine = O[first::HSPLIT]
    for head in mine:
        for tail in itertools.product(O, repeat=depth - 1):
            h = (head,) + tail
            st.executions += 1
            st.transitions += depth
            end = replay(h)
            st.states.add(end)
            st.outcomes.add(end)


HSPLIT = 8


# -- concurrency: reads, writes and reports in every order ------------------------------------
def race(ch, kinds):
    """Two outstanding operations whose answers, and a report, arrive in every order and at every
    point between the callbacks they cause; the cache must hold what arrived last."""
    with LoopCtx() as loop:
        app = make_app(coordinator=False)
        dev = add_device(app, 1, endpoints={1: (zha.PROFILE_ID, zha.DeviceType.THERMOSTAT, (CID,), ())})
        c = dev.endpoints[1].in_clusters[CID]
        sent = []

        async def on_send(pkt):
            sent.append(pkt.data.serialize())

        app.on_send = on_send
        results, tasks = {}, []
        arrived = []  # (value, kind, number of callbacks run when it arrived)

        async def op(n, kind):
            if kind == "read":
                results[n] = await c.read_attributes([A])
            else:
                results[n] = await c.write_attributes({A: 100 + n})

        for n, kind in enumerate(kinds):
            if kind != "report":
                tasks.append(loop.create_task(op(n, kind)))
        order = [n for n, k in enumerate(kinds) if k != "report"]
        reports = [n for n, k in enumerate(kinds) if k == "report"]
        done = set()

        def data_of(n):
            if kinds[n] == "report":
                return zcl(0x18, 0xF0 + n, 0x0A, struct.pack("<HBh", A, 0x29, 10 + n)), 10 + n
            tsn = sent[order.index(n)][1]
            if kinds[n] == "read":
                return zcl(0x18, tsn, 0x01, struct.pack("<HBBh", A, 0, 0x29, 10 + n)), 10 + n
            return zcl(0x18, tsn, 0x04, b"\x00"), 100 + n

        def deliver(n):
            data, v = data_of(n)
            done.add(n)
            arrived.append((v, kinds[n], loop.steps))
            app.packet_received(packet(dev, data, cluster=CID))

        def events():
            return [Ev(f"{kinds[n]}{n}", lambda n=n: deliver(n), 0, 0, direct=True) for n in order[: len(sent)] + reports if n not in done]

        d = Driver(loop, ch, events, horizon=0)
        d.run()
        loop.drain()
        require(all(t.done() and not t.cancelled() and t.exception() is None for t in tasks), "an operation did not finish", key="race-finish")
        for n, kind in enumerate(kinds):
            if kind == "read":
                require(results[n] == ({A: 10 + n}, {}), f"read returned {results[n]}", key="race-result")
        last = arrived[-1]
        got = c.get(A)
        if got != last[0]:
            prev = [a for a in arrived if a[0] == got]
            k = "race-lost-update"
            if last[1] == "report" and prev and prev[0][1] in ("read", "write") and last[2] - prev[0][2] <= 1:
                # the answer of a read was followed by a report before the reader continued
                k = "report-right-behind-answer"
            raise Violation(f"the cache holds {got}, the device last said {last[0]} (arrivals {arrived})", key=k, data=ch.trace())
        return tuple(a[:2] for a in arrived), got


def scenarios(tier, seed):
    full = tier == "thorough"
    out = [dict(fn="graph", kind="bulk", args=dict(part=p, parts=16, full=full)) for p in range(16)]
    if full:
        out += [dict(fn="histories", kind="bulk", args=dict(first=f, depth=3, full=full), max_s=3000) for f in range(HSPLIT)]
    else:
        out += [dict(fn="histories", kind="bulk", args=dict(first=f, depth=2, full=full)) for f in range(HSPLIT)]
    for kinds in itertools.product(("read", "write", "report"), repeat=2):
        out.append(dict(fn="race", args=dict(kinds=kinds), bound=0, kind="dfs", limit=20000))
    for kinds in itertools.combinations_with_replacement(("read", "write", "report"), 3):
        out.append(dict(fn="race", args=dict(kinds=kinds), bound=0, kind="dfs", limit=20000))
    return out
