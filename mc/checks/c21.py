"""C21: response callbacks, waiters and event listeners against a reference multiset."""
from __future__ import annotations

import asyncio
import itertools

import zigpy.types as t
import zigpy.util
from zigpy.listeners import ANY_DEVICE
from zigpy.profiles import zha
from zigpy.zcl.clusters.general import LevelControl

from ..clock import CLOCK
from ..explore import require
from ..loop import LoopCtx
from ..world import add_device, make_app, packet, zcl

LEVEL = "model_checking"
VALIDATED = "every history runs on the real dispatch; the reference listener list predicts each call"
ASSUMPTIONS = ["a listener removed by another callback during the dispatch of a packet may or may not still see that packet"]

KINDS = ("plain", "raise", "self", "next", "add", "async", "wait", "any-plain", "any-self", "any-raise", "any-wait", "any-next")
PACKETS = ("A1", "A2", "B1", "bad", "reply")


def scenarios(tier, seed):
    depth = 4 if tier == "quick" else 5
    out = []
    for first in KINDS:
        for second in KINDS + ("A1",):
            out.append(dict(fn="histories", kind="bulk", args=dict(first=first, second=second, depth=depth)))
    for d in range(1):
        out.append(dict(fn="events", kind="bulk", args=dict(depth=5 if tier == "quick" else 6)))
    out.append(dict(fn="matchers", kind="bulk", args={}))
    return out


def histories(st, first, second, depth):
    seen = set()
    base = [("reg", first), ("reg", second) if second in KINDS else ("pkt", second)]
    ops = [("reg", k) for k in KINDS] + [("pkt", p) for p in PACKETS] + [("unreg", i) for i in range(3)] + [("cancel", i) for i in range(2)]
    for tail in itertools.product(ops, repeat=depth - 2):
        h = base + list(tail)
        if not valid(h):
            continue
        one(st, h + [("pkt", "A1"), ("pkt", "B1")], seen)


def valid(h):
    n = 0
    live = set()
    waits = set()
    done = set()
    for op, x in h:
        if op == "reg":
            live.add(n)
            if x.endswith("wait"):
                waits.add(n)
            n += 1
        elif op == "unreg":
            if x not in live:
                return False
            live.discard(x)
        elif op == "cancel":
            if x not in waits or x not in live or x in done:
                return False
            done.add(x)
    # canonical: the history does not end with a registration that nothing follows
    return True


class Entry:
    def __init__(self, i, kind, level):
        self.i, self.kind, self.level = i, kind.replace("any-", ""), level
        self.any = kind.startswith("any-")
        self.live = True
        self.cm = None
        self.fut = None
        self.taken = None


def one(st, hist, seen):
    st.executions += 1
    with LoopCtx() as loop:
        app = make_app()
        eps = {1: (zha.PROFILE_ID, zha.DeviceType.PUMP, (), (8,))}
        A, B = add_device(app, 1, endpoints=eps), add_device(app, 2, endpoints=eps)
        handled = []

        class L:
            def cluster_command(self, tsn, cmd, args):
                handled.append(int(args.level))

        for d in (A, B):
            d.endpoints[1].out_clusters[8].add_listener(L())
        entries = []  # every registration ever made
        order = {True: [], "A": []}  # reference: any-device and device A lists, in order
        calls = []  # (entry, packet id) as really called
        pk = itertools.count(1)
        current = [None]

        def register(kind):
            e = Entry(len(entries), kind, 1)
            entries.append(e)
            src = ANY_DEVICE if e.any else A
            filters = [LevelControl.ServerCommandDefs.move_to_level.schema(level=1)]
            if e.kind == "wait":
                e.cm = app.wait_for_response(src, filters)
                e.fut = e.cm.__enter__()
            else:
                e.cm = app.callback_for_response(src, filters, lambda hdr, cmd, e=e: called(e, hdr, cmd))
                e.cm.__enter__()
            order[True if e.any else "A"].append(e)
            return e

        def unregister(e):
            e.live = False
            order[True if e.any else "A"].remove(e)
            e.cm.__exit__(None, None, None)

        def next_of(e):
            lst = order[True] + order["A"]
            i = lst.index(e) if e in lst else None
            if i is not None and i + 1 < len(lst) and lst[i + 1].kind != "wait":
                return lst[i + 1]
            return None

        def called(e, hdr, cmd):
            calls.append((e.i, current[0]))
            if e.kind == "raise":
                raise RuntimeError("callback failed")
            if e.kind == "self" and e.live:
                unregister(e)
            if e.kind == "next":
                n = next_of(e)
                if n is not None:
                    optional.add(n.i)
                    unregister(n)
            if e.kind == "add":
                register("plain")
                register("any-plain")
            if e.kind == "async":
                async def co():
                    awaited.append((e.i, current_of[hdr.tsn]))
                return co()
            return None

        optional = set()
        awaited = []
        awaited_want = []
        current_of = {}
        for op, x in hist:
            if op == "reg":
                register(x)
            elif op == "unreg":
                e = entries[x]
                if e.live:
                    unregister(e)
            elif op == "cancel":
                e = entries[x]
                if e.fut is None:
                    continue
                e.fut.cancel()
                loop.drain()
            else:
                n = next(pk)
                CLOCK.t += 0.25
                dev = B if x == "B1" else A
                payload = bytes([2 if x == "A2" else 1]) + n.to_bytes(2, "little")
                data = zcl(0x01, 100 + n, 0x00, payload)
                if x == "bad":
                    data = data[:4]
                calls.clear()
                handled.clear()
                optional.clear()
                current[0] = n
                current_of[100 + n] = n
                task = None
                if x == "reply":
                    # the reply to a pending request is not offered to listeners
                    tsn = 200 + n
                    task = loop.create_task(A.request(260, 8, 1, 1, tsn, b"x", timeout=5))
                    loop.drain()
                    data = zcl(0x18, tsn, 0x0B, b"\x00\x00")
                # the reference, before the real thing runs (callbacks change the lists)
                snapshot = list(order[True]) + (list(order["A"]) if dev is A else [])
                matches = x in ("A1", "B1")
                app.packet_received(packet(dev, data, cluster=8, profile=260))
                want, taken = [], None
                if matches:
                    for e in snapshot:
                        if e.kind == "wait":
                            if e.taken is None and not (e.fut.cancelled()):
                                e.taken = n
                                taken = e
                                break
                        else:
                            want.append((e.i, n))
                            if e.kind == "async":
                                awaited_want.append((e.i, n))
                got = list(calls)
                must = [w for w in want if w[0] not in optional]
                require([g for g in got if g[0] not in optional] == must and all(g in want for g in got),
                        f"{hist}: packet {x} reached {got}, expected {want}", key="calls")
                for o in [w for w in want if w[0] in optional and w not in got]:
                    if o in awaited_want:
                        awaited_want.remove(o)
                if x == "reply":
                    loop.drain()
                    require(task.done() and task.exception() is None, f"{hist}: reply not delivered", key="reply")
                want_handled = [] if x in ("bad", "reply") else [2 if x == "A2" else 1]
                require(handled == want_handled, f"{hist}: packet {x} handled {handled}", key="handled")
                loop.drain()
                require(awaited == awaited_want, f"{hist}: awaited {awaited}, expected {awaited_want}", key="awaited")
                for e in entries:
                    if e.kind == "wait":
                        if e.taken is not None:
                            ok = e.fut.done() and not e.fut.cancelled()
                            require(ok and int(e.fut.result()[1].transition_time) == e.taken and e.fut.result()[0].tsn == 100 + e.taken,
                                    f"{hist}: waiter {e.i} did not take packet {e.taken}: {e.fut}", key="waiter")
                        else:
                            require(not e.fut.done() or e.fut.cancelled(), f"{hist}: waiter {e.i} got {e.fut}", key="waiter")
                st.outcomes.add((x, len(got), taken is not None, len(snapshot)))
        for e in list(order[True]) + list(order["A"]):
            unregister(e)
        calls.clear()
        CLOCK.t += 20
        current[0] = 99
        before = [(e.fut.done() if e.fut else None) for e in entries]
        app.packet_received(packet(A, zcl(0x01, 99, 0x00, b"\x01\x63\x00"), cluster=8, profile=260))
        loop.drain()
        require(calls == [] and before == [(e.fut.done() if e.fut else None) for e in entries],
                f"{hist}: {calls} called after all were removed", key="left-behind")
        require(handled[-1:] == [1], f"{hist}: last packet not handled", key="handled")
        require(not loop.errors, f"{hist}: {loop.errors}", key="loop-error")
        st.transitions += len(hist)
        st.states.add(hash(tuple(hist)))
    if len(st.samples) < 2:
        st.samples.append(repr(hist))


def matchers(st):
    """Every kind of filter against every kind of packet, ZCL and ZDO."""
    LC = LevelControl.ServerCommandDefs
    filters = {
        "partial-level": ([LC.move_to_level.schema(level=1)], lambda k, lvl, tt: k == "mtl" and lvl == 1),
        "any-level": ([LC.move_to_level.schema()], lambda k, lvl, tt: k == "mtl"),
        "both": ([LC.move_to_level.schema(level=1, transition_time=7)], lambda k, lvl, tt: k == "mtl" and lvl == 1 and tt == 7),
        "function": ([lambda hdr, cmd: getattr(cmd, "transition_time", None) == 7], lambda k, lvl, tt: tt == 7),
        "two": ([LC.move_to_level.schema(level=2), lambda hdr, cmd: getattr(cmd, "transition_time", None) == 7], lambda k, lvl, tt: (k == "mtl" and lvl == 2) or tt == 7),
        "step": ([LC.stop.schema()], lambda k, lvl, tt: k == "stop"),
        "none": ([], lambda k, lvl, tt: False),
    }
    parts = {
        "level1": (LC.move_to_level.schema(level=1), lambda k, lvl, tt: k == "mtl" and lvl == 1),
        "stop": (LC.stop.schema(), lambda k, lvl, tt: k == "stop"),
        "time7": (lambda hdr, cmd: getattr(cmd, "transition_time", None) == 7, lambda k, lvl, tt: tt == 7),
        "never": (lambda hdr, cmd: None, lambda k, lvl, tt: False),
        "zero": (lambda hdr, cmd: 0, lambda k, lvl, tt: False),
        "one": (lambda hdr, cmd: [1], lambda k, lvl, tt: True),
    }
    for k in (2, 3):
        for names in itertools.permutations(parts, k):
            filters["+".join(names)] = ([parts[x][0] for x in names], lambda *p, names=names: any(parts[x][1](*p) for x in names))
    packets = [("mtl", a, b) for a in (1, 2) for b in (7, 8)] + [("stop", None, None), ("zdo", None, None), ("unknown", None, None)]
    with LoopCtx() as loop:
        app = make_app()
        eps = {1: (zha.PROFILE_ID, zha.DeviceType.PUMP, (), (8,))}
        A = add_device(app, 1, endpoints=eps)
        n = 0
        for (name, (fl, want)), src, kind in itertools.product(filters.items(), (A, ANY_DEVICE), ("cb", "wait")):
            for p in packets:
                CLOCK.t += 11
                n += 1
                got = []
                if kind == "cb":
                    cm = app.callback_for_response(src, fl, lambda h, c: got.append(1))
                    cm.__enter__()
                else:
                    cm = app.wait_for_response(src, fl)
                    fut = cm.__enter__()
                tsn = n % 256
                if p[0] == "mtl":
                    pkt = packet(A, zcl(1, tsn, 0, bytes([p[1], p[2], 0])), cluster=8)
                elif p[0] == "stop":
                    pkt = packet(A, zcl(1, tsn, 3), cluster=8)
                elif p[0] == "unknown":
                    pkt = packet(A, zcl(1, tsn, 0x77, b"abc"), cluster=8)
                else:
                    pkt = packet(A, bytes([tsn]) + b"\x00\x00", cluster=0x0036, profile=0, src_ep=0, dst_ep=0)
                app.packet_received(pkt)
                loop.drain()
                if kind == "wait" and fut.done():
                    got.append(1)
                cm.__exit__(None, None, None)
                require(len(got) == want(*p), f"filter {name} ({kind}) and packet {p}: matched {len(got)} times", key="matcher")
                st.executions += 1
                st.transitions += 1
                st.outcomes.add((name, p, len(got)))


# -- event listeners ---------------------------------------------------------------------
class Source(zigpy.util.ListenableMixin):
    pass


def events(st, depth):
    """add / add_context / remove / emit histories; listeners may raise, add or remove listeners."""
    kinds = ("plain", "raise", "self", "other", "adder", "ctx", "nomethod")
    ops = [("add", k) for k in kinds] + [("dup", 0), ("emit", 0), ("remove", 0), ("remove", 1)]
    for hist in itertools.product(ops, repeat=depth - 1):
        if hist[0][0] != "add" or ("emit", 0) not in hist and depth > 3 and hist[-1][0] != "add":
            continue
        run_events(st, hist + (("emit", 0),))


def run_events(st, hist):
    src = Source()
    calls = []
    ref = []  # (listener, ctx) in order
    made = []

    class Lst:
        def __init__(self, kind):
            self.kind = kind
            if kind != "nomethod":
                self.ev = self._ev

        def _ev(self, *args):
            calls.append((self, args))
            if self.kind == "raise":
                raise ValueError("listener failed")
            if self.kind == "self":
                rm(self)
            if self.kind == "other":
                for o, _ in ref:
                    if o is not self:
                        optional.add(id(o))
                        rm(o)
                        break
            if self.kind == "adder":
                add(Lst("plain"), False)
            return len(calls)

    def add(x, ctx):
        made.append(x)
        if ctx:
            src.add_context_listener(x)
        else:
            src.add_listener(x)
        ref.append((x, ctx))

    def rm(x):
        src.remove_listener(x)
        for i, (y, _) in enumerate(ref):
            if y is x:
                del ref[i]
                break

    optional = set()
    st.executions += 1
    for op, x in hist:
        st.transitions += 1
        if op == "add":
            add(Lst(x), x == "ctx")
        elif op == "dup":
            if made:
                add(made[0], False)
        elif op == "remove":
            if x < len(made):
                rm(made[x])
        else:
            calls.clear()
            optional.clear()
            snap = list(ref)
            src.listener_event("ev", 1, "a")
            want = [(id(y), ((src,) if ctx else ()) + (1, "a")) for y, ctx in snap if y.kind != "nomethod"]
            got = [(id(y), a) for y, a in calls]
            if optional:
                want = [w for w in want if w[0] not in optional]
                got = [g for g in got if g[0] not in optional]
            require(got == want, f"{hist}: event reached {[ (c[0].kind, c[1]) for c in calls]}", key="events")
            st.outcomes.add(tuple(y.kind for y, _ in snap))
    st.states.add(hash(hist))
