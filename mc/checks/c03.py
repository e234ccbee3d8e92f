"""C03: the duplicate filter against a reference filter, over all packet histories."""
from __future__ import annotations

import itertools

import zigpy.device
import zigpy.types as t
from zigpy.datastructures import Debouncer

from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import add_device, make_app, packet, zcl

LEVEL = "model_checking"
VALIDATED = ("no separate model of the code: the reference filter runs beside the real filter and the real "
             "device on every explored history and must agree at every step")
ASSUMPTIONS = ["time between packets takes the listed values only; an arrival exactly at the end of the window may go either way"]

DTS = (0.0, 3.1, 9.7, 10.3)


class Opaque:
    """Hashable but not comparable, like packets."""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return hash(self.n)

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.n == self.n


def scenarios(tier, seed):
    th = tier == "thorough"
    out = []
    alpha = list(itertools.product(range(3), range(len(DTS))))
    depth = 7 if th else 6
    for first in itertools.product(alpha, repeat=2):
        if first[0] != (0, 0):
            continue
        out.append(dict(fn="filter_histories", kind="bulk", args=dict(prefix=first, depth=depth, exps=(10.0,), dts=DTS)))
    # several expiration times
    for o1, e1 in itertools.product(range(2), range(2)):
        out.append(dict(fn="filter_histories", kind="bulk", args=dict(
            prefix=((0, 0), (o1, 0)), depth=6 if th else 5, exps=(10.0, 5.0, 2.5), dts=(0.0, 2.6, 5.0, 7.5))))
    ddepth = 6 if th else 5
    for a in alpha:
        out.append(dict(fn="device_histories", kind="bulk", args=dict(second=a, depth=ddepth)))
    out.append(dict(fn="fields", kind="bulk", args={}))
    out.append(dict(fn="devices", kind="bulk", args={}))
    return out


class Ref:
    def __init__(self):
        self.exp = {}

    def seen(self, obj, now, window, actual):
        """Expected answer of the filter, adopting `actual` when exactly on the edge."""
        e = self.exp.get(obj)
        if e is not None and abs(e - now) < 1e-6:
            want = actual
        else:
            want = e is not None and now < e
        if not want:
            self.exp[obj] = now + window
        return want


def filter_histories(st, prefix, depth, exps, dts):
    objs = [Opaque(i) for i in range(3)]
    ops = list(itertools.product(range(3), range(len(dts)), range(len(exps))))
    pre = [(o, d, e) for (o, d) in prefix for e in range(len(exps))]
    heads = list(itertools.product(*[[(o, d, e) for e in range(len(exps))] for (o, d) in prefix]))
    del pre
    for head in heads:
        for tail in itertools.product(ops, repeat=depth - len(head)):
            hist = head + tail
            with LoopCtx():
                deb = Debouncer()
                ref = Ref()
                out = []
                for i, (o, d, e) in enumerate(hist):
                    CLOCK.t += dts[d]
                    probe = deb.is_filtered(objs[o])
                    got = deb.filter(Opaque(o), expire_in=exps[e])
                    want = ref.seen(o, CLOCK.t, exps[e], got)
                    if got != want or probe != got:
                        raise Violation(
                            f"filter says {got} (is_filtered {probe}), expected {want} at step {i} of "
                            f"{[('ABC'[o], dts[d], exps[e]) for o, d, e in hist]}",
                            key="filtered-too-long" if got else "not-filtered", data=hist)
                    out.append(got)
            st.executions += 1
            st.transitions += len(hist)
            st.points += len(hist)
            st.outcomes.add(hash(tuple(out)))
            st.states.add(hash(tuple(sorted((k, round(v - CLOCK.t, 3)) for k, v in ref.exp.items() if v > CLOCK.t))))
    st.maxlen = max(st.maxlen, depth)
    if not st.samples:
        st.samples.append({"history": [list(x) for x in hist], "filtered": out})


class Rec:
    def __init__(self):
        self.calls = []

    def cluster_command(self, tsn, command_id, args):
        self.calls.append((tsn, command_id))


def setup():
    app = make_app()
    dev = add_device(app, 1, endpoints={1: (260, 0, (), (6,)), 2: (260, 0, (), (6, 8)), 3: (49246, 0, (), (6,))})
    rec = Rec()
    for ep in (1, 2, 3):
        for c in dev.endpoints[ep].out_clusters.values():
            c.add_listener(rec)
    return app, dev, rec


def frame(i):
    return zcl(0x11, 0x40 + i, i)  # off / on / toggle, no default response


def device_histories(st, second, depth):
    """The whole path from the radio to the cluster listener."""
    window = zigpy.device.PACKET_DEBOUNCE_WINDOW
    scale = window / 10.0
    alpha = list(itertools.product(range(3), range(len(DTS))))
    for tail in itertools.product(alpha, repeat=depth - 2):
        hist = ((0, 0), second) + tail
        with LoopCtx() as loop:
            app, dev, rec = setup()
            ref = Ref()
            out = []
            for i, (o, d) in enumerate(hist):
                CLOCK.t += DTS[d] * scale
                n = len(rec.calls)
                # the radio details differ on every packet and must not matter
                p = packet(dev, frame(o), tsn=i, lqi=100 + i, rssi=-40 - i, dst_ep=1)
                app.packet_received(p)
                loop.drain()
                got = len(rec.calls) == n
                require(len(rec.calls) <= n + 1, "packet processed more than once", key="double")
                want = ref.seen(o, CLOCK.t, window, got)
                require(got == want, f"packet {i} of {[('ABC'[o], DTS[d]) for o, d in hist]} "
                        f"{'dropped' if got else 'processed again'}",
                        key="dropped" if got else "not-filtered", data=hist)
                require(dev.lqi == 100 + i and dev.rssi == -40 - i, "signal quality not refreshed", key="quality")
                require(abs(dev.last_seen - p.timestamp.timestamp()) < 1e-6, "last seen not refreshed", key="last-seen")
                out.append(got)
            require(not loop.errors, f"error in the loop: {loop.errors}", key="loop-error")
        st.executions += 1
        st.transitions += len(hist)
        st.outcomes.add(hash(("dev", tuple(out))))
    st.maxlen = max(st.maxlen, depth)


def variants(dev):
    NWK = t.AddrMode.NWK
    base = dict(src_ep=1, dst_ep=1, cluster=6, profile=260, tsn=1, lqi=10, rssi=-10)
    same = [dict(tsn=2), dict(lqi=200), dict(rssi=-77), dict(lqi=None), dict(rssi=None), dict(tsn=3, lqi=1, rssi=-1)]
    diff = [
        dict(src_ep=2), dict(dst_ep=2), dict(src_ep=3, profile=49246), dict(profile=261),
        dict(dst=t.AddrModeAddress(addr_mode=t.AddrMode.Group, address=t.Group(0))),
        dict(dst=t.AddrModeAddress(addr_mode=t.AddrMode.Broadcast, address=t.BroadcastAddress.ALL_DEVICES)),
        dict(src_mode="ieee"), dict(radius=3), dict(non_member_radius=2),
        dict(tx_options=t.TransmitOptions.APS_Encryption), dict(tx_options=t.TransmitOptions.ACK),
        dict(data=frame(2)), dict(data=zcl(0x11, 0x55, 1)), dict(data=frame(1) + b"\x00"),
        dict(extended_timeout=True),
    ]
    return base, same, diff


def fields(st):
    """Each single difference between two packets inside the window."""
    with LoopCtx() as loop:
        app, dev, rec = setup()
        base, same, diff = variants(dev)
        n = len(diff)
    everything = [({}, True)] + [(s, True) for s in same] + [(d, False) for d in diff]
    for (da, ka), (db, kb) in itertools.product(everything, repeat=2):
        for gap in (0.0, 9.7 * zigpy.device.PACKET_DEBOUNCE_WINDOW / 10):
            with LoopCtx() as loop:
                app, dev, rec = setup()

                def mk(d):
                    kw = {**base, **d}
                    data = kw.pop("data", frame(1))
                    return packet(dev, data, **kw)

                same_packet = (ka and kb) or (da is db)
                app.packet_received(mk(da))
                loop.drain()
                require(len(rec.calls) == 1, f"first packet {da} not processed once: {rec.calls}", key="first")
                CLOCK.t += gap
                app.packet_received(mk(db))
                loop.drain()
                require((len(rec.calls) == 1) == same_packet,
                        f"packet {db or 'base'} after {da or 'base'}: "
                        f"{'processed again' if same_packet else 'dropped as a duplicate'}",
                        key="dropped" if not same_packet else "not-filtered", data=(da, db))
                st.executions += 1
                st.transitions += 2
                st.outcomes.add(hash((str(da), str(db), len(rec.calls))))
    st.extra["field_variants"] = n


def devices(st):
    """The same bytes from two devices, and through a re-created address."""
    for order in itertools.product((1, 2), repeat=4):
        with LoopCtx() as loop:
            app = make_app()
            devs, recs = {}, {}
            for n in (1, 2):
                devs[n] = add_device(app, n, endpoints={1: (260, 0, (), (6,))})
                recs[n] = Rec()
                devs[n].endpoints[1].out_clusters[6].add_listener(recs[n])
            for n in order:
                app.packet_received(packet(devs[n], frame(1)))
                loop.drain()
            for n in (1, 2):
                require(len(recs[n].calls) == (1 if n in order else 0),
                        f"device {n} processed {len(recs[n].calls)} packets of {order}", key="dropped", data=order)
            st.executions += 1
            st.outcomes.add(hash(order))
