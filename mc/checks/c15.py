"""C15: every history of backups, restores, live changes and restarts."""
from __future__ import annotations

import copy
import itertools
from datetime import datetime, timezone

import zigpy.backups
import zigpy.exceptions
import zigpy.state as zs
import zigpy.types as t
import zigpy.zdo.types as zdo_t

from .. import db
from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import COORD_IEEE, FakeApp, base_config

LEVEL = "model_checking"
VALIDATED = ("every history runs on the real backup manager, application and database, and after every step the manager's list is compared with the reference list, "
             "which is a rule over identity fields and frame counters; every history ends with a reload of the real database")
ASSUMPTIONS = ["SQLite is trusted", "the radio library changes the application's network state in place or replaces it, both are explored",
               "backups reach the manager in the order of their times, no two with the same time (the time is the key of a backup in the database)"]

KEY = t.KeyData(bytes(range(16)))
FIELDS = ("same", "counter+", "counter-", "counter=", "channel", "update", "key", "pan", "node", "level", "manager", "tclk", "epid", "nwk", "incomplete", "incomplete2", "incomplete3")


def scenarios(tier, seed):
    th = tier == "thorough"
    out = []
    for i in range(24):
        out.append(dict(fn="adds", kind="bulk", args=dict(part=i, parts=24, n=4 if th else 3, alphabet=FIELDS)))
        out.append(dict(fn="histories", kind="bulk", args=dict(part=i, parts=24, n=4 if th else 3)))
    out.append(dict(fn="adds", kind="bulk", args=dict(part=0, parts=1, n=6 if th else 5, alphabet=("same", "counter+", "counter-", "pan"))))
    out += [dict(fn="restores", kind="bulk", args=dict(inplace=x)) for x in (False, True)]
    return out


def backup(kind="same", stamp=0, **over):
    net = dict(extended_pan_id=t.ExtendedPanId(COORD_IEEE), pan_id=t.PanId(0x1234), nwk_update_id=t.uint8_t(3), nwk_manager_id=t.NWK(0), channel=t.uint8_t(15),
               channel_mask=t.Channels.ALL_CHANNELS, security_level=t.uint8_t(5), source="mc")
    node = dict(nwk=t.NWK(0), ieee=COORD_IEEE, logical_type=zdo_t.LogicalType.Coordinator)
    counter, key, tclk = 50000, KEY, t.KeyData(b"ZigBeeAlliance09")
    if kind == "counter+":
        counter = 50001 + stamp
    elif kind == "counter-":
        counter = 49000 - stamp
    elif kind == "counter=":
        net["source"] = "other"
        net["children"] = [COORD_IEEE]
    elif kind == "channel":
        net["channel"] = t.uint8_t(20)
    elif kind == "update":
        net["nwk_update_id"] = t.uint8_t(4)
    elif kind == "key":
        key = t.KeyData(bytes(range(1, 17)))
    elif kind == "pan":
        net["pan_id"] = t.PanId(0x4321)
    elif kind == "node":
        node["ieee"] = t.EUI64.convert("11:11:11:11:22:22:22:22")
    elif kind == "level":
        net["security_level"] = t.uint8_t(6)
    elif kind == "manager":
        net["nwk_manager_id"] = t.NWK(1)
    elif kind == "tclk":
        tclk = t.KeyData(bytes(range(2, 18)))
    elif kind == "epid":
        net["extended_pan_id"] = t.ExtendedPanId.convert("00:11:22:33:44:55:66:77")
    elif kind == "nwk":
        node["nwk"] = t.NWK(0x0007)
    elif kind == "incomplete":
        net["pan_id"] = t.PanId(0xFFFF)
    elif kind == "incomplete2":
        key = t.KeyData.UNKNOWN
    elif kind == "incomplete3":
        net["channel"] = t.uint8_t(0)
    net["metadata"] = {"stamp": stamp}
    return zigpy.backups.NetworkBackup(
        backup_time=datetime.fromtimestamp(1700000000 + stamp, tz=timezone.utc),
        network_info=zs.NetworkInfo(network_key=zs.Key(key=key, tx_counter=t.uint32_t(counter)), tc_link_key=zs.Key(key=tclk, tx_counter=t.uint32_t(0), partner_ieee=COORD_IEEE), **net),
        node_info=zs.NodeInfo(**node))


# -- the reference -----------------------------------------------------------------------
def identity(d):
    n, w = d["node_info"], d["network_info"]
    return (n["nwk"], n["logical_type"], n["ieee"], w["extended_pan_id"], w["pan_id"], w["nwk_update_id"], w["nwk_manager_id"], w["channel"], w["security_level"],
            w["tc_link_key"]["key"], w["network_key"]["key"])


def counter(d):
    return d["network_info"]["network_key"]["tx_counter"]


def complete(d):
    n, w = d["node_info"], d["network_info"]
    unknown = str(t.EUI64.UNKNOWN)
    return (n["ieee"] != unknown and w["extended_pan_id"] != unknown and w["pan_id"] not in ("0000", "FFFF") and w["channel"] in range(11, 27)
            and w["network_key"]["key"] != str(t.KeyData.UNKNOWN))


def add(ref, d):
    if not complete(d):
        return ref
    return [o for o in ref if identity(o) != identity(d) or counter(o) > counter(d)] + [d]


def doc(b):
    return copy.deepcopy(b.as_dict())


def same(app, ref, what):
    got = [b.as_dict() for b in app.backups.backups]
    require(got == ref, f"{what}: the backups are {brief(got)}, expected {brief(ref)}", key="list", data=what)
    newest = app.backups.most_recent_backup()
    require((newest.as_dict() if newest else None) == (ref[-1] if ref else None), f"{what}: wrong newest backup", key="newest")


def brief(ds):
    return [(d["network_info"]["metadata"].get("stamp"), d["network_info"]["pan_id"], d["network_info"]["channel"], counter(d)) for d in ds]


class Radio(FakeApp):
    inplace = False
    fail = None
    written = None
    live = None

    async def load_network_info(self, *, load_devices=False):
        if self.fail == "load":
            raise zigpy.exceptions.NetworkNotFormed("load")
        if self.live is None:
            return
        src = copy.deepcopy(self.live)
        if self.inplace:
            self.state.network_info.__dict__.update(src.network_info.__dict__)
            self.state.node_info.__dict__.update(src.node_info.__dict__)
            return
        self.state.network_info, self.state.node_info = src.network_info, src.node_info

    async def write_network_info(self, *, network_info, node_info):
        if self.fail == "write":
            raise zigpy.exceptions.FormationFailure("write")
        self.written = (copy.deepcopy(network_info), copy.deepcopy(node_info))
        self.live = zigpy.backups.NetworkBackup(network_info=copy.deepcopy(network_info), node_info=copy.deepcopy(node_info))


def opened(loop, path):
    return loop.run(Radio.new(base_config(database_path=str(path)), start_radio=False))


def closed(loop, app):
    loop.run(app.shutdown())
    loop.drain()


def reloaded(loop, app, path, ref, what):
    loop.drain()
    closed(loop, app)
    app = opened(loop, path)
    same(app, ref, f"{what}, reloaded")
    return app


_empty = {}


def start(loop):
    if "img" not in _empty:
        path = db.fresh("c15.sqlite")
        closed(loop, opened(loop, path))
        _empty["img"] = db.image(path)
    path = db.restore(_empty["img"], "c15-run.sqlite")
    return opened(loop, path), path


def adds(st, part, parts, n, alphabet):
    """Histories of added backups, on the manager alone, with the events that keep the database."""
    with LoopCtx(0.0) as loop:
        for i, hist in enumerate(itertools.product(alphabet, repeat=n)):
            if i % parts != part:
                continue
            app = Radio(base_config())
            events = []

            class L:
                def network_backup_created(self, b):
                    events.append(("+", doc(b)))

                def network_backup_removed(self, b):
                    events.append(("-", doc(b)))

            app.backups.add_listener(L())
            ref = []
            for j, k in enumerate(hist):
                b = backup(k, j)
                d = doc(b)
                del events[:]
                app.backups.add_backup(b)
                new = add(ref, d)
                want = sorted([("-", o) for o in ref if o not in new] + [("+", o) for o in new if o not in ref], key=str)
                require(sorted(events, key=str) == want, f"{hist[: j + 1]}: reported {[(x, brief([y])) for x, y in events]}", key="events")
                ref = new
                same(app, ref, f"{hist[: j + 1]}")
                st.transitions += 1
            st.executions += 1
            st.states.add(hash(str(ref)))
            st.outcomes.add(hash(str(brief(ref))))
            if i % 1000 == part:
                loop.drain()
        if loop.errors:
            raise Violation(f"{loop.errors[0]}", key="exception")


STEPS = ("create", "create-pan", "create-back", "create-incomplete", "create-fails", "live", "add-old", "add-channel", "restore-first", "restore-last", "restore-fails", "restart")


def histories(st, part, parts, n):
    """Histories on the real application and database."""
    with LoopCtx(0.0) as loop:
        for i, hist in enumerate(itertools.product(STEPS, repeat=n)):
            if i % parts != part:
                continue
            for inplace in (False, True):
                history(st, loop, hist, inplace)
        if loop.errors:
            raise Violation(f"{loop.errors[0]}", key="exception")


def history(st, loop, hist, inplace):
    app, path = start(loop)
    app.inplace = inplace
    live = backup("same", 1)
    app.live = live
    ref = []
    for j, step in enumerate(hist):
        what = f"{hist[: j + 1]}{' in place' if inplace else ''}"
        stamp = 10 + j
        made = None
        CLOCK.t += 1
        if step.startswith("create"):
            live = backup({"create": "counter+", "create-pan": "pan", "create-back": "counter-", "create-incomplete": "incomplete", "create-fails": "same"}[step], stamp)
            app.live = live
            app.fail = "load" if step == "create-fails" else None
            try:
                made = loop.run(app.backups.create_backup())
            except zigpy.exceptions.NetworkNotFormed:
                require(app.fail, f"{what}: creating a backup failed", key="create")
            require((made is None) == (app.fail is not None), f"{what}: creating a backup gave {made}", key="create")
            app.fail = None
            if made is not None:
                d = doc(made)
                want = doc(live)
                require((d["network_info"], d["node_info"]) == (want["network_info"], want["node_info"]), f"{what}: the backup is not the network", key="create")
                ref = add(ref, d)
        elif step == "live":
            app.state.network_info.network_key.tx_counter = t.uint32_t(0xFFFF0000)
            app.state.network_info.channel = t.uint8_t(25)
            app.state.network_info.children.append(COORD_IEEE)
            app.state.network_info.metadata["changed"] = True
            app.state.node_info.nwk = t.NWK(0x4444)
        elif step.startswith("add"):
            b = backup("counter-" if step == "add-old" else "channel", stamp)
            b.backup_time = datetime.now(timezone.utc)
            ref = add(ref, doc(b))
            app.backups.add_backup(b)
        elif step.startswith("restore"):
            if not app.backups.backups:
                continue
            app.fail = "write" if step == "restore-fails" else None
            b = app.backups.backups[0 if step == "restore-first" else -1]
            before = doc(b)
            app.written = None
            try:
                loop.run(app.backups.restore_backup(b))
            except zigpy.exceptions.FormationFailure:
                require(app.fail, f"{what}: restoring failed", key="restore")
            else:
                require(not app.fail, f"{what}: the failure of restoring was lost", key="restore")
                wrote(app, before, 10000, what)
                new = app.backups.backups[-1]
                require(new.node_info.as_dict() == before["node_info"], f"{what}: no backup of the restored network", key="restore")
                ref = add(ref, doc(new))
            app.fail = None
        else:
            live_ = app.live
            app = reloaded(loop, app, path, ref, what)
            app.inplace, app.live = inplace, live_
        same(app, ref, what)
        st.transitions += 1
    app = reloaded(loop, app, path, ref, f"{hist}{' in place' if inplace else ''}")
    closed(loop, app)
    st.executions += 1
    st.states.add(hash(str(ref)))
    st.outcomes.add(hash(str(brief(ref))))


def wrote(app, before, inc, what):
    require(app.written is not None, f"{what}: nothing was written", key="restore")
    net, node = app.written[0].as_dict(), app.written[1].as_dict()
    want = copy.deepcopy(before["network_info"])
    want["network_key"]["tx_counter"] += inc
    require(node == before["node_info"], f"{what}: wrote {node}", key="restore-node")
    for k in want:
        require(net[k] == want[k], f"{what}: wrote {k} = {net[k]!r}, the backup has {before['network_info'][k]!r}", key=f"restore-{k}")


def restores(st, inplace):
    with LoopCtx(0.0) as loop:
        for kind in FIELDS:
            for inc in (0, 1, 10000, 5000000):
                for allow in (False, True):
                    for new in (False, True):
                        for fail in (None, "write", "load"):
                            app, path = start(loop)
                            app.inplace = inplace
                            app.backups.add_backup(backup("pan", 1))
                            b = backup(kind, 2)
                            before = doc(b)
                            ref = [doc(x) for x in app.backups.backups]
                            app.fail = fail
                            what = f"restoring {kind} with increment {inc}{', incomplete allowed' if allow else ''}, {fail} fails"
                            try:
                                loop.run(app.backups.restore_backup(b, counter_increment=inc, allow_incomplete=allow, create_new=new))
                                ended = None
                            except (ValueError, zigpy.exceptions.FormationFailure, zigpy.exceptions.NetworkNotFormed) as e:
                                ended = e
                            require(doc(b) == before, f"{what}: changed the backup", key="restore-changed")
                            if not complete(before) and not allow:
                                require(isinstance(ended, ValueError) and app.written is None, f"{what}: {ended!r}, wrote {app.written}", key="restore-incomplete")
                            elif fail == "write" or fail == "load" and new:
                                require(isinstance(ended, (zigpy.exceptions.FormationFailure, zigpy.exceptions.NetworkNotFormed)), f"{what}: {ended!r}", key="restore-failure")
                            else:
                                require(ended is None, f"{what}: {ended!r}", key="restore-raised")
                                wrote(app, before, inc, what)
                                if new:
                                    d = copy.deepcopy(before)
                                    d["network_info"]["network_key"]["tx_counter"] += inc
                                    if complete(d):
                                        d["backup_time"] = app.backups.backups[-1].as_dict()["backup_time"]
                                    ref = add(ref, d)
                            app.fail = None
                            same(app, ref, what)
                            app = reloaded(loop, app, path, ref, what)
                            closed(loop, app)
                            st.executions += 1
                            st.transitions += 1
                            st.outcomes.add(hash((kind, inc, allow, new, fail)))
