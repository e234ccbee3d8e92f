"""C05: the process stops, or a write fails, at every point of every history of database events."""
from __future__ import annotations

import itertools
import sqlite3
from datetime import datetime, timezone

import zigpy.appdb
import zigpy.device
import zigpy.types as t
import zigpy.zdo.types as zdo_t

from .. import db
from ..clock import CLOCK, vtime
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import base_config, fill_device, ieee, make_app
from .c04 import App, backup, neighbor, route

LEVEL = "fault_enumeration"
RULE = ("for every history of database events up to the stated length: the files as they are before every single SQLite call, with the write-ahead log cut "
        "at every frame boundary and inside every frame it grew by, and with every prefix of the pages a closing checkpoint writes; and, separately, "
        "a failure of every single SQLite call")
ASSUMPTIONS = ["a stopped process loses nothing it had handed to the operating system; a write in progress may have happened up to any byte, in order",
               "the database calls of one connection run in order, one at a time (what aiosqlite's thread does)"]

SIG = {1: (260, 0x0100, (0, 6), (0x19,)), 3: (0xC05E, 0x0210, (0,), ())}
EVENTS = ("save1", "save2", "badsave", "joined", "seen", "relays", "norelays", "attr", "attr2", "badattr", "clear", "unsup", "sup", "neighbors", "badneighbors", "routes",
          "group", "member", "unmember", "ungroup", "backup", "nobackup", "remove1")


def scenarios(tier, seed):
    full = tier == "thorough"
    out = [dict(fn="creation", kind="bulk", args={})]
    for first in EVENTS:
        out.append(dict(fn="crashes", kind="bulk", args=dict(first=first, more=2 if full else 1)))
        out.append(dict(fn="failures", kind="bulk", args=dict(first=first, more=2 if full else 1)))
    for i in range(8):
        out.append(dict(fn="long", kind="bulk", args=dict(i=i, of=8)))
    return out


# -- the events ---------------------------------------------------------------------------------
class World:
    """The objects the events are about; they are the same in every history."""

    def __init__(self):
        self.app = make_app()
        self.d1 = self.app.add_device(ieee(1), t.NWK(0x1001))
        fill_device(self.d1, SIG)
        b = self.d1.endpoints[1].in_clusters[0]
        b.update_attribute(4, t.CharacterString("Acme"))
        b.update_attribute(5, t.CharacterString("mod"))
        self.d1.endpoints[1].in_clusters[6].add_unsupported_attribute(0x4002, inhibit_events=True)
        self.d1.last_seen = vtime()
        self.d2 = self.app.add_device(ieee(2), t.NWK(0x1002))
        fill_device(self.d2, {1: (260, 0x0101, (0, 8), ())})
        # saving this one fails half way: no column can hold the value
        self.bad = self.app.add_device(ieee(3), t.NWK(0x1003))
        fill_device(self.bad, {1: (260, 0x0101, (0,), ())})
        self.bad.endpoints[1].in_clusters[0]._attr_cache[0x4000] = object()
        self.moved = zigpy.device.Device(self.app, ieee(1), t.NWK(0x2001))
        self.group = self.app.groups.add_group(7, "seven")
        self.b1 = backup(100, 1)

    def fire(self, lis, what):
        on = self.d1.endpoints[1].in_clusters[6]
        now = datetime.fromtimestamp(vtime(), timezone.utc)
        if what in ("save1", "save2", "badsave"):
            lis.raw_device_initialized({"save1": self.d1, "save2": self.d2, "badsave": self.bad}[what])
        elif what == "joined":
            lis.device_joined(self.moved)
        elif what == "seen":
            lis.device_last_seen_updated(self.d1, now)
        elif what in ("relays", "norelays"):
            lis.device_relays_updated(self.d1, t.Relays([0x1002]) if what == "relays" else None)
        elif what in ("attr", "attr2", "badattr"):
            lis.attribute_updated(on, 0 if what != "attr2" else 0x4001, {"attr": 1, "attr2": 77, "badattr": object()}[what], now)
        elif what == "clear":
            lis.attribute_cleared(on, 0)
        elif what == "unsup":
            lis.unsupported_attribute_added(on, 0x4003)
        elif what == "sup":
            lis.unsupported_attribute_removed(on, 0x4002)
        elif what == "neighbors":
            lis.neighbors_updated(ieee(1), [neighbor(2), neighbor(5)])
        elif what == "badneighbors":
            lis.neighbors_updated(ieee(1), [neighbor(6), zdo_t.Neighbor()])
        elif what == "routes":
            lis.routes_updated(ieee(1), [route(0x1234), route(0x2345)])
        elif what == "group":
            lis.group_added(self.group)
        elif what in ("member", "unmember"):
            (lis.group_member_added if what == "member" else lis.group_member_removed)(self.group, self.d1.endpoints[1])
        elif what == "ungroup":
            lis.group_removed(self.group)
        elif what == "backup":
            lis.network_backup_created(self.b1)
        elif what == "nobackup":
            lis.network_backup_removed(self.b1)
        elif what == "remove1":
            lis.device_removed(self.d1)


_base = {}


def listener(loop, path, app):
    return loop.run(zigpy.appdb.PersistingListener.new(str(path), app))


def base(loop):
    """A database that already holds most of what the events change."""
    if "img" not in _base:
        path = db.fresh("base.sqlite")
        w = World()
        lis = listener(loop, path, w.app)
        for e in ("save1", "attr", "group", "member", "backup", "relays", "neighbors"):
            w.fire(lis, e)
        loop.run(lis.shutdown())
        loop.drain()
        _base["img"] = db.image(path)
    return _base["img"]


START = {"empty": (), "full": None}


class Run:
    """One history on a fresh copy of a starting database."""

    def __init__(self, loop, start):
        self.loop = loop
        CLOCK.t = 100_000.0
        img = base(loop) if start == "full" else _empty(loop)
        CLOCK.t = 200_000.0
        self.path = db.restore(img, "run.sqlite")
        self.w = World()
        self.lis = listener(loop, self.path, self.w.app)
        loop.drain()

    def fire(self, i, what):
        CLOCK.t = 200_000.0 + 100 * i
        self.w.fire(self.lis, what)

    def close(self):
        self.loop.run(self.lis.shutdown())
        self.loop.drain()


def _empty(loop):
    if "empty" not in _base:
        path = db.fresh("empty.sqlite")
        lis = listener(loop, path, make_app())
        loop.run(lis.shutdown())
        loop.drain()
        _base["empty"] = db.image(path)
    return _base["empty"]


def strip(rows):
    """Row numbers the database hands out itself carry no information."""
    return {k: sorted([r[1:] for r in v]) if k.startswith("network_backups") else v for k, v in rows.items()}


def contents(path):
    return strip(db.rows(path))


def reopened(loop, img, what):
    """What the next start makes of these files."""
    path = db.restore(img)
    try:
        app = loop.run(App.new(base_config(database_path=str(path)), start_radio=False))
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: the next start fails with {type(e).__name__}: {e}", key="unloadable") from None
    loop.drain()
    got = contents(path)
    loop.run(app.shutdown())
    loop.drain()
    require(contents(path) == got, f"{what}: reopening and closing changed the database", key="unstable")
    return got


def torn(before, after):
    """The images that a process stopped inside one call may leave."""
    if "-wal" in after and after.get("-wal") != before.get("-wal"):
        for n in db.wal_cuts(before, after):
            yield f"log cut at {n}", {**after, "-wal": after["-wal"][:n], "": before.get("", b"")}
    old, new = before.get("", b""), after.get("", b"")
    if old != new and before.get("-wal"):
        size = int.from_bytes(new[16:18], "big") or 4096
        size = 65536 if size == 1 else size
        pages = [p for p in range(0, len(new), size) if old[p:p + size] != new[p:p + size]]
        cur = bytearray(old)
        for i, p in enumerate(pages):
            if len(cur) < p + size:
                cur += bytes(p + size - len(cur))
            half = bytearray(cur)
            half[p:p + size // 2] = new[p:p + size // 2]
            yield f"checkpoint stopped inside page {i}", {**before, "": bytes(half)}
            cur[p:p + size] = new[p:p + size]
            yield f"checkpoint stopped after page {i}", {**before, "": bytes(cur)}


def observe(loop, path, body):
    """Run `body` and return the distinct file images, each with the committed content then."""
    images = []

    def look(function):
        img = db.image(path)
        if not images or images[-1][0] != img:
            images.append((img, contents(path)))

    with db.hook(look):
        body()
    look(None)
    return images


def prefixes(loop, start, history):
    """The content after each event, run one at a time without faults."""
    r = Run(loop, start)
    out = [contents(r.path)]
    for i, e in enumerate(history):
        r.fire(i, e)
        loop.drain()
        out.append(contents(r.path))
    r.close()
    out.append(contents(r.path))
    return out


def crash_history(loop, st, start, history):
    D = prefixes(loop, start, history)
    require(D[-1] == D[-2], f"{history}: closing changed the content", key="close")
    r = Run(loop, start)
    marks = []

    def body():
        for i, e in enumerate(history):
            r.fire(i, e)
        r.close()

    images = observe(loop, r.path, body)
    require(images[-1][1] == D[-1], f"{history}: the content depends on how fast the events come", key="order")
    seen = set()
    low = 0
    for i, (img, committed) in enumerate(images):
        where = [j for j, d in enumerate(D) if d == committed and j >= low]
        require(where, f"{start} {history}: something that is not the state after any event was committed", key="partial",
                data=changes(D[low], committed))
        low = where[0]
        key = repr(committed)
        todo = [("stopped", img)]
        if i:
            todo += torn(images[i - 1][0], img)
        for what, im in todo:
            got = reopened(loop, im, f"{start} {history} {what} at change {i}")
            st.executions += 1
            ok = (committed,) if what == "stopped" else (committed, images[i - 1][1])
            require(got in ok, f"{start} {history}: {what} at change {i} of the files: the next start sees another state", key="crash-state",
                    data=changes(committed, got))
        seen.add(key)
    st.transitions += len(images)
    st.states.update((start, history, k) for k in range(len(images)))
    st.outcomes.add((start, len(images), len(seen)))


def changes(a, b):
    return {k: ([x for x in a.get(k, []) if x not in b.get(k, [])][:3], [x for x in b.get(k, []) if x not in a.get(k, [])][:3])
            for k in {*a, *b} if a.get(k) != b.get(k)}


def fail_history(loop, st, start, history):
    """Every single call of the handlers fails once."""
    # how many calls each event takes
    r = Run(loop, start)
    calls, spans = [0], []

    def count(function):
        calls[0] += 1

    with db.hook(count):
        for i, e in enumerate(history):
            r.fire(i, e)
            before = calls[0]
            loop.drain()
            spans.append((before, calls[0]))
    r.close()
    final = {}
    for i in range(len(history)):
        final[i] = without(loop, start, history, i)
    for i, (a, b) in enumerate(spans):
        for k in range(a, b):
            r = Run(loop, start)
            n = [0]

            def fail(function, k=k):
                n[0] += 1
                if n[0] == k + 1:
                    raise sqlite3.OperationalError("disk I/O error")

            with db.hook(fail):
                for j, e in enumerate(history):
                    r.fire(j, e)
                loop.drain()
            r.close()
            got = contents(r.path)
            st.executions += 1
            require(got == final[i], f"{start} {history}: call {k - a} of {history[i]!r} fails: later events committed a part of it, or were lost",
                    key="failed-write", data=changes(final[i], got))
    st.transitions += calls[0]
    st.states.add((start, history))
    st.outcomes.add((start, calls[0]))


def without(loop, start, history, i):
    r = Run(loop, start)
    for j, e in enumerate(history):
        if j != i:
            r.fire(j, e)
    loop.drain()
    r.close()
    return contents(r.path)


def histories(first, more):
    for n in range(more + 1):
        for rest in itertools.product(EVENTS, repeat=n):
            yield (first, *rest)


def bad_free(loop, st, start, history):
    """An event that cannot be stored leaves nothing behind."""
    for i, e in enumerate(history):
        if e.startswith("bad"):
            r = Run(loop, start)
            for j, x in enumerate(history):
                r.fire(j, x)
            loop.drain()
            r.close()
            got, want = contents(r.path), without(loop, start, history, i)
            st.executions += 1
            require(got == want, f"{start} {history}: {e!r} cannot be stored, but a later event committed a part of it", key="failed-write",
                    data=changes(want, got))
            return


def crashes(st, first, more):
    with LoopCtx() as loop:
        for start in ("empty", "full"):
            for h in histories(first, more):
                if start == "empty" and h[0] not in ("save1", "save2", "badsave", "group", "backup", "routes"):
                    continue
                bad_free(loop, st, start, h)
                crash_history(loop, st, start, h)
        st.samples.append(f"{first}: {st.executions} reopened images")


def failures(st, first, more):
    with LoopCtx() as loop:
        for start in ("empty", "full"):
            for h in histories(first, more):
                if start == "empty" and h[0] not in ("save1", "save2", "group"):
                    continue
                if any(e.startswith("bad") for e in h):
                    continue
                fail_history(loop, st, start, h)
        st.samples.append(f"{first}: {st.executions} failed calls")


LONG = [
    ("save1", "attr", "group", "member", "backup", "remove1", "save2", "nobackup"),
    ("save2", "save1", "neighbors", "routes", "relays", "joined", "seen", "attr2", "clear"),
    ("group", "save1", "member", "ungroup", "group", "member", "unmember", "backup", "nobackup", "backup"),
    ("save1", "badsave", "attr", "badneighbors", "neighbors", "badattr", "attr2"),
    ("remove1", "save1", "attr", "remove1", "save1", "joined", "remove1"),
    ("save1", "unsup", "sup", "save1", "attr", "clear", "norelays", "relays", "norelays"),
    ("backup", "nobackup", "save2", "backup", "routes", "remove1", "routes"),
    ("seen", "joined", "save1", "seen", "save2", "badneighbors", "save1"),
]


def long(st, i, of):
    with LoopCtx() as loop:
        for j, h in enumerate(LONG):
            if j % of != i:
                continue
            for start in ("empty", "full"):
                crash_history(loop, st, start, h)
                if not any(e.startswith("bad") for e in h):
                    fail_history(loop, st, start, h)
        st.samples.append(f"{len(LONG)} long histories")


def creation(st):
    with LoopCtx() as loop:
        path = db.fresh("new.sqlite")
        app = make_app()
        box = []

        def body():
            box.append(listener(loop, path, app))
            loop.run(box[0].shutdown())
            loop.drain()

        # the files do not exist at first
        images = []

        def look(function):
            img = db.image(path)
            if not images or images[-1] != img:
                images.append(img)

        with db.hook(look):
            body()
        look(None)
        final = contents(path)
        require(final and not any(final.values()), "a new database is not empty", key="creation")
        ver = db.version(path)
        for i, img in enumerate(images):
            todo = [("stopped", img)]
            if i:
                todo += torn(images[i - 1], img)
            for what, im in todo:
                got = reopened(loop, im, f"creation {what} at change {i}")
                st.executions += 1
                require(got == final, f"creation {what} at change {i}: the next start does not complete it", key="creation-state", data=changes(final, got))
                # and what is stored then is kept
                p = db.restore(im)
                w = World()
                lis = listener(loop, p, w.app)
                for e in ("save1", "attr", "group", "member", "backup"):
                    w.fire(lis, e)
                loop.drain()
                loop.run(lis.shutdown())
                loop.drain()
                require(db.version(p) == ver, "wrong schema version", key="creation-state")
                got = reopened(loop, db.image(p), "after an interrupted creation")
                require(sum(len(v) for v in got.values()) > 10, f"creation {what} at change {i}: later events are not stored", key="creation-lost")
        st.transitions += len(images)
        st.states.update(range(len(images)))
        st.outcomes.add(len(images))
        st.samples.append(f"{st.executions} images of an interrupted creation")
