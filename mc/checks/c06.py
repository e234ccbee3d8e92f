"""C06: upgrading databases of every earlier schema version, with every interruption of the upgrade."""
from __future__ import annotations

import json
import pathlib
import sqlite3
import struct

import zigpy.appdb

from .. import db
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import base_config, ieee, make_app, node_desc
from .c05 import changes, torn
from .c04 import App

LEVEL = "fault_enumeration"
RULE = ("for every schema version from 0 to the current one and every table content variant: the complete upgrade; for the richest content also the files before "
        "every single SQLite call (with the log cut inside and between its frames) and a failure of every single SQLite call of the upgrade")
ASSUMPTIONS = ["a stopped process loses nothing it had handed to the operating system; a write in progress may have happened up to any byte, in order",
               "rows of version 4 and earlier that refer to devices, endpoints or groups that do not exist may be dropped"]

SCHEMAS = {int(k): v for k, v in json.loads((pathlib.Path(__file__).parent.parent / "data" / "schemas.json").read_text()).items()}
NEWEST = 13
TABLES = ("endpoints", "in_clusters", "out_clusters", "attributes_cache", "node_descriptors", "neighbors", "routes", "groups", "group_members", "relays",
          "unsupported_attributes", "network_backups")
SINCE = {"node_descriptors": 1, "groups": 1, "group_members": 1, "relays": 1, "neighbors": 3, "unsupported_attributes": 7, "network_backups": 10, "routes": 11}
NEEDS = {"in_clusters": ("endpoints",), "out_clusters": ("endpoints",), "group_members": ("groups", "endpoints"),
         "unsupported_attributes": ("in_clusters", "endpoints")}
UNSUFFIXED = {"in_clusters": "clusters", "out_clusters": "output_clusters", "attributes_cache": "attributes"}


def scenarios(tier, seed):
    full = tier == "thorough"
    out = []
    for v in range(NEWEST + 1):
        out.append(dict(fn="upgrade", kind="bulk", args=dict(version=v)))
    for v in range(NEWEST):
        parts = 6 if v < 5 else 3
        for i in range(parts):
            out.append(dict(fn="failures", kind="bulk", args=dict(version=v, i=i, of=parts)))
        for i in range(parts if full else 2):
            out.append(dict(fn="crashes", kind="bulk", args=dict(version=v, i=i, of=parts if full else 2, full=full)))
    out.append(dict(fn="newer", kind="bulk", args={}))
    return out


# -- content ---------------------------------------------------------------------------------------
A, B, X = (str(ieee(n)) for n in (1, 2, 99))
EP = "dd:dd:dd:dd:dd:dd:dd:dd"
NEIGH = [  # device, (ieee, nwk, type, rx, relationship, reserved1, permit, depth, lqi)
    (A, (B, 0x1002, 1, 1, 2, 0, 0, 1, 255)),
    (A, (str(ieee(5)), 0x1005, 2, 0, 1, 1, 2, 15, 0)),
    (B, (A, 0x1001, 0, 1, 0, 0, 1, 0, 77)),
]


def content(version):
    """{table: rows} in the layout of the current version."""
    nd1, nd2 = node_desc(), node_desc(manufacturer_code=0xFFFF, rx_on=False, mains=False)
    seen = {A: 1651119833.288, B: 0}
    c = {
        "devices": [(A, 0x1001, 2, seen[A] if version >= 8 else 0), (B, 0xFFF0, 2, 0)],
        "endpoints": [(A, 1, 260, 0x0100, 1), (A, 2, 0xC05E, 0x0210, 1), (A, 242, 0xA1E0, 0x61, 1), (B, 1, 260, 0xFFFF, 1)],
        "in_clusters": [(A, 1, 0), (A, 1, 6), (A, 2, 0x300), (B, 1, 0), (B, 1, 0xFC00)],
        "out_clusters": [(A, 1, 6), (A, 1, 0x19), (A, 242, 0x21)],
        "attributes_cache": [(A, 1, 0, 4, "Acme", 0), (A, 1, 0, 5, "modé", 0), (A, 1, 6, 0, 1, 0), (A, 1, 6, 0x4000, -7, 0),
                             (A, 2, 0x300, 7, 2.5, 0), (B, 1, 0, 5, b"raw\x00\xff", 0), (B, 1, 0xFC00, 0xFFFD, 2**62, 0)],
        "node_descriptors": [(A, *[int(x) for x in nd1.as_tuple()]), (B, *[int(x) for x in nd2.as_tuple()])],
        "neighbors": [(d, EP, i, n, ty, rx, rel, r1, pj, 0, de, lq) for d, (i, n, ty, rx, rel, r1, pj, de, lq) in NEIGH],
        "routes": [(A, 0x1234, 0, 1, 0, 1, 0, 0x1002), (A, 0x2345, 3, 0, 1, 0, 0, 0xFFFC)],
        "groups": [(1, "one"), (0xFFF7, "é")],
        "group_members": [(1, A, 1), (1, B, 1), (0xFFF7, A, 2)],
        "relays": [(A, b"\x02\x34\x12\x78\x56"), (B, b"\x00")],
        "unsupported_attributes": [(A, 1, 6, 0x4003), (B, 1, 0, 0xFFFE)],
        "network_backups": [(3, json.dumps(BACKUP)), (7, json.dumps({**BACKUP, "backup_time": "2023-01-02T00:00:00+00:00"}))],
    }
    if version >= 12:
        c["attributes_cache"] = [(*r[:-1], 1651119800.5 + i) for i, r in enumerate(c["attributes_cache"])]
    return {k: v for k, v in c.items() if SINCE.get(k, 0) <= version}


BACKUP = None


def _make_backup():
    global BACKUP
    from .c04 import backup

    b = backup(5, 1).as_dict()
    b["backup_time"] = "2022-01-02T00:00:00+00:00"
    BACKUP = b


_make_backup()


def variants(version):
    """Small contents: everything, nothing, each table alone, each table missing, stale rows."""
    full = content(version)
    yield "full", full, {}, False
    yield "empty", {k: [] for k in full}, {}, False
    for k in TABLES:
        if k in full:
            yield f"no {k}", _close({**full, k: []}), {}, False
            need = {"devices", k, *NEEDS.get(k, ())}
            yield f"only {k}", _close({t: r if t in need else [] for t, r in full.items()}), {}, False
    yield "one device", _close({k: (r[:1] if k == "devices" else r) for k, r in full.items()}), {}, False
    yield "old tables", full, {}, True
    if version <= 4:
        orphans = {
            "endpoints": [(X, 1, 260, 1, 1)], "in_clusters": [(A, 77, 6), (X, 1, 0)], "out_clusters": [(X, 1, 0)], "attributes_cache": [(X, 1, 0, 4, "x", 0)],
            "neighbors": [(X, *full["neighbors"][0][1:])] if "neighbors" in full else [], "group_members": [(99, A, 1), (1, A, 77), (1, X, 1)],
            "relays": [(X, b"\0")],
        }
        orphans = {k: r for k, r in orphans.items() if k in full and r}
        yield "orphans", full, orphans, False
        for k, r in orphans.items():
            yield f"orphan {k}", full, {k: r}, False
    if version in (3, 4, 5):
        # attributes of endpoints that are not in the database
        yield "virtual endpoints", {**full, "attributes_cache": [*full["attributes_cache"]] + ([(A, 77, 6, 0, 5, 0)] if version < 5 else [])}, {}, False


def _close(c):
    """Drop the rows that would refer to nothing."""
    devs = {r[0] for r in c["devices"]}
    c = {k: [r for r in rows if k in ("devices", "groups", "network_backups", "routes") or (r[1] if k == "group_members" else r[0]) in devs]
         for k, rows in c.items()}
    c["endpoints"] = [r for r in c["endpoints"] if r[0] in devs]
    eps = {r[:2] for r in c["endpoints"]}
    for k in ("in_clusters", "out_clusters"):
        c[k] = [r for r in c[k] if r[:2] in eps]
    c["attributes_cache"] = [r for r in c["attributes_cache"] if r[:2] in eps]
    if "group_members" in c:
        grps = {r[0] for r in c["groups"]}
        c["group_members"] = [r for r in c["group_members"] if r[0] in grps and r[1:] in eps]
    if "unsupported_attributes" in c:
        ins = set(c["in_clusters"])
        c["unsupported_attributes"] = [r for r in c["unsupported_attributes"] if r[:3] in ins]
    return c


def old_row(table, version, r):
    """A row as the old version stored it."""
    if version < 13 and table == "attributes_cache":
        return r if version == 12 else r[:-1]
    if table == "devices":
        return r[:3] if version < 8 else (*r[:3], int(round(r[3] * 1000))) if version == 8 else r
    if version < 4 and table == "node_descriptors":
        f = r[1:]
        val = (f[0] | f[1] << 3 | f[2] << 4 | f[3] << 5) | (f[4] | f[5] << 3) << 8
        return r[0], struct.pack("<HBHBHHHB", val, f[6], f[7], f[8], f[9], f[10], f[11], f[12])
    if version < 4 and table == "neighbors":
        dev, ep, i, n, ty, rx, rel, r1, pj, r2, de, lq = r
        return dev, ep, i, n, ty | rx << 2 | rel << 4 | r1 << 7, pj, de, lq
    return r


def build(version, rows, stale=False, name="old.sqlite"):
    """A database as zigpy of that schema version left it."""
    path = db.fresh(name)
    con = sqlite3.connect(path)
    if stale:
        # tables of the versions before are still around, with outdated rows
        for v in range(4 if version > 4 else version, version):
            con.executescript(SCHEMAS[v])
            if v >= 5:
                fill(con, v, {k: r for k, r in {"devices": [(X, 1, 2, 0)], "groups": [(5, "stale")], "relays": [(X, b"\0")]}.items() if SINCE.get(k, 0) <= v})
        for v in range(version, NEWEST + 1):  # nothing of later versions is left
            pass
    if version == 4:
        con.executescript(SCHEMAS[3])
    con.executescript(SCHEMAS[version])
    con.execute(f"PRAGMA user_version = {version}")
    fill(con, version, rows)
    con.commit()
    con.close()
    return path


def fill(con, version, rows):
    for table, rs in rows.items():
        if version == 13 and table in ("in_clusters", "out_clusters"):
            name, rs = "clusters_v13", [(r[0], r[1], 0 if table == "in_clusters" else 1, r[2]) for r in rs]
        elif version == 13 and table in ("attributes_cache", "unsupported_attributes"):
            name, rs = f"{table}_v13", [(*r[:2], 0, *r[2:]) for r in rs]
        elif version >= 5:
            name = f"{table}_v{version}"
        elif version == 4 and table in ("neighbors", "node_descriptors"):
            name = f"{table}_v4"
        else:
            name = UNSUFFIXED.get(table, table)
        for r in rs:
            r = old_row(table, version, r)
            con.execute(f"INSERT INTO {name} VALUES ({','.join('?' * len(r))})", r)


def expected(rows):
    """The current version's tables."""
    out = {f"{k}_v13": list(r) for k, r in rows.items() if k not in ("in_clusters", "out_clusters", "attributes_cache", "unsupported_attributes")}
    out["clusters_v13"] = [(r[0], r[1], 0, r[2]) for r in rows.get("in_clusters", ())] + [(r[0], r[1], 1, r[2]) for r in rows.get("out_clusters", ())]
    for k in ("attributes_cache", "unsupported_attributes"):
        out[f"{k}_v13"] = [(*r[:2], 0, *r[2:]) for r in rows.get(k, ())]
    return out


def norm(rows):
    """Values as SQLite returns them, comparable across 1 and 1.0."""
    def one(k, v):
        return round(v, 6) if isinstance(v, float) else v

    return {k: sorted((tuple(one(k, v) for v in r) for r in rs), key=repr) for k, rs in rows.items()}


def start(loop, path, fault=None):
    """What starting zigpy with this file does; returns the loaded application."""
    if fault is None:
        app = loop.run(App.new(base_config(database_path=str(path)), start_radio=False))
        loop.drain()
        return app
    with db.hook(fault):
        lis = loop.run(zigpy.appdb.PersistingListener.new(str(path), make_app()))
    loop.drain()
    return lis


def stop(loop, app):
    loop.run(app.shutdown())
    loop.drain()
    db.process_ends()


def check_upgraded(path, version, rows, orphans, before, what):
    got = norm(db.rows(path))
    require(db.version(path) == NEWEST, f"{what}: schema version is {db.version(path)}", key="version")
    want = norm(expected(rows))
    extra = norm(expected(orphans))
    for k in sorted(set(want) | {n for n in got if n.endswith("_v13")}):
        have, need = got.get(k, []), want.get(k, [])
        if k == "devices_v13" and version < 8:
            need = [(*r[:3], 0) for r in need]
        lost = [r for r in need if not any(same(r, h) for h in have)]
        require(not lost, f"{what}: {k} lost {lost[:2]} (has {have[:3]})", key="lost")
        more = [h for h in have if not any(same(r, h) for r in [*need, *extra.get(k, [])])]
        require(not more and len(have) <= len(need) + len(extra.get(k, [])), f"{what}: {k} has unexpected {more[:2]}", key="invented")
    for k, rs in before.items():
        if not k.endswith("_v13"):
            require(got.get(k) == rs, f"{what}: the old table {k} changed", key="old-table")


def same(a, b):
    return len(a) == len(b) and all(x == y and (isinstance(x, (int, float)) or type(x) is type(y)) for x, y in zip(a, b))


def upgrade(st, version):
    with LoopCtx() as loop:
        for name, rows, orphans, stale in variants(version):
            what = f"v{version} {name}"
            both = {k: [*rows.get(k, []), *orphans.get(k, [])] for k in rows}
            path = build(version, both, stale)
            before = norm(db.rows(path))
            try:
                app = start(loop, path)
            except Exception as e:  # noqa: BLE001
                raise Violation(f"{what}: starting fails with {type(e).__name__}: {e}", key="start-fails") from None
            require({str(i) for i in app.devices} == {r[0] for r in rows["devices"]}, f"{what}: devices {list(app.devices)} loaded", key="loaded")
            stop(loop, app)
            st.executions += 1
            st.transitions += 1
            check_upgraded(path, version, rows, orphans, before, what)
            # the upgraded database needs nothing more
            now = db.rows(path)
            stop(loop, start(loop, path))
            require(db.rows(path) == now and db.version(path) == NEWEST, f"{what}: opening the upgraded database changed it", key="unstable")
            st.states.add((version, name))
            st.outcomes.add((version, len(now)))
        st.samples.append(f"v{version}: {st.executions} contents")


def crashes(st, version, i, of, full):
    part, n = i, 0
    with LoopCtx() as loop:
        for stale in (False, True):
            if stale and (version < 5 or not full):
                continue
            rows = content(version)
            path = build(version, rows, stale)
            before = norm(db.rows(path))
            images = []

            def look(function):
                img = db.image(path)
                if not images or images[-1] != img:
                    images.append(img)

            with db.hook(look):
                stop(loop, start(loop, path))
            look(None)
            for i, img in enumerate(images):
                todo = [("stopped", img)]
                if i:
                    cuts = list(torn(images[i - 1], img))
                    # inside frames: only around the ends, unless thorough
                    todo += cuts if full else [c for k, c in enumerate(cuts) if k % 3 == 2 or min(k, len(cuts) - k) < 6]
                for what, im in todo:
                    n += 1
                    if n % of != part:
                        continue
                    what = f"v{version} upgrade {what} at change {i}"
                    p = db.restore(im, "crash.sqlite")
                    now = norm(db.rows(p))
                    if now != before:
                        check_upgraded(p, version, rows, {}, before, what)
                    try:
                        stop(loop, start(loop, p))
                    except Exception as e:  # noqa: BLE001
                        raise Violation(f"{what}: the next start fails with {type(e).__name__}: {e}", key="start-fails") from None
                    check_upgraded(p, version, rows, {}, before, what)
                    st.executions += 1
            st.transitions += len(images)
            st.states.update((version, stale, i) for i in range(len(images)))
            st.outcomes.add((version, len(images)))
        st.samples.append(f"v{version}: {st.executions} interrupted upgrades")


def failures(st, version, i, of):
    with LoopCtx() as loop:
        rows = content(version)
        path = build(version, rows)
        base_img = db.image(path)
        before = norm(db.rows(path))
        n = [0]

        def count(function):
            n[0] += 1

        lis = start(loop, path, count)
        total = n[0]
        stop(loop, lis)
        for k in range(i, total, of):
            p = db.restore(base_img, "old.sqlite")
            n[0] = 0

            def fail(function):
                n[0] += 1
                if n[0] == k + 1:
                    raise sqlite3.OperationalError("disk I/O error")

            what = f"v{version}: call {k} of {total} of the upgrade fails"
            try:
                lis = start(loop, p, fail)
            except Exception:  # noqa: BLE001
                db.process_ends()
                loop.drain()
                if norm(db.rows(p)) != before or db.version(p) != version:
                    try:  # complete after all: the closing connection saved it
                        check_upgraded(p, version, rows, {}, before, what)
                    except Violation:
                        raise Violation(f"{what}: it left changes behind", key="partial-upgrade", data=changes(before, norm(db.rows(p)))) from None
            else:
                stop(loop, lis)
            stop(loop, start(loop, p))
            check_upgraded(p, version, rows, {}, before, what + ", then a new start")
            st.executions += 1
        st.transitions += total
        st.states.update((version, k) for k in range(i, total, of))
        st.outcomes.add((version, i))


def newer(st):
    """Databases this version does not know: nothing in them may be lost."""
    with LoopCtx() as loop:
        for kind in ("newer with old tables", "newer alone", "much newer", "mismatch up", "mismatch down"):
            rows = content(13)
            path = build(13, rows if kind != "newer alone" else {k: [] for k in rows})
            con = sqlite3.connect(path)
            if kind.startswith(("newer", "much")):
                v = 14 if kind.startswith("newer") else 99
                for (sql,) in con.execute("SELECT sql FROM sqlite_master WHERE sql IS NOT NULL AND name NOT LIKE 'sqlite_%'").fetchall():
                    con.execute(sql.replace("_v13", f"_v{v}"))
                con.execute(f"INSERT INTO devices_v{v} VALUES (?, 1, 2, 3)", (X,))
                con.execute(f"PRAGMA user_version = {v}")
                if kind == "newer alone":
                    for (n,) in con.execute("SELECT name FROM sqlite_master WHERE type='table' AND name LIKE '%_v13'").fetchall():
                        con.execute(f"DROP TABLE {n}")
            else:
                con.execute(f"PRAGMA user_version = {14 if kind == 'mismatch up' else 12}")
            con.commit()
            con.close()
            before, ver = db.rows(path), db.version(path)
            try:
                app = start(loop, path)
            except Exception:  # noqa: BLE001
                db.process_ends()
                loop.drain()
                out = "refused"
            else:
                require(not kind.startswith("mismatch"), f"{kind}: opened", key="mismatch")
                stop(loop, app)
                out = "opened"
            require(db.rows(path) == before and db.version(path) == ver, f"{kind}: {out}, and its content changed", key="newer")
            st.executions += 1
            st.states.add(kind)
            st.outcomes.add((kind, out))
        st.transitions += st.executions
        st.samples.append(f"{st.outcomes}")
