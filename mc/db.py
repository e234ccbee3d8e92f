"""zigpy's database under full control: every SQLite call runs on the loop, one at a time.

aiosqlite runs each call of a connection in a thread, in order.  Here the thread is replaced
by the loop's own ready queue (same order, same results), so that an execution is
deterministic and a fault can be injected, or the files copied, before every single call.
"""
from __future__ import annotations

import atexit
import contextlib
import os
import pathlib
import shutil
import sqlite3
import struct
import tempfile

import aiosqlite.core

_ROOT = None
_OPEN = []
HOOK = None  # called with the SQLite call about to run; may raise


class Crash(BaseException):
    """The process stops here."""


class _Queue:
    """Stands in for the queue that feeds aiosqlite's thread."""

    def __init__(self):
        self.stopped = False

    def put_nowait(self, item):
        if not isinstance(item, tuple):
            return
        future, function = item

        def run():
            try:
                if HOOK is not None:
                    HOOK(function)
                result = function()
                if isinstance(result, sqlite3.Connection):
                    _OPEN.append(result)
            except Crash:
                raise
            except BaseException as e:  # noqa: BLE001 - as aiosqlite does
                if not future.done():
                    future.set_exception(e)
            else:
                if not future.done():
                    future.set_result(result)

        future.get_loop().call_soon(run)

    put = put_nowait


aiosqlite.core.SimpleQueue = _Queue
aiosqlite.core.Connection.start = lambda self: None
aiosqlite.core.Connection.join = lambda self, timeout=None: None


@contextlib.contextmanager
def hook(fn):
    global HOOK
    old, HOOK = HOOK, fn
    try:
        yield
    finally:
        HOOK = old


def process_ends():
    """Whatever the process still had open is gone (open transactions are rolled back)."""
    while _OPEN:
        with contextlib.suppress(sqlite3.Error):
            _OPEN.pop().close()


def scratch():
    """A directory for this process's database files, removed at exit."""
    global _ROOT
    if _ROOT is None or _ROOT[0] != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        path = tempfile.mkdtemp(prefix="zigpy-mc-", dir=base)
        _ROOT = (os.getpid(), path)
        import multiprocessing.util as mpu

        mpu.Finalize(None, shutil.rmtree, args=(path, True), exitpriority=1)
        atexit.register(shutil.rmtree, path, True)
    return pathlib.Path(_ROOT[1])


def fresh(name="db.sqlite"):
    """Path of a database that does not exist yet."""
    path = scratch() / name
    for suffix in ("", "-wal", "-shm", "-journal"):
        with contextlib.suppress(FileNotFoundError):
            os.unlink(f"{path}{suffix}")
    return path


def image(path):
    """The files a crashed process leaves behind (the shared memory index is rebuilt)."""
    out = {}
    for suffix in ("", "-wal", "-journal"):
        with contextlib.suppress(FileNotFoundError):
            out[suffix] = pathlib.Path(f"{path}{suffix}").read_bytes()
    return out


def restore(img, name="crash.sqlite"):
    path = fresh(name)
    for suffix, data in img.items():
        pathlib.Path(f"{path}{suffix}").write_bytes(data)
    return path


def wal_cuts(before, after):
    """Sizes at which the write-ahead log may have been cut while it grew: every frame
    boundary and the middle of every frame."""
    new = after.get("-wal", b"")
    old = before.get("-wal", b"")
    if len(new) < 32 or new == old:
        return []
    page = struct.unpack(">I", new[8:12])[0]
    frame = 24 + (65536 if page == 1 else page)
    start = 0
    if old and new[:len(old)] == old:
        start = len(old)
    sizes = [s for s in (0, 16, 32) if s >= start]
    n = 32
    while n < len(new):
        sizes += [s for s in (n + 12, n + 24 + 100, n + frame) if start <= s < len(new)]
        n += frame
    return sorted(set(sizes))


def rows(path):
    """The committed content of a database: {table: sorted rows}, without opening it in zigpy."""
    con = sqlite3.connect(f"file:{path}?mode=ro", uri=True)
    try:
        out = {}
        for (name,) in con.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name").fetchall():
            if name.startswith("sqlite_"):
                continue
            out[name] = sorted(con.execute(f'SELECT * FROM "{name}"').fetchall(), key=repr)
        return out
    finally:
        con.close()


def version(path):
    con = sqlite3.connect(f"file:{path}?mode=ro", uri=True)
    try:
        return con.execute("PRAGMA user_version").fetchone()[0]
    finally:
        con.close()
