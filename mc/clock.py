"""Virtual time.  Must be imported (and installed) before zigpy.

Every clock the implementation can read (time.time, time.monotonic, datetime.now, the
event loop's clock) is derived from one number that only the explorer advances.
"""
import datetime as _dt
import time as _time

EPOCH = 1_700_000_000.0
BASE = 1000.0


class _Clock:
    t = BASE


CLOCK = _Clock()

real_time = _time.time
real_monotonic = _time.monotonic
real_perf = _time.perf_counter

_real_datetime = _dt.datetime


def vtime() -> float:
    return EPOCH + CLOCK.t


def vmono() -> float:
    return CLOCK.t


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime)


class VDateTime(_real_datetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(vtime(), tz)

    @classmethod
    def utcnow(cls):
        return _real_datetime.fromtimestamp(vtime(), _dt.timezone.utc).replace(
            tzinfo=None
        )

    @classmethod
    def today(cls):
        return _real_datetime.fromtimestamp(vtime())

    @classmethod
    def fromtimestamp(cls, ts, tz=None):
        return _real_datetime.fromtimestamp(ts, tz)

    @classmethod
    def fromisoformat(cls, s):
        return _real_datetime.fromisoformat(s)

    @classmethod
    def strptime(cls, s, f):
        return _real_datetime.strptime(s, f)

    def __new__(cls, *a, **k):
        return _real_datetime(*a, **k)


_installed = False


def install():
    """Replace the process-wide clocks while zigpy is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    # third-party modules which subclass datetime must see the real thing
    import sqlite3, json, logging, asyncio  # noqa: F401,E401
    import voluptuous, jsonschema, attrs, aiohttp, aiosqlite  # noqa: F401,E401

    # process-pool plumbing keeps the real clock
    import concurrent.futures.process  # noqa: F401
    import multiprocessing.connection
    import subprocess  # noqa: F401
    import types

    multiprocessing.connection.time = types.SimpleNamespace(**vars(_time))

    _dt.datetime = VDateTime
    _time.time = vtime
    _time.monotonic = vmono


def reset(t: float = BASE):
    CLOCK.t = t
