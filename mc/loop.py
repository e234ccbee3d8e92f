"""A deterministic asyncio event loop driven one callback at a time.

The ready queue keeps asyncio's FIFO order (that order is guaranteed by asyncio and is
not a source of nondeterminism).  What *is* nondeterministic in a real run is when
external events (packets, send results, cancellations, timers) are appended to that queue
relative to the callbacks already in it; the driver in `mc.world` chooses that.
"""
from __future__ import annotations

import asyncio
import asyncio.base_events
import asyncio.events
import heapq

from .clock import CLOCK


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class VLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self.errors = []
        self.set_exception_handler(self._on_error)
        self.steps = 0
        self.executor_gate = None

    # -- BaseEventLoop plumbing -------------------------------------------------------
    def time(self):
        return CLOCK.t

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        def run():
            if fut.cancelled():
                return
            try:
                res = func(*args)
            except BaseException as e:  # noqa: BLE001
                if not fut.done():
                    fut.set_exception(e)
            else:
                if not fut.done():
                    fut.set_result(res)

        self.call_soon(run)
        return fut

    async def shutdown_default_executor(self, timeout=None):
        pass

    def _on_error(self, loop, context):
        self.errors.append(context)

    # -- stepping ---------------------------------------------------------------------
    def ready_count(self):
        q = self._ready
        while q and q[0]._cancelled:
            q.popleft()
        return len(q)

    def run_one(self):
        """Run the first ready callback."""
        self.steps += 1
        handle = self._ready.popleft()
        if not handle._cancelled:
            handle._run()

    def next_timer(self):
        s = self._scheduled
        while s and s[0]._cancelled:
            h = heapq.heappop(s)
            h._scheduled = False
        return s[0]._when if s else None

    def fire_timers(self, upto=None):
        """Advance the virtual clock to the next timer and queue everything due."""
        when = self.next_timer()
        if when is None:
            return False
        if upto is not None and when > upto:
            return False
        if when > CLOCK.t:
            CLOCK.t = when
        self._queue_due()
        return True

    def advance_to(self, t):
        if t > CLOCK.t:
            CLOCK.t = t
        self._queue_due()

    def _queue_due(self):
        while True:
            when = self.next_timer()
            if when is None or when > CLOCK.t + 1e-9:
                return
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._ready.append(h)

    def activate(self):
        asyncio.events._set_running_loop(self)

    def deactivate(self):
        asyncio.events._set_running_loop(None)

    def drain(self, limit=100000):
        """Run until the ready queue is empty (virtual time does not move)."""
        n = 0
        while self.ready_count():
            self.run_one()
            n += 1
            if n > limit:
                raise StepLimit(f"{limit} callbacks without becoming idle")

    def run_idle(self, horizon=None, limit=200000):
        """Run ready callbacks and timers until nothing is left (or the horizon)."""
        n = 0
        while True:
            self.drain(limit)
            if not self.fire_timers(upto=horizon):
                return
            n += 1
            if n > limit:
                raise StepLimit("too many timers")

    def run(self, coro, horizon=None):
        """Run a coroutine to completion on the default schedule."""
        task = self.create_task(coro)
        n = 0
        while not task.done():
            if self.ready_count():
                self.run_one()
            elif not self.fire_timers(upto=horizon):
                task.cancel()
                self.drain()
                raise Deadlock("no runnable callback or timer but coroutine pending")
            n += 1
            if n > 2_000_000:
                raise StepLimit("coroutine did not finish")
        return task.result()

    def shutdown_tasks(self):
        """Cancel everything left over so the next execution starts clean."""
        for _ in range(10):
            tasks = [t for t in asyncio.all_tasks(self) if not t.done()]
            if not tasks:
                break
            for t in tasks:
                t.cancel()
            try:
                self.drain(20000)
            except StepLimit:
                break
        for t in asyncio.all_tasks(self):
            t._log_destroy_pending = False
        self._ready.clear()
        self._scheduled.clear()


class LoopCtx:
    """`with LoopCtx() as loop:` a fresh loop on a fresh clock."""

    def __init__(self, reset=True):
        self._reset = reset

    def __enter__(self):
        from . import clock

        if self._reset:
            clock.reset()
        self.loop = VLoop()
        self.loop.activate()
        asyncio.set_event_loop(self.loop)
        return self.loop

    def __exit__(self, *exc):
        try:
            self.loop.shutdown_tasks()
        finally:
            self.loop.deactivate()
            asyncio.set_event_loop(None)
            self.loop._closed = True
        return False
