"""C01: the request limiter, every interleaving of its users."""
from __future__ import annotations

import itertools

from zigpy.datastructures import PriorityDynamicBoundedSemaphore, PriorityLock

from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import Driver, Ev

LEVEL = "model_checking"
VALIDATED = ("no separate model: every explored trace is an execution of the real semaphore, "
             "compared step by step with a reference queue")
ASSUMPTIONS = ["asyncio runs ready callbacks in FIFO order",
               "tasks release only what they acquired"]


def scenarios(tier, seed):
    out = []
    thorough = tier == "thorough"
    bound = 3 if thorough else 2
    # tasks x priorities x initial limit; (cancels, limit changes) allowed
    for n in (2, 3):
        for prios in itertools.product((0, 1), repeat=n):
            for limit in (1, 2):
                if limit >= n:
                    continue
                for kind in ("cm", "raw") if thorough or n == 2 else ("cm",):
                    out.append(dict(fn="run", bound=bound, split=True, args=dict(
                        prios=prios, limit=limit, cancels=2, limits=(), kind=kind)))
                out.append(dict(fn="run", bound=bound, split=True, args=dict(
                    prios=prios, limit=limit, cancels=1, limits=(limit + 1, limit - 1, limit), kind="cm")))
    for prios in ((0, 0, 0), (1, 0, 1), (0, 1, 2), (-1, 0, -1)):
        out.append(dict(fn="run", bound=bound, split=True, args=dict(
            prios=prios, limit=0, cancels=1, limits=(1, 0, 3), kind="cm")))
        out.append(dict(fn="run", bound=bound, split=True, args=dict(
            prios=prios, limit=1, cancels=2, limits=(), kind="lock")))
    four = [(0, 0, 0, 0), (0, 1, 0, 1), (0, -1, 1, 2)]
    if thorough:
        four = list(itertools.product((0, 1), repeat=4)) + [(0, -1, 1, 2), (2, 1, 0, -1), (0, 1, 2, 1)]
    for prios in four:
        for limit in (1, 2) if thorough else (1,):
            out.append(dict(fn="run", bound=bound if thorough else 2, split=True, args=dict(
                prios=prios, limit=limit, cancels=2, limits=(limit + 1,), kind="cm")))
    return out


def run(ch, prios, limit, cancels, limits, kind):
    with LoopCtx() as loop:
        sem = PriorityLock() if kind == "lock" else PriorityDynamicBoundedSemaphore(limit)
        st = Sys(loop, sem, prios, limit, cancels, list(limits), kind)
        d = Driver(loop, ch, st.events, on_idle=st.check_idle, state=st.state, max_steps=3000)
        d.run()
        st.finish()
        return tuple(st.log)


class Sys:
    def __init__(self, loop, sem, prios, limit, cancels, limits, kind):
        self.loop, self.sem, self.prios, self.kind = loop, sem, prios, kind
        self.limit = self.burst_limit = limit
        self.cancels = cancels
        self.limits = limits
        self.n = len(prios)
        self.started = 0
        self.tasks = [None] * self.n
        self.waiting = []  # (i, arrival) in arrival order
        self.settled = set()  # waiting at the last idle moment
        self.holders = []
        self.gates = [None] * self.n
        self.released = set()
        self.cancelled = set()
        self.log = []
        self.debts = []

    # -- the client ----------------------------------------------------------------
    async def client(self, i):
        self.waiting.append(i)
        try:
            if self.kind == "raw":
                await self.sem.acquire(priority=self.prios[i])
                self.admitted(i)
                try:
                    await self.gates[i]
                finally:
                    self.dropping(i)
                    self.sem.release()
            else:
                async with self.sem(priority=self.prios[i]):
                    self.admitted(i)
                    try:
                        await self.gates[i]
                    finally:
                        self.dropping(i)
        finally:
            if i in self.waiting:
                self.waiting.remove(i)
                self.log.append(f"x{i}")

    def admitted(self, i):
        self.log.append(f"a{i}")
        # a slot granted just before a reduction may be taken up just after it
        require(len(self.holders) < self.burst_limit,
                f"task {i} admitted while {len(self.holders)} of {self.limit} slots were taken",
                key="over-admission")
        p = self.prios[i]
        pos = self.waiting.index(i)
        for j in self.waiting[:pos]:
            if j in self.cancelled:
                continue
            if self.prios[j] >= p:
                self.debts.append((i, j))
        for j in self.waiting[pos + 1:]:
            if j in self.settled and j not in self.cancelled and i in self.settled:
                require(self.prios[j] <= p,
                        f"task {i} (priority {p}) admitted before settled task {j} (priority {self.prios[j]})",
                        key="priority-order")
        self.waiting.remove(i)
        self.holders.append(i)

    def dropping(self, i):
        self.log.append(f"r{i}")
        self.holders.remove(i)

    # -- the environment -------------------------------------------------------------
    def state(self):
        return (self.limit, self.started, tuple(self.waiting), tuple(self.holders),
                tuple(sorted(self.cancelled)), tuple(sorted(self.released)), self.sem.value)

    def events(self):
        ev = []
        if self.started < self.n:
            ev.append(Ev(f"start{self.started}", self.start(self.started), direct=True))
        for i in list(self.holders):
            if i not in self.released:
                ev.append(Ev(f"release{i}", self.release(i), direct=True))
        if self.cancels > 0:
            for i in range(self.started):
                t = self.tasks[i]
                if t is not None and not t.done() and i not in self.cancelled:
                    ev.append(Ev(f"cancel{i}", self.cancel(i), idle=1, direct=True))
        if self.limits:
            v = self.limits[0]
            ev.append(Ev(f"limit{v}", self.setlimit(v), idle=1, direct=True))
        return ev

    def start(self, i):
        def f():
            self.started += 1
            self.gates[i] = self.loop.create_future()
            self.tasks[i] = self.loop.create_task(self.client(i))
            self.log.append(f"s{i}")
        return f

    def release(self, i):
        def f():
            self.released.add(i)

            def go():
                if not self.gates[i].done():
                    self.gates[i].set_result(None)
            self.loop.call_soon(go)
        return f

    def cancel(self, i):
        def f():
            self.cancels -= 1

            def go():
                if not self.tasks[i].done():
                    self.cancelled.add(i)
                    self.log.append(f"c{i}")
                    self.tasks[i].cancel()
            self.loop.call_soon(go)
        return f

    def setlimit(self, v):
        def f():
            self.limits.pop(0)

            def go():
                self.limit = v
                self.burst_limit = max(self.burst_limit, v)
                self.log.append(f"l{v}")
                self.sem.max_value = v
            self.loop.call_soon(go)
        return f

    # -- the oracle ---------------------------------------------------------------------
    def check_idle(self):
        # the older waiter may merely resume later within the same burst, with its own slot
        for i, j in self.debts:
            require(j not in self.waiting,
                    f"task {i} (priority {self.prios[i]}) overtook task {j} "
                    f"(priority {self.prios[j]}) that was waiting longer", key="overtaken")
        self.debts.clear()
        self.settled = set(self.waiting)
        self.burst_limit = self.limit
        free = self.limit - len(self.holders)
        require(not (free > 0 and self.waiting),
                f"idle with {free} free slots while tasks {self.waiting} wait", key="lost-wakeup")
        require(self.sem.value == free,
                f"limiter reports {self.sem.value} free slots, {free} are", key="leaked-slot")
        require(self.sem.locked() == (free <= 0), "locked() disagrees with the number of holders",
                key="locked")
        require(self.sem.max_value == self.limit, "limit not applied", key="limit")

    def finish(self):
        loop, sem = self.loop, self.sem
        # whatever is still waiting must get through once there is room
        if self.kind != "lock":
            self.limit = self.burst_limit = max(self.limit, 1)
            if sem.max_value != self.limit:
                sem.max_value = self.limit
        for _ in range(3 * self.n + 3):
            loop.drain()
            self.check_idle()
            if not self.holders:
                break
            i = self.holders[0]
            if not self.gates[i].done():
                self.gates[i].set_result(None)
        loop.drain()
        self.check_idle()
        for i, t in enumerate(self.tasks):
            if t is None:
                continue
            require(t.done(), f"task {i} never finished", key="lost-wakeup")
            if t.cancelled():
                require(i in self.cancelled, f"task {i} was cancelled by nobody", key="spurious-cancel")
            elif t.exception() is not None:
                e = t.exception()
                if isinstance(e, Violation):
                    raise e
                raise e
        require(not self.holders and not self.waiting, "tasks left behind", key="left-behind")
        require(sem.value == self.limit, f"{sem.value} of {self.limit} slots free after everyone left",
                key="leaked-slot")
        # the limiter must still be usable by somebody new
        if self.limit > 0:
            probe = loop.create_task(sem.acquire())
            loop.drain()
            require(probe.done() and probe.exception() is None,
                    "a new request cannot acquire the idle limiter", key="dead-limiter")
            sem.release()
        try:
            sem.release()
        except ValueError:
            pass
        else:
            raise Violation("releasing more than was acquired is accepted", key="over-release")
        require(sem.value == self.limit, "refused release changed the number of slots", key="leaked-slot")
        if self.kind == "lock":
            try:
                sem.max_value = 2
            except ValueError:
                pass
            else:
                raise Violation("the limit of a lock can be changed", key="lock-limit")
        else:
            try:
                sem.max_value = -1
            except ValueError:
                pass
            else:
                raise Violation("negative limit accepted", key="negative-limit")
        for e in loop.errors:
            raise Violation(f"error in the event loop: {e}", key="loop-error")
