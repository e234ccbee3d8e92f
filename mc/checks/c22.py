"""C22: retry and combining helpers, all outcomes and interleavings."""
from __future__ import annotations

import asyncio
import itertools

import zigpy.exceptions
from zigpy.util import combine_concurrent_calls, retry, retryable, retryable_request

from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import Driver, Ev

LEVEL = "model_checking"
VALIDATED = "every explored trace is an execution of the real helpers on a controlled event loop"
ASSUMPTIONS = ["asyncio runs ready callbacks in FIFO order"]


class Listed(Exception):
    pass


class SubListed(Listed):
    pass


class Other(Exception):
    pass


def scenarios(tier, seed):
    th = tier == "thorough"
    out = []
    for form in ("retry", "retryable", "request"):
        for tries in (1, 2, 3, 4) + ((5, 6) if th else ()):
            out.append(dict(fn="retries", kind="bulk", args=dict(form=form, tries=tries)))
        out.append(dict(fn="retry_cancel", bound=2, args=dict(form=form, tries=3)))
    out.append(dict(fn="retry_shared", kind="bulk", args={}))
    for n in (2, 3) + ((4,) if th else ()):
        for keys in sorted({canon(k) for k in itertools.product(range(2), repeat=n)}):
            for outcome in ("ok", "error"):
                out.append(dict(fn="combine", bound=(4 if th else 3) if n == 3 else (3 if n == 4 else 6), split=True, args=dict(
                    keys=keys, outcome=outcome, cancels=2)))
    out.append(dict(fn="combine_args", kind="bulk", args={}))
    return out


def canon(k):
    m = {}
    return tuple(m.setdefault(x, len(m)) for x in k)


# -- retries -----------------------------------------------------------------------------
def kinds(form):
    if form == "request":
        return {
            "ok": None,
            "listed": lambda n: zigpy.exceptions.DeliveryError(f"d{n}"),
            "sub": lambda n: zigpy.exceptions.InvalidResponse(f"i{n}"),
            "timeout": lambda n: asyncio.TimeoutError(f"t{n}"),
            "other": lambda n: Other(f"o{n}"),
        }
    return {
        "ok": None,
        "listed": lambda n: Listed(f"l{n}"),
        "sub": lambda n: SubListed(f"s{n}"),
        "timeout": lambda n: ValueError(f"v{n}"),
        "other": lambda n: Other(f"o{n}"),
    }


def build(form, tries, delay, func):
    if form == "retry":
        return lambda *a, **k: retry(lambda: func(*a, **k), (Listed, ValueError), tries=tries, delay=delay)
    if form == "retryable":
        return retryable((Listed, ValueError), tries=tries, delay=delay)(func)
    return retryable_request(tries=tries, delay=delay)(func)


def expected(seq, tries):
    """(attempts, outcome index)"""
    for n in range(1, tries + 1):
        k = seq[n - 1]
        if k in ("ok", "other") or n == tries:
            return n


def retries(st, form, tries):
    table = kinds(form)
    for delay in (0.0, 0.3, 5.0):
        for dur in (0.0, 1.5):
            for seq in itertools.product(table, repeat=tries):
                with LoopCtx() as loop:
                    calls, errors = [], []

                    async def func(a, *, b):
                        assert (a, b) == (1, 2)
                        n = len(calls)
                        calls.append(CLOCK.t)
                        if dur:
                            await asyncio.sleep(dur)
                        mk = table[seq[n]] if n < len(seq) else None
                        if mk is None:
                            return f"result{n}"
                        errors.append(mk(n))
                        raise errors[-1]

                    t0 = CLOCK.t
                    try:
                        res = ("ok", loop.run(build(form, tries, delay, func)(1, b=2)))
                    except Exception as e:  # noqa: BLE001
                        if not errors or e is not errors[-1]:
                            raise
                        res = ("error", len(errors) - 1)
                    n = expected(seq, tries)
                    require(len(calls) == n, f"{len(calls)} attempts instead of {n} for {seq[:n + 1]}, limit {tries}",
                            key="attempts", data=seq)
                    want = ("ok", f"result{n - 1}") if seq[n - 1] == "ok" else ("error", n - 1)
                    require(res == want, f"finished with {res}, expected {want} for {seq}", key="result")
                    for i, c in enumerate(calls):
                        require(abs(c - (t0 + i * (dur + delay))) < 1e-6,
                                f"attempt {i} at +{c - t0:.2f}s, expected +{i * (dur + delay):.2f}s", key="delay")
                    require(abs(CLOCK.t - (t0 + n * dur + (n - 1) * delay)) < 1e-6, "extra wait at the end", key="delay")
                st.executions += 1
                st.transitions += n
                st.outcomes.add(hash((seq[:n], tries, delay, dur)))
    st.maxlen = max(st.maxlen, tries)


def retry_shared(st):
    """A decorated function keeps its attempt limit from call to call and between callers."""
    for tries, ncalls in itertools.product((2, 3), (2, 3)):
        for seq in itertools.product(range(tries + 1), repeat=ncalls):
            for concurrent in (False, True):
                with LoopCtx() as loop:
                    count = {}

                    @retryable((Listed,), tries=tries, delay=0.2)
                    async def func(i):
                        count[i] = count.get(i, 0) + 1
                        await asyncio.sleep(0.1)
                        if count[i] <= seq[i]:
                            raise Listed(i)
                        return i

                    async def main():
                        if concurrent:
                            return await asyncio.gather(*[func(i) for i in range(ncalls)], return_exceptions=True)
                        out = []
                        for i in range(ncalls):
                            try:
                                out.append(await func(i))
                            except Listed as e:
                                out.append(e)
                        return out

                    res = loop.run(main())
                    for i in range(ncalls):
                        want_n = min(seq[i] + 1, tries)
                        require(count[i] == want_n, f"call {i}: {count[i]} attempts, expected {want_n}", key="attempts")
                        require((res[i] == i) == (seq[i] < tries), f"call {i} ended with {res[i]!r}", key="result")
                st.executions += 1
                st.outcomes.add(hash((tries, seq, concurrent)))


def retry_cancel(ch, form, tries):
    table = kinds(form)
    with LoopCtx() as loop:
        calls = []
        inside = [0]

        async def func():
            n = len(calls)
            calls.append(CLOCK.t)
            inside[0] += 1
            try:
                await asyncio.sleep(1)
            finally:
                inside[0] -= 1
            mk = table[ch.pick(["listed", "ok", "sub", "timeout", "other"], [0] * 5, "outcome")]
            if mk is None:
                return "ok"
            raise mk(n)

        task = None
        state = dict(cancelled=None)

        def cancel():
            if not task.done():
                state["cancelled"] = len(calls)
                task.cancel()

        def events():
            if state["cancelled"] is None and not task.done():
                return [Ev("cancel", cancel, idle=1, direct=True)]
            return []

        async def main():
            return await build(form, tries, 0.5, func)()

        task = loop.create_task(main())
        Driver(loop, ch, events, idle_first="time").run()
        require(task.done(), "retry never ended", key="hang")
        require(inside[0] == 0, "an attempt is still running", key="running")
        if state["cancelled"] is not None and len(calls) > state["cancelled"]:
            # cancellation before the first step is the only one that may see no attempt
            raise Violation("another attempt was made after cancellation", key="cancel")
        if state["cancelled"] is not None:
            # an attempt that had already finished may still deliver its outcome
            require(task.cancelled(), "cancellation did not end the retries", key="cancel")
        require(not loop.errors, f"error in the loop {loop.errors}", key="loop-error")
        return (len(calls), task.cancelled(), state["cancelled"])


# -- combining ---------------------------------------------------------------------------
def combine(ch, keys, outcome, cancels):
    with LoopCtx() as loop:
        n = len(keys)
        runs = []  # [key, future, state]

        class Boom(Exception):
            pass

        @combine_concurrent_calls
        async def op(key, extra=None):
            run = dict(key=key, fut=loop.create_future(), over=False, no=len(runs), cancelled=False)
            runs.append(run)
            active = [r for r in runs if r["key"] == key and not r["over"]]
            require(len(active) == 1, f"operation {key} runs {len(active)} times at once", key="twice")
            try:
                return await run["fut"]
            except asyncio.CancelledError:
                run["cancelled"] = True
                raise
            finally:
                run["over"] = True

        tasks = [None] * n
        started = [0]
        cancelled = set()
        live = {}
        results = {}
        stale = []
        budget = [cancels]

        async def client(i):
            # the runs this caller may legitimately share: those not over when it called
            first = len(runs)
            live[i] = [r["no"] for r in runs if r["key"] == keys[i] and not r["over"]]
            require(len(live[i]) <= 1, "several runs alive", key="twice")
            try:
                results[i] = ("ok", await op(keys[i]))
            except Boom as e:
                results[i] = ("error", e.args[0])
            if results[i][1][2] not in live[i] and results[i][1][2] < first:
                stale.append((i, results[i][1]))

        def start(i):
            def f():
                started[0] += 1
                tasks[i] = loop.create_task(client(i))
            return f

        def cancel(i):
            def f():
                budget[0] -= 1

                def go():
                    if not tasks[i].done():
                        cancelled.add(i)
                        tasks[i].cancel()
                loop.call_soon(go)
            return f

        def finish(run):
            def f():
                run["asked"] = True

                def go():
                    if not run["fut"].done():
                        if outcome == "ok":
                            run["fut"].set_result(("value", run["key"], run["no"]))
                        else:
                            run["fut"].set_exception(Boom(("value", run["key"], run["no"])))
                loop.call_soon(go)
            return f

        def events():
            ev = []
            if started[0] < n:
                ev.append(Ev(f"call{started[0]}", start(started[0]), direct=True))
            for r in runs:
                if not r["over"] and not r.get("asked"):
                    ev.append(Ev(f"finish{r['no']}", finish(r), direct=True))
            if budget[0]:
                for i in range(started[0]):
                    if not tasks[i].done() and i not in cancelled:
                        ev.append(Ev(f"cancel{i}", cancel(i), idle=1, direct=True))
            return ev

        Driver(loop, ch, events, state=lambda: (started[0], tuple((r["key"], r["over"]) for r in runs),
                                                tuple(sorted(cancelled)), tuple(sorted(results)))).run()
        for i in range(n):
            require(tasks[i].done(), f"caller {i} never finished", key="hang")
            if tasks[i].cancelled():
                require(i in cancelled, f"caller {i} was cancelled by another caller's cancellation",
                        key="cancel-spreads")
                continue
            exc = tasks[i].exception()
            if exc is not None:
                raise exc
            kind, (_, key, no) = results[i]
            require(kind == outcome, f"caller {i} got {kind}", key="result")
            require(key == keys[i], f"caller {i} asked for {keys[i]} and got {key}", key="wrong-args")
        require(not stale, f"callers were given the outcome of a run that was over before they called: {stale}", key="stale")
        for r in runs:
            require(r["over"], "an operation is still running with nobody waiting", key="leaked")
        # started afresh when called later, on a fresh call
        before = len(runs)
        late = loop.create_task(op(keys[0]))
        loop.drain()
        require(len(runs) == before + 1, "a later call reuses an old result or run", key="stale")
        runs[-1]["fut"].set_result(("value", keys[0], "late"))
        loop.drain()
        require(late.done() and late.result() == ("value", keys[0], "late"), "later call failed", key="stale")
        # two callers alive together never cause two runs unless the first run was over
        return (tuple(sorted(results.items())), tuple(sorted(cancelled)), len(runs))


def combine_args(st):
    """Equal arguments however written are one run; different arguments are different runs."""
    forms = [
        ((1, 2), {}), ((1,), {"b": 2}), ((), {"a": 1, "b": 2}), ((), {"b": 2, "a": 1}), ((1,), {}), ((1, None), {}),
        ((), {"a": 1}), ((2, 1), {}), ((2,), {}), ((None, 1), {}), (("1", 2), {}), ((1, 2, 3), {}), ((1, 2), {"c": 3}),
        ((1, 3), {"c": 2}),
    ]

    # a parameter that can only be given by name counts as well
    for a, b in itertools.product((None, 1, 2), repeat=2):
        with LoopCtx() as loop:
            runs = []

            @combine_concurrent_calls
            async def named(x, *, by=None):
                runs.append(by)
                await asyncio.sleep(1)
                return by

            async def both():
                return await asyncio.gather(*[named(0, **({} if v is None else {"by": v})) for v in (a, b)])

            res = loop.run(both())
            require(res == [a, b] and len(runs) == len({a, b}), f"by={a} and by={b} together: results {res}, runs {runs}", key="wrong-args")
        st.executions += 1

    def norm(a, k):
        d = dict(zip(("a", "b", "c"), a))
        d.update(k)
        return (d.get("a"), d.get("b"), d.get("c"))

    for pair in itertools.product(forms, repeat=2):
        with LoopCtx() as loop:
            runs = []

            @combine_concurrent_calls
            async def op(a, b=None, c=None):
                runs.append((a, b, c))
                await asyncio.sleep(1)
                return (a, b, c)

            @combine_concurrent_calls
            async def other(a, b=None, c=None):
                runs.append("other")
                await asyncio.sleep(1)
                return "other"

            async def main():
                return await asyncio.gather(*[op(*a, **k) for a, k in pair], other(*pair[0][0], **pair[0][1]))

            res = loop.run(main())
            want = [norm(*f) for f in pair]
            require(res == want + ["other"], f"results {res} for {pair}", key="wrong-args")
            require(len(runs) == len(set(want)) + 1, f"{len(runs)} runs for {pair}", key="twice" if len(runs) > len(set(want)) + 1 else "wrong-args")
        st.executions += 1
        st.outcomes.add(hash(repr(pair)))
