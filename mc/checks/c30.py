"""C30: the re-schedulable timeout, all histories against a reference."""
from __future__ import annotations

import itertools

from zigpy.datastructures import ReschedulableTimeout

from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx

LEVEL = "model_checking"
VALIDATED = "the reference deadline runs beside the real timer on every explored history and must agree at every step"
ASSUMPTIONS = ["no event falls exactly on a deadline unless it is the deadline's own firing"]

DELAYS = (0.53, 1.31, 3.17)
STEPS = (0.2, 0.7, 2.9)
OPS = [("arm", d) for d in DELAYS] + [("step", d) for d in STEPS] + [("cancel", 0)]


def scenarios(tier, seed):
    th = tier == "thorough"
    out = []
    for first in itertools.product(range(len(OPS)), repeat=1):
        for inner in (None, "rearm", "cancel"):
            depth = 8 if th else 7
            out.append(dict(fn="run", kind="bulk", args=dict(first=first, depth=depth, inner=inner)))
    return out


def run(st, first, depth, inner):
    head = tuple(OPS[i] for i in first)
    for tail in itertools.product(OPS, repeat=depth - len(head)):
        one(st, head + tail, inner)
    st.maxlen = max(st.maxlen, depth)


def one(st, hist, inner):
    with LoopCtx() as loop:
        fired = []
        want = []
        deadline = None
        budget = [1]

        def cb():
            fired.append(round(CLOCK.t, 6))
            if inner == "rearm" and budget[0]:
                budget[0] -= 1
                timer.reschedule(1.13)
            elif inner == "cancel":
                timer.cancel()

        timer = ReschedulableTimeout(cb)
        refbudget = 1

        def advance(dt):
            nonlocal deadline, refbudget
            end = CLOCK.t + dt
            while deadline is not None and deadline <= end + 1e-9:
                want.append(round(deadline, 6))
                if inner == "rearm" and refbudget:
                    refbudget -= 1
                    deadline = deadline + 1.13
                else:
                    deadline = None
            while True:
                nxt = loop.next_timer()
                if nxt is None or nxt > end:
                    break
                loop.fire_timers()
                loop.drain()
            loop.advance_to(end)
            loop.drain()

        for i, (op, v) in enumerate(hist):
            if op == "arm":
                timer.reschedule(v)
                deadline = CLOCK.t + v
            elif op == "cancel":
                timer.cancel()
                deadline = None
            else:
                advance(v)
            if fired != want:
                raise Violation(f"fired at {fired}, expected {want} after {hist[:i + 1]}",
                                key="late-or-lost" if len(fired) < len(want) else "spurious", data=hist)
            st.states.add((op, None if deadline is None else round(deadline - CLOCK.t, 3), len(fired)))
        advance(20)
        require(fired == want, f"fired at {fired}, expected {want} after {hist} and a long wait",
                key="late-or-lost" if len(fired) < len(want) else "spurious", data=hist)
        require(not loop.errors, f"error in the loop {loop.errors}", key="loop-error")
    st.executions += 1
    st.transitions += len(hist)
    st.outcomes.add(tuple(want))
