"""C28: counters, all operation histories against a reference."""
from __future__ import annotations

import itertools

from zigpy.state import Counter, CounterGroup, CounterGroups, State

from ..explore import Violation, require

LEVEL = "model_checking"
VALIDATED = "the reference runs beside the real counter on every explored history and must agree after each step"
ASSUMPTIONS = ["increments are non-negative"]

OPS = [("inc", 0), ("inc", 1), ("inc", 3), ("upd", 0), ("upd", 2), ("upd", 5), ("upd", 9), ("reset", 0),
       ("rau", 4), ("rau", 1)]


def scenarios(tier, seed):
    th = tier == "thorough"
    out = []
    for init in (0, 4):
        for first in range(len(OPS)):
            out.append(dict(fn="single", kind="bulk", args=dict(init=init, first=first, depth=7 if th else 6)))
    for first in range(len(GOPS)):
        out.append(dict(fn="groups", kind="bulk", args=dict(first=first, depth=6 if th else 5)))
    out.append(dict(fn="collections", kind="bulk", args={}))
    return out


class RefCounter:
    """total = everything ever counted; pos = where the source stands."""

    def __init__(self, init=0):
        self.total = init
        self.pos = init
        self.restarts = 0

    def apply(self, op, v):
        if op == "inc":
            self.total += v
            self.pos += v
        elif op == "upd":
            if v >= self.pos:
                self.total += v - self.pos
            else:
                self.total += v
                self.restarts += 1
            self.pos = v
        elif op in ("reset", "rau"):
            self.total += v
            self.pos = v
            self.restarts += 1


def do(c, op, v):
    if op == "inc":
        c.increment() if v == 1 else c.increment(v)
    elif op == "upd":
        c.update(v)
    elif op == "reset":
        c.reset()
    else:
        c.reset_and_update(v)


def agree(c, r, hist):
    require(c.value == r.total and int(c) == r.total and c == r.total,
            f"counter is {c.value}, {r.total} was counted after {hist}", key="value", data=hist)
    require(c.reset_count == r.restarts, f"{c.reset_count} resets counted, {r.restarts} happened in {hist}",
            key="resets", data=hist)


def single(st, init, first, depth):
    for tail in itertools.product(OPS, repeat=depth - 1):
        hist = (OPS[first],) + tail
        c = Counter("c", init) if init else Counter("c")
        r = RefCounter(init)
        last = c.value
        for i, (op, v) in enumerate(hist):
            do(c, op, v)
            r.apply(op, v)
            if c.value != r.total or c.reset_count != r.restarts:
                agree(c, r, hist[: i + 1])
            require(c.value >= last, f"counter decreased after {hist[:i + 1]}", key="decreased")
            last = c.value
        agree(c, r, hist)
        require(str(c) == f"c = {r.total}", "text form disagrees", key="text")
        st.executions += 1
        st.transitions += depth
        st.states.add((r.total, r.pos, r.restarts))
        st.outcomes.add(r.total)
    st.maxlen = depth


try:
    Counter("c").increment(-1)
    NEG = False
except Exception:  # noqa: BLE001
    NEG = True

GOPS = [("tag", "a", ("t1",)), ("tag", "a", ("t2",)), ("tag", "b", ("t1",)), ("tag", "a", ("t1", "u1")),
        ("tag", "b", ("t1", "u1")), ("tag", "a", ("t2", "u1", "v1")),
        ("c", "a", ("inc", 1)), ("c", "b", ("inc", 2)), ("c", "a", ("upd", 3)), ("c", "a", ("upd", 1)),
        ("reset",), ("creset", "a")]


def groups(st, first, depth):
    for tail in itertools.product(GOPS, repeat=depth - 1):
        hist = (GOPS[first],) + tail
        g = CounterGroup("g")
        ref = {}  # path (tags..., name) -> RefCounter

        def rc(path):
            return ref.setdefault(path, RefCounter())

        for op in hist:
            if op[0] == "tag":
                g.increment(op[1], *op[2])
                for n in range(1, len(op[2]) + 1):
                    rc(op[2][:n] + (op[1],)).apply("inc", 1)
            elif op[0] == "c":
                do(g[op[1]], *op[2])
                rc((op[1],)).apply(*op[2])
            elif op[0] == "reset":
                g.reset()
                for r in ref.values():
                    r.apply("reset", 0)
            else:
                g[op[1]].reset()
                rc((op[1],)).apply("reset", 0)
        seen = {}
        walk(g, (), seen)
        require(set(seen) == set(ref), f"counters {sorted(seen)} exist, expected {sorted(ref)} after {hist}",
                key="group-members", data=hist)
        for path, c in seen.items():
            r = ref[path]
            require(c.value == r.total and c.reset_count == r.restarts,
                    f"counter {path} is {c.value}/{c.reset_count}, expected {r.total}/{r.restarts} after {hist}",
                    key="group-value", data=hist)
        require(sorted(g.tags()) == sorted({p[0] for p in ref if len(p) > 1}), "tags disagree", key="tags")
        st.executions += 1
        st.transitions += depth
        s = tuple(sorted((p, r.total, r.restarts) for p, r in ref.items()))
        st.states.add(hash(s))
        st.outcomes.add(hash(s))


def walk(g, path, out):
    for c in g.counters():
        out[path + (c.name,)] = c
    for sub in g.groups():
        walk(sub, path + (sub.name,), out)


def collections(st):
    for hist in itertools.product([("x", "a"), ("x", "b"), ("y", "a"), "rx"], repeat=5):
        gs = CounterGroups()
        ref = {}
        for h in hist:
            if h == "rx":
                gs["x"].reset()
                ref.setdefault("x", {})
            else:
                gs[h[0]][h[1]].increment()
                ref.setdefault(h[0], {}).setdefault(h[1], 0)
                ref[h[0]][h[1]] += 1
        got = {g.name: {c.name: c.value for c in g.counters()} for g in gs}
        require(got == ref, f"groups {got}, expected {ref}", key="groups", data=hist)
        st.executions += 1
        st.outcomes.add(hash(repr(ref)))
    s = State()
    s.counters["r"]["c"].increment()
    require(all(len(list(getattr(s, n))) == (1 if n == "counters" else 0)
                for n in ("counters", "broadcast_counters", "device_counters", "group_counters")),
            "the counter collections share groups", key="shared")
    require(NEG, "a negative increment was accepted", key="negative")
    t = State()
    require(not list(t.counters), "two states share counters", key="shared")
