"""Stateless DFS over choice sequences with an iterated deviation bound, and BFS helper."""
from __future__ import annotations

from dataclasses import dataclass, field


class Violation(Exception):
    """The property does not hold on this execution.

    `key` is a short stable signature used to match entries of KNOWN_FINDINGS.
    """

    def __init__(self, message, key=None, data=None):
        super().__init__(message)
        self.key = key or message
        self.data = data


class Divergence(Exception):
    """Replaying a recorded prefix took a different path: a harness bug, never a verdict."""


def require(cond, message, key=None, data=None):
    if not cond:
        raise Violation(message, key=key, data=data)


class Chooser:
    """Answers the choice points of one execution from a prefix, then with choice 0."""

    def __init__(self, prefix=(), labels=None, cost_bound=None):
        self.prefix = list(prefix)
        self.expect = labels  # labels recorded when the prefix was created
        self.points = []  # (n, chosen, costs, labels)
        self.cost = 0
        self.states = set()

    def note(self, state):
        """Record an abstract state of the system (for the coverage report only)."""
        self.states.add(hash(repr(state)))

    def choose(self, options, costs=None, what=""):
        """options: a list of labels (or an int); returns the chosen index."""
        if isinstance(options, int):
            options = tuple(range(options))
        else:
            options = tuple(options)
        n = len(options)
        assert n > 0
        i = len(self.points)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence(f"point {i} ({what}): choice {c} of {n}")
            if self.expect is not None and i < len(self.expect):
                if self.expect[i] != (what, options):
                    raise Divergence(
                        f"point {i}: recorded {self.expect[i]!r}, now {(what, options)!r}"
                    )
        else:
            c = 0
        if costs is None:
            costs = (0,) + (1,) * (n - 1)
        self.cost += costs[c]
        self.points.append((n, c, tuple(costs), (what, options)))
        return c

    def pick(self, options, costs=None, what=""):
        options = list(options)
        return options[self.choose([str(o) for o in options], costs, what)]

    @property
    def choices(self):
        return [p[1] for p in self.points]

    def trace(self):
        return [f"{p[3][0]}={p[3][1][p[1]]}" for p in self.points]


@dataclass
class Stats:
    executions: int = 0
    points: int = 0
    transitions: int = 0
    maxlen: int = 0
    outcomes: set = field(default_factory=set)
    states: set = field(default_factory=set)
    capped: bool = False
    samples: list = field(default_factory=list)
    violations: list = field(default_factory=list)
    extra: dict = field(default_factory=dict)

    def merge(self, o: "Stats"):
        self.executions += o.executions
        self.points += o.points
        self.transitions += o.transitions
        self.maxlen = max(self.maxlen, o.maxlen)
        self.outcomes |= o.outcomes
        self.states |= o.states
        self.capped |= o.capped
        if len(self.samples) < 6:
            self.samples += o.samples[:2]
        self.violations += o.violations
        for k, v in o.extra.items():
            if isinstance(v, (int, float)):
                self.extra[k] = self.extra.get(k, 0) + v
            else:
                self.extra.setdefault(k, v)


def explore(run, bound, stats=None, roots=((),), limit=None, stop_after=1, scenario=None,
            deadline=None, split=False):
    """Run `run(chooser)` for every choice sequence with total deviation cost <= bound.

    `run` returns a hashable observation (counted as an outcome) or raises Violation.
    With split=True only the first execution is run and its children are returned.
    """
    from .clock import real_perf

    st = stats or Stats()
    stack = [(tuple(p), None) if not isinstance(p, tuple) or not p or not isinstance(p[0], (list, tuple))
             else p for p in roots]
    children = []
    while stack:
        prefix, labels = stack.pop()
        ch = Chooser(prefix, labels)
        try:
            obs = run(ch)
            err = None
        except Violation as v:
            err = v
            obs = ("violation", v.key)
        st.executions += 1
        st.points += len(ch.points)
        st.transitions += len(ch.points) + 1
        st.maxlen = max(st.maxlen, len(ch.points))
        st.outcomes.add(_h(obs))
        st.states |= ch.states
        if len(ch.points) < len(prefix):
            raise Divergence(f"prefix {prefix} not consumed ({len(ch.points)} points)")
        if len(st.samples) < 2 or (len(st.samples) < 4 and len(prefix) and ch.cost > 1):
            st.samples.append({"scenario": scenario, "choices": ch.choices,
                               "trace": ch.trace()[:60], "observation": repr(obs)[:300]})
        if err is not None:
            st.violations.append({"scenario": scenario, "choices": ch.choices,
                                  "key": err.key, "message": str(err),
                                  "trace": ch.trace(), "data": repr(err.data)[:2000]})
            if len(st.violations) >= stop_after:
                return (st, []) if split else st
        base = 0
        new = []
        lab = [p[3] for p in ch.points]
        for i, (n, c, costs, l) in enumerate(ch.points):
            if i >= len(prefix):
                for alt in range(n):
                    if alt == c:
                        continue
                    if base + costs[alt] > bound:
                        continue
                    new.append((tuple(ch.choices[:i]) + (alt,), lab[: i + 1]))
            base += costs[c]
        if split:
            children.extend(new)
        else:
            stack.extend(reversed(new))
        if limit and st.executions >= limit:
            st.capped = bool(stack)
            break
        if deadline and real_perf() > deadline:
            st.capped = bool(stack)
            break
    # the label of the changed point itself may differ only in choice, so keep all labels
    return (st, children) if split else st


def _h(obs):
    try:
        return hash(repr(obs))
    except Exception:  # noqa: BLE001
        return 0
