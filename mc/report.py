"""Running a check: worker pool, known findings, evidence file, replay files."""
from __future__ import annotations

import collections
import concurrent.futures as cf
import importlib
import json
import linecache
import multiprocessing as mp
import os
import pathlib
import sys
import traceback

from . import clock
from .explore import Chooser, Divergence, Stats, Violation, explore

ROOT = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / "evidence"
REPLAYS = ROOT / "replays"
KNOWN = ROOT / "KNOWN_FINDINGS.txt"

_CHECK = None  # the check module, inherited by forked workers


class HarnessError(Exception):
    pass


def load_known(prop):
    """Lines `finding: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing."""
    out = {}
    if not KNOWN.exists():
        return out
    for line in KNOWN.read_text().splitlines():
        line = line.strip()
        if not line.startswith("finding: "):
            continue
        rest = line[len("finding: "):]
        p, k, what = rest.split(" ", 2)
        if p == f"property={prop}":
            assert k.startswith("key=")
            out[k[4:]] = what
    return out


def classify_exception(exc):
    """Turn an unexpected exception of a scenario into a Violation or a HarnessError.

    Exceptions that come out of the code under test are violations of "this operation
    works"; a missing private name that only the harness uses is a harness error.
    """
    tb = exc.__traceback__
    frames = traceback.extract_tb(tb)
    inner = frames[-1] if frames else None
    in_verif = inner is not None and str(ROOT) in inner.filename
    text = "".join(traceback.format_exception_only(type(exc), exc)).strip()
    if isinstance(exc, (Divergence, HarnessError, MemoryError, SyntaxError)):
        return None
    if in_verif and isinstance(exc, (AttributeError, ImportError)):
        name = getattr(exc, "name", "") or ""
        if name.startswith("_") and not name.startswith("__"):
            return None
    where = ""
    for f in reversed(frames):
        if "/zigpy/" in f.filename:
            where = f"{f.filename.split('/zigpy/')[-1]}:{f.name}"
            break
    return Violation(
        f"unexpected {text} (in {where or 'harness'})",
        key=f"exception:{type(exc).__name__}:{where}",
        data="".join(traceback.format_exception(exc))[-3000:],
    )


def guarded(fn):
    def run(ch):
        try:
            return fn(ch)
        except Violation:
            raise
        except Exception as exc:  # noqa: BLE001
            v = classify_exception(exc)
            if v is None:
                raise
            raise v from exc

    return run


def _scenario_run(scenario):
    fn = getattr(_CHECK, scenario["fn"])
    args = scenario.get("args", {})
    return guarded(lambda ch: fn(ch, **args))


def _work(job):
    """One job: explore a scenario (or one subtree of it) completely."""
    scenario, prefix, labels, bound, split, limit, kind, known, max_s = job
    try:
        if kind == "bulk":
            # The function enumerates its own space and fills a Stats object.
            st = Stats()
            fn = getattr(_CHECK, scenario["fn"])
            try:
                fn(st, **scenario.get("args", {}))
            except Violation as v:
                st.violations.append({"scenario": scenario, "choices": None, "key": v.key,
                                      "message": str(v), "trace": [], "data": repr(v.data)[:2000]})
            except Exception as exc:  # noqa: BLE001
                v = classify_exception(exc)
                if v is None:
                    raise
                st.violations.append({"scenario": scenario, "choices": None, "key": v.key,
                                      "message": str(v), "trace": [], "data": repr(v.data)[:3000]})
            return st, []
        roots = [(prefix, labels)] if prefix else [()]
        deadline = clock.real_perf() + max_s if max_s else None
        res = explore(_scenario_run(scenario), bound, roots=roots, limit=limit,
                      scenario=scenario, split=split, stop_after=_stop_after(known),
                      deadline=deadline)
        if split:
            return res
        return res, []
    except BaseException:
        raise HarnessError(f"scenario {scenario}: " + traceback.format_exc()) from None


def _stop_after(known):
    return 1 if not known else 200


class Check:
    """Base description of a check module (see mc/checks/*.py)."""


def run_check(prop, tier, seed):
    global _CHECK
    t0 = clock.real_perf()
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    _CHECK = mod
    known = load_known(prop)
    scenarios = mod.scenarios(tier, seed)
    total = Stats()
    per_fn = collections.Counter()
    workers = int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)

    # iterate the deviation bound: 0, then 1, ... so that the first counterexample is small
    jobs = collections.deque()
    for s in scenarios:
        per_fn[s["fn"]] += 1
        kind = s.get("kind", "dfs")
        jobs.append((s, (), None, s.get("bound", 1), kind == "dfs" and s.get("split", False),
                     s.get("limit"), kind, bool(known), s.get("max_s")))
    unlisted = []
    found_known = {}
    ctx = mp.get_context("fork")
    linecache.clearcache()

    def absorb(st):
        for v in st.violations:
            if v["key"] in known:
                found_known.setdefault(v["key"], v)
            else:
                unlisted.append(v)
        total.merge(st)

    if workers == 1:
        while jobs and not unlisted:
            job = jobs.popleft()
            st, kids = _work(job)
            absorb(st)
            for p, l in kids:
                jobs.append((job[0], p, l, job[3], False, job[5], job[6], job[7], job[8]))
    else:
        ex = cf.ProcessPoolExecutor(workers, mp_context=ctx)
        pending = set()
        while (jobs or pending) and not unlisted:
            while jobs and len(pending) < workers * 4:
                job = jobs.popleft()
                f = ex.submit(_work, job)
                f.job = job
                pending.add(f)
            done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for f in done:
                st, kids = f.result()
                absorb(st)
                job = f.job
                for p, l in kids:
                    jobs.append((job[0], p, l, job[3], False, job[5], job[6], job[7], job[8]))
        # main() leaves with os._exit, so nothing has to be joined here
        procs = list(getattr(ex, "_processes", {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for pr in procs:
            pr.kill()

    # Replaying one recorded execution twice must give the same observations.
    replay_ok = 0
    if not unlisted:
        for sample in total.samples[:3]:
            if not isinstance(sample, dict) or sample.get("choices") is None or not isinstance(sample.get("scenario"), dict):
                continue
            a = _replay(mod, sample["scenario"], sample["choices"])
            b = _replay(mod, sample["scenario"], sample["choices"])
            if a != b:
                raise HarnessError(f"nondeterministic replay of {sample}: {a} vs {b}")
            replay_ok += 1

    wall = clock.real_perf() - t0
    level = mod.LEVEL
    cov = {
        "scenarios": len(scenarios),
        "scenarios_by_kind": dict(per_fn),
        "executions": total.executions,
        "choice_points": total.points,
        "longest_execution": total.maxlen,
        "distinct_outcomes": len(total.outcomes),
        "deviation_bound": max([s.get("bound", 0) for s in scenarios] or [0]),
        "samples": total.samples[:4],
        "determinism_replays": replay_ok,
        "capped": total.capped,
        "exhaustive": not total.capped,
        **total.extra,
    }
    if level == "model_checking":
        cov["states"] = len(total.states) or len(total.outcomes)
        cov["transitions"] = total.transitions
        cov["traces_validated_against_impl"] = total.executions
        cov["how_validated"] = getattr(mod, "VALIDATED",
                                       "every explored trace is an execution of the real code")
    else:
        cov["evaluations"] = total.executions
        cov["distinct_nontrivial"] = len(total.outcomes)
        cov["rule"] = mod.RULE
        if total.states:
            cov["states"] = len(total.states)
    if not unlisted and total.executions and len(total.outcomes) < getattr(mod, "MIN_OUTCOMES", 2):
        raise HarnessError("vacuous exploration: fewer than "
                           f"{getattr(mod, 'MIN_OUTCOMES', 2)} distinct outcomes")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(unlisted),
        "known_findings_seen": sorted(found_known),
    }
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")

    for k, v in sorted(known.items()):
        # A listed finding is always announced; whether it was seen is in the evidence.
        print(f"KNOWN-FINDING: property={prop} {v}")
    print(f"{prop} {tier}: executions={total.executions} states={len(total.states)} "
          f"transitions={total.transitions} outcomes={len(total.outcomes)} "
          f"capped={total.capped} wall={wall:.1f}s")
    if unlisted:
        REPLAYS.mkdir(exist_ok=True)
        for i, v in enumerate(unlisted[:5]):
            path = REPLAYS / f"{prop}-{i}.json"
            path.write_text(json.dumps({"property": prop, **v}, indent=1, default=str) + "\n")
            print(f"  {v['message']}")
            for line in v.get("trace", [])[-25:]:
                print(f"    {line}")
        print(f"VIOLATION property={prop} replay={REPLAYS / (prop + '-0.json')}", flush=True)
        return 1
    return 0


def _replay(mod, scenario, choices):
    fn = getattr(mod, scenario["fn"])
    ch = Chooser(choices)
    try:
        return repr(guarded(lambda c: fn(c, **scenario.get("args", {})))(ch))
    except Violation as v:
        return f"violation {v.key}"


def replay_file(path):
    global _CHECK
    rec = json.loads(pathlib.Path(path).read_text())
    mod = importlib.import_module(f"mc.checks.{rec['property'].lower()}")
    _CHECK = mod
    scenario = rec["scenario"]
    try:
        if rec["choices"] is None:
            getattr(mod, scenario["fn"])(Stats(), **scenario.get("args", {}))
        else:
            ch = Chooser(rec["choices"])
            guarded(lambda c: getattr(mod, scenario["fn"])(c, **scenario.get("args", {})))(ch)
    except Violation as v:
        print(f"reproduced: {v}")
        return 1
    except Exception as exc:  # noqa: BLE001
        v = classify_exception(exc)
        if v is None:
            raise
        print(f"reproduced: {v}")
        return 1
    print("did not reproduce")
    return 0
