"""Debug: run scenarios of one check individually with timing.  one.py C01 [n] [match]"""
import sys, os
sys.path.insert(0, os.environ.get("MC_REPO", "/repo")); sys.path.insert(0, "/verif")
sys.dont_write_bytecode = True
from mc import clock; clock.install()
import logging; logging.disable(50)
import warnings; warnings.simplefilter("ignore")
import importlib
from mc import report
from mc.explore import *
mod = importlib.import_module(f"mc.checks.{sys.argv[1].lower()}")
report._CHECK = mod
tier = os.environ.get("VERIF_TIER", "quick")
sc = mod.scenarios(tier, 1)
n = int(sys.argv[2]) if len(sys.argv) > 2 else 10
match = sys.argv[3] if len(sys.argv) > 3 else ""
lim = float(os.environ.get("LIM", "10"))
tot = 0
for s in [s for s in sc if match in repr(s)][:n]:
    t = clock.real_perf()
    if s.get("kind") == "bulk":
        st, _ = report._work((s, (), None, 0, False, None, "bulk", False, None))
    else:
        st = explore(report._scenario_run(s), s.get("bound", 1), scenario=s, limit=s.get("limit"), deadline=clock.real_perf() + lim)
    dt = clock.real_perf() - t
    tot += dt
    print(f"{dt:7.2f}s ex={st.executions} maxlen={st.maxlen} out={len(st.outcomes)} states={len(st.states)} capped={st.capped} {s['fn']} {str(s.get('args'))[:150]}")
    for v in st.violations:
        print("   VIOL", v["key"], v["message"], v["trace"][-40:])
        if os.environ.get("DATA"): print(v["data"])
print("total", len(sc), "scenarios; shown", tot)
