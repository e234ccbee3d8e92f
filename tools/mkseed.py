"""Create and verify a seeded bug.  mkseed.py <spec.py> [notest]

The spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (python source;
runs with cwd = the repository under test).  A scratch copy of /repo is made under /tmp and removed.
"""
import json, os, pathlib, shutil, subprocess, sys, runpy

spec = runpy.run_path(sys.argv[1])
sid = spec["ID"]
out = pathlib.Path("/verif/seeded") / sid
wt = pathlib.Path(f"/tmp/seed-{sid}")
shutil.rmtree(wt, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", str(wt)], check=True)
PY = "/opt/venv/bin/python"
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8", TZ="UTC")


def demo(cwd):
    tmp = pathlib.Path(f"/tmp/seeddemo-{sid}")
    shutil.rmtree(tmp, ignore_errors=True)
    tmp.mkdir()
    shutil.copy(out / "demo.sh", tmp)
    shutil.copy(out / "demo.py", tmp)
    r = subprocess.run(["timeout", "-k", "5", "250", "bash", str(tmp / "demo.sh")], cwd=cwd, env=env,
                       capture_output=True, text=True)
    shutil.rmtree(tmp)
    return r


try:
    out.mkdir(parents=True, exist_ok=True)
    (out / "demo.py").write_text(
        "import os, sys\nsys.path.insert(0, os.getcwd())\nimport logging\nlogging.disable(logging.CRITICAL)\n"
        + spec["DEMO"].lstrip("\n").replace("#BASE\n", pathlib.Path("/verif/tools/demobase.py").read_text()))
    (out / "demo.sh").write_text('#!/bin/bash\n# cwd: the repository\nD=$(cd "$(dirname "$0")" && pwd)\n'
                                 'exec timeout -k 5 200 /opt/venv/bin/python "$D/demo.py"\n')
    (out / "meta.json").write_text(json.dumps({
        "property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, indent=1) + "\n")
    ok = demo(wt)
    for f, old, new in spec["EDITS"]:
        p = wt / f
        s = p.read_text()
        assert s.count(old) == 1, (f, s.count(old), old)
        p.write_text(s.replace(old, new))
    d = subprocess.run(["git", "-C", str(wt), "diff"], capture_output=True, text=True, check=True).stdout
    (out / "patch.diff").write_text(d)
    bad = demo(wt)
    print(sid, "demo unchanged rc", ok.returncode, "| patched rc", bad.returncode)
    if ok.returncode != 0:
        print(ok.stdout[-2000:], ok.stderr[-3000:])
    if bad.returncode == 0:
        print(bad.stdout[-1000:])
    else:
        print("  ", (bad.stderr.strip().splitlines() or bad.stdout.strip().splitlines() or ["?"])[-1][:300])
    if "notest" not in sys.argv:
        w = f"/tmp/seedtest-{sid}"
        shutil.rmtree(w, ignore_errors=True)
        os.mkdir(w)
        r = subprocess.run(["timeout", "-k", "5", "400", PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                        "--timeout=300", f"--basetemp={w}/t", "--ignore=tests/ota/test_ota_providers.py",
                        "-o", "junit_family=xunit2", f"--junitxml={w}/junit.xml", "tests"], cwd=wt, env=env,
                       capture_output=True, text=True)
        subprocess.run([PY, "/opt/vp/results.py", f"{w}/o.json", f"junit:{w}/junit.xml"], env=env,
                       capture_output=True)
        got = set(json.load(open(f"{w}/o.json"))["passed"])
        want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        print("  tests missing:", sorted(want - got)[:5], len(want - got))
        shutil.rmtree(w)
    if "check" in sys.argv:
        r = subprocess.run(["timeout", "-k", "5", "900", "/verif/run.sh", spec["PROPERTY"], "quick"],
                           env=dict(env, MC_REPO=str(wt), VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
        print("  check rc", r.returncode)
        print("\n".join("    " + l for l in (r.stdout + r.stderr).strip().splitlines()[-12:]))
finally:
    shutil.rmtree(wt, ignore_errors=True)
