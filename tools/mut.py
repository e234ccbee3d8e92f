"""Mutation campaign: mut.py <file.py> [from]   The file defines M = [(props, file, old, new), ...].
For each: a scratch copy with the change, the checks of the properties, the tests if none catches it."""
import os, re, runpy, shutil, subprocess, sys, pathlib
M = runpy.run_path(sys.argv[1])["M"]
start = int(sys.argv[2]) if len(sys.argv) > 2 else 0
tag = os.path.basename(sys.argv[1]).replace(".py", "")
wt = pathlib.Path(f"/tmp/mut-{tag}")
DESEL = ["--ignore=tests/ota/test_ota_providers.py", "--deselect", "tests/test_quirks_v2.py::test_quirks_v2", "--deselect", "tests/test_serial.py::test_pyserial_error_remapping"]
for n, (props, f, old, new) in enumerate(M):
    if n < start:
        continue
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", str(wt)], check=True)
    p = wt / f
    s = p.read_text()
    if s.count(old) != 1:
        print(n, "BAD EDIT", s.count(old), repr(old[:80]), flush=True)
        continue
    p.write_text(s.replace(old, new))
    w = f"/tmp/mut-{tag}-t"
    shutil.rmtree(w, ignore_errors=True); os.mkdir(w)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8", TZ="UTC")
    r = subprocess.run(["timeout", "-k", "5", "300", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--timeout=120", f"--basetemp={w}/t", *DESEL], cwd=wt, env=env, capture_output=True, text=True)
    shutil.rmtree(w, ignore_errors=True)
    desc = f"{f}: {new.strip()[:110]!r}"
    if r.returncode:
        print(n, "tests kill", desc, (r.stdout.strip().splitlines() or ["?"])[-2:-1], flush=True)
        continue
    res = []
    for c in props.split():
        r = subprocess.run(["timeout", "-k", "5", "600", "./run.sh", c, "quick"], cwd="/verif", env=dict(os.environ, MC_REPO=str(wt)), capture_output=True, text=True)
        res.append((c, r.returncode))
        if r.returncode == 1:
            break
    print("caught" if any(rc == 1 for _, rc in res) else "MISSED", n, res, desc, flush=True)
shutil.rmtree(wt, ignore_errors=True)
print("done", flush=True)
