"""Write properties.jsonl and MANIFEST.json from tools/table.py.

A property is claimed when mc/checks/<id>.py exists; otherwise it is listed as not applicable
with the reason in the table."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from table import P  # noqa: E402

with open(ROOT / "properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]} if p["state"] else {}),
                **({"observe_at": list(p["observe"])} if p["observe"] else {}),
                "hook_needed": p["hook"],
            },
        }) + "\n")

checks, na = [], []
for p in P:
    if (ROOT / "mc" / "checks" / f"{p['id'].lower()}.py").exists() and not p["na"]:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./run.sh {p['id']} quick",
            "thorough_cmd": f"./run.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
(ROOT / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "./run.sh selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "Model checking of zigpy: the real code on a controlled event loop / real SQLite files, "
             "explored exhaustively within stated bounds. ./run.sh replay <file> re-executes a recorded violation.",
}, indent=1) + "\n")
print(len(checks), "checks", len(na), "not claimed")
