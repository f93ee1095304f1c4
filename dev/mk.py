"""Writes properties.jsonl and MANIFEST.json from dev/props.py (committed outputs; not run by the checks)."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
spec = importlib.util.spec_from_file_location("props", os.path.join(HERE, "props.py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in m.P:
        assert len(q["title"]) <= 80, q["title"]
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]}
        if q["observe"]:
            a["observe_at"] = q["observe"]
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                            "quantifier": {"over": q["over"], "text": q["text"]},
                            "why_tests_cant": q["why"], "anchors": a}) + "\n")
checks, na = [], []
for q in m.P:
    if q["na"] or not os.path.exists(os.path.join(V, "sa/checks/%s.py" % q["id"].lower())):
        na.append({"property": q["id"], "reason": q["na"] or "the check is not built yet"})
        continue
    checks.append({"property": q["id"], "quick_cmd": "python3 -m sa.run " + q["id"],
                   "thorough_cmd": "python3 -m sa.run %s --tier thorough" % q["id"],
                   "technique": q["technique"], "level": "other", "level_note": q["note"]})
json.dump({"version": 1, "setup_cmd": "bash frontend/build.sh", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: a clang libTooling frontend exports the typed syntax tree of every translation unit of /repo; "
                    "sa/ interprets it abstractly. No code of /repo is run by any check."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
