#!/opt/venv/bin/python
"""Regenerates properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from catalog import NOT_APPLICABLE, NOTES, PROPS  # noqa: E402

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "true",
    "hooks": {"guard": "none", "enable": "no hooks are used; the checks read /repo's sources", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"/opt/venv/bin/python /verif/check.py {p['id']} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python /verif/check.py {p['id']} --tier thorough",
        "technique": p["technique"],
        "level": p.get("level", "proof"),
        "level_note": p["note"],
    } for p in PROPS if "technique" in p],
    "not_applicable": NOT_APPLICABLE,
    "notes": NOTES,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
print(len(PROPS), "properties,", len(man["checks"]), "claimed")
