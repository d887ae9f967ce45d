"""regenerates MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "levels.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    checks.append(dict(
        property=p,
        quick_cmd=f"./run.sh {p}",
        thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p}",
        evidence_file=f"evidence/{p}.json",
        technique=TECH.get(p, DEFAULT_TECH),
        level=LEVEL.get(p, "other"),
        level_note=NOTE.get(p, DEFAULT_NOTE),
    ))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[], notes=NOTES),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
