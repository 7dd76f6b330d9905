"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["quant"]},
                             "why_tests_cant": p["why"],
                             "anchors": {"files": p["files"],
                                         "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if not os.path.exists(os.path.join(ROOT, "checks", p["id"] + ".py")):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"],
                   "thorough_cmd": "python3 checks/%s.py" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa checks", "checks": checks, "not_applicable": na,
               "notes": "Static analysis only: every check parses /repo's current sources and runs none of them."}, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
