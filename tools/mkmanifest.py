"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/lib")
from props import PROPS
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": PROPS[i]["technique"], "level": PROPS[i].get("level", "exploration"), "level_note": PROPS[i]["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check registered yet"})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
