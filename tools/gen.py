"""Write properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing it)."""

import importlib.util
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
spec = importlib.util.spec_from_file_location("props", os.path.join(HERE, "props.py"))
props = importlib.util.module_from_spec(spec)
spec.loader.exec_module(props)

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")

checks = [{
    "property": p["id"],
    "quick_cmd": f"./run.py {p['id']} --tier quick",
    "thorough_cmd": f"./run.py {p['id']} --tier thorough",
    "technique": p["tech"],
    "level": "exploration",
    "level_note": p["note"],
} for p in props.PROPS if p["id"] not in props.NOT_APPLICABLE
    and os.path.exists(os.path.join(ROOT, "harness", "props", p["id"].lower() + ".py"))]

with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./run.py --setup",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in props.NOT_APPLICABLE.items()],
        "notes": props.NOTES,
    }, f, indent=1)
    f.write("\n")
print(len(props.PROPS), "properties,", len(checks), "checks")
