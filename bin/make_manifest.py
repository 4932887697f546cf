#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from bin/meta.py and bin/properties_config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from meta import PROPS
from properties_config import CONFIG
VERIF = os.path.dirname(HERE)
with open(os.path.join(VERIF, "properties.jsonl"), "w") as fd:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "hook_needed": None}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        if p["state"]:
            anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        fd.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                             "anchors": anchors}) + "\n")
checks = [{"property": p["id"],
           "quick_cmd": "python3 /verif/bin/check.py %s --tier quick" % p["id"],
           "thorough_cmd": "python3 /verif/bin/check.py %s --tier thorough" % p["id"],
           "technique": p["technique"], "level": CONFIG[p["id"]]["level"], "level_note": p["note"]}
          for p in PROPS if p["id"] in CONFIG]
na = [{"property": p["id"], "reason": p["note"]} for p in PROPS if p["id"] not in CONFIG]
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fd:
    json.dump({"version": 1, "setup_cmd": "python3 /verif/bin/setup.py", "checks": checks, "not_applicable": na}, fd, indent=1)
    fd.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
