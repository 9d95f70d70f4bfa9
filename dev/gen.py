#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from dev/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
import jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps, checks, na = [], [], []
for p in PROPS + NA:
    d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                     "observe_at": p.get("observe", []), "hook_needed": None}}
    ps.append(d)
for p in PROPS:
    checks.append({"property": p["id"], "quick_cmd": "python3 sa/run.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 sa/run.py %s --tier thorough" % p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
for p in NA:
    na.append({"property": p["id"], "reason": p["reason"]})
man = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na,
       "notes": "No hooks are needed: the checks read /repo's sources through its own makefiles (recording compiler) and analyse LLVM IR."}
sp = json.load(open("/root/.vp/PROPERTIES.schema.json"))
sm = json.load(open("/root/.vp/MANIFEST.schema.json"))
for d in ps:
    jsonschema.validate(d, sp)
jsonschema.validate(man, sm)
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(d) + "\n" for d in ps))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed", len(NA), "not applicable")
