#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: the properties that have a check in checks/ are claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "TLC explores the TLA+ specification exhaustively within the bounds of its .cfg and checks its invariants; behaviours of the specification are replayed on the library built from /repo and TLC validates every recorded execution. Holds for the bounded model and the executions recorded, not for unbounded inputs."
NOTES = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique="TLA+ specification model-checked with TLC; spec-generated behaviours replayed on the real code and traces validated by TLC",
                           level="model_checking", level_note=NOTES.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="TVM_VERIF_HOOKS", enable="no hook is needed so far: the drivers use the public and internal API only", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
