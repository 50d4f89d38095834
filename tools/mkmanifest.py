"""Writes MANIFEST.json and checks that it is in step with properties.jsonl. Usage: /opt/venv/bin/python tools/mkmanifest.py"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, "/repo/src"); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    try:
        P = importlib.import_module("props." + p["id"].lower()).PROP
    except ModuleNotFoundError as e:
        if "props." not in str(e): raise
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    assert P.id == p["id"]
    checks.append({"property": P.id, "quick_cmd": f"python3 run.py {P.id}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {P.id}",
                   "evidence_file": f"evidence/{P.id}.json", "technique": P.technique, "level": P.level, "level_note": P.level_note})
man = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
