"""Records a repaired defect. Usage: tools/fixed.py PROPERTY COMMIT ID REPLAY-FILE-OR-- TEXT"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, commit, fid, replay, text = sys.argv[1:]
p = H + "/known_findings.json"
j = json.load(open(p))
j["findings"] = [f for f in j["findings"] if not (f["property"] == prop and f["id"] == fid)]
j["findings"].append({"property": prop, "status": "fixed", "id": fid, "line": f"fixed: property={prop} {commit} {text}"})
json.dump(j, open(p, "w"), indent=1); open(p, "a").write("\n")
if replay != "-":
    r = json.load(open(replay))
    os.makedirs(f"{H}/corpus/{prop}", exist_ok=True)
    json.dump({"leg": r["leg"], "case": r["case"]}, open(f"{H}/corpus/{prop}/{fid}.json", "w"), indent=1)
