"""Writes DESIGN.md from the text below, the checks' own descriptions, known_findings.json and the planted bugs.
Run with /opt/venv/bin/python."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, "/repo/src"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

HEAD = open(V + "/tools/design/head.md").read()
TAIL = open(V + "/tools/design/tail.md").read()
WHY = {}
for b in open(V + "/tools/design/why.md").read().split("\n## ")[1:]:
    k, _, t = b.partition("\n")
    WHY[k.strip()] = t.strip()
caught = {}
for l in open(V + "/tools/design/caught.txt"):
    if l.strip() and not l.startswith("#"):
        i, p, *n = l.split(None, 2)
        caught[i] = (p, n[0].strip() if n else "")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = [HEAD.rstrip(), "", "## The properties, one by one", ""]
seeds = {os.path.basename(os.path.dirname(f)): json.load(open(f)) for f in sorted(glob.glob(V + "/seeded/*/meta.json"))}
for d in props:
    P = importlib.import_module("props." + d["id"].lower()).PROP
    out += [f"### {d['id']} {d['title']}", "", f"*Method.* {P.technique}.", "", f"*Generated.* {P.rule}.", "",
            "*Cases* (quick / thorough): " + ", ".join(f"{l.name} {'all' if l.enum else f'{l.quick} / {l.thorough}'}" for l in P.legs) + ".", "", WHY[d["id"]], "", f"*Bounds and trust.* {P.level_note}" + (" Assumed: " + "; ".join(P.assumptions) + "." if P.assumptions else ""), ""]
    s = [i for i, m in seeds.items() if m["property"] == d["id"]]
    if s: out += ["*Planted bugs:* " + "; ".join(f"`{i}` ({'caught' + (' by ' + caught[i][0] if caught[i][0] != d['id'] else '') if i in caught else 'NOT CAUGHT'})" for i in s) + ".", ""]
out += ["## Planted bugs", "", "`tools/plants/<id>.txt` is the source, `tools/plant.py` builds and confirms `seeded/<id>/`, `tools/catch.sh` runs the check against a scratch copy.", "",
        "| id | property | needs | caught by | note |", "|---|---|---|---|---|"]
for i, m in seeds.items():
    c = caught.get(i, ("**missed**", ""))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {c[0]} | {c[1]} |")
kf = json.load(open(V + "/known_findings.json"))["findings"]
out += ["", "## Defects found and repaired", ""]
out += ["- " + f["line"].removeprefix("fixed: ") for f in kf if f["status"] == "fixed"]
known = [f for f in kf if f["status"] != "fixed"]
out += ["", "Recorded, not repaired (known findings):", ""] + [f"- {f['property']} `{f['id']}`: {f['what']}" for f in known] + ["" if known else "none.", "", TAIL.rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
