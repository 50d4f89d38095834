"""Materialise a replay's case under DIR and print what repair makes of it. Usage: /opt/venv/bin/python tools/exec.py REPLAY DIR"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/repo/src"]; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from vlib import harness, repairs
from vlib.wheelgen import Mat, Whl
j = json.load(open(sys.argv[1])); case = j["case"]
os.makedirs(sys.argv[2], exist_ok=True)
harness.preload()
os.environ["VF_SCRATCH"] = sys.argv[2]
m = Mat(case, sys.argv[2])
x = repairs.expected(case, m)
print("model:", {k: v for k, v in vars(x).items() if k in ("refuse", "map", "grafts", "gmap", "rewired", "grafted", "plats", "name", "ambiguous")})
r = repairs.repair(m, x.opts)
print(r.rc, r.exc, r.err[-3000:])
for f in repairs.outputs(m):
    w = Whl(os.path.join(m.out, f))
    print(f); print("\n".join(w.names))
    for n, e in w.elves().items(): print(n, "soname", e.soname, "needed", e.needed, "rpath", e.rpath, "runpath", e.runpath)
