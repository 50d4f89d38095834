"""Builds seeded/<id>/ from tools/plants/<id>.txt and confirms it in scratch copies of /repo.
Usage: plant.py [--no-tests] ID...   (all: every plant without a seeded/<id>/patch.diff)"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def parse(path):
    t = open(path).read()
    head, *secs = re.split(r"^=== (.*)\n", t, flags=re.M)
    meta = {}
    for l in head.splitlines():
        if l.strip():
            k, _, v = l.partition(":")
            meta[k.strip()] = v.strip()
    edits, demo = [], None
    for name, body in zip(secs[::2], secs[1::2]):
        if name.strip() == "demo": demo = body
        else:
            for m in re.finditer(r"^<<<<\n(.*?)^----\n(.*?)^>>>>\n", body, flags=re.M | re.S):
                edits.append((name.strip(), m[1], m[2]))
    return meta, edits, demo


def one(pid):
    meta, edits, demo = parse(f"{HERE}/plants/{pid}.txt")
    T = tempfile.mkdtemp(prefix=f"plant-{pid}-")
    try:
        return pid, _one(pid, meta, edits, demo, T)
    except Exception as e:  # noqa: BLE001
        return pid, f"{type(e).__name__}: {e}"
    finally:
        shutil.rmtree(T, True)


def _one(pid, meta, edits, demo, T):
    R = T + "/repo"
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    d = f"{T}/kit/{pid}"
    os.makedirs(d + "/vfkit")
    open(d + "/vfkit/__init__.py", "w").close()
    for f in ("elfgen", "elfread", "wheelgen"): shutil.copy(f"{ROOT}/vlib/{f}.py", d + "/vfkit")
    shutil.copy(f"{HERE}/kit/kit.py", d)
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/sh\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$here/demo.py"\n')
    with open(d + "/demo.py", "w") as f: f.write("from kit import *\n\n" + demo.strip() + "\n")
    os.chmod(d + "/demo.sh", 0o755)

    def rundemo():
        return subprocess.run(["sh", d + "/demo.sh"], cwd=R, capture_output=True, text=True, timeout=300)
    a = rundemo()
    if a.returncode: return "DEMO FAILS ON UNCHANGED TREE\n" + a.stdout + a.stderr
    orig = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
    for f, old, new in edits:
        s = open(f"{R}/{f}").read()
        if s.count(old) != 1: return f"{f}: text occurs {s.count(old)} times:\n{old}"
        open(f"{R}/{f}", "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    # lines changed must be of the original repository
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    files = {e[0] for e in edits}
    base = "".join(subprocess.run(["git", "-C", "/repo", "show", f"{orig}:{f}"], capture_output=True, text=True).stdout for f in files).splitlines()
    note = "" if any(l in base for l in removed if l.strip()) else " (WARNING: no original line removed)"
    b = rundemo()
    if b.returncode == 0: return "DEMO PASSES WITH THE PATCH\n" + b.stdout + b.stderr
    if "FAIL" not in b.stdout and "failed" not in b.stderr: note += " (demo: " + (b.stdout + b.stderr)[-300:] + ")"
    if "--no-tests" not in sys.argv:
        env = {**os.environ, "PYTHONPATH": R + "/src", "PATH": "/opt/venv/bin:" + os.environ["PATH"], "PYTHONDONTWRITEBYTECODE": "1"}
        subprocess.run(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --basetemp={T}/pt --ignore=tests/integration/test_manylinux.py --junitxml={T}/j.xml > {T}/t.log 2>&1", shell=True, cwd=R, env=env)
        log = open(T + "/t.log").read()
        bad = [l for l in log.splitlines() if l.startswith(("FAILED ", "ERROR tests"))]
        note += " tests: " + log.strip().splitlines()[-1].strip("= ")
        if bad: return "TESTS FAIL\n" + "\n".join(bad)
        if bad: note += "\n" + "\n".join(bad)
    s = f"{ROOT}/seeded/{pid}"
    shutil.rmtree(s, True)
    shutil.copytree(d, s, ignore=shutil.ignore_patterns("__pycache__"))
    open(s + "/patch.diff", "w").write(diff)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(s + "/meta.json", "w"), indent=1)
    return "ok" + note + "  demo: " + (b.stdout.strip().splitlines() or ["-"])[-1][:160]


ids = [a for a in sys.argv[1:] if not a.startswith("-")]
if not ids: ids = sorted(f[:-4] for f in os.listdir(HERE + "/plants") if not os.path.exists(f"{ROOT}/seeded/{f[:-4]}/patch.diff"))
with ThreadPoolExecutor(4) as ex:
    for pid, r in ex.map(one, ids): print(pid, r, flush=True)
