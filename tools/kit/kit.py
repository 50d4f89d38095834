"""Small helpers of the demonstrations. Everything happens inside one scratch directory that is removed at exit."""
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vfkit import elfgen, elfread, wheelgen  # noqa: E402

Elf = elfread.Elf
Whl = wheelgen.Whl
SRC = os.path.join(os.getcwd(), "src")
sys.path.insert(0, SRC)
SCRATCH = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, SCRATCH, True)
tempfile.tempdir = SCRATCH
_n = [0]


def scratch(name="d"):
    _n[0] += 1
    d = os.path.join(SCRATCH, f"{name}{_n[0]}")
    os.makedirs(d)
    return d


def lib(soname=None, needed=("libc.so.6",), vers=None, undef=(), defs=(), **kw):
    s = {"needed": list(needed), **kw}
    if soname: s["soname"] = soname
    v = dict(vers or {})
    if v: s["verneed"] = {k: list(x) for k, x in v.items()}
    if undef: s["undef"] = [u if isinstance(u, dict) else {"n": u, "t": "FUNC", "b": "G"} for u in undef]
    if defs: s["defs"] = [d if isinstance(d, dict) else {"n": d, "t": "FUNC", "ret": 1} for d in defs]
    return s


def ext(needed=("libc.so.6",), vers=None, **kw):
    """a CPython extension module (symbol version GLIBC_2.2.5 of libc.so.6 unless said otherwise)"""
    kw.setdefault("machine", "x86_64")
    if vers is None and "libc.so.6" in needed: vers = {"libc.so.6": ["GLIBC_2.2.5" if kw["machine"] == "x86_64" else "GLIBC_2.17"]}
    d = kw.pop("defs", [])
    return lib(None, needed, vers, defs=["PyInit_m", *d], **kw)


def xlib(soname, needed=("libc.so.6",), **kw):
    vers = kw.pop("vers", {"libc.so.6": ["GLIBC_2.2.5"]} if "libc.so.6" in needed else None)
    return lib(soname, needed, vers, **kw)


def member(p, elf=None, data=None, mode=0o644):
    m = {"p": p, "mode": mode}
    if elf is not None: m["elf"] = elf
    else: m["data"] = data if data is not None else ""
    return m


def world(members, dirs=None, plats=("linux_x86_64",), **kw):
    c = {"members": members, "plats": list(plats), "dirs": {d: {n: (f if isinstance(f, dict) and ("link" in f or "data" in f or "elf" in f) else {"elf": f}) for n, f in fs.items()} for d, fs in (dirs or {}).items()}, **kw}
    return wheelgen.Mat(c, scratch("w"))


def run(m, *args, env=None, cwd=None):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": SCRATCH, "LC_ALL": "C.UTF-8", "TMPDIR": m.tmp, "PYTHONPATH": SRC, "PYTHONDONTWRITEBYTECODE": "1"}
    if "/opt/venv/bin" not in e["PATH"]: e["PATH"] = "/opt/venv/bin:" + e["PATH"]
    for k, v in {**m.env(), **(env or {})}.items():
        if v is None: e.pop(k, None)
        else: e[k] = v
    return subprocess.run([sys.executable, "-m", "auditwheel", *args], cwd=cwd or m.cwd, env=e, capture_output=True, text=True, errors="replace")


def show(m, *args, env=None):
    r = run(m, "show", "--json", *m.ldargs(), *args, m.wheel, env=env)
    if r.returncode: raise SystemExit(f"show failed: {r.stderr}")
    return json.loads(r.stdout)


def repair(m, *args, env=None, out=None, wheel=None, ok=True):
    """the repaired wheel (None: refused)"""
    out = out or os.path.join(m.root, f"out{len(os.listdir(m.root))}")
    r = run(m, "repair", *m.ldargs(), *args, "-w", out, wheel or m.wheel, env=env)
    m.last = r
    if r.returncode:
        if ok: raise SystemExit(f"repair failed: {r.stderr}")
        return None
    ws = sorted(os.listdir(out))
    if len(ws) != 1: raise SystemExit(f"output {ws}")
    return Whl(os.path.join(out, ws[0]))


def expect(got, want, what):
    if got != want:
        print(f"FAIL {what}: got {got!r}, expected {want!r}")
        sys.exit(1)


def check(cond, what):
    if not cond:
        print("FAIL", what)
        sys.exit(1)
