"""C19: repaired executables in scripts still run."""
import os
import posixpath
import stat
import subprocess
import zipfile

from hypothesis import strategies as st

from props import c09
from vlib import harness, model, outputs, repairs, worlds
from vlib.harness import Leg, Prop, Skip, Violation
from vlib.wheelgen import Mat, Whl

NAMES = ["tool", "my-tool", "tööl", "t.o+ol", "it's", 'q"x', "a b", "x\\n", "{brace}", "%s", "tool.py", "UPPER", "-dash"]
PY = "/usr/bin/python3.12"


def more_scripts(draw, case, run):
    g = worlds.G(draw)
    sd = f"{case['name']}-{case['ver']}.data/scripts/"
    have = [m for m in case["members"] if m["p"].startswith(sd) and "elf" in m and "/" not in m["p"][len(sd):]]
    for m in have:
        if g.p(50):
            n = sd + g.one(NAMES)
            if n not in [q["p"] for q in case["members"]]: m["p"] = n
    if g.p(40): case["members"].append({"p": sd + "run.sh", "data": g.one(["#!/bin/sh\nexit 3\n", "\x7fEL", "", "#!python\nimport sys\n"]), "mode": g.one([0o755, 0o644])})
    if g.p(50): case["lib64"] = True        # an installation that keeps platform-specific and pure modules apart
    case["args"] = [[g.one(["", "a", "--x=1", "two words", "ü", "'", '"', "-h", "$HOME", "*", "\n", "\\", "x" * 300]) for _ in range(g.n(0, 3))] for _ in range(2)]
    return case


@st.composite
def any_arch(draw): return more_scripts(draw, draw(repairs.repair_world(scripts=100, libcs=("glibc", "glibc", "glibc", "musl"), missing=0, rp=15, files=1, optstrip=10)), False)


@st.composite
def native(draw): return more_scripts(draw, draw(repairs.repair_world(run=True, scripts=100, nodot=0, missing=0, rp=15, files=0, optstrip=20)), True)


def install(w, root, lib64=False):
    """what an installer does with a wheel, into a new virtual environment"""
    pure = os.path.join(root, "lib/python3.12/site-packages")
    plat = os.path.join(root, "lib64/python3.12/site-packages") if lib64 else pure
    site = pure if b"root-is-purelib: true" in w.data[w.di + "/WHEEL"].lower() else plat
    b = os.path.join(root, "bin")
    os.makedirs(pure); os.makedirs(plat, exist_ok=True); os.makedirs(b)
    if lib64:       # such an interpreter: PYTHONPLATLIBDIR would also move the standard library
        os.makedirs(os.path.join(root, "custom"))
        with open(os.path.join(root, "custom/sitecustomize.py"), "w") as f: f.write("import sys\nsys.platlibdir = 'lib64'\n")
    os.symlink(PY, os.path.join(b, "python"))
    with open(os.path.join(root, "pyvenv.cfg"), "w") as f: f.write("home = /usr/bin\ninclude-system-site-packages = false\nversion = 3.12.3\n")
    scripts = {}
    for n in w.files:
        parts = n.split("/")
        if parts[0].endswith(".data") and len(parts) > 2:
            if parts[1] == "scripts": p = os.path.join(b, *parts[2:])
            elif parts[1] in ("platlib", "purelib"): p = os.path.join(plat if parts[1] == "platlib" else pure, *parts[2:])
            else: continue
        else: p = os.path.join(site, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        d = w.data[n]
        if p.startswith(b + "/"):
            scripts[n] = p
            if d.startswith(b"#!python"): d = b"#!" + os.path.join(b, "python").encode() + d[8:]
        with open(p, "wb") as f: f.write(d)
        os.chmod(p, 0o755 if w.mode[n] & 0o111 else 0o644)
    return site, scripts


def run(p, args, cwd, lib64=False):
    r = subprocess.run([p, *args], cwd=cwd, env={"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", **({"PYTHONPATH": lib64} if lib64 else {})}, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
    return r.returncode, r.stdout, r.stderr


def common(case, ctx):
    res = repairs.run_and_expect(case, ctx)
    if res is None: return None
    m, x, r, w = res
    src = Whl(m.wheel)
    sd = f"{case['name']}-{case['ver']}.data/scripts/"
    for n in src.files:
        if not n.startswith(sd): continue
        if "/" in n[len(sd):]:      # below a further directory: not for the shim
            if src.data[n][:4] == b"\x7fELF" and w.data.get(n, b"")[:4] != b"\x7fELF": raise Violation(f"{n} does not lie directly in the scripts directory, but is no executable any more")
            ctx.label("nested executable")
            continue
        if n in x.moved:
            t = x.moved[n]
            if t not in w.data: raise Violation(f"{n} should be moved to {t}; the wheel has {w.files}")
            if w.data[n][:4] == b"\x7fELF": raise Violation(f"{n} is still an ELF file")
            for q in (n, t):
                if outputs.mode_of(w.mode[q]) != (src.mode[n] & 0o777 | 0o600): raise Violation(f"{q}: permissions {w.mode[q]:o}, the script had {src.mode[n]:o}")
        elif x.opts.get("strip") and src.data[n][:4] == b"\x7fELF": continue
        elif w.data.get(n) != src.data[n]: raise Violation(f"{n} needs no grafted library, but was changed")
    root = os.path.join(ctx.dir, "venv")
    site, scripts = install(w, root, case.get("lib64"))
    return m, x, w, src, site, scripts


def check_shim(case, ctx):
    res = common(case, ctx)
    if res is None: return
    m, x, w, src, site, scripts = res
    for n, t in x.moved.items():
        p = os.path.join(site, t)
        if not w.mode[n] & 0o100: continue
        # a stand-in for the executable, which need not run on this machine
        with open(p, "w") as f: f.write("#!/bin/sh\nprintf '%s\\0' \"$@\"\nexit $((40 + $#))\n")
        os.chmod(p, 0o755)
        for args in case["args"]:
            rc, o, e = run(scripts[n], args, m.cwd, case.get("lib64") and os.path.join(ctx.dir, "venv/custom"))
            if rc != 40 + len(args) or o != b"".join(a.encode() + b"\0" for a in args) and (args or o != b"\0"):
                raise Violation(f"{n} run with {args}: exit status {rc}, output {o!r}, expected {40 + len(args)} and the arguments\n{e[-600:]!r}")
        ctx.nontrivial()
        ctx.label("shim", "libc:" + x.A.libc)


def check_run(case, ctx):
    vals, ident = c09.instrument(case)
    for mm in case["members"]:
        s = mm.get("elf") or {}
        if "main" in s:
            q = [l for l in s.get("needed") or [] if not l.startswith(("libc.", "libm.", "libdl."))]
            if q: s["main"] = {"call": "v_" + ident(q[-1])}
    V = model.World(case).vfs
    res = common(case, ctx)
    if res is None: return
    m, x, w, src, site, scripts = res
    if x.ambiguous: raise Skip
    os.rename(m.X, m.X + "-gone")
    for n, p in scripts.items():
        if n not in x.A.trees or not w.mode[n] & 0o100 or n.count('/') != 2: continue
        t = x.A.trees[n]
        main = t.spec.get("main") or {}
        if "call" in main:
            own = [l for l in t.libs.values() if l.real and l.real in V.nodes and main["call"] in [d["n"] for d in V.nodes[l.real]["elf"].get("defs") or []]]
            ids = {l.real for l in own}
            if len(ids) != 1 or main["call"] in [d["n"] for d in t.spec.get("defs") or []]: ctx.label("symbol clash"); continue
            # other symbols may be missing when a name is defined by nobody
            val = 1000 + vals[ids.pop()]
        else: val = main.get("ret", 0)
        for args in case["args"]:
            rc, o, e = run(p, args, m.cwd, case.get("lib64") and os.path.join(ctx.dir, "venv/custom"))
            if b"symbol lookup error" in e or b"undefined symbol" in e: ctx.label("symbol clash"); break
            want = (val + len(args) + 1) % 256
            wo = b"".join(a.encode() + b"\0" for a in args)
            if (rc, o) != (want, wo): raise Violation(f"{n} run with {args}: exit status {rc}, output {o!r}; expected {want}, {wo!r}\n{e[-600:]!r}\n" + c09.describe(w))
        if n in x.moved: ctx.nontrivial(); ctx.label("moved and run" if "call" in main else "moved")
        else: ctx.label("unmoved and run")


PROP = Prop("C19", [Leg("shim", lambda t: any_arch(), check_shim, 480, 10000), Leg("run", lambda t: native(), check_run, 480, 12000)],
            rule="a generated wheel with ELF and other files in its scripts directory is repaired, installed into a new virtual environment and the installed scripts are run with generated arguments; non-trivial: a relocated executable was run",
            technique="property-based testing (Hypothesis): execution of the installed scripts, exit status and echoed arguments against the generated program",
            level_note="On x86-64 the executables themselves run, calling into the grafted libraries; for other architectures a stand-in takes the place of the relocated executable. The installer is a small model of what pip does.")
