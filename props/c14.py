"""C14: a refused or failed repair leaves no wheel behind and changes nothing."""
import errno
import os
import posixpath
import shutil
import sys
import traceback
from collections import Counter

from hypothesis import strategies as st

from vlib import harness, repairs, worlds
from vlib.harness import Leg, Prop, Skip, Violation
from vlib.wheelgen import Mat, Whl, tree_state, wheel_name

EPOCH = {"SOURCE_DATE_EPOCH": "1600000000"}
KINDS = ["write", "write", "read", "dir", "meta", "popen", "tool", "tool", "tool", "fsize", "fsize", "write", "popen"]


@st.composite
def refusals(draw):
    case = draw(repairs.repair_world(files=1, reqs=2, missing=12, scripts=8, pylib=3, rp=10))
    g = worlds.G(draw)
    if "plat" not in case["opts"] and g.p(60): case["opts"]["plat"] = g.one(repairs.host_plats())
    case["where"] = g.one(["fresh", "fresh", "same"])
    if g.p(25):         # nothing but instruction-set extensions, in a library that only some platforms provide, speaks against the request
        b = g.one(worlds.BOUNDARY["glibc"])
        es = [m["elf"] for m in case["members"] if m.get("elf")]
        exts = [e for e in es if e.get("machine") == "x86_64" and e.get("defs") and "libc.so.6" in (e.get("needed") or [])]
        if exts and repairs.model.plat_of(exts[0])[1] == "x86_64" and not any("musl" in t or "android" in t for t in case["plats"]):
            es += [f["elf"] for d in case["dirs"].values() for f in d.values() if f.get("elf")]
            for e in es:
                if e.get("machine") == "x86_64":
                    if e.get("verneed"): e["verneed"] = {"libc.so.6": ["GLIBC_2.2.5"]} if "libc.so.6" in (e.get("needed") or []) else {}
                    if g.p(80): e.pop("isa", None)
            for d in case["dirs"].values():
                d.pop(b, None)
                d[b] = {"elf": {"machine": "x86_64", "soname": b, "needed": [], "isa": g.one([2, 4, 8]), "seed": 999}, "mode": 0o755}
            if b not in exts[0]["needed"]: exts[0]["needed"].insert(0, b)
            case["opts"]["plat"] = g.one(["manylinux_2_5_x86_64", "manylinux1_x86_64"] if b[3] == "e" else ["manylinux_2_5_x86_64", "manylinux1_x86_64", "manylinux2010_x86_64", "manylinux_2_17_x86_64"])
            case["opts"].pop("noisa", None)
            if g.p(80): case["plats"] = ["linux_x86_64"]
    if g.p(15):         # a Python 2 extension module for narrow unicode
        for e in case["members"]:
            d = (e.get("elf") or {}).get("defs")
            if d and d[0]["n"].startswith("PyInit_"):
                e["elf"]["defs"] = [dict(d[0], n="init" + d[0]["n"][7:])]
                e["elf"].setdefault("undef", []).append({"n": "PyUnicodeUCS2_Decode", "t": "FUNC"})
                break
    return case


@st.composite
def faults(draw):
    case = draw(repairs.repair_world(files=1, reqs=0, missing=0, scripts=30, pylib=3, rp=10, optstrip=60, libcs=("glibc", "glibc", "glibc", "musl", "android"), plat=False, arches=["x86_64"], noupdate=30))
    g = worlds.G(draw)
    for i in range(g.n(0, 3)):
        case["members"].append({"p": f"{case['name']}/big{i}.bin", "rnd": [i, g.one([5000, 9000, 20000])]})
    case["where"] = g.one(["fresh", "fresh", "same", "new"])
    k = g.one(KINDS)
    f = {"kind": k, "at": g.n(0, 999), "sticky": g.p(30), "end": g.p(50), "errno": g.one(["ENOSPC", "EACCES", "EIO", "EROFS"])}
    if k in ("write", "dir", "popen") and g.p(12): f["errno"] = "INT"
    if k in ("tool", "popen"): f["tool"] = g.one(["patchelf", "strip"]) if case["opts"].get("strip") else "patchelf"
    if k == "tool": f["how"] = g.one(["exit", "exit", "signal", "spoil", "late"])
    case["fault"] = f
    return case


def faulty(argv, root, fault):
    """fn for a child: the repair with a fault at one of its events; returns (rc, exception, counts, cwd kept)"""
    counts = Counter()
    on = [True]
    fired = []
    kind = fault and fault["kind"]

    def classify(ev, args):
        if ev == "open":
            p, mode = args[0], args[1]
            if not isinstance(mode, str): return None
            if isinstance(p, int): return None
            p = os.path.abspath(os.fsdecode(p))
            if not p.startswith(root): return None
            return "write" if set(mode) & set("wax+") else "read"
        if ev in ("os.mkdir", "os.rename"):
            return "dir" if os.path.abspath(os.fsdecode(args[0])).startswith(root) else None
        if ev in ("os.chmod", "os.utime"):
            return "meta" if not isinstance(args[0], int) and os.path.abspath(os.fsdecode(args[0])).startswith(root) else None
        if ev == "subprocess.Popen":
            t = os.path.basename(os.fsdecode(args[1][0] if args[1] else args[0]))
            return "popen:" + t
        return None

    def hook(ev, args):
        if not on[0]: return
        if ev not in ("open", "os.mkdir", "os.rename", "os.chmod", "os.utime", "subprocess.Popen"): return
        on[0] = False
        try:
            c = classify(ev, args)
        except Exception:  # noqa: BLE001
            c = None
        finally:
            on[0] = True
        if c is None: return
        i = counts[c]
        counts[c] += 1
        want = kind if kind != "popen" else "popen:" + fault["tool"]
        if fault and kind != "tool" and c == want and (i == fault["i"] or (fault["sticky"] and i > fault["i"])):
            fired.append((c, i, str(args[0])[-60:]))
            if fault["errno"] == "INT": raise KeyboardInterrupt
            raise OSError(getattr(errno, fault["errno"]), os.strerror(getattr(errno, fault["errno"])), str(args[0]))

    def fn():
        import atexit
        import gc
        import resource
        here = os.getcwd()
        sys.argv = ["auditwheel", *argv]
        from auditwheel.main import main
        err = None
        sys.addaudithook(hook)
        try:
            rc = main()
        except SystemExit as e:
            rc = e.code
        except BaseException as e:  # noqa: BLE001
            rc = 1; err = type(e).__name__
            tb = traceback.format_exc()
        on[0] = False
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        if err: print(tb, file=sys.stderr)
        try:
            kept = os.getcwd() == here
        except OSError:
            kept = False
        gc.collect()
        atexit._run_exitfuncs()
        return 0 if rc in (0, None) else 1, err, dict(counts), kept, fired
    return fn


SHIM = """#!/bin/sh
n=$(cat {cnt}); n=$((n+1)); echo $n > {cnt}
if [ $n -eq {at} ]; then
  for t; do :; done
  case {how} in
    exit) echo 'injected failure' >&2; exit 3;;
    signal) kill -KILL $$;;
    spoil) [ -f "$t" ] && [ -w "$t" ] && case "$t" in -*) ;; *) echo junk > "$t";; esac; exit 1;;
    late) {real} "$@"; exit 1;;
  esac
fi
exec {real} "$@"
"""


def put(m, case):
    """where the output goes; what lies there already"""
    out = {"fresh": m.out, "same": os.path.dirname(m.wheel), "new": os.path.join(m.root, "outer", "new")}[case["where"]]
    if case["where"] != "new":
        with open(os.path.join(out, "unrelated-1.0-py3-none-any.whl"), "w") as f: f.write("another wheel")
    return out


def roots(m):
    return [m.X, os.path.dirname(m.wheel), m.cwd, m.tmp, m.out]


def same_state(m, before, what, out, allow=()):
    after = tree_state(*roots(m))
    diff = {p: (before.get(p), after.get(p)) for p in set(before) | set(after) if before.get(p) != after.get(p)}
    for p in sorted(diff):
        if p in allow: continue
        raise Violation(f"{what}: {p[len(m.root):]} was {diff[p][0]}, is {diff[p][1]}")
    if out not in roots(m) and os.path.isdir(out):
        left = [f for f in os.listdir(out) if os.path.join(out, f) not in allow]
        if left: raise Violation(f"{what}: leaves {left} in the output directory")


def check_refusal(case, ctx):
    m = Mat(case, ctx.dir)
    x = repairs.expected(case, m)
    if not x.refuse: raise Skip
    out = put(m, case)
    if case["where"] == "fresh":
        shutil.copy(m.wheel, os.path.join(out, os.path.basename(m.wheel)))
    with open(os.path.join(m.cwd, "file"), "w") as f: f.write("x")
    before = tree_state(*roots(m))
    args = repairs.repair_args(m, x.opts, out) + m.ldargs() + [m.wheel]
    r = harness.in_child(faulty(args, m.root, None), cwd=m.cwd, env=m.env(EPOCH), tmpdir=m.tmp)
    if r.timeout or r.value is None: raise Violation(f"no result: {r!r}")
    rc, err, counts, kept, _ = r.value
    if rc == 0: raise Violation(f"repair must refuse this wheel ({x.refuse}), but exits 0: {r.err[-500:]}")
    same_state(m, before, f"refused ({x.refuse})", out)
    if not kept: raise Violation("the working directory is another one after the refusal")
    ctx.nontrivial(not x.refuse.startswith("rejected"))
    ctx.label("refused:" + x.refuse.split(" ")[0], "where:" + case["where"])


def check_fault(case, ctx):
    m = Mat(case, ctx.dir)
    x = repairs.expected(case, m)
    if x.refuse: raise Skip
    f = dict(case["fault"])
    k = f["kind"]
    # without a fault
    ref_out = os.path.join(m.root, "refout")
    os.mkdir(ref_out)
    env = m.env(EPOCH)
    args = repairs.repair_args(m, x.opts, ref_out) + m.ldargs() + [m.wheel]
    r0 = harness.in_child(faulty(args, m.root, None), cwd=m.cwd, env=env, tmpdir=m.tmp)
    if r0.timeout or r0.value is None or r0.value[0] != 0: raise Violation(f"repair fails without a fault: {r0!r}\n{r0.err[-1000:]}")
    counts = r0.value[2]
    done = os.listdir(ref_out)
    if done != [x.name]: raise Violation(f"output {done}, expected {x.name}")
    ref = os.path.join(ref_out, x.name)
    with open(ref, "rb") as fh: refdata = fh.read()
    if os.listdir(m.tmp): raise Violation(f"left in the temporary directory after success: {os.listdir(m.tmp)}")
    if not r0.value[3]: raise Violation("the working directory is another one after the repair")
    out = put(m, case)
    old = os.path.join(out, x.name)
    if case["where"] != "new" and not os.path.exists(old):
        with open(old, "w") as fh: fh.write("an older wheel")
    with open(os.path.join(m.cwd, "file"), "w") as fh: fh.write("x")
    lim = None
    if k == "tool" or k == "popen":
        n = counts.get("popen:" + f["tool"], 0)
    elif k == "fsize":
        n = 1
        lim = int(len(refdata) * [.2, .5, .8, .95, .999][f["at"] % 5])
        if lim < 6000: raise Skip       # our own log needs some space
    else:
        n = counts.get(k, 0)
    if not n: raise Skip
    f["i"] = max(0, n - 1 - f["at"] % 5) if f["end"] else f["at"] * n // 1000
    if k == "tool":
        d = os.path.join(m.root, "shim"); os.mkdir(d)
        cnt = os.path.join(d, "count")
        with open(cnt, "w") as fh: fh.write("0\n")
        p = os.path.join(d, f["tool"])
        with open(p, "w") as fh: fh.write(SHIM.format(cnt=cnt, at=f["i"] + 1, how=f["how"], real=shutil.which(f["tool"], path=harness.BASE_ENV["PATH"])))
        os.chmod(p, 0o755)
        env["PATH"] = d + ":" + harness.BASE_ENV["PATH"]
    before = tree_state(*roots(m))
    args = repairs.repair_args(m, x.opts, out) + m.ldargs() + [m.wheel]
    r = harness.in_child(faulty(args, m.root, None if k in ("tool", "fsize") else f), cwd=m.cwd, env=env, tmpdir=m.tmp, rlimit_fsize=lim)
    if r.timeout or r.value is None: raise Violation(f"no result: {r!r}")
    rc, err, _, kept, fired = r.value
    what = f"{k} fault {f['i']} of {n} {f.get('how', f['errno'])} {fired[:1]}"
    if not kept: raise Violation(f"{what}: the working directory is another one afterwards")
    if rc == 0:
        ctx.label("tolerated:" + k)
        same_state(m, before, what + " (exit 0)", out, [old])
        if not os.path.isfile(old): raise Violation(f"{what}: exit 0, but no wheel")
        if k in ("read", "meta"): return
        with open(old, "rb") as fh: d = fh.read()
        if d != refdata: raise Violation(f"{what}: exit 0, but the wheel differs from the one written without a fault")
        return
    same_state(m, before, what, out)
    ctx.nontrivial()
    ctx.label("failed:" + k, "where:" + case["where"])
    if k == "tool": ctx.label("tool:" + f["how"])
    if f["sticky"]: ctx.label("sticky")
    if f["errno"] == "INT": ctx.label("interrupt")


PROP = Prop("C14", [Leg("refusals", lambda t: refusals(), check_refusal, 560, 12000),
                    Leg("faults", lambda t: faults(), check_fault, 720, 20000)],
            rule="refusals: a generated wheel that the reference model refuses to repair (not counting wheels rejected before any analysis); faults: a repairable wheel with a fault injected at one event (opening or creating a file, making or renaming a directory, changing a mode, starting or running patchelf / strip, exceeding the space left), counted non-trivial if the repair failed",
            technique="property-based testing (Hypothesis) with fault injection: audit hooks, failing tool shims, file size limits; state before = state after",
            level_note="The position of the fault is drawn uniformly from the events that the same repair performs without a fault; killing the process is outside the property (nothing could clean up then).",
            assumptions=["faults are raised when an operation starts; operations that fail half way are exercised for the tools and by the file size limit"])
