"""C30: Android wheels."""
import json
import os

from hypothesis import strategies as st

from vlib import audit, harness, outputs, repairs, worlds
from vlib.harness import Leg, Prop, Violation
from vlib.wheelgen import Mat, Whl, tree_state

# libraries an application may link against, with the API level that introduced them (Android NDK, "Native APIs"; *_python.so: PEP 738)
SINCE = {"libandroid.so": 21, "libc.so": 21, "libcrypto_python.so": 21, "libdl.so": 21, "libEGL.so": 21, "libGLESv1_CM.so": 21, "libGLESv2.so": 21, "libjnigraphics.so": 21, "liblog.so": 21, "libm.so": 21,
         "libmediandk.so": 21, "libOpenMAXAL.so": 21, "libOpenSLES.so": 21, "libsqlite3_python.so": 21, "libssl_python.so": 21, "libz.so": 21, "libcamera2ndk.so": 24, "libvulkan.so": 24,
         "libaaudio.so": 26, "libsync.so": 26, "libneuralnetworks.so": 27}
ARCH = {"arm64_v8a": "aarch64", "x86_64": "x86_64"}
OTHER = ["libz.so.1", "libc.so.6x", "libstdc++.so", "libe0.so.1", "libc++_shared.so", "libandroidx.so", "libssl.so", "libm.so.6", "libgcc_s.so.1", "liblogg.so", "libpython_helper.so", "libpython3x.so", "libpythonic.so.1", "xlibpython3.13.so"]
LIBPY = ["libpython3.13.so", "libpython3.14.so"]


def case_of(tags, arch, needed):
    return {"name": "foo", "ver": "1.0", "py": "cp313", "abi": "cp313", "plats": tags, "ld_paths": [], "dirs": {}, "opts": {},
            "members": [{"p": "foo/m.cpython-313-x.so", "elf": {"machine": ARCH[arch], "needed": needed, "defs": [{"n": "PyInit_m", "ret": 1}]}}, {"p": "foo/__init__.py", "data": ""}]}


def level_cases(tier):
    out = []
    for a in ARCH:
        for l in list(range(0, 48)) + [100, 1000]:
            out.append({"arch": a, "level": l})
        for t in (["android_24_%s", "android_26_%s"], ["android_21_%s", "linux_%s"], ["android_24_x86_64", "android_24_arm64_v8a"], ["android_%s"]):
            out.append({"arch": a, "tags": [x % a if "%" in x else x for x in t]})
    return out


def check_level(c, ctx):
    a = c["arch"]
    names = list(SINCE)
    if "tags" in c:
        m = Mat(case_of(c["tags"], a, ["libc.so"]), ctx.dir)
        for argv in (["show", "--json"], repairs.repair_args(m, {})):
            r = harness.cli([*argv, m.wheel], cwd=m.cwd, env=m.env(), tmpdir=m.tmp)
            if r.rc in (0, None) or "overall_tag" in r.out: raise Violation(f"platform tags {c['tags']} are accepted: {r!r}")
        if os.listdir(m.out): raise Violation("output in spite of an error")
        ctx.label("several tags"); ctx.nontrivial()
        return
    l = c["level"]
    tag = f"android_{l}_{a}"
    have = [n for n in names if SINCE[n] <= l]
    for sub, needed in (("all", names + LIBPY + OTHER[:3]), ("have", (have or ["libc.so"]) + LIBPY)):
        m = Mat(case_of([tag], a, needed), os.path.join(ctx.dir, sub))
        r = harness.cli(["show", "--json", m.wheel], cwd=m.cwd, env=m.env(), tmpdir=m.tmp)
        if l < 21:
            ctx.label("level too low"); ctx.nontrivial()
            if r.rc in (0, None) or "overall_tag" in r.out: raise Violation(f"{tag} is below the oldest policy, but: {r!r}")
            r = harness.cli([*repairs.repair_args(m, {}), m.wheel], cwd=m.cwd, env=m.env(), tmpdir=m.tmp)
            if r.rc in (0, None) or os.listdir(m.out): raise Violation(f"repair of {tag}: {r!r}")
            continue
        if r.rc != 0: raise Violation(f"show fails for {tag}: {r!r}")
        j = json.loads(r.out)
        ext = sorted(j["external_libs"])
        want = sorted(set(names) - set(have) | set(OTHER[:3])) if sub == "all" else []
        if ext != want: raise Violation(f"{tag}: external libraries {ext}, expected {want}")
        t = tag if sub == "have" else f"linux_{ARCH[a]}"
        if j["overall_tag"] != t: raise Violation(f"{tag}: overall tag {j['overall_tag']}, expected {t}")
        ctx.nontrivial()
        r = harness.cli([*repairs.repair_args(m, {}), m.wheel], cwd=m.cwd, env=m.env(), tmpdir=m.tmp)
        if sub == "have":
            if r.rc != 0 or os.listdir(m.out) != [os.path.basename(m.wheel)]: raise Violation(f"repair of {tag}: {r!r} {os.listdir(m.out)}")
        elif r.rc == 0 or os.listdir(m.out): raise Violation(f"repair of {tag} with libraries nowhere to be found: {r!r} {os.listdir(m.out)}")


@st.composite
def world(draw):
    g = worlds.G(draw)
    case = draw(repairs.repair_world(libcs=("android",), files=2, missing=2, scripts=0, pylib=20, rp=40))
    a = case["plats"][0].split("_", 2)[2]
    case["plats"] = [f"android_{g.one([21, 22, 23, 24, 25, 26, 27, 28, 29, 33, 35, 40])}_{a}"]
    elves = [m for m in case["members"] if "elf" in m] + [f for d in case["dirs"].values() for f in d.values() if "elf" in f]
    for e in elves:
        if g.p(40):
            n = g.one(list(SINCE) + OTHER * 2 + LIBPY)
            if n not in e["elf"].get("needed", []): e["elf"].setdefault("needed", []).append(n)
    for n in {x for e in elves for x in e["elf"].get("needed", [])}:
        if (n in SINCE and SINCE[n] > 21 or n in OTHER) and g.p(75):
            d = g.one(sorted(case["dirs"]))
            case["dirs"][d].setdefault(n, {"elf": {"machine": ARCH[a], "needed": ["libc.so"], "soname": n}, "mode": 0o755})
    case["opts"].pop("plat", None)
    case["ldarg"] = g.p(65)
    case["hostpath"] = g.p(40)
    case["llp"] = g.p(40)
    case["members"] = [m for m in case["members"] if not ("elf" in m and m["elf"].get("interp"))]
    return case


HOST = "/usr/lib/x86_64-linux-gnu"


def check_world(case, ctx):
    if not any("elf" in m for m in case["members"]): return
    arg = case["ldarg"]
    c2 = dict(case)
    if not arg: c2["ld_paths"] = []
    m = Mat(c2, ctx.dir)
    ld = m.ldargs() if arg else []
    env = {"LD_LIBRARY_PATH": ":".join(m.X + "/" + d for d in case["dirs"])} if case["llp"] else {}
    env["SOURCE_DATE_EPOCH"] = "1600000000"
    x = repairs.expected(c2, m)
    # ---- show
    r = harness.cli(["show", "--json", *ld, m.wheel], cwd=m.cwd, env=m.env(env), tmpdir=m.tmp)
    ctx.label("paths given" if arg else "no paths", f"api:{case['plats'][0].split('_')[1]}")
    if x.A is None:
        ctx.label("rejected")
        if r.rc in (0, None): raise Violation(f"show accepts a wheel to reject ({x.refuse}): {r!r}")
    else:
        if r.rc != 0: raise Violation(f"show fails: {r!r}")
        j = json.loads(r.out)
        want = {s: m.real(p) for s, p in x.A.ext[x.A.pols[1].name].items()}
        if j["external_libs"] != want: raise Violation(f"external libraries {j['external_libs']}, expected {want} ({'with' if arg else 'without'} --ldpaths)")
        t = x.A.pols[x.A.i_show].name
        if j["overall_tag"] != t: raise Violation(f"overall tag {j['overall_tag']}, expected {t}")
        if any(v and not v.startswith(m.X + "/") for v in want.values()): raise Violation(f"a library outside the search paths: {want}")
    before = tree_state(m.X, os.path.dirname(m.wheel))
    r = harness.cli(repairs.repair_args(m, case["opts"]) + ld + [m.wheel], cwd=m.cwd, env=m.env(env), tmpdir=m.tmp)
    if tree_state(m.X, os.path.dirname(m.wheel)) != before: raise Violation("repair changes files other than its output")
    got = repairs.outputs(m)
    if x.refuse:
        ctx.label("refused:" + x.refuse)
        ctx.nontrivial()
        if r.rc in (0, None) or got: raise Violation(f"repair must refuse this wheel ({x.refuse}): {r!r} {got}")
        return
    if r.rc != 0: raise Violation(f"repair fails, expected {x.name}: {r!r}")
    if got != [x.name]: raise Violation(f"output {got}, expected {x.name}")
    w = Whl(os.path.join(m.out, x.name))
    ctx.label(f"grafts:{min(3, len(x.grafts))}")
    ctx.nontrivial(bool(x.grafts))
    if w.name.rsplit("-", 1)[1] != case["plats"][0] + ".whl": raise Violation(f"the tag changed: {w.name}")
    if x.ambiguous: return
    outputs.payload(c2, m, x, w)
    outputs.tags(c2, m, x, w)
    outputs.rpaths(c2, m, x, w)
    outputs.grafts(c2, m, x, w)
    outputs.record(w)


PROP = Prop("C30", [Leg("levels", None, check_level, 1, 1, enum=level_cases), Leg("worlds", lambda t: world(), check_world, 700, 20000)],
            rule="(levels) every API level from 0 to 47, 100 and 1000 and wheels with several platform tags, for both architectures, with a wheel that needs all platform libraries and one that needs those of its level, complete; (worlds) generated wheels and library directories, search paths by --ldpaths, AUDITWHEEL_LD_LIBRARY_PATH or not given at all, decoys in LD_LIBRARY_PATH; non-trivial: a verdict from the level, a refusal, or something grafted",
            technique="exhaustive enumeration of API levels against the levels at which the NDK introduced its libraries; property-based testing (Hypothesis) against the reference model of audit and repair",
            level_note="Random search; the level table is complete for the policies in the repository. Trusts: reference model, ELF reader, zip reader.")
