"""C13: a repaired wheel passes its own audit, and repairing it again is a no-op."""
import json
import os

from hypothesis import strategies as st

from vlib import harness, repairs, worlds
from vlib.elfread import Elf
from vlib.harness import Leg, Prop, Skip, Violation
from vlib.wheelgen import Whl


def check(case, ctx):
    case["opts"].pop("noisa", None)
    env = {}
    if "pkgs" in case:
        d = os.path.join(ctx.dir, "bin"); os.mkdir(d)
        with open(os.path.join(d, "dpkg"), "w") as f: f.write('#!/bin/sh\ncase "$1" in -S) echo "pkg$(basename "$2" | tr -dc a-z0-9): $2";; -s) echo "Version: 1.0-1";; esac\n')
        os.chmod(os.path.join(d, "dpkg"), 0o755)
        env = {"PATH": d + ":" + harness.BASE_ENV["PATH"]}
    res = repairs.run_and_expect(case, ctx, env=env)
    if res is None: return
    m, x, r, w = res
    if x.ambiguous: raise Skip
    A = x.A
    path = os.path.join(m.out, x.name)
    # the machine the wheel was built on is gone
    away = m.X + ".gone"
    os.rename(m.X, away)
    s = harness.cli(["show", "--json", "--ldpaths", "", path], cwd=m.cwd, tmpdir=m.tmp)
    if s.rc != 0: raise Violation(f"show fails on the repaired wheel: {s!r}\n{s.err[-800:]}")
    j = json.loads(s.out)
    names = [p.name for p in A.pols]
    # the policies this wheel is audited against are those of its architecture and libc
    req = x.plan["requested"]
    if j["overall_tag"] not in names: raise Violation(f"show reports {j['overall_tag']}, unknown for {A.libc} {A.arch}")
    got = names.index(j["overall_tag"])
    want = min(x.plan["first"], A.i_fpe) if x.plan["overall"] else 0
    if got < want and x.plan["overall"]: raise Violation(f"repaired to {names[x.plan['first']]}, but its audit reports {j['overall_tag']}: {s.out}")
    up = j["policy_upgrades"].get(x.pol.name, {}).get("libs_to_eliminate")
    if up: raise Violation(f"repaired to {x.pol.name}, but its audit reports the external libraries {up}")
    # a second repair
    out2 = os.path.join(ctx.dir, "out2")
    os.makedirs(out2)
    r2 = repairs.repair(m, x.opts, out=out2, wheels=[path], ldpaths=False, env={"AUDITWHEEL_LD_LIBRARY_PATH": None, **env})
    if r2.rc != 0: raise Violation(f"the second repair fails: {r2!r}\n{r2.err[-1200:]}")
    o = os.listdir(out2)
    if o != [x.name]: raise Violation(f"the second repair writes {o}, the first {x.name}")
    v = Whl(os.path.join(out2, x.name))
    if sorted(v.files) != sorted(w.files): raise Violation(f"the second repair adds {sorted(set(v.files) - set(w.files))} and removes {sorted(set(w.files) - set(v.files))}")
    for n in w.files:
        if n == w.di + "/RECORD" or v.data[n] == w.data[n]: continue
        if w.data[n][:4] != b"\x7fELF": raise Violation(f"the second repair changes {n}: {w.data[n][:200]!r} -> {v.data[n][:200]!r}")
        a, b = Elf(w.data[n]), Elf(v.data[n])
        if (a.needed, a.soname, a.rpath, a.runpath) != (b.needed, b.soname, b.rpath, b.runpath): raise Violation(f"the second repair changes {n}: {a.needed, a.soname, a.rpath, a.runpath} -> {b.needed, b.soname, b.rpath, b.runpath}")
    if w.mode != v.mode: raise Violation("the second repair changes permissions")
    ctx.nontrivial(bool(x.rewired))
    if x.rewired: ctx.label("rewired")
    if any(n.endswith(".cdx.json") for n in w.files): ctx.label("with an SBOM")


@st.composite
def cases(draw):
    case = draw(repairs.repair_world(files=2, missing=1, reqs=1, noupdate=5, scripts=12, pylib=4, twin=15))
    if draw(worlds.weighted(35)): case["pkgs"] = "all"
    return case


PROP = Prop("C13", [Leg("twice", lambda t: cases(), check, 560, 12000)],
            rule="a generated wheel is repaired, its libraries are taken away, the output is audited and repaired again; non-trivial: the first repair rewired a file",
            technique="property-based testing (Hypothesis): repair / show / repair histories, idempotence and self-consistency",
            level_note="Random search over wheels and options; only the outputs are compared with each other, with the policies of the reference model for the order of tags.")
