"""C21: a repaired Linux wheel never links against libpython."""
import fnmatch
import posixpath
import re

from hypothesis import strategies as st

from vlib import outputs, repairs, worlds
from vlib.elfread import Elf
from vlib.harness import Leg, Prop, Skip, Violation
from vlib.wheelgen import Whl

PYS = ["libpython3.12.so.1.0", "libpython3.9m.so.1.0", "libpython3.13.so", "libpython3.13t.so.1.0", "libpython3.12d.so.1.0", "libpython2.7.so.1.0", "libpython3.14td.so"]
NEAR = ["libpythonic.so", "libpython.so", "libpy.so.1", "mylibpython3.12.so.1.0", "libpython3.12-helper.so", "libboost_python312.so.1.83", "xlibpython3.12.so"]
RE = re.compile(r"libpython\d+\.\d+[a-z]*\.so(\.\d+)*")


def is_py(n): return bool(RE.fullmatch(n))


@st.composite
def world(draw):
    case = draw(repairs.repair_world(pylib=45, missing=1, dup=15, libcs=("glibc", "glibc", "glibc", "glibc", "musl", "android"), optstrip=5))
    g = worlds.G(draw)
    dirs = sorted(case["dirs"])
    elves = [m["elf"] for m in case["members"] if "elf" in m] + [n["elf"] for fs in case["dirs"].values() for n in fs.values() if "elf" in n]
    arch = next((s["machine"] for s in elves if s.get("machine") != "mips"), "x86_64")
    # libpython itself may be there, with libraries of its own
    if g.p(60):
        ext = [n for fs in case["dirs"].values() for n in fs if n.startswith("lib")]
        for n in g.some(PYS, 3):
            d = g.one(dirs)
            if n in case["dirs"][d]: continue
            need = ["libonlypy.so.1"] if g.p(60) else []
            if ext and g.p(50): need.append(g.one(sorted(ext)))
            case["dirs"][d][n] = {"elf": {"machine": arch, "soname": n, "needed": need, "seed": 9000 + len(n)}, "mode": 0o755}
        if g.p(80): case["dirs"][g.one(dirs)]["libonlypy.so.1"] = {"elf": {"machine": arch, "soname": "libonlypy.so.1", "needed": [], "seed": 9999}, "mode": 0o755}
    # names that are no libpython
    if g.p(35):
        n = g.one(NEAR)
        case["dirs"][g.one(dirs)][n] = {"elf": {"machine": arch, "soname": n, "needed": g.some(PYS, 2), "seed": 9500}, "mode": 0o755}
        mine = [m["elf"] for m in case["members"] if "elf" in m and m["elf"].get("machine") == arch]
        for i in g.some(range(len(mine)), 2):
            s = mine[i]
            s["needed"] = list(dict.fromkeys((s.get("needed") or []) + [n]))
    if g.p(15): case["opts"]["exclude"] = [g.one(["libpython3.1*", "libpython3.12.so.1.0", "libpython*", "libe0.so.1"])]
    return case


def check(case, ctx):
    res = repairs.run_and_expect(case, ctx)
    if res is None: return
    m, x, r, w = res
    if x.ambiguous: raise Skip
    src = Whl(m.wheel)
    excl = x.opts.get("exclude", [])
    android = x.A.libc == "android"
    out = w.elves()
    audited = {x.moved.get(p, p): p for p in x.A.trees}
    seen = 0
    for n in w.files:
        b = posixpath.basename(n)
        if (is_py(re.sub("-[0-9a-f]{8}", "", b, count=1)) or b.startswith("libonlypy")) and n not in src.files: raise Violation(f"{n} was grafted")
    for n, e in out.items():
        if n in audited:
            old = Elf(src.data[audited[n]]).needed
            names = {k: v for k, v in x.map[audited[n]].items() if v}
        elif n in x.grafted:
            old = Elf(x.rd(x.grafted[n][0])).needed
            names = {s: x.grafts[q] for s, q in x.gmap[x.grafted[n][0]].items() if q}
        else:
            if src.data.get(n) != w.data[n]: raise Violation(f"{n} is new or changed")
            continue
        drop = [s for s in old if is_py(s) and not android and not any(fnmatch.fnmatchcase(s, q) for q in excl)]
        want = [names.get(s, s) for s in old if s not in drop]
        if e.needed != want: raise Violation(f"{n} needs {e.needed}; the original {old}, expected {want}")
        if drop:
            seen += 1
            ctx.label("graft loses libpython" if n in x.grafted else "wheel's file loses libpython")
            if len(drop) > 1: ctx.label("two at once")
        elif any(is_py(s) for s in old):
            seen += 1; ctx.label("kept on Android" if android else "excluded")
    ctx.nontrivial(seen > 0)


PROP = Prop("C21", [Leg("repair", lambda t: world(), check, 800, 18000)],
            rule="a wheel with libpython entries (all ABI flags) anywhere in its dependency graph, libpython installed or not, and near-miss names, is repaired; non-trivial: a file had a libpython entry",
            technique="property-based testing (Hypothesis): needed entries of every file of the repaired wheel against the rule",
            level_note="Random search; needed entries are read with an independent ELF reader. libpython3.so, the stable-ABI stub, is not counted as libpython.")
