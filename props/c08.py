"""C08: excluded libraries, and only they, are left out."""
import fnmatch
import os
import posixpath

from hypothesis import strategies as st

from vlib import outputs, repairs, worlds
from vlib.audit import show
from vlib.elfread import Elf
from vlib.harness import Leg, Prop, Skip, Violation


@st.composite
def world(draw):
    c = draw(repairs.repair_world(missing=1, dup=20, scripts=8, plat=False, pylib=6, rp=40, libcs=("glibc", "glibc", "glibc", "glibc", "musl")))
    g = worlds.G(draw)
    files = sorted((d, n) for d, fs in c["dirs"].items() for n in fs)
    names = list(dict.fromkeys(n for _, n in files)) or ["libx.so"]
    ex = []
    for _ in range(g.one([1, 1, 2, 2, 3, 0])):
        n = g.one(names)
        d = g.one(files)[0] if files else "d0"
        k = g.n(0, 21)
        if k < 7: p = n
        elif k < 10: p = n.split(".")[0] + "*"
        elif k == 10: p = n[:4] + "?" + n[5:]
        elif k == 11: p = "lib[eE]" + n[4:]
        elif k == 12: p = f"/X/{d}/*"
        elif k == 13: p = f"/X/{d}/{n}"
        elif k == 14: p = "*/real-*"
        elif k == 15: p = f"*{d}/lib*.so*"
        elif k == 16: p = "lib[!e]*"
        elif k == 17: p = g.one([n.upper(), n[:-1], n + "x", "/" + n, "libE0*", "", "[", "nothing", "/X/*/sub/*"])
        elif k == 18: p = g.one(["libw0*", "libw1.so", "*/libw0.so"])
        elif k == 19: p = g.one(["libpython*", "libc.so.6", "libm.so.?", "libz*", "libmissing*"])
        elif k == 20: p = "*"
        else: p = "*.9.9"
        ex.append(p)
    c["opts"]["exclude"] = list(dict.fromkeys(ex))
    return c


def matches(s, pats):
    return s is not None and any(fnmatch.fnmatchcase(s, p) for p in pats)


def check(case, ctx):
    res = repairs.run_and_expect(case, ctx)
    if res is None: return
    m, x, r, w = res
    pats = [p.replace("/X/", m.X + "/") for p in case["opts"]["exclude"]]
    for real, new in x.grafts.items():
        if matches(m.real(real), pats): raise AssertionError("model grafts an excluded file")
    # nothing excluded is in the wheel, and nothing else is missing
    if not x.ambiguous: outputs.grafts(case, m, x, w)
    src = {p["p"]: p["elf"] for p in case["members"] if "elf" in p}
    n = 0
    for p, spec in src.items():
        if p not in x.map: continue
        q = x.moved.get(p, p)
        e = Elf(w.data[q])
        for s in spec.get("needed") or []:
            if not matches(s, pats): continue
            n += 1
            if s not in e.needed: raise Violation(f"{q}: the excluded {s} is gone from its needed entries {e.needed}")
    for q, e in w.elves().items():
        if posixpath.dirname(q) != x.dest or q in src: continue
        for p in x.by_new.get(posixpath.basename(q), []):
            names = {s for f in x.bind.values() for s, t in f.items() if t == p}
            if names and all(matches(s, pats) for s in names): raise Violation(f"{q}: grafted although every name for it is excluded")
    # without exclusion the same wheel takes in more
    full = repairs.expected(case, m, dict(case["opts"], exclude=[]))
    left = set(full.grafts) - set(x.grafts) if not full.refuse else {"?"}
    ctx.nontrivial(n > 0 or bool(left))
    ctx.label(f"left out:{min(len(left), 4)}")
    if left and x.grafts: ctx.label("some left out, some grafted")
    if not left: ctx.label("pattern without effect")


def check_none(case, ctx):
    """patterns that match nothing change nothing"""
    from vlib.wheelgen import Mat
    m = Mat(case, ctx.dir)
    o = dict(case["opts"])
    none = [p for p in o.pop("exclude") if not any(fnmatch.fnmatchcase(s, p.replace("/X/", m.X + "/")) for s in everything(case, m))] + ["no-such-library*", "/no/such/dir/*", "lib"]
    outs = []
    for i, opts in enumerate((dict(o), dict(o, exclude=none))):
        out = os.path.join(ctx.dir, f"o{i}")
        os.makedirs(out)
        r = repairs.repair(m, opts, out=out, env={"SOURCE_DATE_EPOCH": "1600000000"})
        outs.append((r.rc, {f: open(os.path.join(out, f), "rb").read() for f in os.listdir(out)}))
        s, j = show(m)
    if outs[0] != outs[1]: raise Violation(f"--exclude {none} matches nothing but changes the result: {outs[0][0], list(outs[0][1])} and {outs[1][0], list(outs[1][1])}")
    ctx.nontrivial(outs[0][0] == 0)


def everything(case, m):
    out = []
    for x in case["members"]:
        if "elf" in x: out += x["elf"].get("needed") or []
    for d, fs in case["dirs"].items():
        for n, f in fs.items():
            out += [n, f"{m.X}/{d}/{n}", os.path.realpath(f"{m.X}/{d}/{n}")]
            if "elf" in f: out += f["elf"].get("needed") or []
    return out


PROP = Prop("C08", [Leg("repair", lambda t: world(), check, 720, 16000), Leg("noeffect", lambda t: world(), check_none, 160, 3000)],
            rule="a repairable wheel with generated exclude patterns on names, paths and link targets (exact, globs, character sets, other case, matching nothing); non-trivial: something was left out, or an excluded name occurs in a needed entry",
            technique="property-based testing (Hypothesis): repaired wheel against a reference model of the exclusion; metamorphic: patterns that match nothing",
            level_note="Random search; the reference model decides which libraries remain reachable without going through excluded ones.")
