"""C12: filename and WHEEL metadata of a repaired wheel name the same, right platforms."""
from hypothesis import strategies as st

from vlib import harness, outputs, repairs, worlds
from vlib.harness import Leg, Prop, Violation
from vlib.wheelgen import Whl, wheel_tags


@st.composite
def world(draw):
    c = draw(repairs.repair_world(files=1, scripts=5, missing=1, reqs=1, noupdate=10, dup=5))
    g = worlds.G(draw)
    h = {}
    if all(t.startswith("linux_") for t in c["plats"]) and g.p(20): c["plats"] = g.one([["any"] + c["plats"], ["any"]]); h["purelib"] = g.one(["true", "true", "false"])
    if g.p(40): h["generator"] = g.one(["bdist_wheel (0.40.0)", "ünicode 1", "x: y; z", "very " * 30 + "long", "  spaced", "maturin"])
    if g.p(30): h["extra"] = [[g.one(["X-Other", "Build", "Tagx", "X-Tag", "tAg2"]), g.one(["1", "cp312-cp312-linux_x86_64", "ü", "a=b"])] for _ in range(g.n(1, 2))]
    if g.p(25): h["tags_first"] = True
    if "tags" not in h and g.p(15): h["purelib"] = g.one(["true", "true", "True", "false"])
    if "tags" not in h and g.p(25):
        t = wheel_tags(c)
        k = g.n(0, 3)
        if k == 0: t = t[:1]
        elif k == 1: t = t + [f"py3-none-{c['plats'][0]}"]
        elif k == 2: t = list(reversed(t))
        else: t = t + [t[0].rsplit("-", 1)[0] + "-" + g.one(["manylinux_2_17_x86_64", "linux_x86_64", "win32", "linux_aarch64"])]
        h["tags"] = list(dict.fromkeys(t))
    if h: c["whl"] = h
    return c


@st.composite
def known(draw):
    """the WHEEL of a wheel named `any` lists already the tags that the repair is going to give it"""
    c = draw(repairs.repair_world(files=1, scripts=5, missing=0, reqs=0, libcs=("glibc",), arches=["x86_64"], plat=False))
    g = worlds.G(draw)
    c["plats"] = ["any"]
    lv = g.one([["manylinux1_x86_64", "manylinux_2_5_x86_64"], ["manylinux2014_x86_64", "manylinux_2_17_x86_64"], ["manylinux_2_28_x86_64"], ["manylinux_2_39_x86_64"]])
    if g.p(80): c["opts"].update(plat=lv[-1], only_plat=True)
    if g.p(20): lv = lv[:1]
    c["whl"] = {"purelib": g.one(["true", "true", "false"]), "tags": [f"{p}-{a}-{t}" for p in c["py"].split(".") for a in c["abi"].split(".") for t in lv]}
    return c


def check(case, ctx):
    res = repairs.run_and_expect(case, ctx)
    if res is None: return
    m, x, r, w = res
    outputs.tags(case, m, x, w)
    ctx.nontrivial()
    if x.opts.get("no_update"): return
    # the names of the archive and of WHEEL agree when they did before
    hw = [v for k, v in outputs.headers(w.data[w.di + "/WHEEL"].decode("utf-8", "surrogateescape")) if k == "Tag"]
    if not (case.get("whl") or {}).get("tags"):
        want = {f"{p}-{a}-{t}" for p in case["py"].split(".") for a in case["abi"].split(".") for t in x.plats}
        if set(hw) != want: raise Violation(f"WHEEL says {sorted(hw)}, the name {sorted(want)}")
    if len(x.abis) > 2: ctx.label("two policies")
    if case["plats"] == ["any"]: ctx.label("any replaced")
    if set(case["plats"]) & set(x.plats): ctx.label("platform kept")


PROP = Prop("C12", [Leg("repair", lambda t: world(), check, 720, 16000), Leg("known-tags", lambda t: known(), check, 64, 1600)],
            rule="a wheel is repaired and its name and WHEEL compared with what the policy demands; non-trivial: the repair succeeded",
            technique="property-based testing (Hypothesis): name and WHEEL of the repaired wheel against a reference model",
            level_note="Random search over tag sets, WHEEL contents, platforms and options; expected tags are computed by the reference model.")
