"""C18: equivalent ways of asking for a repair give the same wheel."""
import os

from hypothesis import strategies as st

from vlib import harness, model, repairs, worlds
from vlib.harness import Leg, Prop, Skip, Violation
from vlib.wheelgen import Mat, write_wheel, wheel_name

EPOCH = "1700000000"
KINDS = ["alias", "alias", "env", "env", "override", "auto", "invalid", "several", "several", "spelling", "onlyplat", "onlyplat"]


def policies():
    return [(p["name"], p["aliases"]) for p in model.raw_policies("glibc") if p["name"] != "linux" and "x86_64" in p["symbol_versions"]]


@st.composite
def cases(draw):
    g = worlds.G(draw)
    k = g.one(KINDS)
    case = draw(repairs.repair_world(files=1, reqs=0 if g.p(60) else 1, missing=1, scripts=10, pylib=3, dup=8, rp=10, plat=False, sdirs=False, arches=["x86_64"] if k != "several" else None,
                                     libcs=("glibc", "glibc", "glibc", "musl") if k != "several" else ("glibc", "glibc", "musl", "android")))
    o = case["opts"]
    o.pop("z", None)
    case["kind"] = k
    pols = policies()
    withal = [p for p in pols if p[1]]
    if k == "alias": case["pick"] = list(g.one([(p, a) for p, al in withal for a in al]))
    if k in ("env", "override", "spelling"):
        case["v"] = {}
        if g.p(60): case["v"]["plat"] = g.one(repairs.host_plats() + ["auto"])
        if g.p(60) or not case["v"]: case["v"]["z"] = g.n(0, 9)
        if g.p(30): case["v"]["patcher"] = g.one(["patchelf", "patchelf", "none"])
        case["w"] = {"plat": g.one(repairs.host_plats() + ["auto"]), "z": g.n(0, 9), "patcher": g.one(["patchelf", "none"])}
    if k == "spelling": case["sdir"] = g.one([".libs", "_x", ".d"])
    if k == "invalid":
        case["bad"] = g.one([["plat", x] for x in ["manylinux_2_17_aarch64", "linux_x86_64", "manylinux_2_6_x86_64", "x", "manylinux2014", "MANYLINUX2014_X86_64", "", "manylinux_2_17_x86_64 ", "musllinux_1_2_x86_64"]]
                            + [["z", x] for x in ["10", "-1", "abc", "", "1.5", "99"]] + [["patcher", x] for x in ["Patchelf", "", "lief", "chrpath"]])
        case["via"] = g.one(["opt", "env"])
    if k == "several":
        case["more"] = []
        for i in range(g.n(1, 2)):
            c = draw(repairs.repair_world(files=1, reqs=0, missing=0, scripts=8, pylib=2, dup=5, rp=5, plat=False, sdirs=False))
            c["name"] = f"w{i}"
            case["more"].append(c)
        for q in ("only_plat", "no_update"): o.pop(q, None)
        case["order"] = g.n(0, 5)
        if g.p(30): o["sdir"] = "_l"
    if k == "onlyplat": o["plat"] = g.one(repairs.host_plats())
    return case


ENV = {"plat": "AUDITWHEEL_PLAT", "z": "AUDITWHEEL_ZIP_COMPRESSION_LEVEL", "patcher": "AUDITWHEEL_PATCHER"}
OPT = {"plat": "--plat", "z": "-z", "patcher": "--patcher"}


class Run:
    def __init__(self, m, wheels, opts, env=None, args=(), ld=None):
        self.out = os.path.join(m.root, f"o{len(os.listdir(m.root))}")
        os.mkdir(self.out)
        e = m.env({"SOURCE_DATE_EPOCH": EPOCH, **(env or {})})
        a = repairs.repair_args(m, opts, self.out) + list(args) + (ld or m.ldargs()) + wheels
        self.r = harness.cli(a, cwd=m.cwd, env=e, tmpdir=m.tmp)
        self.args = a
        self.files = {}
        for n in os.listdir(self.out):
            with open(os.path.join(self.out, n), "rb") as f: self.files[n] = f.read()


def same(a, b, what):
    if (a.r.rc == 0) != (b.r.rc == 0): raise Violation(f"{what}: exit status {a.r.rc} and {b.r.rc}\n{a.r.err[-600:]}\n----\n{b.r.err[-600:]}")
    if sorted(a.files) != sorted(b.files): raise Violation(f"{what}: outputs {sorted(a.files)} and {sorted(b.files)}")
    for n in a.files:
        if a.files[n] != b.files[n]: raise Violation(f"{what}: {n} differs")


def check(case, ctx):
    k = case["kind"]
    m = Mat(case, ctx.dir)
    o = case["opts"]
    ctx.label(k)
    w = [m.wheel]
    if k == "alias":
        n, a = (q + "_x86_64" for q in case["pick"])
        if case["pick"][0].startswith("musl"): raise Skip
        x, y = Run(m, w, dict(o, plat=n)), Run(m, w, dict(o, plat=a))
        same(x, y, f"--plat {n} / --plat {a}")
        ctx.nontrivial(x.r.rc == 0)
    elif k in ("env", "override"):
        v = case["v"]
        opts = [t for q, val in v.items() for t in (OPT[q], str(val))]
        x = Run(m, w, o, args=opts)
        if k == "env": y = Run(m, w, o, env={ENV[q]: str(val) for q, val in v.items()}); what = "as options / in the environment"
        else: y = Run(m, w, o, args=opts, env={ENV[q]: str(case["w"][q]) for q in v}); what = f"options without / with other values in the environment {case['w']}"
        same(x, y, f"{v} {what}")
        ctx.nontrivial(x.r.rc == 0)
        if x.r.rc == 0: ctx.label("succeeds")
        # the compression level counts
        if x.r.rc == 0 and "z" in v and v["z"] == 0:
            import io
            import zipfile
            for d in x.files.values():
                with zipfile.ZipFile(io.BytesIO(d)) as z:
                    for i in z.infolist():
                        if i.compress_size < i.file_size: raise Violation(f"-z 0 compresses {i.filename}")
    elif k == "spelling":
        v = {q: val for q, val in case["v"].items() if q != "patcher"}
        short = [t for q, val in v.items() for t in (OPT[q], str(val))] + ["-L", case["sdir"]]
        long = ["--lib-sdir=" + case["sdir"]] + [f"{'--zip-compression-level' if q == 'z' else OPT[q]}={val}" for q, val in v.items()] + ["--patcher=patchelf"]
        x, y = Run(m, w, o, args=short), Run(m, w, o, args=long)
        same(x, y, f"{short} / {long}")
        ctx.nontrivial(x.r.rc == 0)
    elif k == "auto":
        x = Run(m, w, dict(o, plat="auto"))
        e = repairs.expected(case, m, dict(o))
        if e.refuse: raise Skip
        if e.A.libc != "glibc": raise Skip
        y = Run(m, w, o)
        same(x, y, "--plat auto / no --plat")
        z = Run(m, w, dict(o, plat=e.pol.name))
        same(x, z, f"--plat auto / --plat {e.pol.name}")
        ctx.nontrivial(x.r.rc == 0)
    elif k == "invalid":
        q, val = case["bad"]
        x = Run(m, w, o, args=[f"{'--zip-compression-level' if q == 'z' else OPT[q]}={val}"]) if case["via"] == "opt" else Run(m, w, o, env={ENV[q]: val})
        if case["via"] == "env" and val == "" and x.r.rc == 0:
            same(x, Run(m, w, o), f"{ENV[q]} empty / unset")      # an empty variable may count as unset
        elif x.r.rc == 0 or x.files: raise Violation(f"invalid value {val!r} for {q} ({case['via']}) is accepted: exit {x.r.rc}, output {sorted(x.files)}")
        ctx.nontrivial()
    elif k == "several":
        ms = [m] + [Mat(c, os.path.join(ctx.dir, f"m{i}")) for i, c in enumerate(case["more"])]
        ld = ["--ldpaths", ":".join(filter(None, [q.ldargs()[1] for q in ms] + [e for q in ms for e in [q.env().get("AUDITWHEEL_LD_LIBRARY_PATH")]]))]
        ws = [q.wheel for q in ms]
        r = case["order"] % len(ws)
        ws = ws[r:] + ws[:r]
        noenv = {"AUDITWHEEL_LD_LIBRARY_PATH": None}
        singles = [Run(m, [p], o, ld=ld, env=noenv) for p in ws]
        both = Run(m, ws, o, ld=ld, env=noenv)
        ok = next((i for i, s in enumerate(singles) if s.r.rc != 0), len(singles))
        want = {}
        for s in singles[:ok]: want.update(s.files)
        if sorted(want) != sorted(both.files): raise Violation(f"one command writes {sorted(both.files)}, single commands {sorted(want)} (the first {ok} of {len(ws)} succeed)")
        for n in want:
            if want[n] != both.files[n]: raise Violation(f"{n} differs between one command for {len(ws)} wheels and one command per wheel")
        if (both.r.rc == 0) != (ok == len(singles)): raise Violation(f"one command exits {both.r.rc}, single commands {[s.r.rc for s in singles]}")
        ctx.nontrivial(ok > 1)
        ctx.label(f"several:{ok} of {len(ws)}")
    elif k == "onlyplat":
        for only in (True, False):
            oo = dict(o); oo.pop("only_plat", None)
            if only: oo["only_plat"] = True
            e = repairs.expected(case, m, oo)
            x = Run(m, w, oo)
            if e.refuse:
                if x.r.rc == 0: raise Violation(f"must be refused ({e.refuse})")
                return
            if x.r.rc != 0: raise Violation(f"repair fails: {x.r!r}")
            if list(x.files) != [e.name]: raise Violation(f"output {sorted(x.files)}, expected {e.name} (--only-plat: {only})")
            if only: first = list(x.files)
        ctx.nontrivial()
        if first != list(x.files): ctx.label("more compatible tag too")


PROP = Prop("C18", [Leg("equivalences", lambda t: cases(), check, 880, 20000)],
            rule="two or more ways to ask for the same repair of a generated wheel are run and the output directories compared byte for byte; non-trivial: the repair succeeds (or an invalid value is tried)",
            technique="property-based testing (Hypothesis): metamorphic equality between option, environment, alias and batch forms; reference model for --only-plat",
            level_note="Random search over wheels and options of the x86_64 host (--plat offers only the host's platforms).")
