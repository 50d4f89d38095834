"""C17: repair is reproducible."""
import os
import posixpath
import shutil
import time
import zipfile

from hypothesis import strategies as st

from vlib import harness, outputs, pkgs, repairs, worlds, zygote
from vlib.harness import Leg, Prop, Skip, Violation
from vlib.wheelgen import Mat, write_wheel

LAST = 4354819199       # 2107-12-31 23:59:59


@st.composite
def cases(draw):
    case = draw(repairs.repair_world(files=2, reqs=1, missing=0, scripts=20, pylib=4, extras=True, dup=15, noupdate=5, optstrip=8, copies=35))
    g = worlds.G(draw)
    case["epoch"] = g.one([0, 1, 315532799, 315532800, 315532801, 1600000001, 1700000000, 951782399, LAST, LAST - 1, -1, g.n(0, LAST), g.n(0, LAST)])
    case["vary"] = {k: True for k in ("seed", "tmp", "umask", "listing", "cwd", "mtime", "zip", "tz", "time", "out") if g.p(55)}
    if g.p(40): case["pkgs"] = pkgs.draw_pkgs(g, pkgs.lib_files(case))
    case["pert"] = {"umask": g.one([0o077, 0o002, 0, 0o027]), "listing": g.n(0, 9999), "zip": g.n(0, 99), "tz": g.one(["Pacific/Kiritimati", "America/New_York", "XYZ-13:37"]), "time": g.one([-3 * 10**8, 10**8, 86400]), "seed": g.one([1, 2, 3])}
    return case


def expected_order(names):
    """directories after the files of their parent, dist-info last, RECORD after its siblings"""
    def key(n):
        parts = n.rstrip("/").split("/")
        isdir = n.endswith("/")
        k = []
        for i, p in enumerate(parts):
            last = i == len(parts) - 1
            d = isdir or not last
            di = i == 0 and d and p.endswith(".dist-info")
            rec = last and not d and p == "RECORD" and len(parts) == 2 and parts[0].endswith(".dist-info")
            k.append((1 if d else 0, 1 if di or rec else 0, p))
        return k
    return sorted(names, key=key)


def check(case, ctx):
    m = Mat(case, ctx.dir)
    x = repairs.expected(case, m)
    if x.refuse: raise Skip
    ep = case["epoch"]
    env = m.env({"SOURCE_DATE_EPOCH": str(ep)})
    if "pkgs" in case: env["PATH"] = pkgs.install(case["pkgs"], m); ctx.label("packages known")
    args = repairs.repair_args(m, x.opts) + m.ldargs() + [m.wheel]
    a = harness.cli(args, cwd=m.cwd, env=env, tmpdir=m.tmp)
    if a.rc != 0: raise Violation(f"repair fails: {a!r}")
    v, p = case["vary"], case["pert"]
    kw = {"cwd": m.cwd, "env": dict(env), "tmpdir": m.tmp}
    wheel = m.wheel
    o = {}
    out2 = os.path.join(ctx.dir, "out2")
    if "tmp" in v:
        kw["tmpdir"] = os.path.join(ctx.dir, "another directory for", "tmp files")
        os.makedirs(kw["tmpdir"])
    if "umask" in v: kw["umask"] = p["umask"]
    if "listing" in v: o["listing"] = p["listing"]
    if "time" in v: o["time"] = p["time"]
    if "tz" in v: kw["env"]["TZ"] = p["tz"]
    if "zip" in v:      # the same files, archived differently
        c2 = dict(case, zip=dict(case.get("zip") or {}, order=p["zip"], comp=8 - (case.get("zip") or {}).get("comp", 8), date=[2011, 11, 11, 11, 11, 12]))
        os.makedirs(os.path.join(ctx.dir, "in2"))
        wheel = os.path.join(ctx.dir, "in2", os.path.basename(m.wheel))
        write_wheel(c2, wheel, m.X)
    if "mtime" in v:
        os.utime(wheel, (10**9, 10**9))
        for d, _, fs in os.walk(m.X):
            for f in fs: os.utime(os.path.join(d, f), (10**9 + 7, 10**9 + 77), follow_symlinks=False)
    if "out" in v: out2 = os.path.join(ctx.dir, "out2", "wheels here")
    args = repairs.repair_args(m, x.opts, out2) + m.ldargs() + [wheel]
    if "cwd" in v:
        kw["cwd"] = os.path.join(ctx.dir, "in2x"); os.makedirs(kw["cwd"])
        args[-1] = os.path.relpath(wheel, kw["cwd"])
        args[args.index("-w") + 1] = os.path.relpath(out2, kw["cwd"])
        if case.get("env_paths") is None and False: pass
    b = zygote.run(p["seed"] if "seed" in v else 0, (args, kw, o))
    if b["rc"] != 0: raise Violation(f"repair works, but not with {sorted(v)} changed: {b['rc']} {b['exc']}\n{b['err'][-1200:]}")
    n1, n2 = os.listdir(m.out), os.listdir(out2)
    if n1 != n2: raise Violation(f"outputs {n1} and, with {sorted(v)} changed, {n2}")
    f1, f2 = os.path.join(m.out, n1[0]), os.path.join(out2, n1[0])
    with open(f1, "rb") as fh: d1 = fh.read()
    with open(f2, "rb") as fh: d2 = fh.read()
    if d1 != d2: raise Violation(f"the output differs with {sorted(v)} changed: " + difference(f1, f2))
    t = max(ep, 315532800)
    want = time.gmtime(t)[:5] + (time.gmtime(t)[5] // 2 * 2,)
    with zipfile.ZipFile(f1) as z:
        for i in z.infolist():
            if i.date_time != want: raise Violation(f"{i.filename} carries {i.date_time}, SOURCE_DATE_EPOCH={ep} is {want}")
        names = z.namelist()
    if names != expected_order(names):
        raise Violation(f"members are not in sorted order: {names}")
    ctx.nontrivial(bool(x.grafts) and bool(v))
    ctx.label(f"grafts:{min(len(x.grafts), 4)}", *("vary:" + k for k in v))


def difference(f1, f2):
    with zipfile.ZipFile(f1) as a, zipfile.ZipFile(f2) as b:
        ia, ib = a.infolist(), b.infolist()
        if [i.filename for i in ia] != [i.filename for i in ib]: return f"members {a.namelist()} and {b.namelist()}"
        for i, j in zip(ia, ib):
            if a.read(i) != b.read(j):
                x, y = a.read(i), b.read(j)
                k = next((q for q in range(min(len(x), len(y))) if x[q] != y[q]), min(len(x), len(y)))
                return f"content of {i.filename} from byte {k}: {x[max(0, k - 40):k + 80]!r} / {y[max(0, k - 40):k + 80]!r}"
            for at in ("external_attr", "date_time", "compress_type", "compress_size", "create_system", "extra", "flag_bits"):
                if getattr(i, at) != getattr(j, at): return f"{at} of {i.filename}: {getattr(i, at)!r} / {getattr(j, at)!r}"
    return "archive structure"


PROP = Prop("C17", [Leg("reproducible", lambda t: cases(), check, 640, 16000)],
            rule="a generated wheel is repaired twice with the same SOURCE_DATE_EPOCH, the second time with a random subset of changed surroundings (hash seed, TMPDIR, umask, directory-listing order, cwd, file times, archive order and compression of the input, time zone, clock, output directory); non-trivial: a library is grafted and something is varied",
            technique="property-based testing (Hypothesis): metamorphic relation between two runs (byte equality of the outputs), second run in an interpreter with another hash seed",
            level_note="Three other hash seeds; directory-listing order is varied by replacing os.listdir / os.scandir in the process under test.")
