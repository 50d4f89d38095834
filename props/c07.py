"""C07: loader search-path configuration is read as the loader reads it."""
import fnmatch
import os
import posixpath
import re
import subprocess

from hypothesis import strategies as st

from vlib import harness, worlds
from vlib.harness import Leg, Prop, Violation
from vlib.wheelgen import elf_bytes

LDCONFIG = "/sbin/ldconfig.real" if os.path.exists("/sbin/ldconfig.real") else "/sbin/ldconfig"
DIRS = ["a", "b", "c", "a/x", "with space", "d-1.0", "é", "lib64"]
BLANK = ["", "", "", " ", "\t", "  \t"]


@st.composite
def conf_tree(draw):
    g = worlds.G(draw)
    have = g.some(DIRS, 6)
    case = {"dirs": have, "files": {}}
    names = ["etc/ld.so.conf"]
    sub = [f"etc/conf.d/{n}" for n in g.some(["10-a.conf", "9-b.conf", "Z.conf", "a.conf", "b.conf", ".hidden.conf", "x.txt", "é.conf", "sp ace.conf"], 5)]
    deep = [f"opt/{n}" for n in g.some(["1.conf", "2.conf", "sub/3.conf"], 3)]
    names += sub + deep

    def dir_line():
        d = "/" + g.one(DIRS + ["nothere"])
        k = g.n(0, 9)
        if k == 0: d += "/"
        if k == 1: d = "/" + d
        if k == 2: d = d + "/."
        return d
    cyc = g.p(8)
    for i, n in enumerate(names):
        later = names if cyc and g.p(60) else names[i + 1:]
        lines = []
        for _ in range(g.n(0 if i else 1, 5)):
            k = g.n(0, 19)
            tail = g.one(["", "", "", " # comment", "#x", " \t", "\t#"])
            if k < 10: lines.append(g.one(BLANK) + dir_line() + tail)
            elif k < 17 and (later or g.p(30)):
                pats = []
                for _ in range(g.one([1, 1, 1, 2])):
                    # mostly only files later in the list are included: no cycles
                    if later and n.startswith("etc/") and "/" not in n[4:] and g.p(60): p = g.one(["conf.d/*.conf", "/etc/conf.d/*.conf", "conf.d/*", "/etc/conf.d/[a9]*", "./conf.d/?.conf", "/opt/*.conf", "/opt/sub/*.conf", "../opt/*.conf"])
                    elif later:
                        t = g.one(later)
                        if " " in t or any(c in t for c in "*?["): continue
                        p = "/" + t if g.p(60) else posixpath.relpath(t, posixpath.dirname(n))
                    else: p = g.one(["/etc/none*.conf", "none.conf", "/a", "/no/such/*.conf"])
                    pats.append(p)
                if pats: lines.append(g.one(BLANK) + "include" + g.one([" ", " ", " ", "  ", "\t", " \t "]) + g.one([" ", " ", "\t"]).join(pats) + tail)
            else: lines.append(g.one(["", "#", "# include /etc/conf.d/*.conf", "   ", "\t", "hwcap 0 nosegneg" if g.p(20) else "#hwcap", "#\udce9 latin", "includes-not" if False else ""]))
        case["files"][n] = [lines, g.one(["\n", "\n", "\n", "\r\n" if False else "\n", ""])]
    if g.p(4): case["files"].pop("etc/ld.so.conf")
    case["order"] = g.n(0, 9)
    return case


def build(case, R, prefix):
    for d in case["dirs"]: os.makedirs(os.path.join(R, d), exist_ok=True)
    fs = list(case["files"].items())
    os.makedirs(R + "/etc/conf.d", exist_ok=True)
    # creation order decides the order of an unsorted directory listing
    fs = fs[case["order"] % (len(fs) or 1):] + fs[:case["order"] % (len(fs) or 1)]
    if case["order"] % 2: fs.reverse()
    for n, (lines, end) in fs:
        p = os.path.join(R, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        out = []
        for l in lines:
            if prefix:
                if l.strip().startswith("include"): l = re.sub(r"(?<=[ \t])/", R + "/", l)
                elif l.strip().startswith("/"): l = l.replace("/", R + "/", 1)
            out.append(l)
        with open(p, "w", encoding="utf-8", errors="surrogateescape") as f: f.write("\n".join(out) + end)


def parse(case):
    """reference reader: directories in order"""
    out, cycles = [], []

    def read(n, parents=()):
        if n in parents: cycles.append(n)       # says nothing new
        if n not in case["files"] or n in parents: return
        for l in case["files"][n][0]:
            l = l.split("#")[0].strip(" \t")
            if not l: continue
            w = re.split(r"[ \t]+", l)
            if w[0] == "include" and len(w) > 1:
                for p in w[1:]:
                    full = posixpath.normpath(p if p.startswith("/") else "/" + posixpath.join(posixpath.dirname(n), p))
                    hits = []
                    for f in sorted(case["files"], key=lambda s: s.encode("utf-8")):
                        a, b = ("/" + f).split("/"), full.split("/")
                        if len(a) == len(b) and all(fnmatch.fnmatchcase(x, y) and not (x.startswith(".") and not y.startswith(".")) for x, y in zip(a, b)): hits.append(f)
                    for f in hits: read(f, (*parents, n))
            elif w[0] == "hwcap": continue
            else:
                d = posixpath.normpath("/" + l.lstrip("/")).lstrip("/")
                if d not in out: out.append(d)
    read("etc/ld.so.conf")
    real = set(case["dirs"])
    for d in case["dirs"]:
        while "/" in d:
            d = posixpath.dirname(d); real.add(d)
    return [d for d in out if d in real], bool(cycles)


def check_conf(case, ctx):
    R = os.path.join(ctx.dir, "R")
    os.makedirs(R)
    build(case, R, False)

    def fn():
        from auditwheel.lddtree import load_ld_paths
        from auditwheel.libc import Libc
        return [list(load_ld_paths(l, root=R + "/")["conf"]) for l in (Libc.GLIBC, None, Libc.GLIBC)]
    r = harness.api(fn, env={"LANG": "C.UTF-8", "LC_ALL": "C.UTF-8"})
    if r.exc: raise Violation(f"reading the configuration fails: {r!r}")
    want, cyclic = parse(case)
    if cyclic: ctx.label("includes itself")
    for i, got in enumerate(r.value):
        mine = [d[len(R) + 1:] for d in got if d.startswith(R + "/")]
        if cyclic: mine = sorted(mine, key=lambda d: want.index(d) if d in want else -1)      # the loader's tools do not define an order
        if mine != want: raise Violation(f"directories {mine}, expected {want} (reading number {i + 1})")
        rest = [d for d in got if not d.startswith(R + "/")]
        if rest != r.value[0][len(want):] or any(os.path.normpath(d) not in ("/lib", "/lib64", "/usr/lib", "/usr/lib64") for d in rest): raise Violation(f"other directories {rest}")
    ctx.nontrivial(len(want) > 1)
    if len(case["files"]) > 2: ctx.label("includes")
    if not cyclic and case.get("ldconfig", True) and os.path.exists(LDCONFIG):
        R2 = os.path.join(ctx.dir, "L")
        os.makedirs(R2)
        build(case, R2, True)
        p = subprocess.run([LDCONFIG, "-N", "-X", "-v", "-f", R2 + "/etc/ld.so.conf"], capture_output=True, env={"LC_ALL": "C.UTF-8"}, cwd="/", timeout=60)
        seen = []
        for l in p.stdout.decode("utf-8", "surrogateescape").splitlines():
            mm = re.match(r"(/.*): \(from (.*):\d+\)$", l)
            if mm and mm[2].startswith(R2): seen.append(os.path.relpath(mm[1], R2))
        if seen != want: raise AssertionError(f"the reference reader says {want}, ldconfig {seen}\n{p.stderr.decode(errors='replace')[:400]}")
        ctx.label("agreed with ldconfig")


# ------------------------------------------------------------------ musl
@st.composite
def musl(draw):
    g = worlds.G(draw)
    f = None
    if g.p(85):
        sep = g.one([":", ":", "\n", "\n"])
        es = [g.one(["/lib", "/usr/lib", "/opt/x/lib", "/a b", "", " /lib2 ", "/usr/local/lib"]) for _ in range(g.n(0, 5))]
        f = ""
        for e in es: f += ("" if not f else (g.one([":", "\n", ":\n"]) if g.p(20) else sep)) + e
        f += g.one(["", "\n", ":"])
    return {"file": f, "arch": g.one(["x86_64", "aarch64", "armhf"])}


def check_musl(case, ctx):
    R = os.path.join(ctx.dir, "R")
    os.makedirs(R + "/etc")
    if case["file"] is not None:
        with open(f"{R}/etc/ld-musl-{case['arch']}.path", "w") as f: f.write(case["file"])
        want = [e.strip() for e in re.split(r"[:\n]", case["file"]) if e.strip()]
    else: want = ["/lib", "/usr/local/lib", "/usr/lib"]

    def fn():
        from auditwheel.lddtree import load_ld_paths
        from auditwheel.libc import Libc
        return load_ld_paths(Libc.MUSL, root=R)["conf"]
    r = harness.api(fn)
    if r.exc: raise Violation(f"reading the musl path file fails: {r!r}")
    got = [os.path.normpath(d) for d in r.value]
    if got != [R + w for w in want]: raise Violation(f"directories {got}, expected {[R + w for w in want]}")
    ctx.nontrivial(case["file"] is not None and len(want) > 1)


# ------------------------------------------------------------------ environment and option
@st.composite
def sources(draw):
    g = worlds.G(draw)

    def val():
        return ":".join(g.one(["/X/d0", "/X/d1", "/X/d2", "/X/d3", "/X/d3/", "/X/none", "", "/X/d1/../d2", "/X/file"]) for _ in range(g.n(1, 3)))
    case = {"at": sorted(g.some(["d0", "d1", "d2", "d3", "cwd"], 5)), "aw": val() if g.p(60) else g.one([None, ""]), "ld": val() if g.p(60) else g.one([None, ""]),
            "opt": val() if g.p(50) else g.one([None, None, ""]), "rp": g.one([None, None, None, ("rpath", "/X/d3"), ("runpath", "/X/d2")])}
    return case


def check_env(case, ctx):
    X = os.path.join(ctx.dir, "X")
    for d in ("d0", "d1", "d2", "d3", "cwd"): os.makedirs(os.path.join(X, d))
    open(X + "/file", "w").close()
    name = "libvfprobe.so.7"
    for i, d in enumerate(case["at"]):
        with open(f"{X}/{d}/{name}", "wb") as f: f.write(elf_bytes({"seed": i}))
    spec = {"needed": [name]}
    if case["rp"]: spec[case["rp"][0]] = case["rp"][1]
    with open(X + "/main.so", "wb") as f: f.write(elf_bytes(spec, X))

    def dirs(v):
        if not v: return []
        return [X + "/cwd" if e == "" else os.path.normpath(e.replace("/X", X, 1)) for e in v.split(":")]
    order = dirs(case["rp"][1]) if case["rp"] and case["rp"][0] == "rpath" else []
    if case["rp"] and case["rp"][0] == "runpath": order += dirs(case["rp"][1])
    order += dirs(case["aw"])
    if case["opt"] is None: order += dirs(case["ld"])
    else: order += dirs(case["opt"])
    want = next((d for d in order if os.path.exists(f"{d}/{name}")), None)
    env = {k: None if v is None else v.replace("/X", X) for k, v in (("AUDITWHEEL_LD_LIBRARY_PATH", case["aw"]), ("LD_LIBRARY_PATH", case["ld"]))}
    from props.c06 import tree
    r = harness.cli(["lddtree", X + "/main.so"] + (["--ldpaths", case["opt"].replace("/X", X)] if case["opt"] is not None else []), cwd=X + "/cwd", env=env, tmpdir=ctx.dir)
    j = tree(r)
    if j is None: raise Violation(f"lddtree fails: {r!r}")
    got = j["libraries"][name]["realpath"]
    exp = None if want is None else os.path.join(want, name)
    if got != exp: raise Violation(f"found {got}, expected {exp}")
    ctx.label("found" if want else "not found")
    if case["opt"] is not None: ctx.label("--ldpaths")
    ctx.nontrivial(want is not None and len(case["at"]) > 1)


PROP = Prop("C07", [Leg("conf", lambda t: conf_tree(), check_conf, 1500, 24000), Leg("musl", lambda t: musl(), check_musl, 400, 4000), Leg("env", lambda t: sources(), check_env, 900, 16000)],
            rule="a tree of configuration files with includes (nested, globs, relative and absolute, several patterns), comments, blanks, duplicates and missing directories; a musl path file; values of both environment variables and the option; non-trivial: several directories, or several places where the library lies",
            technique="property-based testing (Hypothesis) against a reference reader which is itself compared with ldconfig on every case",
            level_note="Random search. The reference reader is confirmed by the host's ldconfig in verbose mode on each generated tree. Trusts: ldconfig.",
            assumptions=["directory lines are absolute and without =type suffix", "environment values without $ORIGIN"])
