"""C06: library resolution follows the loader's rules."""
import json
import os
import re
import subprocess

from hypothesis import strategies as st

from vlib import elfgen, harness, model, worlds
from vlib.harness import Leg, Prop, Skip, Violation
from vlib.audit import show
from vlib.wheelgen import Mat, Whl, elf_bytes

NAMES = ["libe0.so.1", "libe1.so", "libe2.so.2.1", "libe3.so", "libq+.so", "libpython3.12.so.1.0"]
HOST = ["libc.so.6", "libm.so.6", "ld-linux-x86-64.so.2"]


@st.composite
def layout(draw, loader=False):
    g = worlds.G(draw)
    arch = "x86_64" if loader else g.one(["x86_64", "x86_64"] + elfgen.ARCHES)
    dirs = [f"d{i}" for i in range(g.n(1, 4))]
    if g.p(15): dirs = [d if g.p(50) else d + g.one(["\\1", "\\g<0>", "\\", " e", "%s", "{0}", "ü", "*", "[0]", "?", "\\n", "'", '"', "#", "~", ",", "-", "+"]) for d in dirs]
    if g.p(40) and "d0" in dirs: dirs += ["d0/sub"] + (["d0/sub/lib"] if g.p(50) else [])
    case = {"dirs": {d: {} for d in dirs}, "dlinks": {}}
    names = NAMES[:g.n(1, 5)] if loader else NAMES[:g.n(1, 6)]
    uid = [0]
    other = [a for a in ["i686", "aarch64", "x86_64", "ppc64", "ppc64le", "mips", "x32", "s390x"] if a != arch]
    if loader: other = ["i686", "aarch64", "s390x" if False else "i686"]

    def path_entry(origin_ok=True):
        k = g.n(0, 19)
        if k < 10: return "/X/" + g.one(dirs + sorted(case["dlinks"]))
        if k < 14 and origin_ok: return g.one(["$ORIGIN", "${ORIGIN}"]) + g.one(["", "/", "/sub", "/../d0", "/../" + g.one(dirs), "/.", "//.//", "/../../X/d0", "/./sub/lib/.."])
        if k < 16: return "/X/" + g.one(dirs) + g.one(["/", "//", "/.", "/../" + g.one(dirs), "/../../X/./" + g.one(dirs)])
        if k < 18: return g.one(["/nonexistent", "/X/nothere", "/X", "/X/file"])
        return "" if not loader else "/X/" + dirs[0]

    def paths(origin_ok=True):
        return ":".join(path_entry(origin_ok) for _ in range(g.one([1, 2, 3, 3, 4])))

    def spec(own, main=False):
        uid[0] += 1
        s = {"machine": arch, "needed": g.some(names + (["libmiss.so.3"] if g.p(15) else []) + (HOST if loader else []), 4 if main else 3), "seed": uid[0]}
        if g.p(10) and s["needed"]: s["needed"] = s["needed"] + s["needed"][:1]
        if own: s["soname"] = own
        if main or not loader:
            if g.p(92 if main else 30):
                k = "rpath" if loader else g.one(["rpath", "runpath"])
                s[k] = paths()
                if not loader and g.p(12): s["rpath" if k == "runpath" else "runpath"] = g.one([paths(), "/nonexistent"])
        if not loader:
            if g.p(6): s["osabi"] = g.one([3, 3, 9, 97])
            if g.p(3): s["static"] = True
        return s
    if g.p(30): case["dlinks"]["dl0"] = g.one(["/X/d0", "d0", "./" + dirs[-1], "/X/nothere" if not loader else "d0"])
    if len(dirs) > 1 and g.p(15): case["dlinks"][dirs[0] + "/in"] = "../" + dirs[1]
    for n in names:
        if n.startswith("libpython"): continue
        for d in g.some(dirs, 3) or dirs[:g.one([0, 1, 1])]:
            k = g.n(0, 19)
            if k < 11: node = {"elf": spec(n)}
            elif k < 14:
                node = {"elf": spec(n)}
                node["elf"]["machine"] = g.one(other)
                if loader: node["elf"]["needed"] = []
            elif k < 18:
                d2 = g.one(dirs)
                r = "real-" + n
                if r not in case["dirs"][d2]:
                    sp = spec(n)
                    if not loader and d2 != d and g.p(40):      # what it needs lies beside the real file
                        sp["runpath" if "runpath" in sp or g.p(50) else "rpath"] = g.one(["$ORIGIN", "${ORIGIN}", "$ORIGIN/.", "$ORIGIN:" + paths()])
                        if case["dirs"][d2]: sp["needed"] = list(dict.fromkeys(sp["needed"] + [g.one(sorted(x for x in case["dirs"][d2] if not x.startswith(("real-", "mid-", "loop-"))) or names)]))
                    case["dirs"][d2][r] = {"elf": sp}
                up = "../" * (d.count("/") + 1)
                node = {"link": g.one([f"/X/{d2}/{r}", f"{up}{d2}/{r}", f"./{up}{d2}/{r}"]) if d2 != d else g.one([r, "./" + r])}
                if g.p(25):
                    case["dirs"][d]["mid-" + n] = node
                    node = {"link": "mid-" + n}
            elif k == 19 and not loader and g.p(70): node = {"raw": g.one(["", "INPUT(libe0.so.1)\n", "\x7fELF", "\x7fELF\x02\x01\x01" + "\0" * 9, "\x7fELG\x02\x01\x01" + "\0" * 60, "!<arch>\n", None])}
            elif k == 18: node = {"link": g.one([n, "./" + n, "../" * (d.count("/") + 1) + d + "/" + n, "loop-" + n]) if not loader else "gone"}
            else: node = {"link": "gone"}
            case["dirs"][d][n] = node
            if node.get("link") == "loop-" + n: case["dirs"][d]["loop-" + n] = {"link": n}
    md = g.one(dirs)
    case["main"] = md + "/main.so"
    m = spec(None, True)
    m["needed"] = list(dict.fromkeys(m["needed"] + g.some(names, 3) + [g.one(names)])) if len(set(m["needed"])) == len(m["needed"]) else m["needed"]
    if not loader and g.p(20): m["interp"] = g.one(["/lib64/ld-linux-x86-64.so.2", "/lib/ld-musl-x86_64.so.1", "/nonexistent/ld.so", "/nonexistent/x/ld-linux.so.2"] + [f"/X/{d}/ld-linux.so.2" for d in dirs] * 2)
    case["dirs"][md]["main.so"] = {"elf": m}
    case["env"] = [path_entry(False) for _ in range(g.n(0, 2))]
    if not loader: case["conf"] = [path_entry(False) for _ in range(g.n(0, 3))]
    else: case["env"] = [e for e in case["env"] if e]
    case["cwd"] = g.one(dirs)
    if not loader and g.p(20): case["relmain"] = True
    return case


@st.composite
def denied(draw):
    """a layout of which an unprivileged user may not read everything"""
    case = draw(layout(loader=draw(st.booleans())))
    g = worlds.G(draw)
    keep = [os.path.dirname(case["main"]), case["cwd"]]
    ds = [d for d in case["dirs"] if not any(k == d or k.startswith(d + "/") for k in keep)]
    case["denydirs"] = {d: g.one([0o700, 0o744, 0o711, 0o000]) for d in g.some(ds, 2)}
    fs = [d + "/" + n for d in case["dirs"] for n, f in case["dirs"][d].items() if "elf" in f and d + "/" + n != case["main"]]
    case["denyfiles"] = {p: g.one([0o600, 0o000, 0o640, 0o711]) for p in g.some(fs, 3)}
    case.setdefault("conf", [])
    return case


class FS:
    """the layout on disk; specs by real path"""
    denied = ()
    unread = ()

    def deny(self, case):
        self.unread = {os.path.realpath(os.path.join(self.X, p)) for p in case["denyfiles"]}
        self.denied = {os.path.join(self.X, d) for d, m in case["denydirs"].items() if not m & 1}
        self.denied |= {os.path.realpath(d) for d in self.denied}
        for p, m in case["denyfiles"].items(): os.chmod(os.path.join(self.X, p), m)
        for d, m in case["denydirs"].items(): os.chmod(os.path.join(self.X, d), m)

    def reach(self, p):
        return not any(q.startswith(d + "/") for d in self.denied for q in (p, os.path.realpath(os.path.dirname(p)) + "/x", os.path.realpath(p)))

    def isdir(self, d):
        return os.path.isdir(d) and (not self.denied or not any(q.startswith(x + "/") for x in self.denied for q in (d, os.path.realpath(d))))

    def __init__(self, case, root):
        X = self.X = os.path.join(root, "X")
        os.makedirs(X, exist_ok=True)
        open(X + "/file", "w").close()
        self.spec = {}
        for d in case["dirs"]: os.makedirs(os.path.join(X, d), exist_ok=True)
        for l, t in case["dlinks"].items():
            p = os.path.join(X, l)
            if not os.path.lexists(p): os.symlink(self.v(t), p)
        for d, fs in case["dirs"].items():
            for n, f in fs.items():
                p = os.path.join(X, d, n)
                if "link" in f: os.symlink(self.v(f["link"]), p)
                elif "raw" in f:          # no ELF file
                    if f["raw"] is None: os.mkdir(p)
                    else:
                        with open(p, "w") as fh: fh.write(f["raw"])
                else:
                    with open(p, "wb") as fh: fh.write(elf_bytes(f["elf"], X))
                    self.spec[os.path.realpath(p)] = f["elf"]
        self.main = os.path.join(X, case["main"])
        self.cwd = os.path.join(X, case["cwd"])

    def v(self, p):
        return self.X + p[2:] if p == "/X" or p.startswith("/X/") else p


def dirs_of(entries, origin, fs):
    """the directories that a list of search-path entries stands for"""
    out = []
    for e in entries:
        if e == "": d = fs.cwd
        else: d = fs.v(e).replace("${ORIGIN}", origin or "").replace("$ORIGIN", origin or "")
        n = os.path.normpath(d)
        # "x/.." where x is a link or does not exist: lexical and physical reading differ, not judged
        if os.path.realpath(n) != os.path.realpath(d) or os.path.isdir(n) != os.path.isdir(d): raise Skip
        if fs.isdir(n):
            d = n
            if d not in out: out.append(d)
    return out


def split(s):
    return s.split(":") if s else []


def resolve(case, fs):
    libs = {}
    env = dirs_of(case["env"], None, fs)
    conf = dirs_of(case.get("conf", []), None, fs)
    interp = []

    def scan(path, first, top):
        spec = fs.spec[path]
        plat, _ = model.plat_of(spec)
        origin = os.path.dirname(path)
        st_ = spec.get("static")
        rp = [] if st_ or spec.get("runpath") is not None or spec.get("rpath") is None else dirs_of(split(spec["rpath"]), origin, fs)
        rn = [] if st_ or spec.get("runpath") is None else dirs_of(split(spec["runpath"]), origin, fs)
        if first:
            top = (rp, rn)
            if spec.get("interp"):
                d = os.path.dirname(fs.v(spec["interp"]))
                interp.extend([d, "/usr" + d])
                libs[os.path.basename(spec["interp"])] = ("interp", None)
        order = top[0] + rp + rn + env + top[1] + conf + interp
        need = [] if st_ else spec.get("needed", [])
        for n in need:
            if n in libs: continue
            libs[n] = None
            if model.LIBPY.match(n): continue
            for d in order:
                c = os.path.join(d, n)
                if not os.path.exists(c): continue
                real = os.path.realpath(c)
                if real not in fs.spec or real in fs.unread or not fs.reach(c): continue
                if not model.compatible(plat, model.plat_of(fs.spec[real])[0]): continue
                if os.path.realpath(d) != d and ".." in (fs.spec[real].get("rpath") or "") + (fs.spec[real].get("runpath") or ""): raise Skip
                libs[n] = (c, real)
                break
            if libs[n]: scan(libs[n][1], False, top)
        return need, rp, rn
    main = os.path.realpath(fs.main)
    need, rp, rn = scan(main, True, None)
    return libs, need, rp, rn


def tree(r):
    i = r.err.find("{\n")
    if r.rc != 0 or i < 0: return None
    return json.JSONDecoder().raw_decode(r.err[i:])[0]


def run(case, fs, ctx, ldargs, env):
    path = fs.main
    if case.get("relmain"): path = os.path.relpath(fs.main, fs.cwd)
    r = harness.cli(["lddtree", path] + ldargs, cwd=fs.cwd, env=env, tmpdir=ctx.dir, timeout=20, uid=65534 if "denydirs" in case else None)
    j = tree(r)
    if j is None: raise Violation(f"lddtree fails: {r!r}")
    return j


def check(case, ctx):
    fs = FS(case, ctx.dir)
    if "denydirs" in case: fs.deny(case)
    e = {"AUDITWHEEL_LD_LIBRARY_PATH": ":".join(fs.v(x) for x in case["env"])} if any(case["env"]) else {}
    if not any(case["env"]): case["env"] = []
    j = run(case, fs, ctx, ["--ldpaths", ":".join(fs.v(x) for x in case["conf"])], e)
    if case["conf"] == [""]: case["conf"] = []
    libs, need, rp, rn = resolve(case, fs)
    if j["needed"] != need: raise Violation(f"needed {j['needed']}, the file says {need}")
    for k, w in (("rpath", rp), ("runpath", rn)):
        if [os.path.realpath(x) for x in j[k]] != [os.path.realpath(x) for x in w]: raise Violation(f"{k} {j[k]}, expected {w}")
    got = j["libraries"]
    if set(got) != set(libs): raise Violation(f"libraries {sorted(got)}, expected {sorted(libs)}")
    found = 0
    for n, w in libs.items():
        g = got[n]
        if g["soname"] != n: raise Violation(f"{n} is reported as {g['soname']}")
        if w is not None and w[0] == "interp": continue
        if w is None:
            if g["realpath"] is not None: raise Violation(f"{n} resolves to {g['realpath']}; the loader does not find it")
            continue
        found += 1
        if g["realpath"] is None: raise Violation(f"{n} is not found; the loader opens {w[0]}")
        if not os.path.exists(g["realpath"]) or os.path.realpath(g["realpath"]) != w[1] or os.path.islink(g["realpath"]): raise Violation(f"{n} resolves to {g['realpath']}, expected {w[1]} ({w[0]})")
        if os.path.realpath(os.path.dirname(g["path"])) != os.path.realpath(os.path.dirname(w[0])) or os.path.basename(g["path"]) != n: raise Violation(f"{n} is opened as {g['path']}, expected {w[0]}")
        sp = fs.spec[w[1]]
        if g["needed"] != ([] if sp.get("static") else sp.get("needed", [])): raise Violation(f"{n} needs {g['needed']}, the file says {sp.get('needed')}")
    ctx.nontrivial(found > 0)
    ctx.label(f"found:{min(found, 4)}")
    if any(len([1 for d in case["dirs"] if n in case["dirs"][d]]) > 1 for n in libs): ctx.label("several candidates")
    if any("raw" in f for fs_ in case["dirs"].values() for f in fs_.values()): ctx.label("no ELF files")
    if any("link" in f for fs_ in case["dirs"].values() for f in fs_.values()): ctx.label("links")


LDSO = "/lib64/ld-linux-x86-64.so.2"


def check_loader(case, ctx):
    fs = FS(case, ctx.dir)
    resolve(case, fs)      # leaves out what is not judged
    env = ":".join(fs.v(x) for x in case["env"])
    e = {"AUDITWHEEL_LD_LIBRARY_PATH": env} if env else {}
    j = run(case, fs, ctx, ["--ldpaths", ""], e)
    p = subprocess.run([LDSO, "--inhibit-cache"] + (["--library-path", env] if env else []) + [fs.main], env={"LD_TRACE_LOADED_OBJECTS": "1", "PATH": "/usr/bin:/bin"},
                       cwd=fs.cwd, capture_output=True, text=True, timeout=60)
    seen = {}
    for l in p.stdout.splitlines():
        mm = re.match(r"\s+(\S+) => (not found|.+?)(?: \(0x[0-9a-f]+\))?$", l)
        if mm: seen[mm[1]] = None if mm[2] == "not found" else mm[2]
    if not seen and p.returncode: raise AssertionError(f"the loader does not trace: {p}")
    n = 0
    for name, path in seen.items():
        if name in HOST or name.startswith("libpython"): continue
        g = j["libraries"].get(name)
        if g is None: raise Violation(f"{name} is loaded by the loader and missing from the tree {sorted(j['libraries'])}")
        if path is None:
            if g["realpath"] is not None: raise Violation(f"{name}: the loader does not find it, auditwheel says {g['path']}")
            continue
        n += 1
        if g["realpath"] is None: raise Violation(f"{name}: the loader opens {path}, auditwheel finds nothing")
        if os.path.realpath(path) != os.path.realpath(g["realpath"]): raise Violation(f"{name}: the loader opens {path}, auditwheel {g['path']}")
    extra = [x for x, g in j["libraries"].items() if g["realpath"] is not None and x not in seen]
    if extra: raise Violation(f"{extra} are in the tree but not loaded by the loader")
    ctx.nontrivial(n > 0)
    ctx.label(f"loaded:{min(n, 4)}")


@st.composite
def relative(draw):
    """a wheel whose libraries are found through directories that the user names relative to the current one"""
    c = draw(worlds.audit_world(foreign=False, pathology=False, libcs=("glibc", "glibc", "musl")))
    g = worlds.G(draw)
    dirs = list(c["dirs"])
    c["ld_paths"] = []; c["env_paths"] = []
    for d in dirs: c["dirs"][d].setdefault("libe0.so.1", {"elf": {"machine": next(m["elf"]["machine"] for m in c["members"] if "elf" in m), "soname": "libe0.so.1", "needed": []}})
    m = g.one([m for m in c["members"] if "elf" in m])
    if "libe0.so.1" not in m["elf"].get("needed", []) and not m["elf"].get("static"): m["elf"].setdefault("needed", []).insert(0, "libe0.so.1")
    r = c["rel"] = {"cwd": g.one(dirs + [""]), "aw": g.some(dirs, 2), "ld": g.some(dirs, 2), "arg": g.some(dirs, 2) if g.p(50) else None, "repair": g.p(25), "dot": g.p(25)}
    if not (r["aw"] or r["arg"] or (r["ld"] and r["arg"] is None)): r["aw"] = [g.one(dirs)]
    have = {m["p"] for m in c["members"]}
    if g.p(40):     # the wheel has a library at the place that the relative name means in the unpacked wheel
        for q in ["libe0.so.1"] + [d + "/libe0.so.1" for d in dirs]:
            if q not in have and g.p(60): c["members"].append({"p": q, "elf": {"machine": m["elf"]["machine"], "soname": "libe0.so.1", "needed": [], "seed": 5}})
    return c


def check_relative(case, ctx):
    m = Mat(case, ctx.dir)
    r = case["rel"]
    cwd = os.path.normpath(os.path.join(m.X, r["cwd"]))

    def val(ds, rel):
        out = [os.path.join(m.X, d) for d in ds]
        if rel: out = ["" if d == cwd and not r["dot"] else ("./" if r["dot"] else "") + os.path.relpath(d, cwd) for d in out]
        return ":".join(out) if out != [""] else ":"

    def run(rel, fn):
        env = {k: val(r[n], rel) for n, k in (("aw", "AUDITWHEEL_LD_LIBRARY_PATH"), ("ld", "LD_LIBRARY_PATH")) if r[n]}
        arg = [] if r["arg"] is None else ["--ldpaths", val(r["arg"], rel)]
        return fn(env, arg, os.path.relpath(m.wheel, cwd) if rel else m.wheel)
    res = [run(rel, lambda env, arg, w: show(m, *arg, env=env, wheel=w, cwd=cwd, ldargs=False)) for rel in (False, True)]
    (a, ja), (b, jb) = res
    if (a.rc, ja) != (b.rc, jb): raise Violation(f"with directories named relative to {r['cwd'] or 'X'!r}: {b.rc} {jb}\nwith absolute names: {a.rc} {ja}")
    ctx.label(f"rc:{a.rc}")
    if ja and any(v and v.startswith(m.X + "/") for v in (ja.get("external_libs") or {}).values()): ctx.nontrivial()
    if not r["repair"] or a.rc: return
    outs = []
    for rel in (False, True):
        o = os.path.join(ctx.dir, f"o{rel}")
        q = run(rel, lambda env, arg, w: harness.cli(["repair", "-w", os.path.relpath(o, cwd) if rel else o, *arg, w], cwd=cwd, env={**m.env(env), "SOURCE_DATE_EPOCH": "1000000000"}, tmpdir=m.tmp))
        outs.append((q.rc, {n: Whl(os.path.join(o, n)).data for n in (os.listdir(o) if os.path.isdir(o) else [])}))
    if outs[0] != outs[1]: raise Violation(f"repair with relative names: {outs[1][0]} {[(n, sorted(d)) for n, d in outs[1][1].items()]}, with absolute ones: {outs[0][0]} {[(n, sorted(d)) for n, d in outs[0][1].items()]}")
    ctx.label("repaired")


PROP = Prop("C06", [Leg("tree", lambda t: layout(), check, 2400, 60000), Leg("loader", lambda t: layout(loader=True), check_loader, 800, 16000), Leg("denied", lambda t: denied(), check, 900, 16000),
                    Leg("relative", lambda t: relative(), check_relative, 320, 10000)],
            rule="a file and up to five libraries needing each other arbitrarily, in up to six directories (nested, oddly named, symbolic links to directories and files, links in a loop, dangling links, files that are no ELF files, other machines' files, equal names in several directories), with search paths of all forms; some files and directories not accessible to the unprivileged user that runs the command; wheels whose libraries lie in directories named relative to the current one, compared with absolute names; non-trivial: a library was located",
            technique="property-based testing (Hypothesis) of `auditwheel lddtree` against a reference resolver on the real file system, and differentially against the glibc dynamic loader",
            level_note="Random search. The loader leg runs ld.so in trace mode on layouts where only the main file has a search path (RPATH), where the documented order and glibc's coincide. Trusts: the ELF writer, the host's loader.",
            assumptions=["needed names contain no slash", "directory names contain no colon or semicolon"])
