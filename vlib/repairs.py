"""Repair worlds: strategy, running `auditwheel repair`, and the reference model of its output."""
from __future__ import annotations

import fnmatch
import hashlib
import os
import posixpath
import stat

from hypothesis import strategies as st

from . import harness, model, worlds
from .audit import modelled
from .harness import Violation
from .wheelgen import Mat, Whl, dist_name, elf_bytes, tree_state

HASHNAME = "libh0"
NAMES = ["libe0.so.1", "libe1.so", "libe2.so.2.1", "libe3-1.2.so.0", "libE+4.so.1", "lib.x.y.so.5.6.7", "libe6.so.1"]
LIBDIRS = ["{pkg}/", "{pkg}/lib/", "{name}.libs/", "{pkg}/sub/", ""]
EXTDIRS = ["{pkg}/", "{pkg}/", "{pkg}/sub/", "{pkg}/sub/deep/er/", "", "{name}-{ver}.data/platlib/{pkg}/", "other/"]
ODD_LIBDIRS = ["{pkg}/a b/", "{pkg}/\\1/", "{pkg}/-d/", "ü/", "{pkg}/'q\"/", "{pkg}/%s/", "{pkg}/a.so/", "{pkg}/libe0.so.1/", "{pkg}/\\g<0>x/"]
ODD_EXTDIRS = ODD_LIBDIRS + ["{pkg}/a:b/", "{pkg}/$x/", "{pkg}/c++/"]


ODD_DIRS = ["__pycache__/", ".git/", "tests/", "node_modules/", "build/", "CVS/", "vendored-1.0.dist-info/", "vendored.egg-info/", "vendored-1.0.data/scripts/", "a.so/", "lib.libs/", "UPPER/", "0/", "purelibx/", "dist-info/", ".dist-info/", ".../", "x" * 60 + "/"]
ODD_FILES = ["m.cpython-312.pyc", "Thumbs.db", ".DS_Store", "core", "backup~", "METADATA", "WHEEL", "RECORD.txt", "INSTALLER", "entry_points.txt", "direct_url.json", ".gitignore", "x.pth", "y.h", "libz.a", "lib.so.bak", "x.tmp", "auditwheel.cdx.json", "__main__.py", "noext", "trailing."]


@st.composite
def repair_world(draw, run=False, libcs=("glibc", "glibc", "glibc", "glibc", "musl", "android"), scripts=25, pylib=0, dup=20, reqs=0, missing=3, plat=True, arches=None,
                 nodot=3, tagsonly=False, files=2, cycles=True, sdirs=True, rp=30, copies=0, extras=False, noupdate=0, optstrip=0, twin=5, inherit=5):
    g = worlds.G(draw)
    libc = "glibc" if run else g.one(list(libcs))
    arch = "x86_64" if run else g.one(arches or {"glibc": ["x86_64"] * 4 + worlds.GLIBC_ARCHES, "musl": worlds.MUSL_ARCHES, "android": worlds.ANDROID_ARCHES}[libc])
    case = {"name": g.one(["foo", "foo", "Foo_Bar", "foo2", "f.o"]), "ver": g.one(["1.0", "0.1.dev3", "1.0+l.1", "2!1.0"])}
    case["py"] = g.one(["cp312", "cp312", "py3", "cp311.cp312"]); case["abi"] = g.one(["cp312", "none", "abi3", "cp312.abi3"])
    if g.p(15): case["build"] = g.one(["1", "2b", "0_x"])
    if libc == "android":
        a = {"aarch64": "arm64_v8a"}.get(arch, arch)
        case["plats"] = [f"android_{g.one([24, 24, 25, 26, 27, 28, 30, 35, 21, 23])}_{a}"]
    else:
        fam = {"glibc": ["linux"] * 4 + ["manylinux2014", "manylinux_2_17", "manylinux_2_28", "manylinux1"], "musl": ["linux", "linux", "musllinux_1_2", "musllinux_1_1"]}[libc]
        case["plats"] = list(dict.fromkeys(g.one(fam) + "_" + arch for _ in range(g.n(1, 2))))
        if g.p(8) and libc == "glibc": case["plats"] = g.one([["any"], ["any"], ["any"] + case["plats"], case["plats"] + ["any"]])
    pkg = g.one(["pkg", case["name"], "pkg"])
    fmt = {"pkg": pkg, "name": case["name"], "ver": case["ver"]}
    libcso = {"glibc": "libc.so.6", "musl": model.MUSL_SO.get(arch, "libc.so"), "android": "libc.so"}[libc]
    white = {"glibc": ["libm.so.6", "libdl.so.2"] if run else [w for w in worlds.WHITE["glibc"] if w != "libc.so.6"], "musl": ["libz.so.1"], "android": ["libm.so", "liblog.so"]}[libc]
    dirs = [f"d{i}" for i in range(g.n(1, 3))]
    case["dirs"] = {d: {} for d in dirs}
    exts = NAMES[:g.one([1, 2, 3, 4, 5, 3, 2])]
    if not run and g.p(20): exts = exts + [g.one(worlds.BOUNDARY[libc])]
    uid = [100]
    pys = ["libpython3.12.so.1.0", "libpython3.9m.so.1.0", "libpython3.13.so", "libpython3.13t.so.1.0", "libpython3.12d.so.1.0", "libpython2.7.so.1.0", "libpython3.14td.so"]

    def nid():
        uid[0] += 1
        return uid[0]
    if run or g.p(90): case["env_paths"] = []
    case["ld_paths"] = ["/X/" + d for d in dirs if g.p(70)]
    ep = ["/X/" + d for d in dirs if g.p(60)]
    if not case["ld_paths"] and not ep: case["ld_paths"] = ["/X/" + d for d in dirs]
    if ep: case["env_paths"] = ep
    else: case.pop("env_paths", None)

    def spec(own, pool, k, bias=0):
        s = {"machine": arch}
        need = [x for x in g.some(pool, k) if x != own]
        if bias and not set(need) & set(exts) and g.p(bias): need.insert(g.n(0, len(need)), g.one(exts))
        if run or g.p(90): need.insert(g.n(0, len(need)), libcso)
        if pylib and g.p(pylib): need.insert(g.n(0, len(need)), g.one(pys))
        s["needed"] = list(dict.fromkeys(need))
        if own and (run or g.p(80)): s["soname"] = own
        if arch in ("x86_64", "i686") and g.p(10): s["buildid"] = g.n(0, 9)
        s["seed"] = nid()
        if own and g.p(5): s["tail"] = [g.one([3000, 70000, 200000]), nid()]     # differences far behind the first block
        if g.p(15): s["symtab"] = False
        if g.p(25):
            vn = {}
            if libc == "glibc" and "libc.so.6" in s["needed"]:
                lo = {"x86_64": "GLIBC_2.2.5", "i686": "GLIBC_2.0", "aarch64": "GLIBC_2.17", "loongarch64": "GLIBC_2.36", "riscv64": "GLIBC_2.27", "armv7l": "GLIBC_2.4", "ppc64le": "GLIBC_2.17", "s390x": "GLIBC_2.2", "ppc64": "GLIBC_2.3"}[arch]
                vn["libc.so.6"] = [lo] + (["GLIBC_2.34"] if g.p(30) else [])
            if vn: s["verneed"] = vn
        return s
    # ---- external libraries
    ext_files = []
    for i, e in enumerate(exts):
        pool = (exts if cycles and g.p(30) else exts[i + 1:]) * 3 + white + (pys[:1] if False else [])
        for rep in range(2 if g.p(dup) else 1):
            d = g.one(dirs)
            if e in case["dirs"][d]: continue
            sp = spec(e, pool, 3)
            if g.p(30): worlds.search(g, sp, dirs, 1, 60, odd=not run)
            mode = g.one([0o755, 0o755, 0o644, 0o444, 0o555, 0o664])
            node = {"elf": sp, "mode": mode}
            k = g.n(0, 19)
            if k < 11: case["dirs"][d][e] = node
            elif k < 16:
                r = e.split(".so")[0] + ".so.9.9"
                if g.p(8 * nodot): r = g.one(["real-" + e, e.replace(".so", ".so.real"), "Real+Name_1.so"] + (["nodot" + str(i)] if nodot else []))
                if r in case["dirs"][d]: continue
                case["dirs"][d][r] = node
                case["dirs"][d][e] = {"link": r}
                if g.p(20): case["dirs"][d]["alias-" + e] = {"link": e}; ext_files.append("alias-" + e)
            else:
                d2 = g.one(dirs)
                r = "real-" + e
                if r in case["dirs"][d2]: continue
                case["dirs"][d2][r] = node
                case["dirs"][d][e] = {"link": f"/X/{d2}/{r}"} if g.p(50) else {"link": f"../{d2}/{r}"}
        ext_files.append(e)
    if copies and g.p(copies) and exts and exts[0] in case["dirs"][dirs[0]] and "elf" in case["dirs"][dirs[0]][exts[0]]:
        import copy
        for n in ("copy-" + exts[0], exts[0]):
            d = g.one(dirs)
            if n not in case["dirs"][d]:
                case["dirs"][d][n] = copy.deepcopy(case["dirs"][dirs[0]][exts[0]]); ext_files.append(n)
                if g.p(50): case["dirs"][d][n]["mode"] = g.one([0o444, 0o755, 0o600])
    if g.p(12):     # a library whose name already carries its hash
        sp = {"machine": arch, "needed": [libcso], "seed": nid()}
        h = hashlib.sha256(elf_bytes(sp)).hexdigest()[:8]
        if g.p(45): h = g.one([h[::-1], h.upper() + "g", "0123abcd", h[:7], h + "0", "deadbeef"])      # looks like it, but is not
        n = f"{HASHNAME}-{h}.so.1"
        case["dirs"][dirs[0]][n] = {"elf": sp, "mode": 0o755}
        ext_files.append(n)
    if g.p(missing): ext_files.append("libmissing.so.9")
    # ---- wheel libraries
    mem = []
    wl = []
    for i in range(g.n(0, files)):
        wl.append((g.one(LIBDIRS if not g.p(8) else ODD_LIBDIRS).format(**fmt), g.one([f"libw{i}.so", f"libw{i}-ab12cd34.so.1"])))
    wn = [n for _, n in wl]

    def rel(frm, to):
        a = posixpath.relpath("/" + to, "/" + frm)
        return "$ORIGIN" if a == "." else ("${ORIGIN}/" if g.p(20) else "$ORIGIN/") + a

    def rpaths(s, where, force=()):
        es = []
        for d in dict.fromkeys([d for d, n in wl if n in s["needed"]] + list(force)):
            es.append(rel(where, d))
        if g.p(rp):
            o = worlds.paths(g, dirs, where.count("/"), odd=True, allow_wheel=["$ORIGIN/../" + pkg, "$ORIGIN/.", "$ORIGIN//lib", "$LIB", "$ORIGIN/../../../../..", "/" + pkg, "lib", "./lib", "$ORIGIN/$PLATFORM", "$ORIGIN/../pkgx"])
            if o: es += o.split(":"); es = [es[i] for i in _perm(g, len(es))]
        if g.p(15) and es: es.insert(g.n(0, len(es)), g.one(es))
        if es:
            k = g.one(["rpath", "rpath", "runpath"])
            s[k] = ":".join(es)
            if g.p(6): s["runpath" if k == "rpath" else "rpath"] = rel(where, pkg)
    for d, n in wl:
        s = spec(n, ext_files * 2 + wn + white, 3, 30)
        rpaths(s, d)
        mem.append({"p": d + n, "elf": s, "mode": g.one([0o644, 0o755, 0o444])})
    for i in range(g.n(0 if mem else 1, 3)):
        mod = f"_m{i}"
        d = g.one(EXTDIRS if not g.p(8) else ODD_EXTDIRS).format(**fmt)
        s = spec(None, ext_files * 3 + wn * 2 + white, 4, 65)
        s["defs"] = [{"n": "PyInit_" + mod, "ret": 1}]
        rpaths(s, d)
        if reqs: worlds.add_reqs(g, s, libc, arch, reqs)
        fn = g.one([f"{mod}.cpython-312-{worlds.SOABI[arch] if libc == 'glibc' else worlds.SOABI[arch].replace('gnu', 'musl')}.so", f"{mod}.so", f"{mod}.abi3.so"])
        mem.append({"p": d + fn, "elf": s, "mode": g.one([0o755, 0o755, 0o644])})
    if libc != "android" and g.p(scripts):
        for nm in g.some(["tool", "my-tool", "tööl", "t.o+ol"], 2):
            s = spec(None, ext_files * 3 + white, 2, 50)
            s["type"] = "dyn"      # patchelf cannot rewrite our ET_EXEC files
            s["interp"] = worlds.INTERP[arch] if libc != "musl" else f"/lib/ld-musl-{arch}.so.1"
            s["main"] = {"ret": g.n(0, 90)}
            d = g.one(["{name}-{ver}.data/scripts/", "{name}-{ver}.data/scripts/", "{pkg}/bin/", "{name}-{ver}.data/scripts/sub/"]).format(**fmt)
            rpaths(s, d)
            mem.append({"p": d + nm, "elf": s, "mode": g.one([0o755, 0o775, 0o700, 0o644])})
        if g.p(30): mem.append({"p": "{name}-{ver}.data/scripts/".format(**fmt) + "plain", "data": "#!python\nprint(1)\n", "mode": 0o755})
    if not run and len(dirs) > 1 and exts and g.p(twin):      # two different libraries of one name
        e = g.one(exts)
        da, db = dirs[0], g.one(dirs[1:])
        for d in (da, db):
            if e not in case["dirs"][d]:
                sp = spec(e, white, 2); sp["soname"] = e
                if libc == "glibc" and arch in ("x86_64", "i686", "s390x") and g.p(40):
                    sp["needed"] = list(dict.fromkeys(sp["needed"] + ["libc.so.6"]))
                    sp["verneed"] = {"libc.so.6": [g.one(["GLIBC_2.34", "GLIBC_2.2.5" if arch == "x86_64" else "GLIBC_2.2", "GLIBC_2.17", "GLIBC_2.28"])]}
                case["dirs"][d][e] = {"elf": sp, "mode": 0o755}
        users = [q["elf"] for q in mem if "elf" in q]
        if len(users) < 2:
            users.append(spec(None, white, 1))
            mem.append({"p": f"{pkg}/twin.so", "elf": users[-1], "mode": 0o755})
        for s, d in zip(users, (da, db)):
            k = "runpath" if "runpath" in s else "rpath"
            s[k] = ":".join(["/X/" + d] + [x for x in [s.get(k)] if x])
            if e not in s["needed"]: s["needed"] = [e] + s["needed"]
    users = [q for q in mem if "elf" in q and posixpath.basename(q["p"]) not in wn]
    if not run and users and g.p(inherit):      # only the RPATH of one file finds the libraries, also those that the wheel's own libraries need
        case["ld_paths"] = ["/X/nowhere"]
        case.pop("env_paths", None)
        q = g.one(users)
        top = q["elf"]
        top["rpath"] = ":".join(["/X/" + d for d in dirs] + [rel(posixpath.dirname(q["p"]), d) for d, n in wl] + [top.get("rpath") or top.pop("runpath", None) or "$ORIGIN"])
        top.pop("runpath", None)
        top["needed"] += [n for n in wn if n not in top["needed"] and n != top.get("soname")]
        low = [q["elf"] for q in mem if "elf" in q and q["elf"].get("soname") in wn and q["elf"] is not top]
        if low and g.p(60):     # a chain of libraries behind one of the wheel's own
            k = g.n(2, 4)
            names = [f"libq{i}.so.{i}" for i in range(k)]
            for i, n in enumerate(names):
                case["dirs"][g.one(dirs)][n] = {"elf": {"machine": arch, "soname": n, "needed": names[i + 1:i + 2] + [libcso], "seed": nid()}, "mode": 0o755}
            low[0]["needed"].insert(0, names[0])
        if g.p(80):     # nothing is unresolved for the one file
            have = set(wn).union(*(case["dirs"][d] for d in dirs))
            asked = [n for q in mem if "elf" in q for n in q["elf"]["needed"]] + [n for d in dirs for f in case["dirs"][d].values() if "elf" in f for n in f["elf"].get("needed") or []]
            for n in dict.fromkeys(asked):
                if n not in have and not n.startswith(("libpython", "libmissing")): case["dirs"][g.one(dirs)][n] = {"elf": {"machine": arch, "soname": n, "needed": [], "seed": nid()}, "mode": 0o755}
    mem.append({"p": f"{pkg}/__init__.py", "data": "x = 1\n"})
    for _ in range(g.n(0, 2)):
        mem.append({"p": g.one([f"{pkg}/data{{}}.txt", f"{pkg}/ü,\"q\"{{}} x.bin", f"{case['name']}.libs/note{{}}.txt", f"{dist_name(case)}.dist-info/licenses/L{{}}"]).format(g.n(0, 9)), "data": g.one(["", "x", "line\r\nline\n", "\x00\x7f"]), "mode": g.one([0o644, 0o600, 0o755, None, 0o444])})
    if g.p(10): mem.append({"p": f"{dist_name(case)}.dist-info/RECORD.jws", "data": "{}"})
    if g.p(8): mem.append({"p": f"{pkg}/foreign.so", "elf": {"machine": "mips", "needed": ["libe0.so.1"]}})
    seen = set()
    mem = [m for m in mem if not (m["p"] in seen or seen.add(m["p"]))]
    if g.p(50): mem = [mem[i] for i in _perm(g, len(mem))]
    case["members"] = mem
    if g.p(20): case["zip"] = {"order": g.n(0, 99), "comp": g.one([0, 8]), "dirs": g.p(50), "crlf": g.p(30)}
    if g.p(10): case["zip"] = {**case.get("zip", {}), "sys": 0}     # packed on Windows, by a tool that keeps the permission bits
    if extras:
        if g.p(6): mem.insert(g.n(0, len(mem)), {"p": f"{pkg}/big{g.n(0, 9)}.bin", "rnd": [g.n(0, 99), g.one([65537, 200001, (1 << 20) + 1, (2 << 20) + 3])], "mode": 0o644})
        for _ in range(g.n(0, 3)):
            d = g.one([pkg + "/", pkg + "/data/", "", case["name"] + ".libs/", f"{dist_name(case)}.dist-info/", f"{dist_name(case)}.dist-info/licenses/", f"{dist_name(case)}.data/data/share/", f"{dist_name(case)}.data/headers/", "x y/", "zz.dist-info.d/", "é/", pkg + ".dist-infox/",
                       pkg + "/" + g.one(ODD_DIRS), pkg + "/" + g.one(ODD_DIRS) + g.one(ODD_DIRS), g.one([x for x in ODD_DIRS if not x.endswith(".dist-info/")])])
            n = g.one(["a,b", 'q"uote', "sp ace", "ünï", "日本", "a;b", "'s'", "\\b", "tab\tx", ".hidden", "UPPER", "RECORD", "RECORD.p7s", "a\u202ex", "x" * 120, "a%20b", "#", "RECORD.jws.txt", "1", "-x", "Z", "a.so", *ODD_FILES])
            p = d + n
            if p in {f"{dist_name(case)}.dist-info/{x}" for x in ("RECORD", "METADATA", "WHEEL")} or any(q["p"] == p or q["p"].startswith(p + "/") or p.startswith(q["p"] + "/") for q in mem): continue
            mem.insert(g.n(0, len(mem)), {"p": p, "data": g.one(["", "x", "a\nb", "\r\n", "#!python\n", "\x7fEL"]) * g.one([1, 1, 100, 70000 if g.p(8) else 2]), "mode": g.one([0o644, 0o755, 0o600, 0o777, 0o444, 0o400, 0o640, 0o4755, None])})
    o = {}
    if noupdate and g.p(noupdate): o["no_update"] = True
    if optstrip and arch == "x86_64" and g.p(optstrip): o["strip"] = True
    if sdirs and g.p(25):
        o["sdir"] = g.one(["_libs", ".libs", ".d", "" if pkg == case["name"] else "_x", "/.libs" if any(m["p"].startswith(case["name"] + "/") for m in mem) else ".y"])
    if plat and g.p(40 if arch == "x86_64" and libc == "glibc" else 6): o["plat"] = g.one(host_plats())
    if g.p(15): o["only_plat"] = True
    if g.p(20): o["z"] = g.n(0, 9)
    case["opts"] = o
    return case


def _perm(g, n):
    xs = list(range(n))
    return [xs.pop(g.n(0, len(xs) - 1)) for _ in range(n)]


def host_plats():
    out = []
    for p in model.raw_policies("glibc"):
        if p["name"] != "linux" and "x86_64" in p["symbol_versions"]:
            out += [p["name"] + "_x86_64"] + [a + "_x86_64" for a in p["aliases"]]
    return out


def repair_args(m, opts, out=None):
    a = ["repair", "-w", out or m.out]
    if "sdir" in opts: a += ["-L", opts["sdir"]] if not opts["sdir"].startswith("-") else ["--lib-sdir=" + opts["sdir"]]
    if "plat" in opts: a += ["--plat", opts["plat"]]
    if opts.get("only_plat"): a += ["--only-plat"]
    if opts.get("no_update"): a += ["--no-update-tags"]
    if "z" in opts: a += ["-z", str(opts["z"])]
    if opts.get("strip"): a += ["--strip"]
    if opts.get("noisa"): a += ["--disable-isa-ext-check"]
    for e in opts.get("exclude", []): a += ["--exclude", e.replace("/X/", m.X + "/")]
    if opts.get("patcher"): a += ["--patcher", opts["patcher"]]
    return a


def repair(m, opts=None, out=None, wheels=None, env=None, ldpaths=True, **kw):
    opts = m.case.get("opts", {}) if opts is None else opts
    a = repair_args(m, opts, out) + (m.ldargs() if ldpaths else [])
    return harness.cli(a + [str(w) for w in (wheels or [m.wheel])], cwd=kw.pop("cwd", m.cwd), env=m.env(env), tmpdir=m.tmp, **kw)


def name_of(case):
    return case.get("name", "foo")


def is_libpy(s):
    return bool(model.LIBPY.match(s))


class Exp:
    """expected outcome of a repair"""
    refuse = None


def graft_name(filename, data):
    h = hashlib.sha256(data).hexdigest()[:8]
    base, dot, ext = filename.partition(".")
    return filename if base.endswith("-" + h) else f"{base}-{h}{dot}{ext}"


def is_script(case, p):
    c = p.split("/")
    return len(c) == 3 and c[0].endswith(".data") and c[1] == "scripts"


def norm_rpath(entry, where):
    """where an entry points: (inside wheel, path) for a file in wheel directory `where`"""
    e = entry
    for k, v in (("ORIGIN", "/W/" + where), ("LIB", "lib64"), ("PLATFORM", "x86_64")):
        e = e.replace("$" + k, v).replace("${%s}" % k, v)
    return e


def expected(case, m, opts=None):
    """Reference model of `auditwheel repair`."""
    opts = case.get("opts", {}) if opts is None else opts
    excl = [e.replace("/X/", m.X + "/") for e in opts.get("exclude", [])]
    x = Exp()
    x.opts = opts
    plat = opts.get("plat", "auto")
    ra = rl = None
    if plat != "auto":
        from .names import arch_of, name_arch, name_libc
        ra = arch_of(plat)
        rl = "musl" if plat.startswith("musllinux") else "android" if plat.startswith("android") else "glibc"
        na, nl = name_arch(case["plats"]), name_libc(case["plats"])
        x.A = None
        if (na not in ("any", None) and na != ra) or (nl and nl != rl): x.refuse = "mismatch"; return x
    A, rej = modelled(case, m, exclude=excl, isa_check=not opts.get("noisa"), req_arch=ra, req_libc=rl)
    if rej is not None:
        x.refuse = "rejected:" + rej.kind; x.A = None
        return x
    x.A = A
    W = model.World(case, m.real)
    P = W.plan(A, plat, opts.get("only_plat", False))
    x.plan = P
    x.abis = P["abis"]
    x.pol = A.pols[P["first"]]
    if P["refuse"]:
        x.refuse = P["refuse"]; return x
    key = x.pol.name
    name = name_of(case)
    x.dest = name + opts.get("sdir", ".libs")
    di = dist_name(case) + ".dist-info"
    grafts = {}        # real virtual path -> new name
    x.map = {}         # wheel path -> {soname: new name | None}
    x.bind = {}        # wheel path -> {soname: real}
    gmap = {}          # real -> {soname: real} from the first file
    x.ambiguous = False
    data = {}

    def rd(v):
        if v not in data:
            with open(m.real(v), "rb") as f: data[v] = f.read()
        return data[v]
    x.rd = rd
    for p, t in A.trees.items():
        refs = A.refs[p][key]
        mp = {}
        for s, r in refs.items():
            if is_libpy(s): mp[s] = None; continue
            if r is None: x.refuse = "missing"; continue
            grafts[r] = graft_name(posixpath.basename(r), rd(r))
            mp[s] = grafts[r]
        x.map[p] = mp
        x.bind[p] = refs
        for s, r in refs.items():
            if r is None: continue
            sub = W.vfs.nodes[r]["elf"]
            mine = {n: refs[n] for n in sub.get("needed") or [] if n in refs}
            if r in gmap and gmap[r] != mine: x.ambiguous = True
            gmap.setdefault(r, mine)
    if x.refuse: return x
    if A.libc == "android":
        lvl = int(case["plats"][0].split("_")[1])
        if lvl < 24 and (any(x.map.values()) ): x.refuse = "android"; return x
    x.grafts = grafts
    x.gmap = gmap
    x.nodes = W.vfs.nodes
    # new name -> virtual originals (several when the same content is found under several paths)
    x.by_new = {}
    for r, n in grafts.items(): x.by_new.setdefault(n, []).append(r)
    # ---- files
    x.moved = {}
    x.rewired = {}     # output path -> (origin path, needed, rpath)
    for p, mp in x.map.items():
        if not mp: continue
        spec = A.trees[p].spec
        np = p
        if is_script(case, p):
            np = f"{name}.scripts/{posixpath.basename(p)}"
            x.moved[p] = np
        need = [mp.get(s, s) for s in spec.get("needed") or []]
        need = [s for s in need if s is not None]
        where = posixpath.dirname(np)
        old = spec.get("runpath") if spec.get("runpath") is not None else spec.get("rpath")
        keep = []
        for e in (old or "").split(":"):
            e = real_entry(e, m)
            f = norm_rpath(e, where)
            if not f.startswith("/"): continue
            f = posixpath.normpath(f)
            if (f == "/W" or f.startswith("/W/")) and e not in keep: keep.append(e)
        new = "$ORIGIN" if posixpath.relpath("/" + x.dest, "/" + where) == "." else "$ORIGIN/" + posixpath.relpath("/" + x.dest, "/" + where)
        new = "$ORIGIN/" + posixpath.relpath("/" + x.dest, "/" + where)
        x.rewired[np] = (p, need, keep, new)
    x.grafted = {}     # output path -> (original real, needed, has internal)
    for r, n in grafts.items():
        mp = gmap.get(r, {})
        need = []
        inner = False
        for s in W.vfs.nodes[r]["elf"].get("needed") or []:
            if s in mp:
                if is_libpy(s): continue
                need.append(grafts[mp[s]]); inner = True
            else: need.append(s)
        x.grafted[f"{x.dest}/{n}"] = (r, need, inner)
    # ---- names
    if opts.get("no_update"):
        x.plats = list(case["plats"])
    else:
        tags = sorted(dict.fromkeys(case["plats"]))
        arch = A.arch
        tags = [t for t in tags if t not in replaced(x.pol.name, arch, A.libc)]
        tags = list(dict.fromkeys(tags + x.abis))
        if "any" in tags and len(tags) > 1: tags.remove("any")
        x.plats = sorted(tags)
    x.name = posixpath.basename(m.wheel).rsplit("-", 1)[0] + "-" + ".".join(x.plats) + ".whl"
    if opts.get("no_update"): x.name = posixpath.basename(m.wheel)
    x.di = di
    return x


def replaced(tag, arch, libc):
    """tags that a new tag replaces"""
    if libc == "android" or tag.startswith("linux_"): return []
    return ["linux_" + arch]


def real_entry(e, m):
    return m.X + e[2:] if e == "/X" or e.startswith("/X/") else e


class LdSo:
    """Finds libraries as the dynamic loader does, in a set of files.

    files: {path: Elf-like with needed, rpath, runpath, soname}; paths absolute; env/conf: directories."""

    def __init__(self, files, env=(), conf=(), inherit=True, compatible=None):
        self.files = files; self.env = list(env); self.conf = list(conf); self.inherit = inherit
        self.compat = compatible or (lambda a, b: True)

    def expand(self, s, path):
        d = posixpath.dirname(path)
        out = []
        for e in s.split(":"):
            for k, v in (("ORIGIN", d), ("LIB", "lib64"), ("PLATFORM", "x86_64")):
                e = e.replace("${%s}" % k, v).replace("$" + k, v)
            if e.startswith("/"): out.append(posixpath.normpath(e))
        return out

    def lookup(self, name, chain):
        me = self.files[chain[0]]
        dirs = []
        if me.runpath is None:
            for c in (chain if self.inherit else chain[:1]):
                f = self.files[c]
                if f.runpath is None and f.rpath is not None: dirs += self.expand(f.rpath, c)
        dirs += self.env
        if me.runpath is not None: dirs += self.expand(me.runpath, chain[0])
        dirs += self.conf
        for d in dirs:
            p = posixpath.join(d, name)
            if p in self.files and self.compat(me, self.files[p]): return p
        return None

    def load(self, root):
        """{(requesting path, name): path or None}, breadth first; sonames of loaded files are reused"""
        loaded = {}
        order = [(root, (root,))]
        res = {}
        seen = {root}
        i = 0
        while i < len(order):
            path, chain = order[i]; i += 1
            for n in self.files[path].needed:
                if n in loaded: res[path, n] = loaded[n]; continue
                p = self.lookup(n, chain)
                res[path, n] = p
                if p is None: continue
                loaded[n] = p
                if self.files[p].soname: loaded.setdefault(self.files[p].soname, p)
                if p not in seen:
                    seen.add(p)
                    order.append((p, (p, *chain)))
        return res


def outputs(m, out=None):
    return sorted(os.listdir(out or m.out))


def run_and_expect(case, ctx, opts=None, quietskip=True, env=None):
    """Materialise, model, repair. Returns (m, x, result, Whl) of a successful repair, or None when refused as expected."""
    m = Mat(case, ctx.dir)
    x = expected(case, m, opts)
    r = repair(m, x.opts, env=env)
    if x.refuse:
        ctx.label("refused:" + x.refuse)
        if r.rc == 0: raise Violation(f"repair must refuse this wheel ({x.refuse}): {r!r}")
        return None
    if r.rc != 0: raise Violation(f"repair fails, expected {x.name}: {r!r}\n{r.err[-1500:]}")
    got = outputs(m)
    if got != [x.name]: raise Violation(f"output {got}, expected {x.name}\n{r.err[-800:]}")
    w = Whl(os.path.join(m.out, x.name))
    ctx.label(f"grafts:{min(len(x.grafts), 4)}", "libc:" + x.A.libc)
    if x.moved: ctx.label("script moved")
    return m, x, r, w
