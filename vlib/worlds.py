"""Strategies for world cases (wheel + surrounding library directories)."""
from __future__ import annotations

from functools import lru_cache

from hypothesis import strategies as st

from . import model
from .elfgen import ARCHES

GLIBC_ARCHES = ["x86_64", "x86_64", "x86_64", "i686", "aarch64", "armv7l", "ppc64", "ppc64le", "s390x", "riscv64", "loongarch64"]
MUSL_ARCHES = ["x86_64", "x86_64", "i686", "aarch64", "armv7l", "ppc64le", "s390x", "riscv64", "loongarch64"]
ANDROID_ARCHES = ["aarch64", "x86_64"]
SOABI = {"x86_64": "x86_64-linux-gnu", "i686": "i386-linux-gnu", "aarch64": "aarch64-linux-gnu", "armv7l": "arm-linux-gnueabihf", "ppc64": "powerpc64-linux-gnu",
         "ppc64le": "powerpc64le-linux-gnu", "s390x": "s390x-linux-gnu", "riscv64": "riscv64-linux-gnu", "loongarch64": "loongarch64-linux-gnu"}
INTERP = {"x86_64": "/lib64/ld-linux-x86-64.so.2", "i686": "/lib/ld-linux.so.2", "aarch64": "/lib/ld-linux-aarch64.so.1", "armv7l": "/lib/ld-linux-armhf.so.3",
          "ppc64": "/lib64/ld64.so.1", "ppc64le": "/lib64/ld64.so.2", "s390x": "/lib/ld64.so.1", "riscv64": "/lib/ld-linux-riscv64-lp64d.so.1",
          "loongarch64": "/lib64/ld-linux-loongarch-lp64d.so.1"}
FOREIGN = ["armsf", "armnf", "armeabi4", "mips", "x32", "sparcv9", "riscv32", "aarch64be", "ilp32", "ppc32", "s390", "armbe", "x86_64be", "i686be", "alpha", "riscv64be"]
WHITE = {"glibc": ["libc.so.6", "libm.so.6", "libz.so.1", "libstdc++.so.6", "libgcc_s.so.1", "libdl.so.2", "libX11.so.6", "libatomic.so.1"],
         "musl": ["libc.so", "libz.so.1"], "android": ["libc.so", "libm.so", "libdl.so", "liblog.so", "libz.so"]}
BOUNDARY = {"glibc": ["libexpat.so.1", "libmvec.so.1"], "musl": ["libz.so.1"], "android": ["libvulkan.so", "libaaudio.so", "libneuralnetworks.so", "libcamera2ndk.so", "libsync.so", "libamidi.so"]}
EXT = ["libe0.so.1", "libe1.so", "libe2.so.2.1", "libe3-1.2.so.0", "libE+4.so.1"]


@lru_cache(None)
def versions(libc, arch):
    """versions that separate policies, and others"""
    pols = model.policies(libc, arch, ("android_35_x", 35))
    out = []
    if pols:
        seen = {}
        for p in reversed(pols):
            for pre, vs in p.syms.items():
                new = vs - seen.setdefault(pre, set())
                seen[pre] |= vs
                out += sorted(new)[:2] + sorted(new)[-1:]
    return list(dict.fromkeys(out)) + ["GLIBC_2.99", "GLIBC_PRIVATE", "GLIBCXX_9.9", "GCC_77", "FOO_1", "OPENSSL_1_1_0", "ZLIB_9", "LIBATOMIC_1.2", "CXXABI_1.3.99", "GLIBC"]


class _Weighted(st.SearchStrategy):
    def __init__(self, p):
        super().__init__()
        self.p = p

    def do_draw(self, data):
        return data.draw_boolean(self.p)


@lru_cache(None)
def weighted(percent):
    """true with the given probability in percent; shrinks to false"""
    return st.just(True) if percent >= 100 else st.just(False) if percent <= 0 else _Weighted(percent / 100)


class G:
    def __init__(self, draw):
        self.draw = draw

    def p(self, percent):
        """true with the given probability; shrinks to False"""
        return self.draw(weighted(percent))

    def n(self, a, b):
        return self.draw(st.integers(a, b))

    def one(self, xs):
        return xs[self.draw(st.integers(0, len(xs) - 1))]

    def some(self, xs, k):
        """up to k distinct elements"""
        xs = list(dict.fromkeys(xs))
        out = []
        for _ in range(self.n(0, k)):
            if not xs: break
            out.append(xs.pop(self.n(0, len(xs) - 1)))
        return out


def lib_versions(g, libc, arch, k):
    """{lib: [version]}"""
    if libc != "glibc":
        if not g.p(15): return {}
        return {g.one(WHITE[libc]): [g.one(["FOO_1", "GLIBC_2.17", "LIBC_N", "OPENSSL_3"])]}
    out = {}
    vs = versions(libc, arch)
    owner = {"GLIBC": ["libc.so.6", "libm.so.6"], "GLIBCXX": ["libstdc++.so.6"], "CXXABI": ["libstdc++.so.6"], "GCC": ["libgcc_s.so.1"], "ZLIB": ["libz.so.1"], "LIBATOMIC": ["libatomic.so.1"]}
    for _ in range(g.n(0, k)):
        v = vs[g.n(0, len(vs) - 1)] if g.p(80) else g.one(vs[-10:])
        pre = v.partition("_")[0]
        lib = g.one(owner.get(pre, ["libe0.so.1"])) if not g.p(8) else g.one(["libe1.so", "ld-linux-x86-64.so.2", "libc.so.6", "ld64.so.2", "ld64.so.10", "ldx.so.1"])
        if v not in out.setdefault(lib, []): out[lib].append(v)
    return out


def blacklist_syms(libc, arch):
    out = {}
    for p in model.policies(libc, arch, ("android_35_x", 35)) or []:
        for l, s in p.black.items(): out.setdefault(l, []).append(s)
    # symbols that some policies list and others do not, first
    res = {}
    for l, sets in out.items():
        allsyms = set.union(*sets)
        part = sorted(s for s in allsyms if not all(s in x for x in sets))
        res[l] = part[:6] + sorted(allsyms)[:6]
    return res


def paths(g, dirs, depth, allow_wheel=(), odd=True):
    """a search path string of virtual entries"""
    es = []
    for _ in range(g.n(1, 3)):
        k = g.n(0, 19)
        if k < 11 and dirs: es.append("/X/" + g.one(dirs))
        elif k < 16: es.append(g.one(["$ORIGIN", "${ORIGIN}", "$ORIGIN/" + "../" * depth + "foo.libs", "$ORIGIN/../pkg", "$ORIGIN/sub", "$ORIGIN/", "$ORIGIN/../foo.libs", "$ORIGIN/lib", *allow_wheel]))
        elif k < 18 and odd: es.append(g.one(["", "/nonexistent", "/X/nothere", "$ORIGIN/../nothere", "/usr/nowhere/lib"]))
        elif dirs: es.append("/X/" + g.one(dirs) + g.one(["/", "//", "/.", "/../" + g.one(dirs)]))
    return ":".join(es) if es else None


def search(g, spec, dirs, depth, percent, odd=True):
    if g.p(percent):
        k = g.one(["rpath", "rpath", "runpath"])
        s = paths(g, dirs, depth, odd=odd)
        if s:
            spec[k] = s
            if odd and g.p(8):
                s2 = paths(g, dirs, depth, odd=odd)
                if s2: spec["runpath" if k == "rpath" else "rpath"] = s2


def add_reqs(g, spec, libc, arch, level):
    """symbol versions, blacklisted symbols, ISA notes"""
    und = spec.setdefault("undef", [])
    if g.p(45 * level // 2):
        vn = lib_versions(g, libc, arch, 3)
        if vn: spec["verneed"] = vn
    if g.p(12 * level):
        bl = blacklist_syms(libc, arch)
        if bl:
            lib = g.one(sorted(bl))
            for s in dict.fromkeys(g.one(bl[lib]) for _ in range(g.n(1, 2))):
                und.append({"n": s, "b": g.one(["G", "G", "G", "W"]), "t": g.one(["FUNC", "NOTYPE", "OBJECT"])})
            if g.p(70) and lib not in spec["needed"]: spec["needed"].append(lib)
    if g.p(6 * level) and arch in ("x86_64", "i686"):
        spec["isa"] = g.one([1, 2, 4, 8, 3, 15, 6, 0])
        if g.p(50): spec["isa_pre"] = True
        if g.p(40): spec["isa_post"] = True
    if g.p(10): und.append({"n": g.one(["printf", "malloc", "weird_sym"]), "b": g.one(["G", "W"])})
    if not und: del spec["undef"]


@st.composite
def audit_world(draw, foreign=True, pathology=True, libcs=("glibc", "glibc", "glibc", "musl", "android"), reqs=2, named=False, arches=None, hostonly=False, purelib=False, unique=False, libc_always=False):
    g = G(draw)
    libc = g.one(list(libcs))
    arch = "x86_64" if hostonly else g.one(arches or {"glibc": GLIBC_ARCHES, "musl": MUSL_ARCHES, "android": ANDROID_ARCHES}[libc])
    case = {"name": g.one(["foo", "foo", "Foo_Bar", "foo2"]), "ver": g.one(["1.0", "0.1.dev3", "2!1.0+l.1"]), "py": g.one(["cp312", "cp312", "py3", "cp311.cp312"]), "abi": g.one(["cp312", "none", "abi3"])}
    # ---- platform tags
    if libc == "android":
        a = {"aarch64": "arm64_v8a"}.get(arch, arch)
        case["plats"] = [f"android_{g.one([21, 23, 24, 25, 26, 27, 30, 35])}_{a}"]
    else:
        fam = {"glibc": ["linux", "linux", "linux", "manylinux2014", "manylinux_2_17", "manylinux_2_28"], "musl": ["linux", "linux", "musllinux_1_2", "musllinux_1_1"]}[libc]
        case["plats"] = list(dict.fromkeys(g.one(fam) + "_" + arch for _ in range(g.n(1, 2))))
        if not named and g.p(12): case["plats"] = [g.one(["any", "linux", "win32", "linux_mips", f"linux_{arch}"])]
    pkg = "pkg"
    exts = EXT[:g.one([1, 2, 3, 4, 0, 3])]
    bnd = [b for b in BOUNDARY[libc] if g.p(30)]
    white_files = [w for w in WHITE[libc] if g.p(8)]
    dirs = [f"d{i}" for i in range(g.n(1, 3))]
    missing = ["libmissing.so.9"] if g.p(10) else []
    # ---- wheel libraries
    wl = []
    for i in range(g.n(0, 2)):
        wl.append((g.one([f"{pkg}/", f"{pkg}/lib/", "foo.libs/", f"{pkg}/sub/"]), g.one([f"libw{i}.so", f"libw{i}-ab12cd34.so.1"])))
    wnames = [n for _, n in wl]
    libcso = {"glibc": "libc.so.6", "musl": model.MUSL_SO.get(arch, "libc.so"), "android": "libc.so"}[libc]
    loader = INTERP[arch].rsplit("/", 1)[1]
    pool = exts * 3 + bnd * 2 + wnames * 2 + WHITE[libc] + missing + [loader] + (["libpython3.12.so.1.0"] if g.p(15) else [])

    def needs(k, own=None):
        out = [x for x in g.some(pool, k) if x != own or g.p(3)]
        if g.p(100 if libc_always and not own else 60 if own else 90 if named else 94): out.insert(g.n(0, len(out)), libcso) if libcso not in out else None
        return out

    def base(own=None, k=4):
        s = {"machine": arch, "needed": needs(k, own)}
        if arch in ("x86_64", "i686") and g.p(5): s["osabi"] = 3
        if own and g.p(80): s["soname"] = own
        return s
    # ---- external libraries
    case["dirs"] = {d: {} for d in dirs}
    allx = exts + bnd + white_files + (["libpython3.12.so.1.0"] if g.p(5) else [])
    for e in allx:
        for rep in range(1 if unique or not g.p(15) else 2):
            d = g.one(dirs)
            if e in case["dirs"][d]: continue
            sp = base(e, 3)
            add_reqs(g, sp, libc, arch, 1)
            search(g, sp, dirs, 1, 25)
            if rep: sp["seed"] = 7
            k = g.n(0, 19)
            node = {"elf": sp, "mode": 0o755}
            if k < 15: case["dirs"][d][e] = node
            elif k < 18:
                r = e.split(".so")[0] + ".so.9.9"
                case["dirs"][d][r] = node
                case["dirs"][d][e] = {"link": r}
            else:
                d2 = g.one(dirs)
                r = "real-" + e
                case["dirs"][d2][r] = node
                case["dirs"][d][e] = {"link": f"/X/{d2}/{r}"} if g.p(50) else {"link": f"../{d2}/{r}"}
        if g.p(10):     # a file of another machine in front
            d = g.one(dirs)
            if e not in case["dirs"][d]:
                case["dirs"][d][e] = {"elf": {"machine": g.one([a for a in ARCHES if a != arch] + FOREIGN), "soname": e}}
    if g.p(75): case["env_paths"] = ["/X/" + d for d in dirs if g.p(70)]
    case["ld_paths"] = ["/X/" + d for d in dirs if g.p(60)]
    # ---- members
    mem = []
    for dd, n in wl:
        s = base(n, 3)
        add_reqs(g, s, libc, arch, 1)
        search(g, s, dirs, dd.count("/"), 40)
        mem.append({"p": dd + n, "elf": s})
    for i in range(g.n(0 if mem else 1, 3)):
        mod = f"_m{i}"
        kind = g.n(0, 19)
        s = base(None, 4)
        add_reqs(g, s, libc, arch, reqs)
        depth = 1
        search(g, s, dirs, depth, 45)
        s.setdefault("defs", [])
        if kind < 14: s["defs"].append({"n": "PyInit_" + mod, "ret": 1})
        elif kind < 16: s["defs"].append({"n": "init" + mod, "ret": 1})
        elif kind < 17: s["defs"].append({"n": "_cffi_pypyinit_" + mod, "ret": 1})
        elif kind < 18: s["defs"].append({"n": "PyInit_" + mod, "t": "OBJECT"})
        elif kind < 19: s.setdefault("undef", []).append({"n": "PyInit_" + mod})
        if reqs and g.p(5 if kind < 14 else 25): s.setdefault("undef", []).append({"n": g.one(["PyUnicodeUCS2_Decode", "xPyUnicodeUCS2_"]), "t": g.one(["FUNC", "FUNC", "NOTYPE"]), "b": g.one(["G", "W"])})
        if reqs and g.p(5): s.setdefault("undef", []).append({"n": g.one(["PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter", "PyFPE_jbuf2"]), "t": g.one(["NOTYPE", "FUNC", "OBJECT"]), "b": g.one(["G", "W"])})
        if not s["defs"]: del s["defs"]
        fn = g.one([f"{mod}.cpython-312-{SOABI[arch] if libc == 'glibc' else SOABI[arch].replace('gnu', 'musl')}.so", f"{mod}.so", f"{mod}.abi3.so", f"{mod}.pypy39.so"])
        if g.p(8): fn = mod + g.one(ODD_NAMES)
        mem.append({"p": f"{pkg}/{fn}", "elf": s})
    if g.p(20):
        s = base(None, 3)
        s["type"] = g.one(["exec", "dyn"])
        s["interp"] = INTERP[arch] if libc != "musl" else f"/lib/ld-musl-{arch}.so.1"
        search(g, s, dirs, 2, 30)
        add_reqs(g, s, libc, arch, 1)
        mem.append({"p": g.one([f"{case['name']}-{case['ver']}.data/scripts/tool", f"{pkg}/bin/tool", f"{case['name']}-{case['ver']}.data/platlib/{pkg}/tool"]), "elf": s, "mode": 0o755})
    if pathology and g.p(8): mem.append({"p": f"{pkg}/static{g.n(0, 1)}.bin", "elf": {"machine": arch, "static": True, "type": "exec"}})
    if foreign and g.p(15):
        mem.insert(g.n(0, len(mem)), {"p": f"{pkg}/other.so", "elf": {"machine": g.one([a for a in ARCHES if a != arch] + FOREIGN), "needed": g.some(["libc.so.6", "libe0.so.1", "libq.so"], 2), "verneed": {"libc.so.6": ["GLIBC_2.99"]} if g.p(50) else {}}})
    if foreign and g.p(6):
        mem.insert(g.n(0, len(mem)), {"p": f"{pkg}/otherlibc.so", "elf": {"machine": arch, "needed": [{"glibc": "libc.musl-x86_64.so.1", "musl": "libc.so.6", "android": "libc.so.6"}[libc]], "verneed": {"libc.so.6": ["GLIBC_2.99"]} if g.p(50) else {}}})
    if purelib and g.p(30):
        m = g.one(mem)
        m["p"] = g.one(["purelib/", f"{case['name']}-{case['ver']}.data/purelib/", "x/purelib/y/"]) + m["p"]
    mem.append({"p": f"{pkg}/__init__.py", "data": "x = 1\n"})
    for _ in range(g.n(0, 2)):
        mem.insert(g.n(0, len(mem)), {"p": f"{pkg}/junk{g.n(0, 99)}" + g.one([".so", ".txt", ".so.1", ".bin", ".pyd"]), "data": g.one(["", "x", "\x7fELX", "not an elf file", "\x7f"])})
    if pathology and g.p(5): mem.append({"p": f"{pkg}/elf.py", "elf": {"machine": "mips", "verneed": {"libc.so.6": ["GLIBC_2.99"]}}})
    seen = set()
    mem = [m for m in mem if not (m["p"] in seen or seen.add(m["p"]))]
    if g.p(30):
        k = g.n(1, 1000)
        import random
        random.Random(k).shuffle(mem)
    case["members"] = mem
    return case


ODD_NAMES = ["", ".pyd", ".pyc", ".pyo", ".pyi", ".PY", ".so.1", ".so.1.2", ".bin", ".txt", ".json", ".o", ".a", ".dll", ".SO", ".py.so", ".pyx"]     # file names an ELF file may have just as well
NEAR = {"glibc": ["libld64.so.1", "ld64.so.3", "ld64.so.1.0", "libz.so", "libz.so.1.2", "libZ.so.1", "libc.so.6.1", "libexpat.so.1.6", "libexpat.so", "liblibz.so.1", "libc.so", "libstdc++.so.6.0", "libmvec.so", "libm.so.66", "libpython3.so", "libnvpython3.12.so"],
        "musl": ["libz.so.1.2", "libc.musl.so.1", "libc.so.6x", "libz.so", "ld64.so.3", "liblibz.so.1"],
        "android": ["libz.so.1", "libc.so.1", "liblogg.so", "libvulkan.so.1", "libsync", "libpython3.so"]}


@st.composite
def dense_world(draw, libcs=("glibc", "glibc", "glibc", "glibc", "musl", "android")):
    """small wheels in which several requirements meet: libraries that only some policies list, in combination with versions, ISA notes, blacklisted symbols"""
    g = G(draw)
    libc = g.one(list(libcs))
    arch = g.one({"glibc": ["x86_64", "x86_64", "x86_64", "i686", *ARCHES], "musl": ["x86_64", "x86_64", *MUSL_ARCHES], "android": ANDROID_ARCHES}[libc])
    if libc == "android": plats = [f"android_{g.one([21, 23, 24, 26, 27, 30])}_{ {'aarch64': 'arm64_v8a'}.get(arch, arch)}"]
    else: plats = [g.one({"glibc": ["linux", "manylinux_2_17"], "musl": ["linux", "musllinux_1_2"]}[libc]) + "_" + arch]
    case = {"name": "foo", "ver": "1.0", "py": "cp312", "abi": "cp312", "plats": plats, "dirs": {"d0": {}}, "ld_paths": ["/X/d0"]}
    libcso = {"glibc": "libc.so.6", "musl": model.MUSL_SO.get(arch, "libc.so"), "android": "libc.so"}[libc]
    black = sorted(blacklist_syms(libc, arch))
    pool = list(dict.fromkeys(BOUNDARY[libc] * 2 + g.some(NEAR[libc], 2) + g.some(black, 1) + ["libe0.so.1", "libe1.so"] + g.some(WHITE[libc], 1)))
    wl = [f"libw{i}.so" for i in range(g.n(0, 2))]
    vs = versions(libc, arch)

    def spec(own, inside):
        s = {"machine": arch, "needed": [x for x in g.some(pool + wl, 3) if x != own]}
        if libcso not in s["needed"]: s["needed"].append(libcso)
        if own: s["soname"] = own
        if g.p(35) and vs:
            s["verneed"] = {}
            for _ in range(g.n(1, 2)):
                v = g.one(vs[:-10]) if g.p(80) and len(vs) > 10 else g.one(vs)
                l = g.one(["libc.so.6"] * 3 + s["needed"] + ["ld-linux-x86-64.so.2", g.one(["libld64.so.1", "ld64.so.3", "ld-x.so.1", "LD-linux.so.2"])])
                if v not in s["verneed"].setdefault(l, []): s["verneed"][l].append(v)
        if arch in ("x86_64", "i686") and g.p(25):
            s["isa"] = g.one([1, 2, 4, 8, 15])
            if g.p(50): s["isa_pre"] = True
            if g.p(40): s["isa_post"] = True
        if black and g.p(20):
            l = g.one(black)
            s["undef"] = [{"n": g.one(blacklist_syms(libc, arch)[l]), "b": g.one("GGGW")}]
            if l not in s["needed"] and g.p(80): s["needed"].append(l)
        s["needed"] = list(draw(st.permutations(s["needed"])))
        if inside and g.p(70): s[g.one(["rpath", "runpath"])] = "$ORIGIN"
        return s
    for e in pool:
        if g.p(85): case["dirs"]["d0"][e] = {"elf": spec(e, False)}
    mem = []
    for w in wl: mem.append({"p": "foo/" + w, "elf": spec(w, True)})
    for i in range(g.n(1, 3)):
        s = spec(None, True)
        k = g.n(0, 9)
        mod = f"m{i}"
        s["defs"] = [{"n": ("PyInit_" if k < 6 else "init" if k < 8 else "func_") + mod, "ret": 1}]
        if g.p(12): s.setdefault("undef", []).append({"n": g.one(["PyFPE_jbuf", "PyFPE_dummy"]), "t": g.one(["NOTYPE", "FUNC"])})
        if g.p(12): s.setdefault("undef", []).append({"n": "PyUnicodeUCS2_Decode", "t": "FUNC"})
        mem.append({"p": f"foo/{mod}" + (g.one(ODD_NAMES) if g.p(12) else ".so"), "elf": s})
    if arch == "x86_64" and libc == "glibc" and g.p(15):     # a boundary library alone has the ISA note
        b = g.one(BOUNDARY[libc])
        for f in [m["elf"] for m in mem] + [n["elf"] for n in case["dirs"]["d0"].values()]:
            if g.p(80): f.pop("isa", None)
        case["dirs"]["d0"][b] = {"elf": {**spec(b, False), "isa": g.one([2, 4, 8])}}
        n = g.one(mem)["elf"]["needed"]
        if b not in n: n.append(b)
    case["members"] = list(draw(st.permutations(mem)))
    return case


@st.composite
def borrow_world(draw, libcs=("glibc", "glibc", "glibc", "musl", "android"), opts=False):
    """wheels whose own libraries find their dependencies only through the search path of another file: extension, library or program, of which there may be several"""
    g = G(draw)
    libc = g.one(list(libcs))
    arch = g.one({"glibc": ["x86_64"] * 3 + GLIBC_ARCHES, "musl": MUSL_ARCHES, "android": ANDROID_ARCHES}[libc])
    if libc == "android": plats = [f"android_{g.one([24, 26, 30])}_{ {'aarch64': 'arm64_v8a'}.get(arch, arch)}"]
    else: plats = [g.one({"glibc": ["linux", "linux", "manylinux2014"], "musl": ["linux", "musllinux_1_2"]}[libc]) + "_" + arch]
    case = {"name": "foo", "ver": "1.0", "py": "cp312", "abi": "cp312", "plats": plats}
    libcso = {"glibc": "libc.so.6", "musl": model.MUSL_SO.get(arch, "libc.so"), "android": "libc.so"}[libc]
    dirs = [f"d{i}" for i in range(g.n(1, 2))]
    case["dirs"] = D = {d: {} for d in dirs}
    case["ld_paths"] = ["/X/c"] if g.p(60) else ["/X/nowhere"]
    uid = [0]

    def spec(own, needed):
        uid[0] += 1
        s = {"machine": arch, "needed": list(dict.fromkeys(n for n in needed if n != own)), "seed": uid[0]}
        if g.p(92): s["needed"].insert(g.n(0, len(s["needed"])), libcso)
        if own and g.p(85): s["soname"] = own
        return s
    # ---- a graph of libraries: mostly chains, edges forwards, sometimes back
    names = [f"libq{i}.so.{i}" for i in range(g.n(1, 5))] + [b for b in BOUNDARY[libc][:2] if g.p(20)]
    white = [w for w in WHITE[libc][:4] if w != libcso and g.p(20)]
    wl = [f"libw{i}.so" for i in range(g.n(1, 2))]
    for i, n in enumerate(names):
        nx = names[i + 1:i + 2] if g.p(75) else []
        if g.p(25): nx.append(g.one(names + wl + white))
        s = spec(n, nx)
        add_reqs(g, s, libc, arch, 1 if g.p(20) else 0)
        D[g.one(dirs)][n] = {"elf": s, "mode": 0o755}
        if len(dirs) > 1 and g.p(10):      # the same name elsewhere
            D[g.one(dirs)].setdefault(n, {"elf": spec(n, nx[:1]), "mode": 0o755})
    sub = g.one(["pkg/lib/", "pkg/", "foo.libs/"])
    mem = []
    for i, n in enumerate(wl):
        s = spec(n, [names[0] if g.p(70) else g.one(names)] + ([g.one(names)] if g.p(30) else []) + [x for x in wl[i + 1:] if g.p(40)] + ([g.one(white)] if white and g.p(30) else []))
        if g.p(15): search(g, s, dirs, 2, 50)
        elif len(wl) > 1 and g.p(50): s["rpath"] = "$ORIGIN"
        mem.append({"p": sub + n, "elf": s, "mode": 0o755})
    up = {"pkg/lib/": "$ORIGIN/lib", "pkg/": "$ORIGIN", "foo.libs/": "$ORIGIN/../foo.libs"}[sub]
    # ---- files that use them
    for i in range(g.n(1, 3)):
        kind = g.one(["ext", "ext", "lib", "exe"] if libc != "android" else ["ext", "lib"])
        s = spec(None, [w for w in wl if g.p(80)] + ([g.one(names)] if g.p(20) else []))
        if g.p(10): s["needed"].append("libmissing.so.9")
        es = [up] + ["/X/" + d for d in dirs if g.p(85)]
        if g.p(30): es.reverse()
        s[g.one(["rpath", "rpath", "rpath", "runpath"])] = ":".join(es)
        p = f"pkg/m{i}.so"
        if kind == "ext": s["defs"] = [{"n": f"PyInit_m{i}", "ret": 1}]
        if kind == "lib": p = f"pkg/libtop{i}.so"
        if kind == "exe":
            s["type"] = "dyn"; p = f"pkg/tool{i}"
            s["interp"] = INTERP[arch] if libc != "musl" else f"/lib/ld-musl-{arch}.so.1"
        mem.append({"p": p, "elf": s, "mode": 0o755})
    if not any("defs" in q["elf"] for q in mem) or g.p(20): mem.append({"p": "pkg/ext.so", "elf": {**spec(None, []), "defs": [{"n": "PyInit_ext", "ret": 1}]}, "mode": 0o755})
    if g.p(75):     # the C library and the rest are there: trees can be fully resolved
        D["c"] = {n: {"elf": {"machine": arch, "soname": n, "needed": [], "seed": 99}, "mode": 0o755} for n in [libcso] + white}
        if g.p(50):
            for d in dirs: D[d].setdefault(libcso, {"link": "../c/" + libcso})
    mem.append({"p": "pkg/__init__.py", "data": "x = 1\n"})
    case["members"] = list(draw(st.permutations(mem)))
    if opts: case["opts"] = {}
    return case
