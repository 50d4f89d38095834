"""Reference model: from the *case* (not from files on disk) computes what auditing and repairing a wheel must give.

Virtual paths: wheel members live below /W, library directories below /X/<dir>.
"""
from __future__ import annotations

import fnmatch
import json
import os
import posixpath
import re
from functools import lru_cache

from . import elfgen

POL = {"glibc": "manylinux", "musl": "musllinux", "android": "android"}
PREFIX = {"glibc": "manylinux", "musl": "musllinux", "android": "android"}
MUSL_SO = {"x86_64": "libc.musl-x86_64.so.1", "i686": "libc.musl-x86.so.1", "aarch64": "libc.musl-aarch64.so.1", "s390x": "libc.musl-s390x.so.1",
           "ppc64le": "libc.musl-ppc64le.so.1", "armv7l": "libc.musl-armv7.so.1", "riscv64": "libc.musl-riscv64.so.1", "loongarch64": "libc.musl-loongarch64.so.1"}
LIBPY = re.compile(r"^libpython\d+\.\d+[dmtu]*\.so(\.\d+)*$")


@lru_cache(None)
def raw_policies(libc):
    with open(os.environ.get("VF_REPO", "/repo") + f"/src/auditwheel/policy/{POL[libc]}-policy.json") as f:
        return json.load(f)


class Pol:
    def __init__(self, name, aliases, prio, syms, white, black):
        self.name = name; self.aliases = aliases; self.prio = prio
        self.syms = syms; self.white = white; self.black = black


def policies(libc, arch, android=None):
    """least compatible (linux) first. android = (tag, level)"""
    raw = [p for p in raw_policies(libc) if p["name"] == "linux" or arch in p["symbol_versions"]]
    raw.sort(key=lambda p: p["priority"])
    out = []
    for p in raw:
        syms = {} if p["name"] == "linux" else {k: {f"{k}_{v}" for v in vs} for k, vs in p["symbol_versions"][arch].items()}
        white = set(p["lib_whitelist"])
        if libc == "musl" and "libc.so" in white: white = white - {"libc.so"} | {MUSL_SO[arch]}
        out.append(Pol(f"{p['name']}_{arch}", [f"{a}_{arch}" for a in p["aliases"]], p["priority"], syms, white,
                       {k: set(v) for k, v in p["blacklist"].items()}))
    if libc == "musl":      # the newest one only (the host has no musl)
        out = out[:2]
    if libc == "android":
        tag, level = android
        cands = [p for p in out if p.name.startswith("android") and int(re.match(r"android_(\d+)", p.name)[1]) <= level]
        if not cands: return None
        best = max(cands, key=lambda p: int(re.match(r"android_(\d+)", p.name)[1]))
        best.name = tag
        out = [out[0], best]
    return out


def plat_of(spec):
    """(machine, class, endian) and the architecture the tool knows it as, or None; ISA level"""
    em, cls, le, flags = elfgen.EM[spec.get("machine", "x86_64")]
    em = spec.get("em", em); cls = spec.get("cls", cls); le = spec.get("le", le); flags = spec.get("flags", flags)
    key = (em, cls, le)
    arch = {(62, 64, True): "x86_64", (3, 32, True): "i686", (183, 64, True): "aarch64", (40, 32, True): "armv7l",
            (21, 64, True): "ppc64le", (21, 64, False): "ppc64", (22, 64, False): "s390x", (243, 64, True): "riscv64", (258, 64, True): "loongarch64"}.get(key)
    if arch == "armv7l" and (flags & 0xFF000000 != 0x05000000 or not flags & 0x400): arch = None
    return key + (spec.get("osabi", 0),), arch


def compatible(a, b):
    return a[:3] == b[:3] and (a[3] == b[3] or (a[3] in (0, 3) and b[3] in (0, 3)))


def isa_level(spec):
    """0 baseline / none, 2 3 4 = x86-64-v2..v4"""
    v = spec.get("isa")
    if v is None or plat_of(spec)[1] != "x86_64" or spec.get("isa_type", 0xC0008002) != 0xC0008002: return 0
    v &= ~1
    for bit, lvl in ((8, 4), (4, 3), (2, 2)):
        if v & bit: return lvl
    return -1 if v else 0


def norm(p):
    return posixpath.normpath(p).replace("//", "/")


class VFS:
    """virtual files: abspath -> node {"elf"} | {"data"} | {"link"}"""

    def __init__(self):
        self.nodes = {}
        self.dirs = {"/"}

    def add(self, path, node):
        self.nodes[path] = node
        d = posixpath.dirname(path)
        while d not in self.dirs:
            self.dirs.add(d); d = posixpath.dirname(d)

    def mkdir(self, d):
        while d not in self.dirs:
            self.dirs.add(d); d = posixpath.dirname(d)

    def real(self, path, depth=0):
        """follow links of the last component"""
        seen = set()
        while path in self.nodes and "link" in self.nodes[path]:
            if path in seen: return None
            seen.add(path)
            path = norm(posixpath.join(posixpath.dirname(path), self.nodes[path]["link"]))
        return path if path in self.nodes else None


class Lib:
    __slots__ = ("soname", "path", "real", "plat", "needed", "spec")

    def __init__(self, soname, path=None, real=None, plat=None, needed=(), spec=None):
        self.soname = soname; self.path = path; self.real = real; self.plat = plat; self.needed = needed; self.spec = spec


class Tree:
    pass


def parse_paths(s, origin, vfs, cwd="/W"):
    if not s: return []
    out = []
    for e in s.split(":"):
        if e == "": p = cwd
        elif "$ORIGIN" in e or "${ORIGIN}" in e:
            p = e.replace("${ORIGIN}", origin).replace("$ORIGIN", origin)
        else:
            p = "/" + e
        p = norm(p)
        if p not in out and p in vfs.dirs: out.append(p)
    return out


def ldd(vfs, main, env, conf, exclude=(), main_rpath=None, main_runpath=None, interp_dirs=(), libs=None, cwd="/W"):
    first = libs is None
    if first: libs = {}
    spec = vfs.nodes[main]["elf"]
    t = Tree()
    t.path = main
    t.plat, t.arch = plat_of(spec)
    origin = posixpath.dirname(main)
    t.libc = None
    t.interp = None
    if first and spec.get("interp") is not None:
        ip = norm("/" + spec["interp"])
        t.interp = ip
        b = posixpath.basename(ip)
        libs[b] = Lib(b, ip, ip, t.plat)
        t.libc = "musl" if b.startswith("ld-musl-") else "glibc"
        d = posixpath.dirname(spec["interp"])
        interp_dirs = [d, norm("/usr" + d)]
    rp = [] if spec.get("static") else parse_paths(spec.get("rpath"), origin, vfs, cwd)
    rn = [] if spec.get("static") else parse_paths(spec.get("runpath"), origin, vfs, cwd)
    if not spec.get("static") and spec.get("runpath") is not None: rp = []
    t.rpath = rp; t.runpath = rn
    needed = [] if spec.get("static") else list(spec.get("needed") or [])
    if first:
        for s in needed:
            l = None
            if s.startswith(("libc.musl-", "ld-musl-")): l = "musl"
            elif s == "libc.so.6" or s.startswith(("ld-linux-", "ld64.so.")): l = "glibc"
            if l:
                if t.libc is None: t.libc = l
                elif t.libc != l: raise LibcConflict(main)
        if t.libc is None: t.libc = libc_from_name(posixpath.basename(main))
        main_rpath, main_runpath = rp, rn
    order = main_rpath + rp + rn + env + main_runpath + conf + list(interp_dirs)
    excl = set()
    for s in needed:
        if s in libs or s in excl: continue
        if any(fnmatch.fnmatchcase(s, e) for e in exclude):
            excl.add(s); continue
        if LIBPY.match(s):
            libs[s] = Lib(s); continue
        real = path = None
        for d in order:
            c = posixpath.join(d, s)
            if c not in vfs.nodes: continue
            r = vfs.real(c)
            if r is None: continue
            n = vfs.nodes[r]
            if "elf" in n and compatible(t.plat, plat_of(n["elf"])[0]):
                real, path = r, c
                break
        if real is not None and any(fnmatch.fnmatchcase(vfs.show(real), e) for e in exclude):
            excl.add(s); continue
        libs[s] = Lib(s, path, real)
        if real is None: continue
        sub = ldd(vfs, real, env, conf, exclude, main_rpath, main_runpath, interp_dirs, libs, cwd)
        libs[s] = Lib(s, path, real, sub.plat, sub.needed, vfs.nodes[real]["elf"])
    t.needed = [s for s in needed if s not in excl]
    t.libs = libs
    t.spec = spec
    return t


class LibcConflict(Exception):
    pass


class Rejected(Exception):
    """kind: noelf | arch | purelib | libc | android"""

    def __init__(self, kind, files=()):
        super().__init__(kind)
        self.kind = kind; self.files = list(files)


def libc_from_name(name):
    if name.endswith(("-arm-linux-musleabihf.so", "-linux-musl.so")): return "musl"
    if name.endswith(("-arm-linux-gnueabihf.so", "-linux-gnu.so")):
        soabi = name[:-3].split(".")[-1].split("-")
        if soabi[0] == "cpython" and len(soabi) > 1 and re.match(r"3(1[1-9]|[2-9]\d)", soabi[1]): return "glibc"
    return None


def is_py_ext(path, spec):
    if spec.get("static"): return None
    mod = posixpath.basename(path).split(".", 1)[0]
    names = {"init" + mod: 2, "PyInit_" + mod: 3, "_cffi_pypyinit_" + mod: 2}
    for d in spec.get("defs") or []:
        if d["n"] in names and d.get("t", "FUNC") == "FUNC": return names[d["n"]]
    return None


def verneed(spec):
    """{lib: {versions}} without the loader's"""
    out = {}
    if spec.get("static"): return out

    def put(l, v):
        if l.startswith("ld-linux") or l in ("ld64.so.1", "ld64.so.2"): return
        out.setdefault(l, set()).add(v)
    for l, vs in (spec.get("verneed") or {}).items():
        for v in vs: put(l, v)
    for u in spec.get("undef") or []:
        if u.get("v"): put(*u["v"])
    return out


class Analysis:
    pass


class World:
    """case["members"], case["dirs"], search paths -> audit verdict"""

    def __init__(self, case, show_path=lambda v: v):
        self.case = case
        v = self.vfs = VFS()
        v.show = show_path
        for m in case["members"]: v.add("/W/" + m["p"], m)
        for d, files in (case.get("dirs") or {}).items():
            v.mkdir("/X/" + d)
            for n, f in files.items(): v.add(f"/X/{d}/{n}", f)

    def arch_libc_from_name(self):
        from .names import name_arch, name_libc
        return name_arch(self.case["plats"]), name_libc(self.case["plats"])

    def audit(self, exclude=(), isa_check=True, purelib_check=True, req_arch=None, req_libc=None):
        c = self.case
        arch, libc = self.arch_libc_from_name()
        pure_name = arch == "any"
        if arch in ("any", None): arch = req_arch
        if libc is None: libc = req_libc
        vfs = self.vfs
        env = [p for p in c.get("env_paths", []) if p in vfs.dirs]
        conf = [p for p in c.get("ld_paths", []) if p in vfs.dirs]
        A = Analysis()
        A.pure_name = pure_name
        A.ignored = []       # (basename, reason)
        py, non = {}, {}
        own = {}
        ucs2 = fpe = False
        purelib = [posixpath.basename(m["p"]) for m in c["members"] if self.is_elf(m) and "purelib" in m["p"].split("/")[:-1]]
        if purelib and purelib_check: raise Rejected("purelib", purelib)
        bad = []
        processed = 0
        pols = None
        android = None
        for m in c["members"]:
            if not self.is_elf(m): continue
            bn = posixpath.basename(m["p"])
            try:
                t = ldd(vfs, "/W/" + m["p"], env, conf, exclude)
            except LibcConflict:
                raise Rejected("libc", [bn]) from None
            if t.arch is None:
                bad.append(bn); A.ignored.append((bn, "unknown architecture")); continue
            if arch is None: arch = t.arch
            elif arch != t.arch:
                bad.append(bn); A.ignored.append((bn, t.arch)); continue
            if t.libc is not None:
                if libc is None: libc = t.libc
                elif libc != t.libc:
                    A.ignored.append((bn, t.libc)); continue
            if pols is None and libc is not None:
                if libc == "android":
                    from .names import android_tag
                    android = android_tag(c["plats"])
                    if android is None: raise Rejected("android")
                pols = policies(libc, arch, android)
                if pols is None: raise Rejected("android")
                if len(pols) < 2: raise Rejected("nopolicy")
            processed += 1
            for l, vs in verneed(t.spec).items(): own.setdefault(l, set()).update(vs)
            e = is_py_ext(m["p"], t.spec)
            if e:
                if pols is None: raise Rejected("libc", [bn])
                py[m["p"]] = t
                for u in t.spec.get("undef") or []:
                    if u["n"] in ("PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter") and u.get("t", "FUNC") in ("FUNC", "NOTYPE"): fpe = True
                    if e == 2 and "PyUnicodeUCS2_" in u["n"] and u.get("t", "FUNC") == "FUNC": ucs2 = True
            else:
                non[m["p"]] = t
        A.bad = bad
        if not processed: raise Rejected("arch" if arch is not None and bad else "noelf", bad)
        self.fixup(py, non)
        needed_any = {s for t in list(py.values()) + list(non.values()) for s in t.needed}
        if pols is None:
            libc = "glibc"
            pols = policies(libc, arch)
        A.arch, A.libc, A.pols, A.own = arch, libc, pols, own
        A.trees = {**py, **non}
        A.py = set(py)
        A.top = list(py) + [p for p in non if posixpath.basename(p) not in needed_any]
        walked = {s for p in A.top for s in A.trees[p].libs}
        A.top += [p for p in non if p not in A.top and posixpath.basename(p) not in walked]
        A.ucs2, A.fpe = ucs2, fpe
        A.refs = {}     # path -> policy name -> {soname: real or None}
        for p, t in A.trees.items():
            A.refs[p] = {q.name: ({} if q is pols[0] else self.external(t, q, libc)) for q in pols}
        A.ext = {q.name: {} for q in pols}
        A.black = {q.name: {} for q in pols}
        for p in A.top:
            t = A.trees[p]
            und = {u["n"] for u in t.spec.get("undef") or [] if u.get("b", "G") != "W"} if not t.spec.get("static") else set()
            und |= {d["call"] for d in (t.spec.get("defs") or []) if d.get("call")} if not t.spec.get("static") else set()
            if t.spec.get("main") and t.spec["main"].get("call"): und.add(t.spec["main"]["call"])
            for q in pols[1:]:
                A.ext[q.name].update(A.refs[p][q.name])
                for l in set(q.black) & set(t.needed):
                    hit = q.black[l] & und
                    if hit: A.black[q.name].setdefault(l, set()).update(hit)
        # ---- per policy verdicts
        A.isa = {}
        allext = {}
        for q in pols[1:]:
            for s, r in [e for p in A.top for e in A.refs[p][q.name].items()]:
                if r is not None: allext.setdefault(r, s)
        A.allext = allext
        machine = len(pols) - 1
        if isa_check:
            for p in A.top:
                if isa_level(A.trees[p].spec) != 0: machine = 0
            for p in A.top:
                for s, lib in A.trees[p].libs.items():
                    if s in allext.values() and lib.spec is not None and isa_level(lib.spec) != 0:
                        w = [i for i, q in enumerate(pols) if s in q.white]
                        machine = min(machine, max(w, default=0))
        A.i_machine = machine
        A.i_ucs = 0 if ucs2 else len(pols) - 1
        A.i_fpe = 0 if fpe else len(pols) - 1
        A.i_black = max([i for i, q in enumerate(pols) if not A.black[q.name]], default=0)
        A.i_ref = max([i for i, q in enumerate(pols) if not A.ext[q.name]], default=0)
        best, every = None, []
        for i, q in enumerate(pols):
            if i == 0: continue
            need = {l: set(v) for l, v in own.items()}
            # every library that this policy would graft; one name may stand for several
            for r in {r for p in A.top for r in A.refs[p][q.name].values() if r is not None}:
                for l, vs in verneed(self.vfs.nodes[r]["elf"]).items(): need.setdefault(l, set()).update(vs)
            f = min(i, self.sym_index(pols, need))
            every.append((f, need))
            if best is None or f > best[0]: best = (f, need)
        A.i_sym, A.sym_need = best
        A.sym_needs = [n for f, n in every if f == A.i_sym]     # reported: the need of a policy that gives the verdict
        A.i_own = self.sym_index(pols, own)
        A.i_show = min(A.i_sym, A.i_ucs, A.i_fpe, A.i_black, A.i_machine, A.i_ref)
        A.show_tag = pols[A.i_show].name
        return A

    def is_elf(self, m):
        return "elf" in m and not m["p"].endswith(".py")

    @staticmethod
    def sym_index(pols, need):
        allv = {v for vs in need.values() for v in vs}
        for i in range(len(pols) - 1, -1, -1):
            q = pols[i]
            if all(v.partition("_")[0] not in q.syms or v in q.syms[v.partition("_")[0]] for v in allv): return i
        raise AssertionError

    def external(self, t, q, libc):
        def keep(s):
            if "ld-linux" in s or s in ("ld64.so.1", "ld64.so.2"): return False
            if libc == "android" and LIBPY.match(s): return False
            return s not in q.white
        todo = [s for s in t.needed if keep(s)]
        seen = []
        while todo:
            s = todo.pop()
            if s in seen: continue
            seen.append(s)
            todo += [x for x in t.libs[s].needed if keep(x)]
        out = {}
        for s in sorted(seen):
            r = t.libs[s].real
            if r is not None and (r == "/W" or r.startswith("/W/")): continue
            out[s] = r
        return out

    def fixup(self, py, non):
        """what a wheel library cannot find by itself is taken from the first fully resolved tree it is part of"""
        full = [t for t in list(py.values()) + list(non.values()) if all(l.real is not None for l in t.libs.values())]
        for p, t in non.items():
            if all(l.real is not None for l in t.libs.values()): continue
            me = "/W/" + p
            ref = next((r for r in full if any(l.real == me for l in r.libs.values())), None)
            if ref is None: continue
            new = {}
            have = set(t.libs)
            for s, l in t.libs.items():
                if l.real is None and s in ref.libs:
                    new[s] = ref.libs[s]
                    todo = [x for x in ref.libs[s].needed if x not in have]
                    while todo:
                        x = todo.pop()
                        if x in have: continue
                        have.add(x)
                        if x in ref.libs:
                            new[x] = ref.libs[x]
                            todo += [y for y in ref.libs[x].needed if y not in have]
                else:
                    new[s] = l
            t.libs = new

    # ---- repair
    def plan(self, A, plat="auto", only_plat=False):
        """index of the policies to tag with, or the reason for refusing"""
        pols = A.pols
        n = [len(A.ext[q.name]) for q in pols]
        if plat == "auto":
            limit = min(n[1:])
        else:
            req = next(i for i, q in enumerate(pols) if plat == q.name or plat in q.aliases)
            limit = n[req]
        graft = max(i for i in range(len(pols)) if n[i] <= limit)
        overall = min(A.i_sym, A.i_ucs, A.i_fpe, A.i_black, A.i_machine, graft)
        if plat == "auto": req = overall if overall else 1
        why = None
        if req > A.i_sym: why = "symbols"
        elif req > A.i_ucs: why = "ucs2"
        elif req > A.i_black: why = "blacklist"
        elif req > A.i_machine: why = "isa"
        abis = [pols[req].name, *pols[req].aliases]
        first = req
        if not only_plat and req < overall:
            abis = [pols[overall].name, *pols[overall].aliases, *abis]
            first = overall
        return {"requested": req, "overall": overall, "first": first, "abis": abis, "refuse": why}
