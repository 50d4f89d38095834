"""C28: scripts/calculate_symbol_versions.py."""
import json
import os

from hypothesis import strategies as st

from vlib import harness, model, worlds
from vlib.elfgen import build
from vlib.harness import Leg, Prop, Violation

SCRIPT = os.environ.get("VF_REPO", "/repo") + "/scripts/calculate_symbol_versions.py"
PRE = ["GLIBC", "GLIBCXX", "CXXABI", "GCC", "ZLIB", "LIBATOMIC", "OPENSSL", "FOO", "glibc", "G"]
VER = ["2.2.5", "2.3", "2.10", "2.9", "2.17", "1.3", "1.3.1", "1.3.13", "1.10", "3", "10", "9", "4.0.0", "1.2.3.4", "1.2.3.10", "1.2.3", "0.9.8", "3.4.9", "3.4.30", "3.4.100", "2024.1", "PRIVATE", "TM_1", "FLOAT128", "ABI_DT_RELR", "ARM_1.3.3", "1.1.1b", "1_1_0", "PRIVATE_1", "xPRIVATE"]
NAMES = ["libc.so.6", "libm.so.6", "libz.so.1", "libstdc++.so.6", "libgcc_s.so.1", "libx.so", "libweird-1.2.so.3"]
MACH = ["x86_64", "x86_64", "x86_64", "x86_64", "aarch64", "riscv64", "ppc64le", "s390x", "loongarch64"]


@st.composite
def case(draw):
    g = worlds.G(draw)
    libs = {}
    for n in g.some(NAMES, 4) or ["libc.so.6"]:
        k = g.n(0, 9)
        defs = [g.one(PRE[:g.one([3, 10])]) + "_" + g.one(VER) for _ in range(g.one([3, 7, 0, 1, 5, 12]))] + g.some(["GLIBC", "PRIVATE", "libc.so.6", "NOUNDERSCORE"], 1)
        libs[n] = {"where": g.one(["/lib64", "/usr/lib64", "both", "link"]), "defs": list(dict.fromkeys(defs)), "machine": g.one(["x86_64", "x86_64", "i686", "s390x", "aarch64"]), "soname": n if g.p(80) else g.one(["GLIBC_9.9", "x_y", n]), "need": g.p(30), "kind": "absent" if k == 0 and g.p(40) else "elf"}
    mach = g.one(MACH)
    pols = []
    real = g.p(15)
    for i in range(g.n(1, 3)):
        archs = list(dict.fromkeys(g.some(MACH + ["i686"], 3) + [mach]))
        if g.p(15): archs.remove(mach)
        p = {"name": f"pol_{i}", "aliases": [], "priority": 10 - i, "symbol_versions": {a: {x: g.some(["1.0", "2.5"], 2) for x in [*PRE[:g.one([0, 1, 2, 3, 5])], *g.some(PRE[5:], 2)]} for a in archs}, "lib_whitelist": (g.some(list(libs), 5) or list(libs)) if g.p(95) else []}
        pols.append(p)
    return {"libs": libs, "pols": pols, "pick": g.n(0, len(pols) - 1), "mach": mach, "real": real, "name": g.one(["pol_9", "pol_", "POL_0", ""]) if g.p(8) else None}


def run(c, ctx):
    root = ctx.dir
    pj = os.path.join(root, "policy.json")
    pols = c["pols"]
    with open(pj, "w") as f: json.dump(pols, f)
    for d in ("lib64", "usr/lib64", "store"): os.makedirs(os.path.join(root, d))
    for n, l in c["libs"].items():
        if l["kind"] == "absent": continue
        s = {"machine": l["machine"], "soname": l["soname"], "needed": ["libc.so.6"], "verdef": l["defs"]}
        if l["need"]: s["verneed"] = {"libc.so.6": ["GLIBC_2.99", "FOO_77"]}
        b = build(s)
        ws = {"/lib64": ["lib64"], "/usr/lib64": ["usr/lib64"], "both": ["lib64", "usr/lib64"], "link": ["store"]}[l["where"]]
        for w in ws:
            with open(os.path.join(root, w, n), "wb") as f: f.write(b)
        if l["where"] == "link": os.symlink("../store/" + n, os.path.join(root, "lib64", n))
    name = c["name"] if c["name"] is not None else pols[c["pick"]]["name"]
    mach = c["mach"]

    def fn():
        import builtins
        import io
        import platform
        import runpy
        import sys
        sys.path.insert(0, os.environ.get("VF_REPO", "/repo") + "/src")
        ro, rs, rl = io.open, os.stat, os.lstat

        def mp(p):
            if isinstance(p, int): return p
            q = os.path.normpath(os.fspath(p)) if not isinstance(p, bytes) else p
            return root + q if isinstance(q, str) and (q.startswith(("/lib64/", "/usr/lib64/"))) else p
        builtins.open = io.open = lambda p, *a, **k: ro(mp(p), *a, **k)
        os.stat = lambda p, *a, **k: rs(mp(p), *a, **k)
        os.lstat = lambda p, *a, **k: rl(mp(p), *a, **k)
        # the interpreter's own view of the machine
        platform.machine = lambda: mach
        sys.argv = [SCRIPT, name, pj]
        runpy.run_path(SCRIPT, run_name="__main__")
    return name, harness.in_child(fn, cwd=root, timeout=60)


def check(c, ctx):
    name, r = run(c, ctx)
    if r.rc is None or r.timeout: raise Violation(f"the script dies: {r!r}")
    pol = next((p for p in c["pols"] if p["name"] == name), None)
    gone = pol and [l for l in pol["lib_whitelist"] if c["libs"][l]["kind"] == "absent"]
    if pol is None or gone:
        ctx.label("unknown policy" if pol is None else "missing library")
        if r.rc == 0: raise Violation(f"no error for {'the unknown policy ' + name if pol is None else 'missing ' + str(gone)}: {r!r}")
        if (name if pol is None else gone[0]) not in r.err and not (gone and any(x in r.err for x in gone)): raise Violation(f"the error does not name what is missing: {r!r}")
        if r.out.strip(): raise Violation(f"output in spite of an error: {r.out!r}")
        return
    arch = c["mach"]
    if arch not in pol["symbol_versions"]:
        ctx.label("policy without this architecture")
        if r.rc == 0 and json.loads(r.out) != {}: raise Violation(f"versions for an architecture that the policy does not have: {r.out}")
        return
    if r.rc != 0: raise Violation(f"the script fails: {r!r}")
    try: got = json.loads(r.out)
    except ValueError: raise Violation(f"no JSON document: {r.out!r}") from None
    want = {p: set() for p in pol["symbol_versions"][arch]}
    for l in pol["lib_whitelist"]:
        for d in [*c["libs"][l]["defs"], c["libs"][l]["soname"]]:
            p, u, v = d.partition("_")
            if u and p in want and v != "PRIVATE" and d != c["libs"][l]["soname"]: want[p].add(v)
            if d == c["libs"][l]["soname"] and d in ("GLIBC_9.9",) and c["libs"][l]["defs"] and "GLIBC" in want: want["GLIBC"].add("9.9?")
    if set(got) != set(want): raise Violation(f"prefixes {sorted(got)}, the policy has {sorted(want)}")
    n = 0
    for p, vs in got.items():
        opt = {"9.9"} if "9.9?" in want[p] else set()
        w = want[p] - {"9.9?"}
        if len(set(vs)) != len(vs): raise Violation(f"{p}: repeated versions {vs}")
        if set(vs) - opt != w - opt: raise Violation(f"{p}: {vs}, the libraries define {sorted(w)}")
        num = [x for x in vs if all(q.isdigit() for q in x.split("."))]
        if num != sorted(num, key=lambda x: [int(q) for q in x.split(".")]): raise Violation(f"{p}: not in numeric order: {vs}")
        n += len(num) > 1
    ctx.label(f"libraries:{len(pol['lib_whitelist'])}", "sorted" if n else "at most one version")
    ctx.nontrivial(any(want.values()))


PROP = Prop("C28", [Leg("script", lambda t: case(), check, 1500, 60000)],
            rule="policy files with 1-3 policies over several architectures, 1-4 libraries in /lib64 or /usr/lib64 (stand-in directories: file access below these two is redirected to the scratch directory) with up to 7 version definitions, the machine the interpreter reports; non-trivial: some version has to be reported",
            technique="property-based testing (Hypothesis) of the script against a reference computation",
            level_note="Random search. Trusts: the ELF writer; redirection of file access in the process that runs the script.")
