"""C25: policies are monotone, unambiguous and validated."""
import copy
import json
import os
import re
import shutil
import subprocess
import sys
from functools import lru_cache

from hypothesis import strategies as st

from vlib import model, worlds
from vlib.elfread import Elf
from vlib.harness import Leg, Prop, Skip, Violation

GL = ["x86_64", "i686", "aarch64", "armv7l", "ppc64", "ppc64le", "s390x", "riscv64", "loongarch64"]
MU = [a for a in GL if a != "ppc64"]
PEP = {"manylinux1": (2, 5), "manylinux2010": (2, 12), "manylinux2014": (2, 17)}
# PEP 571 / PEP 599: upper limits for x86
LIMIT = {"manylinux_2_12": {"GLIBC": "2.12", "CXXABI": "1.3.3", "GLIBCXX": "3.4.13", "GCC": "4.5.0"},
         "manylinux_2_17": {"GLIBC": "2.17", "CXXABI": "1.3.7", "GLIBCXX": "3.4.19", "GCC": "4.8.0"}}
# the libraries of PEP 571 and PEP 599
PEPLIBS = {"libgcc_s.so.1", "libstdc++.so.6", "libm.so.6", "libdl.so.2", "librt.so.1", "libc.so.6", "libnsl.so.1", "libutil.so.1", "libpthread.so.0", "libresolv.so.2",
           "libX11.so.6", "libXext.so.6", "libXrender.so.1", "libICE.so.6", "libSM.so.6", "libGL.so.1", "libgobject-2.0.so.0", "libgthread-2.0.so.0", "libglib-2.0.so.0"}
HOSTLIBS = ["libc.so.6", "libm.so.6", "libpthread.so.0", "libdl.so.2", "librt.so.1", "libresolv.so.2", "libutil.so.1", "libnsl.so.1", "libstdc++.so.6", "libgcc_s.so.1", "libz.so.1", "libmvec.so.1", "ld-linux-x86-64.so.2", "libatomic.so.1", "libanl.so.1"]


MUSL_LIBC = {"i686": "libc.musl-x86.so.1", "armv7l": "libc.musl-armv7.so.1"}      # names of musl itself, as its packages have them


def num(v):
    return tuple(int(x) for x in v.split(".")) if re.fullmatch(r"\d+(\.\d+)*", v) else None


@lru_cache(None)
def host_versions():
    out = {}
    for n in HOSTLIBS:
        try: b = open("/lib/x86_64-linux-gnu/" + n, "rb").read()
        except OSError: return {}
        for v, _, _ in Elf(b).verdef():
            p, u, x = v.partition("_")
            if u and num(x): out.setdefault(p, set()).add(num(x))
    return out


def load(libc, arch, tag=None, musl=None):
    from pathlib import Path

    from auditwheel.architecture import Architecture
    from auditwheel.libc import Libc
    from auditwheel.policy import WheelPolicies
    kw = {}
    if tag: kw["wheel_fn"] = Path(f"foo-1.0-cp312-cp312-{tag}.whl")
    if musl: kw["musl_policy"] = musl
    return WheelPolicies(libc={"glibc": Libc.GLIBC, "musl": Libc.MUSL, "android": Libc.ANDROID}[libc], arch=Architecture(arch), **kw)


# ---------------------------------------------------------------- the shipped policies
@st.composite
def shipped(draw):
    libc = draw(st.sampled_from(["glibc"] * 4 + ["musl", "android"]))
    arch = draw(st.sampled_from({"glibc": GL + ["x86_64_v2", "x86_64_v3", "x86_64_v4"], "musl": MU, "android": ["x86_64", "aarch64"]}[libc]))
    c = {"libc": libc, "arch": arch}
    if libc == "musl": c["musl"] = draw(st.sampled_from([None, "musllinux_1_1", "musllinux_1_2"]))
    if libc == "android": c["tag"] = f"android_{draw(st.integers(21, 60))}_{arch.replace('aarch64', 'arm64_v8a')}"
    c["names"] = draw(st.lists(st.sampled_from(["manylinux_2_5", "manylinux1", "manylinux2014", "manylinux_2_17", "linux", "manylinux_2_100", "manylinux", "musllinux_1_2", "musllinux_1_1", "android_24", "", "auto", "manylinux_2_1", "Linux", "manylinux_2_17_x86"]), max_size=4))
    c["sfx"] = draw(st.sampled_from(["_" + arch, "_" + arch, "_i686", "_x86_64", "", "_x86_64_v2", "_sparc", "-" + arch]))
    return c


def all_shipped(tier):
    for libc, archs in (("glibc", GL + ["x86_64_v2"]), ("musl", MU), ("android", ["x86_64", "aarch64"])):
        for a in archs:
            for mu in ([None, "musllinux_1_1", "musllinux_1_2"] if libc == "musl" else [None]):
                for lv in (range(21, 41) if libc == "android" else [None]):
                    c = {"libc": libc, "arch": a, "names": ["manylinux_2_5", "manylinux1", "linux", "musllinux_1_2", ""], "sfx": "_" + a}
                    if mu: c["musl"] = mu
                    if lv: c["tag"] = f"android_{lv}_{a.replace('aarch64', 'arm64_v8a')}"
                    yield c


def check_shipped(c, ctx):
    from auditwheel.policy import get_replace_platforms
    libc, arch = c["libc"], c["arch"]
    base = re.sub(r"_v\d$", "", arch)
    musl = c.get("musl")
    raw = {p["name"]: p for p in model.raw_policies(libc)}
    try:
        W = load(libc, arch, c.get("tag"), musl)
    except Exception as e:  # noqa: BLE001
        if arch != base and not any(arch in p["symbol_versions"] for p in raw.values()):
            raise Violation(f"no policies for {arch}: {e!r}") from None
        if musl and base not in raw[musl]["symbol_versions"]:
            ctx.label("no such musl policy"); return
        raise Violation(f"policies of {libc} {arch} cannot be loaded: {e!r}") from None
    P = list(W)
    if arch != base:
        # extended architectures have no policies of their own: only the generic one
        ctx.label("extended")
    if not P or P[0].name != f"linux_{base}" or W.linux != P[0]: raise Violation(f"the first policy is {P[0].name}")
    if W.highest != P[-1] or len(P) > 1 and W.lowest != P[1]: raise Violation("lowest / highest")
    pr = [p.priority for p in P]
    if pr != sorted(set(pr)): raise Violation(f"priorities {pr}")
    if P[0].priority != 0 or P[0].whitelist or P[0].symbol_versions or P[0].blacklist: raise Violation("the linux policy restricts something")
    if not (P[0] < P[-1]) and len(P) > 1: raise Violation("order")
    names = [n for p in P for n in (p.name, *p.aliases)]
    if len(names) != len(set(names)): raise Violation(f"ambiguous names {sorted(names)}")
    # against the data file
    if libc == "glibc" and arch == base:
        want = {f"{n}_{base}": tuple(f"{a}_{base}" for a in p["aliases"]) for n, p in raw.items() if base in p["symbol_versions"] or n == "linux"}
        if {p.name: tuple(p.aliases) for p in P} != want: raise Violation(f"policies {sorted(p.name for p in P)}, expected {sorted(want)}")
    for p in P:
        if any(not n.endswith("_" + base) for n in (p.name, *p.aliases)) and libc != "android": raise Violation(f"architecture of {p.name}")
        for n in (p.name, *p.aliases):
            if W.get_policy_by_name(n) != p: raise Violation(f"{n} looks up to {W.get_policy_by_name(n).name}")
            if libc != "android":
                rep = get_replace_platforms(n)
                if rep != ([] if p is P[0] else [f"linux_{base}"]): raise Violation(f"{n} replaces {rep}")
    for n in [x + c["sfx"] for x in c["names"]]:
        own = [p for p in P if n == p.name or n in p.aliases]
        try: got = W.get_policy_by_name(n)
        except LookupError: got = None
        if (got is None) != (not own) or own and got != own[0]: raise Violation(f"{n!r} looks up to {got and got.name}")
    # monotone
    for lo, hi in zip(P[1:], P[2:]):
        if not hi.whitelist <= lo.whitelist: raise Violation(f"{lo.name} lacks {hi.whitelist - lo.whitelist} of {hi.name}")
        for k, v in hi.symbol_versions.items():
            if not v <= lo.symbol_versions.get(k, frozenset()): raise Violation(f"{lo.name} lacks {k} {v - lo.symbol_versions.get(k, frozenset())} of {hi.name}")
    for k in {k for p in P[1:] for k in p.symbol_versions}:
        known = {num(v) for p in P[1:] for v in p.symbol_versions.get(k, ()) if num(v)}
        for p in P[1:]:
            have = {num(v) for v in p.symbol_versions.get(k, ()) if num(v)}
            if have and have != {v for v in known if v <= max(have)}: raise Violation(f"{p.name} allows {k} up to {max(have)} but not {sorted({v for v in known if v <= max(have)} - have)}")
            if libc == "glibc" and base == "x86_64" and have:
                host = host_versions().get(k)
                if host:
                    m = min(max(have), max(host))
                    if {v for v in have if v <= m} != {v for v in host if v <= m}: raise Violation(f"{p.name}: {k} versions {sorted(have)}, those that exist: {sorted(host)}")
    # against the PEPs
    if libc == "glibc" and arch == base:
        for p in P[1:]:
            m = re.match(r"manylinux_(\d+)_(\d+)_", p.name)
            xy = int(m[1]), int(m[2])
            top = max(num(v) for v in p.symbol_versions["GLIBC"] if num(v))
            if top > xy and (base, xy) != ("aarch64", (2, 17)): raise Violation(f"{p.name} allows GLIBC_{top}")
            for a in p.aliases:
                if PEP.get(a[:-len(base) - 1]) != xy: raise Violation(f"{a} is an alias of {p.name}")
            if xy >= (2, 12) and not PEPLIBS <= p.whitelist: raise Violation(f"{p.name} does not allow {PEPLIBS - p.whitelist}")
            for k, v in LIMIT.get(p.name[:-len(base) - 1], {}).items():
                top = max(num(x) for x in p.symbol_versions[k] if num(x))
                if base in ("x86_64", "i686") and (top > num(v) or top != num(v) and k != "GCC"): raise Violation(f"{p.name}: {k} up to {top}, PEP: {v}")
        for a, xy in PEP.items():
            if base in ("x86_64", "i686") and not any(f"{a}_{base}" in p.aliases for p in P): raise Violation(f"{a} is gone")
    if libc == "musl":
        n = musl or max(x for x in raw if x != "linux" and base in raw[x]["symbol_versions"])
        if [p.name for p in P] != [f"linux_{base}", f"{n}_{base}"]: raise Violation(f"policies {[p.name for p in P]}")
        if MUSL_LIBC.get(base, f"libc.musl-{base}.so.1") not in P[1].whitelist: raise Violation(f"{P[1].name} does not allow the libc of {base}")
        for w in P[1].whitelist:
            if w.startswith("libc.") and w != MUSL_LIBC.get(base, f"libc.musl-{base}.so.1"): raise Violation(f"{w} is no libc of musl on {base}")
            if w == "libc.so": raise Violation("libc.so has no architecture")
    ctx.label("libc:" + libc, "arch:" + base)
    ctx.nontrivial(len(P) > 1)


# ---------------------------------------------------------------- sets of versions
@st.composite
def versions(draw):
    libc = draw(st.sampled_from(["glibc"] * 5 + ["musl", "android"]))
    arch = draw(st.sampled_from({"glibc": GL, "musl": MU, "android": ["x86_64", "aarch64"]}[libc]))
    pols = model.policies(libc, arch, ("android_35_x", 35))
    vs = sorted({v for p in pols for x in p.syms.values() for v in x}) + list(worlds.versions(libc, arch))
    sets = []
    hi = draw(st.integers(1, len(vs)))
    for _ in range(draw(st.integers(1, 3))):
        s = {}
        for _ in range(draw(st.integers(0, 5))):
            l = draw(st.sampled_from(["libc.so.6", "libm.so.6", "libstdc++.so.6", "libx.so.1", "libgcc_s.so.1"]))
            s.setdefault(l, [])
            v = vs[draw(st.integers(0, hi - 1))]
            if v not in s[l]: s[l].append(v)
        sets.append(s)
    return {"libc": libc, "arch": arch, "sets": sets}


def check_versions(c, ctx):
    W = load(c["libc"], c["arch"], f"android_35_{c['arch'].replace('aarch64', 'arm64_v8a')}" if c["libc"] == "android" else None)
    P = list(W)
    idx = {p.name: i for i, p in enumerate(P)}

    def ask(d):
        return idx[W.versioned_symbols_policy({l: set(v) for l, v in d.items()}).name]

    def truth(d):
        need = {}
        for vs in d.values():
            for v in vs: need.setdefault(v.partition("_")[0], set()).add(v.partition("_")[2])
        for i in range(len(P) - 1, -1, -1):
            if all(x <= P[i].symbol_versions[k] for k, x in need.items() if k in P[i].symbol_versions): return i
        return 0
    single = []
    for s in c["sets"]:
        g, t = ask(s), truth(s)
        if g != t: raise Violation(f"policy of {s}: {P[g].name}, expected {P[t].name}")
        single.append(g)
    union = {}
    for s in c["sets"]:
        for l, v in s.items(): union.setdefault(l, []).extend(v)
    u = ask(union)
    if u > min(single): raise Violation(f"more symbol versions raise the policy: {union} -> {P[u].name}, parts {[P[i].name for i in single]}")
    if u != truth(union): raise Violation(f"policy of {union}: {P[u].name}")
    moved = {"libother.so": [v for vs in union.values() for v in vs]}
    if ask(moved) != u: raise Violation("the policy depends on the library that has the version")
    ctx.label(f"policy:{u}", "libc:" + c["libc"])
    ctx.nontrivial(0 < u < len(P) - 1 or len(set(single)) > 1)


# ---------------------------------------------------------------- validation
@st.composite
def policy_set(draw, real=False):
    """policies, mostly monotone by construction, then possibly spoilt in one place"""
    n = draw(st.integers(1, 5))
    libs, syms = set(draw(st.sets(st.sampled_from("abcdef"), max_size=2))), {}
    out = []
    prio = draw(st.lists(st.integers(1, 120), min_size=n, max_size=n, unique=True))
    for i, q in enumerate(sorted(prio, reverse=True)):      # from the most compatible one
        libs |= set(draw(st.sets(st.sampled_from("abcdef"), max_size=2)))
        for a in ("x86_64", "i686", "aarch64"):
            if a in syms or draw(st.booleans()):
                e = syms.setdefault(a, {})
                for k in ("GLIBC", "GCC", "CXXABI"):
                    if k in e or draw(st.booleans()): e.setdefault(k, set()).update(draw(st.sets(st.sampled_from(["1", "2.0", "2.1", "2.10", "3"]), max_size=2)))
        out.append({"name": f"manylinux_9_{i}", "aliases": [], "priority": q, "symbol_versions": copy.deepcopy(syms), "lib_whitelist": sorted(libs), "blacklist": {}})
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 2, 3]))):
        p = out[draw(st.integers(0, n - 1))]
        k = draw(st.integers(0, 4))
        if k == 0 and p["lib_whitelist"]: p["lib_whitelist"].remove(draw(st.sampled_from(p["lib_whitelist"])))
        elif k == 1:
            xs = [(a, f, v) for a, e in sorted(p["symbol_versions"].items()) for f, vs in sorted(e.items()) for v in sorted(vs)]
            if xs:
                a, f, v = draw(st.sampled_from(xs))
                p["symbol_versions"][a][f].discard(v)
        elif k == 3:       # a prefix, or an architecture, that one policy in between does not mention
            xs = [(a, f) for a, e in sorted(p["symbol_versions"].items()) for f in sorted(e)]
            if xs:
                a, f = draw(st.sampled_from(xs))
                del p["symbol_versions"][a][f]
        elif k == 4 and len(p["symbol_versions"]) > 1: del p["symbol_versions"][draw(st.sampled_from(sorted(p["symbol_versions"])))]
        else:
            q = out[draw(st.integers(0, n - 1))]
            p["priority"], q["priority"] = q["priority"], p["priority"]
    for p in out: p["symbol_versions"] = {a: {k: sorted(v) for k, v in e.items()} for a, e in p["symbol_versions"].items()}
    linux = {"name": "linux", "aliases": [], "priority": 0, "symbol_versions": {}, "lib_whitelist": [], "blacklist": {}}
    return {"policies": list(draw(st.permutations([*out, linux])))}


def valid(pols):
    ps = sorted((p for p in pols if p["name"] != "linux"), key=lambda p: -p["priority"])
    for i, hi in enumerate(ps):
        for lo in ps[i + 1:]:
            if not set(hi["lib_whitelist"]) <= set(lo["lib_whitelist"]): return False
            for a, e in hi["symbol_versions"].items():
                if a not in lo["symbol_versions"]: continue
                for k, v in e.items():
                    # a prefix that the less compatible policy does not mention is not looked at
                    if k in lo["symbol_versions"][a] and not set(v) <= set(lo["symbol_versions"][a][k]): return False
    return True


def check_validate(c, ctx):
    from auditwheel.policy import _validate_pep600_compliance as V
    ok = valid(c["policies"])
    data = copy.deepcopy(c["policies"])
    try:
        V(data)
        got = True
    except ValueError: got = False
    if got != ok: raise Violation(f"a policy set that is {'valid' if ok else 'not monotone'} is {'accepted' if got else 'rejected'}: {json.dumps(c['policies'])}")
    if data != c["policies"]: raise Violation("validation changes the policies")
    ctx.label("valid" if ok else "invalid")
    ctx.nontrivial(len(c["policies"]) > 2)


PROG = """
import sys
from auditwheel.architecture import Architecture
from auditwheel.libc import Libc
from auditwheel.policy import WheelPolicies
try:
    w = WheelPolicies(libc=Libc.GLIBC, arch=Architecture(sys.argv[1]))
except ValueError as e:
    print('REJECTED', e); sys.exit(0)
print('LOADED', *[p.name for p in w])
"""


def check_load(c, ctx):
    """the same through a copy of the package with another data file"""
    arch = "x86_64"
    pols = c["policies"]
    if not any(arch in p["symbol_versions"] for p in pols): raise Skip
    pk = os.path.join(ctx.dir, "auditwheel")
    shutil.copytree(os.environ.get("VF_REPO", "/repo") + "/src/auditwheel", pk, ignore=shutil.ignore_patterns("__pycache__"))
    with open(pk + "/policy/manylinux-policy.json", "w") as f: json.dump(pols, f)
    r = subprocess.run([sys.executable, "-c", PROG, arch], cwd=ctx.dir, env={**os.environ, "PYTHONPATH": ctx.dir}, capture_output=True, text=True, timeout=120)
    ok = valid(pols)
    want = "LOADED " + " ".join(f"{p['name']}_{arch}" for p in sorted(pols, key=lambda p: p["priority"]) if arch in p["symbol_versions"] or p["name"] == "linux")
    if not (r.stdout.strip() == want if ok else r.stdout.startswith("REJECTED")): raise Violation(f"policy set {'valid' if ok else 'not monotone'}: {r.stdout}{r.stderr[-800:]}; expected {want}")
    ctx.label("valid" if ok else "invalid")
    ctx.nontrivial()


PROP = Prop("C25", [Leg("shipped", None, check_shipped, 1, 1, enum=lambda t: list(all_shipped(t))), Leg("lookup", lambda t: shipped(), check_shipped, 400, 8000), Leg("versions", lambda t: versions(), check_versions, 2400, 60000),
                    Leg("validate", lambda t: policy_set(), check_validate, 6000, 150000), Leg("load", lambda t: policy_set(), check_load, 96, 1500)],
            rule="all libcs, architectures, musl policies and Android levels with odd names to look up; sets of symbol versions; generated policy sets, monotone or spoilt in one or two places; non-trivial: more than the linux policy, a policy strictly between the ends, at least two policies",
            technique="property-based testing (Hypothesis): invariants of the loaded policies against the data files, the PEPs and the versions that the host's libraries define; validation against a pairwise reference check; metamorphic unions of version sets",
            level_note="The loaded policies of every libc and architecture are enumerated; names, version sets and policy sets are random. Trusts: the versions defined by the host's glibc, libstdc++, libgcc and zlib as the ones that exist on x86_64.")
