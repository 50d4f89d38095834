"""C01: the reported platform tag is exactly the strongest one the wheel satisfies."""
from hypothesis import strategies as st

from vlib import model, worlds
from vlib.audit import modelled, rejected, show
from vlib.harness import Leg, Prop, Violation
from vlib.wheelgen import Mat


def expect(case, ctx, m, *args, **kw):
    A, rej = modelled(case, m, **kw)
    r, j = show(m, *args)
    if rej is not None:
        ctx.label("rejected:" + rej.kind)
        if not rejected(r, j): raise Violation(f"the wheel must be rejected ({rej.kind}) but show says {j}")
        return None, r, None
    if r.rc != 0 or j is None: raise Violation(f"expected tag {A.show_tag}, but show fails: {r!r}")
    return A, r, j


def check(case, ctx):
    m = Mat(case, ctx.dir)
    isa = not case.get("noisa")
    A, r, j = expect(case, ctx, m, *([] if isa else ["--disable-isa-ext-check"]), isa_check=isa)
    if A is None: return
    P = A.pols
    want = {"overall_tag": A.show_tag, "sym_tag": P[A.i_sym].name, "pyfpe": A.i_fpe == 0, "ucs2": A.i_ucs == 0, "unsupported_isa": A.i_machine == 0, "pure": False}
    got = {k: j.get(k) for k in want}
    if got != want: raise Violation(f"verdict {got}, expected {want}\nowned versions {A.own}\nexternal {A.ext}\nblacklisted {A.black}")
    limits = {n: i for n, i in (("sym", A.i_sym), ("ucs", A.i_ucs), ("fpe", A.i_fpe), ("black", A.i_black), ("isa", A.i_machine), ("ref", A.i_ref)) if i < len(P) - 1}
    ctx.label("tag:" + A.show_tag.rsplit("_" + A.arch, 1)[0], "libc:" + A.libc, "arch:" + A.arch, *(f"limit:{n}" for n in limits))
    ctx.nontrivial(bool(limits))


@st.composite
def world(draw):
    c = draw(worlds.audit_world(foreign=draw(st.booleans())))
    if draw(st.integers(0, 9)) == 9: c["noisa"] = True
    return c


@st.composite
def single(draw):
    """one extension module with one requirement: every version, library and symbol any policy mentions"""
    libc = draw(st.sampled_from(["glibc", "glibc", "glibc", "musl", "android"]))
    arch = draw(st.sampled_from({"glibc": worlds.ARCHES, "musl": [a for a in worlds.ARCHES if a != "ppc64"], "android": ["x86_64", "aarch64"]}[libc]))
    level = draw(st.sampled_from([21, 24, 26, 27, 35]))
    tag = {"glibc": f"manylinux2014_{arch}", "musl": f"musllinux_1_1_{arch}", "android": f"android_{level}_{arch.replace('aarch64', 'arm64_v8a')}"}[libc]
    pols = model.policies(libc, arch, (tag, level))
    vs = sorted({v for p in pols for x in p.syms.values() for v in x})
    ws = sorted({w for p in pols for w in p.white})
    spec = {"machine": arch, "needed": ["libc.so.6"] if libc == "glibc" else [], "defs": [{"n": "PyInit__m", "ret": 1}]}
    ext = {}
    k = draw(st.integers(0, 9))
    n = draw(st.integers(1, 3))
    if k < 5 and vs:
        def ver(vs):
            v = draw(st.sampled_from(vs))
            pre, _, num = v.partition("_")
            t = draw(st.integers(0, 9))
            if t == 8: v = v + ".1"
            if t == 9: v = f"{pre}_{draw(st.integers(0, 99))}.{draw(st.integers(0, 99))}"
            return v
        spec["verneed"] = {}
        for _ in range(n):
            l = draw(st.sampled_from(["libc.so.6", "libm.so.6", "libstdc++.so.6", "libgcc_s.so.1", "libz.so.1", "libatomic.so.1", "libx.so"]))
            v = ver(vs)
            if v not in spec["verneed"].setdefault(l, []): spec["verneed"][l].append(v)
    elif k < 8 and ws:
        for _ in range(n):
            w = draw(st.sampled_from(ws))
            if draw(st.integers(0, 9)) == 9: w += ".0"
            if w not in spec["needed"]: spec["needed"].append(w)
            if draw(st.booleans()): ext[w] = {"elf": {"machine": arch, "soname": w}}
    else:
        bl = {}
        for p in pols:
            for l, s in p.black.items(): bl.setdefault(l, set()).update(s)
        if bl:
            spec["undef"] = []
            for _ in range(n):
                l = draw(st.sampled_from(sorted(bl)))
                spec["undef"].append({"n": draw(st.sampled_from(sorted(bl[l]))), "b": draw(st.sampled_from("GGGW"))})
                if l not in spec["needed"] and draw(st.integers(0, 4)): spec["needed"].append(l)
    return {"plats": [tag], "members": [{"p": "_m.so", "elf": spec}], "dirs": {"d0": ext}, "ld_paths": ["/X/d0"]}


PROP = Prop("C01", [Leg("worlds", lambda t: world(), check, 1800, 40000), Leg("single", lambda t: single(), check, 1000, 20000), Leg("dense", lambda t: worlds.dense_world(), check, 2000, 40000)],
            rule="a generated wheel (extensions, libraries, executables, foreign files, external libraries in several directories, symbol versions, blacklisted symbols, ISA notes; or one extension with one to three requirements out of everything the policies mention); non-trivial: at least one requirement keeps the wheel from the most compatible policy",
            technique="property-based testing (Hypothesis) of `auditwheel show --json` against an independent reference model of the audit",
            level_note="Random search over generated wheels of all supported libcs and architectures; the verdict of the real command is compared with a reference model that never reads the generated files. Trusts: the policy data files as the definition of the policies, the ELF writer (checked with patchelf, readelf, strip and the loader).",
            assumptions=["ELF files have section headers", "every ELF file of the wheel is listed in RECORD"])
