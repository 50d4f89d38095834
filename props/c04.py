"""C04: foreign-architecture, foreign-libc and purelib binaries never pass silently."""
import os

from hypothesis import strategies as st

from vlib import harness, worlds
from vlib.audit import modelled, show
from vlib.harness import Leg, Prop, Violation
from vlib.wheelgen import Mat


@st.composite
def world(draw):
    g = worlds.G(draw)
    c = draw(worlds.audit_world(foreign=True, reqs=1))
    elves = [m for m in c["members"] if "elf" in m]
    arch = elves[0]["elf"]["machine"]
    # more foreign files, possibly instead of the others
    if g.p(30):
        for m in elves:
            if g.p(70): m["elf"] = {"machine": g.one(worlds.FOREIGN + [a for a in worlds.ARCHES if a != arch]), "needed": m["elf"].get("needed", [])}
    for i in range(g.n(0, 2)):
        k = g.n(0, 3)
        s = {"machine": arch, "needed": []}
        if k == 0: s["machine"] = g.one(worlds.ARCHES)
        elif k == 1 and g.p(60): s["machine"] = g.one(worlds.FOREIGN)
        elif k == 1:    # one header field away from the wheel's architecture
            f = g.one(["flags", "flags", "cls", "le", "em", "osabi"])
            if f == "flags": s["flags"] = g.one([0, 0x400, 0x200, 0x600, 0x05000000, 0x05000200, 0x05000400, 0x05000600, 0x04000400, 0x05000402, 0x06000400, 0x85000400, 1, 2, 3, 0xFFFFFFFF])
            elif f == "cls": s["cls"] = g.one([32, 64])
            elif f == "le": s["le"] = g.one([True, False])
            elif f == "em": s["em"] = g.one([2, 3, 6, 8, 20, 21, 22, 40, 43, 62, 180, 181, 183, 243, 258])
            else: s["osabi"] = g.one([0, 1, 2, 3, 6, 9, 97, 255])
        elif k == 2: s["needed"] = [g.one(["libc.so.6", "libc.musl-x86_64.so.1", "ld-linux-x86-64.so.2", "ld-musl-x86_64.so.1", "ld64.so.2"])]
        else: s["defs"] = [{"n": f"PyInit_f{i}", "ret": 0}]
        if g.p(30): s["verneed"] = {"libc.so.6": ["GLIBC_2.99"]}
        name = g.one([f"f{i}.so", f"f{i}.cpython-312-x86_64-linux-gnu.so", f"f{i}.cpython-310-x86_64-linux-gnu.so", f"f{i}.cpython-312-aarch64-linux-musl.so", f"f{i}.cpython-310-arm-linux-musleabihf.so", f"f{i}.cpython-313t-arm-linux-gnueabihf.so"])
        c["members"].insert(g.n(0, len(c["members"])), {"p": "pkg/" + name, "elf": s})
    if g.p(12): c["plats"] = [g.one(["any", "linux_x86_64", "win32", f"linux_{arch}", "manylinux1_i686.linux_x86_64", f"musllinux_1_2_{arch}", f"manylinux_2_5_{arch}"])]
    c["plats"] = [t for p in c["plats"] for t in p.split(".")]
    if g.p(12):
        m = g.one([m for m in c["members"] if "elf" in m])
        m["p"] = g.one(["purelib/", f"{c['name']}-{c['ver']}.data/purelib/", "x/purelib/y/", "purelib/purelib/", "notpurelib/", "purelib.d/"]) + m["p"]
    if g.p(5): c["members"] = [m for m in c["members"] if "elf" not in m]
    return c


def names_in(text, names):
    return [n for n in names if n not in text]


def check(case, ctx):
    m = Mat(case, ctx.dir)
    A, rej = modelled(case, m)
    r, j = show(m)
    text = r.out + r.err
    if rej is None:
        if r.rc != 0 or j is None or j.get("overall_tag") != A.show_tag: raise Violation(f"audited for {A.libc}/{A.arch}: expected {A.show_tag}, got {j} {r!r}")
        warn = "\n".join(l for l in r.err.splitlines() if "WARN" in l)
        miss = names_in(warn, [b for b, _ in A.ignored])
        if miss: raise Violation(f"left out without a warning: {miss}\n{r.err}")
        ctx.label("libc:" + A.libc, "arch:" + A.arch, f"ignored:{min(len(A.ignored), 3)}")
        if A.ignored: ctx.nontrivial()
        ign = {b for b, _ in A.ignored}
        kept = {os.path.basename(p) for p in A.trees} - ign
        for l in r.err.splitlines():
            if "ignoring" in l:
                bad = [k for k in kept if f" {k} " in l + " "]
                if bad: raise Violation(f"{bad} belongs to the wheel's platform but: {l}")
        return
    ctx.label("rejected:" + rej.kind)
    if rej.kind == "purelib" and r.exc in ("InvalidLibcError", "IndexError", "AssertionError") and modelled(case, m, purelib_check=False)[1]: rej.kind = "libc"     # another reason comes first
    ctx.nontrivial()
    if r.rc == 0 or (j and "overall_tag" in j): raise Violation(f"must be rejected ({rej.kind} {rej.files}): {j}")
    if rej.kind in ("arch", "noelf", "purelib", "libc"):
        if rej.kind in ("arch", "noelf") and (r.rc != 1 or r.exc): raise Violation(f"expected a clean exit with status 1: {r!r}")
        miss = names_in(text, rej.files) if rej.kind != "libc" else []
        if miss: raise Violation(f"rejected without naming {miss}: {text[-2000:]}")
        if rej.kind == "arch" and j is not None and j.get("error") is not None and len(rej.files) and "architecture found" in j["error"]:
            miss = names_in(j["error"], rej.files)
            if miss: raise Violation(f"the error does not list {miss}: {j}")
    # repair rejects as well
    q = harness.cli(["repair", "-w", m.out, *m.ldargs(), m.wheel], cwd=m.cwd, env=m.env(), tmpdir=m.tmp)
    if q.rc == 0 or os.listdir(m.out): raise Violation(f"repair accepts a wheel that must be rejected ({rej.kind}): {q!r} {os.listdir(m.out)}")
    if rej.kind in ("arch", "noelf") and (q.rc != 1 or q.exc): raise Violation(f"expected a clean exit with status 1 of repair: {q!r}")
    miss = names_in(q.out + q.err, rej.files)
    if miss and rej.kind != "libc": raise Violation(f"repair rejects without naming {miss}")


PROP = Prop("C04", [Leg("worlds", lambda t: world(), check, 1500, 30000)],
            rule="a generated wheel with ELF files of supported, unsupported and odd architectures (float ABI, EABI, class, byte order), other libcs by dependency, interpreter or file name, ambiguous wheel names, purelib directories; non-trivial: a file is left out or the wheel is rejected",
            technique="property-based testing (Hypothesis) of `auditwheel show` and `repair` against a reference model",
            level_note="Random search; verdict, warnings, exit status and named files are compared with a reference model. Trusts: the ELF writer.")
