"""C20: --strip removes symbols and debug information, and nothing else."""
import os

from hypothesis import strategies as st

from props import c09
from vlib import outputs, repairs, worlds
from vlib.elfread import Elf
from vlib.harness import Leg, Prop, Skip, Violation
from vlib.wheelgen import Mat, Whl, tree_state


def specs(case):
    for mm in case["members"]:
        if "elf" in mm: yield mm["elf"]
    for fs in case["dirs"].values():
        for n in fs.values():
            if "elf" in n: yield n["elf"]


@st.composite
def world(draw, run):
    kw = dict(run=True, scripts=0, nodot=0) if run else dict(libcs=("glibc", "glibc", "glibc", "musl"), arches=["x86_64", "x86_64", "i686"], scripts=30, dup=30, copies=10, pylib=15, noupdate=10)
    case = draw(repairs.repair_world(missing=1, **kw))
    g = worlds.G(draw)
    for s in specs(case):
        if g.p(35): s["debug"] = g.one([1, 3, 200])
    case["opts"]["strip"] = True
    return case


def kept(e):
    return [n for n in e.sections() if n in (".symtab", ".strtab") or n.startswith(".debug")]


def check(case, ctx):
    m = Mat(case, ctx.dir)
    x = repairs.expected(case, m)
    before = tree_state(m.X, m.wheel)
    r = repairs.repair(m, x.opts)
    if x.refuse:
        if r.rc == 0 and x.refuse != "other": raise Violation(f"repair must refuse this wheel ({x.refuse}): {r!r}")
        ctx.label("refused:" + x.refuse)
        return
    if r.rc != 0 or repairs.outputs(m) != [x.name]: raise Violation(f"repair fails, expected {x.name}: {repairs.outputs(m)} {r!r}")
    if tree_state(m.X, m.wheel) != before: raise Violation("the original libraries or the input changed")
    if x.ambiguous: raise Skip
    plain = os.path.join(ctx.dir, "plain")
    r2 = repairs.repair(m, {**x.opts, "strip": False}, out=plain)
    if r2.rc != 0 or os.listdir(plain) != [x.name]: raise Violation(f"repair works only with --strip: {r2!r}")
    a, b = Whl(os.path.join(plain, x.name)), Whl(os.path.join(m.out, x.name))
    if a.names != b.names: raise Violation(f"--strip changes the members from {a.names} to {b.names}")
    src = Whl(m.wheel)
    back = {np: p for p, np in x.moved.items()}
    orig = {np: src.data[p] for p, np in ((p, x.moved.get(p, p)) for p in x.A.trees)}
    for np, (r_, _, _) in x.grafted.items(): orig[np] = x.rd(r_)
    had = False
    for n in a.files:
        if a.mode[n] != b.mode[n]: raise Violation(f"{n}: --strip changes the permissions from {a.mode[n]:o} to {b.mode[n]:o}")
        if n in orig:
            o, p, s = Elf(orig[n]), Elf(a.data[n]), Elf(b.data[n])
            if kept(s): raise Violation(f"{n} still has {kept(s)} with --strip")
            if kept(p) != kept(o): raise Violation(f"{n} had {kept(o)} and has {kept(p)} without --strip")
            for q in kept(o):
                if q.startswith(".debug") and o.section_bytes(q) != p.section_bytes(q): raise Violation(f"{n}: {q} changed without --strip")
            if (s.needed, s.soname, s.rpath, s.runpath) != (p.needed, p.soname, p.rpath, p.runpath): raise Violation(f"{n}: needs {p.needed}, soname {p.soname}, paths {p.rpath}/{p.runpath}; with --strip {s.needed}, {s.soname}, {s.rpath}/{s.runpath}")
            outputs.same_elf(p, s, {}, n, strip=True)
            if kept(o): had = True; ctx.label("graft stripped" if n in x.grafted else "moved script stripped" if n in back else "wheel's file stripped")
        elif n == b.di + "/RECORD": continue
        elif a.data[n] != b.data[n]: raise Violation(f"--strip changes {n}: {a.data[n][:80]!r} -> {b.data[n][:80]!r}")
    outputs.record(b)
    ctx.nontrivial(had)


def check_run(case, ctx):
    c09.check_run(case, ctx)


PROP = Prop("C20", [Leg("strip", lambda t: world(False), check, 400, 9000), Leg("load", lambda t: world(True), check_run, 320, 8000)],
            rule="a wheel with symbols and debug information in its own files, its scripts and the external libraries is repaired with and without --strip, and (native worlds) loaded with the libraries gone; non-trivial: a file had symbols to strip, or a graft was reached",
            technique="property-based testing (Hypothesis): differential of repair with and without --strip, execution of the stripped libraries",
            level_note="x86 only, because the installed strip knows no other machine; sections are read with an independent ELF reader.")
