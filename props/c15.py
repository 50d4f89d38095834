"""C15: RPATHs in a repaired wheel stay inside the wheel."""
from vlib import outputs, repairs
from vlib.harness import Leg, Prop


def check(case, ctx):
    res = repairs.run_and_expect(case, ctx)
    if res is None: return
    m, x, r, w = res
    outputs.rpaths(case, m, x, w)
    ctx.nontrivial(any(len(v[2]) > 0 for v in x.rewired.values()) or any(v[2] for v in x.grafted.values()))
    if any(len(v[2]) > 0 for v in x.rewired.values()): ctx.label("entries kept")


PROP = Prop("C15", [Leg("repair", lambda t: repairs.repair_world(rp=85, missing=1, scripts=15, pylib=8, libcs=("glibc", "glibc", "glibc", "musl", "android")), check, 720, 16000)],
            rule="a wheel whose files have generated RPATH/RUNPATH strings is repaired; non-trivial: an entry had to be kept or grafted libraries need each other",
            technique="property-based testing (Hypothesis): search paths of the repaired files against a reference model",
            level_note="Random search; the search paths are read with an independent ELF reader and compared with the reference model.")
