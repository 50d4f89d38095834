"""C16: grafted libraries are identified by content."""
import os

from vlib import outputs, repairs
from vlib.harness import Leg, Prop, Skip, Violation
from vlib.wheelgen import Mat, Whl, tree_state


def check(case, ctx):
    m = Mat(case, ctx.dir)
    x = repairs.expected(case, m)
    before = tree_state(m.X)
    r = repairs.repair(m, x.opts)
    if tree_state(m.X) != before: raise Violation("the original libraries changed")
    if x.refuse:
        if r.rc == 0 and x.refuse != "other": raise Violation(f"repair must refuse this wheel ({x.refuse}): {r!r}")
        ctx.label("refused:" + x.refuse)
        return
    if r.rc != 0 or repairs.outputs(m) != [x.name]: raise Violation(f"repair fails, expected {x.name}: {repairs.outputs(m)} {r!r}")
    if x.ambiguous: raise Skip
    w = Whl(os.path.join(m.out, x.name))
    outputs.grafts(case, m, x, w)
    ctx.nontrivial(bool(x.grafts))
    ctx.label(f"grafts:{min(len(x.grafts), 4)}")
    if any(len(v) > 1 for v in x.by_new.values()): ctx.label("one content, several files")
    if any(n == os.path.basename(q) for q, n in x.grafts.items()): ctx.label("hash kept")
    b = {}
    for q in x.grafts: b.setdefault(os.path.basename(q), set()).add(x.grafts[q])
    if any(len(v) > 1 for v in b.values()): ctx.label("same name, other content")
    for p, mp in x.bind.items():
        if len([s for s, q in mp.items() if q]) != len({q for q in mp.values() if q}): ctx.label("one file under several names")


PROP = Prop("C16", [Leg("repair", lambda t: repairs.repair_world(dup=60, missing=1, scripts=10, rp=60, copies=20), check, 720, 16000)],
            rule="a wheel needing external libraries (links, several names for one file, equal names in different directories, copies, read-only files, names with any dots) is repaired; non-trivial: a library was grafted",
            technique="property-based testing (Hypothesis): the library directory of the repaired wheel against a reference model",
            level_note="Random search; names are recomputed from the SHA-256 of the original files, sonames and references are read with an independent ELF reader.")
