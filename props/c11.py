"""C11: RECORD of every written wheel is exact."""
from vlib import outputs, repairs
from vlib.harness import Leg, Prop


def check(case, ctx):
    res = repairs.run_and_expect(case, ctx)
    if res is None: return
    m, x, r, w = res
    outputs.record(w)
    ctx.nontrivial(bool(x.grafts) or len(w.files) > 6)
    if any(c in n for n in w.files for c in ',"'): ctx.label("quoted name")
    if any(ord(c) > 127 for n in w.files for c in n): ctx.label("non-ASCII name")


PROP = Prop("C11", [Leg("repair", lambda t: repairs.repair_world(extras=True, optstrip=15, missing=1, noupdate=10), check, 720, 16000)],
            rule="a wheel is repaired and RECORD compared with the archive; non-trivial: libraries were grafted or the output has more than six files",
            technique="property-based testing (Hypothesis): RECORD of the repaired wheel recomputed from its archive",
            level_note="Random search; hashes and sizes are recomputed from the archive with hashlib and csv.")
