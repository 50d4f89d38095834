"""C10: repair preserves everything it has no reason to change."""
from vlib import outputs, repairs
from vlib.harness import Leg, Prop, Skip


def check(case, ctx):
    res = repairs.run_and_expect(case, ctx)
    if res is None: return
    m, x, r, w = res
    outputs.payload(case, m, x, w)
    ctx.nontrivial(bool(x.rewired) or len(case["members"]) > 2)


PROP = Prop("C10", [Leg("repair", lambda t: repairs.repair_world(files=2, extras=True, missing=1), check, 720, 16000)],
            rule="a wheel with any kind of members is repaired; non-trivial: the repair succeeded and rewired a file, or the wheel has more than two members",
            technique="property-based testing (Hypothesis): member-by-member comparison of a generated wheel before and after repair",
            level_note="Random search. Members, permissions and bytes are compared with the input; rewired ELF files are compared symbol by symbol and section by section with an independent ELF reader.")
