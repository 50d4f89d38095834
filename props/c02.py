"""C02: external libraries are accounted for completely, per policy."""
from hypothesis import strategies as st

from vlib import worlds
from vlib.audit import api_refs, modelled, rejected, show
from vlib.harness import Leg, Prop, Violation
from vlib.wheelgen import Mat


def check(case, ctx):
    m = Mat(case, ctx.dir)
    excl = [e.replace("/X", m.X) for e in case.get("exclude", [])]
    A, rej = modelled(case, m, exclude=excl)
    r = api_refs(m, exclude=excl, isa=False)
    if rej is not None:
        if r.exc is None: raise Violation(f"the audit must reject this wheel ({rej.kind})")
        return
    if r.exc: raise Violation(f"the audit fails: {r!r}")
    refs = r.value["refs"]
    nt = False
    for q in A.pols:
        want = {s: m.real(p) for s, p in A.ext[q.name].items()}
        got = refs.get(q.name, {}).get("libs")
        if got != want: raise Violation(f"external libraries for {q.name}: {got}, expected {want}")
        wb = {l: sorted(s) for l, s in A.black[q.name].items()}
        gb = refs[q.name]["black"]
        if gb != wb: raise Violation(f"blacklisted symbols for {q.name}: {gb}, expected {wb}")
        nt |= len(want) > 1 or bool(wb)
    # per file: what repair would have to take in
    want_full = {p: {q.name: {s: m.real(x) for s, x in A.refs[p][q.name].items()} for q in A.pols} for p in A.trees}
    if r.value["full"] != want_full:
        for p in set(want_full) | set(r.value["full"]):
            a, b = r.value["full"].get(p), want_full.get(p)
            if a != b: raise Violation(f"external libraries of {p}: {a}, expected {b}")
    if not excl:
        s, j = show(m)
        if rejected(s, j) or j is None: raise Violation(f"show fails: {s!r}")
        top = A.pols[-1]
        want = {k: m.real(v) for k, v in A.ext[top.name].items()}
        if j["external_libs"] != want: raise Violation(f"external_libs {j['external_libs']}, expected {want}")
        vs = j["versioned_symbols"]
        poss = [{l: sorted(v) for l, v in n.items() if v} for n in A.sym_needs]
        if {l: sorted(v) for l, v in vs.items()} not in poss: raise Violation(f"versioned symbols {vs}, expected {poss}")
        up = {}
        for q in A.pols[A.i_show + 1:]:
            e = {}
            if A.ext[q.name]: e["libs_to_eliminate"] = sorted(A.ext[q.name])
            if A.black[q.name]: e["blacklisted_symbols"] = {l: sorted(x) for l, x in sorted(A.black[q.name].items())}
            if e: up[q.name] = e
        if j["policy_upgrades"] != up: raise Violation(f"policy_upgrades {j['policy_upgrades']}, expected {up}")
    ctx.label(f"external:{len(A.ext[A.pols[-1].name])}", "libc:" + A.libc)
    if len({len(A.ext[q.name]) for q in A.pols[1:]}) > 1: ctx.label("differs between policies")
    if None in A.ext[A.pols[-1].name].values(): ctx.label("unlocated")
    ctx.nontrivial(nt)


@st.composite
def world(draw):
    c = draw(worlds.audit_world(reqs=1, foreign=False))
    if draw(st.integers(0, 3)) == 3: c["exclude"] = draw(st.lists(st.sampled_from(["libe0*", "libe1.so", "*libe2*", "/X/d0/*", "libw0.so", "libexpat.so.1", "nothing", "*/libe3*", "libz.so.?"]), min_size=1, max_size=2))
    return c


PROP = Prop("C02", [Leg("worlds", lambda t: world(), check, 1600, 40000), Leg("dense", lambda t: worlds.dense_world(), check, 1200, 30000),
                    Leg("borrowed", lambda t: worlds.borrow_world(), check, 800, 20000)],
            rule="a generated wheel with up to 4 private, 2 policy-dependent and some whitelisted external libraries in up to 3 directories (links, duplicates, other machines' files, missing ones), all needing each other arbitrarily; non-trivial: two or more external libraries or a blacklisted symbol for some policy",
            technique="property-based testing (Hypothesis) of the audit of generated dependency graphs against a reference model",
            level_note="Random search; per-policy and per-file external libraries and blacklisted symbols are compared with a reference model working on the case description. Trusts: the policy data files, the ELF writer.",
            assumptions=["a name is looked up once per audited file, at its first appearance in a depth-first walk"])
