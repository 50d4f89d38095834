"""C22: the SBOM lists exactly the grafted system packages."""
import json
from collections import Counter
from urllib.parse import unquote

from hypothesis import strategies as st

from vlib import harness, outputs, pkgs, repairs, worlds
from vlib.harness import Leg, Prop, Skip, Violation
from vlib.wheelgen import Mat, Whl

SBOM = "/sboms/auditwheel.cdx.json"


@st.composite
def cases(draw):
    case = draw(repairs.repair_world(files=2, reqs=0, missing=0, scripts=10, pylib=8, dup=25, twin=40, noupdate=8, extras=False, rp=5, copies=8))
    g = worlds.G(draw)
    case["pkgs"] = pkgs.draw_pkgs(g, pkgs.lib_files(case))
    if g.p(20): case["members"].append({"p": f"{repairs.dist_name(case)}.dist-info/sboms/other.cdx.json", "data": "{}"})
    return case


def distro():
    with open("/etc/os-release") as f:
        for l in f:
            if l.startswith("ID="): return l[3:].strip().strip('"')


def purl(p):
    """(type, namespace, name, version, qualifiers) by the purl rules"""
    if not p.startswith("pkg:"): raise Violation(f"no package URL: {p!r}")
    rest = p[4:]
    rest, _, quals = rest.partition("?")
    if any(not (c.isascii() and c.isprintable() and c not in ' "<>\\^`{|}#[]') for c in rest + quals): raise Violation(f"unescaped characters in {p!r}")
    parts = rest.split("/")
    typ, name = parts[0], parts[-1]
    ns = "/".join(parts[1:-1])
    name, at, ver = name.partition("@")
    if any(not (c.isalnum() or c in "-._~%:") for c in name + ver): raise Violation(f"name or version of {p!r} is not percent-encoded")
    if "@" in ver: raise Violation(f"unescaped @ in {p!r}")
    q = {}
    for kv in filter(None, quals.split("&")):
        k, _, v = kv.partition("=")
        q[k] = unquote(v, errors="strict")
    return typ, unquote(ns), unquote(name, errors="strict"), unquote(ver, errors="strict"), q


def check(case, ctx):
    m = Mat(case, ctx.dir)
    x = repairs.expected(case, m)
    if x.refuse: raise Skip
    pk = case["pkgs"]
    path = pkgs.install(pk, m)
    r = repairs.repair(m, x.opts, env={"PATH": path})
    if r.rc != 0: raise Violation(f"repair fails: {r!r}\n{r.err[-1500:]}")
    if repairs.outputs(m) != [x.name]: raise Violation(f"output {repairs.outputs(m)}, expected {x.name}")
    import os
    w = Whl(os.path.join(m.out, x.name))
    outputs.record(w)
    want = {v: pkgs.provider(pk, v) for v in x.grafts}
    known = {v: p for v, p in want.items() if p}
    have = w.di + SBOM in w.data
    ctx.label("mgr:" + pk["mgr"], f"aptfile:{pk['aptfile']}", f"packages:{min(len(known), 4)}")
    if have != bool(known): raise Violation(f"SBOM {'present' if have else 'missing'}: grafted {sorted(x.grafts)}, provided by packages: {known}")
    extra = [n for n in w.files if n.startswith(w.di + "/sboms/") and n != w.di + SBOM and n not in {q["p"] for q in case["members"]}]
    if extra: raise Violation(f"unexpected {extra}")
    if not have: return
    try: j = json.loads(w.data[w.di + SBOM].decode("utf-8"))
    except ValueError as e: raise Violation(f"the SBOM is no JSON: {e}") from None
    if j.get("bomFormat") != "CycloneDX" or not isinstance(j.get("specVersion"), str) or not isinstance(j.get("version"), int): raise Violation(f"no CycloneDX document: {j}")
    comps = j["components"]
    for c in comps:
        if c.get("type") != "library" or not c.get("name") or not c.get("version"): raise Violation(f"component {c}")
    refs = [c["bom-ref"] for c in comps]
    if len(set(refs)) != len(refs): raise Violation(f"bom-refs are not unique: {refs}")
    main = j["metadata"]["component"]
    if comps.count(main) != 1: raise Violation("the wheel's component is not one of the components")
    name, ver = repairs.name_of(case), case["ver"]
    if (main["name"], main["version"]) != (name, ver): raise Violation(f"wheel component {main['name']} {main['version']}, wheel {name} {ver}")
    t = purl(main["purl"])
    if t != ("pypi", "", name, ver, {"file_name": x.name}): raise Violation(f"package URL of the wheel decodes to {t}, wheel {x.name}")
    got = Counter()
    for c in comps:
        if c is main or c == main: continue
        t = purl(c["purl"])
        if t[1] != distro() or t[4] or (t[2], t[3]) != (c["name"], c["version"]): raise Violation(f"package URL {c['purl']} of {c['name']} {c['version']}")
        if not c["bom-ref"]: raise Violation("empty bom-ref")
        got[t[0], c["name"], c["version"]] += 1
    exp = Counter(known.values())
    if len(set(x.grafts.values())) == len(x.grafts):
        if got != exp: raise Violation(f"components {sorted(got.elements())}, grafted packages {sorted(exp.elements())}")
    elif set(got) - set(exp) or any(got[p] > exp[p] for p in got): raise Violation(f"components {sorted(got.elements())}, grafted packages {sorted(exp.elements())}")
    deps = {}
    for d in j["dependencies"]:
        if d["ref"] in deps: raise Violation(f"two dependency entries for {d['ref']}")
        deps[d["ref"]] = d.get("dependsOn") or []
    if set(deps) != set(refs): raise Violation(f"dependency entries for {sorted(deps)}, components {sorted(refs)}")
    for a, bs in deps.items():
        if set(bs) - set(refs): raise Violation(f"{a} depends on unknown {sorted(set(bs) - set(refs))}")
        if len(set(bs)) != len(bs): raise Violation(f"{a}: duplicate dependencies")
    if set(deps[main["bom-ref"]]) != set(refs) - {main["bom-ref"]}: raise Violation("the wheel does not depend on every grafted library")
    ctx.nontrivial()
    if len(known) < len(x.grafts): ctx.label("some without package")


PROP = Prop("C22", [Leg("sbom", lambda t: cases(), check, 880, 16000)],
            rule="a generated wheel is repaired with stand-ins for dpkg, rpm, apk, apt and apt-file that know a random subset of the libraries under random package names and versions; non-trivial: a grafted library belongs to a package",
            technique="property-based testing (Hypothesis) against a table model of the package managers; package URLs decoded by an independent parser",
            level_note="The package managers are stand-ins that answer in the documented output formats of the real programs.",
            assumptions=["/etc/os-release names the distribution (it is not varied)"])
