"""C05: the machine-readable report obeys its schema and agrees with the text report."""
import json
import os
import re

import jsonschema
from hypothesis import strategies as st

from vlib import worlds
from vlib.audit import show
from vlib.harness import Leg, Prop, Violation
from vlib.wheelgen import Mat

_S = {}


def schema():
    if not _S:
        with open(os.environ.get("VF_REPO", "/repo") + "/src/auditwheel/show-schema.json") as f: _S["s"] = json.load(f)
        jsonschema.Draft202012Validator.check_schema(_S["s"])
        _S["v"] = jsonschema.Draft202012Validator(_S["s"])
    return _S["v"]


@st.composite
def world(draw):
    c = draw(worlds.audit_world(foreign=draw(st.booleans()), reqs=1))
    g = worlds.G(draw)
    if g.p(6): c["members"] = [m for m in c["members"] if "elf" not in m]
    if g.p(8): c["plats"] = ["any"]
    if g.p(30):
        # names that are awkward in JSON, in lists and in wrapped text
        odd = g.one(['lib"q".so', "lib\\b.so", "libé.so.1", "lib-with-a-very-very-long-name-that-does-not-fit-in-any-line-of-seventy-characters.so.1", "libA.so", "libz.so.10", "libz.so.9"])
        for m in c["members"]:
            if "elf" in m and not m["elf"].get("static") and g.p(60): m["elf"]["needed"] = m["elf"].get("needed", []) + [odd]
    c["allow"] = g.p(30)
    return c


def flat(s):
    return re.sub(r"\s+", " ", s)


def paragraphs(s):
    return [flat(p).strip() for p in s.split("\n\n") if p.strip()]


def check(case, ctx):
    m = Mat(case, ctx.dir)
    extra = ["--allow-pure-python-wheel"] if case["allow"] else []
    r, j = show(m, *extra)
    t, _ = show(m, *extra, verbose=1, as_json=False)
    s, _ = show(m, *extra, as_json=False)
    if (r.rc == 0) != (t.rc == 0) or (r.rc == 0) != (s.rc == 0): raise Violation(f"exit status differs: --json {r.rc}, text {s.rc}, verbose text {t.rc}")
    has_elf = any("elf" in x and not x["p"].endswith(".py") for x in case["members"])
    if r.exc:
        ctx.label("exception:" + r.exc)
        if r.out.strip(): raise Violation(f"output together with an exception: {r!r}")
        return
    if j is None: raise Violation(f"no JSON document: {r!r}")
    try:
        schema().validate(j)
    except jsonschema.ValidationError as e:
        raise Violation(f"not valid against the schema: {e.message}\n{j}") from None
    if j["wheel"] != m.wheel.rsplit("/", 1)[1]: raise Violation(f"wheel {j['wheel']}")
    pure_ok = case["allow"] and set(case["plats"]) == {"any"} and not has_elf
    kind = "pure" if j.get("pure") else "platform" if "overall_tag" in j else "error"
    ctx.label("kind:" + kind)
    if (r.rc == 0) != (kind != "error"): raise Violation(f"exit status {r.rc} with a document of kind {kind}")
    if kind == "pure" and not pure_ok: raise Violation("reported as pure")
    if kind == "error" and pure_ok: raise Violation("permitted pure wheel is an error")
    if kind == "error" and has_elf is False and r.rc != 1: raise Violation(f"exit status {r.rc}")
    if kind != "platform": return
    # ---- sorted, no duplicates
    for l, vs in j["versioned_symbols"].items():
        if vs != sorted(set(vs)): raise Violation(f"versions of {l} not sorted or not unique: {vs}")
    for k in ("versioned_symbols", "external_libs"):
        if list(j[k]) != sorted(j[k]): raise Violation(f"{k} not sorted: {list(j[k])}")
    for n, e in j["policy_upgrades"].items():
        l = e.get("libs_to_eliminate", [])
        if l != sorted(set(l)): raise Violation(f"libs_to_eliminate of {n} not sorted: {l}")
        b = e.get("blacklisted_symbols", {})
        if list(b) != sorted(b) or any(v != sorted(set(v)) for v in b.values()): raise Violation(f"blacklisted_symbols of {n} not sorted: {b}")
    # ---- the text says the same
    text = flat(t.out)
    for o in (t.out, s.out):
        mt = re.search(r'consistent with the following platform tag: "([^"]*)"', flat(o))
        if not mt or mt[1] != j["overall_tag"]: raise Violation(f"text report says {mt and mt[1]}, JSON {j['overall_tag']}")
    ps = paragraphs(t.out)
    if ("PyFPE_jbuf" in text) != j["pyfpe"]: raise Violation("pyfpe differs between text and JSON")
    if ("narrow unicode" in text) != j["ucs2"]: raise Violation("ucs2 differs between text and JSON")
    if ("unsupported ISA" in text) != j["unsupported_isa"]: raise Violation("unsupported_isa differs between text and JSON")
    vp = [p for p in ps if "external versioned symbols" in p]
    if not vp: raise Violation("no paragraph about versioned symbols in the verbose text report")
    got = {}
    for lib, vs in re.findall(r"(\S+) with versions [{\[]([^}\]]*)[}\]]", vp[0]): got[lib.lstrip(", ")] = sorted(x.strip().strip("'\"") for x in vs.split(",") if x.strip())
    if got != j["versioned_symbols"]: raise Violation(f"versioned symbols: text {got}, JSON {j['versioned_symbols']}\n{vp[0]}")
    mt = re.search(r'constrains the platform tag to "([^"]*)"', text)
    if mt and mt[1] != j["sym_tag"]: raise Violation(f"sym tag: text {mt[1]}, JSON {j['sym_tag']}")
    up = {}
    last = None
    for p in ps:
        mm = re.match(r"In order to achieve the tag platform tag '([^']*)' the following (shared library|black-listed symbol) dependencies will need to be eliminated:", p)
        if mm:
            last = (mm[1], mm[2])
            continue
        if last and last[1] == "shared library":
            up.setdefault(last[0], {})["libs_to_eliminate"] = p.split(", ")
            last = None
        elif last:
            k = re.match(r"From (.*?): (.*)$", p)
            if k: up.setdefault(last[0], {}).setdefault("blacklisted_symbols", {})[k[1]] = k[2].split(", ")
            else: last = None
    if up != j["policy_upgrades"]: raise Violation(f"what has to be eliminated: text {up}, JSON {j['policy_upgrades']}")
    i = t.out.find("{\n")
    libs = {}
    if "external shared libraries are required" in text:
        doc = t.out[i:]
        libs = json.JSONDecoder().raw_decode(doc)[0]
        if list(libs) != sorted(libs): raise Violation("libraries in the text report not sorted")
        if not libs: raise Violation("announces libraries and lists none")
    elif "requires no external shared libraries" not in text: raise Violation("the verbose text report does not say anything on external libraries")
    bad = {k: v for k, v in libs.items() if j["external_libs"].get(k, 0) != v}
    if bad: raise Violation(f"text lists {bad}, JSON {j['external_libs']}")
    # ---- consistency inside the document
    top = [n for n, e in j["policy_upgrades"].items() if sorted(e.get("libs_to_eliminate", [])) == sorted(j["external_libs"])]
    if j["external_libs"] and j["policy_upgrades"] == {}: raise Violation("external libraries but nothing to eliminate for any higher policy")
    if j["external_libs"] and not top: raise Violation(f"external_libs {list(j['external_libs'])} are nobody's libs_to_eliminate {j['policy_upgrades']}")
    ctx.nontrivial(bool(j["policy_upgrades"]) or bool(j["versioned_symbols"]))


PROP = Prop("C05", [Leg("worlds", lambda t: world(), check, 1100, 20000)],
            rule="a generated wheel (also pure ones, wheels without ELF files, awkward library names); non-trivial: versioned symbols or something to eliminate",
            technique="property-based differential testing (Hypothesis): JSON report against the published schema and against the text report",
            level_note="Random search; the text report is parsed and compared with the JSON document. The text report lists the libraries external to the least compatible policy, a subset of those of the JSON document. Trusts: the jsonschema package.")
