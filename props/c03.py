"""C03: the verdict depends only on requirements, and more requirements never help."""
import copy
import json
import os
import shutil
import sys

from hypothesis import strategies as st

from vlib import harness, model, worlds
from vlib.audit import rejected, show
from vlib.harness import Leg, Prop, Skip, Violation
from vlib.wheelgen import Mat

KEYS = ["overall_tag", "sym_tag", "pyfpe", "ucs2", "unsupported_isa", "versioned_symbols", "external_libs", "policy_upgrades"]


@st.composite
def base_world(draw):
    c = draw(worlds.audit_world(named=True, unique=True, libc_always=True, pathology=False, foreign=False, reqs=1))
    libc = {"manylinux": "glibc", "musllinux": "musl", "android": "android"}
    if not any(t.startswith(tuple(libc)) for t in c["plats"]) and draw(st.booleans()):
        # name the libc
        arch = c["plats"][0].split("_", 1)[1]
        first = next(m["elf"]["needed"] for m in c["members"] if "elf" in m)
        c["plats"] = [("musllinux_1_1_" if any(n.startswith("libc.musl") for n in first) else "manylinux_2_17_") + arch] if "libc.so.6" in first or any(n.startswith("libc.musl") for n in first) else c["plats"]
    return c


def py_ext(m):
    return "elf" in m and any(d["n"].startswith(("PyInit", "init", "_cffi")) for d in m["elf"].get("defs", []))


def needed_names(c):
    return {n for m in c["members"] + [f for d in c["dirs"].values() for f in d.values()] if "elf" in m for n in m["elf"].get("needed", [])}


NEUTRAL = ["zip", "record", "data", "weak", "rename", "where", "mode", "dup_need"]


def neutral(c, op, k, m=None):
    c = copy.deepcopy(c)
    mem = c["members"]
    elves = [x for x in mem if "elf" in x]
    if op == "zip":
        c["zip"] = {"order": k + 1, "comp": [0, 8, 12, 14][k % 4], "dirs": bool(k & 4), "date": [1990 + k % 30, 1 + k % 12, 3, 4, 5, 6], "crlf": bool(k & 8)}
    elif op == "record":
        import random
        random.Random(k).shuffle(mem)
    elif op == "data":
        mem.insert(k % (len(mem) + 1), {"p": f"pkg/extra{k}" + [".py", ".txt", ".so", ".dat"][k % 4], "data": ["", "x = 1\n", "\x7fELF", "\x7fELFjunk" * 3, "#!python\n"][k % 5]})
    elif op == "weak":
        e = elves[k % len(elves)]
        if e["elf"].get("static"): return None
        bl = sorted({s for p in model.raw_policies("glibc") for l in p["blacklist"].values() for s in l})
        e["elf"].setdefault("undef", []).append({"n": bl[k % len(bl)], "b": "W", "t": "FUNC"})
        if any(u["n"] == bl[k % len(bl)] for u in e["elf"]["undef"][:-1]): return None
    elif op == "rename":
        need = needed_names(c)
        cand = [x for x in mem if not py_ext(x) and os.path.basename(x["p"]) not in need and not x["p"].endswith(".py")
                and "-linux-" not in x["p"]]        # (the ABI tag in a file's name does count)
        if not cand: return None
        x = cand[k % len(cand)]
        x["p"] = os.path.join(os.path.dirname(x["p"]), f"renamed{k}.so")
    elif op == "mode":
        for i, x in enumerate(mem): x["mode"] = [0o644, 0o755, 0o600, 0o444, 0o100, None][(k + i) % 6]
    elif op == "dup_need":
        e = elves[k % len(elves)]
        if not e["elf"].get("needed"): return None
        e["elf"]["needed"] = e["elf"]["needed"] + [e["elf"]["needed"][k % len(e["elf"]["needed"])]]
    elif op == "where": pass
    return c


def check_neutral(case, ctx):
    a = case["world"]
    b = neutral(a, case["op"], case["k"])
    if b is None: raise Skip
    m = Mat(a, ctx.dir)
    ra, ja = show(m)
    if case["op"] == "where":
        d = os.path.join(ctx.dir, ["some where", "ünï", "a.whl", "-d"][case["k"] % 4])
        os.mkdir(d)
        w = shutil.copy(m.wheel, d)
        if case["k"] & 4: rb, jb = show(m, wheel=os.path.join("..", os.path.basename(d), os.path.basename(w)))
        else: rb, jb = show(m, wheel=w, cwd="/")
    else:
        m2 = Mat(b, ctx.dir, wheel_dir="in2", libs=False)
        rb, jb = show(m2)
    ctx.label("neutral:" + case["op"])
    if rejected(ra, ja) != rejected(rb, jb): raise Violation(f"{case['op']} decides whether the wheel is accepted: {ra!r} / {rb!r}")
    if rejected(ra, ja): return
    va = {k: ja[k] for k in KEYS}; vb = {k: jb[k] for k in KEYS}
    if va != vb: raise Violation(f"a change without requirements ({case['op']}) changes the verdict: {va} / {vb}")
    ctx.nontrivial(ja["overall_tag"].startswith("linux") or bool(ja["versioned_symbols"]) or bool(ja["external_libs"]))


MORE = ["need", "version", "black", "isa", "elf", "ucs2", "fpe", "extneed", "extversion"]


def more(c, op, k):
    c = copy.deepcopy(c)
    mem = c["members"]
    elves = [x for x in mem if "elf" in x and not x["elf"].get("static")]
    if not elves: return None
    e = elves[k % len(elves)]["elf"]
    mach = e["machine"]
    libc = "android" if c["plats"][0].startswith("android") else "musl" if any(n.startswith("libc.musl") for x in elves for n in x["elf"]["needed"]) else "glibc"
    names = ["libe0.so.1", "libe1.so", "libe2.so.2.1", "libexpat.so.1", "libmvec.so.1", "libnew.so.4", "libz.so.1", "libX11.so.6", "libstdc++.so.6", "libvulkan.so"]
    if op in ("extneed", "extversion"):
        ext = [f["elf"] for d in c["dirs"].values() for f in d.values() if "elf" in f and f["elf"]["machine"] == mach]
        if not ext: return None
        e = ext[k % len(ext)]
        op = op[3:]
    if op == "need":
        n = names[k % len(names)]
        if n in e.get("needed", []): return None
        e.setdefault("needed", []).insert(k % (len(e.get("needed", [])) + 1), n)
    elif op == "version":
        vs = worlds.versions(libc, mach)
        v = vs[k % len(vs)]
        l = ["libc.so.6", "libm.so.6", "libstdc++.so.6", "libe0.so.1"][k % 4]
        e.setdefault("verneed", {}).setdefault(l, [])
        if v in e["verneed"][l]: return None
        e["verneed"][l].append(v)
    elif op == "black":
        bl = worlds.blacklist_syms(libc, mach)
        if not bl: return None
        l = sorted(bl)[k % len(bl)]
        s = bl[l][k % len(bl[l])]
        if any(u["n"] == s for u in e.get("undef", [])): return None
        e.setdefault("undef", []).append({"n": s, "t": "FUNC"})
        if k & 8 and l not in e["needed"] and l != "libc.so.6": e["needed"].append(l)
    elif op == "isa":
        if mach != "x86_64": return None
        e["isa"] = e.get("isa", 0) | [2, 4, 8][k % 3]
    elif op == "ucs2":
        e.setdefault("undef", []).append({"n": f"PyUnicodeUCS2_X{k}", "t": "FUNC"})
    elif op == "fpe":
        if any(u["n"] == "PyFPE_jbuf" for u in e.get("undef", [])): return None
        e.setdefault("undef", []).append({"n": "PyFPE_jbuf", "t": "NOTYPE"})
    elif op == "elf":
        s = {"machine": mach, "needed": [names[k % len(names)]], "undef": [{"n": "PyFPE_jbuf"}]}
        if k & 1: s["defs"] = [{"n": "PyInit_znew", "ret": 0}]
        if k & 2: s["verneed"] = {"libc.so.6": [worlds.versions(libc, mach)[k % 7]]}
        if k & 4: s["rpath"] = "/X/d0"
        mem.insert(k % (len(mem) + 1), {"p": "pkg/znew.so", "elf": s})
    return c


def check_more(case, ctx):
    a = case["world"]
    b = more(a, case["op"], case["k"])
    if b is None: raise Skip
    m = Mat(a, ctx.dir)
    ra, ja = show(m)
    if rejected(ra, ja): raise Skip
    # libraries may change too: the second wheel gets its own directories
    m2 = Mat(b, os.path.join(ctx.dir, "second"))
    rb, jb = show(m2)
    ctx.label("more:" + case["op"])
    if rejected(rb, jb): return
    arch = next(x["elf"]["machine"] for x in a["members"] if "elf" in x)
    libc = "android" if a["plats"][0].startswith("android") else "musl" if "musllinux" in ja["overall_tag"] + ja["sym_tag"] else "glibc"
    from vlib.names import android_tag
    order = [p.name for p in model.policies(libc, arch, android_tag(a["plats"]))]
    for k in ("overall_tag", "sym_tag"):
        if ja[k] not in order or jb[k] not in order: raise Violation(f"{ja[k]} / {jb[k]} is none of {order}")
        if order.index(jb[k]) > order.index(ja[k]): raise Violation(f"one more requirement ({case['op']}) makes {k} more compatible: {ja[k]} -> {jb[k]}")
    for f in ("pyfpe", "ucs2", "unsupported_isa"):
        if ja[f] and not jb[f]: raise Violation(f"one more requirement ({case['op']}) clears {f}")
    if jb["overall_tag"] != ja["overall_tag"]: ctx.label("tag dropped")
    ctx.nontrivial(jb != ja)


def check_history(case, ctx):
    """several wheels analysed one after the other in one process: each as if alone"""
    ms = []
    for i, w in enumerate(case["worlds"]):
        ms.append(Mat(w, os.path.join(ctx.dir, f"w{i}")))
    argvs = [["show", "--json", *m.ldargs(), m.wheel] for m in ms]
    order = case["order"]

    def together():
        import io
        out = []
        from auditwheel.main import main
        for i in order:
            i %= len(argvs)
            buf = io.StringIO()
            old = sys.stdout
            sys.stdout = buf
            sys.argv = ["auditwheel", *argvs[i]]
            try:
                try: rc = main() or 0
                except SystemExit as e: rc = e.code
                except Exception as e: rc = "exception " + type(e).__name__
            finally:
                sys.stdout = old
            out.append((i, rc, buf.getvalue()))
        return out
    alone = []
    for m, a in zip(ms, argvs):
        r = harness.cli(a, cwd=ctx.dir, tmpdir=m.tmp)
        alone.append((("exception " + r.exc) if r.exc else r.rc, r.out))
    r = harness.api(together, cwd=ctx.dir)
    if r.exc: raise Violation(f"{r!r}")
    for i, rc, out in r.value:
        if (rc, out) != alone[i]: raise Violation(f"wheel {i} analysed in the sequence {order}: {rc} {out} alone: {alone[i]}")
    ctx.nontrivial(len({o % len(ms) for o in order}) > 1)


@st.composite
def file_set(draw):
    """files with search paths of their own (interpreter's directory, RPATH, RUNPATH), each with libraries nobody else needs"""
    g = worlds.G(draw)
    dirs = [f"d{i}" for i in range(g.n(1, 3))]
    case = {"name": "foo", "ver": "1.0", "plats": ["linux_x86_64"], "dirs": {d: {} for d in dirs}, "members": []}
    if g.p(30): case["ld_paths"] = ["/X/" + d for d in dirs if g.p(50)]
    if g.p(30): case["env_paths"] = ["/X/" + d for d in dirs if g.p(50)]
    k = 0
    for i in range(g.n(2, 4)):
        s = {"machine": "x86_64", "needed": ["libc.so.6"]}
        for _ in range(g.n(1, 2)):
            n = f"libe{k}.so.1"; k += 1
            s["needed"].append(n)
            if g.p(85):
                own = {"machine": "x86_64", "soname": n, "needed": ["libc.so.6"]}
                if g.p(30):
                    own["needed"].append(f"libf{k}.so")
                    case["dirs"][g.one(dirs)][f"libf{k}.so"] = {"elf": {"machine": "x86_64", "soname": f"libf{k}.so", "needed": []}}
                if g.p(20): own[g.one(["rpath", "runpath"])] = "/X/" + g.one(dirs)
                case["dirs"][g.one(dirs)][n] = {"elf": own}
        if g.p(40): s[g.one(["rpath", "runpath"])] = g.one(["/X/", "/X/", "$ORIGIN/../"]) + g.one(dirs)
        if g.p(50):
            s["type"] = "dyn"
            s["interp"] = f"/X/{g.one(dirs)}/ld-linux-x86-64.so.2"
            case["members"].append({"p": f"foo/bin/tool{i}", "elf": s, "mode": 0o755})
        else:
            s["defs"] = [{"n": f"PyInit_m{i}", "ret": 1}]
            case["members"].append({"p": f"foo/m{i}.so", "elf": s})
    return {"world": case, "order": draw(st.permutations(range(len(case["members"])))), "noopt": "ld_paths" not in case}


def check_files(case, ctx):
    """the libraries of a file do not depend on the files audited before it"""
    w = case["world"]
    m = Mat(w, ctx.dir)
    kw = {"ldargs": not case["noopt"]}
    ra, ja = show(m, **kw)
    mem = [w["members"][i] for i in case["order"]]
    m2 = Mat({**w, "members": mem}, ctx.dir, wheel_dir="in2", libs=False)
    rb, jb = show(m2, **kw)
    if ra.rc or rb.rc: raise Violation(f"show fails: {ra!r} {rb!r}")
    if {k: ja[k] for k in KEYS} != {k: jb[k] for k in KEYS}: raise Violation(f"the order of the files changes the verdict: {ja} / {jb}")
    alone = {}
    for i, f in enumerate(w["members"]):
        # the other members stay, but need nothing
        rest = [f if g is f else {"p": g["p"] + ".dat", "data": "x"} for g in w["members"]]
        mi = Mat({**w, "members": rest}, ctx.dir, wheel_dir=f"alone{i}", libs=False)
        r, j = show(mi, **kw)
        if r.rc: raise Violation(f"show fails: {r!r}")
        alone.update(j["external_libs"])
    if ja["external_libs"] != alone: raise Violation(f"libraries of all files together: {ja['external_libs']}, of each file alone: {alone}")
    ctx.label("without --ldpaths" if case["noopt"] else "with --ldpaths")
    ctx.nontrivial(any(alone.values()))


@st.composite
def part_set(draw):
    """files that have nothing to do with each other, each with a requirement or two of its own"""
    g = worlds.G(draw)
    libc = g.one(["glibc"] * 4 + ["musl"])
    arch = g.one(["x86_64", "x86_64", "i686", "aarch64", "s390x"])
    libcso = "libc.so.6" if libc == "glibc" else model.MUSL_SO[arch]
    case = {"name": "foo", "ver": "1.0", "plats": ["linux_" + arch], "dirs": {"d0": {}}, "ld_paths": ["/X/d0"], "members": []}
    black = worlds.blacklist_syms(libc, arch)
    vs = worlds.versions(libc, arch)
    pool = ["libe0.so.1", "libe1.so", *worlds.BOUNDARY[libc]]

    def spec(own):
        s = {"machine": arch, "needed": [libcso]}
        if own: s["soname"] = own
        und = []
        for kind in dict.fromkeys(g.one(["ucs2", "fpe", "black", "isa", "version", "version", "ext", "ext"]) for _ in range(g.n(0, 2))):
            if kind == "ucs2" and not own: und.append({"n": "PyUnicodeUCS2_Decode", "t": "FUNC"})
            if kind == "fpe" and not own: und.append({"n": "PyFPE_jbuf", "t": "NOTYPE"})
            if kind == "black" and black:
                l = g.one(sorted(black))
                und.append({"n": g.one(black[l]), "t": "FUNC"})
                if l not in s["needed"]: s["needed"].append(l)
            if kind == "isa" and arch == "x86_64": s["isa"] = g.one([2, 4, 8])
            if kind == "version": s.setdefault("verneed", {}).setdefault(g.one(["libc.so.6", "libm.so.6"]), []).append(g.one(vs))
            if kind == "ext": s["needed"] += [x for x in g.some(pool, 2) if x != own]
        if und: s["undef"] = und
        return s
    for n in pool:
        if g.p(90): case["dirs"]["d0"][n] = {"elf": spec(n)}
    for i in range(g.n(2, 4)):
        s = spec(None)
        mod = f"m{i}"
        k = g.n(0, 9)
        s["defs"] = [{"n": ("PyInit_" if k < 4 else "init" if k < 8 else "other_") + mod, "ret": 1}]
        case["members"].append({"p": f"foo/{mod}.so", "elf": s})
    return {"world": case, "order": draw(st.permutations(range(len(case["members"]))))}


def check_parts(case, ctx):
    """a wheel needs what its files need: no more, no less, and in any order"""
    w = case["world"]
    n = len(w["members"])
    js = []
    for i, mem in enumerate([w["members"], [w["members"][k] for k in case["order"]], w["members"][::-1], *([f] for f in w["members"])]):
        m = Mat({**w, "members": mem}, ctx.dir, wheel_dir=f"in{i}", libs=i == 0)
        r, j = show(m)
        if r.rc: raise Violation(f"show fails: {r!r}")
        js.append({k: j[k] for k in KEYS})
    whole, parts = js[0], js[3:]
    for j in js[1:3]:
        if j != whole: raise Violation(f"the order of the files changes the verdict: {whole} / {j}")
    for f in ("pyfpe", "ucs2", "unsupported_isa"):
        if whole[f] != any(p[f] for p in parts): raise Violation(f"{f} is {whole[f]} for all files together, {[p[f] for p in parts]} for each")
    libc = "musl" if any(x.startswith("libc.musl") for x in w["members"][0]["elf"]["needed"]) else "glibc"
    order = [p.name for p in model.policies(libc, w["members"][0]["elf"]["machine"], None)]
    at = [order.index(p["overall_tag"]) for p in parts]
    if order.index(whole["overall_tag"]) != min(at): raise Violation(f"all files together are {whole['overall_tag']}, each {[p['overall_tag'] for p in parts]}")
    libs = {}
    for p in parts: libs.update(p["external_libs"])
    if whole["external_libs"] != libs: raise Violation(f"libraries of all files {whole['external_libs']}, of each {libs}")
    for name in order[1:]:      # what keeps the whole from a policy is what keeps a file from it
        if order.index(name) <= max(at): continue
        e = {}
        for p in parts:
            for l, ss in p["policy_upgrades"].get(name, {}).get("blacklisted_symbols", {}).items(): e.setdefault(l, set()).update(ss)
        e = {l: sorted(ss) for l, ss in e.items()}
        got = whole["policy_upgrades"].get(name, {}).get("blacklisted_symbols", {})
        if got != e: raise Violation(f"blacklisted symbols for {name}: {got}, of each file {e}")
    ctx.label("libc:" + libc)
    ctx.nontrivial(len(set(at)) > 1 or any(p["pyfpe"] or p["ucs2"] or p["unsupported_isa"] for p in parts))


def pair(ops):
    return st.fixed_dictionaries({"world": base_world(), "op": st.sampled_from(ops), "k": st.integers(0, 60)})


@st.composite
def history(draw):
    ws = draw(st.lists(worlds.audit_world(foreign=True), min_size=2, max_size=3))
    for w in ws: w.pop("env_paths", None); w["ld_paths"] = ["/X/" + d for d in w["dirs"]]
    return {"worlds": ws, "order": draw(st.lists(st.integers(0, 2), min_size=2, max_size=5))}


PROP = Prop("C03", [Leg("neutral", lambda t: pair(NEUTRAL), check_neutral, 900, 20000), Leg("more", lambda t: pair(MORE), check_more, 900, 20000),
                    Leg("files", lambda t: file_set(), check_files, 240, 6000), Leg("parts", lambda t: part_set(), check_parts, 400, 10000), Leg("history", lambda t: history(), check_history, 160, 4000)],
            rule="a generated wheel and one rewrite of it: a neutral one (archive or RECORD order, compression, data files, weak symbols, renaming, place, modes) or one added requirement, several files with search paths of their own together and each alone, files with requirements of their own in three orders and each alone, or several wheels analysed in one process; non-trivial: the wheel has requirements / the report changes / a library is located / two different wheels in the sequence",
            technique="property-based metamorphic testing (Hypothesis) of `auditwheel show --json`",
            level_note="Random search over wheel pairs; no model is involved, only the relation between two runs of the real command.",
            assumptions=["architecture and libc of the wheel are unambiguous", "each library name has one file in the searched directories"])
