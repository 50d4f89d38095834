"""C26: pure wheels and several wheels in one command."""
import copy
import json
import os
import shutil

from hypothesis import strategies as st

from vlib import harness, repairs, worlds
from vlib.harness import Leg, Prop, Violation
from vlib.wheelgen import Mat, Whl, tree_state, wheel_name, write_wheel

GOOD = {"machine": "x86_64", "needed": ["libc.so.6"], "verneed": {"libc.so.6": ["GLIBC_2.2.5"]}, "defs": [{"n": "PyInit_m", "ret": 1}]}
KINDS = ["pure", "pure", "ok", "ok", "graft", "anyelf", "empty_plat", "foreign", "missing", "gone", "dir", "junkname", "purelib", "musl", "musl"]
FAIL = {"empty_plat", "foreign", "missing", "gone", "dir", "purelib"}


@st.composite
def wheel(draw, i):
    k = draw(st.sampled_from(KINDS))
    c = {"kind": k, "name": draw(st.sampled_from([f"pk{i}", "foo", f"Any_{i}"])), "ver": draw(st.sampled_from(["1.0", "2.3.dev1"])), "py": draw(st.sampled_from(["py3", "cp312", "py2.py3"])), "abi": "none"}
    if draw(st.integers(0, 4)) == 0: c["build"] = "1"
    c["plats"] = {"pure": ["any"], "anyelf": ["any"], "junkname": ["any"], "musl": ["musllinux_1_2_x86_64"]}.get(k) or [draw(st.sampled_from(["linux_x86_64", "manylinux_2_17_x86_64"]))]
    mem = [{"p": f"pk/{n}", "data": d} for n, d in draw(st.lists(st.tuples(st.sampled_from(["__init__.py", "a.so", "b.txt", "c.pyd", "libx.so.1", "d.bin", "é.py"]), st.sampled_from(["", "x = 1\n", "\x7fELG", "not an ELF file", "\x7fEL"])), max_size=4, unique_by=lambda t: t[0]))]
    e = dict(GOOD)
    if k == "graft": e["needed"] = ["libe0.so.1", "libc.so.6"]
    if k == "missing": e["needed"] = ["libnowhere.so.1", "libc.so.6"]
    if k == "musl": e["needed"], e["verneed"] = ["libc.musl-x86_64.so.1"], {}
    if k == "foreign": e["machine"] = "aarch64"
    if k in ("ok", "graft", "anyelf", "foreign", "missing", "musl"): mem.insert(draw(st.integers(0, len(mem))), {"p": "pk/m.so", "elf": e})
    if k == "purelib": mem.append({"p": f"{c['name']}-{c['ver']}.data/purelib/m.so", "elf": e})
    c["members"] = mem
    if draw(st.booleans()): c["zip"] = {"comp": draw(st.sampled_from([0, 8])), "dirs": draw(st.booleans())}
    return c


@st.composite
def case(draw):
    n = draw(st.integers(1, 4))
    ws = [draw(wheel(i)) for i in range(n)]
    if n > 1 and draw(st.integers(0, 5)) == 0: ws[-1] = dict(ws[0])
    return {"wheels": ws, "allow": draw(st.sampled_from([True, True, False])), "out": draw(st.sampled_from(["out", "out", "deep/er/out", "in", "cwd", None])),
            "old": draw(st.sampled_from([0, 0, 0, 1, 2, 3])), "link": draw(st.integers(0, 7)) == 0, "rel": draw(st.booleans()), "plat": draw(st.sampled_from([None, None, "manylinux_2_17_x86_64", "manylinux1_x86_64"]))}


def check(c, ctx):
    from vlib.elfgen import build
    root = ctx.dir
    ind, cwd, tmp, lib = (os.path.join(root, d) for d in ("in", "cwd", "tmp", "lib"))
    for d in (ind, cwd, tmp, lib): os.makedirs(d)
    with open(lib + "/libe0.so.1", "wb") as f: f.write(build({"machine": "x86_64", "soname": "libe0.so.1", "needed": ["libc.so.6"], "verneed": {"libc.so.6": ["GLIBC_2.2.5"]}}))
    paths, made = [], {}
    for w in c["wheels"]:
        n = wheel_name(w)
        p = os.path.join(ind, n)
        key = json.dumps(w, sort_keys=True)
        if p in made and made[p] != key:         # another wheel has this file name already
            d = os.path.join(root, f"in{len(paths)}"); os.makedirs(d, exist_ok=True)
            p = os.path.join(d, n)
        made[p] = key
        if w["kind"] == "gone": pass
        elif w["kind"] == "dir": os.makedirs(p, exist_ok=True)
        else: write_wheel(w, p)
        paths.append(p)
    out = {"in": ind, "cwd": cwd, None: os.path.join(cwd, "wheelhouse")}.get(c["out"], os.path.join(root, c["out"] or "x"))
    os.environ.setdefault("SOURCE_DATE_EPOCH", "1600000000")
    env = {"SOURCE_DATE_EPOCH": "1600000000"}
    if c["old"] and c["out"] != "in":
        os.makedirs(out, exist_ok=True)
        for p in paths:
            if os.path.isfile(p) and not os.path.lexists(os.path.join(out, os.path.basename(p))):
                q = os.path.join(out, os.path.basename(p))
                # the same file under another path; not where another wheel of that name is to be written over it, and so over the link's target
                if c["link"] and {x for x in paths if os.path.basename(x) == os.path.basename(p)} == {p}: os.link(p, q)
                else:
                    size = os.path.getsize(p)
                    with open(q, "wb") as f: f.write([b"an older file", b"?" * size, open(p, "rb").read()[:-1] + b"!"][c["old"] - 1])
                    if c["old"] > 1: os.utime(q, (os.path.getmtime(p),) * 2 if c["rel"] else None)
    before = {p: open(p, "rb").read() for p in paths if os.path.isfile(p)}
    old = {n: open(os.path.join(out, n), "rb").read() for n in os.listdir(out) if os.path.isfile(os.path.join(out, n))} if os.path.isdir(out) else {}
    flag = ["--allow-pure-python-wheel"] if c["allow"] else []

    def arg(p): return os.path.relpath(p, cwd) if c["rel"] else p
    # ---- show, one by one
    for w, p in zip(c["wheels"], paths):
        k = w["kind"]
        r = harness.cli(["show", "--json", *flag, "--ldpaths", lib, arg(p)], cwd=cwd, tmpdir=tmp)
        if k in ("pure", "junkname"):
            j = json.loads(r.out)
            if c["allow"]:
                if r.rc != 0 or j.get("pure") is not True: raise Violation(f"show of a pure wheel that is allowed: {r!r} {j}")
            elif r.rc != 1 or "overall_tag" in j or "platform wheel" not in j.get("error", ""): raise Violation(f"show of a pure wheel that is not allowed: {r!r} {j}")
            t = harness.cli(["show", *flag, "--ldpaths", lib, arg(p)], cwd=cwd, tmpdir=tmp)
            if t.rc != r.rc or "platform wheel" not in t.err + t.out: raise Violation(f"text report of a wheel without ELF files: {t!r}")
        elif k in ("empty_plat", "foreign", "gone", "dir", "purelib"):
            if r.rc in (0, None) or "overall_tag" in r.out: raise Violation(f"show accepts a wheel of kind {k}: {r!r}")
            if k in ("empty_plat", "foreign") and (r.rc != 1 or "platform wheel" not in r.out and "Invalid binary wheel" not in r.out): raise Violation(f"show of a wheel without ELF files of its architecture: {r!r}")
        else:
            if r.rc != 0 or json.loads(r.out).get("pure") is not False: raise Violation(f"show of a wheel of kind {k}: {r!r}")
    # ---- repair, all together
    argv = ["repair", *flag, "--ldpaths", lib]
    if c["plat"]: argv += ["--plat", c["plat"]]
    if c["out"] is not None: argv += ["-w", arg(out)]
    outs_in = {os.path.join(out, os.path.basename(p)) for p in paths}
    r = harness.cli([*argv, *map(arg, paths)], cwd=cwd, env=env, tmpdir=tmp)
    fails = [i for i, w in enumerate(c["wheels"]) if w["kind"] in FAIL or (w["kind"] == "musl" and c["plat"]) or (w["kind"] in ("pure", "junkname") and not c["allow"])]
    # a wheel written earlier may replace a later input of the same name in the output directory
    stop = fails[0] if fails else len(paths)
    if (r.rc == 0) != (not fails): raise Violation(f"exit status {r.rc} with wheels {[w['kind'] for w in c['wheels']]} (allow: {c['allow']}): {r!r}")
    if r.rc in (None, 250) or (r.rc or 0) < 0: raise Violation(f"repair dies: {r!r}")
    if fails and c["wheels"][stop]["kind"] in ("pure", "junkname", "empty_plat") and (r.rc != 1 or "platform wheel" not in r.err + r.out): raise Violation(f"no explanation for a wheel without ELF files: {r!r}")
    want, exact = set(old), dict(old)
    for i in range(stop):
        w, p = c["wheels"][i], paths[i]
        n = os.path.basename(p)
        if w["kind"] in ("pure", "junkname"):
            want.add(n); exact[n] = before[p]
        else:
            pre, plat = n[:-4].rsplit("-", 1)
            pl = {"manylinux_2_17_x86_64", "manylinux2014_x86_64"} if c["plat"] == "manylinux_2_17_x86_64" else set()
            pl |= {"musllinux_1_2_x86_64"} if w["kind"] == "musl" else {"manylinux_2_5_x86_64", "manylinux1_x86_64"}
            pl |= set(plat.split(".")) - {"any", "linux_x86_64"}
            o = f"{pre}-{'.'.join(sorted(pl))}.whl"
            want.add(o); exact.pop(o, None)
    have = {n for n in (os.listdir(out) if os.path.isdir(out) else []) if os.path.isfile(os.path.join(out, n))}
    if have != want: raise Violation(f"output directory {sorted(have)}, expected {sorted(want)} (wheels {[w['kind'] for w in c['wheels']]}, allow {c['allow']}): {r!r}")
    for n, b in exact.items():
        if open(os.path.join(out, n), "rb").read() != b: raise Violation(f"{n} in the output directory is not what it has to be")
    for n in want - set(exact):
        W = Whl(os.path.join(out, n))
        if W.bad: raise Violation(f"damaged output {n}")
        if not any(f.endswith("pk/m.so") for f in W.files): raise Violation(f"{n} lost its extension")
    for p, b in before.items():
        if p in {os.path.join(out, n) for n in want - set(exact)}: continue
        if open(p, "rb").read() != b: raise Violation(f"input {p} changed")
    if os.listdir(tmp): raise Violation(f"left in the temporary directory: {os.listdir(tmp)}")
    ctx.label(*("kind:" + w["kind"] for w in c["wheels"]), f"wheels:{len(paths)}", "out:" + str(c["out"]), "stopped" if fails else "all done")
    ctx.nontrivial(len(paths) > 1 or c["wheels"][0]["kind"] in ("pure", "junkname"))


# ---- wheels that are nearly the same, together and each on its own

@st.composite
def near(draw):
    base = draw(repairs.repair_world(twin=10, reqs=3, missing=1, scripts=15, noupdate=5))
    g = worlds.G(draw)
    ws = []
    for i in range(g.one([2, 2, 2, 3])):
        c = copy.deepcopy({k: base[k] for k in ("name", "ver", "py", "abi", "plats", "members", "zip") if k in base})
        c["build"] = str(i)
        elves = [m for m in c["members"] if "elf" in m]
        for _ in range(g.one([1, 1, 2, 0]) if i else g.one([0, 0, 0, 1])):
            m = g.one(elves)
            e = m["elf"]
            k = g.one(["isa", "isa", "less", "more", "vers", "path", "gone", "undef", "swap", "machine", "mode"])
            if k == "isa" and e["machine"] == "x86_64": e["isa"] = g.one([2, 4, 8, 1, 0])
            elif k == "less" and e["needed"]: e["needed"].pop(g.n(0, len(e["needed"]) - 1))
            elif k == "more": e["needed"].insert(0, g.one(["libe0.so.1", "libe1.so", "libz.so.1", "libexpat.so.1", "libm.so.6"]))
            elif k == "vers" and "libc.so.6" in e["needed"] and e["machine"] in ("x86_64", "i686"): e["verneed"] = {"libc.so.6": [g.one(["GLIBC_2.38", "GLIBC_2.17", "GLIBC_2.28", "GLIBC_2.34", "GLIBC_2.3", "GLIBC_2.99"])]}
            elif k == "path":
                e.pop("rpath", None); e.pop("runpath", None)
                if g.p(70): e[g.one(["rpath", "runpath"])] = g.one(["$ORIGIN", "/X/d0", "/X/d1:$ORIGIN", "/X/d1:/X/d0", "$ORIGIN/../" + c["name"] + ".libs"])
            elif k == "gone" and len(elves) > 1: c["members"].remove(m); elves.remove(m)
            elif k == "undef" and "verneed" not in e: e["undef"] = [{"n": g.one(["gzflags", "_dist_code", "PyFPE_jbuf", "Py_None"]), "t": "FUNC", "b": "G"}]
            elif k == "swap" and len(elves) > 1:
                o = g.one(elves); m["elf"], o["elf"] = o["elf"], m["elf"]
            elif k == "machine" and g.p(30): e["machine"] = g.one(["aarch64", "x86_64"]); e.pop("verneed", None)
            elif k == "mode": m["mode"] = g.one([0o644, 0o755, 0o700])
            e["needed"] = list(dict.fromkeys(e["needed"]))
        if g.p(10): c["plats"] = [g.one(["manylinux_2_28_", "linux_", "musllinux_1_2_", "manylinux2014_"]) + c["plats"][-1].split("_", 1)[1]] if c["plats"][-1].startswith("linux_") else c["plats"]
        ws.append(c)
    if g.p(20): ws.reverse()
    return {"base": base, "wheels": ws}


def check_near(c, ctx):
    m = Mat(c["base"], ctx.dir)
    paths = []
    for w in c["wheels"]:
        p = os.path.join(ctx.dir, "in", wheel_name(w))
        write_wheel(w, p, m.X)
        paths.append(p)
    env = {"SOURCE_DATE_EPOCH": "1600000000"}
    want, alone = {}, []
    for i, p in enumerate(paths):
        o = os.path.join(ctx.dir, f"alone{i}")
        r = repairs.repair(m, out=o, wheels=[p], env=env)
        alone.append(r.rc)
        if r.rc: break
        for n in sorted(os.listdir(o)): want[n] = open(os.path.join(o, n), "rb").read()
    r = repairs.repair(m, wheels=paths, env=env)
    if (r.rc == 0) != (not any(alone)): raise Violation(f"exit status {r.rc} together, {alone} alone: {r!r}")
    have = {n: open(os.path.join(m.out, n), "rb").read() for n in os.listdir(m.out)}
    if set(have) != set(want): raise Violation(f"together {sorted(have)}, alone {sorted(want)}")
    for n in want:
        if have[n] != want[n]:
            a, b = (Whl(os.path.join(m.out, n)), next(Whl(os.path.join(ctx.dir, f"alone{i}", n)) for i in range(len(paths)) if os.path.exists(os.path.join(ctx.dir, f"alone{i}", n))))
            raise Violation(f"{n} is not the same together and alone: {[f for f in dict.fromkeys(a.names + b.names) if a.data.get(f) != b.data.get(f)]}")
    ctx.label(f"near:{len(paths)}", "near stopped" if any(alone) else "near done", f"near outputs:{len(want)}")
    ctx.nontrivial(len(alone) > 1)


PROP = Prop("C26", [Leg("wheels", lambda t: case(), check, 700, 16000), Leg("together", lambda t: near(), check_near, 200, 6000)],
            rule="a command line of 1-4 wheels, each pure, repairable (with or without grafting, also named `any`, also for musl), without or with only foreign ELF files, with an unlocatable library, missing, or a directory; with and without the option that allows pure wheels, different output directories (also the input's and one with older files or hard links of the inputs); non-trivial: several wheels or a pure one. Second leg: 2-3 wheels that differ in a few details of files of the same name, repaired together and each alone (outputs must be equal byte for byte); non-trivial: at least two were repaired or judged",
            technique="property-based testing (Hypothesis) of `show` and `repair` command lines against a model of the output directory",
            level_note="Random search over sequences of wheels. Trusts: the zip reader.")
