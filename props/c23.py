"""C23: queued ELF edits have the effect of applying them one by one."""
import os
import re
import stat

from hypothesis import strategies as st

from vlib import harness, outputs, worlds
from vlib.elfgen import build
from vlib.elfread import Elf
from vlib.harness import Leg, Prop, Violation

NEED = ["liba.so.1", "libb.so", "libc.so.6", "libd-1.2.so", "libé.so.3"]
RPATHS = ["$ORIGIN", "$ORIGIN/../foo.libs", "$ORIGIN/a:$ORIGIN/b", "/opt/lib", "${ORIGIN}/x y", "$ORIGIN/é", "$ORIGIN/" + "d" * 200, ""]
CLEAR = object()
FORMS = ["abs", "rel", "link", "dots", "linkdir"]
ANDROID = ["android_24_x86_64", "android_35_arm64_v8a", "android_21_x86_64", "android_23_arm64_v8a"]


@st.composite
def history(draw):
    g = worlds.G(draw)
    nf = g.n(1, 4)
    kind = g.one(["patchelf"] * 6 + ["lief-patchelf"] * 2 + ["none"] * 3)
    plat = g.one(["", "manylinux_2_17_x86_64", "", "musllinux_1_2_x86_64"] + ANDROID[:3])
    files = []
    for i in range(nf):
        s = {"machine": g.one(["x86_64", "x86_64", "i686", "aarch64", "armv7l", "s390x", "ppc64le"]), "needed": g.some(NEED, 4), "seed": i}
        if g.p(60): s["soname"] = f"lib{i}.so"
        if g.p(50): s[g.one(["rpath", "runpath"])] = g.one(RPATHS)
        files.append(s)
    ops = []
    k = 0
    used = [set() for _ in files]       # names a replacement has been asked for
    alive = list(range(nf))
    for _ in range(g.n(1, 14)):
        if not alive: break
        f = g.one(alive); form = g.one(FORMS)
        op = g.one(["replace"] * 3 + ["remove"] * 3 + ["rpath"] * 3 + ["clear"] * 2 + ["get"] * 4 + ["soname"] * 2 + ["move", "move", "apply", "apply", "gone"])
        if op == "replace":
            old = [n for n in g.some(NEED + ["libother.so"], 3) if n not in used[f]]
            used[f] |= set(old)
            pairs = []
            for n in old:
                k += 1
                pairs.append([n, f"lib{k}-{k * 7919:08x}.so.1"])
            ops.append(["replace", f, form, pairs])
        elif op == "remove": ops.append(["remove", f, form, g.some(NEED + ["libother.so"] + [p[1] for o in ops if o[0] == "replace" and o[1] == f for p in o[3]], 2)])
        elif op == "rpath": ops.append(["rpath", f, form, g.one(RPATHS)])
        elif op == "soname": ops.append(["soname", f, form, f"new{g.n(0, 99)}.so"])
        elif op == "move":
            nf += 1
            ops.append(["move", f, nf - 1]); used.append(used[f])
            alive = [nf - 1 if a == f else a for a in alive]
        elif op == "gone": ops.append(["gone", g.one(["replace", "remove", "rpath", "clear", "get", "soname"])])
        else: ops.append([op, f, form] if op != "apply" else ["apply"])
        if op == "apply": used = [set() for _ in used]
    ops.append(["apply"])
    return {"kind": kind, "plat": plat, "files": files, "ops": ops}


def path(root, f, form):
    """the same file, written differently"""
    d = f"d{f % 2}"
    return {"abs": f"{root}/{d}/f{f}", "rel": f"{d}/f{f}", "link": f"{root}/links/l{f}", "dots": f"{root}/d0/../{d}/./f{f}", "linkdir": f"{root}/links/{d}/f{f}"}[form]


def check(case, ctx):
    root = os.path.join(ctx.dir, "w")
    for d in ("d0", "d1", "links", "bin"): os.makedirs(f"{root}/{d}")
    for d in ("d0", "d1"): os.symlink(f"../{d}", f"{root}/links/{d}")
    for i in range(len(case["files"]) + 20): os.symlink(f"../d{i % 2}/f{i}", f"{root}/links/l{i}")
    for i, s in enumerate(case["files"]):
        with open(path(root, i, "abs"), "wb") as fh: fh.write(build(s))
    kind = case["kind"]
    env = {}
    if kind == "lief-patchelf":     # a stand-in which prints RPATHs like the real one
        for n, t in (("patchelf", "#!/bin/sh\necho wrong tool >&2\nexit 9\n"),
                     ("lief-patchelf", '#!/bin/sh\nif [ "$1" = --print-rpath ]; then r=$(/opt/venv/bin/patchelf "$@") || exit 1\n[ -n "$r" ] && /usr/bin/readelf -d "$2" | grep -q "(RPATH)" && r="$r (legacy)"\nprintf "%s\\n" "$r"; else exec /opt/venv/bin/patchelf "$@"; fi\n')):
            with open(f"{root}/bin/{n}", "w") as fh: fh.write(t)
            os.chmod(f"{root}/bin/{n}", 0o755)
        env = {"PATH": f"{root}/bin:/usr/bin:/bin"}
    ops = case["ops"]

    def go():
        from pathlib import Path
        from auditwheel.patcher import ElfPatcher
        p = ElfPatcher.get_patcher(kind, case["plat"])
        trace = []
        snaps = []

        def snap():
            return {f: open(path(root, f, "abs"), "rb").read() for f in range(40) if os.path.exists(path(root, f, "abs"))}
        snaps.append(snap())
        for op in ops:
            try:
                if op[0] == "gone":
                    q = Path(root) / "nothing"
                    r = {"replace": lambda: p.replace_needed(q, ("a", "b")), "remove": lambda: p.remove_needed(q, "a"), "rpath": lambda: p.set_rpath(q, "$ORIGIN"),
                         "clear": lambda: p.clear_rpath(q), "get": lambda: p.get_rpath(q), "soname": lambda: p.set_soname(q, "x")}[op[1]]()
                elif op[0] == "apply":
                    r = p.apply_updates()
                elif op[0] == "move":
                    a, b = path(root, op[1], "abs"), path(root, op[2], "abs")
                    os.rename(a, b)
                    with open(a, "w") as fh: fh.write("#!python\n")
                    r = p.update_elf_path(Path(a), Path(b))
                else:
                    q = Path(path(root, op[1], op[2]))
                    r = {"replace": lambda: p.replace_needed(q, *[tuple(x) for x in op[3]]), "remove": lambda: p.remove_needed(q, *op[3]), "rpath": lambda: p.set_rpath(q, op[3]),
                         "clear": lambda: p.clear_rpath(q), "get": lambda: p.get_rpath(q), "soname": lambda: p.set_soname(q, op[3])}[op[0]]()
                trace.append(["ok", r if isinstance(r, str) else None])
            except Exception as e:  # noqa: BLE001
                trace.append([type(e).__name__, str(e)])
            if op[0] == "apply":
                snaps.append(snap())
                try:
                    p.apply_updates()
                    again = "ok"
                except Exception as e:  # noqa: BLE001
                    again = repr(e)
                trace[-1].append(again)
                trace[-1].append(snap() == snaps[-1])
        return trace, snaps
    res = harness.api(go, cwd=root, env=env)
    if res.exc: raise Violation(f"{res!r}")
    trace, snaps = res.value
    judge(case, trace, snaps, ctx)


def judge(case, trace, snaps, ctx):
    none = case["kind"] == "none"
    android = case["plat"].startswith("android")
    low = android and int(case["plat"].split("_")[1]) < 24
    cur = {i: dict(needed=list(s.get("needed") or []), soname=s.get("soname"), rpath=s.get("rpath"), runpath=s.get("runpath")) for i, s in enumerate(case["files"])}
    orig = {i: build(s) for i, s in enumerate(case["files"])}
    now = dict(orig)
    dead = set()
    pend = {}
    q = {}
    edited = 0
    it = iter(snaps[1:])

    def Q(f): return q.setdefault(f, dict(soname=None, path=None, rm=[], rep={}))
    names = {}
    for op, t in zip(case["ops"], trace, strict=True):
        k = op[0]
        if k == "gone":
            if none and op[1] == "get" and t[0] == "FileNotFoundError": continue
            if t[0] != "FileNotFoundError" and not (low and op[1] == "rpath" and t[0] == "ValueError"): raise Violation(f"{op[1]} for a file that is not there: {t}")
            continue
        if k == "apply":
            want_fail = none and any(v["soname"] is not None or v["path"] is not None or v["rm"] or v["rep"] for v in q.values())
            if want_fail != (t[0] != "ok"): raise Violation(f"apply with pending edits {q}: {t[:2]}")
            if want_fail and t[0] != "NotImplementedError": raise Violation(f"apply: {t[:2]}")
            if t[2] != "ok" or not t[3]: raise Violation(f"applying again: {t[2]}, files changed: {not t[3]}")
            s = next(it)
            if not none:
                for f, e in q.items():
                    c = cur[f]
                    if e["soname"] is not None: c["soname"] = e["soname"]
                    c["needed"] = [e["rep"].get(n, n) for n in c["needed"] if n not in e["rm"]]
                    if e["path"] is CLEAR: c["rpath"] = c["runpath"] = None
                    elif e["path"] is not None: c["rpath"], c["runpath"] = (None, e["path"]) if android else (e["path"], None)
            touched = {f for f, e in q.items() if e["soname"] is not None or e["path"] is not None or e["rm"] or e["rep"]}
            for f in cur:
                if f in dead: continue
                if f not in touched or none:
                    if s[f] != now[f]: raise Violation(f"file {f} was written without an edit pending (queue {q})")
                    continue
                e = Elf(s[f])
                got = dict(needed=e.needed, soname=e.soname, rpath=e.rpath, runpath=e.runpath)
                # an empty search path: patchelf writes it only in place of another
                if any((got[k] or None) != (cur[f][k] or None) if k in ("rpath", "runpath") else got[k] != cur[f][k] for k in got): raise Violation(f"file {f}: {got}, expected {cur[f]} after {case['ops']}")
                outputs.same_code(Elf(orig[f]), e, names.get(f, {}), f"file {f}")
                edited += 1
            now = s
            q = {}
            continue
        f = op[1]
        if k == "move":
            g = op[2]
            cur[g] = cur.pop(f); dead.add(f); now[g] = now.pop(f); orig[g] = orig.pop(f); names[g] = names.pop(f, {})
            if f in q: q[g] = q.pop(f); ctx.label("moved with edits pending")
            want = "ok"
        elif k == "replace":
            bad = any(n in Q(f)["rm"] for p in op[3] for n in p)
            want = "ValueError" if bad else "ok"
            if not bad:
                for o, n in op[3]: Q(f)["rep"][o] = n
            else: ctx.label("contradiction refused")
        elif k == "remove":
            bad = any(n in op[3] for p in Q(f)["rep"].items() for n in p)
            want = "ValueError" if bad else "ok"
            if not bad: Q(f)["rm"] += op[3]
            else: ctx.label("contradiction refused")
        elif k == "rpath":
            want = "ValueError" if low else "ok"
            if not low: Q(f)["path"] = op[3]
        elif k == "clear": Q(f)["path"] = CLEAR; want = "ok"
        elif k == "soname": Q(f)["soname"] = op[3]; want = "ok"
        elif k == "get":
            want = "ok"
            v = q.get(f, {}).get("path")
            if v is CLEAR: v = ""
            elif v is None:
                v = cur[f]["runpath"] or cur[f]["rpath"] or ""
                if none: want = "NotImplementedError"
            if want == "ok" and t[0] == "ok" and t[1] != v: raise Violation(f"the RPATH read is {t[1]!r}, expected {v!r} after {case['ops']}")
            if none and t[0] == "ok" and want != "ok": continue
        if t[0] != want: raise Violation(f"{op}: {t}, expected {want} (queue {q})")
    ctx.label(case["kind"] + (" android" if android else ""))
    if edited > 1: ctx.label("several files or rounds")
    ctx.nontrivial(edited > 0 or none and len(case["ops"]) > 1)


@st.composite
def versions(draw):
    g = worlds.G(draw)
    v = ".".join(str(g.one([0, 0, 13, 14, 15, 1, 4, 5, 6, 18, 9, 20])) for _ in range(g.n(1, 3)))
    if g.p(40): v = g.one(["0.14.5", "0.14.4", "0.15", "0.14", "0.9", "0.10", "1.0", "0.14.50", "0.18.0", "0.2.99"])
    return {"out": g.one(["patchelf {}\n", "patchelf {}\n", "patchelf {}.20220803.g1\n", "patchelf  {}", "{}\n", "PatchELF {}\n", "patchelf\n", ""]).format(v), "v": v, "rc": g.one([0, 0, 0, 0, 1]), "tool": g.one(["patchelf", "patchelf", "lief-patchelf", "missing"])}


def check_version(case, ctx):
    b = os.path.join(ctx.dir, "bin")
    os.makedirs(b)
    if case["tool"] != "missing":
        with open(f"{b}/{case['tool']}", "w") as fh: fh.write(f"#!/bin/sh\nprintf '%s' '{case['out']}'\nexit {case['rc']}\n")
        os.chmod(f"{b}/{case['tool']}", 0o755)

    def go():
        from auditwheel.patcher import ElfPatcher
        ElfPatcher.get_patcher(case.get("want", "patchelf"))
        return "ok"
    env = {"PATH": b}
    r = harness.api(go, cwd=ctx.dir, env=env)
    m = re.match(r"patchelf\s+(\d+)(?:\.(\d+))?(?:\.(\d+))?", case["out"])
    ok = case["tool"] == "patchelf" and case["rc"] == 0 and m is not None and tuple(int(x) for x in m.groups() if x is not None) >= (0, 14, 5)
    if (r.value == "ok") != ok or (not ok and r.exc != "ValueError"): raise Violation(f"patchelf printing {case['out']!r} with status {case['rc']}: {'accepted' if r.value else r.exc}, expected {'accepted' if ok else 'ValueError'}")

    def lief():
        from auditwheel.patcher import ElfPatcher
        ElfPatcher.get_patcher("lief-patchelf")
        return "ok"
    r = harness.api(lief, cwd=ctx.dir, env=env)
    if (r.value == "ok") != (case["tool"] == "lief-patchelf"): raise Violation(f"lief-patchelf with {case['tool']} installed: {r!r}")
    ctx.nontrivial(m is not None)
    ctx.label("accepted" if ok else "refused")


PROP = Prop("C23", [Leg("queue", lambda t: history(), check, 3200, 60000), Leg("version", lambda t: versions(), check_version, 240, 4000)],
            rule="a generated history of edit requests, moves and applications over several files named in different ways; non-trivial: an edit was written (or refused by the none patcher), or a version was compared",
            technique="model-based property testing (Hypothesis): histories of the real patcher with the real patchelf against a sequential model of the dynamic sections",
            level_note="Random histories of up to 15 requests on up to 4 files. lief-patchelf is not installed; a stand-in that prints like it and calls patchelf takes its place.",
            assumptions=["no name is both the new name of a replacement and replaced again before the edits are applied"])
