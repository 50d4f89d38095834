"""C09: a repaired wheel is self-contained and still runs."""
import os
import posixpath
import shutil
import zipfile

from vlib import harness, model, repairs, worlds
from vlib.elfread import Elf
from vlib.harness import Leg, Prop, Skip, Violation


class F:
    def __init__(self, needed, rpath, runpath, soname):
        self.needed = needed; self.rpath = rpath; self.runpath = runpath; self.soname = soname


def of_spec(s, X):
    from vlib.wheelgen import real_spec
    s = real_spec(s, X)
    st = s.get("static")
    return F([] if st else list(s.get("needed") or []), s.get("rpath"), s.get("runpath"), s.get("soname"))


def loader(s):
    return "ld-linux" in s or s in ("ld64.so.1", "ld64.so.2")


def check_struct(case, ctx):
    res = repairs.run_and_expect(case, ctx)
    if res is None: return
    m, x, r, w = res
    if x.ambiguous: raise Skip
    A = x.A
    elves = w.elves()
    out = {"/W/" + p: F(e.needed, e.rpath, e.runpath, e.soname) for p, e in elves.items()}
    inherit = A.libc != "android"
    after = repairs.LdSo(out, inherit=inherit)
    # the same question asked of the original files, with the libraries where they were
    V = model.World(case, m.real).vfs
    orig = {}
    for p, n in V.nodes.items():
        if p.startswith("/X/"):
            rp = V.real(p)
            if rp is None or "elf" not in V.nodes[rp]: continue
            n = V.nodes[rp]
        if "elf" in n and not p.endswith(".py"): orig[m.real(p)] = of_spec(n["elf"], m.X)
    before = repairs.LdSo(orig, env=[m.real(p) for p in case.get("env_paths") or []], conf=[m.real(p) for p in case.get("ld_paths") or []])
    excl = x.opts.get("exclude", [])
    total = 0
    for p, t in A.trees.items():
        np = x.moved.get(p, p)
        if "/W/" + np not in out: raise Violation(f"{np} is missing")
        bind = after.load("/W/" + np)
        was = before.load("/W/" + p)
        # walk over what must be bound, from the root: original identity of each file
        todo = [("/W/" + np, "/W/" + p, p)]     # (new path, original, wheel file whose references count)
        done = set()
        while todo:
            o, src, own = todo.pop()
            if o in done: continue
            done.add(o)
            for n in out[o].needed:
                got = bind.get((o, n))
                names = [s for s, new in x.map.get(own, {}).items() if new == n]
                if names:
                    real = x.bind[own][names[0]]
                    if got is None: raise Violation(f"loading {np}: {o[3:]} needs {n}, which its search path {out[o].rpath or out[o].runpath!r} does not find")
                    gn = posixpath.basename(got)
                    if x.grafts[real] != gn: raise Violation(f"loading {np}: {o[3:]} is bound to {gn}, not to {real}")
                    same(elves[got[3:]], Elf(x.rd(real)), f"{got} against {real}")
                    total += 1
                    todo.append((got, real, own))
                    continue
                if n in x.pol.white or loader(n): continue
                if A.libc == "android" and repairs.is_libpy(n): continue
                if any(model.fnmatch.fnmatchcase(n, e) for e in excl): continue
                # a library of the wheel
                lib = A.trees[own].libs.get(n)
                if lib is None or lib.real is None or not lib.real.startswith("/W/"):
                    if n in x.map.get(own, {}): raise Violation(f"loading {np}: {o[3:]} still needs {n}")
                    raise Violation(f"loading {np}: {o[3:]} needs {n}, which is neither allowed, excluded nor in the wheel")
                if got is None or got != "/W/" + x.moved.get(lib.real[3:], lib.real[3:]):
                    # (an executable script is installed elsewhere than it lies in the wheel: its $ORIGIN says nothing)
                    if src.startswith("/W/") and src[3:] not in x.moved and was.get((src, n)) == lib.real: raise Violation(f"loading {np}: {o[3:]} was bound to {lib.real[3:]} for {n} and now is to {got}")
                    ctx.label("wheel library not found by the loader before either")
                    continue
                todo.append((got, lib.real, lib.real[3:] if lib.real[3:] in A.trees else own))
    ctx.nontrivial(total > 0)
    if total > 2: ctx.label("several references")
    if any(inner for _, _, inner in x.grafted.values()): ctx.label("grafted libraries need each other")
    names = {}
    for real in x.grafts:
        names.setdefault(posixpath.basename(real), set()).add(x.grafts[real])
    if any(len(v) > 1 for v in names.values()): ctx.label("same name, other content")


def same(a, b, what):
    for s in (".rodata", ".text", ".data"):
        if a.section_bytes(s) != b.section_bytes(s): raise Violation(f"{what}: section {s} differs")


# ------------------------------------------------------------------ real loader
def instrument(case):
    """every library defines v_<file>, every file g<i> calling what it needs"""
    k = 0

    def ident(s):
        return "".join(c if c.isalnum() else "_" for c in s)
    vals = {}
    groups = [(f"/W/{m['p']}", m) for m in case["members"] if "elf" in m]
    for d, fs in case["dirs"].items():
        groups += [(f"/X/{d}/{n}", f) for n, f in fs.items() if "elf" in f]
    # names under which a file can be asked for
    alias = {}
    for p, n in groups: alias.setdefault(p, {posixpath.basename(p)})
    V = model.World(case).vfs
    for p, n in V.nodes.items():
        if "link" in n and V.real(p): alias.setdefault(V.real(p), set()).add(posixpath.basename(p))
    for p, n in groups:
        k += 1
        s = n["elf"]
        if s.get("machine", "x86_64") != "x86_64": continue
        s["defs"] = [d for d in s.get("defs") or [] if d["n"].startswith("PyInit")]
        for a in sorted(alias[p]):
            s["defs"].append({"n": "v_" + ident(a), "ret": 1000 + k})
        for q in s.get("needed") or []:
            if q.startswith(("libc.", "libm.", "libdl.")): continue
            s["defs"].append({"n": f"g_{k}_{ident(q)}", "call": "v_" + ident(q), "add": 0})
        vals[p] = k
    return vals, ident


def check_run(case, ctx):
    vals, ident = instrument(case)
    res = repairs.run_and_expect(case, ctx)
    if res is None: return
    m, x, r, w = res
    if x.ambiguous: raise Skip
    V = model.World(case, m.real).vfs
    where = os.path.join(ctx.dir, "elsewhere", "site")
    os.makedirs(where)
    with zipfile.ZipFile(w.path) as z: z.extractall(where)
    shutil.move(m.X, m.X + "-gone")
    os.remove(m.wheel)
    jobs = []
    for p, t in x.A.trees.items():
        if t.spec.get("interp") or t.spec.get("machine") != "x86_64": continue
        if not all(l.real is not None for s, l in t.libs.items() if not s.startswith(("libc.", "libm.", "libdl.")) and not repairs.is_libpy(s)): continue
        want = {}
        conflict = False
        k = vals["/W/" + p]
        owner = {}
        for s, l in t.libs.items():
            if l.real in vals: owner.setdefault(ident(s), set()).add(l.real)
        for rq, tsrc in [("/W/" + p, t.spec)] + [(l.real, l.spec) for l in t.libs.values() if l.real in vals]:
            if rq.startswith("/W/") and rq[3:] in x.A.trees and rq[3:] != p:
                # a library of the wheel is bound as it is on its own, whoever loads it
                o = x.A.trees[rq[3:]].libs
                if any(q in o and q in t.libs and o[q].real != t.libs[q].real for q in tsrc.get("needed") or []): conflict = True
            for q in tsrc.get("needed") or []:
                if q in t.libs and t.libs[q].real in vals:
                    if any("v_" + ident(q) in [d["n"] for d in V.nodes[o.real]["elf"]["defs"]] for o in t.libs.values() if o.real in vals and o.real != t.libs[q].real): conflict = True
                    if "v_" + ident(q) in [d["n"] for d in t.spec["defs"]]: conflict = True
                    want[f"g_{vals[rq]}_{ident(q)}"] = 1000 + vals[t.libs[q].real]
        if conflict: ctx.label("symbol clash"); continue
        # is it loadable at all: what the wheel's own libraries need of each other must be found by the real loader
        inw = {q for rq, ts in [("/W/" + p, t.spec)] + [(l.real, l.spec) for l in t.libs.values() if l.real in vals] for q in ts.get("needed") or [] if q in t.libs and (t.libs[q].real or "").startswith("/W/")}
        jobs.append((p, want, bool(inw)))
    if not jobs: return
    ctx.nontrivial(any(x.map.get(p) for p, _, _ in jobs))
    rt = {p: (lambda b: [str(k) for k in b])(x.map.get(p, {})) for p, _, _ in jobs}
    for p, want, inw in jobs:
        f = os.path.join(where, x.moved.get(p, p))

        def go():
            import ctypes
            lib = ctypes.CDLL(f, mode=os.RTLD_NOW)
            got = {}
            for n in want:
                try:
                    fn = getattr(lib, n)
                except AttributeError:
                    got[n] = None
                    continue
                fn.restype = ctypes.c_int
                got[n] = fn()
            with open("/proc/self/maps") as fh: maps = {l.split(None, 5)[5].strip() for l in fh if len(l.split(None, 5)) > 5}
            return got, sorted(q for q in maps if q.startswith(ctx.dir))
        q = harness.api(go, cwd=m.cwd, env={})
        if q.exc or q.rc != 0:
            if inw and not loadable_before(case, m, x, p): ctx.label("not loadable before either"); continue
            raise Violation(f"{p} ({rt[p]}) does not load: {q.err[-700:]}\n" + describe(w))
        got, maps = q.value
        if got != want: raise Violation(f"{p}: calls reach {got}, expected {want}")
        stray = [q for q in maps if not q.startswith(where + "/")]
        if stray: raise Violation(f"{p} loads {stray}")


def loadable_before(case, m, x, p):
    """could the loader open the original file, with everything in its place?"""
    V = model.World(case, m.real).vfs
    orig = {}
    for q, n in V.nodes.items():
        if q.startswith("/X/"):
            rp = V.real(q)
            if rp is None or "elf" not in V.nodes[rp]: continue
            n = V.nodes[rp]
        if "elf" in n: orig[m.real(q)] = of_spec(n["elf"], m.X)
    b = repairs.LdSo(orig, env=[m.real(p) for p in case.get("env_paths") or []], conf=[m.real(p) for p in case.get("ld_paths") or []]).load("/W/" + p)
    return all(v is not None for (q, s), v in b.items() if s not in x.pol.white)


def describe(w):
    return "\n".join(f"{n}: needs {e.needed} soname {e.soname} rpath {e.rpath} runpath {e.runpath}" for n, e in w.elves().items())


PROP = Prop("C09", [
    Leg("closure", lambda t: repairs.repair_world(pylib=4, inherit=20), check_struct, 640, 16000),
    Leg("borrowed", lambda t: worlds.borrow_world(opts=True), check_struct, 400, 10000),
    Leg("dlopen", lambda t: repairs.repair_world(run=True, libcs=("glibc",), nodot=0), check_run, 560, 12000),
], rule="a wheel with extension modules, own libraries and executables over a graph of external libraries; non-trivial: at least one reference to a grafted library was followed",
    technique="property-based testing (Hypothesis): repair of generated wheels, resolution by a reference loader, and dlopen of the result by the real loader",
    level_note="Random search. Closure of every file's dependencies is recomputed with an independent model of the dynamic loader for all architectures; for x86-64 the real glibc loader opens each file with the original libraries gone and every call must reach the original library's code. Trusts: ELF writer and reader, patchelf's output being loadable where not executed.")
