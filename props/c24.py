"""C24: unpacking and repacking loses nothing and escapes nowhere."""
import hashlib
import os
import random
import shutil
import stat
import zipfile
from datetime import datetime, timezone

from hypothesis import strategies as st

from vlib import harness, worlds
from vlib.harness import Leg, Prop, Violation
from vlib.wheelgen import Mat, tree_state, write_wheel
from vlib import wheelgen

COMP = ["a", "b", "pkg", "ü", "日本語", "x y", "a,b", 'q"', "it's", ".hid", "..a", "a..", "a.b.c", "\\b", "%", "#1", "n\nl", "t\tx", "\u2028", "\x85", "\x1c", "-x", "~", "A", "RECORD", "x" * 200, "foo-1.0.dist-info", "e\u0301", "\U0001f600", "con", "a:b", "*", "&lt;"]
MODES = [0o644, 0o755, 0o600, 0o444, 0o400, 0o777, 0o000, 0o111, 0o4755, 0o2755, 0o1644, 0o640, 0o070, None]


def blob(d):
    if isinstance(d, str): return d.encode()
    r = random.Random(d[0])
    return r.randbytes(d[1]) if d[2] else (b"%d" % d[0]) * d[1]


@st.composite
def archive(draw):
    g = worlds.G(draw)
    mem = []
    isfile, isdir = set(), set()
    for _ in range(g.n(0, 9)):
        parts = [g.one(COMP) for _ in range(g.one([1, 1, 2, 2, 3, 5]))]
        name = "/".join(parts)
        pre = {"/".join(parts[:i]) for i in range(1, len(parts))}
        d = g.p(20)
        if pre & isfile or (name in isfile if d else name in isdir) or len(name.encode()) > 900: continue
        isdir |= pre
        (isdir if d else isfile).add(name)
        mem.append({"n": name + "/" * d, "data": "" if d else g.one(["", "x", "hello\n", "\r\n\x00", [g.n(0, 9), 4096, 1], [g.n(0, 9), 70000, 0], [g.n(0, 9), 200000, 1]]),
                    "mode": g.one(MODES + [0o755] * 3), "kind": g.one(["reg"] * 8 + ["link", "none"]), "comp": g.one([0, 8, 8, 12, 14]), "sys": g.one([3, 3, 3, 0]), "date": g.one([1980, 1999, 2024, 2107])})
        if not d and g.p(8): mem.append({**mem[-1], "data": "second", "mode": g.one(MODES)})
    return {"mem": mem, "umask": g.one([0o022, 0o077, 0, 0o027]), "z": g.one([-1, -1, 0, 1, 6, 9]), "ts": g.one([None, 0, 315532800, 1577836801, 4000000000, -5, 1234567890]), "cwd": g.one([0, 1])}


def put(z, mm, name=None):
    zi = zipfile.ZipInfo(name or mm["n"], (mm.get("date", 2020), 1, 2, 3, 4, 6))
    zi.compress_type = mm.get("comp", 8)
    zi.create_system = mm.get("sys", 3)
    kind = {"reg": stat.S_IFDIR if mm["n"].endswith("/") else stat.S_IFREG, "link": stat.S_IFLNK, "none": 0}[mm.get("kind", "reg")]
    if mm["n"].endswith("/") and kind == stat.S_IFLNK: kind = stat.S_IFDIR
    attr = 0 if mm["mode"] is None else (kind | mm["mode"]) << 16
    zi.external_attr = attr
    z.writestr(zi, blob(mm["data"]))
    zi.external_attr = attr      # zipfile replaces zero


def make(case, path):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with zipfile.ZipFile(path, "w") as z:
            for mm in case["mem"]: put(z, mm)


def check_round(case, ctx):
    a, t, b, u = (os.path.join(ctx.dir, x) for x in ("a.zip", "t", "out/b.zip", "u"))
    make(case, a)
    os.mkdir(t); os.mkdir(u); os.mkdir(os.path.dirname(b))
    h = open(a, "rb").read()
    files, dirs = {}, set()
    for mm in case["mem"]:
        n = mm["n"].rstrip("/")
        for i in range(1, n.count("/") + 1): dirs.add("/".join(n.split("/")[:i]))
        if mm["n"].endswith("/"): dirs.add(n)
        else:
            attr = mm["mode"] if mm["mode"] is not None else 0
            if mm["mode"] is not None and mm.get("kind") != "none": attr |= 1 << 12
            files[n] = (blob(mm["data"]), (attr & 0o777 | 0o600) if attr else 0o644)
    ts = case["ts"]
    when = None if ts is None else datetime.fromtimestamp(ts, tz=timezone.utc)

    def go():
        from pathlib import Path
        from auditwheel.tools import dir2zip, zip2dir
        if case["cwd"]:
            os.chdir(ctx.dir)
            zip2dir(Path("a.zip"), Path("t")); dir2zip(Path("t"), Path("out/b.zip"), case["z"], when); zip2dir(Path("out/b.zip"), Path("u"))
        else:
            zip2dir(Path(a), Path(t)); dir2zip(Path(t), Path(b), case["z"], when); zip2dir(Path(b), Path(u))
        return os.stat(t).st_mtime
    r = harness.api(go, cwd="/", umask=case["umask"])
    if r.exc or r.rc: raise Violation(f"unpacking and packing {[m['n'] for m in case['mem']]} fails: {r!r}")
    for root in (t, u):
        st_ = tree_state(root)
        gf = {p[len(root) + 1:]: v for p, v in st_.items() if v[0] != "d"}
        gd = {p[len(root) + 1:] for p, v in st_.items() if v[0] == "d" and p != root}
        if set(gf) != set(files) or gd != dirs: raise Violation(f"{root[-1]}: files {sorted(gf)}, directories {sorted(gd)}; expected {sorted(files)}, {sorted(dirs)}")
        for n, (d, m) in files.items():
            if gf[n][0] != "f" or gf[n][2] != hashlib.sha256(d).hexdigest(): raise Violation(f"{n}: content differs")
            if gf[n][1] != m: raise Violation(f"{n}: unpacked with permissions {gf[n][1]:o}, expected {m:o}")
        for n in ({mm["n"].rstrip("/") for mm in case["mem"] if mm["n"].endswith("/")} if root == t else dirs):
            if st_[root + "/" + n][1] != 0o755: raise Violation(f"directory {n}: unpacked with permissions {st_[root + '/' + n][1]:o}")
    if open(a, "rb").read() != h or sorted(os.listdir(ctx.dir)) != ["a.zip", "out", "t", "u"] or os.listdir(os.path.dirname(b)) != ["b.zip"]: raise Violation(f"files left: {os.listdir(ctx.dir)}, {os.listdir(os.path.dirname(b))}")
    with zipfile.ZipFile(b) as z:
        names = z.namelist()
        if len(set(names)) != len(names) or set(names) != set(files) | {d + "/" for d in dirs}: raise Violation(f"packed {sorted(names)}, expected {sorted(files)} and {sorted(dirs)}")
        if z.testzip(): raise Violation("the packed archive is damaged")
        want = (datetime.fromtimestamp(r.value, tz=timezone.utc) if when is None else when).timetuple()[:6]
        want = max(want, (1980, 1, 1, 0, 0, 0))
        want = want[:5] + (want[5] // 2 * 2,)
        for zi in z.infolist():
            at = zi.external_attr >> 16
            if zi.filename.endswith("/"):
                if at != 0o40755: raise Violation(f"{zi.filename}: packed with mode {at:o}")
            else:
                d, m = files[zi.filename]
                if at != stat.S_IFREG | m: raise Violation(f"{zi.filename}: packed with mode {at:o}, expected {m:o}")
                if z.read(zi) != d: raise Violation(f"{zi.filename}: packed content differs")
                if case["z"] == 0 and zi.compress_size < len(d) and d: raise Violation(f"{zi.filename}: compressed at level 0")
                if case["z"] > 0 and len(d) == 70000 and zi.compress_size > 7000: raise Violation(f"{zi.filename}: not compressed at level {case['z']}")
            if zi.date_time != want: raise Violation(f"{zi.filename}: time stamp {zi.date_time}, expected {want}")
    ctx.nontrivial(len(files) > 1)
    ctx.label(f"level:{case['z']}", "umask:%03o" % case["umask"])


# ------------------------------------------------------------------ containment
EVIL = ["..", "..", "..", ".", "", "v", "sub", "victim", "tmp", "x"]


@st.composite
def evil(draw):
    g = worlds.G(draw)
    mem = []
    for _ in range(g.n(1, 6)):
        parts = []
        for _ in range(g.n(1, 6)):
            c = g.one(EVIL)
            if c == ".." and parts.count("..") >= 3: c = "v"
            parts.append(c)
        if all(p in ("", ".", "..") for p in parts): parts.append("f")
        n = "/".join(parts)
        if g.p(25): n = "@/" + n          # absolute, inside the scratch directory
        elif n.startswith("/"): n = "r" + n
        mem.append({"n": n + ("/" if g.p(15) else ""), "data": "evil", "mode": g.one([0o644, 0o777, 0o755, None, 0o4777]), "kind": g.one(["reg", "reg", "link"])})
        if mem[-1]["kind"] == "link": mem[-1]["data"] = g.one(["..", "../..", "../victim", "@/b/victim", "victim", "../../v"])
    if g.p(50):     # a link, then a member below it
        mem.append({"n": "lnk", "data": g.one(["..", "../..", "@/b", "@/b/c"]), "mode": 0o777, "kind": "link"})
        mem.append({"n": "lnk/" + g.one(["victim", "new", "v"]), "data": "evil", "mode": 0o644, "kind": "reg"})
    return {"mem": mem}


def cage(ctx):
    """a nest of directories of an unprivileged user around the target"""
    base = os.path.join(ctx.dir, "base")
    d = base
    for c in ("b", "c", "d", "e"):
        d = os.path.join(d, c)
        os.makedirs(d)
        for n in ("victim", "v"):
            with open(os.path.join(d, n), "w") as f: f.write("precious " + d[len(base):])
    t = os.path.join(d, "t")
    os.mkdir(t)
    for q, _, fs in os.walk(base):
        os.chown(q, 65534, 65534)
        for n in fs: os.chown(os.path.join(q, n), 65534, 65534)
    p = ctx.dir
    while len(p) > len("/tmp"):
        os.chmod(p, os.stat(p).st_mode & 0o777 | 0o711)
        p = os.path.dirname(p)
    return base, t


def outside(base, t):
    return {p: v for p, v in tree_state(base).items() if p != t and not p.startswith(t + "/")}


def check_evil(case, ctx):
    base, t = cage(ctx)
    a = os.path.join(ctx.dir, "a.zip")
    for mm in case["mem"]:
        mm["n"] = mm["n"].replace("@", base)
        mm["data"] = mm["data"].replace("@", base)
    make(case, a)
    os.chmod(a, 0o644)
    before = outside(base, t)

    def go():
        from pathlib import Path
        from auditwheel.tools import zip2dir
        zip2dir(Path(a), Path(t))
    r = harness.api(go, cwd=t, uid=65534)
    after = outside(base, t)
    if after != before:
        d = [p[len(base):] for p in sorted(set(before) | set(after)) if before.get(p) != after.get(p)]
        raise Violation(f"unpacking {[m['n'] for m in case['mem']]} changed {d} outside {t[len(base):]}")
    for q, ds, fs in os.walk(t):
        for n in ds + fs:
            p = os.path.join(q, n)
            if os.path.islink(p) and not os.path.realpath(p).startswith(t + "/"): raise Violation(f"unpacking creates a link {p[len(t):]} to {os.readlink(p)}")
    ctx.nontrivial(any(".." in m["n"].split("/") or m["n"].startswith("/") or m["kind"] == "link" for m in case["mem"]))
    ctx.label("unpacked" if r.rc == 0 else "refused")


# ------------------------------------------------------------------ through the commands
@st.composite
def evil_wheel(draw):
    g = worlds.G(draw)
    cmd = g.one(["show", "repair", "repair", "repair-strip"])
    rec = []
    for _ in range(g.one([1, 1, 2, 3, 0])):
        rec.append(g.one(["../" * g.n(1, 3) + g.one(["victim.so", "tmp/victim.so", "e/victim.so", "out/victim.so", "nothing.so"]), "@/b/c/victim.so", "@/b/c/d/e/victim.so", "pkg/../../victim.so", "./pkg/../../e/victim.so", "@/nothing.so"]))
    return {"cmd": cmd, "rec": rec, "mem": g.p(40), "pos": g.p(50)}


def check_wheel(case, ctx):
    """RECORD and members point outside; the files there must not be touched"""
    base, t = cage(ctx)
    lib = {"machine": "x86_64", "needed": ["libq.so.1", "libc.so.6"], "soname": "victim.so"}
    w = {"name": "foo", "ver": "1.0", "py": "cp312", "abi": "cp312", "plats": ["linux_x86_64"],
         "members": [{"p": "pkg/_x.so", "elf": {"machine": "x86_64", "needed": ["libq.so.1", "libc.so.6"], "defs": [{"n": "PyInit__x", "ret": 1}]}, "mode": 0o755}],
         "dirs": {}}
    from vlib.elfgen import build
    for q in ("b", "b/c", "b/c/d", "b/c/d/e"):
        with open(f"{base}/{q}/victim.so", "wb") as f: f.write(build(lib))
        os.chown(f"{base}/{q}/victim.so", 65534, 65534)
    for n in ("tmp", "out", "lib", "in"):
        os.mkdir(f"{t}/{n}")
        os.chown(f"{t}/{n}", 65534, 65534)
    for n in ("tmp", "out"):
        with open(f"{t}/{n}/victim.so", "wb") as f: f.write(build(lib))
        os.chown(f"{t}/{n}/victim.so", 65534, 65534)
    with open(f"{t}/lib/libq.so.1", "wb") as f: f.write(build({"machine": "x86_64", "needed": ["libc.so.6"], "soname": "libq.so.1"}))
    wheel = f"{t}/in/foo-1.0-cp312-cp312-linux_x86_64.whl"
    write_wheel(w, wheel)
    with zipfile.ZipFile(wheel) as z: items = [(i.filename, i.external_attr, z.read(i)) for i in z.infolist()]
    rows = [r.replace("@", base) for r in case["rec"]]
    with zipfile.ZipFile(wheel, "w") as z:
        for n, at, d in items:
            if n.endswith("RECORD"):
                extra = "".join(f"{r},,\n" for r in rows).encode()
                d = extra + d if case["pos"] else d + extra
            zi = zipfile.ZipInfo(n); zi.external_attr = at
            z.writestr(zi, d)
        if case["mem"]:
            for r in dict.fromkeys(rows): z.writestr(zipfile.ZipInfo(r), build(lib))
    state = lambda: {p: v for p, v in tree_state(base).items() if p != t + "/tmp"}
    before = state()
    args = ["show", wheel] if case["cmd"] == "show" else ["repair", "-w", f"{t}/out", "--ldpaths", f"{t}/lib", wheel] + (["--strip"] if "strip" in case["cmd"] else [])
    r = harness.cli(args, cwd=t, uid=65534, tmpdir=f"{t}/tmp")
    after = state()
    for p in set(after) | set(before):
        if before.get(p) != after.get(p) and not (case["cmd"] != "show" and p.startswith(t + "/out/") and p.endswith(".whl")):
            raise Violation(f"{case['cmd']} of a wheel whose RECORD lists {rows} changed {p[len(base):]}: {r!r}")
    if os.listdir(f"{t}/tmp") != ["victim.so"]: raise Violation(f"{case['cmd']} with RECORD lines {rows} leaves {os.listdir(t + '/tmp')} in the temporary directory: {r!r}")
    if not rows and r.rc: raise Violation(f"{args} fails without hostile names: {r!r}")
    if case["cmd"] != "show" and r.rc == 0:
        outs = [n for n in os.listdir(f"{t}/out") if n.endswith(".whl")]
        with zipfile.ZipFile(f"{t}/out/{outs[0]}") as z:
            if any(n.startswith("/") or ".." in n.split("/") for n in z.namelist()): raise Violation(f"the repaired wheel has {z.namelist()}")
    ctx.nontrivial(bool(rows))
    ctx.label(case["cmd"] + (" ok" if r.rc == 0 else " refused"))


# ------------------------------------------------------------------ temporary directories
ERR = ["OSError", "FileNotFoundError", "PermissionError", "RuntimeError", "CalledProcessError", "NonPlatformWheelError", "WheelToolsError", "BadZipFile", "GeneratorExit", "LookupError", "AssertionError", "MemoryError"]


def error(name):
    import builtins
    import subprocess

    from auditwheel import error as aw
    if name == "CalledProcessError": return subprocess.CalledProcessError(1, "patchelf")
    if name == "NonPlatformWheelError": return aw.NonPlatformWheelError(None, None)
    if name == "BadZipFile": return zipfile.BadZipFile("body")
    return (getattr(builtins, name, None) or getattr(aw, name))("body")


@st.composite
def nests(draw):
    g = worlds.G(draw)
    out = []
    for _ in range(g.n(1, 4)):
        k = g.one(["tmp", "tmp", "given", "given-new", "given-rel", "given-none", "wheel", "wheelctx", "wheel-bad"])
        out.append({"k": k, "body": g.one(["", "files", "chdir", "deep"] + ["ro"] * (k == "tmp")), "out": g.p(40)})
    return {"nest": out, "exc": g.one(["", "", "", "ValueError", "SystemExit", "KeyboardInterrupt", *ERR]), "uid": g.p(50)}


def check_tmp(case, ctx):
    base, t = cage(ctx)
    for n in ("tmp", "start", "given", "out", "in"):
        os.mkdir(f"{t}/{n}"); os.chown(f"{t}/{n}", 65534, 65534)
    wheel = f"{t}/in/foo-1.0-py3-none-any.whl"
    write_wheel({"name": "foo", "ver": "1.0", "py": "py3", "abi": "none", "plats": ["any"], "members": [{"p": "foo.py", "data": "x"}]}, wheel)
    bad = f"{t}/in/bad-1.0-py3-none-any.whl"
    with open(wheel, "rb") as f: b = bytearray(f.read())
    i = b.find(b"foo.py") + 8
    b[i] ^= 0xff; b[i + 1] ^= 0xff
    with open(bad, "wb") as f: f.write(b)

    def go():
        import contextlib
        import gc
        from pathlib import Path
        from auditwheel.tmpdirs import InGivenDirectory, InTemporaryDirectory
        from auditwheel.wheeltools import InWheel, InWheelCtx
        start = os.getcwd()
        log = []
        entered = []
        where = {}

        def body(what, i):
            if what == "files":
                open("f", "w").write("x"); os.makedirs("d/e", exist_ok=True)
            elif what == "chdir": os.chdir(t)
            elif what == "ro":
                os.makedirs("r/o", exist_ok=True); open("r/o/f", "w").close(); os.chmod("r/o/f", 0); os.chmod("r/o", 0o500); os.chmod("r", 0o500)
            elif what == "deep":
                for _ in range(5):
                    os.makedirs("x", exist_ok=True); os.chdir("x")

        def rel(i):
            """a relative path means what it means where the context is made"""
            cm = InGivenDirectory(Path(f"rel{i}"))
            where[i] = os.path.join(os.getcwd(), f"rel{i}")
            os.chdir(t)
            return cm

        def rec(i):
            if i == len(case["nest"]):
                if case["exc"]: raise error(case["exc"])
                return
            n = case["nest"][i]
            before = os.getcwd()
            k = n["k"]
            if k == "given-rel" and (not os.access(before, os.W_OK) or os.path.realpath(before) == os.path.realpath(t)): k = "given-none"
            try:
                cm = {"tmp": lambda: InTemporaryDirectory(), "given": lambda: InGivenDirectory(Path(f"{t}/given")), "given-new": lambda: InGivenDirectory(Path(f"{t}/given/new{i}")), "given-rel": lambda: rel(i),
                      "given-none": lambda: InGivenDirectory(),
                      "wheel": lambda: InWheel(Path(wheel), Path(f"{t}/out/o{i}.whl") if n["out"] else None), "wheelctx": lambda: InWheelCtx(Path(wheel), Path(f"{t}/out/o{i}.whl") if n["out"] else None),
                      "wheel-bad": lambda: InWheelCtx(Path(bad))}[k]()
                with cm as r:
                    here = r.path if k == "wheelctx" else r
                    if os.path.realpath(os.getcwd()) != os.path.realpath(here): log.append(f"{k}: working directory {os.getcwd()} is not {here}")
                    if k == "given-rel" and os.path.realpath(os.getcwd()) != os.path.realpath(where[i]): log.append(f"given-rel: working directory {os.getcwd()} is not {where[i]}")
                    if k in ("tmp", "wheel", "wheelctx") and not str(here).startswith(f"{t}/tmp/"): log.append(f"{k}: {here} is not in TMPDIR")
                    entered.append((k, str(here), n, i))
                    body(n["body"], i)
                    rec(i + 1)
            finally:
                cm = None
                if k == "given-rel" and os.getcwd() == t: os.chdir(before)
                if os.getcwd() != before: log.append(f"after {k}: working directory {os.getcwd()}, was {before}")
        got = ""
        try:
            rec(0)
        except BaseException as e:  # noqa: BLE001
            got = type(e).__name__
            e.__traceback__ = None
        gc.collect()
        if os.getcwd() != start: log.append(f"working directory {os.getcwd()} at the end")
        return log, got, [(a, b, c) for a, b, _, c in entered], os.listdir(f"{t}/tmp"), sorted(os.listdir(f"{t}/out"))
    r = harness.api(go, cwd=f"{t}/start", tmpdir=f"{t}/tmp", uid=65534 if case["uid"] else None)
    if r.exc: raise Violation(f"{r!r}")
    log, got, entered, left, outs = r.value
    if log: raise Violation(f"{log} for {case}")
    if left: raise Violation(f"temporary directories {left} are left")
    bad_at = next((i for i, n in enumerate(case["nest"]) if n["k"] == "wheel-bad"), None)
    want = case["exc"] if bad_at is None else None
    if want is not None and got != want: raise Violation(f"the block raises {want!r}, but {got!r} comes out: {r!r}")
    if bad_at is not None and not got: raise Violation("a damaged archive is opened without an error")
    wo = [] if got else sorted(f"o{i}.whl" for i, n in enumerate(case["nest"]) if n["k"] in ("wheel", "wheelctx") and n["out"])
    if outs != wo: raise Violation(f"written {outs}, expected {wo} after {got!r}")
    ctx.nontrivial(len(entered) > 1 or bool(got))
    ctx.label("raised " + got if got else "ended normally")


PROP = Prop("C24", [Leg("roundtrip", lambda t: archive(), check_round, 1600, 40000), Leg("members", lambda t: evil(), check_evil, 1200, 30000),
                    Leg("record", lambda t: evil_wheel(), check_wheel, 320, 6000), Leg("contexts", lambda t: nests(), check_tmp, 1200, 30000)],
            rule="a generated archive is unpacked and packed; archives and RECORDs with hostile names are processed inside a cage of an unprivileged user; directory contexts are nested and left by exceptions; non-trivial: more than one file, a name that points outside, more than one context or an exception",
            technique="property-based testing (Hypothesis): round trip against the generated archive, containment by snapshots of everything around the target",
            level_note="Random search; containment is tested as user nobody with at most three '..' below four directories of its own, so that an escape is seen but reaches nothing else.",
            assumptions=["archive members do not use one name for a file and a directory"])
