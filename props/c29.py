"""C29: wheel filenames are understood exactly."""
from hypothesis import strategies as st

from vlib.harness import Leg, Prop, Violation
from vlib.names import ARCH, arch_of, libc_of

PREFIX = ["linux", "manylinux1", "manylinux2010", "manylinux2014", "manylinux_2_5", "manylinux_2_17", "manylinux_2_39", "manylinux_2_100",
          "musllinux_1_1", "musllinux_1_2", "android_21", "android_24", "android_35", "macosx_10_9", "freebsd_13", "xlinux"]
UNKNOWN = ["win32", "win_amd64", "macosx_10_9_universal2", "linux_mips64", "manylinux2014_sparc", "linux", "foo", "linux_x86_64_v5", "any_x", "manylinux", "android_21",
           "linux_ppc64el", "linux_arm", "linux_armv7", "musllinux_1_1_x86", "linuxx86_64", "manyany"]


@st.composite
def case(draw):
    a = draw(st.sampled_from(sorted(ARCH)))
    same = [x for x in ARCH if ARCH[x] == ARCH[a]]
    libc = draw(st.sampled_from(["manylinux", "musllinux", "android", None]))
    coherent = draw(st.integers(0, 9)) < 5
    n = draw(st.integers(1, 5))
    tags = []
    for _ in range(n):
        k = draw(st.integers(0, 19))
        if not coherent and k < 2: tags.append("any")
        elif not coherent and k < 5: tags.append(draw(st.sampled_from(UNKNOWN)))
        else:
            pool = PREFIX
            if coherent and libc: pool = [p for p in PREFIX if libc_of(p) in (None, libc_of(libc + "_"))]
            if coherent or draw(st.integers(0, 3)): ar = draw(st.sampled_from(same))
            else: ar = draw(st.sampled_from(sorted(ARCH)))
            tags.append(draw(st.sampled_from(pool)) + "_" + ar)
    if draw(st.integers(0, 19)) == 0: tags = ["any"] * draw(st.integers(1, 2))
    if draw(st.integers(0, 3)) == 0: tags.append(draw(st.sampled_from(tags)))
    tags = draw(st.permutations(tags))
    name = draw(st.sampled_from(["foo", "Foo_Bar", "x86_64", "any", "manylinux1_x86_64", "a.b", "linux_i686", "f2"]))
    ver = draw(st.sampled_from(["1", "1.0", "0.1.dev3+x86_64.any", "1!2.0", "2024.1rc1", "1.0.post2"]))
    build = draw(st.sampled_from(["", "", "1", "2_i686", "3any", "2b", "10", "0_x", "1.2", "4.cp312"]))
    py = draw(st.sampled_from(["cp312", "py3", "py2.py3", "cp38.cp39", "pp310"]))
    abi = draw(st.sampled_from(["cp312", "none", "abi3", "none.abi3", "cp38m"]))
    return {"tags": tags, "stem": "-".join(x for x in (name, ver, build, py, abi) if x), "name": name, "ver": ver, "build": build}


def check(c, ctx):
    from auditwheel.error import NonPlatformWheelError
    from auditwheel.wheeltools import WheelToolsError, get_wheel_architecture, get_wheel_libc
    fn = c["stem"] + "-" + ".".join(c["tags"]) + ".whl"
    tags = c["tags"]
    archs = {arch_of(t) for t in tags if t != "any"}
    if set(tags) == {"any"}: want = "pure"
    elif "any" in tags or None in archs or len(archs) != 1: want = "reject"
    else: want = archs.pop()
    try:
        got = get_wheel_architecture(fn).value
    except NonPlatformWheelError: got = "pure"
    except WheelToolsError: got = "reject"
    if got != want: raise Violation(f"architecture of {fn}: {got}, expected {want}")
    libcs = {libc_of(t) for t in tags} - {None}
    wl = libcs.pop() if len(libcs) == 1 else "reject"
    try:
        gl = get_wheel_libc(fn).value
    except WheelToolsError: gl = "reject"
    if gl != wl: raise Violation(f"libc of {fn}: {gl}, expected {wl}")
    try:
        from auditwheel.wheeltools import get_wheel_platforms
    except ImportError:
        get_wheel_platforms = None
    if get_wheel_platforms:
        gp = list(get_wheel_platforms(fn))
        if gp != sorted(set(tags)): raise Violation(f"platform tags of {fn}: {gp}")
    try:
        from auditwheel.wheeltools import WHEEL_INFO_RE
    except ImportError:
        WHEEL_INFO_RE = None
    if WHEEL_INFO_RE and "name" in c:      # from which the names of the grafts' directory and the SBOM are made
        g = WHEEL_INFO_RE(fn)
        if not g or (g["name"], g["ver"], g["build"] or "") != (c["name"], c["ver"], c["build"]): raise Violation(f"name, version and build of {fn}: {g and (g['name'], g['ver'], g['build'])}")
    ctx.label("arch:" + want, "libc:" + wl)
    ctx.nontrivial(len(set(tags)) > 1)


PROP = Prop("C29", [Leg("names", lambda t: case(), check, 16000, 400000)],
            rule="a filename of 1-6 platform tags (known, unknown, any, duplicates) with odd name/version/build/python parts; non-trivial: at least two different platform tags",
            technique="property-based testing (Hypothesis) against an independent filename parser",
            level_note="Random search over generated filenames; the oracle is an independent parser. Trusts: packaging's acceptance of the generated names.")
