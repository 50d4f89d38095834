"""Independent reading of wheel platform tags."""
import re

ARCH = {"aarch64": "aarch64", "arm64_v8a": "aarch64", "armv7l": "armv7l", "i686": "i686", "loongarch64": "loongarch64",
        "ppc64": "ppc64", "ppc64le": "ppc64le", "riscv64": "riscv64", "s390x": "s390x",
        "x86_64": "x86_64", "x86_64_v2": "x86_64", "x86_64_v3": "x86_64", "x86_64_v4": "x86_64"}


def libc_of(t):
    for p, l in (("manylinux", "glibc"), ("musllinux", "musl"), ("android", "android")):
        if t.startswith(p): return l
    return None


def arch_of(t):
    best = None
    for a, b in ARCH.items():
        if t.endswith("_" + a) and (best is None or len(a) > len(best[0])): best = (a, b)
    return best[1] if best else None


def name_arch(tags):
    """baseline architecture, "any", or None when the name does not say"""
    if set(tags) == {"any"}: return "any"
    a = {arch_of(t) for t in tags if t != "any"}
    if "any" in tags or None in a or len(a) != 1: return None
    return a.pop()


def name_libc(tags):
    l = {libc_of(t) for t in tags} - {None}
    return l.pop() if len(l) == 1 else None


def android_tag(tags):
    if len(set(tags)) != 1: return None
    m = re.match(r"android_(\d+)", tags[0])
    return (tags[0], int(m[1])) if m else None
