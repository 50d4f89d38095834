"""Stand-ins for system package managers: programs that answer from a table."""
from __future__ import annotations

import os

from . import harness

DPKG = r"""#!/bin/sh
case "$1" in
  --version) exit {avail};;
  -S) grep -Fq -e "|$2|" {tab} || {{ echo "dpkg-query: no path found matching pattern $2" >&2; exit 1; }}
      awk -F'|' -v p="$2" '$2 == p {{ print $5 ": " p }}' {tab};;
  -s) awk -F'|' -v n="$2" 'BEGIN {{ r = 1 }} ($3 == n) && !d {{ print "Package: " n "\nStatus: install ok installed\nSource: zlib (1:9.9)\nVersion: " $4 "\nConfig-Version: 0\nDescription: x\n Version: y"; r = 0; d = 1 }} END {{ exit r }}' {tab} || {{ echo "dpkg-query: package '$2' is not installed" >&2; exit 1; }};;
  *) exit 2;;
esac
"""
RPM = r"""#!/bin/sh
case "$1" in
  --version) exit {avail};;
  -qf) grep -Fq -e "|$4|" {tab} || {{ echo "file $4 is not owned by any package"; exit 1; }}
       awk -F'|' -v p="$4" '$2 == p {{ printf "%s", $5 }}' {tab};;
  *) exit 2;;
esac
"""
APK = r"""#!/bin/sh
case "$1" in
  --version) exit {avail};;
  info) grep -Fq -e "|$3|" {tab} || {{ echo "ERROR: $3: Could not find owner package" >&2; exit 1; }}
        awk -F'|' -v p="$3" '$2 == p {{ print p " is owned by " $5 }}' {tab};;
  *) exit 2;;
esac
"""
APTFILE = r"""#!/bin/sh
case "$1" in
  --version) exit 2;;
  search) {avail_f}
     echo "Finding relevant cache files to search ..." >&2
     while read -r p || [ -n "$p" ]; do awk -F'|' -v p="$p" 'index($2, p) {{ print $5 ": " $2 }}' {tab}; done;;
  *) exit 2;;
esac
"""
APT = r"""#!/bin/sh
case "$1" in
  --version) exit {avail};;
  show) awk -F'|' -v n="$2" '$3 == n && !d {{ print "Package: " n "\nVersion: " $4 "\nPriority: optional"; d = 1 }}' {tab};;
  *) exit 2;;
esac
"""
PROGS = {"dpkg": DPKG, "rpm": RPM, "apk": APK, "apt-file": APTFILE, "apt": APT}

NAMES = {"dpkg": ["libfoo1", "libstdc++6", "libc6-dev", "lib.x0", "a2", "libgtk-3-0t64"], "rpm": ["libfoo", "libstdc++", "compat-openssl11", "python3.11-libs", "glib_2"],
         "apk": ["libfoo", "libstdc++", "gcc-libs", "py3-zlib-ng", "icu-data-en", "abc1-2"], "apt-file": ["libzzz1", "lib-y++2", "libq"]}
VERS = {"dpkg": ["1.0", "1:2.3.4-5ubuntu6.1", "2.0~rc1+dfsg-1", "0.1+b2"], "rpm": [("1.2", "3.el9"), ("1.2^git1", "4.fc40_2"), ("2~rc1", "0")], "apk": ["1.2.3-r0", "20240101-r12", "1.0_git20200101-r3", "3.1a-r2"],
        "apt-file": ["5.0-1", "3:1~x-2"]}


def draw_pkgs(g, files):
    """files: virtual library files -> what the package managers know"""
    mgr = g.one(["dpkg", "dpkg", "rpm", "apk", "none"])
    own = {}
    ver = {}
    one = g.one(NAMES.get(mgr, ["x"])) if g.p(25) else None      # a package with many libraries
    for v in files:
        if g.p(75):
            n = one or g.one(NAMES.get(mgr, ["x"]))
            if n not in ver: ver[n] = g.one(VERS.get(mgr, ["x"]))
            own[v] = [n, ver[n], g.n(0, 3)]
    apt = {}
    af = g.one([None, None, "ok", "ok", "fails"])
    if af:
        for v in files:
            if g.p(40):
                n = g.one(NAMES["apt-file"])
                if n not in ver: ver[n] = g.one(VERS["apt-file"])
                apt[v] = [n, ver[n]]
    return {"mgr": mgr, "own": own, "aptfile": af, "apt": apt, "others": g.p(40)}


def install(pk, m, extra=()):
    """writes the stand-ins; returns the PATH to use"""
    d = os.path.join(m.root, "pkgbin"); os.makedirs(d, exist_ok=True)
    rows = {k: [] for k in PROGS}
    mgr = pk["mgr"]
    for v, (n, ver, k) in pk["own"].items():
        r = m.real(v)
        if mgr == "dpkg": rows["dpkg"].append(("", r, n, ver, n + (":amd64" if k == 1 else "")))
        elif mgr == "rpm": rows["rpm"].append(("", r, n, "-".join(ver), f"{n} {ver[0]} {ver[1]} x86_64"))
        elif mgr == "apk": rows["apk"].append(("", r, n, ver, f"{n}-{ver}"))
    for v, (n, ver) in pk["apt"].items(): rows["apt-file"].append(("", m.real(v), n, ver, n))
    if pk["others"]:     # packages that contain other files
        for t in rows: rows[t].append(("", "/usr/lib/other", "other", "1", "other")); rows[t].append(("", m.X + "/d0/libe0.so.1.unrelated", "other", "9", "other"))
    rows["apt"] = rows["apt-file"]
    for t, src in PROGS.items():
        tab = os.path.join(d, t + ".tab")
        with open(tab, "w") as f: f.writelines("|".join(r) + "|\n" for r in rows[t])
        up = t == mgr or (t in ("apt", "apt-file") and pk["aptfile"])
        if not up and t in ("rpm", "apk", "apt-file"): continue
        with open(os.path.join(d, t), "w") as f: f.write(src.format(tab=tab, avail=0 if up else 1, avail_f="exit 3" if pk["aptfile"] == "fails" else ""))
        os.chmod(os.path.join(d, t), 0o755)
    return d + ":" + harness.BASE_ENV["PATH"]


def provider(pk, v):
    """(type, name, version) of the package that provides the file"""
    if pk["mgr"] != "none" and v in pk["own"]:
        n, ver, _ = pk["own"][v]
        return {"dpkg": "deb"}.get(pk["mgr"], pk["mgr"]), n, "-".join(ver) if pk["mgr"] == "rpm" else ver
    if pk["aptfile"] == "ok" and v in pk["apt"]:
        return "deb", *pk["apt"][v]
    return None


def lib_files(case):
    return sorted(f"/X/{d}/{n}" for d, fs in case["dirs"].items() for n, f in fs.items() if "link" not in f)
