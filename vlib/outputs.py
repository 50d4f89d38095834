"""Checks of a repaired wheel against its input and the repair model. Each raises Violation."""
from __future__ import annotations

import base64
import csv
import hashlib
import io
import os
import posixpath
import re

from . import repairs
from .elfread import Elf
from .harness import Violation
from .wheelgen import Whl, wheel_tags


def mode_of(m):
    return None if not m else m & 0o777


def payload(case, m, x, w, original=None):
    """C10"""
    src = original or Whl(m.wheel)
    di = src.di
    special = {di + "/RECORD", di + "/WHEEL"}
    gone = {n for n in src.files if n == di + "/RECORD.jws"}
    out = set(w.files)
    for n in src.files:
        if n in gone:
            if n in out: raise Violation(f"the signature {n} of the old RECORD is still there")
            continue
        if n not in out: raise Violation(f"{n} is lost")
        a, b = mode_of(src.mode[n]), mode_of(w.mode[n])
        want = (a | 0o600) if src.mode[n] else 0o644
        if b != want: raise Violation(f"{n}: permissions {b:o}, expected {want:o}")
        if n in special or n in x.rewired or n in x.moved: continue
        if src.data[n] != w.data[n]: raise Violation(f"{n} changed although there was no reason to: {src.data[n][:80]!r} -> {w.data[n][:80]!r}")
    for d in src.names:
        if d.endswith("/") and d not in w.names: raise Violation(f"directory {d} is lost")
    added = out - set(src.files)
    allowed = set(x.grafted) | set(x.moved.values()) | {di + "/sboms/auditwheel.cdx.json"}
    if added - allowed: raise Violation(f"unexpected files {sorted(added - allowed)}")
    if set(x.grafted) - out: raise Violation(f"grafted libraries missing: {sorted(set(x.grafted) - out)}; added {sorted(added)}")
    if set(x.moved.values()) - out: raise Violation(f"moved executables missing: {sorted(set(x.moved.values()) - out)}")
    dirs = {n for n in w.names if n.endswith("/")}
    need = set()
    for n in list(w.files) + [d for d in src.names if d.endswith("/")]:
        d = posixpath.dirname(n.rstrip("/"))
        while d:
            need.add(d + "/"); d = posixpath.dirname(d)
        if n.endswith("/"): need.add(n)
    if dirs - need: raise Violation(f"unexpected directories {sorted(dirs - need)}")
    if len(set(w.names)) != len(w.names): raise Violation("members are stored twice")
    if w.bad: raise Violation(f"{w.bad} is damaged")
    for np, (p, need, keep, new) in x.rewired.items():
        same_elf(Elf(src.data[p]), Elf(w.data[np]), {s: v for s, v in x.map[p].items() if v}, np)


def same_elf(a, b, names, what, strip=False):
    for f in ("machine", "flags", "osabi", "is64", "le", "type", "interp", "has_dynamic", "soname"):
        if getattr(a, f) != getattr(b, f): raise Violation(f"{what}: {f} {getattr(a, f)!r} -> {getattr(b, f)!r}")
    same_code(a, b, names, what, strip)


def same_code(a, b, names, what, strip=False):
    if a.dynsyms() != b.dynsyms() and [(n, i, d, s, vmap(v, names)) for n, i, d, s, v in a.dynsyms()] != [(n, i, d, s, v) for n, i, d, s, v in b.dynsyms()]:
        raise Violation(f"{what}: dynamic symbols {a.dynsyms()} -> {b.dynsyms()}")
    va = {names.get(k, k): [v for v, _ in x] for k, x in a.verneed().items()}
    vb = {k: [v for v, _ in x] for k, x in b.verneed().items()}
    if va != vb: raise Violation(f"{what}: symbol versions {va} -> {vb}")
    if [v for v, _, _ in a.verdef()][1:] != [v for v, _, _ in b.verdef()][1:]: raise Violation(f"{what}: defined versions {a.verdef()} -> {b.verdef()}")
    for s in (".text", ".rodata", ".data", ".note.gnu.property", ".note.gnu.build-id") + (() if strip else (".comment",)):
        if a.section_bytes(s) != b.section_bytes(s): raise Violation(f"{what}: section {s} changed")
    if not strip and (".symtab" in a.sections()) != (".symtab" in b.sections()): raise Violation(f"{what}: static symbols changed without --strip")
    def segs(e): return [e.b[o:o + f] for t, _, o, _, f, _, _ in e.ph if t == 4]
    if sorted(segs(a)) != sorted(segs(b)): raise Violation(f"{what}: notes changed")
    if a.entry and len(a.ph) and a.entry != b.entry: raise Violation(f"{what}: entry point {a.entry:#x} -> {b.entry:#x}")


def vmap(v, names):
    if v and v[0] == "need": return ("need", names.get(v[1], v[1]), v[2])
    return v


def record(w):
    """C11"""
    di = w.di
    rec = di + "/RECORD"
    if rec not in w.files: raise Violation("no RECORD")
    raw = w.data[rec].decode("utf-8")
    rows = list(csv.reader(io.StringIO(raw, newline="")))
    names = [r[0] if r else None for r in rows]
    if any(len(r) != 3 for r in rows): raise Violation(f"malformed RECORD line: {[r for r in rows if len(r) != 3][:3]}")
    if len(set(names)) != len(names): raise Violation(f"RECORD lists files twice: {sorted(n for n in set(names) if names.count(n) > 1)}")
    if set(names) != set(w.files): raise Violation(f"RECORD lists {sorted(set(names) - set(w.files))} that are not in the archive and lacks {sorted(set(w.files) - set(names))}")
    for n, h, s in rows:
        if n == rec:
            if h or s: raise Violation("RECORD has a hash or size for itself")
            continue
        d = w.data[n]
        want = "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(d).digest()).rstrip(b"=").decode()
        if h != want or s != str(len(d)): raise Violation(f"RECORD of {n}: {h},{s}; the file has {want},{len(d)}")
    last = [n for n in w.names if n.startswith(di + "/") and "/" not in n[len(di) + 1:] and n != di + "/"]
    if last[-1] != rec: raise Violation(f"{last[-1]} comes after RECORD")
    first = next(i for i, n in enumerate(w.names) if n.split("/")[0] == di)
    late = [n for n in w.names[first:] if n.split("/")[0] != di]
    if late: raise Violation(f"{late} come after the dist-info directory began")
    if any(n.rsplit("/", 1)[-1] == "RECORD.jws" and n.startswith(di + "/") for n in w.names): raise Violation("RECORD.jws is still there")
    if len(set(w.names)) != len(w.names): raise Violation("members are stored twice")


def headers(text):
    hs = []
    for l in text.split("\n\n")[0].split("\n"):
        if not l.strip(): continue
        if l[0] in " \t": hs[-1] = (hs[-1][0], hs[-1][1] + "\n" + l)
        else:
            k, _, v = l.partition(":")
            hs.append((k, v.strip()))
    return hs


def tags(case, m, x, w, src=None):
    """C12"""
    from .model import POL  # noqa: F401
    src = src or Whl(m.wheel)
    a = src.data[src.di + "/WHEEL"].decode("utf-8", "surrogateescape").replace("\r\n", "\n")
    b = w.data[w.di + "/WHEEL"].decode("utf-8", "surrogateescape")
    if x.opts.get("no_update"):
        if a != b.replace("\r\n", "\n"): raise Violation(f"--no-update-tags, but WHEEL changed: {a!r} -> {b!r}")
        if w.name != src.name: raise Violation(f"--no-update-tags, but the name is {w.name}")
        return
    ha, hb = headers(a), headers(b)
    ta = [v for k, v in ha if k == "Tag"]
    tb = [v for k, v in hb if k == "Tag"]
    was_any = "any" in case["plats"] and x.plats != ["any"]
    arch, libc = x.A.arch, x.A.libc
    drop = set(repairs.replaced(x.pol.name, arch, libc)) | ({"any"} if was_any else set())
    pairs = list(dict.fromkeys("-".join(t.split("-")[:2]) for t in ta))
    want = set(t for t in ta if t.split("-", 2)[2] not in drop) | {f"{q}-{p}" for q in pairs for p in x.abis}
    if set(tb) != want: raise Violation(f"WHEEL tags {sorted(tb)}, expected {sorted(want)} (input {ta})")
    if len(set(tb)) != len(tb) and len(set(ta)) == len(ta): raise Violation(f"duplicate WHEEL tags {tb}")
    oa = [(k, v) for k, v in ha if k not in ("Tag", "Root-Is-Purelib")]
    ob = [(k, v) for k, v in hb if k not in ("Tag", "Root-Is-Purelib")]
    if sorted(oa) != sorted(ob): raise Violation(f"WHEEL headers {oa} -> {ob}")
    ra = [v for k, v in ha if k == "Root-Is-Purelib"]
    rb = [v for k, v in hb if k == "Root-Is-Purelib"]
    if was_any:
        if [v.lower() for v in rb] != ["false"]: raise Violation(f"'any' was replaced, Root-Is-Purelib is {rb}")
    elif ra != rb: raise Violation(f"Root-Is-Purelib {ra} -> {rb}")
    pre = w.name.rsplit("-", 1)[0]
    if pre != src.name.rsplit("-", 1)[0]: raise Violation(f"name {src.name} -> {w.name}")
    pl = w.name.rsplit("-", 1)[1][:-4].split(".")
    if pl != sorted(set(pl)): raise Violation(f"platform tags not sorted or duplicate: {pl}")
    if pl != x.plats: raise Violation(f"platform tags {pl}, expected {x.plats}")


def rpaths(case, m, x, w):
    """C15"""
    android = x.A.libc == "android"
    src = Whl(m.wheel)
    x.origins = {np: Elf(src.data[p]) for np, (p, _, _, _) in x.rewired.items()}
    for np, (p, need, keep, new) in x.rewired.items():
        e = Elf(w.data[np])
        where = posixpath.dirname(np)
        has, other = (e.runpath, e.rpath) if android else (e.rpath, e.runpath)
        o = x.origins[np]
        # patchelf leaves a second tag alone or sets both alike; the loader ignores DT_RPATH then (and Android always)
        if o.rpath is not None and o.runpath is not None and (other == has or android): other = None
        if has is None or other is not None: raise Violation(f"{np}: RPATH {e.rpath!r} RUNPATH {e.runpath!r}")
        es = has.split(":")
        for q in es:
            if not (q.startswith("$ORIGIN") or q.startswith("${ORIGIN}")):
                f = repairs.norm_rpath(q, where)
                if not f.startswith("/W"): raise Violation(f"{np}: entry {q!r} is not $ORIGIN-relative")
            f = posixpath.normpath(repairs.norm_rpath(q, where))
            if f != "/W" and not f.startswith("/W/"): raise Violation(f"{np}: entry {q!r} points to {f}, outside the wheel")
        if len(set(es)) != len(es): raise Violation(f"{np}: duplicate entries {es}")
        def dest(q): return posixpath.normpath(repairs.norm_rpath(q, where))
        if [q for q in keep if q not in es]: raise Violation(f"{np}: entries {keep} pointed inside the wheel, now {es}")
        pos = [es.index(q) for q in keep]
        if pos != sorted(pos): raise Violation(f"{np}: entries {keep} reordered: {es}")
        if dest(es[-1]) != "/W/" + x.dest and "/W/" + x.dest not in [dest(q) for q in keep]: raise Violation(f"{np}: {es} does not end with the library directory {x.dest}")
        if "/W/" + x.dest not in [dest(q) for q in es]: raise Violation(f"{np}: {es} does not reach the library directory {x.dest}")
        extra = [q for q in es if q not in keep]
        if len(extra) > 1 or (extra and dest(extra[0]) != "/W/" + x.dest): raise Violation(f"{np}: entries {extra} come from nowhere (kept: {keep})")
    for np, (r, need, inner) in x.grafted.items():
        e = Elf(w.data[np])
        if android: want = (None, "$ORIGIN") if inner else (None, None)
        else: want = ("$ORIGIN", None) if inner else (None, None)
        o = Elf(x.rd(r))
        # with both tags in the original, patchelf sets one or both; bionic ignores DT_RPATH
        if android and inner and o.rpath is not None and o.runpath is not None and e.runpath == "$ORIGIN": continue
        if (e.rpath, e.runpath) != want: raise Violation(f"{np}: RPATH {e.rpath!r} RUNPATH {e.runpath!r}, expected {want}")


def grafts(case, m, x, w):
    """C16"""
    inlib = {n for n in w.files if posixpath.dirname(n) == x.dest}
    src = Whl(m.wheel) if os.path.exists(m.wheel) else None
    for np, (r, need, inner) in x.grafted.items():
        if np not in inlib: raise Violation(f"{np} (for {r}) is missing; {x.dest} holds {sorted(inlib)}")
        e = Elf(w.data[np])
        orig = x.rd(r)
        o = Elf(orig)
        base = posixpath.basename(np)
        if e.soname != base: raise Violation(f"{np}: soname {e.soname!r}")
        if e.needed != need: raise Violation(f"{np}: needs {e.needed}, expected {need}")
        md = (os.stat(m.real(r)).st_mode & 0o777) | 0o200
        got = mode_of(w.mode[np])
        if got != md and got not in {(os.stat(m.real(q)).st_mode & 0o777) | 0o200 for q in x.by_new[base]}: raise Violation(f"{np}: permissions {got:o}, expected {md:o}")
        names = {s: x.grafts[q] for s, q in x.gmap.get(r, {}).items() if q}
        same_code(o, e, names, f"{np} against {r}", strip=bool(x.opts.get("strip")))
    extra = inlib - set(x.grafted) - (set(src.files) if src else set())
    extra -= set(x.moved.values())
    if extra: raise Violation(f"unexpected files in {x.dest}: {sorted(extra)}")
    for np, (p, need, keep, new) in x.rewired.items():
        e = Elf(w.data[np])
        if e.needed != need: raise Violation(f"{np}: needs {e.needed}, expected {need}")
